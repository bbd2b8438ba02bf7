"""Writes properties.jsonl, MANIFEST.json and known_findings.json from tools/meta.py (kept in one place so that
they stay in step)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import meta
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + "/properties.jsonl", "w", encoding="utf8") as f:
    for p in meta.PROPS:
        q = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                         "observe_at": p.get("observe", ["aksharamukha.transliterate.process"]), "hook_needed": None}}
        if p.get("state"):
            q["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]]
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
PY = "/opt/venv/bin/python -m mc run %s %s"
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -c 'import sys'",
     "checks": [{"property": p["id"], "quick_cmd": PY % (p["id"], "quick"), "thorough_cmd": PY % (p["id"], "thorough"),
                 "technique": p["technique"], "level": p["level"], "level_note": p["note"]}
                for p in meta.PROPS if not p.get("na")],
     "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in meta.PROPS if p.get("na")],
     "notes": "Explicit-state / exhaustive bounded exploration of the real code by mc/ (pure Python, standard library only); see DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), ensure_ascii=False, indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
json.dump({"findings": meta.FINDINGS}, open(V + "/known_findings.json", "w", encoding="utf8"), ensure_ascii=False, indent=1)
open(V + "/known_findings.json", "a").write("\n")
print(len(meta.PROPS), "properties", len(m["checks"]), "checks", len(meta.FINDINGS), "findings")

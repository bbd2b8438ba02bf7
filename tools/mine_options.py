"""Drafts mc/spec/option_rules.json (which is then reviewed and committed; no check runs this): which replacements,
in which order, each option stands for.  Run by hand: /opt/venv/bin/python tools/mine_options.py"""
import json, os, re, sys, warnings
warnings.simplefilter("ignore")
sys.path.insert(0, "/verif")
from mc import deva, env
from mc.api import conv_lines, conv1, T
from mc.scripts import LONG
import aksharamukha.PostProcess as POST, aksharamukha.PreProcess as PRE
LOG = None


class S(str):
    def replace(self, a, b, *n):
        if n: raise ValueError
        LOG.append(["r", str(a), str(b)])
        return S(str.replace(self, a, b))


real = re.sub


def sub(p, r, s, *a, **k):
    if not isinstance(s, S) or a or k or not isinstance(r, str):
        return real(p, r, s, *a, **k)
    LOG.append(["s", p if isinstance(p, str) else p.pattern, r])
    return S(real(p, r, s))


def apply(rules, t):
    for k, a, b in rules:
        t = t.replace(a, b) if k == "r" else real(a, b, t)
    return t


O = json.load(open("/verif/mc/spec/options.json", encoding="utf8"))
W = list(dict.fromkeys(list(deva.fam_akshara(deva.FULL)) + list(LONG) + ["०१२३", "रामः । हरिः ॥", "ॐ"] + list(deva.fam_cluster2(deva.CORE, signs=["", "े"], ayog=False)) + list(deva.fam_hiatus(deva.CORE, lead=["", "क", "र"])) + list(deva.fam_cvc(deva.CORE, first=["क", "र", "न", "त", "म"], signs=["", "ि"]))))
out, skipped = {"post": {}, "pre": {}}, {}
for kind, mod in (("post", POST), ("pre", PRE)):
    for o, ex in O[kind].items():
        f = getattr(mod, o, None)
        if f is None:
            skipped[o] = "no function"
            continue
        src, tgt, t = ex[0]
        texts = conv_lines("Devanagari", src, W) if src != "Devanagari" else W
        if kind == "post":
            texts = conv_lines(src, tgt, texts)
        texts = list(texts) + [t, "abc", ""]
        logs = []
        re.sub = sub
        try:
            for t in texts[:400] + texts[-3:]:
                LOG = []
                f(S(t))
                logs.append(json.dumps(LOG))
        except Exception as e:
            skipped[o] = "raises %r" % e
            continue
        finally:
            re.sub = real
        if len(set(logs)) > 1:
            skipped[o] = "depends on the text"
            continue
        rules = json.loads(logs[0])
        bad = [(t, f(t), apply(rules, t)) for t in texts if f(t) != apply(rules, t)]
        if bad:
            skipped[o] = "not these replacements alone %r" % (bad[0],)
            continue
        # rules without an effect anywhere in the explored words are kept: they belong to the option
        out[kind][o] = rules
# the conventions of nativization, by target
import aksharamukha.PostOptions as PO
from collections import Counter
from mc.scripts import INDIC, LATIN, SEMITIC
nat = {}
for X in INDIC + LATIN + SEMITIC:
    base, want = conv_lines("Devanagari", X, W), conv_lines("Devanagari", X, W, True)
    f = lambda s: (POST.RemoveDiacriticsTamil if X == "Tamil" else POST.RemoveDiacritics)(PO.ApplyScriptDefaults(s, "Devanagari", X))
    logs = set()
    re.sub = sub
    try:
        for t in base[:300] + [""]:
            LOG = []
            f(S(t))
            logs.add(json.dumps(LOG))
    except Exception as e:
        continue
    finally:
        re.sub = real
    R = json.loads(logs.pop())
    if not logs and all(apply(R, b) == n for b, n in zip(base, want)):
        nat[X] = R
common = json.loads(Counter(json.dumps(v) for v in nat.values()).most_common(1)[0][0])
json.dump({"common": common, "plain": sorted(k for k in nat if nat[k] == common), "rules": {k: v for k, v in sorted(nat.items()) if v != common}},
          open("/verif/mc/spec/native_rules.json", "w", encoding="utf8"), ensure_ascii=False, indent=0)
# written by hand: one pass over all vowels
out["post"]["JavaneseAvowels"] = json.load(open("/verif/mc/spec/option_rules.json", encoding="utf8"))["post"]["JavaneseAvowels"]
json.dump(out, open("/verif/mc/spec/option_rules.json", "w", encoding="utf8"), ensure_ascii=False, indent=0)
print({k: len(v) for k, v in out.items()}, len(skipped))
for k, v in skipped.items():
    print(k, v[:150])

"""Drafts mc/spec/option_back.json (reviewed and committed; no check runs this): spelling options after which a text
still reads as the same word (with the option of the same name for reading, where there is one)."""
import json, sys
sys.path.insert(0, "/verif")
from mc.checks.c21 import OPTS, words
from mc.api import conv_lines
W, out = words(True), []
for o in sorted(OPTS["post"]):
    for s, g in dict.fromkeys((a, b) for a, b, w in OPTS["post"][o]):
        if s != "Devanagari":
            continue
        ch = [(a, b) for a, b in zip(conv_lines(s, g, W), conv_lines(s, g, W, post=[o])) if a != b]
        if not ch:
            continue
        r = conv_lines(g, s, [a for a, b in ch])
        for pre in ([], [o] if any(x[0] == g for x in OPTS["pre"].get(o, [])) else None):
            if pre is not None and conv_lines(g, s, [b for a, b in ch], pre=pre) == r:
                out.append([o, g, pre])
                break
json.dump(out, open("/verif/mc/spec/option_back.json", "w", encoding="utf8"), ensure_ascii=False, indent=0)
print(len(out), len({x[0] for x in out}))

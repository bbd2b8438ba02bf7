"""Draft mc/spec/pairs.json from the current tree: the written form of the consonant pairs and words which the
tables of mc/spec/tables.json leave out (doubled consonants, ligatures, tall signs ...).  Run by hand; the result
is reviewed and committed, no check calls this."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from collections import defaultdict
from mc import deva, model
from mc.api import conv_lines
from mc.checks import c04

out = {}
for X, t in c04.TABLES.items():
    t = {k: v for k, v in t.items() if k not in ("pairs", "words")}
    m, W = model.Model(t), {}
    for f, g in c04.families(t, False):
        if f == "cluster3":
            continue
        for ws in deva.batches(g()):
            W.update((w, 1) for w in ws if m.word(w) is None)
    if not W:
        continue
    W = list(W)
    groups, words = defaultdict(list), {}
    for w, o in zip(W, conv_lines("Devanagari", X, W)):
        ak = model.parse(w)
        if len(ak) == 1 and ak[0][0] == "C" and len(ak[0][1]) == 2:
            groups["्".join(ak[0][1])].append((ak[0], w, o))
        else:
            words[w] = o
    pairs = {}
    for p, g in groups.items():
        core, dead, left = defaultdict(int), defaultdict(int), []
        for a, w, o in g:
            r = a[2] + a[3]
            if r in t["rimes"]:
                pre, post = t["rimes"][r]
                if o.startswith(pre) and o.endswith(post):
                    core[o[len(pre):len(o) - len(post)]] += 1
            e = m.akshara(("C", a[1][1:], a[2], a[3]))
            if e and o.endswith(e):
                dead[o[:len(o) - len(e)]] += 1
        ent = []
        c = max(core, key=core.get) if core else None
        d = max(dead, key=dead.get) if dead else None
        ent = [c, d] if c is None or d is None or core[c] >= dead[d] else [c, d]
        prefer = "core" if c is not None and (d is None or core[c] >= dead[d]) else "dead"
        pairs[p] = [c if prefer == "core" else None, d]
        for a, w, o in g:
            t2 = dict(t, pairs={p: pairs[p]})
            if model.Model(t2).word(w) != o:
                left.append((w, o))
        if len(left) == len(g):
            pairs.pop(p)
        words.update(left)
    if X == "PhagsPa":
        words = {w: o for w, o in words.items() if len(model.parse(w)) == 1}
    out[X] = {"pairs": pairs, "words": words}
    print(X, len(W), "pairs", len(pairs), "words", len(words))
json.dump(out, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "mc", "spec", "pairs.json"), "w", encoding="utf8"),
          ensure_ascii=False, indent=0, sort_keys=True)

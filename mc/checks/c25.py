"""C25  an option of one script leaves the conversions of all other scripts alone"""
import json, os
from .. import core, deva, env
from ..api import conv1, Raised
from ..scripts import ALL, skip_pair

_p = os.path.join(env.VERIF, "mc", "spec", "option_scope.json")
SCOPE = json.load(open(_p, encoding="utf8")) if os.path.exists(_p) else {"pre": {}, "post": {}}
F, C = deva.FULL, deva.CORE


def words(thorough):
    few = ["", "ा", "ि", "ु", "े", "ृ"]
    w = [v + y for v in F.vowels for y in ("", "ं")] + [c + s for c in F.cons for s in few] + [c + "ं" for c in C.cons] + \
        [c + "्" for c in C.cons] + [c + "ो" for c in C.cons] + ["कः", "कँ", "खः", "पँ"]
    first = C.cons if thorough else list("कगङचजञटणतदनपबमयरलवशसह")
    w += [a + "्" + b for a in first for b in (C.cons if thorough else list("कगचजटतथदधनपमयरलवशषसह"))]
    w += ["क" + c + "ि" for c in F.cons] + ["क" + v for v in C.vowels] + ["क्ष्म", "र्त्स्न्य", "न्त्र", "ङ्क्त", "ॐ", "ऽ", "कऽ"]
    w += ["सं" + c + "त" for c in C.cons]
    return w + ["राम कृष्ण हरि । गोविन्द ॥", "१२३ ४५६ ७८९ ०", "क॑ ख॒ ग", "तत्त्वमसि सत्यं ज्ञानम् अनन्तं ब्रह्म", "काक पाद जन घर", "धर्म अर्थ"]


class C25(core.Check):
    id = "C25"
    rule = "one evaluation = one word converted with and without one option; distinct = outputs (once per script)"

    def tasks(self):
        return [[k, x] for k in ("post", "pre") for x in ALL if x != "Devanagari"]

    def texts(self, k, x):
        w = words(self.thorough)
        return w if k == "post" else conv1("Devanagari", x, "\n".join(w)).split("\n")

    def outcome(self, k, x, t, opts=()):
        a, b = ("Devanagari", x) if k == "post" else (x, "Devanagari")
        return conv1(a, b, t, False, **({k: opts} if opts else {}))

    def run(self, task):
        k, x = task
        c = {"evaluations": 0, "distinct_nontrivial": 0, "options": 0}
        sus = []
        ws = self.texts(k, x)
        t = "\n".join(ws)
        base = self.outcome(k, x, t)
        c["distinct_nontrivial"] = len(set(base.split("\n")))
        for o, scope in SCOPE[k].items():
            if x in scope:
                continue
            c["options"] += 1
            c["evaluations"] += len(ws)
            if self.outcome(k, x, t, [o]) != base:
                for w in ws:
                    if self.outcome(k, x, w, [o]) != self.outcome(k, x, w):
                        sus.append({"kind": k, "script": x, "option": o, "text": w})
                        break
                else:
                    sus.append({"kind": k, "script": x, "option": o, "text": t})
        return c, sus, [{"script": x, "kind": k, "text": ws[40]}]

    def judge(self, case):
        k, x, t = case["kind"], case["script"], case["text"]
        p, q = self.outcome(k, x, t), self.outcome(k, x, t, [case["option"]])
        if p != q:
            return "the option %s changes %s %s %r: %r instead of %r" % (
                case["option"], "Devanagari to" if k == "post" else "to Devanagari from", x, t[:80], q[:80], p[:80])


CHECK = C25

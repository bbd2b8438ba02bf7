"""C26  an alternative letter of a script is read like the letters it stands for, wherever it stands"""
import json, os
from .. import core, deva, env
from ..api import conv1
from ..scripts import INDIC

D = "Devanagari"
_p = os.path.join(env.VERIF, "mc", "spec", "alternatives.json")
ALT = json.load(open(_p, encoding="utf8")) if os.path.exists(_p) else {}
C = deva.CORE.cons
SIGNS = ["ा", "ि", "ी", "ु", "ू", "े", "ो", "ै", "ौ"]


def contexts(kind, thorough):
    """(left, right) in Devanagari; kind: letter, vowel, sign, final, medial, mark, digit"""
    few = list("कगचजटतदनपबमयरलवशसह")
    C2 = C if thorough else few
    left = [""] + C + [c + "्" for c in C2] + [c + s for c in few for s in ("ा", "ि", "ु", "े", "ो")] + ["अ", "आ", "इ", "उ", "ए"]
    right = [""] + SIGNS + ["्" + c for c in C2] + C + [c + s for c in few for s in ("ि", "े")] + ["ं", "ः", "अ", "इ", "उ"]
    short = ["", "क", "कि", "राम", "अ", "ता"]
    if kind == "letter":
        return [(l, r) for l in left for r in ("", "ि", "े", "त", "न्त", "ं")] + [(l, r) for l in short for r in right]
    if kind == "vowel":
        left = [x for x in left if not x.endswith("्")]
        right = [""] + C + [c + s for c in few for s in ("ि", "े")] + ["ं", "ः"]
        return [(l, r) for l in left for r in ("", "त", "ं")] + [(l, r) for l in short for r in right]
    if kind == "sign":
        left = [p + c for p in ("", "अ", "क", "कि") for c in C] + [a + "्" + c for a in few for c in few]
        return [(l, r) for l in left for r in ("", "त", "ं", "कि")] + [(l, r) for l in few for r in [""] + C + ["ः"]]
    if kind == "final":
        left = C + [c + s for c in C for s in ("ा", "ि", "ु", "े", "ो")] + ["अ", "आ", "इ", "उ", "ए", "कक", "काक", "राम"]
        right = [""] + C2 + [c + "ि" for c in few] + ["अ", "इ"]
        return [(l, r) for l in left for r in ("", "त", "रि")] + [(l, r) for l in ("क", "कि", "रा", "अ") for r in right]
    if kind == "medial":
        right = [""] + SIGNS + C + ["ं"]
        return [(l + c, r) for l in ("", "क", "कि") for c in C for r in right]
    if kind == "silent":
        left = C + [c + s for c in C for s in ("ा", "ि", "ु", "े")] + ["अ", "इ", "उ"]
        return [(l, r) for l in left for r in ("", "त", "कि")]
    if kind == "own":      # read as written in the table, beside any letter
        left = ["", "अ", "इ", "राम"] + C + [c + s for c in few for s in ("ा", "ि", "ु", "े")]
        return [(l, r) for l in left for r in ("", "त", "कि")] + [(l, r) for l in ("", "क", "कि") for r in C]
    if kind == "mark":
        left = C + [c + s for c in C for s in ("ा", "ि", "ु", "े")] + ["अ", "इ", "उ"]
        return [(l, r) for l in left for r in ("", "त", "कि")]
    return [(l, r) for l in ("", "१", "क", "कि", "२१") for r in ("", "१", "क", "कि")]


# scripts that read their own letters for one language, not through the common letters
OWN = {"Thaana", "Lao", "Lao2"}
TARGETS = [(D, False), (D, True), ("IAST", False), ("Telugu", False), ("Tamil", True), ("Hebr", False)]


class C26(core.Check):
    id = "C26"
    rule = "one evaluation = one text with an alternative letter read into one target; distinct = distinct results"

    def tasks(self):
        return [[s, c] for s in sorted(ALT) for c in ALT[s]]

    def ctx(self, s, kind):
        K = contexts(kind, self.thorough)
        L = conv1(D, s, "\n".join(k[0] for k in K)).split("\n")
        R = conv1(D, s, "\n".join(k[1] for k in K)).split("\n")
        if kind == "own":
            K = list(zip(*(conv1(s, D, "\n".join(x)).split("\n") for x in (L, R))))
        return list(zip(L, R, K))

    def run(self, task):
        s, ch = task
        eq, kind = ALT[s][ch]
        cx = self.ctx(s, kind)
        c = {"evaluations": 0, "distinct_nontrivial": 0}
        sus = []
        X = [l + ch + r for l, r, _ in cx]
        f = s
        if kind == "own":
            f = D
            Y = [k[0] + eq + k[1] for _, _, k in cx]
        else:
            Y = [l + eq + r for l, r, _ in cx]
        for b, nat in TARGETS:
            if b == s or kind == "own" and (nat or b != D and s in OWN):
                continue
            x, y = conv1(s, b, "\n".join(X), nat).split("\n"), self.same(f, b, "\n".join(Y), nat).split("\n")
            c["evaluations"] += len(X)
            c["distinct_nontrivial"] += len(set(x))
            if x != y:
                for i in range(len(X)):
                    if len(x) != len(X) or len(y) != len(Y) or x[i] != y[i]:
                        sus.append({"script": s, "from": f, "to": b, "nativize": nat, "text": X[i], "same": Y[i]})
        return c, sus, [{"script": s, "text": X[3]}]

    def same(self, f, b, t, nat):
        return t if f == b else conv1(f, b, t, nat)

    def judge(self, case):
        s, b, nat = case["script"], case["to"], case["nativize"]
        x, y = conv1(s, b, case["text"], nat), self.same(case["from"], b, case["same"], nat)
        if x != y:
            return "%s to %s%s: %r is read as %r, but %r, which it stands for, as %r" % (
                s, b, " nativized" if nat else "", case["text"], x, case["same"], y)


CHECK = C26

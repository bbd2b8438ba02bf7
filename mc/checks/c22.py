"""C22  nativization applies exactly the spelling conventions of the target script"""
import json, os
from .. import core, deva, env
from ..api import conv1, conv_lines
from ..scripts import INDIC, LATIN, LONG
from .c21 import apply, words

SPEC = json.load(open(os.path.join(env.VERIF, "mc", "spec", "native_rules.json"), encoding="utf8"))
RULES, COMMON, SAME = SPEC["rules"], SPEC["common"], SPEC["plain"]
D = "Devanagari"
FEW = ["Devanagari", "Telugu", "Tamil", "Bengali", "Gurmukhi", "Sinhala", "Thai", "Tibetan", "Burmese", "Grantha", "IAST", "ISO", "HK", "RomanReadable"]
# sources whose reading depends on nativization, or which stand for another one in each conversion
OTHER = {"Hebrew", "Urdu", "Shahmukhi", "Thaana", "RomanSemitic", "RomanLoC"}


def rules(x):
    return RULES.get(x, COMMON)


class C22(core.Check):
    id = "C22"
    level = "model_checking"
    rule = "one evaluation = one word converted with and without nativization; distinct = distinct texts that nativization changes"

    def tasks(self):
        t = []
        for x in SAME + sorted(RULES):
            src = INDIC + LATIN if x in RULES or self.thorough else FEW
            t += [[s, x] for s in src if s != x and s not in OTHER]
        return [t[i::200] for i in range(200)]

    def prepare(self):
        self.W = words(self.thorough)
        A = deva.CORE.cons
        self.X = [a + "्" + b + "्" + c for a in ["न", "म", "ङ", "ञ", "ण", "र", "त", "स", "क"] for b in A for c in ["य", "र", "व", "त", "म", "न"]]
        self.X += [v + a + "ं" + b + s for v in ["", "अ"] for a in ["क", "न", "व", "य"] for b in A for s in ["", "ु", "े"]]
        self.X += [a + n + " " + b for a in ["कि", "न", "म"] for n in ["न्", "म्", "ं", "ः", ""] for b in ["न", "य", "व", "त", "अ", "ई"]]

        P = [n + "्" + c for n, r in zip("ङञणनम", ["कखगघ", "चछजझ", "टठडढ", "तथदध", "पफबभ"]) for c in r]
        P += ["ंक", "ंय", "म्य", "न्न", "म्म", "ल्ल", "र्य", "क्ष", "ज्ञ", "य्य", "त्त", "न्र"]
        self.X += ["अ" + a + b for a in P for b in P]          # two clusters in adjoining syllables

    def source(self, s, more):
        W = self.W + self.X if more or self.thorough else self.W[::8]
        return W if s == D else [x for x in conv_lines(D, s, W) if "raised" not in x]

    def run(self, task):
        c, sus, smp = {"evaluations": 0, "distinct_nontrivial": 0}, [], []
        for s, x in task:
            X = self.source(s, x in RULES and s in FEW)
            a = conv_lines(s, x, X)
            b = conv_lines(s, x, X, True)
            ch = set()
            for w, p, q in zip(X, a, b):
                if p != q:
                    ch.add(q)
                if apply(rules(x), p) != q:
                    sus.append({"source": s, "target": x, "text": w})
            c["evaluations"] += len(X)
            for f, v in (("states", len(X)), ("transitions", len(rules(x)) * len(X)), ("traces_validated_against_impl", len(X))):
                c[f] = c.get(f, 0) + v
            c["distinct_nontrivial"] += len(ch)
            c["pairs_of_scripts"] = c.get("pairs_of_scripts", 0) + 1
            if ch and x in RULES:
                smp.append({"source": s, "target": x, "changed": len(ch), "example": sorted(ch)[0]})
        return c, sus[:200], smp[:1]

    def judge(self, k):
        p, q = (conv1(k["source"], k["target"], k["text"], n) for n in (False, True))
        e = apply(rules(k["target"]), p)
        if e != q:
            return "%s > %s nativized: %r is written %r instead of %r (without nativization %r)" % (k["source"], k["target"], k["text"], q, e, p)


CHECK = C22

"""C04  every Indian-type target script: the written form of every word is the one the script's letter table
and spelling rules prescribe (mc/model.py + mc/spec/tables.json), and letters whose Unicode names agree
correspond to each other."""
import json, os, unicodedata
from .. import core, deva, env, model
from ..api import conv_lines, conv1
from ..deva import VIR, AYOG, nfc, nfd

TABLES = model.load()
PAIRS = os.path.join(env.VERIF, "mc", "spec", "pairs.json")
for _x, _t in (json.load(open(PAIRS, encoding="utf8")) if os.path.exists(PAIRS) else {}).items():
    TABLES[_x] = dict(TABLES[_x], **_t)
# Phags-pa writes the syllables of a word apart
TABLES["PhagsPa"] = dict(TABLES["PhagsPa"], joiner=" ", outside=[x for x in TABLES["PhagsPa"]["outside"] if "+" not in x])
NAMES = json.load(open(os.path.join(env.VERIF, "mc", "spec", "names.json"), encoding="utf8"))
COMP = {"क़": "QA", "ख़": "KHHA", "ग़": "GHHA", "ज़": "ZA", "ड़": "DDDHA", "ढ़": "RHA", "फ़": "FA", "य़": "YYA"}


def alphabet(t):
    cons = [c for c in deva.FULL.cons if c in t["base"]]
    vow = [v for v in deva.VOWELS + deva.VOWELS_X if v in t["vowels"] and deva.SIGN_OF[v] in t["rimes"]]
    ayog = [y for y in AYOG if y in t["rimes"]]
    return deva.Alphabet(cons, vow, ayog, virama=VIR in t["rimes"], nofinal=["ऱ"])


def families(t, thorough):
    A = alphabet(t)
    few = [s for s in A.signs if thorough or s in ("", "ा", "ि", "े", "ृ")]
    fam = [("akshara", lambda: deva.fam_akshara(A)),
           ("hiatus", lambda: deva.fam_hiatus(A, lead=["", "क", "र"])),
           ("vowels3", lambda: deva.fam_vowels3(A, final=t is not TABLES["Hebrew"])),
           ("cvc", lambda: deva.fam_cvc(A, signs=few))]
    if t["sub"]:
        fam.append(("cluster2", lambda: deva.fam_cluster2(A)))
        if t.get("cluster3"):
            cs = [c for c in A.cons if c in deva.CORE.cons]
            fam.append(("cluster3", lambda: deva.fam_cluster3(A, cons=cs, signs=("", "ि") if thorough else ("",))))
    return fam


def unicode_named(prefix, ch, table):
    """the letter with the same Unicode name in the block `prefix`"""
    n = COMP.get(nfd(ch))
    n = "LETTER " + n if n else unicodedata.name(nfc(ch)).replace("DEVANAGARI ", "")
    if n in table["differs"]:
        return None
    try:
        return unicodedata.lookup(prefix + " " + n)
    except KeyError:
        return None


class C04(core.Check):
    id = "C04"
    level = "model_checking"

    def prepare(self):
        self.models = {X: model.Model(t) for X, t in TABLES.items()}

    def tasks(self):
        ts = []
        for X, t in TABLES.items():
            for i, (f, _) in enumerate(families(t, self.thorough)):
                ts.append(["model", X, f])
        ts.sort(key=lambda t: ["cluster2", "cvc", "cluster3", "vowels3", "hiatus", "akshara"].index(t[2]))
        return ts + [["names", X, ""] for X in NAMES]

    def run(self, task):
        kind, X, f = task
        c = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "outside_model": 0, "names_compared": 0}
        sus, smp = [], []
        if kind == "names":
            for d, e in self.named(X):
                c["names_compared"] += 1
                if nfc(conv1("Devanagari", X, d)) != nfc(e):
                    sus.append({"script": X, "letter": d, "expected": e})
            c["states"] += c["names_compared"]
            return c, sus, smp
        t = TABLES[X]
        m = self.models[X]
        m.steps = 0
        for ws in deva.batches(dict(families(t, self.thorough))[f]()):
            exp = [(w, e) for w in ws for e in [m.word(w)] if e is not None]
            c["outside_model"] += len(ws) - len(exp)
            out = conv_lines("Devanagari", X, [w for w, e in exp])
            c["states"] += len(exp)
            c["traces_validated_against_impl"] += len(exp)
            for (w, e), o in zip(exp, out):
                if e != o:
                    sus.append({"script": X, "word": w, "expected": e})
            if exp:
                smp.append({"script": X, "word": exp[-1][0], "written": out[-1]})
        c["transitions"] += m.steps
        return c, sus, smp

    def named(self, X):
        tb = NAMES[X]
        A = deva.FULL
        ka = unicode_named(tb["block"], "क", {"differs": []})
        for d in A.vowels + A.cons:
            e = unicode_named(tb["block"], d, tb)
            if e:
                yield d, e
        for d in A.signs[1:] + AYOG + [VIR]:
            e = unicode_named(tb["block"], d, tb)
            if e and d and ka:
                yield "क" + d, ka + e

    def judge(self, case):
        X = case["script"]
        w = case.get("word") or case["letter"]
        o = conv1("Devanagari", X, w)
        if nfc(o) != nfc(case["expected"]):
            return "Devanagari %r -> %s %r, expected %r" % (w, X, o, case["expected"])


CHECK = C04

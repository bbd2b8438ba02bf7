"""C05  the romanizations follow their published tables, in both directions"""
import re
from .. import core, deva, roman
from ..api import conv_lines, conv1
from ..deva import nfc, VIR
from .c02 import SAME, hiatus_pairs, NOT_DISTINGUISHED

FROM = ["Devanagari", "Telugu", "Bengali", "Gujarati", "Kannada"]
# vowels in hiatus that Baraha spells like one vowel: aa, ee, oo, ou
BARAHA = {"अ": "अआऐऔ", "ए": "एईए", "ऎ": "ऎई", "ऍ": "एऎई", "ओ": "ओउऊऔ", "ऒ": "ऒउऊऔ", "ऊ": "उ", "ऑ": "उऊओऒ"}


def ambiguous(scheme, w):
    """spelled like another word by the published scheme: only the writing direction is determined"""
    if "ड़्ह" in w:                    # r̤ + h is the aspirate r̤h
        return True
    rx = NOT_DISTINGUISHED.get(scheme)
    if rx and rx.search(w):
        return True
    if scheme.startswith("Baraha") and re.search("[शसछ]्ह|ज़्ह", w):     # Sh, sh, Ch, zh
        return True
    same = BARAHA if scheme.startswith("Baraha") else SAME.get(scheme)
    return bool(same) and any(y in same.get(x, "") for x, y in hiatus_pairs(w))


class C05(core.Check):
    id = "C05"
    level = "model_checking"

    def prepare(self):
        A = deva.FULL
        self.words = {
            "akshara": list(deva.fam_akshara(A)),
            "cluster2": list(deva.fam_cluster2(A)),
            "hiatus": list(deva.fam_hiatus(A)),
            "cvc": list(deva.fam_cvc(A)),
            "cluster3": list(deva.fam_cluster3(deva.CORE)),
        }
        self.schemes = {s: roman.Scheme(s) for s in roman.SCHEMES}

    def tasks(self):
        return [[s, f, lo, src] for s in self.schemes for f, ws in self.words.items() for lo in range(0, len(ws), 20000)
                for src in (FROM if self.thorough or f in ("akshara", "hiatus") else FROM[:1])]

    def run(self, task):
        s, f, lo, src = task
        m = self.schemes[s]
        c = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0}
        sus, smp = [], []
        for ws in deva.batches(self.words[f][lo:lo + 20000]):
            exp = [(w, m.word(w)) for w in ws]
            exp = [(w, e) for w, e in exp if e is not None]
            if src != "Devanagari":
                exp = [(w, e) for w, e in exp if not (src == "Bengali" and "व" in w)]
            if not exp:
                continue
            c["states"] += len(exp)
            c["transitions"] += sum(len(w) for w, e in exp)
            t = [w for w, e in exp] if src == "Devanagari" else conv_lines("Devanagari", src, [w for w, e in exp])
            out = conv_lines(src, s, t)
            for (w, e), x, o in zip(exp, t, out):
                if o != e and w not in ("ओं", "ओँ"):
                    sus.append({"from": src, "to": s, "text": x, "expected": e})
            if src == "Devanagari":
                back = conv_lines(s, src, [e for w, e in exp])
                for (w, e), o in zip(exp, back):
                    if nfc(o) != nfc(w) and w not in ("ओं", "ओँ") and not ambiguous(s, w):
                        sus.append({"from": s, "to": src, "text": e, "expected": w})
            c["traces_validated_against_impl"] += len(exp) * (2 if src == "Devanagari" else 1)
            smp.append({"scheme": s, "text": t[-1], "romanized": out[-1]})
        return c, sus, smp

    def judge(self, case):
        o = conv1(case["from"], case["to"], case["text"])
        if nfc(o) != nfc(case["expected"]):
            return "%s %r -> %s %r, expected %r" % (case["from"], case["text"], case["to"], o, case["expected"])


CHECK = C05

"""C02  lossless round trip between Indian scripts and the reversible romanizations"""
import re
from .. import core, deva
from ..api import conv_lines, conv1
from ..deva import nfc
from .c01 import MAIN, excluded as excluded_indic

ROMAN = ["IAST", "ISO", "HK", "Itrans", "Velthuis", "Titus", "WX", "SLP1", "RussianCyrillic"]

# vowel pairs in hiatus that a scheme without separators spells like one vowel (Velthuis "aa", ITRANS "ee", ...)
SAME = {
    "Velthuis": {"अ": "अआऐऔऎऒऍऑ", "इ": "इई", "ऐ": "इई", "उ": "उऊ", "औ": "उऊ"},
    "HK": {"अ": "ऎऒ", "आ": "ऎऒ", "ऋ": "ऋॠ"},
    "Itrans": {"अ": "अऐऔ", "इ": "इ", "उ": "उ", "ऋ": "इ", "ऌ": "इ", "ए": "एऍ", "ऐ": "इ", "ओ": "ओ", "औ": "उ"},
}
_V = deva.VOWELS + deva.VOWELS_X


def hiatus_pairs(w):
    for i in range(1, len(w)):
        if w[i] in _V and w[i - 1] not in deva.AYOG:
            yield (w[i - 1] if w[i - 1] in _V else deva.VOWEL_OF.get(w[i - 1], "अ")), w[i]


NOT_DISTINGUISHED = {
    # letter sequences that the published scheme itself spells alike
    "HK": re.compile("[ऌॡॢॣ]|ल्?[ृॄऋॠ]|क़्ह"),                          # lR, lRR, qh
    "Itrans": re.compile("[ऎऒॆॊऩ]|श्ह|स्ह|ज़्ह|ळ्ळ|ग़्य़|द्न्य|द्ञ्य|ज्ञ्य"),  # shh, sh, zh, LL, GY, dny
    "Velthuis": re.compile("ओ[ंँ][ऋॠऌॡ]"),                            # o.m followed by a full stop
}


def excluded(script, scheme, w):
    if excluded_indic(script, scheme, w) or "ड़्ह" in w:              # r̤ + h is the aspirate r̤h
        return True
    rx = NOT_DISTINGUISHED.get(scheme)
    if rx and rx.search(w):
        return True
    same = SAME.get(scheme)
    return bool(same) and any(y in same.get(x, "") for x, y in hiatus_pairs(w))


class C02(core.Check):
    id = "C02"
    rule = "one evaluation = one word romanized and read back for one script and scheme; distinct = distinct romanizations"

    def prepare(self):
        F = deva.FULL
        self.words = {
            "akshara": list(deva.fam_akshara(F)),
            "cluster2": list(deva.fam_cluster2(F)),
            "hiatus": list(deva.fam_hiatus(F)),
            "cvc": list(deva.fam_cvc(F)),
            "cluster3": list(deva.fam_cluster3(deva.CORE)),
        }

    def tasks(self):
        t = []
        for a in MAIN:
            for r in ROMAN:
                for f, ws in self.words.items():
                    if a != "Devanagari" and f in ("cvc", "cluster3") and not self.thorough:
                        continue
                    for lo in range(0, len(ws), 40000):
                        t.append([a, r, f, lo, lo + 40000])
        return t

    def run(self, task):
        a, r, f, lo, hi = task
        words = self.words[f][lo:hi]
        c = {"evaluations": 0, "distinct_nontrivial": 0}
        sus, smp = [], []
        for ws in deva.batches(words):
            ta = conv_lines("Devanagari", a, ws) if a != "Devanagari" else ws
            tb = conv_lines(a, r, ta)
            back = conv_lines(r, a, tb)
            c["evaluations"] += len(ws)
            c["distinct_nontrivial"] += len(set(tb))
            for w, x, y, z in zip(ws, ta, tb, back):
                if nfc(x) != nfc(z) and not excluded(a, r, w):
                    sus.append({"script": a, "scheme": r, "word": w})
            smp.append({"script": a, "scheme": r, "text": ta[-1], "romanized": tb[-1]})
        return c, sus, smp

    def judge(self, case):
        a, r, w = case["script"], case["scheme"], case["word"]
        x = conv1("Devanagari", a, w) if a != "Devanagari" else w
        y = conv1(a, r, x)
        z = conv1(r, a, y)
        if nfc(x) != nfc(z):
            return "%s %r -> %s %r -> %s %r" % (a, x, r, y, a, z)


CHECK = C02

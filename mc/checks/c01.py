"""C01  lossless round trip between the main Indian scripts, every ordered pair"""
from .. import core, deva
from ..api import conv_lines, conv1, Raised
from ..deva import nfc

MAIN = ["Devanagari", "Bengali", "Assamese", "Gujarati", "Gurmukhi", "Oriya", "Tamil", "Telugu",
        "Kannada", "Malayalam", "Sinhala"]


def excluded(a, b, w):
    """spellings that an orthography itself does not distinguish"""
    if w in ("ओं", "ओँ"):                       # the syllable om: written with the script's om sign
        return True
    if "Bengali" in (a, b) and "्व" in w:       # Bengali writes va and ba alike in conjuncts
        return True
    if "Tamil" in (a, b) and "स्री" in w:       # the Tamil srii ligature stands for sh-r-ii
        return True
    if "Gurmukhi" in (a, b) and ("ड़्ह" in w or "ड़्ढ़" in w):  # rha is written rra + virama + ha
        return True
    return False


class C01(core.Check):
    id = "C01"
    rule = "one evaluation = one word converted there and back for one ordered pair; distinct = distinct intermediate spellings"

    def prepare(self):
        F = deva.FULL
        self.words = {
            "akshara": list(deva.fam_akshara(F)),
            "cluster2": list(deva.fam_cluster2(F)),
            "hiatus": list(deva.fam_hiatus(F)),
            "cvc": list(deva.fam_cvc(F)) if self.thorough else list(deva.fam_cvc(F, signs=["", "ा", "ि", "ु","ृ", "े", "ो"])),
            "cluster3": list(deva.fam_cluster3(deva.CORE)),
        }

    def tasks(self):
        t = []
        for a in MAIN:
            for f, ws in self.words.items():
                for lo in range(0, len(ws), 20000):
                    t.append([a, f, lo, lo + 20000])
        return t

    def run(self, task):
        a, f, lo, hi = task
        words = self.words[f][lo:hi]
        c = {"evaluations": 0, "distinct_nontrivial": 0}
        sus, smp = [], []
        for ws in deva.batches(words):
            ta = conv_lines("Devanagari", a, ws) if a != "Devanagari" else ws
            for b in MAIN:
                if b == a:
                    continue
                tb = conv_lines(a, b, ta)
                back = conv_lines(b, a, tb)
                c["evaluations"] += len(ws)
                c["distinct_nontrivial"] += sum(1 for x, y in zip(ta, tb) if x != y)
                for w, x, y, z in zip(ws, ta, tb, back):
                    if nfc(x) != nfc(z) and not excluded(a, b, w):
                        sus.append({"from": a, "via": b, "word": w})
            smp.append({"from": a, "via": b, "text": ta[0], "in_via": tb[0]})
        return c, sus, smp

    def judge(self, case):
        a, b, w = case["from"], case["via"], case["word"]
        x = conv1("Devanagari", a, w) if a != "Devanagari" else w
        y = conv1(a, b, x)
        z = conv1(b, a, y)
        if nfc(x) != nfc(z):
            return "%s %r -> %s %r -> %s %r" % (a, x, b, y, a, z)


CHECK = C01

"""C20  Vedic accents are kept: all of them, in their places, and without an influence on the letters"""
import re
from .. import core, deva
from ..api import conv_lines, conv1
from ..scripts import INDIC, LATIN, LONG, SEMITIC, skip_pair

D = "Devanagari"
ACC = ["\u0951", "\u0952", "\u1cda"]                # udatta, anudatta, dirgha svarita
DROP = {"RomanReadable", "RomanColloquial"}         # simplified spellings: they write no accents
# a cluster of n and a consonant is written with a final sign that needs the vowel directly before it
FINAL = {"Lepcha", "PhagsPa"}
# targets without an avagraha of their own, for sources that write it as an apostrophe
PAIRS = {("BatakKaro", "IASTPali"), ("BatakKaro", "ThamLoCRomanLoC"), ("Limbu", "RomanLoC")}
ABJAD = {"Hebrew", "Shahmukhi", "Urdu", "Thaana"}
# what follows a syllable is written differently when an accent stands between (word-final forms, separators, final
# signs, contextual vowels): only the accents and the round trip are claimed there
CONTEXT = {"Ahom", "Aksharaa", "Buhid", "Avestan", "HanifiRohingya", "Hebrew", "JavaneseRomanLoC", "JavaneseSimpleRomanLoC", "Lao", "Lao2", "Lepcha",
           "Limbu", "LimbuLoC", "Makasar", "Mongolian", "Mro", "Multani", "OldPersian", "PhagsPa", "Rejang", "RomanKana",
           "RomanLoC", "Santali", "Shahmukhi", "SoraSompeng", "Tagbanwa", "TolongSiki", "Urdu", "Velthuis", "Wancho"}
MARK = re.compile("\u1cf4|\u0951|\u0952|\u1cda|\u2191\u2191?|\u2193|\u030d|\u030e|\u0331|\\\\['\"_]")
KIND = {"\u1cf4": 0, "\u0951": 0, "\u2191": 0, "\u030d": 0, "\\'": 0, "\u0952": 1, "\u2193": 1, "\u0331": 1, "\\_": 1,
        "\u1cda": 2, "\u2191\u2191": 2, "\u030e": 2, '\\"': 2}
# r before a consonant is a sign on the syllable before
REPHA = {"Balinese", "Javanese", "Sundanese"}
# om has a sign of its own; in Telugu the candra vowels are written with an accent mark
OM = re.compile("\u0913[\u0902\u0901]|[\u0950ऍऑॅॉ]|\u094d[\u0951\u0952\u1cda]")


def words(thorough):
    A = deva.CORE
    sgn = A.signs
    cons = A.cons if thorough else ["क", "न", "म", "य", "र", "ळ", "भ", "ह"]
    ak = [v + y for v in A.vowels for y in [""] + A.ayog] + [c + s + y for c in cons for s in sgn for y in [""] + A.ayog]
    ak += [c for c in A.cons if c not in cons] + ["क्ष", "ञ्ज", "र्थ", "त्त्र", "ज़", "ड़"]
    fol = ["", "ऽ", "।", "१", " क"] + ["अ", "ई", "उ", "ऋ", "ओ"] + ["क", "म", "य", "ह", "न्त", "र्म", "स्त्र"]
    if thorough:
        fol += A.vowels + A.cons + [c + "्" for c in A.cons]
    W = [a + v + f for a in ak for v in ACC for f in fol]
    W += [a + v + b + u for a in ak for v in ACC for b in ("नि", "मः") for u in ACC]
    W += [a + v + "नि" + u + "षं" + t for a in ak[:40] for v in ACC for u in ACC for t in ACC]
    W += [w + v for w in LONG for v in ACC]
    return [w for w in dict.fromkeys(W) if not OM.search(w)]


def plain(w):
    return w.translate({ord(c): None for c in ACC})


def strip(t):
    return MARK.sub("", t).replace("\u200b", "")


def seq(t, x=None):
    if x == "RussianCyrillic":                      # letters with a line below
        t = re.sub("(?<=[лрн])\u0331", "", t)
    k = [KIND[m] for m in MARK.findall(t)]
    if x == "Grantha":                              # has an udatta of its own, and writes the common one for the svarita
        k = [0 if m == "\u1cf4" else 2 if m == "\u0951" else KIND[m] for m in MARK.findall(t)]
    return k


def after(w):
    """an accent directly before a cluster"""
    return re.search("[\u0951\u0952\u1cda].\u094d", w)


class C20(core.Check):
    id = "C20"
    rule = "one evaluation = one accented word written, or read back, or converted between two scripts; distinct = distinct results"

    def tasks(self):
        return [["own", x] for x in INDIC + LATIN if x != D] + [["pair", x] for x in INDIC + LATIN if x not in DROP]

    def prepare(self):
        self.W = words(self.thorough)
        A = deva.CORE
        self.P = [a + v + f for a in ["क", "नि", "मं", "यः", "ळे", "ओ", "इ", "त्र"] for v in ACC for f in ["", "ऽ", "नः", "म्", "च"]]

    def run(self, task):
        kind, x = task
        c = {"evaluations": 0, "distinct_nontrivial": 0}
        sus, smp = [], []
        if kind == "own":
            W = self.W
            B = [plain(w) for w in W]
            for nat in (False, True):
                Y = conv_lines(D, x, W, nat)
                Y0 = conv_lines(D, x, B, nat)
                c["evaluations"] += len(Y)
                c["distinct_nontrivial"] += len(set(Y))
                if x in DROP:
                    bad = [w for w, y in zip(W, Y) if seq(y, x)]
                else:
                    bad = [w for w, y, y0 in zip(W, Y, Y0) if seq(y, x) != seq(w) or not self.letters(x, w, nat) and strip(y) != strip(y0)]
                sus += [{"kind": "write", "target": x, "word": w, "nativize": nat} for w in bad[:40]]
                if not nat and x not in DROP:
                    Z = conv_lines(x, D, Y)
                    Z0 = conv_lines(x, D, Y0)
                    c["evaluations"] += len(Z)
                    bad = [w for w, b, z, z0 in zip(W, B, Z, Z0) if b == z0 and w != z and not (x in FINAL and after(w))]
                    sus += [{"kind": "read", "target": x, "word": w} for w in bad[:40]]
                    smp.append({"target": x, "word": W[-1], "written": Y[-1], "read": Z[-1]})
        else:
            X = conv_lines(D, x, self.P)
            Q = [(w, t) for w, t, b in zip(self.P, X, conv_lines(x, D, X)) if b == w]
            for b in INDIC + LATIN + SEMITIC:
                if b == x or b in DROP or skip_pair(x, b) or b == "RomanSemitic" or (x, b) in PAIRS or b == "Grantha" and x in ABJAD or x == "RomanSemitic" and b in SEMITIC:
                    continue
                Y = conv_lines(x, b, [t for w, t in Q])
                c["evaluations"] += len(Y)
                c["distinct_nontrivial"] += len(set(Y))
                sus += [{"kind": "pair", "source": x, "target": b, "word": w, "text": t} for (w, t), y in zip(Q, Y) if seq(y, b) != seq(w)][:20]
        return c, sus, smp

    def letters(self, x, w, nat):
        """left out of the comparison of the letters"""
        # with nativization, an anusvara or n takes the form of the next letter unless an accent stands between
        return x in CONTEXT or nat or x in REPHA and after(w) or x in LATIN and re.search("[\u0951\u0952\u1cda][अ-औ]", w)

    def judge(self, s):
        w = s["word"]
        if s["kind"] == "pair":
            y = conv1(s["source"], s["target"], s["text"])
            if seq(y, s["target"]) != seq(w):
                return "%s -> %s: %r (%s) is written %r: the accents are not kept" % (s["source"], s["target"], s["text"], w, y)
            return None
        x = s["target"]
        if s["kind"] == "read":
            y = conv1(D, x, w)
            z = conv1(x, D, y)
            if z != w and conv1(x, D, conv1(D, x, plain(w))) == plain(w):
                return "%s is written %r in %s and read back as %s" % (w, y, x, z)
            return None
        nat = s["nativize"]
        y = conv1(D, x, w, nat)
        if x in DROP:
            return "%s is written %r in %s, with accents" % (w, y, x) if seq(y, x) else None
        if seq(y, x) != seq(w):
            return "%s is written %r in %s (nativize=%s): the accents are not kept" % (w, y, x, nat)
        y0 = conv1(D, x, plain(w), nat)
        if not self.letters(x, w, nat) and strip(y) != strip(y0):
            return "%s is written %r in %s, but %s is written %r" % (w, y, x, plain(w), y0)


CHECK = C20

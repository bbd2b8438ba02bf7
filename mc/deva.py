"""The pivot alphabet: Devanagari tokens named independently of the library, from Unicode names,
and the bounded word families enumerated by the checks.

A *word* is a string of aksharas; the families below are complete up to their stated bound, simplest
words first.  Strings are in canonical composed form (NFC), i.e. nukta letters are base + U+093C.
"""
import itertools, unicodedata

VOWELS = list("अआइईउऊऋॠऌॡएऐओऔ")            # a aa i ii u uu r rr l ll e ai o au
VOWELS_X = list("ऎऒऍऑ")                       # short e, short o, candra e, candra o
SIGNS = [""] + list("ािीुूृॄॢॣेैोौ")
SIGNS_X = list("ॆॊॅॉ")
CONS = list("कखगघङचछजझञटठडढणतथदधनपफबभमयरलवशषसह")
CONS_X = list("ळऴऱऩ")
NUKTA = [c + "़" for c in "कखगजडढफय"]
AYOG = ["ँ", "ं", "ः"]
VIR = "्"
DIGITS = list("०१२३४५६७८९")
SIGN_OF = dict(zip(VOWELS + VOWELS_X, SIGNS + SIGNS_X))
VOWEL_OF = {v: k for k, v in SIGN_OF.items()}

nfc = lambda s: unicodedata.normalize("NFC", s)
nfd = lambda s: unicodedata.normalize("NFD", s)


class Alphabet:
    def __init__(self, cons, vowels, ayog, virama=True, nofinal=()):
        self.cons = list(cons)
        self.vowels = list(vowels)
        self.signs = [SIGN_OF[v] for v in vowels]
        self.ayog = list(ayog)
        self.virama = virama
        self.nofinal = set(nofinal)      # consonants never used with a virama


FULL = Alphabet(CONS + CONS_X + NUKTA, VOWELS + VOWELS_X, AYOG, nofinal=["ऱ"])
CORE = Alphabet(CONS + ["ळ"], VOWELS, AYOG)


def fam_akshara(a):
    """every single akshara: vowel or consonant + vowel sign, with and without ayogavaha; bare virama"""
    for y in [""] + a.ayog:
        for v in a.vowels:
            yield v + y
    for c in a.cons:
        for s in a.signs:
            for y in [""] + a.ayog:
                yield c + s + y
        if a.virama and c not in a.nofinal:
            yield c + VIR


def fam_cluster2(a, cons=None, signs=None, ayog=True):
    """every two-consonant cluster with every vowel sign (ayogavaha on the inherent vowel), and final virama"""
    for x in cons or a.cons:
        if x in a.nofinal:
            continue
        for y in cons or a.cons:
            for s in signs or a.signs:
                yield x + VIR + y + s
            if ayog:
                for g in a.ayog:
                    yield x + VIR + y + g
            if y not in a.nofinal:
                yield x + VIR + y + VIR


def fam_cluster3(a, cons=None, signs=("ि",)):
    cons = [c for c in (cons or a.cons) if c not in a.nofinal]
    for t in itertools.product(cons, repeat=3):
        w = VIR.join(t)
        for s in signs:
            yield w + s


SHORTLIST = "अआइईउऊऋएऐओऔ"


def fam_hiatus(a, lead=None):
    """akshara (every vowel, optionally after one of the lead consonants, optional ayogavaha) + vowel letter"""
    lead = ["", "क", "र", "ल", "य", "व", "ह", "ळ"] if lead is None else lead
    lead = [c for c in lead if c == "" or c in a.cons]
    for c in lead:
        for s in (a.signs if c else a.vowels):
            for y in [""] + a.ayog:
                for v in a.vowels:
                    yield c + s + y + v


def fam_vowels3(a, final=True):
    """three vowels in a row, the first alone or after a consonant, and a consonant after them or none"""
    c = a.cons[0]
    vs = [v for v in a.vowels if v in SHORTLIST] or a.vowels
    for l in [""] + [c]:
        for x in a.vowels if not l else [""] + [s for s in a.signs if s in ("ा", "ि", "ु", "े")]:
            for y in vs:
                for z in a.vowels:
                    yield l + x + y + z
                    if final and (l or x in vs):
                        yield l + x + y + z + c


def fam_cvc(a, first=None, signs=None, ayog=True):
    """consonant + vowel sign (+ ayogavaha) + consonant, for every combination"""
    for x in first or a.cons:
        for s in signs or a.signs:
            for y in ([""] + a.ayog if ayog else [""]):
                for z in a.cons:
                    yield x + s + y + z


def fam_words3(cons, vowels, ayog, n=3):
    """every word of exactly n aksharas over a reduced alphabet (open, closed by ayogavaha, dead, or a cluster)"""
    ak = [v for v in vowels]
    for c in cons:
        for v in vowels:
            ak.append(c + SIGN_OF[v])
        ak.append(c + VIR)
    ak += [c + y for c in cons[:2] for y in ayog]
    for t in itertools.product(ak, repeat=n):
        w = "".join(t)
        # a virama directly before a vowel letter is not a well-formed akshara sequence
        if any(p.endswith(VIR) and q[0] in VOWELS + VOWELS_X for p, q in zip(t, t[1:])):
            continue
        yield w


def batches(it, n=4000):
    b = []
    for w in it:
        b.append(w)
        if len(b) >= n:
            yield b
            b = []
    if b:
        yield b

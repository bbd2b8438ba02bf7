"""C15  the route does not matter: source -> target gives what source -> Devanagari -> target gives"""
import re
from .. import core, deva
from ..api import conv_lines, conv1
from ..scripts import INDIC, LATIN, LONG, skip_pair
from .c11 import in_child

D = "Devanagari"
# sources that write for one language or for sound (their reading does not go through the common letters), and a
# virtual name
NOSRC = set("BatakKaro Takri Lao2 Urdu Shahmukhi RomanSemitic OldPersian Hebrew Thaana TaiLaing RomanLoC".split())
NOTGT = {"RomanLoC"}
SHAN = {"Shan", "ShanLoC", "KhamtiShan", "TaiLaing"}
BATAK = {"BatakKaro", "BatakManda", "BatakPakpak", "BatakSima", "BatakToba"}
BABIN = {"Buhid", "Hanunoo", "Tagalog", "Tagbanwa", "Buginese", "Makasar"} | BATAK
# pairs whose conversion is language-specific on purpose (the two scripts write the same language, or the target
# spells the sounds of the source language)
PAIRS = {("Oriya", "IPA"), ("Sinhala", "IPA"), ("Oriya", "RomanColloquial"), ("Tamil", "RomanColloquial"), ("Tamil", "RomanReadable"),
         ("Gurmukhi", "GurmukhiLoC"), ("Kharoshthi", "LimbuLoC"), ("KhomThai", "LimbuLoC"), ("Lao", "LaoPali"), ("LaoPali", "Lao"),
         ("Thai", "KhomThai"), ("Tibetan", "TibetanLoC")}
PAIRS |= {(a, "Wancho") for a in ("Cham", "Lepcha", "Marchen")} | {(a, "WarangCiti") for a in ("Cham", "Lepcha", "Marchen", "PhagsPa")}
PAIRS |= {("ThamLoC", b) for b in ("KhuenTham", "LaoTham", "LueTham", "TaiTham")}
OM = re.compile("ओ[ंँ]|औँ|ॐ")
SMALL = re.compile("[अएक][ंँ]?[अआइईउऊऋॠऌॡएऐओऔऍऎऑऒ]")
ASP = re.compile("्ह|[क-हऩऱऴ]़")


def apart(a, b):
    if a == b or skip_pair(a, b) or (a, b) in PAIRS or a in NOSRC or b in NOTGT or {a, b} <= SHAN or {a, b} <= BATAK:
        return True
    if "BengaliRaBa" in (a, b) or b == "Aksharaa" and a in INDIC:
        return True
    if a in ("LaoPali", "Thai") and b in BABIN:
        return True
    return a in LATIN and (a.startswith("Baraha") or b in ("RomanSemitic", "ShanLoCRomanLoC"))


def out(a, b, w):
    """words which a and b do not keep apart from another spelling"""
    if OM.search(w) or w == "॥":
        return True
    if a in LATIN and b in LATIN:
        # between two romanizations letters are exchanged directly, without the separators written from an Indian script
        return bool(SMALL.search(w) or ASP.search(w))
    return a in ("Kharoshthi", "SylotiNagri") and bool(SMALL.search(w))


def words(thorough):
    A = deva.FULL
    C = deva.CORE
    fam = [deva.fam_akshara(A if thorough else deva.Alphabet(A.cons, A.vowels, ["ं"])), LONG]
    if thorough:
        fam += [deva.fam_cluster2(A, signs=["", "ि", "ु", "े"]), deva.fam_hiatus(A), deva.fam_cvc(A, signs=["", "ि", "ु"])]
    else:
        fam += [deva.fam_cluster2(C, signs=[""], ayog=False), deva.fam_hiatus(C, lead=["", "क"])]
    return list(dict.fromkeys(w for f in fam for w in f))


class C15(core.Check):
    id = "C15"
    rule = "one evaluation = one word converted from one script directly and through Devanagari; distinct = distinct results"

    def tasks(self):
        return [[a] for a in INDIC + LATIN if a != D and a not in NOSRC]

    def prepare(self):
        self.W = words(self.thorough)

    def run(self, task):
        a, = task
        c = {"evaluations": 0, "distinct_nontrivial": 0, "pairs": 0}
        sus, smp = [], []
        X = conv_lines(D, a, self.W)
        P = [(w, x) for w, x, b in zip(self.W, X, conv_lines(a, D, X)) if w == b]
        for b in INDIC + LATIN:
            if b == D or apart(a, b):
                continue
            Q = [(w, x) for w, x in P if not out(a, b, w)]
            y = conv_lines(D, b, [w for w, _ in Q])
            z = conv_lines(a, b, [x for _, x in Q])
            c["evaluations"] += len(Q)
            c["distinct_nontrivial"] += len(set(z))
            c["pairs"] += 1
            n = 0
            for (w, x), p, q in zip(Q, y, z):
                if p != q:
                    sus.append({"source": a, "target": b, "word": w})
                    n += 1
                    if n > 30:
                        break
            if Q and b == "Thai":
                smp.append({"source": a, "target": b, "text": Q[-1][1], "result": z[-1]})
        return c, sus, smp

    def judge(self, x):
        a, b, w = x["source"], x["target"], x["word"]
        t = conv1(D, a, w)
        if conv1(a, D, t) != w:
            return None
        p, q = conv1(D, b, w), conv1(a, b, t)
        if p != q:
            return "%s %r -> %s directly %r, through Devanagari %r %r" % (a, t, b, q, w, p)


CHECK = C15

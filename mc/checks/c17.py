"""C17  automatic detection finds the script a text is written in, and converts as if it had been named"""
import sys, unicodedata, warnings
from .. import core, deva
from ..api import T, conv_lines
from ..scripts import INDIC, LATIN, SEMITIC, LONG, SHORT, vocabulary

MYAN = {"Burmese", "Shan", "KhamtiShan", "TaiLaing"}
ARAB = {"Arab", "Arab-Fa", "Urdu", "Shahmukhi"}
SYR = {"Syre", "Syrn", "Syrj"}
ROMAN = {"HK", "IAST", "ISO", "Itrans", "Titus", "Latn", "BurmeseRomanLoC"}
# several names share the characters of one script: what may be said about their text
MAY = {"Assamese": {"Bengali", "Assamese"}, "BengaliRaBa": {"Bengali", "Assamese"}, "KhmerLoC": {"Khmer"}, "LimbuLoC": {"Limbu"},
       "GurmukhiLoC": {"Gurmukhi"}, "KhomThai": {"Thai"}, "Ranjana": {"Devanagari"}, "SiddhamDevanagari": {"Devanagari"},
       "Pallava": {"Javanese"}, "GranthaPandya": {"Malayalam"}, "TamilExtended": {"Malayalam", "Tamil"}, "Vatteluttu": {"Tamil"},
       "TamilBrahmi": {"Brahmi"}, "TibetanLoC": {"Tibetan"}, "Mon": {"Mon", "Burmese"}, "Hebr": {"Hebrew"}, "Hebr-Ar": {"Hebrew"},
       "Brah": {"Brahmi"}, "Thaa": {"Thaana"}}
MAY.update({s: {"BatakKaro"} for s in "BatakManda BatakPakpak BatakSima BatakToba".split()})
MAY.update({s: {"TaiTham"} for s in "KhuenTham LaoTham LueTham ThamLoC".split()})
MAY.update({s: {"Lao", "LaoPali"} for s in ("Lao2", "LaoPali")})
MAY.update({s: MYAN for s in "Shan ShanLoC KhamtiShan TaiLaing".split()})
MAY.update({s: ARAB for s in "Urdu Shahmukhi Arab Arab-Fa Arab-Pa Arab-Ur".split()})
MAY.update({s: SYR for s in SYR})
OWN = "Avestan HanifiRohingya Mongolian Mro RussianCyrillic Santali SoraSompeng Wancho WarangCiti".split()
# shown with a font encoding of their own, or virtual
SKIP = {"GranthaGrantamil", "TamilGrantha"}
ROM = {"HK": {"HK"}, "IAST": {"HK", "IAST"}, "ISO": {"HK", "IAST", "ISO"}, "Itrans": {"HK", "Itrans"}}
# what an unaccented word of these letters alone cannot decide
LAOPALI = set("ຆຉຌຎຏຐຑຒຓຘຠຨຩຬ຺")
WRAP = ["%s ", " %s", "\n%s\n", "12 %s", "%s. 1234567890", "(%s)", "%s।", "%s॥ ॥", "- - - %s", "   %s   ", "%s,\t\t\t\t", "«%s»!!!", "\u200d\u200d\u200c%s"]
TGT = ["Devanagari", "IAST", "Tamil"]
# every letter of these blocks (first word of the Unicode name of the letter)
BLOCK = dict(x.split("=") for x in """AHOM=Ahom BALINESE=Balinese BATAK=BatakKaro BENGALI=Bengali BHAIKSUKI=Bhaiksuki BRAHMI=Brahmi BUGINESE=Buginese
BUHID=Buhid CHAKMA=Chakma CHAM=Cham DEVANAGARI=Devanagari DIVES=DivesAkuru DOGRA=Dogra GRANTHA=Grantha GUJARATI=Gujarati
GUNJALA=GunjalaGondi GURMUKHI=Gurmukhi HANUNOO=Hanunoo HEBREW=Hebrew JAVANESE=Javanese KAITHI=Kaithi KANNADA=Kannada KAWI=Kawi
KHAROSHTHI=Kharoshthi KHMER=Khmer KHOJKI=Khojki KHUDAWADI=Khudawadi LEPCHA=Lepcha LIMBU=Limbu MAHAJANI=Mahajani
MAKASAR=Makasar MALAYALAM=Malayalam MARCHEN=Marchen MASARAM=MasaramGondi MEETEI=MeeteiMayek MODI=Modi MULTANI=Multani
NANDINAGARI=Nandinagari NEWA=Newa ORIYA=Oriya PHAGS-PA=PhagsPa REJANG=Rejang SAURASHTRA=Saurashtra SHARADA=Sharada SIDDHAM=Siddham
SINHALA=Sinhala SOYOMBO=Soyombo SUNDANESE=Sundanese SYLOTI=SylotiNagri TAGALOG=Tagalog TAGBANWA=Tagbanwa TAKRI=Takri TAMIL=Tamil
TELUGU=Telugu THAANA=Thaana THAI=Thai TIBETAN=Tibetan TIRHUTA=Tirhuta ZANABAZAR=ZanabazarSquare AVESTAN=Avestan CYRILLIC=RussianCyrillic
HANIFI=HanifiRohingya HIRAGANA=Hiragana KATAKANA=Katakana MONGOLIAN=Mongolian MRO=Mro WANCHO=Wancho WARANG=WarangCiti""".split())


def letters(x):
    """letters that belong to one script only"""
    return sum(c not in "ऽঽఽ" and unicodedata.category(c) in ("Lo", "Ll", "Lu", "Lt") for c in x)


def allowed(s, x):
    """names that detection may give for the word x written by the script s"""
    if s in ROM:
        if s == "IAST":
            return {"IAST"} if set(x) & set("āīūṃḥśṣṇṛṝḷḹḻṉṟṭḍṅñ") else {"HK"}
        return ROM[s]
    if s in ("Lao", "Lao2", "LaoPali"):
        return {"LaoPali"} if set(x) & LAOPALI else {"Lao"}
    if s in ("Bengali", "Assamese", "BengaliRaBa"):
        return {"Assamese"} if set(x) & set("ৰৱ") else {"Bengali"}
    return MAY.get(s) or {s}


def detect(x):
    try:
        return T.auto_detect(x)
    except Exception as e:
        return "<raised %s: %s>" % (type(e).__name__, str(e)[:60])


def convert(src, tgt, x, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            return T.process(src, tgt, x, **k)
        except Exception as e:
            return "<raised %s: %s>" % (type(e).__name__, str(e)[:60])


SCRIPTS = [s for s in INDIC + OWN + SEMITIC + list(ROM) if s not in SKIP | {"Latn", "Type", "RomanSemitic"}]


class C17(core.Check):
    id = "C17"
    rule = "one evaluation = one text whose detected script is compared; distinct = distinct texts"

    def prepare(self):
        A = deva.FULL
        B = A if self.thorough else deva.Alphabet(A.cons, A.vowels, ["ं", "ः"])
        fam = [deva.fam_akshara(B), LONG, deva.fam_cluster2(A if self.thorough else deva.CORE, signs=["", "ा"] if self.thorough else [""], ayog=False)]
        self.W = list(dict.fromkeys(w for f in fam for w in f))

    def tasks(self):
        t = [["words", s] for s in SCRIPTS] + [["wrap", s] for s in SCRIPTS] + [["same", s] for s in SCRIPTS] + [["mixed", s] for s in SCRIPTS] + [["majority", s] for s in SCRIPTS]
        t += [["points", a] for a in range(0, 0x20000, 0x1000)] + [["pairs", i] for i in range(len(self.alphabet()))]
        return t

    @staticmethod
    def alphabet():
        v = [vocabulary(s, "short")[0][:1] for s in SCRIPTS]
        return list(dict.fromkeys(v + list(" \n\t.1a'’ʼ\u0301\u200c\u200d\ufeff\u00a0\u2028।॥१்َ֑ ়ຆၚႃꩦ\ue000\u0378中😀") + ["\ud800", "\x00", "\u070f", "\U000f0000"]))

    def cases_of(self, task):
        k = task[0]
        if k == "points":
            for n in range(task[1], task[1] + 0x1000):
                yield {"kind": "point", "text": chr(n)}
            return
        if k == "pairs":
            A = self.alphabet()
            a = A[task[1]]
            for b in [""] + A:
                yield {"kind": "any", "text": a + b}
                for c in A[-40:] if self.thorough else A[-12:]:
                    yield {"kind": "any", "text": a + b + c}
            return
        s = task[1]
        if k == "mixed":
            v = [x for x in vocabulary(s, "long") if letters(x) >= 3][:3]
            for x in v:
                for o in SCRIPTS:
                    if allowed(s, x) & allowed(o, "") or s in ROM and o in ROM or s in ARAB | SYR and o in ("Arab-Pa", "Arab-Ur"):
                        continue
                    for y in vocabulary(o, "short")[:2]:
                        if 0 < letters(y) < letters(x):
                            yield {"kind": "mixed", "script": s, "text": x + " " + y, "word": x}
                            yield {"kind": "mixed", "script": s, "text": y + "12, 34 - " + x, "word": x}
            return
        if k == "majority":
            # n + 1 letters of one script against n of another: from a few letters to hundreds
            x = [x[:1] for x in vocabulary(s, "short") if letters(x[:1])]
            if not x or s in ROM or s in SEMITIC:
                return
            others = [o for o in SCRIPTS if o not in ROM and o not in SEMITIC and o != s]
            i = SCRIPTS.index(s) % len(others)
            for o in others if self.thorough else [others[(i + d) % len(others)] for d in (0, 7, 31, 53)]:
                y = [y[:1] for y in vocabulary(o, "short") if letters(y[:1])]
                if not y or allowed(s, x[0]) & allowed(o, y[0]) or s in ARAB | SYR and o in ARAB | SYR:
                    continue
                for n in range(1, 260, 1 if self.thorough else 7):
                    for f in (x[0] * (n + 1) + " " + y[0] * n, y[0] * n + " " + x[0] * (n + 1)):
                        yield {"kind": "mixed", "script": s, "text": f, "word": x[0]}
            return
        if k == "words":
            for w, x in zip(self.W, conv_lines("Devanagari", s, self.W)):
                # two combining marks stand for the open vowels in the Semitic scripts; "sh" is a digraph of ITRANS
                if letters(x) and not (s in SEMITIC and "\u0302" in x) and not (s in ("HK", "ISO", "IAST") and "sh" in x.lower()):
                    yield {"kind": "word", "script": s, "text": x}
        else:
            for x in vocabulary(s, "long" if k == "wrap" else "short"):
                if not letters(x):
                    continue
                if k == "wrap":
                    for f in WRAP:
                        yield {"kind": "wrap", "script": s, "text": f % x, "word": x}
                else:
                    for t in TGT:
                        yield {"kind": "same", "text": x, "target": t}
            if k == "same":
                v = [x for x in vocabulary(s, "long") if letters(x)]
                for i in range(0, len(v) - 3, 3):
                    yield {"kind": "same", "text": " ".join(v[i:i + 3]) + "\n" + v[i], "target": "Devanagari"}

    def run(self, task):
        c = {"evaluations": 0, "distinct_nontrivial": 0}
        sus, smp = [], []
        for case in self.cases_of(task):
            c["evaluations"] += 1
            c["distinct_nontrivial"] += 1
            if self.judge(case):
                sus.append(case)
            elif len(smp) < 1:
                smp.append(case)
        return c, sus, smp

    def judge(self, x):
        k, t = x["kind"], x["text"]
        d = detect(t)
        if not isinstance(d, str) or d.startswith("<raised") or not d:
            return "detecting the script of %r gives %r" % (t, d)
        if k == "point":
            n = unicodedata.name(t, "").split(" ")[0]
            if unicodedata.category(t) == "Lo" and n in BLOCK:
                e = {BLOCK[n]} if t not in "ৰৱ" else {"Assamese"}
                if "SIGN" in unicodedata.name(t) or n == "BRAHMI" and "TAMIL" in unicodedata.name(t):
                    return None
                if d not in e:
                    return "the letter %r (%s) is detected as %s" % (t, unicodedata.name(t), d)
            return None
        if k == "any":
            return None
        if k == "word":
            a = allowed(x["script"], t)
            if d not in a:
                return "%r, written in %s, is detected as %s" % (t, x["script"], d)
            return None
        if k in ("wrap", "mixed"):
            e = detect(x["word"])
            if x["script"] in ROM and k == "mixed" and d in ROMAN and e in ROMAN:
                return None
            if d != e:
                return "%r is detected as %s, but %r as %s" % (x["word"], e, t, d)
            return None
        # as if named
        tgt = x["target"]
        p = list(T.detect_preoptions(t, d))
        e = convert(d, tgt, t, pre_options=p)
        tags = {"default": tgt, "script_code": {"Devanagari": "Deva", "IAST": "Latn-IAST", "Tamil": "Taml"}[tgt],
                "lang_code": {"Devanagari": "hi", "IAST": "la-IAST", "Tamil": "ta"}[tgt]}
        if tgt != "IAST":
            tags["lang_name"] = {"Devanagari": "Hindi", "Tamil": "Tamil"}[tgt]
        for m, name in tags.items():
            r = convert("autodetect", name, t, param=m)
            if r != e:
                return "autodetect (%s) -> %s: %r gives %r; named as %s with %s it gives %r" % (m, name, t, r, d, p, e)
        return None


CHECK = C17

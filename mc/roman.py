"""Published romanization schemes, written down by hand from their definitions (independent of the library).

IAST, ISO 15919, Harvard-Kyoto, ITRANS 5.3, Velthuis, SLP1 (Sanskrit Library Phonetic), WX (Hyderabad), Baraha
(north and south), Titus, IAST and ISO for Pali, scholarly Cyrillic. `extra` has the letters beyond Sanskrit."""
from .deva import VOWELS, CONS, VIR, VOWEL_OF
from .model import parse


def _m(keys, text):
    v = text.split()
    assert len(keys) == len(v), (len(keys), len(v), v)
    return dict(zip(keys, v))


V14 = VOWELS                               # a aa i ii u uu r rr l ll e ai o au
C33 = CONS                                 # ka .. ha
CX = ["क़", "ख़", "ग़", "ज़", "फ़", "ड़", "ढ़", "य़", "ऩ", "ऱ", "ऴ", "ळ"]
VX = ["ऎ", "ऒ", "ऍ", "ऑ"]


def _X(text):
    return _m(CX, text)


SCHEMES = {
    "IAST": dict(v=_m(V14, "a ā i ī u ū ṛ ṝ ḷ ḹ e ai o au"),
                 c=_m(C33, "k kh g gh ṅ c ch j jh ñ ṭ ṭh ḍ ḍh ṇ t th d dh n p ph b bh m y r l v ś ṣ s h"),
                 y={"ं": "ṃ", "ः": "ḥ", "ँ": "m̐"}, extra=_X("q k͟h ġ z f r̤ r̤h ẏ ṉ ṟ ḻ l̤"), xv="ĕ ŏ æ ô", hiatus={"i": "ï", "u": "ü"}),
    "ISO": dict(v=_m(V14, "a ā i ī u ū r̥ r̥̄ l̥ l̥̄ ē ai ō au"),
                c=_m(C33, "k kh g gh ṅ c ch j jh ñ ṭ ṭh ḍ ḍh ṇ t th d dh n p ph b bh m y r l v ś ṣ s h"),
                y={"ं": "ṁ", "ः": "ḥ", "ँ": "m̐"}, extra=_X("q k͟h ġ z f ṛ ṛh ẏ ṉ ṟ ḻ ḷ"), xv="e o æ ô", hiatus={"i": ":i", "u": ":u"}),
    "HK": dict(v=_m(V14, "a A i I u U R RR lR lRR e ai o au"),
               c=_m(C33, "k kh g gh G c ch j jh J T Th D Dh N t th d dh n p ph b bh m y r l v z S s h"),
               y={"ं": "M", "ः": "H"}, extra=_X("q qh g2 z2 f r3 r3h Y n2 r2 Z L"), xv="E O aE aO", hiatus={"i": "_i", "u": "_u"}),
    "Itrans": dict(v=_m(V14, "a A i I u U R^i R^I L^i L^I e ai o au"),
                   c=_m(C33, "k kh g gh ~N ch Ch j jh ~n T Th D Dh N t th d dh n p ph b bh m y r l v sh Sh s h"),
                   y={"ं": "M", "ः": "H", "ँ": ".N"}, extra=_X("q K G z f .D .Dh Y ^n R zh L"), xv="^e ^o e.c A.c", hiatus={"i": "_i", "u": "_u"}),
    "Velthuis": dict(v=_m(V14, "a aa i ii u uu .r .R .l .L e ai o au"),
                     c=_m(C33, 'k kh g gh "n c ch j jh ~n .t .th .d .dh .n t th d dh n p ph b bh m y r l v "s .s s h'),
                     y={"ं": ".m", "ः": ".h"}, extra=_X("q _kh .g z f ..r ..rh .y _n _r _l ..l"), xv="E O aE aO", hiatus={x: "_" + x for x in ("i", "u", "ii", "uu")}),
    "SLP1": dict(v=_m(V14, "a A i I u U f F x X e E o O"),
                 c=_m(C33, "k K g G N c C j J Y w W q Q R t T d D n p P b B m y r l v S z s h"),
                 y={"ं": "M", "ः": "H", "ँ": "~"}, extra=_X("k0 K0 g0 j0 P0 q0 Q0 Y0 n2 r2 L0 L"), xv="e1 o1 e2 o2", hiatus={"i": "_i", "u": "_u"}),
    "WX": dict(v=_m(V14, "a A i I u U q qV L LV e E o O"),
               c=_m(C33, "k K g G f c C j J F t T d D N w W x X n p P b B m y r l v S R s h"),
               y={"ं": "M", "ः": "H", "ँ": "z"}, extra=_X("kY KY GY zY PY dY DY yY nY rY lYY lY"), xv="eV oV aEV aOV", hiatus={"i": "_i", "u": "_u"}),
}
PALI = _m(V14, "a ā i ī u ū ṛ ṝ l̤ l̤̄ e ai o au")
SCHEMES["IASTPali"] = dict(SCHEMES["IAST"], v=PALI, extra=dict(SCHEMES["IAST"]["extra"], ळ="ḷ"))
SCHEMES["ISOPali"] = dict(SCHEMES["ISO"], v=dict(SCHEMES["ISO"]["v"], ए="e", ओ="o"), xv="ĕ ŏ æ ô")
SCHEMES["Titus"] = dict(
    v=_m(V14, "a ā i ī u ū r̥ r̥̄ l̥ l̥̄ e ai o au"),
    c=_m(C33, "k kʰ g gʰ ṅ c cʰ j jʰ ñ ṭ ṭʰ ḍ ḍʰ ṇ t tʰ d dʰ n p pʰ b bʰ m y r l v ś ṣ s h"),
    y={"ं": "ṃ", "ः": "ḥ", "ँ": "m̐"}, extra=_X("q k͟ʰ ġ z f ṛ ṛʰ ẏ ṉ ṟ ḻ ḷ"), xv="ĕ ŏ æ ô", hiatus={"i": "_i", "u": "_u"})
SCHEMES["RussianCyrillic"] = dict(
    v=_m(V14, "а а̄ и ӣ у ӯ р̣ р̣̄ л̣ л̣̄ э аи о ау"),
    c=_m(C33, "к кх г гх н̇ ч чх дж джх н̃ т̣ т̣х д̣ д̣х н̣ т тх д дх н п пх б бх м й р л в ш́ ш с х"),
    y={"ं": "м̣", "ः": "х̣", "ँ": "м̐"}, extra=_X("ԛ к͟х г̇ з ф р̤ р̤х й̣ н̱ р̱ л̱ л̤"), xv="э̆ о̆ ӕ о̂", hiatus={"и": "_и", "у": "_у"})
SCHEMES["BarahaNorth"] = dict(
    v=_m(V14, "a aa i ee u oo Ru RU ~lu ~lU e ai o au"),
    c=_m(C33, "k kh g gh ~g c C j jh ~j T Th D Dh N t th d dh n p ph b bh m y r l v S Sh s h"),
    y={"ं": "M", "ः": "H", "ँ": "~M"}, extra=_X("kx Kx gx z f Dx Dhx yx nx rx Lx L"), xv="E O ~e ~o", hiatus={"i": "_i", "u": "_u"})
SCHEMES["BarahaSouth"] = dict(
    SCHEMES["BarahaNorth"], v=_m(V14, "a aa i ee u oo Ru RU ~lu ~lU E ai O au"), xv="e o ~e ~o")
STOPS = set("कगचजटडतदपब")


class Scheme:
    def __init__(self, name):
        d = SCHEMES[name]
        self.name, self.y, self.hi = name, d["y"], d["hiatus"]
        self.v = dict(d["v"], **_m(VX, d["xv"]))
        self.c = dict(d["c"], **d["extra"])
        self.stops = tuple(d["c"][x] for x in STOPS)
        # the library keeps k + h apart from kh with a separator in every scheme

    def word(self, w):
        """romanization of a Devanagari word, or None outside the scheme's repertoire"""
        out, prev = [], None
        for a in parse(w):
            if a[0] == "V":
                r = self.v.get(a[1])
                if r is None:
                    return None
                if prev in ("a", "а") and r in self.hi:
                    r = self.hi[r]
                vow, y = r, a[2]
            else:
                cs = [self.c.get(x) for x in a[1]]
                if None in cs:
                    return None
                s = ""
                for i, x in enumerate(cs):
                    if i and x[0] in "hх" and cs[i - 1].endswith(self.stops):
                        s += "_"
                    s += x
                y = a[3]
                if a[2] == VIR:
                    vow = ""
                else:
                    vow = self.v.get(VOWEL_OF.get(a[2], "अ"))
                    if vow is None:
                        return None
                out.append(s)
            if y and y not in self.y:
                return None
            out.append(vow + self.y.get(y, ""))
            prev = None if y else vow
        return "".join(out)

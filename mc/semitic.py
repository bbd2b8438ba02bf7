"""A reference model of how words are written in the alphabets of the Semitic kind.

A Devanagari word becomes a sequence of sounds (consonant, vowel or None) by a fixed table; a script writes each
sound with its letter and vowel mark; doubled consonants, final forms and the place of the geresh follow rules.
Tables: mc/spec/semitic.json
"""
import json, os, re, unicodedata
from . import env, model
from .deva import VIR

CONS = dict(zip("क ख ग घ ङ च छ ज झ ञ ट ठ ड ढ ण त थ द ध न प फ ब भ म य र ल व श ष स ह ळ".split(),
                "k kʰ g gʰ n č čʰ j jʰ ɲ ʈ ʈʰ ɖ ɖʰ ɳ t tʰ d dʰ n p pʰ b bʰ m y r l v š ʂ s h ɭ".split()))
CONS.update(zip("ऱ ऩ ऴ क़ ख़ ग़ ज़ ड़ ढ़ फ़ य़".split(), "r n ɭ q ḫ ġ z ɽ ɽʰ f y".split()))
CONS = {unicodedata.normalize("NFC", k): v for k, v in CONS.items()}
VOWEL = dict(zip("अ आ इ ई उ ऊ ए ऐ ओ औ ऎ ऒ".split(), "a ā i ī u ū ē ai ō au e o".split()))
SIGN = dict(zip(["", "ा", "ि", "ी", "ु", "ू", "े", "ै", "ो", "ौ", "ॆ", "ॊ"], "a ā i ī u ū ē ai ō au e o".split()))
LIQUID = {"ऋ": ("r", "u"), "ॠ": ("r", "ū"), "ऌ": ("l", "u"), "ॡ": ("l", "ū")}
LSIGN = {"ृ": ("r", "u"), "ॄ": ("r", "ū"), "ॢ": ("r", "u"), "ॣ": ("r", "ū")}
YOG = {"ं": ("ₘ", None), "ँ": ("ₘ", None), "ः": ("h", None)}


def sounds(w):
    """-> [(consonant or '', vowel or None)], None if the word is outside the model"""
    out = []
    for a in model.parse(w):
        if a[0] == "V":
            if a[1] in LIQUID:
                out.append(LIQUID[a[1]])
            elif a[1] in VOWEL:
                out.append(("", VOWEL[a[1]]))
            else:
                return None
        else:
            cs = [CONS.get(unicodedata.normalize("NFC", c)) for c in a[1]]
            if None in cs:
                return None
            out += [(c, None) for c in cs[:-1]]
            if a[2] == VIR:
                out.append((cs[-1], None))
            elif a[2] in LSIGN:
                out += [(cs[-1], None), LSIGN[a[2]]]
            elif a[2] in SIGN:
                out.append((cs[-1], SIGN[a[2]]))
            else:
                return None
        y = a[2] if a[0] == "V" else a[3]
        if y:
            out.append(YOG[y])
    return out


class Script:
    """cons: sound -> letter (or [letter, geresh]);  vow: vowel -> [mark, letter];  init: vowel -> letters;
    vir: mark of a consonant without vowel;  twice: how a doubled consonant is written ('once', 'twice', or a mark);
    final: letter -> final form"""
    def __init__(self, t):
        self.t = t
        self.steps = 0

    def write(self, ss):
        t, out = self.t, ""
        mark, skip = "", False
        self.steps += len(ss)
        for i, (c, v) in enumerate(ss):
            if skip:
                skip = False
                continue
            if not c:
                if v not in t["init"]:
                    return None
                out += t["init"][v]
                continue
            if c not in t["cons"]:
                return None
            b, post = (t["cons"][c] + ["", ""])[:2] if isinstance(t["cons"][c], list) else (t["cons"][c], "")
            if v is None and i + 1 < len(ss) and ss[i + 1][0] and t["twice"] != "twice" and ss[i + 1][0] in (c, c + "ʰ") and c != "ₘ":
                if t["twice"] == "once" and c[-1] == "ʰ":
                    return None
                mark = t["twice"] if t["twice"] != "once" else ""
                if ss[i + 1][0] != c and t["cons"][ss[i + 1][0]][:len(b)] == b:     # shadda before the letter for h
                    b2, mark = mark + t["cons"][ss[i + 1][0]][len(b):], ""
                    v = ss[i + 1][1]
                    m, mater = t["vow"][v] if v else (t["vir"], "")
                    out += b + b2 + m + mater
                    skip = True
                continue
            if v is None:
                out += b + mark + ("" if c == "ₘ" else t["vir"]) + post
            else:
                m, mater = t["vow"][v]
                out += b + mark + m + post + mater
            mark = ""
        if "נ" in t["final"] and re.search("([כמנפצ])[^\\w\\s]*\\1[^\\w\\s]*$", out):
            return None             # Hebrew: the same letter twice at the end, of which the last is left as it is
        return unicodedata.normalize("NFC", self.finals(out))

    def finals(self, s):
        for k, v in self.t["final"].items():
            s = re.sub(r"(?<=[^\W\d_])((?:[^\w\s׳])*)" + k + r"(?=[^\w\s]*$)", lambda m: m.group(1) + v, s)
        return s


PATH = os.path.join(env.VERIF, "mc", "spec", "semitic.json")


def load():
    return json.load(open(PATH, encoding="utf8")) if os.path.exists(PATH) else {}


BACK = {v: k for k, v in SIGN.items()}
FULLV = {v: k for k, v in VOWEL.items()}


def collapse(ss, r):
    """the Devanagari text to which the sounds ss, written in a script with reading table r, are read:
    r = {"cons": sound -> Devanagari, "vow": vowel -> sign, "init": vowel -> letter(s), "vir": sign, "twice": ..}"""
    out = ""
    for i, (c, v) in enumerate(ss):
        if not c:
            out += r["init"][v]
            continue
        if v is None and i + 1 < len(ss) and ss[i + 1][0] in (c, c + "ʰ") and c != "ₘ" and r["twice"] != "twice":
            if r["twice"] == "once":
                if c[-1] == "ʰ":
                    return None
                continue
        out += r["cons"][c] + ((r["vir"] if c != "ₘ" else r["m"]) if v is None else r["vow"][v])
    return out

"""C07  text foreign to both writing systems passes through unchanged, and leaves its neighbours unchanged"""
import itertools, string, unicodedata
from .. import core, deva
from .c06 import DIVIDER
from .c18 import REP
from ..api import conv_lines, conv1
from ..scripts import INDIC, LATIN, HUBS, skip_pair

# not foreign after all: characters these writing systems use themselves
EXC = {"*": "\u2019", "TolongSiki": "¡¢£¤¥¦§¨©", "RomanSemitic": string.ascii_letters, "RomanReadable": string.ascii_letters,
       "RomanColloquial": string.ascii_letters, "IPA": string.ascii_letters, "Shahmukhi": ";?", "Urdu": ";?", "Thaana": ";?", "Limbu": "!?", "LimbuLoC": "!?",
       "Tibetan": "(){}", "TibetanLoC": "(){}", "OldPersian": "<",
       "RomanLoC": "‘‛", "WarangCiti": "A"}
# pairs whose syllables are not spelled independently of their place in the run of letters (final forms, Batak
# letter order read through RomanLoC)
PLACED = {(x, "Hebrew") for x in ("Urdu", "Shahmukhi", "Thaana")}
BATAK = {"BatakKaro", "BatakManda", "BatakPakpak", "BatakSima", "BatakToba"}


def placed(a, b):
    return (a, b) in PLACED or (a in BATAK and b == "RomanLoC") or (b in BATAK and a == "RomanLoC")


def span(*rs):
    return [chr(c) for a, b in rs for c in range(a, b + 1) if unicodedata.category(chr(c)) not in ("Cn", "Co", "Cs", "Mn", "Mc", "Cc")]


SMALL = span((0x3B1, 0x3C9), (0x4E00, 0x4E3F), (0x3042, 0x3093), (0x30A2, 0x30F3), (0xAC00, 0xAC1F), (0x10D0, 0x10F0),
             (0x561, 0x586), (0x1200, 0x1246), (0x1F600, 0x1F64F), (0x2200, 0x220F), (0x20A0, 0x20BF), (0x2600, 0x260F),
             (0xA1, 0xAC), (0xAE, 0xB1), (0x2018, 0x201F), (0x2010, 0x2015), (0x2022, 0x2026), (0x2460, 0x2469))
BIG = span((0x4E00, 0x9FFF), (0x3400, 0x4DBF), (0x3041, 0x3096), (0x30A1, 0x30FA), (0xAC00, 0xD7A3), (0x1200, 0x137C),
           (0x1F300, 0x1FAFF), (0x2200, 0x22FF), (0x2600, 0x27BF), (0xA000, 0xA48C), (0x20000, 0x2A6D6))
ASCII = list(string.ascii_letters)
PUNCT = list("!#$%&()*+-/:;<=>?@[]{}\"")


def texts(a, b, thorough):
    """foreign strings for the pair, simplest first"""
    big = (a == "Devanagari" and b in HUBS) or thorough and (a in HUBS or b in HUBS)
    yield from SMALL
    if a in INDIC:
        yield from ASCII
        if b in INDIC:
            yield from PUNCT
        for x in itertools.product(string.ascii_letters, repeat=2):
            yield "".join(x)
        if big:
            for x in itertools.product(string.ascii_lowercase, repeat=3):
                yield "".join(x)
    if big:
        yield from BIG


# every letter and symbol of Unicode 15 planes 0 and 1, apart from the signs which the library reserves as internal marks or
# always normalises (old spellings of one letter)
RESERVED = set("¹²³⁴ʽʾʿ˂˳₁₂₃₄│┃●↑↓×ṿʔ꞉ౝೝൎൟฎཀྵဿᳵᳶᭌ⸱Ṿ\u0f69")
EVERY = [chr(c) for c in range(0xA1, 0x20000) if unicodedata.category(chr(c))[0] in "LS" and chr(c) not in RESERVED]
OWN = {"SoraSompeng": "ə", "Wancho": "Ø", "Mongolian": "ʼ", "Hebrew": "ʼ"}
ABJAD = {"Hebrew", "Shahmukhi", "Urdu", "Thaana", "RomanSemitic"}


MAIN = "Bengali Gujarati Gurmukhi Oriya Tamil Telugu Kannada Malayalam Sinhala Thai Burmese Khmer Lao Javanese Grantha".split()
DIVID = set(DIVIDER)


def block(c):
    return unicodedata.name(c, "?").split(" ")[0]


def foreign(a, b):
    """the characters of EVERY that neither writing system uses"""
    own = REP[a] | REP.get(b, set()) | set(OWN.get(b, ""))
    bl = {block(c) for c in REP[a] | (REP[b] if b in INDIC else set()) if unicodedata.category(c)[0] in "LM"} | {"DEVANAGARI", "BENGALI"}
    return [c for c in EVERY if c not in own and block(c) not in bl]


CTX = [("", ""), (" ", " "), ("", " ")]


class C07(core.Check):
    id = "C07"
    rule = "one evaluation = one foreign character or string between two syllables of the source script, in one context"

    def tasks(self):
        ps = [(a, b) for a in INDIC + LATIN for b in INDIC + LATIN if a != b and not skip_pair(a, b) and not placed(a, b)
              and (self.thorough or a in HUBS[:4] or b in ("Devanagari", "IAST"))]
        ps.sort(key=lambda p: not (p[0] == "Devanagari" and p[1] in HUBS))
        sw = [["sweep", "Devanagari", b] for b in INDIC + LATIN if b != "Devanagari" and not skip_pair("Devanagari", b)]
        sw += [["sweep", a, b] for a in INDIC for b in ("Devanagari", "IAST") if a != b and a not in ABJAD | DIVID and (self.thorough or a in MAIN)]
        return sw + [[p] for p in ps[:8]] + [ps[i:i + 6] for i in range(8, len(ps), 6)]

    def sweep(self, a, b):
        """all foreign letters and symbols as words of their own"""
        c = {"evaluations": 0, "distinct_nontrivial": 0}
        sus, ctx = [], (" ", " ") if not {a, b} & set(DIVIDER) else ("", "")
        k, kb = self.syllable(a, b)
        for ws in deva.batches(foreign(a, b), 3000):
            out = conv_lines(a, b, [k + ctx[0] + w + ctx[1] + k for w in ws])
            c["evaluations"] += len(ws)
            c["distinct_nontrivial"] += len(set(out))
            sus += [{"source": a, "target": b, "foreign": w, "context": list(ctx)} for w, o in zip(ws, out) if o != kb + ctx[0] + w + ctx[1] + kb]
        return c, sus, []

    def run(self, task):
        if task[0] == "sweep":
            return self.sweep(*task[1:])
        c = {"evaluations": 0, "distinct_nontrivial": 0, "pairs_of_scripts": len(task)}
        sus, smp = [], []
        for a, b in task:
            k, kb = self.syllable(a, b)
            skip = set(EXC.get(a, "")) | set(EXC.get(b, "")) | set(EXC.get("*", ""))
            for ws in deva.batches(texts(a, b, self.thorough), 3000):
                ws = [w for w in ws if not (set(w) & skip)]
                for l, r in CTX:
                    if " " in l + r and (a in DIVIDER or b in DIVIDER):
                        continue
                    out = conv_lines(a, b, [k + l + w + r + k for w in ws])
                    c["evaluations"] += len(ws)
                    c["distinct_nontrivial"] += len(set(out))
                    for w, o in zip(ws, out):
                        if o != kb + l + w + r + kb:
                            sus.append({"source": a, "target": b, "foreign": w, "context": [l, r]})
            smp.append({"source": a, "target": b, "foreign": ws[-1] if ws else "", "syllable": k})
        return c, sus, smp

    def syllable(self, a, b):
        k = conv1("Devanagari", a, "कि")
        return k, conv1(a, b, k)

    def judge(self, case):
        a, b, w, (l, r) = case["source"], case["target"], case["foreign"], case["context"]
        k, kb = self.syllable(a, b)
        o = conv1(a, b, k + l + w + r + k)
        if o != kb + l + w + r + kb:
            return "%s -> %s: %r gives %r, expected %r unchanged between %r" % (a, b, k + l + w + r + k, o, w, kb)


CHECK = C07

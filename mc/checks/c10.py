"""C10  ITRANS text between ## marks is left exactly as it is; the text outside is converted as if alone"""
import itertools, string
from .. import core
from ..api import conv1
from ..scripts import INDIC, LATIN, SEMITIC

OUT = ["rAma", "kSha", "", " aum ", "kaM 12 |", "a", "\n", "j~nA"]
PRINT = [c for c in string.printable if c != "#"]
VERB = ["aa", "ee", "uu", "RRi", "LLI", "N^", "M^i", "Ch", "dny", "GY", "x", ".D", ".Dh", "AUM", "OM", "om", "aum", "ksha", "shrI", "~N.n", ".n", ".h", "^e", "J",
        "v", "w", "K", "राम", "தமிழ்", "ळ्ह", "।॥", "०१२", "m̐", "r̥̄", "a̍", "é", "漢", "😀", "a\nb", " ", "", "\u200d", "ka_i", "{}", "<b>", "&amp;", "a\n\nb", "\n", "\n\n", "\t", "a\r\nb", "|", "||", "ka ||", "a  b", " a ", "a.b, c; d?", "\\'", "\\\"", "ऽ", ".a", "."]
KEY = ["Devanagari", "Tamil", "Telugu", "IAST", "Bengali", "Tibetan", "Thai", "Urdu"]


class C10(core.Check):
    id = "C10"
    rule = "one evaluation = one text of up to five segments converted to one target; distinct = distinct results"

    def tasks(self):
        t = [("pairs", b, nat) for b in (KEY if self.thorough else KEY[:2]) for nat in (False, True)]
        t += [("short", b, nat) for b in INDIC + LATIN + SEMITIC if b != "Itrans" for nat in (False, True)]
        t += [("seq", b, nat) for b in (KEY if self.thorough else KEY[:2]) for nat in (False, True)]
        return t

    def texts(self, kind):
        if kind == "pairs":                       # every one- and two-character verbatim text
            for n in (1, 2):
                for x in itertools.product(PRINT, repeat=n):
                    yield ["rA", "".join(x)]
        elif kind == "short":
            for v in VERB:
                yield ["rA", v, "ma"]
                yield ["", v]
        else:                                     # every sequence of up to five segments
            V = VERB[:2] + ["AUM", ".D", "a\n\nb", " "]
            O = OUT if self.thorough else OUT[:4]
            for n in (1, 2, 3, 4, 5):
                for x in itertools.product(*[(O if i % 2 == 0 else V) for i in range(n)]):
                    yield list(x)

    def want(self, b, nat, segs, memo={}):
        out = []
        for i, s in enumerate(segs):
            if i % 2:
                out.append(s)
            else:
                k = (b, nat, s)
                if k not in memo:
                    memo[k] = conv1("Itrans", b, s, nat)
                out.append(memo[k])
        return "".join(out)

    def run(self, task):
        kind, b, nat = task
        c = {"evaluations": 0, "distinct_nontrivial": 0}
        sus, smp, seen = [], [], set()
        for segs in self.texts(kind):
            o = conv1("Itrans", b, "##".join(segs), nat)
            c["evaluations"] += 1
            seen.add(o)
            if o != self.want(b, nat, segs):
                sus.append({"target": b, "nativize": nat, "segments": segs})
                if len(sus) > 60:
                    break
        c["distinct_nontrivial"] = len(seen)
        smp.append({"target": b, "segments": segs, "output": o})
        return c, sus, smp

    def judge(self, case):
        b, nat, segs = case["target"], case["nativize"], case["segments"]
        o, w = conv1("Itrans", b, "##".join(segs), nat), self.want(b, nat, segs, {})
        if o != w:
            return "Itrans -> %s: %r gives %r, expected %r" % (b, "##".join(segs), o, w)


CHECK = C10

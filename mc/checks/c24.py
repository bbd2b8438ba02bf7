"""C24  om: as a word of its own it becomes the target's om wherever it stands; a word that merely begins with the
same letters is spelled like any other word"""
import itertools, json, os
from .. import core, env
from ..api import conv1, conv_lines, Raised
from ..scripts import INDIC, LATIN, HUBS, skip_pair

SPEC = json.load(open(os.path.join(env.VERIF, "mc", "spec", "om.json"), encoding="utf8"))
OM, OM_NATIVE = SPEC["om"], SPEC["native"]
# scripts whose om is read back as om, and which separate words by spaces
READ = [x for x in OM if x not in SPEC["not_read_back"] and x not in ("PhagsPa", "Avestan")]
# o has two readings, or words are pronounced as in Tamil, Oriya, Sinhala
PROPER = {"Takri", "Vatteluttu", "TamilBrahmi", "Tamil", "Oriya", "Sinhala"}


def apart(a, b):
    return a == b or skip_pair(a, b) or not (a in INDIC or b in INDIC) or (a in LATIN and b == "RomanSemitic") or \
        (b == "IPA" and a in PROPER) or b == "Aksharaa"

# where om stands: # is om, W another word
PLACES = ["#", "# W", "W #", "W # W", "# #", "# # #", "# W #", "(#)", "\"#\"", "# (W)", "W, #", "#, W", "#!", "W-#",
          "# W\nW #", "W\n#", "#\nW", "#\n#", "W\n#\nW", "\n#\n", "W\t#", "#\tW"]
# every sequence of om and another word up to length five, one to a line, and inside brackets
SEQ = [" ".join(q) for n in range(1, 6) for q in itertools.product("#W", repeat=n)]
PLACES += ["\n".join(SEQ), "\n".join("W (" + q + ")" for q in SEQ[:30])]
FEW = ["#", "W # W", "#, W", "\n".join(SEQ)]
WORD, OTHER = "कम", "पट"
LONGER = ["ओंकार", "ओंकम", "ओंअ", "ओंशत", "कओं", "पटओं", "ओंपट कम", "कम ओंपट", "ओःकम", "ओँकम", "ओम्कम", "सोँ"]


def place(p, om, word):
    return p.replace("#", "\0").replace("W", word).replace("\0", om)


class C24(core.Check):
    id = "C24"
    rule = ("one evaluation = om at one place of a text, or one word beginning or ending like om, for one script pair "
            "with or without nativization; distinct = distinct outputs")

    def tasks(self):
        ps = [(a, b, nat) for a in READ for b in OM for nat in (False, True)
              if not apart(a, b) and (self.thorough or not nat or a in HUBS or b in HUBS)]
        return [ps[i:i + 60] for i in range(0, len(ps), 60)]

    def prepare(self):
        self.word = {x: [conv1("Devanagari", x, w) for w in (WORD, OTHER)] for x in READ}
        # words that a source spells so that they come back
        self.longer = {}
        for x in READ:
            ws = conv_lines("Devanagari", x, LONGER)
            back = conv_lines(x, "Devanagari", ws)
            self.longer[x] = [(w, t) for w, t, r in zip(LONGER, ws, back) if r == w]

    def expected(self, a, b, nat, p, w, o):
        """the same text with another word in place of om, and there the target's om"""
        om = (OM_NATIVE if nat else OM)[b]
        if p == "#":
            return om
        t = conv1(a, b, place(p, o, w), nat)
        x, y = conv1(a, b, o, nat), conv1(a, b, w, nat)
        if isinstance(t, Raised) or not x or x in y or t.count(x) != p.count("#"):
            return None
        return t.replace(x, om)

    def run(self, task):
        c, sus, smp, seen = {"evaluations": 0, "distinct_nontrivial": 0}, [], [], set()
        for a, b, nat in task:
            w, o = self.word[a]
            for p in PLACES if self.thorough or a in HUBS or b in HUBS else FEW:
                e = self.expected(a, b, nat, p, w, o)
                if e is None:
                    continue
                c["evaluations"] += 1
                r = conv1(a, b, place(p, OM[a], w), nat)
                seen.add((b, r))
                if r != e:
                    sus.append({"from": a, "to": b, "nativize": nat, "place": p})
            if a != "Devanagari" and b != "Devanagari" and a not in PROPER and b not in ("Wancho", "WarangCiti"):
                ws = self.longer[a]
                c["evaluations"] += len(ws)
                x = conv_lines(a, b, [t for _, t in ws], nat)
                y = conv_lines("Devanagari", b, [d for d, _ in ws], nat)
                for (d, t), r, e in zip(ws, x, y):
                    if r != e:
                        sus.append({"from": a, "to": b, "nativize": nat, "text": t, "devanagari": d})
            smp.append({"from": a, "to": b, "om": conv1(a, b, OM[a], nat)})
        c["distinct_nontrivial"] = len(seen)
        return c, sus, smp

    def judge(self, case):
        a, b, nat = case["from"], case["to"], case["nativize"]
        if "text" in case:
            r, e = conv1(a, b, case["text"], nat), conv1("Devanagari", b, case["devanagari"], nat)
            if r != e:
                return "%s %r -> %s %r; Devanagari %r -> %r" % (a, case["text"], b, r, case["devanagari"], e)
            return None
        w, o = (conv1("Devanagari", a, x) for x in (WORD, OTHER))
        e = self.expected(a, b, nat, case["place"], w, o)
        t = place(case["place"], OM[a], w)
        r = conv1(a, b, t, nat)
        if e is not None and r != e:
            return "%s %r -> %s %r, expected %r%s" % (a, t, b, r, e, " (nativized)" if nat else "")


CHECK = C24

"""C09  dandas: verse and sentence marks become the target's own single and double mark, wherever they stand"""
import itertools, json, os
from .. import core, env
from ..api import conv_lines, conv1
from ..scripts import ALL, INDIC, LATIN, HUBS, skip_pair
from .c06 import DIVIDER
from .c08 import write, NONE, ABJAD

DANDA = json.load(open(os.path.join(env.VERIF, "mc", "spec", "dandas.json")))
# not sources: they write both marks alike, or their mark is also something else
ONEMARK = {x for x, (s, d) in DANDA.items() if s == d}
NOTSOURCE = ONEMARK | {"OldPersian", "Shahmukhi", "Urdu"}

NOTTARGET = {"WX-kok", "ShanLoCRomanLoC", "KhmerLoCRomanLoC", "OldPersian"}


def sequences(n):
    """every sequence of up to n tokens  w(ord) s(ingle) d(ouble) _(space) 1(number)  without two adjacent marks / words / spaces"""
    for k in range(1, n + 1):
        for t in itertools.product("wsd_1", repeat=k):
            s = "".join(t)
            if any(x in s for x in ("ss", "sd", "ds", "dd", "ww", "__", "11", "w1", "1w")) or not ("s" in s or "d" in s):
                continue
            yield s


# romanizations that show kept dandas as upright strokes
STROKES = "Aksharaa HK IAST IASTPali IPA ISO ISOPali Itrans RomanReadable RussianCyrillic Titus Velthuis WX".split()
KEEP = ["indicDandas"]
STOP = ["romanFullStop"]
# romanizations in which the marks may also be written as upright strokes
PIPES = "HK IASTPali IAST ISO Itrans ISOPali".split()


def options(keep):
    return STOP if keep in STOP else KEEP if keep in (True, "pipes kept") else ()


class C09(core.Check):
    id = "C09"
    rule = "one evaluation = one token sequence (words, single and double marks, spaces, numbers) for one script pair"

    def tasks(self):
        ps = [(a, b, nat) for a in DANDA for b in DANDA if a != b and a not in NOTSOURCE and b not in NOTTARGET and
              not (a in ABJAD and b in ABJAD) and not skip_pair(a, b)
              for nat in (False, True) if self.thorough or a in HUBS or b in HUBS]
        ps = [p + (False,) for p in ps]
        # option "keep Indic dandas", from the scripts that use the common Indic dandas
        src = [a for a in INDIC if a in DANDA and DANDA[a] == ["\u0964", "\u0965"]]
        ps += [(a, b, False, True) for a in src for b in INDIC + LATIN
               if a != b and b in DANDA and b not in ("OldPersian", "Urdu", "Shahmukhi", "Thaana")]
        # option "full stops": . and ..
        ps += [(a, b, nat, STOP[0]) for a in ("Devanagari", "Telugu", "Tibetan", "ISO") for b in INDIC + LATIN for nat in (False, True)
               if a != b and b in DANDA and b not in NOTTARGET and not skip_pair(a, b) and DANDA[a] != DANDA[b]]
        # strokes as marks, with and without the option
        ps += [(a, b, False, keep) for a in PIPES for b in INDIC + LATIN for keep in ("pipes", "pipes kept")
               if a != b and b in DANDA and b not in NOTTARGET and b not in ("Urdu", "Shahmukhi", "Thaana") and not skip_pair(a, b)]
        return [ps[i:i + 40] for i in range(0, len(ps), 40)]

    def marks(self, script, keep, written):
        """the two marks as they are given in the source (written=False) or expected in the target (written=True)"""
        if keep in STOP and written:
            return ".", "." if script in ONEMARK else ".."
        if keep in ("pipes", "pipes kept") and not written:
            return "|", "||"
        if keep in (True, "pipes kept"):
            return ("|", "||") if script in STROKES else DANDA["Devanagari"]
        return DANDA[script]

    def text(self, script, seq, word, keep=False, written=False):
        s, d = self.marks(script, keep, written)
        return "".join({"w": word, "s": s, "d": d, "_": " ", "1": write("12", script) if "1" in seq else ""}[c] for c in seq)

    def seqs(self, a, b):
        nosp = a in DIVIDER or b in DIVIDER
        nonum = a in NONE or b in NONE
        for q in sequences(5 if self.thorough else 4):
            if (nosp and "_" in q) or (nonum and "1" in q):
                continue
            yield q

    def words(self, a, b, nat):
        k = conv1("Devanagari", a, "कि")
        return k, conv1(a, b, k, nat)

    def run(self, task):
        c = {"evaluations": 0, "distinct_nontrivial": 0}
        sus, smp = [], []
        for a, b, nat, keep in task:
            ka, kb = self.words(a, b, nat)
            qs = list(self.seqs(a, b))
            out = conv_lines(a, b, [self.text(a, q, ka, keep) for q in qs], nat, (), options(keep))
            c["evaluations"] += len(qs)
            c["distinct_nontrivial"] += len(set(out))
            for q, o in zip(qs, out):
                if o != self.text(b, q, kb, keep, True):
                    sus.append({"source": a, "target": b, "nativize": nat, "keep": keep, "tokens": q})
            smp.append({"source": a, "target": b, "text": self.text(a, qs[-1], ka, keep)})
        return c, sus, smp

    def judge(self, case):
        a, b, nat, q, keep = case["source"], case["target"], case["nativize"], case["tokens"], case["keep"]
        ka, kb = self.words(a, b, nat)
        t, w = self.text(a, q, ka, keep), self.text(b, q, kb, keep, True)
        o = conv1(a, b, t, nat, (), options(keep))
        if o != w:
            return "%s -> %s (nativize=%s): %r gives %r, expected %r" % (a, b, nat, t, o, w)


CHECK = C09

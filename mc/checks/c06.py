"""C06  a text is converted line by line and word by word: what stands on other lines, or in other words,
never changes how a word is written"""
from .. import core, deva
from ..api import conv, conv1, Raised
from ..scripts import SOURCES, TARGETS, HUBS, vocabulary, skip_pair

SEPS = ["\n", " "]
# scripts that write a visible divider between words
DIVIDER = {"Kaithi": "\u2e31", "Bhaiksuki": "\U00011c43", "Khojki": "\U0001123a", "OldPersian": "\U000103d0",
           "PhagsPa": " \u1802 ", "Tibetan": "\u0f0b", "TibetanLoC": "\u0f0b", "Ugar": "\U0001039f"}
SPACED_SYLLABLES = {"PhagsPa"}     # as a source, a space separates syllables, not words


def out_sep(target, sep):
    return DIVIDER.get(target, sep) if sep == " " else sep


def debruijn2(n):
    """indices of a cyclic sequence of n*n+1 items in which every ordered pair of items is adjacent once"""
    seq = []
    for i in range(n):
        seq.append(i)
        for j in range(i + 1, n):
            seq += [i, j]
    return seq + [0]


class C06(core.Check):
    id = "C06"
    rule = "one evaluation = one neighbourhood of two words (or lines) in a text, compared with the words converted alone"

    def tasks(self):
        pairs = [(a, b) for a in SOURCES for b in TARGETS if a != b and not skip_pair(a, b)
                 and (self.thorough or a in HUBS or b in HUBS)]
        pairs = [p + (nat,) for p in pairs for nat in (False, True)]
        return [pairs[i:i + 8] for i in range(0, len(pairs), 8)]

    def run(self, task):
        c = {"evaluations": 0, "distinct_nontrivial": 0, "pairs_of_scripts": len(task)}
        sus, smp = [], []
        for a, b, nat in task:
            V = vocabulary(a, "long" if (a == "Devanagari" or b == "Devanagari" or self.thorough) else "short")
            alone = [conv1(a, b, w, nat) for w in V]
            seq = debruijn2(len(V))
            for sep in SEPS:
                if sep == " " and a in SPACED_SYLLABLES:
                    continue
                out = conv1(a, b, sep.join(V[i] for i in seq), nat)
                c["evaluations"] += len(seq)
                osep = out_sep(b, sep)
                got = out.split(osep)
                want = [alone[i] for i in seq]
                if out != osep.join(want):
                    if len(got) != len(want):
                        bad = [(i, j) for i in range(len(V)) for j in range(len(V))]
                    else:
                        bad = set()
                        for k, (g, w) in enumerate(zip(got, want)):
                            if g != w:
                                bad.update(z for z in [tuple(seq[k - 1:k + 1]), tuple(seq[k:k + 2])] if len(z) == 2)
                    n = 0
                    for i, j in sorted(bad):
                        cs = {"source": a, "target": b, "nativize": nat, "sep": sep, "words": [V[i], V[j]]}
                        if self.judge(cs):
                            sus.append(cs)
                            n += 1
                            if n >= 40:
                                break
                    if not n:
                        sus.append({"source": a, "target": b, "nativize": nat, "sep": sep, "words": [V[i] for i in seq]})
            c["distinct_nontrivial"] += len(set(alone)) ** 2 * 2
        return c, sus, smp

    def judge(self, case):
        a, b, nat, sep, ws = (case[k] for k in ("source", "target", "nativize", "sep", "words"))
        whole = conv1(a, b, sep.join(ws), nat)
        parts = [conv1(a, b, w, nat) for w in ws]
        if whole != out_sep(b, sep).join(parts):
            return "%s -> %s (nativize=%s): %r as a whole -> %r, its parts -> %r" % (a, b, nat, sep.join(ws)[:200], whole[:200], parts[:10])


CHECK = C06

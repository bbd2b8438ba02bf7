"""C08  numbers keep their value: every number is written with the target's own digits, in the same order"""
import itertools, json, os, unicodedata
from .. import core, deva, env
from ..api import conv_lines, conv1, Raised
from ..scripts import ALL, INDIC, LATIN, SEMITIC, HUBS, skip_pair

ADDITIVE = {"Kharoshthi", "OldPersian"}                # numerals are sums of number signs, not digits
NONE = ADDITIVE | {"TolongSiki", "RomanLoC"}           # TolongSiki: font-encoded digits; RomanLoC: see C13
ZERO = json.load(open(os.path.join(env.VERIF, "mc", "spec", "digits.json")))   # digit sets, reviewed by Unicode name


# abjads, which share one set of Arabic-type digits: for them only the value is claimed, not the digit set
ABJAD = set(SEMITIC) | {"Hebrew", "Urdu", "Shahmukhi", "Thaana"}


# options: Roman digits; the own digits, also where a script is written with Roman ones by default
OPTION = {"roman": "romanNumerals", "own": "indicNumerals"}
OWN = {"Tamil": "௦", "Telugu": "౦", "Malayalam": "൦", "Gurmukhi": "੦", "GurmukhiLoC": "੦", "Sinhala": "෦"}


def value(s):
    return "".join(str(unicodedata.decimal(c, "?")) for c in s)


def digits(script):
    z = int(ZERO.get(script, "U+0030")[2:], 16)
    return [chr(z + i) for i in range(10)]


def write(n, script):
    d = digits(script)
    return "".join(d[int(c)] for c in n)


def additive_value(s):
    """value of a Kharoshthi / Old Persian numeral: number signs from high to low are added; in Kharoshthi a
    number before a hundred or thousand sign multiplies it"""
    total, pend, last = 0, 0, None
    for ch in s:
        try:
            v = int(unicodedata.numeric(ch))
        except ValueError:
            return None
        if v >= 100 and unicodedata.name(ch).startswith("KHAROSHTHI"):
            total += v * (pend or 1)
            pend = 0
        else:
            pend += v
    return total + pend


def numbers(k):
    for n in range(1, k + 1):
        for t in itertools.product("0123456789", repeat=n):
            yield "".join(t)


class C08(core.Check):
    id = "C08"
    rule = "one evaluation = one number converted for one script pair and nativization setting, distinct = distinct numbers written"

    def tasks(self):
        sc = [s for s in ALL if s not in NONE]
        ps = [("pos", a, b, nat) for a in sc for b in sc if a != b and not skip_pair(a, b) for nat in (False, True)]
        t = [ps[i:i + 100] for i in range(0, len(ps), 100)]
        t += [[("add", a, b, nat)] for a in HUBS for b in ADDITIVE for nat in (False, True)]
        t += [[("readadd", a, b, nat)] for a in HUBS for b in ADDITIVE for nat in (False, True)]
        t += [[("ctx", "Devanagari", b, False)] for b in sc if b != "Devanagari"]
        # the options that ask for Roman digits, and for the script's own digits
        t += [[(o, a, b, nat)] for o in OPTION for a in ("Devanagari", "Telugu", "ISO") for b in INDIC + LATIN
              for nat in (False, True) if a != b and b not in NONE | ABJAD]
        return t

    def words(self, kind, a, b):
        if kind == "pos":
            return list(numbers(3 if a in HUBS or b in HUBS or self.thorough else 2))
        if kind in ("add", "readadd"):
            top = (100000 if self.thorough else 10000) if b == "Kharoshthi" else (3000 if self.thorough else 1000)
            return [str(i) for i in range(top)]
        return list(numbers(2))

    def run(self, task):
        c = {"evaluations": 0, "distinct_nontrivial": 0}
        sus, smp = [], []
        for kind, a, b, nat in task:
            ns = self.words(kind, a, b)
            k = kb = ""
            if kind in ("ctx", "roman", "own"):
                k = conv1("Devanagari", a, "कि")
                kb = conv1(a, b, k, nat)
            out = conv_lines(a, b, [k + write(n, a) + k for n in ns], nat, (), [OPTION[kind]] if kind in OPTION else ())
            if kind == "readadd":
                out = conv_lines(b, a, out, nat)
            c["evaluations"] += len(ns)
            c["distinct_nontrivial"] += len(set(out))
            for n, o in zip(ns, out):
                if not self.ok(kind, a, b, n, o, kb):
                    sus.append({"kind": kind, "source": a, "target": b, "nativize": nat, "number": n})
            smp.append({"source": a, "target": b, "number": ns[-1], "written": out[-1]})
        return c, sus, smp

    @staticmethod
    def ok(kind, a, b, n, o, kb):
        if kind == "add":
            return additive_value(o) == int(n)
        if kind == "readadd":
            return o == write(n, a)
        if kind in OPTION:
            z = ord("0") if kind == "roman" else ord(OWN[b]) if b in OWN else None
            return o == kb + ("".join(chr(z + int(c)) for c in n) if z else write(n, b)) + kb
        if a in ABJAD or b in ABJAD:
            return o[:len(kb)] == kb and o[-len(kb):] == kb and value(o[len(kb):-len(kb)]) == n if kb else value(o) == n
        return o == kb + write(n, b) + kb

    def judge(self, case):
        kind, a, b, nat, n = (case[x] for x in ("kind", "source", "target", "nativize", "number"))
        k = conv1("Devanagari", a, "कि") if kind == "ctx" or kind in OPTION else ""
        kb = conv1(a, b, k, nat) if k else ""
        o = conv1(a, b, k + write(n, a) + k, nat, (), [OPTION[kind]] if kind in OPTION else ())
        if kind == "readadd":
            o = o if isinstance(o, Raised) else conv1(b, a, o, nat)
            if o != write(n, a):
                return "%s -> %s -> %s (nativize=%s): number %s is read back as %r" % (a, b, a, nat, write(n, a), o)
            return None
        if not self.ok(kind, a, b, n, o, kb):
            return "%s -> %s (nativize=%s)%s: number %s (%r) is written %r" % (
                a, b, nat, " with " + OPTION[kind] if kind in OPTION else "", n, k + write(n, a) + k, o)


CHECK = C08

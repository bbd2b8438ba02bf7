"""C23  Semitic alphabets write every word sound by sound, and are read back the same way"""
import itertools, unicodedata
from .. import core, deva, semitic
from ..api import conv1, conv_lines
from ..scripts import INDIC, LATIN, SEMITIC

D = "Devanagari"
# sources and targets with an own reading of Semitic letters, or with two readings of a text (see DESIGN.md)
OTHER = {"Hebrew", "Urdu", "Shahmukhi", "Thaana", "RomanSemitic", "RomanLoC", "Chakma", "LimbuLoC", "PersianDMG", "PhagsPa", "BatakKaro", "Cham", "Lao2"}
FEW = ["Telugu", "Bengali", "Gurmukhi", "Burmese", "IAST", "HK", "Itrans", "Tamil"]
# letters whose place among the marks or final forms differs: not part of the comparison of letters
TWO = {"Nbat"}


def N(s):
    return unicodedata.normalize("NFC", s)


def native_write(x, s):
    return s.translate(str.maketrans("ڨپڤ", "غبف")) if x == "Arab" else s


def ambiguous(x, ss):
    """words whose spelling in x can be read in two ways"""
    hiatus = [v for i, (c, v) in enumerate(ss) if not c and i]
    if x == "Arab":         # t and sh for c: the sign of doubling stands on the second letter
        return any(a[1] is None and a[0][:1] == "č" and b[0][:1] == "č" for a, b in zip(ss, ss[1:]))
    if x in ("Arab-Fa", "Arab-Ur", "Arab-Pa"):
        if any(a[1] == "a" and not b[0] for a, b in zip(ss, ss[1:])) or (x != "Arab-Fa" and any(v in ("ō", "o") for v in hiatus)):
            return True
        return any(a[1] is None and b[0] == a[0] and a[0][-1] == "ʰ" for a, b in zip(ss, ss[1:]))
    return x == "Syrn" and bool(hiatus)


class C23(core.Check):
    id = "C23"
    level = "model_checking"
    rule = "one evaluation = one word compared with the model"

    def prepare(self):
        self.T = semitic.load()
        W = list(deva.fam_akshara(deva.FULL)) + list(deva.fam_hiatus(deva.CORE)) + list(deva.fam_cluster2(deva.CORE, signs=["", "ि"]))
        W += list(deva.fam_cvc(deva.CORE, signs=["", "ि", "ा"] if not self.thorough else ["", "ि", "ा", "ी", "े", "ौ"]))
        W += [v + c + w for v in ["", "अ", "का"] for c in ["क्ष", "त्र", "श्च", "न्त", "ङ्क"] for w in ["ऍ", "ऑ", "ा ", "ि क"]]
        if self.thorough:
            W += list(deva.fam_hiatus(deva.FULL)) + list(deva.fam_vowels3(deva.CORE)) + list(deva.fam_cluster2(deva.FULL, signs=["", "ा", "ू"]))
        W = [(w, semitic.sounds(w)) for w in dict.fromkeys(W)]
        self.W = [(w, s) for w, s in W if s is not None]
        self.F = self.W[::1 if self.thorough else 19]
        self.R = self.W[::9 if self.thorough else 61]

    def tasks(self):
        t = [("write", x, n) for x in SEMITIC for n in (False, True)] + [("read", x, n) for x in SEMITIC for n in (False, True)]
        t += [("letters", x, y) for x in SEMITIC if self_letters(x) for y in SEMITIC if y not in (x, "Latn")]
        allof = [s for s in INDIC + LATIN if s not in OTHER and s != D]
        src = allof if self.thorough else allof[::4] + [s for s in FEW if s not in allof[::4]]
        t += [("source", s, SEMITIC) for s in src]
        t += [("target", s, SEMITIC) for s in allof]
        return t

    def run(self, task):
        kind, x, y = task
        c, sus, smp = {"evaluations": 0, "distinct_nontrivial": 0}, [], []
        n = tr = 0
        seen = set()
        if kind in ("write", "read"):
            m = semitic.Script(self.T[x])
            W = [w for w, s in self.W]
            a = conv_lines(D, x, W, y if kind == "write" else False)
            b = a if kind == "write" else conv_lines(x, D, a, y)
            for (w, ss), p, q in zip(self.W, a, b):
                e = self.expect(m, kind, x, y, ss)
                if e is None:
                    continue
                n += 1
                tr += len(ss)
                seen.add(q)
                if N(q) != N(e):
                    sus.append({"kind": kind, "script": x, "nativize": y, "word": w})
            smp = [{"kind": kind, "script": x, "nativize": y, "word": W[5], "got": b[5]}] if not y else []
        elif kind == "letters":
            L = list(self.letters(x, y))
            ws = ["".join(p) for p in itertools.product(L, repeat=2)]
            ws += ["".join(p) for p in itertools.product(L[::1 if self.thorough else 5], L, L[::1 if self.thorough else 7])]
            if y == "Hebr":         # the same letter twice at the end, see semitic.py
                ws = [w for w in ws if self.letter(x, y, w[-1])[:1] != self.letter(x, y, w[-2])[:1] or self.letter(x, y, w[-1])[:1] not in "כמנפצ"]
            for w, q in zip(ws, conv_lines(x, y, ws)):
                n += 1
                tr += len(w)
                seen.add(q)
                if q != self.put(x, y, w):
                    sus.append({"kind": kind, "script": x, "other": y, "word": w})
        else:
            F = [w for w, s in (self.F if kind == "source" else self.R)]
            if kind == "source":
                X = conv_lines(D, x, F)
                back = conv_lines(x, D, X)
                F, X = [list(k) for k in zip(*[(w, t) for w, t, r in zip(F, X, back) if w == r])] or ([], [])
            for z in y:
                if kind == "source":
                    a, b = conv_lines(x, z, X), conv_lines(D, z, F)
                    t = X
                else:
                    t = conv_lines(D, z, F)
                    a, b = conv_lines(z, x, t), conv_lines(D, x, conv_lines(z, D, t))
                for w, k, p, q in zip(F, t, a, b):
                    if kind == "target" and ambiguous(z, semitic.sounds(w)):
                        continue
                    n += 1
                    tr += 1
                    seen.add(p)
                    if p != q:
                        sus.append({"kind": kind, "script": z, "other": x, "word": w, "text": k})
        c["evaluations"] = c["states"] = c["traces_validated_against_impl"] = n
        c["transitions"] = tr
        c["distinct_nontrivial"] = len(seen)
        c[kind] = n
        return c, sus[:60], smp

    def expect(self, m, kind, x, nat, ss):
        if kind == "write":
            e = m.write(ss)
            return native_write(x, e) if nat and e is not None else e
        if ambiguous(x, ss):
            return None
        return semitic.collapse(ss, self.T[x]["back_native" if nat else "back"])

    def letter(self, x, y, k):
        t = self.T[y]
        return t.get("other", {}).get(x, {}).get(k, t["put"][self.T[x]["letters"][k]])

    def letters(self, x, y):
        for k in self.T[x]["letters"]:
            r = self.letter(x, y, k)
            base = [ch for ch in r if unicodedata.category(ch)[0] not in "M"]
            if y == "Type" or (all(unicodedata.category(ch)[0] == "L" for ch in base) and not (y in TWO and len(base) > 1)):
                yield k

    def put(self, x, y, w):
        un = {v: k for k, v in self.T[x]["final"].items()}
        r = "".join(self.letter(x, y, k) for k in w)
        return semitic.Script(self.T[y]).finals(r)

    def judge(self, k):
        kind, x = k["kind"], k["script"]
        if kind in ("write", "read"):
            p = conv1(D, x, k["word"], k["nativize"] if kind == "write" else False)
            q = p if kind == "write" else conv1(x, D, p, k["nativize"])
            e = self.expect(semitic.Script(self.T[x]), kind, x, k["nativize"], semitic.sounds(k["word"]))
            if e is not None and N(e) != N(q):
                if kind == "write":
                    return "Devanagari > %s (nativize=%s): %r is written %r, sound by sound it is %r" % (x, k["nativize"], k["word"], q, e)
                return "%s > Devanagari (nativize=%s): %r (for %r) is read %r, sound by sound it is %r" % (x, k["nativize"], p, k["word"], q, e)
        elif kind == "letters":
            q, e = conv1(x, k["other"], k["word"]), self.put(x, k["other"], k["word"])
            if q != e:
                return "%s > %s: the letters %r become %r instead of %r" % (x, k["other"], k["word"], q, e)
        elif kind == "source":
            t = conv1(D, k["other"], k["word"])
            p, q = conv1(k["other"], x, t), conv1(D, x, k["word"])
            if p != q and conv1(k["other"], D, t) == k["word"]:
                return "%s > %s: %r is written %r, the same word in Devanagari %r is written %r" % (k["other"], x, t, p, k["word"], q)
        else:
            t = conv1(D, x, k["word"])
            p, d = conv1(x, k["other"], t), conv1(x, D, t)
            q = conv1(D, k["other"], d)
            if p != q:
                return "%s > %s: %r is read %r, but it is %r in Devanagari and that is written %r" % (x, k["other"], t, p, d, q)


def self_letters(x):
    return bool(semitic.load()[x].get("letters"))


CHECK = C23

"""An independent reference model of abugida spelling, one instance per script or scheme.

A word is parsed into aksharas  (onset consonants)(vowel sign)(ayogavaha)  or  (vowel)(ayogavaha).
The written form of an akshara is   pre[rime] base(c1) sub(c2) .. sub(cn) post[rime];   words are the
concatenation of their aksharas.  The tables live in mc/spec/tables.json.
"""
import json, os
from . import env, deva
from .deva import VIR, AYOG, SIGN_OF, VOWELS, VOWELS_X

_V = set(VOWELS + VOWELS_X)
_S = {s for s in SIGN_OF.values() if s}


def parse(w):
    """-> list of ('V', vowel, ayog) | ('C', [cons...], sign-or-virama, ayog)"""
    out, i, n = [], 0, len(w)
    while i < n:
        ch = w[i]
        if ch in _V:
            y = w[i + 1] if i + 1 < n and w[i + 1] in AYOG else ""
            out.append(("V", ch, y))
            i += 1 + len(y)
            continue
        on = []
        while True:
            c = w[i]
            if i + 1 < n and w[i + 1] == "़":
                c += "़"
            on.append(c)
            i += len(c)
            if i + 1 < n and w[i] == VIR and w[i + 1] not in _V:
                i += 1
                continue
            break
        s = ""
        if i < n and (w[i] in _S or w[i] == VIR):
            s = w[i]
            i += 1
        y = ""
        if i < n and w[i] in AYOG:
            y = w[i]
            i += 1
        out.append(("C", on, s, y))
    return out


class Model:
    def __init__(self, t):
        self.steps = 0                            # akshara transitions taken
        self.base, self.vow, self.rime, self.sub = t["base"], t["vowels"], t["rimes"], t.get("sub", {})
        self.prelast = t.get("pre_before", "onset") == "last"
        self.over = t.get("special", {})          # "cons rime" -> whole akshara written specially
        self.noclu = set(t.get("not_in_clusters", []))
        self.skip = set(t.get("outside", []))     # contexts the tables do not describe ..
        self.join = t.get("joiner", "")            # written between the syllables of a word
        self.pairs, self.words = t.get("pairs", {}), t.get("words", {})   # .. but these lists may (mc/spec/pairs.json)

    def pair(self, a):
        """two consonants that are written together in a form of their own (core), or the first one without its
        vowel (dead) before the syllable of the second"""
        core, dead = self.pairs[VIR.join(a[1])]
        r = a[2] + a[3]
        if core is not None and r in self.rime:
            pre, post = self.rime[r]
            return pre + core + post
        e = None if dead is None else self.akshara(("C", a[1][1:], a[2], a[3]))
        return None if e is None else dead + e

    def akshara(self, a):
        if a[0] == "V":
            return self.vow.get(a[1] + a[2])
        on, r = a[1], a[2] + a[3]
        if r not in self.rime:
            return None
        k = on[-1] + " " + r
        if k in self.skip or (len(on) > 1 and (on[-2] + VIR + on[-1] in self.skip or on[-2] + VIR + on[-1] + r in self.skip)):
            return None
        pre, post = self.rime[r]
        if len(on) == 1:
            if k in self.over:
                return self.over[k]
            b = self.base.get(on[0])
            return None if b is None else pre + b + post
        if k in self.over or r in self.noclu:
            return None
        if len(on) > 2:
            for x, y in zip(on, on[1:]):
                if x + VIR + y in self.skip:
                    return None
        parts = [self.base.get(on[0])] + [self.sub.get(c) for c in on[1:]]
        if None in parts:
            return None
        if self.prelast and pre:
            return None
        return pre + "".join(parts) + post

    def word(self, w):
        """the expected written form, or None if the model does not describe this word"""
        if w in self.words:
            self.steps += 1
            return self.words[w]
        out = []
        ak = parse(w)
        self.steps += len(ak)
        if len(ak) == 1 and ak[0][0] == "C" and len(ak[0][1]) == 2 and VIR.join(ak[0][1]) in self.pairs:
            t = self.akshara(ak[0])
            return self.pair(ak[0]) if t is None else t
        for a in ak:
            t = self.akshara(a)
            if t is None:
                return None
            out.append(t)
        if len(ak) > 1 and self.skip:
            for p, q in zip(ak, ak[1:]):
                if "%s+%s" % (p[1][-1] if p[0] == "C" else p[1], q[1][0] if q[0] == "C" else q[1]) in self.skip:
                    return None
        return self.join.join(out)


def load():
    p = os.path.join(env.VERIF, "mc", "spec", "tables.json")
    return json.load(open(p, encoding="utf8")) if os.path.exists(p) else {}

"""C21  every spelling option makes exactly its own replacements, wherever they apply, and nothing else"""
import itertools, json, os, re
from .. import core, deva, env
from ..api import conv1, conv_lines
from ..scripts import LONG

SPEC = os.path.join(env.VERIF, "mc", "spec")
RULES = json.load(open(os.path.join(SPEC, "option_rules.json"), encoding="utf8"))
BACK = json.load(open(os.path.join(SPEC, "option_back.json"), encoding="utf8"))
OPTS = json.load(open(os.path.join(SPEC, "options.json"), encoding="utf8"))
D = "Devanagari"
# options that also steer the conversion itself (another font encoding, another way of choosing a letter): no
# replacement in the text describes them
STEER = {"AnusvaraAsN", "BalineseSimplified", "BengaliRaBa", "GranthaPrakrit", "JavaneseSimplified", "LaoNative",
         "SoyomboFinals", "egrantamil", "indicDandas", "indicNumerals", "nepaldevafont", "ranjanalantsa", "ranjanawartu",
         "romanFullStop", "romanNumerals", "siddhamap", "siddhammukta", "removeDiacritics", "KhmerLoCRomanLoCSource",
         "novowelshebrewIndic", "removeFinalSchwaArab", "SchwaFinalWarangCiti"}
SOURCES = {"RomanSemitic"}                          # its vowel marks combine with what the options write
# options whose rules look at what the conversion makes of a word's end or of foreign letters: words of the source only
WORDS = {"HebrewnonFinalShort", "PersianDMGTarget", "inherentAO", "urduRemoveInherent", "removeSukunEnd", "TamilTranscribe",
         "TamilTranscribeDialect", "RetainDevangariDanda", "holamlong"}
FIRST = {"arabicRemoveAdditionsPhonetic"}           # acts before all others, wherever it stands in the list


def apply(rules, t):
    for k, a, b in rules:
        t = t.replace(a, b) if k == "r" else re.sub(a, b, t)
    return t


def strings(pattern, cap=40):
    """strings (in context) that the pattern of a rule stands for: every branch, every member of a class"""
    P = re._parser

    def seq(items):
        out = [""]
        for op, av in items:
            alt = one(str(op), av)
            # every alternative at least once, not the whole product
            n = max(len(out), len(alt))
            out = [out[i % len(out)] + alt[i % len(alt)] for i in range(n)] if len(out) > 1 and len(alt) > 1 and n > 6 else [x + y for x in out for y in alt]
            out = out[:cap]
        return out

    def one(op, av):
        if op == "LITERAL":
            return [chr(av)]
        if op == "NOT_LITERAL" or op == "ANY":
            return ["क", "x"]
        if op == "IN":
            if str(av[0][0]) == "NEGATE":
                return ["क", "x"]
            r = []
            for o, v in av:
                r += [chr(v)] if str(o) == "LITERAL" else [chr(c) for c in range(v[0], v[1] + 1)][:12] if str(o) == "RANGE" else [" ", "."] if "SPACE" in str(v) or "NOT_WORD" in str(v) else ["1"] if "DIGIT" in str(v) else ["क"]
            return r
        if op == "BRANCH":
            return [s for b in av[1] for s in seq(b)]
        if op == "SUBPATTERN":
            return seq(av[-1])
        if op in ("MAX_REPEAT", "MIN_REPEAT"):
            s = seq(av[2])
            return ([""] if av[0] == 0 else []) + s + ([x + x for x in s[:3]] if av[1] > 1 else [])
        if op in ("ASSERT",):
            return seq(av[1])
        if op == "ASSERT_NOT":
            return [""] + seq(av[1])[:3]            # both sides of the condition
        return [""]

    try:
        return list(dict.fromkeys(seq(P.parse(pattern))))[:cap]
    except Exception:
        return []


def triggers(rules):
    """texts on which the rules act, alone, beside letters, doubled and in all ordered pairs"""
    per = [[a] if k == "r" else strings(a) for k, a, b in rules]
    lhs = list(dict.fromkeys(x for p in per for x in p if x))
    rhs = list(dict.fromkeys(b for k, a, b in rules if b and "\\" not in b and len(b) < 12))
    out = lhs + rhs
    out += [p + x + s for x in lhs for p, s in (("क", "त"), ("क", ""), ("", "त"), ("", " "), (" ", "a"), ("a", "a"), ("", "."), ("1", "।"))]
    few = lhs if len(lhs) <= 24 else lhs[::max(1, len(lhs) // 24)]
    out += [x + y for x in few for y in few] + [x + y + x for x in few[:10] for y in few[:10]]
    return [t for t in dict.fromkeys(out) if "\n" not in t and t.strip()]


def words(thorough):
    A = deva.FULL
    c = A.cons + ["क्ष", "ज्ञ", "त्र", "श्र", "र्म", "ह्न", "त्त", "न्द"]
    W = list(deva.fam_akshara(A)) + list(LONG) + ["०१२३", "क१२", "रामः । हरिः ॥", "ॐ", "ओं", "क॰", "गत् ", "ऽहम्"]
    C = deva.CORE.cons
    W += [a + "्" + b + v for a in C for b in C for v in (("", "े") if thorough else ("",))]
    W += [a + n + b for a in ("क", "रि", "सू") for n in ("ं", "ँ", "ः") for b in C]
    W += [a + v for a in ("", "क", "र", "कि") for v in A.vowels]
    return list(dict.fromkeys(W))


class C21(core.Check):
    id = "C21"
    level = "model_checking"
    rule = "one evaluation = one text converted with an option and compared with the same conversion without it, changed by the option's rules; distinct = distinct texts that the option changes"

    def tasks(self):
        t = []
        for kind in ("post", "pre"):
            for o in sorted(set(RULES[kind]) - STEER):
                for s, g in dict.fromkeys((a, b) for a, b, w in OPTS[kind].get(o, []) if a not in SOURCES):
                    t.append(["one", kind, o, s, g])
        by = {}
        for kind in ("post", "pre"):
            for o in set(RULES[kind]) - STEER - WORDS - FIRST:
                for a, b, w in OPTS[kind].get(o, []):
                    if a in SOURCES:
                        continue
                    by.setdefault((kind, a, b), []).append(o)
        for (kind, a, b), os_ in sorted(by.items()):
            if len(os_) > 1:
                t.append(["two", kind, sorted(os_), a, b])
        t += [["back", "post", o, g, pre] for o, g, pre in BACK]
        return t

    def prepare(self):
        self.W = words(self.thorough)
        self.cache = {}

    def texts(self, s, o, rules):
        if s not in self.cache:
            self.cache[s] = self.W if s == D else conv_lines(D, s, self.W)
        return [x for x in list(self.cache[s]) + ([] if o in WORDS else triggers(rules)) if isinstance(x, str) and "raised" not in x and not (o in WORDS and "²" in x)]

    def run(self, task):
        c, sus, smp = {"evaluations": 0, "distinct_nontrivial": 0}, [], []
        how, kind, o, s, g = task
        if how == "back":
            return self.back(o, s, g)
        if how == "one":
            R = RULES[kind][o]
            X = self.texts(s, o, R)
            kw = {kind: [o]}
            if kind == "post":
                a = conv_lines(s, g, X)
                b = conv_lines(s, g, X, **kw)
                e = [apply(R, x) for x in a]
            else:
                a = conv_lines(s, g, X)
                b = conv_lines(s, g, X, **kw)
                e = conv_lines(s, g, [apply(R, x) for x in X])
            ch = set()
            for x, p, q, r in zip(X, a, b, e):
                if p != q:
                    ch.add(q)
                if q != r:
                    sus.append({"kind": kind, "options": [o], "source": s, "target": g, "text": x})
            c["evaluations"] += len(X)
            c["distinct_nontrivial"] += len(ch)
            c["states"], c["transitions"], c["traces_validated_against_impl"] = len(X), len(X) * len(R), len(X)
            c["option_pairs_of_scripts"] = 1
            c["options_with_an_effect"] = 1 if ch else 0
            if ch and not sus:
                smp.append({"option": o, "source": s, "target": g, "changed": len(ch), "example": sorted(ch)[0]})
        else:
            for p, q in itertools.permutations(o, 2):
                X = triggers(RULES[kind][p] + RULES[kind][q])
                X = X[:60] + (self.texts(s, None, [])[:700:5])
                b = conv_lines(s, g, X, **{kind: [p, q]})
                if kind == "post":
                    e = [apply(RULES[kind][q], apply(RULES[kind][p], x)) for x in conv_lines(s, g, X)]
                else:
                    e = conv_lines(s, g, [apply(RULES[kind][q], apply(RULES[kind][p], x)) for x in X])
                c["evaluations"] += len(X)
                n = len(RULES[kind][p]) + len(RULES[kind][q])
                for f, v in (("states", len(X)), ("transitions", n * len(X)), ("traces_validated_against_impl", len(X))):
                    c[f] = c.get(f, 0) + v
                c["ordered_pairs_of_options"] = c.get("ordered_pairs_of_options", 0) + 1
                for x, y, r in zip(X, b, e):
                    if y != r:
                        sus.append({"kind": kind, "options": [p, q], "source": s, "target": g, "text": x})
        return c, sus[:60], smp

    def back(self, o, g, pre):
        """an alternative spelling reads as the same word"""
        c, sus = {"evaluations": len(self.W), "distinct_nontrivial": 0, "spellings_read_back": 0}, []
        ch = [(w, a, b) for w, a, b in zip(self.W, conv_lines(D, g, self.W), conv_lines(D, g, self.W, post=[o])) if a != b]
        for (w, a, b), p, q in zip(ch, conv_lines(g, D, [a for w, a, b in ch]), conv_lines(g, D, [b for w, a, b in ch], pre=pre)):
            if p != q:
                sus.append({"kind": "back", "option": o, "script": g, "pre": pre, "text": w})
        c["distinct_nontrivial"] = len({b for w, a, b in ch})
        c["spellings_read_back"] = len(ch)
        return c, sus[:60], [{"option": o, "script": g, "read_back": len(ch)}] if ch else []

    def judge(self, k):
        if k["kind"] == "back":
            g = k["script"]
            a, b = conv1(D, g, k["text"]), conv1(D, g, k["text"], post=[k["option"]])
            p, q = conv1(g, D, a), conv1(g, D, b, pre=k["pre"])
            return None if p == q else "%s: with %s %r is written %r, which reads %r and not %r" % (g, k["option"], k["text"], b, q, p)
        x, s, g = k["text"], k["source"], k["target"]
        y = conv1(s, g, x, **{k["kind"]: k["options"]})
        if k["kind"] == "post":
            e = conv1(s, g, x)
            for o in k["options"]:
                e = apply(RULES["post"][o], e)
        else:
            e = x
            for o in k["options"]:
                e = apply(RULES["pre"][o], e)
            e = conv1(s, g, e)
        if y != e:
            return "%s > %s with %s %s: %r is written %r instead of %r" % (s, g, k["kind"], k["options"], x, y, e)


CHECK = C21

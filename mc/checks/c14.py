"""C14  names are matched regardless of case, unknown names change nothing, the caller's arguments are not modified"""
import itertools, json, os, warnings
from .. import core, env
from ..api import conv1, T
from ..scripts import ALL, INDIC, LATIN, vocabulary

OPTS = json.load(open(os.path.join(env.VERIF, "mc", "spec", "options.json"), encoding="utf8"))
PROBE = "त्रि सं १ ।"
EXTRA = ["Hiragana", "Katakana", "ISO233", "ISO259", "HebrewSBL", "PersianDMG", "Ignore", "autodetect"]
UNKNOWN = ["noSuchOption", "", "remove diacritics", "कखग", "RemoveDiacritic", "__init__", "os", "re"]


def flips(n):
    """all case variants that differ in one letter, and the uniform ones"""
    out = {n.lower(), n.upper(), n.swapcase(), n.title(), n.capitalize()}
    for i, c in enumerate(n):
        out.add(n[:i] + c.swapcase() + n[i + 1:])
    out.discard(n)
    return sorted(out)


def mutants(n):
    """names that are not the name of anything: one character dropped, doubled or appended"""
    known = {x.lower() for x in ALL + EXTRA}
    out = {n[:i] + n[i + 1:] for i in range(len(n))} | {n[:i] + n[i] + n[i:] for i in range(len(n))} | {n + c for c in "x 1-"} | {" " + n}
    return sorted(x for x in out if x and x.lower() not in known)


def raw(*a, **k):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        try:
            r = T.process(*a, **k)
        except Exception as e:
            r = "<raised %s: %s>" % (type(e).__name__, str(e)[:100])
    return r, [str(x.message) for x in w]


class C14(core.Check):
    id = "C14"
    rule = "one evaluation = one call with a variant name, an unknown name or an argument list watched for modification"

    def tasks(self):
        t = []
        for s in INDIC + LATIN:
            t.append([{"kind": "case", "script": s, "variant": v} for v in flips(s)])
        for s in ALL:
            ms = mutants(s)
            t.append([{"kind": "unknown", "name": v, "other": o, "text": x} for v in (ms if self.thorough else ms[::3] + ms[-1:])
                      for o in ("Devanagari", "IAST", "Arab") for x in ("त्रि abc ā 12 ।", "rāmaḥ kṣi")])
        for kind in ("pre", "post"):
            for o, ex in OPTS[kind].items():
                cs = []
                for a, b, w in ex:
                    vs = flips(o)
                    cs += [{"kind": "optcase", "which": kind, "option": o, "variant": v, "source": a, "target": b, "word": w}
                           for v in (vs if self.thorough else [o.lower(), o.upper(), o.swapcase()])]
                    for u in UNKNOWN:
                        for seq in ([u, o], [o, u], [u, o, u], [u, u, o]):
                            cs.append({"kind": "optunknown", "which": kind, "option": o, "list": seq, "source": a, "target": b, "word": w})
                t.append(cs)
        for a, b in (("Devanagari", "Tamil"), ("IAST", "Devanagari"), ("Arab", "Devanagari"), ("Devanagari", "IAST"), ("Itrans", "Tibetan")):
            w = vocabulary(a, "short")[0]
            for nat in (False, True):
                t.append([{"kind": "unknownonly", "which": k, "list": list(q), "source": a, "target": b, "word": w, "nativize": nat}
                          for k in ("pre", "post") for n in (1, 2) for q in itertools.product(UNKNOWN, repeat=n)])
        return t

    def run(self, task):
        c = {"evaluations": len(task), "distinct_nontrivial": 0}
        sus, seen = [], set()
        for case in task:
            m = self.judge(case)
            seen.add(json.dumps({k: v for k, v in case.items()}, ensure_ascii=False))
            if m:
                sus.append(case)
        c["distinct_nontrivial"] = len(seen)
        return c, sus, [task[0]] if task else []

    def judge(self, x):
        k = x["kind"]
        if k == "case":
            s, v = x["script"], x["variant"]
            w = conv1("Devanagari", s, PROBE)
            for args, ref in ((("Devanagari", v, PROBE), w), ((v, "Devanagari", w), conv1(s, "Devanagari", w))):
                r, _ = raw(*args, nativize=False)
                if r != ref:
                    return "script name %r is not read like %r: %r gives %r instead of %r" % (v, s, args, r, ref)
            return None
        if k == "unknown":
            n, o, t = x["name"], x["other"], x["text"]
            for a, b in ((n, o), (o, n), (n, n + "q")):
                for nat in (False, True):
                    r, warned = raw(a, b, t, nativize=nat)
                    if r != t:
                        return "unknown script: %r -> %r (nativize=%s) turns %r into %r" % (a, b, nat, t, r)
                    if not warned:
                        return "unknown script: %r -> %r gives no warning" % (a, b)
            return None
        a, b, w = x["source"], x["target"], x["word"]
        key = "pre_options" if x["which"] == "pre" else "post_options"
        if k == "unknownonly":
            l = list(x["list"])
            r, _ = raw(a, b, w, nativize=x["nativize"], **{key: l})
            ref, _ = raw(a, b, w, nativize=x["nativize"])
            if r != ref or l != x["list"]:
                return "%s -> %s: %s=%r gives %r, without options %r" % (a, b, key, x["list"], r, ref)
            return None
        ref, _ = raw(a, b, w, nativize=False, **{key: [x["option"]]})
        given = [x["variant"]] if k == "optcase" else list(x["list"])
        for cont in (list, tuple):
            l, other = cont(given), cont([])
            okey = "post_options" if key == "pre_options" else "pre_options"
            r, _ = raw(a, b, w, nativize=False, **{key: l, okey: other})
            if r != ref:
                return "%s -> %s %r: %s=%r gives %r, with %r it gives %r" % (a, b, w, key, l, r, x["option"], ref)
            if list(l) != given or list(other):
                return "%s -> %s: the caller's option list %r became %r" % (a, b, given, (l, other))
        return None


CHECK = C14

"""Drafts mc/spec/tables.json (the letter tables of the reference model) by fitting the model to the base
tree once; entries that Unicode character names determine independently are compared with them and the
differences are listed for review.  Not used by any check."""
import collections, json, multiprocessing as mp, os, sys, unicodedata as U
from . import env, deva
from .deva import *
from .model import Model, parse


def common_suffix(xs):
    xs = list(xs)
    s = xs[0]
    for x in xs:
        while not x.endswith(s):
            s = s[1:]
    return s


def fit(arg):
    X, A, clusters = arg
    sys.stdout = open(os.devnull, "w")
    from .api import conv_lines
    o = {}

    def get(ws):
        ws = [w for w in ws if w not in o]
        for b in batches(ws):
            for w, t in zip(b, conv_lines("Devanagari", X, b)):
                o[w] = t
    cons = A.cons
    get(cons)
    inh = common_suffix([o[c] for c in cons]) if len(cons) > 3 else ""
    if any(len(o[c]) == len(inh) for c in cons):
        inh = ""
    base = {c: o[c][:len(o[c]) - len(inh)] for c in cons}
    t = {"base": base, "vowels": {}, "rimes": {}, "sub": {}, "special": {}, "outside": []}
    rimes = [s + y for s in A.signs for y in [""] + A.ayog] + ([VIR] if A.virama else [])
    get([v + y for v in A.vowels for y in [""] + A.ayog])
    for v in A.vowels:
        for y in [""] + A.ayog:
            t["vowels"][v + y] = o[v + y]
    get([c + r for c in cons for r in rimes])
    for r in rimes:
        cnt = collections.Counter()
        for c in cons:
            x, b = o[c + r], base[c]
            i = x.find(b)
            if i >= 0 and b:
                cnt[(x[:i], x[i + len(b):])] += 1
        if cnt:
            t["rimes"][r] = list(cnt.most_common(1)[0][0])
    m = Model(t)
    for c in cons:
        for r in rimes:
            if m.word(c + r) != o[c + r]:
                t["special"][c + " " + r] = o[c + r]
    if clusters:
        cs = [c for c in cons if c not in A.nofinal]
        pairs = [(x, y) for x in cs for y in cons]
        get([x + VIR + y for x, y in pairs])
        for y in cons:
            cnt = collections.Counter()
            for x in cs:
                w = o[x + VIR + y]
                if w.startswith(base[x]) and w.endswith(inh):
                    cnt[w[len(base[x]):len(w) - len(inh)]] += 1
            if cnt:
                t["sub"][y] = cnt.most_common(1)[0][0]
        for x, y in pairs:
            m = Model(t)
            if m.word(x + VIR + y) != o[x + VIR + y]:
                t["outside"].append(x + VIR + y)
        m = Model(t)
        ws = [x + VIR + y + r for x, y in pairs for r in rimes if r and (r != VIR or y not in A.nofinal)]
        get(ws)
        badk = collections.Counter()
        for x, y in pairs:
            for r in rimes:
                w = x + VIR + y + r
                if w in o:
                    e = m.word(w)
                    if e is not None and e != o[w]:
                        badk[(x, y, r)] += 1
        byyr = collections.Counter((y, r) for x, y, r in badk)
        byxy = collections.Counter((x, y) for x, y, r in badk)
        byr = collections.Counter(r for x, y, r in badk)
        for x, y, r in badk:
            if byxy[(x, y)] > len(rimes) / 3:
                t["outside"].append(x + VIR + y)
            elif byr[r] > 0.3 * len(pairs):
                t.setdefault("norime2", []).append(r)
            elif byyr[(y, r)] > len(cs) / 3:
                t["outside"].append(y + " " + r)
            else:
                t["outside"].append(x + VIR + y + r)
        if "norime2" in t:
            t["not_in_clusters"] = sorted(set(t.pop("norime2")))
        t["outside"] = sorted(set(t["outside"]))
        if len(t["outside"]) > 0.5 * len(pairs) * len(rimes):
            t["sub"] = {}
            t["outside"] = []
    # three-consonant clusters
    if t["sub"]:
        m = Model(t)
        core_ = [c for c in cons if c in deva.CORE.cons and c not in A.nofinal]
        n3 = b3 = 0
        for ws in batches(fam_cluster3(A, cons=core_, signs=("",))):
            for w, x in zip(ws, conv_lines("Devanagari", X, ws)):
                e = m.word(w)
                if e is not None:
                    n3 += 1
                    b3 += e != x
        t["cluster3"] = b3 == 0 and n3 > 0
        if b3: print(X, "c3", b3, n3, file=sys.stderr)
    # across aksharas
    m = Model(t)
    bad = collections.Counter()
    n = 0
    for ws in batches(list(fam_cvc(A, signs=[s for s in A.signs if s in ("", "ा", "ि", "े", "ृ")])) + list(fam_hiatus(A, lead=["", "क", "र"]))):
        for w, x in zip(ws, conv_lines("Devanagari", X, ws)):
            e = m.word(w)
            n += 1
            if e is not None and e != x:
                a = parse(w)
                p, q = a
                bad["%s+%s" % (p[1][-1] if p[0] == "C" else p[1], q[1][0] if q[0] == "C" else q[1])] += 1
    t["outside"] = sorted(set(t["outside"]) | set(bad))
    return X, t, n, sum(bad.values())


def targets():
    from .checks import c03
    from .checks.c01 import MAIN
    L = []
    for X in MAIN[1:]:
        L.append((X, deva.Alphabet(deva.FULL.cons, deva.FULL.vowels, AYOG, nofinal=["ऱ"]), True))
    for X in sorted(c03.SPEC):
        s = c03.SPEC[X]
        L.append((X, deva.Alphabet(s["consonants"], s["vowels"], s["signs"], virama=s["final"], nofinal=set(s["nofinal"]) | {"ऱ"}), True))
    return L


def main():
    env.setup()
    from .api import conv_lines
    from aksharamukha import GeneralMap as GM
    out = {}
    todo = [a for a in targets() if a[0] in GM.IndicScripts]
    with mp.Pool(8) as p:
        for X, t, n, bad in p.imap_unordered(fit, todo, chunksize=1):
            out[X] = t
            print(X, "base", len(t["base"]), "rimes", len(t["rimes"]), "special", len(t["special"]), "sub", len(t["sub"]), "outside", len(t["outside"]), t["outside"][:5], "x", bad, n)
    json.dump(out, open(os.path.join(env.VERIF, "mc/spec/tables.json"), "w", encoding="utf8"), ensure_ascii=False, indent=None, separators=(",\n", ":"), sort_keys=True)


if __name__ == "__main__":
    main()

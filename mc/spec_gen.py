"""Drafts mc/spec/letters.json: which letters, signs and sequences each script or scheme keeps apart.

Not used by any check.  It was run once on the base tree to draft the *domain* of the round-trip
property (never an expected output: the oracle of that check is identity), and the result is committed.
"""
import collections, json, multiprocessing as mp, os, sys
from . import env, deva
from .deva import *


def domain(X):
    sys.stdout = open(os.devnull, "w")
    from .api import conv_lines

    def rt(ws):
        out = []
        for b in batches(ws):
            t = conv_lines("Devanagari", X, b)
            z = conv_lines(X, "Devanagari", t)
            out += [w for w, c in zip(b, z) if nfc(w) != nfc(c)]
        return out
    F = deva.FULL
    bad = set(rt(F.cons))
    cons = [c for c in F.cons if c not in bad]
    bad = set(rt(F.vowels))
    vow = [v for v in F.vowels if v not in bad]
    bad = set(rt([c + SIGN_OF[v] for c in cons for v in vow]))
    vow = [v for v in vow if sum((c + SIGN_OF[v]) in bad for c in cons) <= len(cons) / 2]
    cons = [c for c in cons if not any((c + SIGN_OF[v]) in bad for v in vow)]
    ayog = [y for y in AYOG if len(rt([c + y for c in cons])) <= 2]
    nofinal = [w[:-1] for w in rt([c + VIR for c in cons])]
    virama = len(nofinal) < len(cons) / 2
    if not virama:
        nofinal = []
    if X in ("Urdu", "Shahmukhi"):
        vow = [v for v in vow if v not in "एओ"]      # ye / vav before a consonant are read as consonants
    # drop an ayogavaha sign that does not survive next to other letters
    for y in list(ayog):
        A = Alphabet(cons, vow, [y])
        ws = [c + s + y + d for c in cons for s in A.signs for d in cons]
        if len(rt(ws)) > 0.01 * len(ws):
            ayog.remove(y)
    nof = set(nofinal) | {"ऱ"}
    cl = [x + VIR + y for x in cons if x not in nof for y in cons]
    badcl = rt(cl)
    clusters = len(badcl) <= 0.1 * len(cl)
    pairs = sorted(badcl) if clusters else []
    A = Alphabet(cons, vow, ayog, virama=virama, nofinal=sorted(nof))
    hi = rt(list(fam_hiatus(A, lead=["", "क", "र"])))
    hp = collections.Counter()
    from .checks.c02 import hiatus_pairs
    hpairs, words = set(), set()
    for w in hi:
        p = list(hiatus_pairs(w))
        if p:
            hpairs.update("".join(q) for q in p)
        else:
            words.add(w)
    words.update(rt(list(fam_akshara(A))))
    spec = {"consonants": cons, "vowels": vow, "signs": ayog, "final": virama, "nofinal": sorted(nof & set(cons)),
            "clusters": clusters, "cluster3": clusters, "not_distinguished": pairs, "hiatus_not_distinguished": sorted(hpairs)}
    from .checks import c03
    # residual words of the complete families
    c03.SPEC = {X: spec}
    res = []
    spec["words_not_distinguished"] = []
    for f, ws in c03.families(X, True).items():
        ws = list(ws)
        res += [w for w in rt([w for w in ws if not c03.excluded(X, w)])]
    c3 = [w for w in res if w.count(VIR) == 2]
    spec["cluster3"] = clusters and len(c3) <= 10
    if not spec["cluster3"]:
        res = [w for w in res if w.count(VIR) != 2]
    words.update(w for w in res)
    spec["words_not_distinguished"] = sorted(w for w in words)
    return X, spec, res


def main():
    env.setup()
    from .api import conv_lines
    from aksharamukha import GeneralMap as GM
    from .checks.c01 import MAIN
    from .checks.c02 import ROMAN
    L = sorted((set(GM.IndicScripts) | set(GM.LatinScripts)) - set(MAIN) - set(ROMAN) - {"Inter"})
    out = {}
    with mp.Pool(8) as p:
        for X, s, res in p.imap_unordered(domain, L, chunksize=1):
            out[X] = s
            print(X, len(s["consonants"]), len(s["vowels"]), s["signs"], s["final"], s["clusters"], "cl", len(s["not_distinguished"]),
                  "hi", len(s["hiatus_not_distinguished"]), "words", len(s["words_not_distinguished"]), s["words_not_distinguished"][:6], "res", len(res), res[:6])
    json.dump(out, open(os.path.join(env.VERIF, "mc/spec/letters.json"), "w", encoding="utf8"), ensure_ascii=False, indent=0, sort_keys=True)


if __name__ == "__main__":
    main()

"""Letters a script has beside those it is written with, and what they stand for (mined once, reviewed) -> mc/spec/alternatives.json"""
import json, os, sys, unicodedata as u
import multiprocessing as mp
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from mc import deva
from mc.api import conv1
from mc.checks import c26
from mc.scripts import INDIC, LONG
D = "Devanagari"
W = list(deva.fam_akshara(deva.FULL)) + list(LONG) + list(deva.fam_cluster2(deva.CORE, signs=[""], ayog=False)) + list(deva.fam_hiatus(deva.CORE)) + \
    ["०१२३४५६७८९"]
UNITS = [(c, "letter") for c in deva.FULL.cons] + [(v, "vowel") for v in deva.FULL.vowels] + [(c + "्", "final") for c in deva.FULL.cons] + \
    [("ं", "mark"), ("ः", "mark"), ("ँ", "mark")] + [(d, "digit") for d in "०१२३४५६७८९"] + [(a + "्" + b, "letter") for a in deva.CORE.cons for b in deva.CORE.cons]


def one(s):
    used = set(conv1(D, s, "\n".join(W)) + conv1(D, s, "\n".join(W), True))
    names = {}
    for ch in used:
        if u.category(ch)[0] in "LMN" and ord(ch) > 0x2ff:
            n = u.name(ch, "?").split(" LETTER")[0].split(" VOWEL")[0].split(" SIGN")[0].split(" CONSONANT")[0].split(" DIGIT")[0]
            names[n] = names.get(n, 0) + 1
    if not names or s in ("Urdu", "Shahmukhi", "Hebrew", "RomanSemitic"):
        return s, {}, []
    top = max(names, key=names.get)
    if top == "DEVANAGARI":
        return s, {}, []
    ext = [chr(i) for i in range(0x300, 0x12000) if u.category(chr(i))[0] in "LMN" and u.name(chr(i), "").startswith(top + " ") and chr(i) not in used]
    chk = c26.C26("quick", 1)
    # strings the script writes
    cand = [(conv1(D, s, x), k) for x, k in UNITS]
    ka = conv1(D, s, "क")
    for v in deva.FULL.signs if hasattr(deva.FULL, "signs") else c26.SIGNS:
        w = conv1(D, s, "क" + v)
        if w.startswith(ka):
            cand.append((w[len(ka):], "sign"))
    for m in "यरलवमनब":
        w = conv1(D, s, "क्" + m)
        if w.startswith(ka):
            cand.append((w[len(ka):], "medial"))
    cand = [(x, k) for x, k in dict.fromkeys(cand) if x]
    out, left = {}, []
    pre = {"letter": "", "vowel": "", "final": ka, "mark": ka, "digit": "", "sign": ka, "medial": ka}
    R = {k: conv1(s, D, "\n".join(pre[k] + x for x, k2 in cand if k2 == k)).split("\n") for k in pre}
    B = {k: [x for x, k2 in cand if k2 == k] for k in pre}
    for c in ext:
        o = conv1(s, D, c)
        if c in o:
            continue
        best = None
        if o == "" and u.category(c)[0] == "M":
            cx = chk.ctx(s, "silent")
            a, b = (conv1(s, D, "\n".join(l + x + q for l, q, _ in cx)).split("\n") for x in (c, ""))
            if a == b:
                out[c] = ["", "silent"]
            else:
                left.append((c, u.name(c), "silent", [(i, j, k) for i, j, k in zip(a, b, cx) if i != j][:2]))
            continue
        for k in pre:
            r = conv1(s, D, pre[k] + c)
            for x, rr in zip(B[k], R[k]):
                if rr == r and x != c:
                    cx = chk.ctx(s, k)
                    a = conv1(s, D, "\n".join(l + c + q for l, q, _ in cx)).split("\n")
                    b = conv1(s, D, "\n".join(l + x + q for l, q, _ in cx)).split("\n")
                    d = [i for i in range(len(a)) if i >= len(b) or a[i] != b[i]]
                    if best is None or len(d) / len(a) < best[0]:
                        best = (len(d) / len(a), x, k, [(cx[i][0] + c + cx[i][1], a[i], b[i]) for i in d[:3]])
        if best and best[0] == 0:
            out[c] = [best[1], best[2]]
            continue
        cx = chk.ctx(s, "own")
        a = conv1(s, D, "\n".join(l + c + q for l, q, _ in cx)).split("\n")
        z = conv1(s, D, "\n".join(l for l, q, _ in cx)).split("\n"), conv1(s, D, "\n".join(q for l, q, _ in cx)).split("\n")
        bad = [(x, y + o + w) for x, y, w in zip(a, *z) if x != y + o + w]
        if not bad and not o.endswith(tuple('𑱶𑱷𑱸𑲆သ!ʼ')):
            out[c] = [o, "own"]
        else:
            best = (len(bad), len(cx), bad[:3]) if best is None or best[0] == 1 else best
            left.append((c, u.name(c), o, best))
    return s, out, left


if __name__ == "__main__":
    ALT = {}
    with mp.Pool(int(os.environ.get("MC_WORKERS", 6))) as p:
        for s, o, left in p.imap(one, INDIC):
            if o:
                ALT[s] = o
            for l in left:
                print(s, *l)
    json.dump(ALT, open(c26._p, "w", encoding="utf8"), ensure_ascii=False, indent=0, sort_keys=True)
    print(sum(map(len, ALT.values())), len(ALT))

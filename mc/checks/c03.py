"""C03  round trip between Devanagari and every other supported script or scheme, over the letters and
sequences that script keeps apart (mc/spec/letters.json)"""
import base64, functools, json, os, zlib
from .. import core, deva, env
from ..api import conv_lines, conv1
from ..deva import nfc, VIR
from .c02 import hiatus_pairs

SPEC = json.load(open(os.path.join(env.VERIF, "mc", "spec", "letters.json"), encoding="utf8")) \
    if os.path.exists(os.path.join(env.VERIF, "mc", "spec", "letters.json")) else {}


KEPT = os.path.join(env.VERIF, "mc", "spec", "kept.json")
KEPT = json.load(open(KEPT)) if os.path.exists(KEPT) else {}


@functools.lru_cache(None)
def kept_families():
    F = deva.FULL
    few = ["", "ा", "ि", "े"]
    return {"akshara": list(deva.fam_akshara(F)), "hiatus": list(deva.fam_hiatus(F, lead=["", "क"])),
            "cluster2": list(deva.fam_cluster2(F, signs=few)), "cvc": list(deva.fam_cvc(F, signs=["", "ा", "ि"]))}


def kept(X, nat):
    """the words of complete families that X keeps apart, whether or not they are a product of letters and signs"""
    for f, ws in kept_families().items():
        bits = zlib.decompress(base64.b64decode(KEPT[X][f + (" native" if nat else "")]))
        for i, w in enumerate(ws):
            if bits[i >> 3] >> (i & 7) & 1:
                yield w


def alphabet(X):
    s = SPEC[X]
    return deva.Alphabet(s["consonants"], s["vowels"], s["signs"], virama=s["final"], nofinal=s["nofinal"])


def families(X, thorough):
    s = SPEC[X]
    A = alphabet(X)
    few = [g for g in (A.signs if thorough else ["", "ा", "ि", "ु", "े"]) if g in A.signs]
    fam = {"akshara": deva.fam_akshara(A),
           "hiatus": deva.fam_hiatus(A, lead=["", "क", "र"]),
           "cvc": deva.fam_cvc(A, signs=few)}
    if s["clusters"]:
        B = deva.Alphabet(s["consonants"], s["vowels"], s["signs"], nofinal=set(s["nofinal"]) | {"ऱ"})
        fam["cluster2"] = (w for w in deva.fam_cluster2(B, signs=few) if s["final"] or not w.endswith(VIR))
        core_ = [c for c in A.cons if c in deva.CORE.cons and c not in B.nofinal]
        if s["cluster3"]:
            fam["cluster3"] = deva.fam_cluster3(B, cons=core_, signs=("",))
    return fam


_ex = {}


def excluded(X, w):
    e = _ex.get(X)
    s = SPEC[X]
    if e is None or e[3] is not s:
        e = _ex[X] = (set(s.get("words_not_distinguished", [])), [p for p in s["not_distinguished"]],
                      set(s["hiatus_not_distinguished"]), s)
    if w in e[0] or w in ("ओं", "ओँ"):
        return True
    if any(p in w for p in e[1]):
        return True
    return bool(e[2]) and any(a + b in e[2] for a, b in hiatus_pairs(w))


class C03(core.Check):
    id = "C03"
    rule = "one evaluation = one word written in one script and read back; distinct = distinct spellings"

    def tasks(self):
        return [[X] for X in sorted(SPEC, key=lambda X: -len(SPEC[X]["consonants"]))] + [[X, nat] for nat in (False, True) for X in KEPT]

    def run(self, task):
        X, nat = task[0], bool(task[1:]) and task[1]
        c = {"evaluations": 0, "distinct_nontrivial": 0, "scripts": int(len(task) == 1)}
        sus, smp = [], []
        for f, it in (families(X, self.thorough).items() if len(task) == 1 else [("kept", kept(X, nat))]):
            for ws in deva.batches(it):
                if len(task) == 1:
                    ws = [w for w in ws if not excluded(X, w)]
                t = conv_lines("Devanagari", X, ws, nat)
                back = conv_lines(X, "Devanagari", t, nat)
                c["evaluations"] += len(ws)
                c["distinct_nontrivial"] += len(set(t))
                for w, y, z in zip(ws, t, back):
                    if w != z and nfc(w) != nfc(z):
                        sus.append({"script": X, "word": w, "nativize": nat})
            if ws:
                smp.append({"script": X, "text": ws[-1], "written": t[-1]})
        return c, sus, smp

    def judge(self, case):
        X, w = case["script"], case["word"]
        nat = case.get("nativize", False)
        y = conv1("Devanagari", X, w, nat)
        z = conv1(X, "Devanagari", y, nat)
        if nfc(w) != nfc(z):
            return "Devanagari %r -> %s %r -> Devanagari %r%s" % (w, X, y, z, " (nativized)" if nat else "")


CHECK = C03

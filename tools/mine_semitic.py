"""writes mc/spec/semitic.json: letters, vowel marks and final forms of the Semitic alphabets, taken from single
syllables only (the check then compares all longer words with the model)"""
import collections, json, os, sys
sys.path.insert(0, "/verif")
from mc.api import conv1, conv_lines
from mc import semitic as S
from mc.scripts import SEMITIC
D = "Devanagari"
FINAL = {"Grek": {"σ": "ς"}, "Hebr": dict(zip("כמנפצ", "ךםןףץ")), "Palm": {"𐡮": "𐡭"},
         "Nbat": dict(zip("𐢁𐢃𐢇𐢍𐢏𐢑𐢓𐢕𐢝", "𐢀𐢂𐢆𐢌𐢎𐢐𐢒𐢔𐢜")), "Sogo": dict(zip("𐼀𐼂𐼅𐼎𐼕𐼚", "𐼁𐼃𐼆𐼏𐼖𐼛"))}
out = {}
for X in SEMITIC:
    fin = FINAL.get(X, {})

    def un(s):
        return "".join({v: k for k, v in fin.items()}.get(c, c) for c in s)
    signs = list(S.SIGN)
    t = {"cons": {}, "vow": {}, "init": {}, "final": fin}
    m = {s: un(conv1(D, X, "म" + s)) for s in signs}
    b = os.path.commonprefix(list(m.values()))
    for s in signs:
        r = m[s][len(b):]
        t["vow"][S.SIGN[s]] = [r, ""]
    if X == "Hebr":
        for k, (r, _) in t["vow"].items():
            n = 1 if r[:1] > "\u05af" and r[:1] < "\u05d0" else 0
            t["vow"][k] = [r[:n], r[n:]]
    for c, x in S.CONS.items():
        f = [un(conv1(D, X, c + s)) for s in signs]
        base = os.path.commonprefix(f)
        post = f[0][len(base) + len(t["vow"]["a"][0]):]
        t["cons"].setdefault(x, [base, post] if post else base)
    t["cons"]["ₘ"] = un(conv1(D, X, "मं"))[len(m[""]):]
    for v, x in S.VOWEL.items():
        t["init"][x] = un(conv1(D, X, v))
    t["vir"] = un(conv1(D, X, "म्"))[len(b):]
    g, one, two = un(conv1(D, X, "ल्ला")), un(conv1(D, X, "ला")), un(conv1(D, X, "ल्रा"))
    t["twice"] = "once" if g == one else "\u0651" if "\u0651" in g and X[:4] == "Arab" else "twice"
    out[X] = t
json.dump(out, open(S.PATH, "w", encoding="utf8"), ensure_ascii=False, indent=1)

# reading: single letters and syllables only
import unicodedata as U
VOC = ["Arab", "Arab-Fa", "Arab-Ur", "Arab-Pa", "Hebr", "Syrn", "Syrj", "Thaa", "Latn", "Type"]
for X in SEMITIC:
    for k, nat in (("back", False), ("back_native", True)):
        def rd(w):
            return U.normalize("NFC", conv1(X, D, conv1(D, X, w), nat))
        b = rd("म")
        out[X][k] = {"cons": {x: rd(c) for c, x in S.CONS.items()}, "vow": {x: rd("म" + s)[len(b):] for s, x in S.SIGN.items()},
                     "init": {x: rd(v) for v, x in S.VOWEL.items()}, "vir": rd("म्")[len(b):], "m": "", "twice": out[X]["twice"]}
        out[X][k]["cons"]["ₘ"] = rd("मं")[len(b):]

# letters between the scripts: letter -> sound, sound -> letter
db = json.load(open(os.path.join(os.environ.get("MC_REPO", "/repo"), "aksharamukha/json/gimeltra_data.json"), encoding="utf8"))["ssub"]
vowelish = set("aāeēiīoōuūȳăĕŏ")
for X in SEMITIC:
    if X in ("Latn", "Type"):
        continue
    L = [k for k in db[X]["Latn"] if len(k) == 1 and U.category(k)[0] == "L"]
    out[X]["letters"] = {k: conv1(X, "Latn", k) for k in L}
    out[X]["letters"] = {k: v for k, v in out[X]["letters"].items() if v and not set(U.normalize("NFD", v)) & set("aeiou") and not set(v) & vowelish and U.category(v[-1])[0] != "N"}
snd = sorted({s for X in out for s in out[X].get("letters", {}).values()})
for Y in SEMITIC:
    if Y == "Latn":
        continue
    un = {v: k for k, v in out[Y]["final"].items()}
    out[Y]["put"] = {s: "".join(un.get(c, c) for c in conv1("Latn", Y, s)) for s in snd}
    out[Y]["other"] = {X: d for X in SEMITIC if X != Y and "letters" in out[X] for d in [
        {k: r for k, s in out[X]["letters"].items() for r in ["".join(un.get(c, c) for c in conv1(X, Y, k))] if r != out[Y]["put"][s]}] if d}
json.dump(out, open(S.PATH, "w", encoding="utf8"), ensure_ascii=False, indent=1)

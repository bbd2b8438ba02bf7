"""C16  script codes, language codes and language names choose the script they stand for; unknown codes are refused"""
import itertools, json, os, string, warnings
from .. import core, env, spec_codes as S
from ..api import T
from ..scripts import INDIC, LATIN, SEMITIC, vocabulary

OPTS = json.load(open(os.path.join(env.VERIF, "mc", "spec", "options.json"), encoding="utf8"))
CODES = {"script_code": {**S.SCRIPT, **S.PAIR_S, **S.ROMAN_S}, "lang_code": {**S.LANG, **S.PAIR, **S.ROMAN_L}, "lang_name": S.NAME}
HUB = {"script_code": {"Deva": "Devanagari", "Taml": "Tamil", "Latn-HK": "HK"}, "lang_code": {"hi": "Devanagari", "ta": "Tamil", "la-HK": "HK"},
       "lang_name": {"Hindi": "Devanagari", "Tamil": "Tamil", "English": "ISO"}}


def call(*a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            return T.process(*a, **k)
        except Exception as e:
            return "<raised %s>" % type(e).__name__


def cases(c):
    return dict.fromkeys([c, c.lower(), c.upper(), c.swapcase()])


def text(n):
    try:
        v = vocabulary(n, "short")[:9] + ["12"]
    except Exception:
        v = ["abc"]
    return " ".join(v)


def skip(a, b):
    return a == "Tamil" and b == "IPA" or a == "RomanLoC" or b == "RomanLoC"


class C16(core.Check):
    id = "C16"
    rule = "one evaluation = one call by code compared with the call by name, or one unknown code refused; distinct = (code, other code, kind)"

    def tasks(self):
        t = []
        for p, C in CODES.items():
            for c, n in C.items():
                t.append(["code", p, c, n])
            t.append(["unknown", p])
        for p in ("script_code", "lang_code"):
            t += [["unknown3", p, x] for x in string.ascii_lowercase]
            if self.thorough:
                t += [["pairs", p, c, n] for c, n in {**(S.SCRIPT if p[0] == "s" else S.LANG)}.items()]
                t += [["unknown4", p, x + y] for x in string.ascii_lowercase for y in string.ascii_lowercase if p[0] == "s" or (x + y) < "c"]
        for w in ("pre", "post"):
            t += [["options", w, o] for o in OPTS[w]]
        return t

    def cases_of(self, task):
        k = task[0]
        if k in ("code", "pairs"):
            _, p, c, n = task
            others = HUB[p] if k == "code" else (S.SCRIPT if p[0] == "s" else S.LANG)
            exact = p == "script_code" and n in SEMITIC and c not in ("Armi", "Arab")    # names of their own, listed in no table
            for v in ([c] if exact or k == "pairs" else cases(c)):
                for h, m in others.items():
                    for nat in (False, True):
                        if not skip(n, m):
                            yield {"param": p, "src": v, "tgt": h, "names": [n, m], "nativize": nat}
                        if not skip(m, n) and k == "code":
                            yield {"param": p, "src": h, "tgt": v, "names": [m, n], "nativize": nat}
        elif k == "options":
            _, w, o = task
            for a, b, x in OPTS[w][o]:
                for p, C in CODES.items():
                    ca = [c for c, n in C.items() if n == a][:2]
                    cb = [c for c, n in C.items() if n == b][:2]
                    for c, d in itertools.product(ca, cb):
                        yield {"param": p, "src": c, "tgt": d, "names": [a, b], "text": x, w: [o], "nativize": False}
        else:
            p = task[1]
            known = {c.lower() for c in CODES[p]} | (S.UNDECIDED_S if p[0] == "s" else S.UNDECIDED_L)
            if p == "script_code":
                known |= {"type", "en", "eng"}
            L = string.ascii_lowercase
            if k == "unknown3":
                it = [task[2]] + [task[2] + a for a in L] + [task[2] + a + b for a in L for b in L]
            elif k == "unknown4":
                it = [task[2] + a + b for a in L for b in L]
            else:
                it = set()
                for c in CODES[p]:
                    it |= {c[:i] + c[i + 1:] for i in range(len(c))} | {c[:i] + c[i] + c[i:] for i in range(len(c))} | {c + "x", " " + c}
                    it |= {c + "-", c + "-Qaaa", "qq-" + c, "-" + c} if "-" not in c else {c.split("-")[0] + "-Qaaa"}
                it = sorted(it)
                if p == "lang_name":
                    it = ["Nosuchlanguage", "Qqqq", "12", "कखग"]
            roman = tuple(x + "-" for x in ("latn", "la", "en", "eng"))
            for u in it:
                if u.lower() in known or u.lower().startswith(roman):
                    continue
                yield {"param": p, "unknown": u}

    def run(self, task):
        c = {"evaluations": 0, "distinct_nontrivial": 0, "unknown": 0}
        sus, smp = [], []
        for case in self.cases_of(task):
            c["evaluations"] += 1
            c["distinct_nontrivial"] += 1
            if "unknown" in case:
                c["unknown"] += 1
            if self.judge(case):
                sus.append(case)
            elif len(smp) < 2:
                smp.append(case)
        return c, sus, smp

    def key(self, x):
        for c in (x.get("src", ""), x.get("tgt", "")):
            l = c.lower().split("-")
            if x["param"] == "lang_code" and l[0] in ("sa", "san", "pi", "pli") and l[1:] == ["mymr"]:
                return json.dumps({"sanskrit_or_pali_in": "Mymr"})
        return super().key(x)

    def judge(self, x):
        p = x["param"]
        if "unknown" in x:
            u, h = x["unknown"], list(HUB[p])[0]
            for a, b in ((u, h), (h, u)):
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    try:
                        r = T.process(a, b, "क ka", param=p)
                    except Exception:
                        continue
                return "unknown %s: process(%r, %r, ..., param=%r) gives %r instead of an error" % (p, a, b, p, r)
            return None
        n, m = x["names"]
        t = x.get("text") or text(n)
        k = {"nativize": x["nativize"], "pre_options": x.get("pre", []), "post_options": x.get("post", [])}
        r = call(x["src"], x["tgt"], t, param=p, **k)
        e = call(n, m, t, **k)
        if r != e:
            return "process(%r, %r, %r, param=%r, %r) gives %r; by name (%s -> %s) it gives %r" % (x["src"], x["tgt"], t, p, k, r, n, m, e)
        return None


CHECK = C16

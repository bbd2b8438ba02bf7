"""C13  every conversion returns a text: no pair of names, option or (even malformed) text raises an error, no
internal placeholder is left in the result, and nothing is printed"""
import contextlib, io, itertools, json, os, unicodedata
from .. import core, env
from ..api import conv1, Raised
from ..scripts import ALL, INDIC, LATIN, SEMITIC, HUBS, vocabulary, skip_pair

OPTS = json.load(open(os.path.join(env.VERIF, "mc", "spec", "options.json"), encoding="utf8"))
TX = "त्रि संस्कृतम् कै ॐ १२ । अइ ङ्ग ॥ क॑ ळ्ह ज़ ऽ"
EXTRA = ["ISO233", "ISO259", "HebrewSBL", "PersianDMG", "Hiragana", "Katakana"]
# placeholders the conversion stages use between themselves (besides private-use and unassigned characters)
MARK = set("\u1e7f\u02bd\u02de\u034f\u02c2\u25cf\u2502\u2503")
FONT = {"GranthaGrantamil"}           # written with a font that needs private-use characters
MISC = list(" \n.,-_'\"`^~:;!?()[]{}|/\\@#$%&*+=<>09") + ["\u200c", "\u200d", "\u0951", "\u0952", "\u0301", "\u00a0", "A", "z"]
EMPTY = ["", ".", "\n", "\u200d"]
DEEP = ["Arab", "Hebrew", "Urdu", "Tibetan", "Thai", "Burmese", "Hebr", "Ugar", "RomanLoC", "Itrans", "PhagsPa"]

TG = HUBS + DEEP


def leftovers(o, text, a, b):
    out = []
    for c in set(o):
        if c in text:
            continue
        k = unicodedata.category(c)
        if c in MARK or k in ("Cn", "Cs", "Cc") or k == "Co" and not (FONT & {a, b}):
            out.append(c)
    return sorted(out)


def letters(s):
    """every character that the script's own spelling of the long vocabulary uses"""
    return sorted(set("".join(vocabulary(s, "long"))))


class C13(core.Check):
    id = "C13"
    rule = "one evaluation = one text for one pair of names, nativization setting and option"

    def tasks(self):
        t = [("names", a) for a in ALL + EXTRA]
        t += [("opt", k, o) for k in ("pre", "post") for o in OPTS[k]]
        t += [("text", a) for a in ALL]
        t += [("misc", a) for a in (ALL if self.thorough else HUBS + ["Arab", "Hebr", "Thai", "Tibetan"])]
        t += [("long", a) for a in HUBS]
        return t

    def check(self, cases, n, c, sus):
        """cases: dict; many texts are tried in one call first"""
        for x in cases:
            c["evaluations"] += n
            m = self.judge(x)
            if m is None:
                c["distinct_nontrivial"] += n
                continue
            if x["source"] == "PersianDMG" and "PersianDMGSource" in m:
                x["unreadable"] = True
            if "texts" in x:
                for w in x["texts"]:
                    y = dict({k: v for k, v in x.items() if k != "texts"}, text=w)
                    if self.judge(y):
                        sus.append(y)
                        if len(sus) > 30:
                            break
                else:
                    sus.append(x)
            else:
                sus.append(x)

    def run(self, task):
        c = {"evaluations": 0, "distinct_nontrivial": 0}
        sus = []
        k = task[0]
        if k == "names":
            a = task[1]
            src = a if a not in EXTRA else "ISO"
            t = conv1("Devanagari", src, TX)
            self.check([{"source": a, "target": b, "nativize": nat, "text": t} for b in ALL + EXTRA + ["Ignore", ""]
                        for nat in (False, True) if not skip_pair(a, b)], 1, c, sus)
            self.check([{"source": a, "target": b, "nativize": nat, "text": w} for b in ALL + EXTRA for nat in (False, True) for w in (EMPTY if self.thorough else EMPTY[:2 - nat])
                        if not skip_pair(a, b)], 1, c, sus)
        elif k == "opt":
            for nat in (False, True) if self.thorough else (True,):
                ps = [("Devanagari", b) for b in ALL] + [(b, "Devanagari") for b in ALL]
                if self.thorough:
                    ps += [("IAST", b) for b in ALL] + [(b, "IAST") for b in ALL]
                else:
                    # output options by target, input options by source, and the pairs where the option is known to act
                    ps = [p for p in ps if (p[1] if task[1] == "pre" else p[0]) == "Devanagari"] + [tuple(e[:2]) for e in OPTS[task[1]][task[2]]]
                for s, d in ps:
                        if not skip_pair(s, d) and s != d:
                            self.check([{"source": s, "target": d, "nativize": nat, "text": conv1("Devanagari", s, TX), task[1]: [task[2]]}], 1, c, sus)
        elif k == "text":
            a = task[1]
            cs = letters(a)
            ws = ["".join(x) for n in (1, 2) for x in itertools.product(cs, repeat=n)]
            tg = ALL if self.thorough or a in HUBS[:2] else HUBS + DEEP
            self.check([{"source": a, "target": b, "nativize": nat, "texts": ws} for b in tg for nat in (False, True)
                        if a != b and not skip_pair(a, b)], len(ws), c, sus)
            if self.thorough and a in HUBS + DEEP:
                for x in cs:
                    ws = [x + "".join(y) for y in itertools.product(cs, repeat=2)]
                    self.check([{"source": a, "target": b, "nativize": nat, "texts": ws} for b in HUBS + DEEP for nat in (False, True)
                                if a != b and not skip_pair(a, b)], len(ws), c, sus)
        elif k == "misc":
            a = task[1]
            V = ["", conv1("Devanagari", a, "कि"), conv1("Devanagari", a, "म्")]
            ws = [x + y + z for x in V for y in MISC for z in MISC + V]
            for b in TG if self.thorough else ("Devanagari", "IAST", "Tamil", "Hebr", "Urdu"):
                if a != b and not skip_pair(a, b):
                    for nat in (False, True):
                        # texts with line breaks and the shortest ones alone, all others line by line in one text
                        one = [w for w in ws if "\n" in w or len(w) < 2]
                        self.check([{"source": a, "target": b, "nativize": nat, "text": w} for w in one], 1, c, sus)
                        ls = [w for w in ws if w and "\n" not in w]
                        self.check([{"source": a, "target": b, "nativize": nat, "texts": ls}], len(ls), c, sus)
        else:
            a = task[1]
            w = conv1("Devanagari", a, TX)
            for n in (50, 800):
                self.check([{"source": a, "target": b, "nativize": nat, "unit": u, "repeat": n} for b in HUBS + DEEP for nat in (False, True)
                            if a != b and not skip_pair(a, b) for u in (w.replace(" ", ""), w + " ")], 1, c, sus)
        return c, sus, [{"task": list(task)}]

    def key(self, x):
        if x.get("unreadable"):
            return json.dumps({"source": x["source"], "unreadable": True})
        return json.dumps(x, ensure_ascii=False, sort_keys=True)

    def judge(self, x):
        a, b = x["source"], x["target"]
        t = "\n".join(x["texts"]) if "texts" in x else x["unit"] * x["repeat"] if "unit" in x else x["text"]
        said = io.StringIO()
        with contextlib.redirect_stdout(said):
            o = conv1(a, b, t, x["nativize"], x.get("pre", ()), x.get("post", ()))
        what = "%s -> %s (nativize=%s%s%s)" % (a, b, x["nativize"], " pre=%s" % x["pre"] if "pre" in x else "", " post=%s" % x["post"] if "post" in x else "")
        if isinstance(o, Raised):
            return "%s: %r gives %s" % (what, t[:80], o)
        if said.getvalue():
            return "%s: %r prints %r on standard output" % (what, t[:80], said.getvalue()[:80])
        r = leftovers(o, t, a, b)
        if r:
            return "%s: %r gives %r with the placeholder(s) %s" % (what, t[:80], o[:120], ["U+%04X" % ord(z) for z in r])


CHECK = C13

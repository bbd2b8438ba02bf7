"""C12  concurrent calls do not disturb each other: two threads, every switch point of the library's own code"""
import os, pickle, sys, threading
from .. import core, env, ops
from ..api import T, conv1
from ..scripts import ALL
from .c11 import in_child

PKG = os.path.join(os.path.realpath(env.REPO), "aksharamukha") + os.sep


def plain(op):
    """ops.call without touching the process-wide warning filters"""
    kw = dict(op[3]) if len(op) > 3 else {}
    try:
        f = kw.pop("call", "process")
        r = T.auto_detect(op[2]) if f == "auto_detect" else T.process(op[0], op[1], op[2], **{k: list(v) if isinstance(v, list) else v for k, v in kw.items()})
        return r if isinstance(r, str) else repr(r)
    except Exception as e:
        return "<raised %s: %s>" % (type(e).__name__, str(e)[:80])


def locations(op):
    """-> [(file, line, number of times it is reached)] of one execution, in order of first visit"""
    seen = {}

    def local(fr, ev, arg):
        if ev == "line":
            k = (fr.f_code.co_filename, fr.f_lineno)
            seen[k] = seen.get(k, 0) + 1
        return local

    own = {}

    def cached(fr, ev, arg):
        f = fr.f_code.co_filename
        if f not in own:
            own[f] = os.path.realpath(f).startswith(PKG)
        return local if own[f] else None
    sys.settrace(cached)
    try:
        plain(op)
    finally:
        sys.settrace(None)
    return [(f, l, n) for (f, l), n in seen.items()]


def switch_at(a, loc, occ, bs):
    """run a; when it reaches loc for the occ-th time, another thread runs every call of bs to its end; then a goes
    on.  -> (result of a, results of bs, was the point reached).  If a holds a lock that bs need (an import in
    progress), a goes on and bs finish when they can."""
    got = {}
    n = [0]
    done = []

    def other():
        for i, b in enumerate(bs):
            got[i] = plain(b)

    def go():
        t = threading.Thread(target=other, daemon=True)
        t.start()
        t.join(1.5)
        done.append(t)

    def local(fr, ev, arg):
        if ev == "line" and not done and fr.f_lineno == loc[1] and fr.f_code.co_filename == loc[0]:
            n[0] += 1
            if n[0] == occ:
                go()
                sys.settrace(None)
        return None if done else local

    own = {}

    def tr(fr, ev, arg):
        if done:
            return None
        f = fr.f_code.co_filename
        if f not in own:
            own[f] = f == loc[0]
        return local if own[f] else None

    res = []

    def main():
        sys.settrace(tr)
        try:
            res.append(plain(a))
        finally:
            sys.settrace(None)
    th = threading.Thread(target=main, daemon=True)
    th.start()
    th.join(60)
    if done:
        done[0].join(20)
    return (res or ["<no result>"])[0], [got.get(i, "<no result>") for i in range(len(bs))], bool(done)


class C12(core.Check):
    id = "C12"
    rule = ("one evaluation = one schedule: call A in one thread, preempted at one line of the library (its first or last visit), "
            "calls B to their ends in another thread, then the rest of A; distinct = distinct (call A, switch point)")

    def prepare(self):
        T
        S = in_child(lambda: {s: conv1("Devanagari", s, ops.TXT) for s in ALL})
        D = "Devanagari"
        W = ops.TXT
        st = S.get
        self.A = [[D, "Tamil", W], ["Tamil", D, st("Tamil")], [D, "IAST", W], ["HK", D, st("HK"), {"nativize": False}], [D, "Arab", W], ["Arab", D, st("Arab")],
                  ["Hebrew", "Tamil", st("Hebrew")], ["autodetect", "IAST", "สังสกฤต"], [D, "RomanLoC", W, {"post_options": ["removeDiacritics"]}],
                  ["Itrans", "Thai", "rAma ##x## kRRi", {}], ["Deva", "Taml", W, {"param": "script_code"}], [D, "Tibetan", W],
                  ["Burmese", "RomanLoC", st("Burmese")], [D, "Kharoshthi", W], ["Urdu", D, "یہ پاکستان ہے", {"pre_options": ["UrduShortNotShown"]}],
                  [D, "Telugu", W, {"post_options": ["indicDandas"]}]]
        more = ops.alphabet(S, "core")
        if self.thorough:
            self.A += [o for o in more if o not in self.A and o[0] not in ("Hiragana", "Katakana") and "KhmerWordSplit" not in str(o)]
        self.B = [[D, "Bengali", "क्त्वा अइ १"], ["Thai", D, "สังสกฤต"], ["Tamil", "IAST", "தமிழ்"], [D, "Hebr", "कमल"], ["Arab", "Tamil", "كِتاب"],
                  ["IAST", "Malayalam", "kr̥ṣṇa ai"], [D, "RomanLoC", "कंस"], ["autodetect", D, "বাংলা"],
                  [D, "Thai", W, {"post_options": ["ThaiSajjhayaOrthography"]}], [D, "Oriya", "व अ", {"post_options": ["OriyaVa", "AnusvaraAsN"], "pre_options": ["PhagsPaArrange"]}],
                  ["Deva", "Knda", "क १", {"param": "script_code"}]]
        self.bs = {"warm": self.B[:8] + self.B[10:], "cold": self.B[:10]}
        self.ref = in_child(lambda: {repr(o): in_child(lambda: plain(o)) for o in self.A + self.B})

    def tasks(self):
        t = []
        for i, a in enumerate(self.A):
            locs = in_child(lambda: (plain(a), locations(a))[1])
            pts = [(f, l, 1) for f, l, n in locs] + [(f, l, n) for f, l, n in locs if n > 1]
            pts += [(f, l, n // 2) for f, l, n in locs if n > 3 and (self.thorough or f.endswith("transliterate.py"))]
            t += [("warm", i, pts[j:j + 60]) for j in range(0, len(pts), 60)]
        cold = range(len(self.A)) if self.thorough else (0, 4)
        for i in cold:
            a = self.A[i]
            locs = in_child(lambda: locations(a))
            again = {(f, l): n for f, l, n in in_child(lambda: (plain(a), locations(a))[1])}
            # lines that only the first call runs, or runs more often: something is being set up there
            first = [(f, l, k) for f, l, n in locs if again.get((f, l), 0) < n for k in sorted({1, 2, n // 2, n} - {0}) if k <= n]
            pts = [(f, l, 1) for f, l, n in locs]
            pts = first + [x for x in (pts if self.thorough else pts[::12]) if x not in first]
            t += [("cold", i, pts[j:j + 16]) for j in range(0, len(pts), 16)]
        return t

    def run(self, task):
        mode, i, pts = task
        c = {"evaluations": 0, "distinct_nontrivial": 0, "points_not_reached": 0}
        sus = []
        a = self.A[i]

        def warm():
            for x in [a] + self.B:
                plain(x)
            return [switch_at(a, (f, l), occ, self.bs[mode]) for f, l, occ in pts]
        # the worker itself stays without any call made, so that every task starts from the state after import
        rs = in_child(warm) or [("<died>", [], True)] * len(pts) if mode == "warm" else None
        for n, (f, l, occ) in enumerate(pts):
            case = {"mode": mode, "call": a, "file": os.path.relpath(f, PKG), "line": l, "visit": occ}
            r = rs[n] if rs else in_child(switch_at, a, (f, l), occ, self.bs[mode]) or ("<died>", [], True)
            c["evaluations"] += 1
            c["distinct_nontrivial"] += bool(r[2])
            c["points_not_reached"] += not r[2]
            if self.wrong(a, r, mode):
                sus.append(case)
                if len(sus) > 5:
                    break
        return c, sus, [{"call": a, "switch": os.path.basename(pts[0][0]) + ":%d" % pts[0][1]}] if pts else []

    def wrong(self, a, r, mode):
        if r[0] != self.ref[repr(a)]:
            return "%r preempted gives %r, alone %r" % (a, r[0][:120], self.ref[repr(a)][:120])
        for b, x in zip(self.bs[mode], r[1]):
            if x != self.ref[repr(b)]:
                return "%r run meanwhile gives %r, alone %r" % (b, x[:120], self.ref[repr(b)][:120])

    def judge(self, x):
        def f():
            if x["mode"] == "warm":
                for o in [x["call"]] + self.B:
                    plain(o)
            return switch_at(x["call"], (PKG + x["file"], x["line"]), x["visit"], self.bs[x["mode"]])
        r = in_child(f)
        if r is None:
            return "the process died with the switch at %s:%d" % (x["file"], x["line"])
        m = self.wrong(x["call"], r, x["mode"])
        return "switch at %s:%d (visit %d, %s start): %s" % (x["file"], x["line"], x["visit"], x["mode"], m) if m else None


CHECK = C12

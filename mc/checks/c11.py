"""C11  the result of a call depends on its arguments only: never on the calls made before it, nor on the hash seed"""
import json, os, pickle, shutil, subprocess, sys, tempfile
from .. import core, env, ops, statehash
from ..scripts import ALL
from ..api import conv1


def in_child(f, *a):
    """run f in a process forked from here; -> its result"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            b = pickle.dumps(f(*a))
            with os.fdopen(w, "wb") as o:
                o.write(b)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as i:
        b = i.read()
    os.waitpid(pid, 0)
    return pickle.loads(b) if b else None


def history(seq):
    """results of a sequence of calls in this process"""
    return [ops.call(o) for o in seq]


def branches(prefix, calls):
    """run the prefix once, then every call in its own process forked from the state reached"""
    history(prefix)
    return [(in_child(history, [b]) or ["<died>"])[0] for b in calls]


def effect(op):
    """-> (result, modules whose state the call changed)"""
    a = statehash.snapshot()
    r = ops.call(op)
    return r, statehash.changed(a, statehash.snapshot())


CHILD = """
import sys, json
sys.path.insert(0, %r)
from mc import env; env.setup()
from mc import ops
A = json.load(sys.stdin)
json.dump([ops.call(o) for o in A], sys.stdout)
"""


class C11(core.Check):
    id = "C11"
    level = "exploration"
    rule = ("one evaluation = one call compared with the same call made first in a fresh process; "
            "distinct = distinct (call, predecessor state) pairs")
    task_timeout = 600

    def prepare(self):
        # byte code of the current tree goes to a scratch directory of this run, so that fresh processes start fast
        self.tmp = tempfile.mkdtemp(prefix="mc-c11-")
        sys.pycache_prefix, sys.dont_write_bytecode = self.tmp, False
        ops.T                                   # the library is loaded, no call has been made in this process
        S = in_child(lambda: {s: conv1("Devanagari", s, ops.TXT) for s in ALL})
        self.full, self.core = ops.alphabet(S, "full"), ops.alphabet(S, "core")
        self.eff = fresh_results([o for o in self.full] + [o for o in self.core if o not in self.full])

    def tasks(self):
        n = len(self.full)
        t = [("single", list(range(i, min(n, i + 32)))) for i in range(0, n, 32)]
        # quick: every second core call (the pairs of all of them in the thorough tier)
        self.pairs = self.core if self.thorough else self.core[::2]
        t += [("pair", i) for i in range(len(self.pairs))]
        t += [("long", d, i) for d in (1, -1) for i in range(2 if not self.thorough else 40)]
        t += [("seed", s) for s in ((1, 2) if not self.thorough else range(1, 25))]
        return t

    def run(self, task):
        c = {"evaluations": 0, "distinct_nontrivial": 0, "calls_that_changed_state": 0, "states": 0}
        sus, smp = [], []
        if task[0] == "single":
            # the state reached by every single call, and from every *new* state every call again (breadth first)
            for i in task[1]:
                op = self.full[i]
                ch = self.eff[key(op)]
                c["evaluations"] += 1
                c["distinct_nontrivial"] += 1
                c["states"] += 1
                if ch:
                    c["calls_that_changed_state"] += 1
                    self.from_state([op], 1, c, sus)
                smp.append({"call": op, "changed": ch})
        elif task[0] == "pair":
            # every ordered pair of core calls in its own process
            a = self.pairs[task[1]]
            for b, r in zip(self.pairs, in_child(branches, [a], self.pairs)):
                c["evaluations"] += 1
                c["distinct_nontrivial"] += 1
                if r != in_child_ref(b):
                    sus.append({"history": [a, b]})
        elif task[0] == "long":
            # every call of the full alphabet in one history, from several starting points and in both directions
            d, i = task[1], task[2]
            n = len(self.full)
            order = [(i * (n // 7 + 1) + d * j) % n for j in range(n)]
            seq = [self.full[j] for j in order]
            got = in_child(history, seq) or []
            for j, (o, r) in enumerate(zip(seq, got)):
                c["evaluations"] += 1
                if r != in_child_ref(o):
                    sus.append({"history": self.shrink(seq[:j], o)})
            if len(got) != len(seq):
                sus.append({"history": seq})
        else:
            s = task[1]
            e = dict(os.environ, PYTHONHASHSEED=str(s))
            p = subprocess.run([sys.executable, "-W", "ignore", "-c", CHILD % env.VERIF], input=json.dumps(self.full), capture_output=True, text=True, env=e)
            got = json.loads(p.stdout[p.stdout.index("["):]) if "[" in p.stdout else []
            for o, r in zip(self.full, got):
                c["evaluations"] += 1
                if r != in_child_ref(o):
                    sus.append({"hashseed": s, "call": o})
            if len(got) != len(self.full):
                sus.append({"hashseed": s, "call": self.full[0]})
        return c, sus, smp

    def finish(self, counters, coverage):
        shutil.rmtree(self.tmp, ignore_errors=True)

    def from_state(self, prefix, depth, c, sus):
        """every call of the core alphabet after this history"""
        for b, r in zip(self.core, in_child(branches, prefix, self.core)):
            c["evaluations"] += 1
            c["distinct_nontrivial"] += 1
            if r != in_child_ref(b):
                sus.append({"history": prefix + [b]})
                return

    def shrink(self, prefix, o):
        """shortest history (by halving, then dropping single calls) after which o still differs"""
        ref = in_child_ref(o)
        bad = lambda h: (in_child(history, h + [o]) or [None])[-1] != ref
        cur = prefix
        while len(cur) > 1:
            h = len(cur) // 2
            if bad(cur[h:]):
                cur = cur[h:]
            elif bad(cur[:h]):
                cur = cur[:h]
            else:
                break
        for x in list(cur) if len(cur) < 40 else []:
            y = [z for z in cur if z is not x]
            if bad(y):
                cur = y
        return cur + [o]

    def judge(self, case):
        if "hashseed" in case:
            e = dict(os.environ, PYTHONHASHSEED=str(case["hashseed"]))
            p = subprocess.run([sys.executable, "-W", "ignore", "-c", CHILD % env.VERIF], input=json.dumps([case["call"]]), capture_output=True, text=True, env=e)
            r = json.loads(p.stdout[p.stdout.index("["):])[0] if "[" in p.stdout else "<died>"
            ref = in_child(history, [case["call"]])[0]
            if r != ref:
                return "with PYTHONHASHSEED=%s %r gives %r, else %r" % (case["hashseed"], case["call"], r[:150], ref[:150])
            return None
        h = case["history"]
        got = in_child(history, h)
        ref = in_child(history, h[-1:])
        if got is None or ref is None or got[-1] != ref[0]:
            return "after %r the call %r gives %r, in a fresh process %r" % (h[:-1][:3], h[-1], (got or ["<died>"])[-1][:150], (ref or ["<died>"])[0][:150])


_ref = {}


def key(o):
    return json.dumps(o, ensure_ascii=False, sort_keys=True)


def fresh_results(calls):
    """result and state change of every call made first in a fresh process; kept in _ref for the workers"""
    k = core.N_WORKERS
    jobs = []
    for n in range(k):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                with os.fdopen(w, "wb") as o:
                    pickle.dump([(key(c), in_child(effect, c)) for c in calls[n::k]], o)
            finally:
                os._exit(0)
        os.close(w)
        jobs.append((pid, r))
    eff = {}
    for pid, r in jobs:
        with os.fdopen(r, "rb") as i:
            for c, (res, ch) in pickle.load(i):
                _ref[c], eff[c] = res, ch
        os.waitpid(pid, 0)
    return eff


def in_child_ref(o):
    k = key(o)
    if k not in _ref:
        r = in_child(history, [o])
        _ref[k] = r[0] if r else None
    return _ref[k]


CHECK = C11

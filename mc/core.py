"""Bounded exhaustive exploration core.

A check enumerates a finite space of cases, split in tasks.  A task is explored in a forked
worker; it evaluates every case of its slice (usually thousands per API call, joined by line
breaks, or one by one) and returns counters and *suspect* cases.  A suspect becomes a violation
only after `judge(case)` confirms it in isolation in a separate process.  Every violation is
written as a JSON artefact that `python -m mc replay FILE` re-executes.
"""
import collections, hashlib, importlib, json, os, signal, sys, time, traceback
import multiprocessing as mp
from . import env

N_WORKERS = int(os.environ.get("MC_WORKERS", "8"))
SINGLE_TIMEOUT = 20        # seconds one isolated conversion may take before it counts as not terminating
MAX_REPORT = 25


class Hang(BaseException):
    pass


def _alarm(sig, frm):
    raise Hang()


class Check:
    id = None
    level = "exploration"
    rule = ""
    assumptions = []
    exhaustive = True
    task_timeout = 300
    judge_cap = 400          # suspects confirmed individually (the rest are counted)

    def __init__(self, tier, seed):
        self.tier, self.seed = tier, seed
        self.thorough = tier == "thorough"

    # -- to be provided ---------------------------------------------------------------
    def tasks(self):
        raise NotImplementedError

    def run(self, task):
        """-> (counters: dict, suspects: list of JSON-able cases, samples: list)"""
        raise NotImplementedError

    def judge(self, case):
        """-> None if the property holds on this one case, else a one-line description"""
        raise NotImplementedError

    def key(self, case):
        return json.dumps(case, ensure_ascii=False, sort_keys=True)

    def finish(self, counters, coverage):
        """last chance to add measured numbers to the coverage record"""

    def prepare(self):
        """called once in the parent before the workers are forked"""


_CHECK = None


def _worker(task):
    sys.stdout = open(os.devnull, "w")
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(_CHECK.task_timeout)
    t0 = time.time()
    try:
        c, s, smp = _CHECK.run(task)
        return task, dict(c), s, smp, None, time.time() - t0
    except Hang:
        return task, {}, [], [], "hang", time.time() - t0
    except Exception:
        return task, {}, [], [], traceback.format_exc(), time.time() - t0
    finally:
        signal.alarm(0)


def _judge_child(conn, case, quiet=True):
    if quiet:
        sys.stdout = open(os.devnull, "w")
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(SINGLE_TIMEOUT * 3)
    try:
        r = _CHECK.judge(case)
    except Hang:
        r = "did not terminate within %d s" % (SINGLE_TIMEOUT * 3)
    except Exception as e:
        r = "raised %s: %s" % (type(e).__name__, str(e)[:200])
    conn.send(r)
    conn.close()
    os._exit(0)


def judge_isolated(case):
    """Run judge(case) in a process forked from the pristine parent."""
    a, b = mp.Pipe(False)
    p = mp.Process(target=_judge_child, args=(b, case))
    p.start()
    b.close()
    r = None
    try:
        if a.poll(SINGLE_TIMEOUT * 3 + 20):
            r = a.recv()
        else:
            r = "no answer (process stuck)"
            p.kill()
    except EOFError:
        r = "process died while deciding this case"
    p.join()
    return r


def known_findings():
    p = os.path.join(env.VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p, encoding="utf8"))["findings"]


def replay_dir():
    d = os.path.join(env.VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    return d


def get_check(pid, tier, seed):
    m = importlib.import_module("mc.checks." + pid.lower())
    return m.CHECK(tier, seed)


def write_replay(pid, case, msg, tier):
    h = hashlib.sha1(json.dumps([pid, case], sort_keys=True).encode()).hexdigest()[:10]
    p = os.path.join(replay_dir(), "%s-%s.json" % (pid, h))
    with open(p, "w", encoding="utf8") as f:
        json.dump({"property": pid, "case": case, "message": msg, "tier": tier,
                   "replay": "/opt/venv/bin/python -m mc replay " + p}, f, ensure_ascii=False, indent=1)
    return p


def evidence_path(pid):
    d = os.path.join(env.VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, pid + ".json")


def run_check(pid, tier, seed):
    global _CHECK
    t0 = time.time()
    budget = 780 if tier == "quick" else 3 * 3600
    violations, notes = [], []
    counters = collections.Counter()
    samples, unconfirmed, distinct = [], 0, set()
    chk = None
    try:
        chk = get_check(pid, tier, seed)
        _CHECK = chk
        chk.prepare()
    except Exception:
        msg = "the code under test cannot be loaded: " + traceback.format_exc().strip().splitlines()[-1]
        traceback.print_exc()
        p = write_replay(pid, {"load": True}, msg, tier)
        print("VIOLATION property=%s replay=%s" % (pid, p))
        json.dump({"property": pid, "tier": tier, "seed": seed, "level": getattr(chk, "level", "exploration"),
                   "coverage": {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": [],
                                "states": 0, "transitions": 0, "traces_validated_against_impl": 0},
                   "wall_s": time.time() - t0, "violations": 1}, open(evidence_path(pid), "w"))
        return 1

    kf = [f for f in known_findings() if f["property"] == pid and f.get("status") == "known"]
    known_keys = {k: f for f in kf for k in ([f["key"]] if "key" in f else []) + list(f.get("keys", []))}

    tasks = list(chk.tasks())
    # the seed only rotates the order in which the (complete) task list is explored
    if tasks:
        r = seed % len(tasks)
        tasks = tasks[r:] + tasks[:r]
    suspects, hung, done = [], [], 0
    ctx = mp.get_context("fork")
    pool = ctx.Pool(N_WORKERS, maxtasksperchild=getattr(chk, "maxtasks", None))
    try:
        it = pool.imap_unordered(_worker, tasks, chunksize=1)
        for _ in range(len(tasks)):
            left = budget - (time.time() - t0)
            try:
                task, c, s, smp, err, dt = it.next(timeout=max(1, left))
            except mp.TimeoutError:
                notes.append("time budget reached: %d of %d tasks explored" % (done, len(tasks)))
                break
            done += 1
            for k, v in c.items():
                counters[k] += v
            if err:
                hung.append((task, err))
            suspects += s
            if smp and len(samples) < 12:
                samples += smp[:2]
            if os.environ.get("MC_VERBOSE"):
                print("  task", str(task)[:100], "%.1fs" % dt, "suspects", len(s), file=sys.stderr)
    finally:
        pool.terminate()
        pool.join()

    for task, err in hung:
        # the whole slice failed: either it hangs, or the harness itself met an exception it did not
        # attribute to a case.  Both are reported against the slice.
        if err == "hang":
            suspects.append({"task": task, "hang": True})
        else:
            suspects.append({"task": task, "error": err.strip().splitlines()[-1]})
            if os.environ.get("MC_VERBOSE"):
                print(err, file=sys.stderr)

    seen = set()
    uniq = []
    for s in suspects:
        k = chk.key(s) if "task" not in s else json.dumps(s, ensure_ascii=False, sort_keys=True)
        if k not in seen:
            seen.add(k)
            uniq.append((k, s))
    uniq.sort(key=lambda t: (len(t[0]), t[0]))
    known_hit, judged = {}, 0
    fresh = []
    for k, s in uniq:
        if k in known_keys:
            known_hit[k] = s
        else:
            fresh.append((k, s))
    stop = t0 + budget + 60
    for k, s in fresh[:chk.judge_cap]:
        if time.time() > stop or len(violations) >= MAX_REPORT:
            break
        judged += 1
        if "task" in s:
            r = s.get("error") or "exploring this slice did not terminate within %d s" % chk.task_timeout
        else:
            r = judge_isolated(s)
        if r is None:
            unconfirmed += 1
            if os.environ.get("MC_VERBOSE"):
                print("  unconfirmed", k[:200], file=sys.stderr)
        else:
            violations.append((k, s, r))

    # every listed finding is re-examined on its own case on every run
    for f in kf:
        r = judge_isolated(f["case"])
        if r is not None:
            print("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
        else:
            notes.append("listed finding no longer reproduces: " + f["what"])

    for k, s, r in violations[:MAX_REPORT]:
        p = write_replay(pid, s, r, tier)
        print("VIOLATION property=%s replay=%s" % (pid, p))
        print("  " + r[:400])
        print("  case: " + k[:300])

    cov = {"samples": samples[:8], "exhaustive": bool(chk.exhaustive and done == len(tasks)),
           "tasks_explored": done, "tasks_total": len(tasks), "suspects": len(uniq),
           "suspects_judged_in_isolation": judged, "suspects_not_confirmed": unconfirmed,
           "known_findings_reproduced": len(known_hit)}
    if notes:
        cov["notes"] = notes
    if chk.rule:
        cov["rule"] = chk.rule
    for k, v in counters.items():
        cov[k] = v
    chk.finish(counters, cov)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": chk.level, "coverage": cov,
          "assumptions": list(chk.assumptions), "wall_s": round(time.time() - t0, 2),
          "violations": len(violations)}
    with open(evidence_path(pid), "w", encoding="utf8") as f:
        json.dump(ev, f, ensure_ascii=False, indent=1)
    brief = {k: v for k, v in cov.items() if isinstance(v, int) and not isinstance(v, bool)}
    print("%s %s tier=%s wall=%.1fs %s" % (pid, "VIOLATED" if violations else "held", tier, time.time() - t0,
                                          " ".join("%s=%s" % t for t in brief.items())))
    for n in notes:
        print("note:", n)
    return 1 if violations else 0


def replay(path):
    global _CHECK
    d = json.load(open(path, encoding="utf8"))
    _CHECK = get_check(d["property"], d.get("tier", "quick"), 1)
    _CHECK.prepare()
    case = d["case"]
    if "task" in case:
        c, s, smp = _CHECK.run(case["task"])
        for x in s:
            print(_CHECK.judge(x), x)
        return 1 if s else 0
    r = judge_isolated(case)
    print("case:", json.dumps(case, ensure_ascii=False))
    print("result:", r if r else "the property holds on this case")
    return 1 if r else 0

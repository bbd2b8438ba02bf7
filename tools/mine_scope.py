"""Which options act on which scripts (mined once, reviewed) -> mc/spec/option_scope.json"""
import json, os, sys
import multiprocessing as mp
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from mc import env
from mc.checks import c25
OPTS = json.load(open(os.path.join(env.VERIF, "mc", "spec", "options.json"), encoding="utf8"))


def mine(task):
    k, x = task
    chk = c25.C25("thorough", 1)
    t = "\n".join(chk.texts(k, x))
    base = chk.outcome(k, x, t)
    return k, x, [o for o in OPTS[k] if chk.outcome(k, x, t, [o]) != base]


if __name__ == "__main__":
    out = {k: {o: [] for o in OPTS[k]} for k in ("pre", "post")}
    with mp.Pool(6) as p:
        for k, x, os_ in p.imap(mine, c25.C25("quick", 1).tasks(), chunksize=1):
            for o in os_:
                out[k][o].append(x)
    # named by the documentation for scripts on which the mined words do not show it
    for k in out:
        for o, ex in OPTS[k].items():
            for a, b, _ in ex:
                x = b if k == "post" else a
                if x not in out[k][o]:
                    out[k][o].append(x)
    json.dump(out, open(c25._p, "w"), indent=0, sort_keys=True)
    for k in out:
        print(k, {o: len(v) for o, v in out[k].items() if len(v) > 4}, len(out[k]), sum(not v for v in out[k].values()))

import os, sys


def main():
    # one hash seed for the explorer itself (C11 explores other seeds in child interpreters)
    if os.environ.get("PYTHONHASHSEED") != "0":
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable, "-m", "mc"] + sys.argv[1:])
    from . import env, core
    env.setup()
    a = sys.argv[1:]
    if a[0] == "run":
        tier = a[2] if len(a) > 2 else os.environ.get("VERIF_TIER", "quick")
        seed = int(os.environ.get("VERIF_SEED", "1"))
        rc = core.run_check(a[1], tier, seed)
    elif a[0] == "replay":
        rc = core.replay(a[1])
    else:
        raise SystemExit("usage: python -m mc run ID [quick|thorough] | replay FILE")
    sys.stdout.flush()
    os._exit(rc)


main()

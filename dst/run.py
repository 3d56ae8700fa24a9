"""check ID | replay FILE | selftest [ID...] | digest ID SEED I..."""
import importlib
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
CWD = os.getcwd()
os.chdir(os.path.join(os.environ.get("VERIF_REPO", "/repo"), "kats"))

from dst import harness  # noqa: E402

harness.prepare()
if os.environ.get("VERIF_DEBUG"):
    import faulthandler; faulthandler.dump_traceback_later(int(os.environ["VERIF_DEBUG"]), exit=True)


def load(pid):
    return importlib.import_module("dst.checks." + pid.lower())


def main():
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == "smoke":
        import kats.utils.backtesters, kats.detectors.cusum_model  # noqa
        print("ok")
        return 0
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if cmd == "check":
        kw = {}
        if os.environ.get("VERIF_RUNS"):
            kw["runs"] = int(os.environ["VERIF_RUNS"])
        if os.environ.get("VERIF_CAP"):
            kw["cap"] = float(os.environ["VERIF_CAP"])
        return harness.check(load(args[0]), seed, tier, nw=int(os.environ.get("VERIF_WORKERS", "8")), **kw)
    if cmd == "replay":
        args[0] = os.path.join(CWD, args[0])
        with open(args[0]) as f:
            pid = json.load(f)["property"]
        return harness.replay(load(pid), args[0])
    if cmd == "digest":
        mod = load(args[0])
        with harness.quiet():
            if hasattr(mod, "setup"):
                mod.setup()
        nw = int(os.environ.get("VERIF_WORKERS", "4"))
        idx = list(range(int(args[1])))
        jobs = []
        for w in range(nw):
            mine = idx[w::nw]
            jobs.append((mine, harness.fork_job(mod, [harness.plan_for(mod, seed, i, tier) for i in mine], [])))
        out = {}
        for mine, h in jobs:
            rs = harness.wait_job(h, 3600)
            for i, r in zip(mine, rs):
                out[i] = (r["digest"], r["v"][0] if r["v"] else (("ERR " + r["err"][-300:]) if r["err"] else None))
        for i in idx:
            print(i, *out.get(i, ("missing", None)))
        return 0
    if cmd == "plan":
        mod = load(args[0])
        print(json.dumps(harness.plan_for(mod, seed, int(args[1]), tier), indent=1))
        return 0
    if cmd == "one":
        mod = load(args[0])
        if hasattr(mod, "setup"):
            mod.setup()
        r = harness.execute(mod, harness.plan_for(mod, seed, int(args[1]), tier))
        print(json.dumps({k: r[k] for k in r if k != "trace"}, indent=1))
        print("\n".join(r["trace"]))
        return 0
    print(__doc__)
    return 2


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)

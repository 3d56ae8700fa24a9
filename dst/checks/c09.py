"""C09: a failing worker is never turned into a wrong backtest result."""
import numpy as np
import pandas as pd

from .. import bt, toys
from .. import common as C
from ..sim import Sim, gen_schedule

ID = "C09"
LEVEL = "exploration"
RUNS = {"quick": 500, "thorough": 30000}
CAP = {"quick": 38, "thorough": 2000}
RULE = ("A run draws a backtest, a schedule, and a set of folds whose worker fails (model error in fit or predict, out of "
        "memory, unpicklable result, short forecast); after the failing attempt the failure is removed and the same object "
        "runs again, once or twice. Non-trivial: at least one failure was reached inside a worker; distinct by event log.")
REAL = ["kats.utils.backtesters", "kats.utils.datapartition", "worker processes (forks) and threads, pickling of results and errors"]
STUB = ["pool scheduling", "cpu_count", "the forecasting model (fails on request)"]
ASSUMPTIONS = ["a worker that dies without an exception hangs multiprocessing.Pool itself and is not injected"]
KINDS = ["fit:value", "fit:memory", "fit:boom", "predict:value", "predict:memory", "predict:boom", "fit:lock", "predict:short"]
TYPES = {"value": ValueError, "memory": MemoryError, "boom": toys.Boom if hasattr(toys, "Boom") else Exception}


def gen(r, i, tier):
    if r.random() < 0.55:
        p = bt.gen_std(r, kinds=["ro", "ro", "cv", "cv", "exp", "rw", "simple", "fixed"])
        p["cores"] = r.choice([1, 2, 4])
        nf = bt.fold_count(p)
    else:
        p = bt.gen_generic(r)
        nf = p["dp"].get("expanding_steps", 1)
    p["model"] = "toy"
    p["multi"] = r.random() < 0.7
    k = r.choice([1, 1, 1, 2, 3, nf])
    p["attempts"] = []
    for _ in range(r.choice([1, 1, 2])):
        p["attempts"].append([[f, r.choice(KINDS)] for f in sorted(r.sample(range(nf), min(k, nf)))])
    p["clean_runs"] = r.choice([1, 1, 2])
    p["sched"] = gen_schedule(r, 700)
    p["late"] = r.random() < 0.3
    return p


def run(plan, ctx):
    p, s = plan, plan["sched"]
    generic = p["kind"] == "generic"
    if generic:
        data = bt.generic_data(p, p["seed"])
        clean = bt.generic_reference(p, data)
        folds = bt.make_dp(p, False).split(data)
        lasts = []
        for f in folds:
            parts = f.train.values() if isinstance(f.train, dict) else f.train if isinstance(f.train, list) else [f.train]
            lasts.append([str(int(pd.DatetimeIndex(x.time).asi8[-1])) for x in parts])
    else:
        data = C.series(p["seed"], p["n"], p["shape"], p["freq"])
        o = C.Outcome(lambda: bt.go(bt.make_std(p, data, False)))
        if not o.ok:
            ctx.check(isinstance(o.exc, ValueError), "unexpected-error", repr(o))
            ctx.probe("layout-refused")
            return
        clean = bt.std_view(o.value)
        lasts = [[str(m.rec["times"][-1])] for _, _, m, _ in o.value.results]
    params = toys.ToyParams(2)
    failed_somewhere = False
    with Sim(s["switches"], s["picks"], cores=p["cores"], late_pickle=p["late"]) as sim:
        if generic:
            fail = {}
            back = bt.make_generic(p, p["multi"], fail=fail, params=params if p["flavour"] == "ksb" else None)
            if p["flavour"] == "ksb":
                params.fail = fail
            go = lambda: back.run_backtester(data)
            view = lambda: bt.generic_view(back)
        else:
            fail = params.fail
            back = bt.make_std(p, data, p["multi"], params=params)
            go = lambda: bt.go(back)
            view = lambda: bt.std_view(back)
        for att in p["attempts"]:
            fail.clear()
            for f, kind in att:
                for key in (lasts[f] if f < len(lasts) else [])[:1]:
                    fail[key] = kind
            # generic backtests run in threads: an unpicklable model is no failure there, nor in serial runs
            procs = p["multi"] and not generic and p["kind"] not in ("simple", "fixed")
            bad = {}
            for j, ks in enumerate(lasts):
                for key in ks:
                    kd = fail.get(key)
                    if kd and not (kd == "fit:lock" and not procs):
                        bad[j] = kd
            o = C.Outcome(go)
            for kd in bad.values():
                ctx.fault("fold-failure-" + kd)
                failed_somewhere = True
            ctx.event("attempt", sorted(bad.items()), repr(o)[:80])
            if not generic:
                if bad:
                    ctx.check(not o.ok, "failure-swallowed", "folds %s failed, backtest returned errors %s" % (bad, getattr(back, "errors", None)))
                    want = tuple(TYPES.get(kd.split(":")[1], Exception) for kd in bad.values())
                    ctx.check(isinstance(o.exc, want), "failure-changed", "%r for %s" % (o, bad))
                else:
                    ctx.check(o.ok, "raised-without-failure", repr(o))
            elif len(bad) == len(lasts):
                ctx.check(not o.ok, "failure-swallowed", "every fold failed")
            else:
                ctx.check(o.ok, "raised-for-one-fold", repr(o))
                ref = bt.generic_reference(p, data, failing=set(bad))
                d = bt.generic_diff(view(), ref)
                ctx.check(d is None, "wrong-result-with-failed-fold", "folds %s failed: %s" % (bad, d))
        fail.clear()
        for k in range(p["clean_runs"]):
            o = C.Outcome(go)
            ctx.check(o.ok, "retry-raised", repr(o))
            v = view()
            d = (bt.generic_diff if generic else bt.view_diff)(v, clean)
            ctx.check(d is None, "retry-differs", "run %d after the failure: %s" % (k + 1, d))
            ctx.event("retry", k, sorted((v["summary"] if generic else v["errors"]).items()))
        st = sim.stats
        ctx.interleaving(sim.log)
    ctx.fault("preemption", st["preemptions"])
    ctx.fault("task-assignment-and-completion-order", st["decisions"])
    ctx.probe("kind-" + p["kind"])
    ctx.sim_seconds += p["n"] * 86400
    ctx.nontrivial = failed_somewhere

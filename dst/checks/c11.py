"""C11: ensemble forecasts do not depend on worker scheduling."""
from .. import common as C
from .. import ens, toys
from ..sim import Sim, gen_schedule

ID = "C11"
LEVEL = "exploration"
RUNS = {"quick": 260, "thorough": 20000}
CAP = {"quick": 38, "thorough": 2000}
RULE = ("A run draws an ensemble (median, weighted average, Kats ensemble by fit/predict/aggregate or by forecast), an ordered "
        "member list with parameters, a series, horizons, a core count, a worker schedule and in half of the runs a member "
        "that fails in its fit or only in its backtest, then a clean retry. Oracle: the members fitted and backtested one "
        "by one. Non-trivial: at least two members and a scheduling decision; distinct by event log.")
REAL = ["kats.models.ensemble.*", "kats.utils.backtesters.BackTesterSimple", "linear, quadratic, theta, Holt-Winters models",
        "worker processes (forks), pickling of members and results"]
STUB = ["pool scheduling, Manager", "cpu_count", "three toy members that can fail on request"]
ASSUMPTIONS = ["members of one ensemble have distinct names (results are documented to be keyed by name)",
               "a worker that dies without an exception hangs multiprocessing.Pool itself and is not injected"]


def setup():
    ens.register()


def gen(r, i, tier):
    p = ens.gen(r)
    p["sched"] = gen_schedule(r, 50)
    p["late"] = r.random() < 0.3
    p["fails"] = []
    ts = [m for m, _ in p["members"] if m.lower().startswith("toy")]
    if ts and r.random() < 0.5:
        for _ in range(r.choice([1, 1, 2])):
            p["fails"].append([r.choice(ts), r.choice(["fit", "fit", "fit", "backtest"]),
                               r.choice(["fit:value", "fit:memory", "fit:boom", "fit:lock"])])
    return p


def run(plan, ctx):
    p, s = plan, plan["sched"]
    data = ens.data(p)
    before = C.ts_fp(data)
    want = ens.reference(p, ens.data(p), p["steps"])
    import pandas as pd
    end = str(int(pd.DatetimeIndex(data.time).asi8[-1]))
    cut = str(int(pd.DatetimeIndex(data.time).asi8[int(len(data) * 0.8) - 1]))
    weighted = p["kind"] == "weighted" or p["agg"] == "weightedavg"
    fail = {m: {} for m, _ in p["members"] if m.lower().startswith("toy")}
    with Sim(s["switches"], s["picks"], cores=p["cores"], late_pickle=p["late"]) as sim:
        m = ens.make(p, data, fail)
        for name, where, kind in p["fails"]:
            fail[name][end if where == "fit" else cut] = kind
            # (an unpicklable backtest model stays in its worker; only the error number comes back)
            hits = where == "fit" or (weighted and kind != "fit:lock")
            o = C.Outcome(lambda: ens.go(p, m, p["steps"][:1]))
            ctx.fault("member-failure-%s-%s" % (where, kind.split(":")[1]), 1 if hits else 0)
            ctx.event("fail", name, where, kind, repr(o)[:60])
            if hits:
                ctx.check(not o.ok, "failure-swallowed", "member %s failed (%s %s) and the ensemble returned %s" % (name, where, kind, o))
            else:
                ctx.check(o.ok, "raised-without-failure", repr(o))
            fail[name].clear()
        o = C.Outcome(lambda: ens.go(p, m, p["steps"]))
        ctx.check(o.ok, "raised-without-failure", repr(o))
        st = sim.stats
        ctx.interleaving(sim.log)
    d = ens.diff(p, o.value, want)
    ctx.check(d is None, "differs-from-members", "%s %s: %s" % (p["kind"], p["members"], d))
    ctx.check(C.ts_fp(data) == before, "caller-data-changed", p["kind"])
    for f, w in o.value:
        ctx.event("fcst", C.frame_fp(f), sorted(w.items()) if w else None)
    ctx.fault("task-assignment-and-completion-order", st["decisions"])
    ctx.probe(p["kind"] + ("-" + p["agg"] if p["agg"] else "") + ("-seasonal" if p["seasonal"] else ""))
    ctx.sim_seconds += p["n"] * 86400
    ctx.nontrivial = len(p["members"]) > 1 and st["decisions"] > 0

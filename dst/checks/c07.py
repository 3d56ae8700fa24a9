"""C07: parallel backtests give the serial answer under every schedule."""
from .. import bt
from .. import common as C
from ..sim import Sim, gen_schedule

ID = "C07"
LEVEL = "exploration"
RUNS = {"quick": 420, "thorough": 30000}
CAP = {"quick": 38, "thorough": 2400}
MODELS = ("toy", "toy", "toy", "linear", "quadratic", "theta", "theta7", "last", "meanh", "holt")
RULE = ("A run draws a backtest class, fold layout, data, a real or toy forecasting model and a schedule; runs the "
        "backtest in parallel (forked workers or scheduled threads) and compares every fold's training data, truth, "
        "forecast, raw errors and summary errors with the serial backtest and with each fold's model fitted alone. "
        "Non-trivial: at least two folds and one scheduling decision or preemption; distinct by event log.")
REAL = ["kats.utils.backtesters (all classes)", "kats.utils.datapartition", "kats forecasting models",
        "worker processes (real forks), pickling of tasks and results", "worker threads (real threads, one runs at a time)"]
STUB = ["multiprocessing.Pool and multiprocessing.dummy.Pool (task assignment and completion order decided by the simulator)",
        "cpu_count", "toy forecasting model in part of the runs"]
ASSUMPTIONS = ["worker threads switch only at source lines of kats code and at pool operations"]


def gen(r, i, tier):
    if r.random() < 0.6:
        p = bt.gen_std(r, kinds=["ro", "ro", "ro", "exp", "rw", "cv", "cv", "fixed", "simple"], models=MODELS)
        p["cores"] = r.choice([1, 2, 4, 8])
    else:
        p = bt.gen_generic(r, models=MODELS)
    p["sched"] = gen_schedule(r, 450 * (1 + (p["dp"].get("expanding_steps", 1) if p["kind"] == "generic" else 0)))
    p["late"] = r.random() < 0.4
    p["n"] = max(p["n"], 60) if p["model"] in ("holt", "theta7", "theta") else p["n"]
    return p


def run(plan, ctx):
    p = plan
    s = p["sched"]
    if p["kind"] == "generic":
        data = bt.generic_data(p, p["seed"])
        many = data.values() if isinstance(data, dict) else data if isinstance(data, list) else [data]
        before = [C.ts_fp(d) for d in many]
        ref = bt.generic_reference(p, data)
        serial = bt.make_generic(p, False)
        serial.run_backtester(data)
        d = bt.generic_diff(bt.generic_view(serial), ref)
        ctx.check(d is None, "serial-differs-from-single-folds", d)
        with Sim(s["switches"], s["picks"], cores=p["cores"], late_pickle=p["late"]) as sim:
            par = bt.make_generic(p, True)
            o = C.Outcome(lambda: par.run_backtester(data))
            st = sim.stats
            ctx.interleaving(sim.log)
        ctx.check(o.ok, "parallel-raised", repr(o))
        v = bt.generic_view(par)
        d = bt.generic_diff(v, ref)
        ctx.check(d is None, "parallel-differs", d)
        ctx.event("summary", sorted(v["summary"].items()))
        ctx.check(before == [C.ts_fp(x) for x in many], "caller-data-changed", "")
        folds = len(ref["folds"])
    else:
        data = C.series(p["seed"], p["n"], p["shape"], p["freq"])
        before = C.ts_fp(data)
        cls, mk, _ = bt.toys.series_model(p["model"])
        serial = C.Outcome(lambda: bt.std_view(bt.go(bt.make_std(p, data, False))))
        with Sim(s["switches"], s["picks"], cores=p["cores"], late_pickle=p["late"]) as sim:
            par = C.Outcome(lambda: bt.std_view(bt.go(bt.make_std(p, data, True))))
            st = sim.stats
            ctx.interleaving(sim.log)
        ctx.check(serial.ok == par.ok and type(serial.exc) is type(par.exc), "parallel-raised",
                  "serial %r, parallel %r" % (serial, par))
        ctx.check(C.ts_fp(data) == before, "caller-data-changed", "")
        if not serial.ok:
            # only a layout that does not fit may be refused
            ctx.check(isinstance(serial.exc, ValueError), "unexpected-error", repr(serial))
            ctx.probe("layout-refused")
            ctx.event("refused")
            return
        d = bt.view_diff(par.value, serial.value)
        ctx.check(d is None, "parallel-differs", d)
        bt.check_self_consistent(ctx, p, data, par.value, mk)
        ctx.event("errors", sorted(par.value["errors"].items()))
        folds = len(par.value["results"])
    ctx.fault("preemption", st["preemptions"])
    ctx.fault("task-assignment-and-completion-order", st["decisions"])
    ctx.fault("late-pickling", 1 if p["late"] else 0)
    ctx.probe("folds", folds)
    ctx.probe("preemption-points-passed", sim.step)
    ctx.probe("model-" + p["model"])
    ctx.probe("kind-" + p["kind"])
    ctx.sim_seconds += p["n"] * C.FREQS.get(p.get("freq", "D"), 86400)
    ctx.nontrivial = folds > 1 and (st["decisions"] + st["preemptions"]) > 0

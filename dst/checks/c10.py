"""C10: parallel helpers release their workers on every path."""
import pandas as pd

from .. import bt, ens, toys
from .. import common as C
from ..sim import Sim, SimDeadlock, gen_schedule

ID = "C10"
LEVEL = "exploration"
RUNS = {"quick": 320, "thorough": 30000}
CAP = {"quick": 38, "thorough": 2000}
RULE = ("A run draws a parallel entry point (rolling/expanding/window backtest, cross validation, generic backtester, data "
        "partition, the three ensembles, prediction-interval ensemble), a schedule and a set of faults (failing tasks, "
        "unpicklable results, a pool that cannot be started, an unknown member model), runs it, and looks at every pool "
        "when the call has ended; two calls in a row share the process. Non-trivial: at least one pool was opened or "
        "refused and, in two of three runs, a fault was reached; distinct by event log.")
REAL = ["kats.utils.backtesters", "kats.utils.datapartition", "kats.utils.ensemble_predict_interval", "kats.models.ensemble.*",
        "worker processes (forks) and threads"]
STUB = ["pool scheduling, Manager", "cpu_count", "forecasting models that fail on request"]
ASSUMPTIONS = ["a worker that dies without an exception hangs multiprocessing.Pool itself and is not injected"]


def setup():
    ens.register()


def gen(r, i, tier):
    entry = r.choice(["std", "generic", "split", "ens", "ens", "epi"])
    p = {"entry": entry}
    if entry == "std":
        p["w"] = bt.gen_std(r, kinds=["ro", "cv", "exp", "rw"])
        nf = bt.fold_count(p["w"])
        p["cores"] = r.choice([1, 2, 4])
    elif entry == "generic":
        p["w"] = bt.gen_generic(r)
        nf = p["w"]["dp"].get("expanding_steps", 1)
        p["cores"] = p["w"]["cores"]
    elif entry == "split":
        nf = r.randint(1, 5)
        p["w"] = {"lens": [r.randint(10, 40) for _ in range(nf)], "dict": r.random() < 0.5,
                  "kind": r.choice(["simple", "rolling"])}
        p["cores"] = r.choice([1, 2, 4, 8])
    elif entry == "ens":
        p["w"] = ens.gen(r)
        p["w"]["steps"] = p["w"]["steps"][:1]
        nf = len(p["w"]["members"])
        p["cores"] = p["w"]["cores"]
    else:
        nf = 5
        p["w"] = {"n_block": r.randint(5, 6), "block": r.randint(10, 12), "size": r.randint(4, 6),
                  "step": r.randint(5, 30), "rolling": r.random() < 0.3}
        p["cores"] = r.choice([1, 4, 8, 16])
    p["calls"] = []
    for _ in range(r.choice([1, 2, 2])):
        c = {"pool_fail": r.random() < 0.15, "unknown": r.random() < 0.2, "fails": []}
        if r.random() < 0.6:
            for f in sorted(r.sample(range(nf), r.choice([1, 1, nf, min(2, nf)]))):
                c["fails"].append([f, r.choice(["fit:value", "fit:memory", "fit:boom", "fit:lock", "predict:value", "predict:short"])])
        p["calls"].append(c)
    p["sched"] = gen_schedule(r, 300)
    p["late"] = r.random() < 0.3
    return p


def poison():
    """A series whose split fails inside the worker."""
    from kats.consts import TimeSeriesData

    class Poison(TimeSeriesData):
        def __getitem__(self, k):
            raise MemoryError("injected: no memory for the slice")

        def __len__(self):
            raise MemoryError("injected: no memory")
    return Poison(time=C.times(20), value=pd.Series(C.values(1, 20, "noise")))


def run(plan, ctx):
    p, s, w = plan, plan["sched"], dict(plan["w"])
    w["seed"] = p["seed"]
    reached = 0
    with Sim(s["switches"], s["picks"], cores=p["cores"], late_pickle=p["late"]) as sim:
        calls = workload(p["entry"], w)
        if calls is None:
            ctx.probe("layout-refused")
            return
        for k, c in enumerate(p["calls"]):
            if c["pool_fail"]:
                sim.pool_fail.add(sim.stats["pools"] + (k % 2))
            first = len(sim.pools)
            o = C.Outcome(lambda: calls(c))
            ctx.check(not isinstance(o.exc, SimDeadlock), "hangs", repr(o))
            nfail = sim.stats.get("pool_start_failures", 0)
            reached += nfail + (not o.ok) + (1 if p["entry"] == "generic" and c["fails"] else 0)
            what = "%s, %s, outcome %s" % (p["entry"], {a: b for a, b in c.items() if b}, o)
            for q in sim.pools[first:]:
                ctx.check(q.leak() is None, "pool-leak", "%s pool of %d workers: %s; after %s" % (q.kind, q.n, q.leak(), what))
                left = [t.idx for t in q.tasks if not t.done and not t.lost]
                ctx.check(not left, "task-still-running", "tasks %s; after %s" % (left, what))
            ctx.event(p["entry"], k, repr(o)[:80], len(sim.pools) - first)
            for f, kd in c["fails"]:
                ctx.fault("task-failure-" + kd)
            sim.pool_fail.clear()
        ctx.fault("pool-start-failure", sim.stats.get("pool_start_failures", 0))
        ctx.fault("call-raised", reached)
        # thread workers end once their pool was closed
        for _ in range(200):
            if sim.live == 1:
                break
            sim.yield_now()
        alive = sum(1 for t in sim.threads[1:] if not t.done)
        ctx.check(alive == 0, "worker-alive", "%d workers still alive after %s" % (alive, p["entry"]))
        st = sim.stats
        ctx.interleaving(sim.log)
    ctx.fault("preemption", st["preemptions"])
    ctx.fault("task-assignment-and-completion-order", st["decisions"])
    ctx.probe("entry-" + p["entry"])
    ctx.probe("pools", st["pools"])
    ctx.nontrivial = st["pools"] > 0 or st.get("pool_start_failures", 0) > 0


def workload(entry, w):
    if entry == "std":
        data = C.series(w["seed"], w["n"], w["shape"], w["freq"])
        o = C.Outcome(lambda: bt.go(bt.make_std(w, data, False)))
        if not o.ok:
            return None
        lasts = [str(m.rec["times"][-1]) for _, _, m, _ in o.value.results]
        params = toys.ToyParams(2)
        b = bt.make_std(w, data, True, params=params)

        def call(c):
            params.fail.clear()
            for f, kd in c["fails"]:
                params.fail[lasts[f]] = kd
            return bt.go(b)
        return call
    if entry == "generic":
        data = bt.generic_data(w, w["seed"])
        folds = bt.make_dp(w, False).split(data)
        lasts = []
        for f in folds:
            a = f.train
            a = list(a.values()) if isinstance(a, dict) else a if isinstance(a, list) else [a]
            lasts.append(str(int(pd.DatetimeIndex(a[0].time).asi8[-1])))
        fail, params = {}, toys.ToyParams(2)
        b = bt.make_generic(w, True, fail=fail, params=params if w["flavour"] == "ksb" else None)
        if w["flavour"] == "ksb":
            params.fail = fail

        def call(c):
            fail.clear()
            for f, kd in c["fails"]:
                fail[lasts[f]] = kd
            arg = data
            if c["unknown"]:
                arg = {"x": data, "y": poison()} if not isinstance(data, (list, dict)) else \
                    list(data) + [poison()] if isinstance(data, list) else dict(data, y=poison())
            b.run_backtester(arg)
            return b.get_errors()
        return call
    if entry == "split":
        from kats.utils import datapartition as D
        data = [C.series(w["seed"] + j, n) for j, n in enumerate(w["lens"])]
        dp = (D.SimpleDataPartition(train_frac=0.5, multi=True) if w["kind"] == "simple" else
              D.RollingOriginDataParition(start_train_frac=0.4, test_frac=0.2, expanding_steps=2, multi=True))

        def call(c):
            xs = list(data)
            for f, kd in c["fails"]:
                xs[f] = poison()
            return dp.split(dict(enumerate(xs)) if w["dict"] else xs)
        return call
    if entry == "ens":
        data = ens.data(w)
        end = str(int(pd.DatetimeIndex(data.time).asi8[-1]))
        cut = str(int(pd.DatetimeIndex(data.time).asi8[int(len(data) * 0.8) - 1]))
        fail = {m: {} for m, _ in w["members"] if m.lower().startswith("toy")}
        base = ens.make(w, data, fail)

        def call(c):
            names = [m for m, _ in w["members"]]
            for x in fail.values():
                x.clear()
            for f, kd in c["fails"]:
                if names[f] in fail:
                    fail[names[f]][end if len(kd) % 2 else cut] = kd
            m = base
            if c["unknown"]:
                from kats.models.ensemble.ensemble import BaseModelParams
                w2 = dict(w, members=w["members"])
                m = ens.make(w2, data, fail)
                ep = m.params["models"] if isinstance(m.params, dict) else m.params
                ep.models.insert(len(ep.models) // 2, BaseModelParams("nosuchmodel", toys.ToyParams(1)))
            return ens.go(w, m, w["steps"])
        return call
    from kats.utils.ensemble_predict_interval import ensemble_predict_interval
    n = (w["n_block"] + 1) * w["block"]
    data = C.series(w["seed"], n, "trend")
    asi = pd.DatetimeIndex(data.time).asi8
    params = toys.ToyParams(1)
    state = {"e": None}

    def call(c):
        params.fail.clear()
        for f, kd in c["fails"]:
            params.fail[str(int(asi[(f + 1) * w["block"] - 1]))] = kd
            if kd.startswith("predict"):
                # fails while the chains are projected instead
                params.fail[str(int(asi[-1]))] = kd
        e = ensemble_predict_interval(toys.ToyModel, params, data, block_size=w["block"], n_block=w["n_block"],
                                      ensemble_size=w["size"], multiprocessing=True)
        return e.get_projection(w["step"], w["rolling"])
    return call

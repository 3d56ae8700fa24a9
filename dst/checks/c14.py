"""C14: the same seed gives the same result whatever else uses randomness."""
import random

import numpy as np
import pandas as pd

from .. import common as C
from ..sim import InjectedError, Sim, crash_at, gen_schedule

ID = "C14"
LEVEL = "exploration"
RUNS = {"quick": 6000, "thorough": 200000}
CAP = {"quick": 38, "thorough": 1500}
RULE = ("A run draws one to four calls of components that use randomness, with their seeds, and foreign consumers of randomness (global draws "
        "and reseeding of numpy's and Python's generators, unseeded components of Kats). Either all run on simulated threads, or one after "
        "another with foreign draws, aborted calls and repeated calls in between. Each result is compared with that of the same call "
        "made alone in a process whose global generators were seeded differently. Components that own their generator must also leave "
        "numpy's global state as it was. Non-trivial: at least one compared call had a foreign draw, abort or other component before or during it. "
        "Distinct by event log.")
INTER = "scheduling decisions of the simulated threads, or the order of operations"
REAL = ["Simulator (level shift, multivariate level shift, trend shift, ARIMA, STL components)", "BOCPDetector (trend change, normal, Poisson), BocpdDetectorModel(slow_drift=True)",
        "ProphetModel.predict(seed=)", "KDEResidualTranslator", "MetaLearnPredictability and MetaLearnModelSelect training", "numpy, sklearn, prophet"]
STUB = ["thread scheduling", "foreign consumers of randomness", "exceptions injected at kats source lines"]
ASSUMPTIONS = ["threads switch at source lines of kats code", "components that take no seed (ARIMA and noise simulation, metalearner training and downsampling) and Prophet's sampled intervals "
               "use the global generator, so they are promised only for a global seed and no other thread at work"]

OWN = ["level", "levelm", "trend", "bocpd", "bocpdm", "kde"]
GLOBAL = ["arima", "noise", "mlp", "mls", "prophet"]


def gen_task(r, comp):
    s = r.randint(0, 2**31 - 1)
    if comp in ("level", "levelm", "trend"):
        n = r.choice([20, 40, 60])
        k = r.randint(0 if comp != "levelm" else 1, 3)
        cps = sorted(r.sample(range(2, n - 2), k))
        if r.random() < 0.3:
            cps = cps[::-1]
        an = sorted(r.sample(range(3, n - 1), r.choice([0, 1, 2])))
        return {"comp": comp, "seed": s, "n": n, "cps": cps, "lv": [round(r.uniform(-9, 9), 2) for _ in range(k + 1)],
                "noise": r.choice([0.5, 3.0, 30.0]), "an": an, "z": [r.choice([5.0, -8.0]) for _ in an], "dim": r.choice([1, 2, 3])}
    if comp in ("bocpd", "bocpdm"):
        return {"comp": comp, "seed": s, "n": r.choice([12, 13, 14]), "shape": r.choice(["step", "trend", "noise"]),
                "model": r.choice(["trend", "trend", "trend", "normal", "poisson"]), "samples": r.choice([5, 20])}
    if comp == "kde":
        return {"comp": comp, "seed": s, "n": r.choice([20, 30])}
    if comp == "arima":
        return {"comp": comp, "seed": s, "n": r.choice([10, 30]), "ar": r.choice([[0.3], [0.1, 0.05]]), "ma": r.choice([[0.1], [0.04, 0.1]]), "d": r.choice([0, 1])}
    if comp == "noise":
        return {"comp": comp, "seed": s, "n": r.choice([10, 30]), "mag": r.choice([1.0, 5.0]), "mult": r.random() < 0.5, "twice": r.random() < 0.4}
    if comp == "mlp":
        return {"comp": comp, "seed": s, "method": r.choice(["RandomForest", "GBDT", "KNN", "NaiveBayes"]), "test": r.choice([0.1, 0.2]), "pre": r.random() < 0.5}
    if comp == "mls":
        return {"comp": comp, "seed": s, "method": r.choice(["RandomForest", "GBDT", "KNN", "NaiveBayes", "SVM"]), "test": r.choice([0.1, 0.2]), "down": r.random() < 0.6}
    if comp == "prophet":
        return {"comp": comp, "seed": s % 2**31, "n": r.choice([24, 40]), "samples": r.choice([20, 50]), "steps": r.choice([2, 5])}
    raise KeyError(comp)


def gen(r, i, tier):
    threads = r.random() < 0.55
    n = r.choice([1, 2, 2, 3, 4])
    w_own = ["level", "levelm", "trend"] * 4 + ["bocpd", "bocpd", "bocpdm", "kde"]
    w_glob = ["arima", "noise"] * 3 + ["mls", "mlp", "prophet"]
    pool = w_own if threads else w_own + w_glob
    tasks = [gen_task(r, r.choice(pool)) for _ in range(n)]
    if threads:
        foreign = [[r.choice(["np", "py", "seed", "noise", "arima"]), r.choice([1, 3, 50])] for _ in range(r.randint(1, 8))]
        bg = [[foreign[k] for k in range(len(foreign)) if k % 2 == 0], [foreign[k] for k in range(len(foreign)) if k % 2]]
        return {"threads": True, "tasks": tasks, "bg": bg, "sched": gen_schedule(r, 150 if r.random() < 0.6 else 3000, 6)}
    ops = []
    for _ in range(r.randint(2, 7)):
        o = r.choice(["foreign", "foreign", "task", "task", "abort"])
        if o == "foreign":
            ops.append([o, r.choice(["np", "py", "seed", "noise", "arima"]), r.choice([1, 3, 50])])
        elif o == "task":
            ops.append([o, r.randrange(n)])
        else:
            ops.append([o, r.randrange(n), r.choice([1, 3, 8, 20, 50])])
    ops += [["task", k] for k in range(n)]
    return {"threads": False, "tasks": tasks, "ops": ops, "reuse": r.random() < 0.5}


_meta = {}


def metadata():
    if not _meta:
        g = np.random.RandomState(5)
        out = []
        for k in range(48):
            f = {"f%d" % j: float(g.normal(k % 3, 1)) for j in range(5)}
            hpt = {m: [{"p": k}, float(abs(g.normal(0.15, 0.1)))] for m in ("arima", "theta", "stlf")}
            out.append({"hpt_res": hpt, "features": f, "best_model": ("arima", "theta", "stlf")[(k * k) % 3 if k % 5 else 1]})
        _meta["m"] = out
        _meta["x"] = np.random.RandomState(6).normal(1, 1, (12, 5))
    import copy
    return copy.deepcopy(_meta["m"]), _meta["x"].copy()


def vals(ts):
    return [[int(x) for x in pd.DatetimeIndex(ts.time).asi8[:3]], np.asarray(ts.value.values, dtype=float).tolist(), len(ts)]


def call(t, obj=None):
    """The call of one task: a JSON-able result."""
    c = t["comp"]
    if c in ("level", "levelm", "trend"):
        from kats.utils.simulator import Simulator
        s = obj if obj is not None else Simulator(n=t["n"], freq="D", start="2021-01-04")
        args = {"cp_arr": list(t["cps"]), "noise": t["noise"], "seasonal_period": 7, "seasonal_magnitude": 2.0, "anomaly_arr": list(t["an"]), "z_score_arr": list(t["z"])}
        keep = {k: (list(v) if isinstance(v, list) else v) for k, v in args.items()}
        if c == "level":
            r = s.level_shift_sim(random_seed=t["seed"], level_arr=list(t["lv"]), **args)
        elif c == "levelm":
            r = s.level_shift_multivariate_indep_sim(level_arr=list(t["lv"]), dim=t["dim"], **args)
        else:
            r = s.trend_shift_sim(random_seed=t["seed"], trend_arr=list(t["lv"]), intercept=10.0, **args)
        return vals(r) + [args == keep]
    if c == "bocpd":
        from kats.detectors.bocpd import BOCPDetector, BOCPDModelType, NormalKnownParameters, PoissonModelParameters, TrendChangeParameters
        m, p = {"trend": (BOCPDModelType.TREND_CHANGE_MODEL, TrendChangeParameters(num_likelihood_samples=t["samples"])),
                "normal": (BOCPDModelType.NORMAL_KNOWN_MODEL, NormalKnownParameters()),
                "poisson": (BOCPDModelType.POISSON_PROCESS_MODEL, PoissonModelParameters())}[t["model"]]
        ts = C.series(t["seed"], t["n"], t["shape"])
        ts.value = ts.value.round()
        d = BOCPDetector(ts)
        cps = d.detector(model=m, model_parameters=p, choose_priors=False, lag=3, threshold=0.1)
        return [[str(x.start_time) for x in cps], [float(x.confidence) for x in cps], {k: np.asarray(v, dtype=float).tolist() for k, v in d.get_change_prob().items()}]
    if c == "bocpdm":
        from kats.detectors.bocpd_model import BocpdDetectorModel
        r = BocpdDetectorModel(slow_drift=True).fit_predict(C.series(t["seed"], t["n"], t["shape"]))
        return vals(r.scores)
    if c == "kde":
        from kats.detectors.residual_translation import KDEResidualTranslator
        y, yh = C.series(t["seed"], t["n"], "noise"), C.series(t["seed"] + 1, t["n"], "noise")
        p = KDEResidualTranslator().fit(y=y, yhat=yh).predict_proba(y=y, yhat=yh)
        return vals(p)
    np.random.seed(t["seed"])
    if c == "arima":
        from kats.utils.simulator import Simulator
        s = obj if obj is not None else Simulator(n=t["n"], freq="D", start="2021-01-04")
        return vals(s.arima_sim(ar=list(t["ar"]), ma=list(t["ma"]), d=t["d"]))
    if c == "noise":
        from kats.utils.simulator import Simulator
        s = Simulator(n=t["n"], freq="D", start="2021-01-04")
        s.add_trend(3)
        s.add_noise(t["mag"], t["mult"])
        if t["twice"]:
            s.add_noise(t["mag"])
        return vals(s.stl_sim())
    if c == "mlp":
        from kats.models.metalearner.metalearner_predictability import MetaLearnPredictability
        meta, x = metadata()
        m = MetaLearnPredictability(meta, threshold=0.15)
        if t["pre"]:
            m.preprocess()
        e = m.train(method=t["method"], valid_size=0.2, test_size=t["test"], n_estimators=5)
        return [sorted((k, float(v)) for k, v in e.items()), m.pred_by_feature(x).tolist()]
    if c == "mls":
        from kats.models.metalearner.metalearner_modelselect import MetaLearnModelSelect
        meta, x = metadata()
        m = MetaLearnModelSelect(meta)
        m.preprocess(downsample=t["down"], scale=True)
        e = m.train(method=t["method"], test_size=t["test"], n_trees=5)
        return [float(e["clf_accuracy"]), list(m.pred_by_feature(x))]
    if c == "prophet":
        from kats.models.prophet import ProphetModel, ProphetParams
        m = ProphetModel(C.series(t["seed"], t["n"], "trend"), ProphetParams(n_changepoints=3, uncertainty_samples=t["samples"]))
        m.fit()
        f = m.predict(steps=t["steps"], seed=t["seed"])
        return [f[k].tolist() for k in ("fcst", "fcst_lower", "fcst_upper")]
    raise KeyError(c)


def foreign(kind, n):
    if kind == "np":
        np.random.rand(n)
        np.random.normal(size=3)
    elif kind == "py":
        random.random()
    elif kind == "seed":
        np.random.seed(n)
        random.seed(n)
    else:
        from kats.utils.simulator import Simulator
        s = Simulator(n=6, freq="D", start="2021-01-04")
        if kind == "noise":
            s.add_noise(1.0)
            s.add_noise(2.0)
        else:
            s.arima_sim(ar=[0.1], ma=[0.1], burnin=2)


def npstate():
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2], s[3], s[4])


def diff(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return "%d and %d entries" % (len(a), len(b))
        if a and all(isinstance(x, (float, int)) for x in a + b if not isinstance(x, bool)) and not any(isinstance(x, bool) for x in a):
            return None if C.same(np.array(a, dtype=float), np.array(b, dtype=float), 1e-9, 1e-9) else "%s, alone %s" % (a[:4], b[:4])
        for x, y in zip(a, b):
            d = diff(x, y)
            if d:
                return d
        return None
    if isinstance(a, dict):
        return diff([list(x) for x in sorted(a.items())], [list(x) for x in sorted(b.items())])
    if isinstance(a, float):
        return None if C.same(np.array([a]), np.array([b]), 1e-9, 1e-9) else "%s, alone %s" % (a, b)
    return None if a == b else "%s, alone %s" % (a, b)


def run(plan, ctx):
    tasks = plan["tasks"]
    np.random.seed(12345)
    random.seed(12345)
    want = []
    for t in tasks:
        np.random.rand(7)
        before = npstate()
        want.append(C.Outcome(lambda: call(t)))
        if t["comp"] in OWN:
            ctx.check(npstate() == before, "global-state:" + t["comp"], "%s with a seed of its own changed numpy's global generator" % t["comp"])
    np.random.seed(99)

    def judge(k, got, when):
        t, w = tasks[k], want[k]
        what = "%s(seed=%d) %s" % (t["comp"], t["seed"], when)
        if w.ok != got.ok:
            ctx.fail("outcome:" + t["comp"], "%s: %s, alone %s" % (what, got, w))
            return
        if w.ok:
            d = diff(got.value, w.value)
            ctx.check(d is None, "result:" + t["comp"], lambda: "%s gave %s" % (what, d))
        ctx.event(t["comp"], repr(got.value)[:120])
        ctx.probe("compared " + t["comp"], 1)

    if plan["threads"]:
        got = [None] * len(tasks)

        def body(k):
            def f():
                got[k] = C.Outcome(lambda: call(tasks[k]))
            return f

        def drawer(ops):
            def f():
                for kind, n in ops:
                    foreign(kind, n)
            return f
        fns = [body(k) for k in range(len(tasks))] + [drawer(o) for o in plan["bg"] if o]
        with Sim(plan["sched"]["switches"], plan["sched"]["picks"]) as sim:
            sim.run_threads(fns)
        ctx.interleaving(sim.log)
        ctx.fault("preemption between threads", sim.stats.get("preemptions", 0))
        ctx.fault("foreign draws on another thread", sum(len(o) for o in plan["bg"]))
        for k in range(len(tasks)):
            judge(k, got[k], "on a thread beside %s" % [t["comp"] for t in tasks])
        ctx.nontrivial = sim.stats.get("preemptions", 0) > 0
    else:
        dirty = False
        objs = {}
        for op in plan["ops"]:
            if op[0] == "foreign":
                foreign(op[1], op[2])
                ctx.fault("foreign draws: " + op[1])
                dirty = True
                continue
            t = tasks[op[1]]
            obj = None
            if plan["reuse"] and t["comp"] in ("level", "levelm", "trend", "arima"):
                from kats.utils.simulator import Simulator
                obj = objs.setdefault(t["n"], Simulator(n=t["n"], freq="D", start="2021-01-04"))
            if op[0] == "abort":
                with crash_at(op[2], InjectedError) as c:
                    C.Outcome(lambda: call(t, obj))
                if c.where:
                    ctx.fault("call aborted")
                    dirty = True
                continue
            judge(op[1], C.Outcome(lambda: call(t, obj)), "after %s" % (plan["ops"][:plan["ops"].index(op)],))
            ctx.nontrivial = ctx.nontrivial or dirty
            dirty = True
        ctx.interleaving([op for op in plan["ops"]])
    ctx.sim_seconds += sum(t.get("n", 0) for t in tasks) * 86400

"""C19: forecasting models do not interfere through shared inputs or earlier calls."""
import hashlib

import numpy as np
import pandas as pd

from .. import common as C
from ..sim import InjectedError, Sim, crash_at, gen_schedule

ID = "C19"
LEVEL = "exploration"
RUNS = {"quick": 1500, "thorough": 60000}
CAP = {"quick": 38, "thorough": 1500}
RULE = ("A run draws one to three series, one to four parameter objects and two to four models that share them, and a program per "
        "model (fit, forecasts with different horizons, history and frequency, writes into returned forecasts, calls aborted at a "
        "chosen source line, invalid calls, refits). The programs are interleaved step by step by the seeded scheduler, or run on "
        "simulated threads. Every forecast is compared with that of a fresh model on fresh copies of the data and parameters, and "
        "the shared objects with their initial contents. Non-trivial: two models share an object and at least three forecasts were "
        "compared. Distinct by event log.")
INTER = "hash of the order of operations (sequential) or the scheduling decisions (threads)"
REAL = ["LinearModel, QuadraticModel, HoltWintersModel, ThetaModel, ARIMAModel, SARIMAModel, HarmonicRegressionModel, STLFModel, SimpleHeuristicModel, ProphetModel, VARModel, BayesianVAR, MLARModel, TemporalHierarchicalModel", "statsmodels, prophet (Stan), lightgbm"]
STUB = ["thread scheduling", "exceptions injected at kats source lines"]
ASSUMPTIONS = ["MLARModel trains but cannot forecast on this interpreter (lightgbm's predict fails under PyPy): for it only the caller's data and parameters are judged", "threads switch at source lines of kats code", "Prophet draws its intervals at random: its forecast bounds are compared only when a seed is given and nothing else runs at the same time"]

KINDS = ["linear", "quadratic", "hw", "theta", "arima", "sarima", "harmonic", "stlf", "simple", "prophet", "var", "bvar", "mlar", "thm"]
MULTI = {"var", "bvar"}


def gen_params(r, kind):
    if kind in ("linear", "quadratic"):
        return {"alpha": r.choice([0.05, 0.2])}
    if kind == "hw":
        s = r.choice([None, "add"])
        return {"trend": r.choice(["add", None]), "damped": False, "seasonal": s, "seasonal_periods": 7 if s else None}
    if kind == "theta":
        return {"m": r.choice([1, 7])}
    if kind == "arima":
        return {"p": r.choice([0, 1]), "d": r.choice([0, 1]), "q": r.choice([0, 1])}
    if kind == "sarima":
        return {"p": r.choice([0, 1]), "d": 1, "q": r.choice([0, 1]), "seasonal_order": r.choice([[0, 0, 0, 0], [1, 0, 0, 7]]), "exog": r.choice([None, None, 5])}
    if kind == "harmonic":
        return {"period": r.choice([24.0, 168.0]), "fourier_order": r.choice([1, 2, 3])}
    if kind == "stlf":
        m = r.choice(["theta", "linear", "quadratic", "simple", "prophet"])
        return {"method": m, "m": 7, "decomposition": r.choice(["additive", "multiplicative"])}
    if kind == "simple":
        return {"method": r.choice(["last", "mean", "median", "percentile"]), "quantile": r.choice([10, 95])}
    if kind == "prophet":
        c = {"n_changepoints": r.choice([3, 5]), "weekly_seasonality": r.choice([True, False]), "interval_width": r.choice([0.8, 0.5])}
        if r.random() < 0.4:
            c.update(growth="logistic", cap=r.choice([150, 200, 400]), floor=r.choice([None, 0, 10]))
        return c
    if kind == "var":
        return {} if r.random() < 0.6 else {"maxlags": r.choice([1, 2, 3])}
    if kind == "bvar":
        return {"p": r.choice([1, 2])}
    if kind == "mlar":
        return {"horizon": r.choice([2, 3]), "input_window": 5, "n_estimators": 5, "min_data_in_leaf": 2, "sub_div": r.choice(["div", "sub"]),
                "norm_sum_stat": r.choice(["mean", "median", "max", "std", "z-score"]), "use_sum_stats": r.random() < 0.5, "random_state": 3,
                "calendar_features": r.choice([None, "auto"])}
    if kind == "thm":
        return {"top": r.choice(["linear", "theta"]), "low": r.choice(["linear", "quadratic", "theta"]), "k": r.choice([2, 3])}
    raise KeyError(kind)


def gen(r, i, tier):
    if r.random() < 0.5:
        k = r.choice(KINDS)
        pool = [{"kind": k, "kw": gen_params(r, k)} for _ in range(r.choice([1, 1, 2]))]
    else:
        pool = []
        for _ in range(r.randint(2, 4)):
            k = r.choice(KINDS)
            pool.append({"kind": k, "kw": gen_params(r, k)})
    data = []
    for _ in range(r.randint(1, 3)):
        data.append({"seed": r.randint(0, 10**9), "n": r.randint(24, 60), "shape": r.choice(["noise", "trend", "season", "step", "rw"]),
                     "freq": r.choice(["D", "D", "H", "W"])})
    threads = r.random() < 0.3
    actors = []
    for _ in range(r.randint(2, 4)):
        ops = [["fit"]]
        for _ in range(r.randint(2, 5)):
            o = r.choice(["predict", "predict", "predict", "scribble", "abort_predict", "abort_fit", "bad", "refit"])
            if o in ("predict", "abort_predict"):
                ops.append([o, r.choice([1, 2, 3, 5, 8, 20]), r.random() < 0.3, r.random() < 0.15, r.choice([1, 2, 5, 10, 20, 40])])
            elif o == "abort_fit":
                ops.append([o, r.choice([1, 3, 10, 30, 60])])
                ops.append(["fit"])
            else:
                ops.append([o, r.randint(0, 5)])
        ops.append(["predict", r.choice([1, 3, 5]), r.random() < 0.3, False, 0])
        actors.append({"p": r.randrange(len(pool)), "d": r.randrange(len(data)), "ops": ops})
    order = [r.randrange(len(actors)) for _ in range(60)]
    return {"pool": pool, "data": data, "actors": actors, "order": order, "threads": threads, "own_data": r.random() < 0.15, "sched": gen_schedule(r, 400)}


def series(d, kind):
    cols = 2 if kind in MULTI else 0
    return C.series(d["seed"], d["n"], d["shape"], d["freq"], cols=cols)


def params(kind, kw, n):
    kw = dict(kw)
    if kind == "linear":
        from kats.models.linear_model import LinearModelParams as P
    elif kind == "quadratic":
        from kats.models.quadratic_model import QuadraticModelParams as P
    elif kind == "hw":
        from kats.models.holtwinters import HoltWintersParams as P
    elif kind == "theta":
        from kats.models.theta import ThetaParams as P
    elif kind == "arima":
        from kats.models.arima import ARIMAParams as P
    elif kind == "sarima":
        from kats.models.sarima import SARIMAParams as P
        kw["seasonal_order"] = tuple(kw["seasonal_order"])
        kw["exog"] = None       # (see exog())
    elif kind == "harmonic":
        from kats.models.harmonic_regression import HarmonicRegressionParams as P
    elif kind == "stlf":
        from kats.models.stlf import STLFParams as P
        sub = {"theta": "theta", "linear": "linear", "quadratic": "quadratic", "simple": "simple", "prophet": "prophet"}[kw["method"]]
        kw["method_params"] = params(sub, {"prophet": {"n_changepoints": 3}, "theta": {"m": 1}}.get(sub, {}), n)
    elif kind == "simple":
        from kats.models.simple_heuristic_model import SimpleHeuristicModelParams as P
    elif kind == "prophet":
        from kats.models.prophet import ProphetParams as P
    elif kind == "var":
        from kats.models.var import VARParams as P
    elif kind == "bvar":
        from kats.models.bayesian_var import BayesianVARParams as P
    elif kind == "mlar":
        from kats.models.ml_ar import MLARParams as P
        kw.update(target_variable="value", freq=None)
    elif kind == "thm":
        from kats.models.reconciliation.base_models import BaseTHModel
        a, b = params(kw["top"], {}, n), params(kw["low"], {}, n)
        return [BaseTHModel(level=kw["k"], model_name=kw["top"], model_params=a), BaseTHModel(level=1, model_name=kw["low"], model_params=b)]
    return P(**kw)


class Runner:
    """One forecasting model and uniform calls on it."""

    def __init__(self, kind, ts, p, data, frames):
        self.kind, self.ts, self.p, self.d, self.frames, self.m = kind, ts, p, data, frames, None
        if kind not in ("mlar",):
            self.m = self.new()

    def new(self):
        k, ts, p = self.kind, self.ts, self.p
        if k == "linear":
            from kats.models.linear_model import LinearModel as M
        elif k == "quadratic":
            from kats.models.quadratic_model import QuadraticModel as M
        elif k == "hw":
            from kats.models.holtwinters import HoltWintersModel as M
        elif k == "theta":
            from kats.models.theta import ThetaModel as M
        elif k == "arima":
            from kats.models.arima import ARIMAModel as M
        elif k == "sarima":
            from kats.models.sarima import SARIMAModel as M
        elif k == "harmonic":
            from kats.models.harmonic_regression import HarmonicRegressionModel as M
        elif k == "stlf":
            from kats.models.stlf import STLFModel as M
        elif k == "simple":
            from kats.models.simple_heuristic_model import SimpleHeuristicModel as M
        elif k == "prophet":
            from kats.models.prophet import ProphetModel as M
        elif k == "var":
            from kats.models.var import VARModel as M
        elif k == "bvar":
            from kats.models.bayesian_var import BayesianVAR as M
        elif k == "mlar":
            from kats.models.ml_ar import MLARModel
            return MLARModel(p)
        elif k == "thm":
            from kats.models.reconciliation.thm import TemporalHierarchicalModel
            return TemporalHierarchicalModel(ts, p)
        return M(data=ts, params=p)

    def fit(self):
        if self.m is None:
            self.m = self.new()
        if self.kind == "mlar":
            return self.m.train([self.ts])
        return self.m.fit()

    def predict(self, steps, hist, freq, frame):
        k, kw = self.kind, {}
        if k == "harmonic":
            f = self.frames["dates:%s:%d" % (self.d["freq"], steps)]
            return self.m.predict(f)
        if k == "thm":
            return self.m.predict(steps=steps)
        if k == "mlar":
            return self.m.predict(steps=steps)
        if freq and k not in ("bvar",):
            kw["freq"] = "D"
        if k == "prophet":
            kw["seed"] = 7
            if frame and not hist:
                kw["future"] = self.frames["future:%s:%d" % (self.d["freq"], self.d["n"])]
                steps = min(steps, 20)
        return self.m.predict(steps=steps, include_history=hist, **kw)

    def bad(self, x):
        if self.kind in ("mlar", "thm", "harmonic"):
            return self.m.predict("x")
        if x % 3 == 0:
            return self.m.predict(steps=-2)
        if x % 3 == 1:
            return self.m.predict(steps=3, freq="no such frequency")
        return self.m.predict(steps=None)


def canon(v, bounds=True):
    """A forecast as comparable plain data."""
    if isinstance(v, dict):
        return {str(k): canon(x, bounds) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [canon(x, bounds) for x in v]
    if hasattr(v, "to_dataframe"):
        v = v.to_dataframe()
    if isinstance(v, pd.DataFrame):
        out = {}
        for c in v.columns:
            if not bounds and c in ("fcst_lower", "fcst_upper"):
                continue
            a = v[c]
            if str(a.dtype).startswith("datetime"):
                out[str(c)] = ("t", [int(x) for x in pd.DatetimeIndex(a).asi8])
            else:
                try:
                    out[str(c)] = ("v", np.array(a.values, dtype=float))
                except (TypeError, ValueError):
                    out[str(c)] = ("o", [str(x) for x in a])
        return out
    if isinstance(v, np.ndarray):
        return ("v", np.array(v, dtype=float))
    return ("o", str(v))


def fdiff(a, b, where=""):
    if isinstance(a, dict) and isinstance(b, dict):
        if sorted(a) != sorted(b):
            return "%s: %s and %s" % (where, sorted(a), sorted(b))
        for k in sorted(a):
            d = fdiff(a[k], b[k], where + "/" + k)
            if d:
                return d
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return "%s: %d and %d items" % (where, len(a), len(b))
        for x, y in zip(a, b):
            d = fdiff(x, y, where)
            if d:
                return d
        return None
    if a[0] != b[0]:
        return "%s: kinds differ" % where
    if a[0] == "v":
        return None if C.same(a[1], b[1], 1e-7, 1e-7) else "%s: %s, alone %s" % (where, np.ravel(a[1])[:5], np.ravel(b[1])[:5])
    return None if a[1] == b[1] else "%s: %s, alone %s" % (where, a[1][:4], b[1][:4])


def obj_fp(o, depth=0):
    """Fingerprint of a parameter object."""
    if isinstance(o, np.ndarray):
        return ("a", hashlib.sha256(np.ascontiguousarray(o).tobytes()).hexdigest()[:12])
    if isinstance(o, dict):
        return sorted((str(k), str(obj_fp(v, depth + 1))) for k, v in o.items())
    if isinstance(o, (set, frozenset)):
        return sorted(map(str, o))
    if isinstance(o, (list, tuple)):
        return [obj_fp(x, depth + 1) for x in o]
    if hasattr(o, "__dict__") and depth < 4 and type(o).__module__.startswith("kats"):
        d = dict(vars(o))
        for s in getattr(type(o), "__slots__", ()):
            if hasattr(o, s):
                d[s] = getattr(o, s)
        return obj_fp(d, depth + 1)
    return repr(o)


def ts_state(ts):
    return (C.ts_fp(ts), str(ts.min), str(ts.max), getattr(ts.value, "name", None), str(list(ts.value.index[:3])))


def mkframes(plan):
    out = {}
    for d in plan["data"]:
        last = pd.DatetimeIndex(C.times(d["n"], d["freq"]))[-1]
        fut = pd.date_range(last, periods=21, freq="W-MON" if d["freq"] == "W" else d["freq"])[1:]
        if d["freq"] == "W":
            fut = pd.DatetimeIndex([last + pd.Timedelta(days=7 * (k + 1)) for k in range(20)])
        out["future:%s:%d" % (d["freq"], d["n"])] = pd.DataFrame({"ds": fut})
        for s in (1, 2, 3, 5, 8, 20):
            out["dates:%s:%d" % (d["freq"], s)] = C.times(s, d["freq"], start="2021-06-07")
    return out


def frame_state(f):
    return (C.frame_fp(f), list(f.columns)) if isinstance(f, pd.DataFrame) else C.frame_fp(pd.DataFrame({"x": f}))


def run(plan, ctx):
    frames = mkframes(plan)
    fstate = {k: frame_state(f) for k, f in frames.items()}
    shared_p = [params(p["kind"], p["kw"], 0) for p in plan["pool"]]
    p_state = [obj_fp(p) for p in shared_p]
    shared_d, d_state = {}, {}
    ref = {}
    threads = plan["threads"]

    def data_of(a):
        kind = plan["pool"][a["p"]]["kind"]
        key = (a["d"], kind in MULTI)
        if key not in shared_d:
            shared_d[key] = series(plan["data"][a["d"]], kind)
            d_state[key] = ts_state(shared_d[key])
        return shared_d[key]

    def alone(a, op):
        """What a fresh model says with nothing else around."""
        steps, hist, freq, frame = op[1], op[2], op[3], op[4] % 2 == 1
        key = (a["p"], a["d"], steps, hist, freq, frame)
        if key not in ref:
            spec, d = plan["pool"][a["p"]], plan["data"][a["d"]]

            def go():
                m = Runner(spec["kind"], series(d, spec["kind"]), params(spec["kind"], spec["kw"], d["n"]), d, mkframes(plan))
                m.fit()
                return canon(m.predict(steps, hist, freq, frame))
            ref[key] = C.Outcome(go)
        return ref[key]

    states = []
    for a in plan["actors"]:
        spec, d = plan["pool"][a["p"]], plan["data"][a["d"]]
        ts = data_of(a) if not plan["own_data"] else series(d, spec["kind"])
        r = C.Outcome(lambda: Runner(spec["kind"], ts, shared_p[a["p"]], d, frames))
        states.append({"m": r.value, "init": r, "fitted": False, "last": None, "got": []})
        for op in a["ops"]:
            if op[0] == "predict":
                alone(a, op)

    def step(i, op, quiet=False):
        a, s = plan["actors"][i], states[i]
        spec = plan["pool"][a["p"]]
        kind, m = spec["kind"], s["m"]
        name = "model %d (%s %s)" % (i, kind, spec["kw"])
        if m is None:
            return
        if op[0] in ("fit", "refit"):
            r = C.Outcome(m.fit)
            s["fitted"] = r.ok
            s["fiterr"] = r
            return
        if op[0] == "abort_fit":
            if threads:
                return
            with crash_at(op[1], InjectedError) as c:
                r = C.Outcome(m.fit)
            if c.where:
                ctx.fault("fit aborted")
                s["fitted"] = False
            else:
                s["fitted"] = r.ok
            return
        if not s["fitted"]:
            return
        if op[0] == "bad":
            r = C.Outcome(lambda: m.bad(op[1]))
            if not r.ok:
                ctx.fault("call with invalid arguments")
            return
        if op[0] == "scribble":
            f = s["last"]
            fs = list(f.values()) if isinstance(f, dict) else [f]
            for x in fs:
                if isinstance(x, pd.DataFrame) and len(x):
                    for c in x.columns:
                        if not str(x[c].dtype).startswith("datetime") and str(x[c].dtype) != "object":
                            x[c].values[:] = -1
                            x.loc[:, c] = -1
                    ctx.fault("caller wrote into a returned forecast")
            return
        steps, hist, freq, frame = op[1], op[2], op[3], op[4] % 2 == 1
        if op[0] == "abort_predict":
            if threads:
                return
            with crash_at(op[4], InjectedError) as c:
                r = C.Outcome(lambda: m.predict(steps, hist, freq, frame))
            if c.where:
                ctx.fault("forecast aborted")
            return
        r = C.Outcome(lambda: m.predict(steps, hist, freq, frame))
        s["last"] = r.value
        s["got"].append((op, C.Outcome(lambda: canon(r.value)) if r.ok else r, name))

    def judge():
        n = 0
        for a, s in zip(plan["actors"], states):
            spec = plan["pool"][a["p"]]
            bounds = not (threads and (spec["kind"] == "prophet" or spec["kw"].get("method") == "prophet")) and not spec["kw"].get("method") == "prophet"
            for op, got, name in s["got"]:
                want = alone(a, op)
                what = "%s, predict(steps=%s, include_history=%s%s)" % (name, op[1], op[2], ", freq" if op[3] else "")
                if want.ok != got.ok:
                    ctx.fail("outcome:" + spec["kind"], "%s: %s, alone %s" % (what, got, want))
                    continue
                if not want.ok:
                    ctx.probe("forecast refused", 1)
                    continue
                d = fdiff(strip(got.value, bounds), strip(want.value, bounds))
                ctx.check(d is None, "forecast:" + spec["kind"], lambda: "%s gave %s" % (what, d))
                n += 1
                ctx.event(what[:60], repr(strip(got.value, bounds))[:200])
            s["got"] = []
        return n

    def shared_ok(when):
        for (k, multi), ts in shared_d.items():
            ctx.check(ts_state(ts) == d_state[(k, multi)], "data-changed", "%s: the caller's series %d is not what it was" % (when, k))
        for j, p in enumerate(shared_p):
            now = obj_fp(p)
            ctx.check(now == p_state[j], "params-changed:" + plan["pool"][j]["kind"], lambda: "%s: the caller's %s parameters changed: %s" % (
                when, plan["pool"][j]["kind"], [x for x in zip(p_state[j], now) if x[0] != x[1]][:3] if len(now) == len(p_state[j]) else "%s -> %s" % (p_state[j], now)))
        for k, f in frames.items():
            ctx.check(frame_state(f) == fstate[k], "frame-changed", "%s: the caller's %s is not what it was" % (when, k))

    n = 0
    if threads:
        def body(i):
            def f():
                for op in plan["actors"][i]["ops"]:
                    step(i, op)
            return f
        with Sim(plan["sched"]["switches"], plan["sched"]["picks"]) as sim:
            sim.run_threads([body(i) for i in range(len(states))])
        ctx.interleaving(sim.log)
        ctx.fault("preemption between threads", sim.stats.get("preemptions", 0))
        n += judge()
        shared_ok("after the threads")
    else:
        left = [list(a["ops"]) for a in plan["actors"]]
        log = []
        turns = list(plan["order"])
        while any(left):
            i = turns.pop(0) % len(left) if turns else 0
            if not left[i]:
                i = next(j for j in range(len(left)) if left[j])
            op = left[i].pop(0)
            log.append((i, str(op)))
            step(i, op)
            n += judge()
            shared_ok("after model %d (%s) %s" % (i, plan["pool"][plan["actors"][i]["p"]]["kind"], op))
        ctx.interleaving(log)
    for d in plan["data"]:
        ctx.sim_seconds += d["n"] * {"D": 86400, "H": 3600, "W": 604800}[d["freq"]]
    ctx.probe("forecasts compared", n)
    ctx.probe("models of kind " + ",".join(sorted({plan["pool"][a["p"]]["kind"] for a in plan["actors"]}))[:60], 1)
    ctx.nontrivial = n >= 3


def strip(v, bounds):
    if bounds:
        return v
    if isinstance(v, dict):
        return {k: strip(x, bounds) for k, x in v.items() if k not in ("fcst_lower", "fcst_upper")}
    return v

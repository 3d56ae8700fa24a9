"""Backtest workloads shared by C07, C08, C09 and C10."""
from __future__ import annotations

from functools import partial

import numpy as np
import pandas as pd

from . import common as C
from . import toys

ERRS = ["mape", "smape", "mae", "mse", "rmse"]
STD = ["simple", "ro", "ro", "ro", "exp", "rw", "fixed", "cv", "cv"]


def gen_std(r, kinds=STD, models=("toy",)):
    kind = r.choice(kinds)
    n = r.randint(24, 90)
    p = {"kind": kind, "n": n, "shape": r.choice(["noise", "trend", "season", "rw", "step"]),
         "freq": r.choice(["D", "D", "H", "W"]), "model": r.choice(models),
         "errs": r.sample(ERRS, r.randint(1, 4))}
    if kind in ("simple",):
        a = r.choice([33, 40, 50, 60, 66.6, 75]); p["a"] = a
        p["b"] = r.choice([5, 10, 20, 25, 100 - a])
    elif kind == "fixed":
        a = r.choice([33, 40, 50, 55]); p["a"] = a
        p["b"] = r.choice([7, 10, 20, 25]); p["w"] = r.choice([0, 5, 10, 13, 20])
    else:
        p["a"] = r.choice([33, 40, 45, 50, 51.5])
        p["b"] = r.choice([6, 10, 12.5, 20, 25])
        p["k"] = r.choice([1, 2, 2, 3, 3, 4, 5, 6])
        p["const"] = r.random() < 0.5
    return p


def fold_count(p):
    return p.get("k", 1)


def make_std(p, data, multi, params=None, model_class=None):
    from kats.utils import backtesters as B
    cls, mk, _ = toys.series_model(p["model"])
    cls = model_class or cls
    params = params if params is not None else mk()
    kind = p["kind"]
    e = list(p["errs"])
    if kind == "simple":
        return B.BackTesterSimple(e, data, params, p["a"], p["b"], cls)
    if kind == "fixed":
        return B.BackTesterFixedWindow(e, data, params, p["a"], p["b"], p["w"], cls)
    if kind == "ro":
        return B.BackTesterRollingOrigin(e, data, params, p["a"], p["b"], p["k"], cls,
                                         constant_train_size=p["const"], multi=multi)
    if kind == "exp":
        return B.BackTesterExpandingWindow(e, data, params, p["a"], 100 - p["b"], p["b"], p["k"], cls, multi=multi)
    if kind == "rw":
        return B.BackTesterRollingWindow(e, data, params, p["a"], p["b"], p["k"], cls, multi=multi)
    if kind == "cv":
        return B.CrossValidation(e, data, params, p["a"], p["b"], p["k"], cls,
                                 constant_train_size=p["const"], multi=multi)
    raise KeyError(kind)


def go(bt):
    if hasattr(bt, "run_cv"):
        bt.run_cv()
    else:
        bt.run_backtest()
    return bt


def std_view(bt):
    """Everything a user reads off a finished backtest."""
    return {
        "results": [(np.array(a, dtype=float), np.array(t, dtype=float), np.array(f, dtype=float))
                    for a, t, _, f in bt.results],
        "raw": [np.array(x, dtype=float) for x in bt.raw_errors],
        "errors": {k: float(v) for k, v in bt.errors.items()},
    }


def view_diff(a, b):
    if len(a["results"]) != len(b["results"]):
        return "number of folds %d != %d" % (len(a["results"]), len(b["results"]))
    for i, (x, y) in enumerate(zip(a["results"], b["results"])):
        for nm, u, v in zip(("training data", "truth", "forecast"), x, y):
            if not C.same(u, v):
                return "fold %d %s: %s != %s" % (i, nm, u[:6], v[:6])
    if len(a["raw"]) != len(b["raw"]):
        return "number of raw errors %d != %d" % (len(a["raw"]), len(b["raw"]))
    for i, (u, v) in enumerate(zip(a["raw"], b["raw"])):
        if not C.same(u, v):
            return "raw errors of fold %d" % i
    if set(a["errors"]) != set(b["errors"]):
        return "error names"
    for k in a["errors"]:
        if not C.same(a["errors"][k], b["errors"][k]):
            return "error %s: %r != %r" % (k, a["errors"][k], b["errors"][k])
    return None


def std_layout(p):
    """Independent statement of the documented folds: train size, test size, gap and the
    slide of every fold (open, None, between the first and the last)."""
    n = p["n"]
    size = lambda pc: int(np.floor(n * pc / 100))
    a, b = size(p["a"]), size(p["b"])
    kind = p["kind"]
    if kind == "fixed":
        w = size(p["w"])
        return a, b, w, [0]
    if kind == "simple" or p["k"] == 1:
        return a, b, 0, [0]
    return a, b, 0, [0] + [None] * (p["k"] - 2) + [n - a - b]


def check_self_consistent(ctx, p, data, view, params_factory):
    """Each fold's numbers agree with each other and with a model fitted alone on that fold."""
    from kats.consts import TimeSeriesData
    from kats.metrics.metrics import core_metric
    cls, mk, _ = toys.series_model(p["model"])
    allv = np.asarray(data.value.values, dtype=float)
    tot = sum(t.size for _, t, _ in view["results"])
    errs = {e: 0.0 for e in p["errs"]}
    for i, (a, t, f) in enumerate(view["results"]):
        ctx.check(t.size == f.size, "fold-lengths", "fold %d" % i)
        ctx.check(C.same(view["raw"][i], t - f), "raw-errors", "fold %d is not truth minus forecast" % i)
        for e in errs:
            errs[e] += core_metric(e)(t, f) * (t.size / tot)
        hit = [s for s in range(len(allv) - a.size + 1) if C.same(allv[s:s + a.size], a)]
        ctx.check(bool(hit), "training-data", "fold %d trained on points that are not a range of the data" % i)
        s = hit[0]
        th = [x for x in range(s + a.size, len(allv) - t.size + 1) if C.same(allv[x:x + t.size], t)]
        ctx.check(bool(th), "test-data", "fold %d judged on points that do not follow its training range" % i)
        gap = th[0] - s - a.size
        m = cls(data=TimeSeriesData(time=data.time[s:s + a.size].reset_index(drop=True),
                                    value=data.value[s:s + a.size].reset_index(drop=True)), params=params_factory())
        m.fit()
        ref = np.asarray(m.predict(steps=t.size + gap, freq=pd.infer_freq(data.time))["fcst"], dtype=float)[gap:]
        ctx.check(C.same(f, ref, 1e-7, 1e-7), "fold-forecast",
                  "fold %d: %s, alone %s" % (i, f[:5], ref[:5]))
    for e in errs:
        ctx.check(C.same(view["errors"][e], errs[e], 1e-9, 1e-9), "summary-error",
                  "%s %r, weighted average of the folds %r" % (e, view["errors"][e], errs[e]))


# ---------------------------------------------------------------- generic backtester
def gen_generic(r, models=("toy",)):
    part = r.choice(["simple", "rolling", "rolling", "rolling"])
    p = {"kind": "generic", "n": r.randint(30, 80), "part": part, "model": r.choice(models),
         "shape": r.choice(["noise", "trend", "rw", "step"]),
         "errs": r.sample(ERRS, r.randint(1, 3)), "summ": r.choice(["average", "weighted"]),
         "flavour": r.choice(["ksb", "ksb", "one", "dict", "list"]),
         "cores": r.choice([1, 2, 4, 8, 8, 16]), "max_core": r.choice([None, 1, 2, 3, 5]),
         "callable_scorer": r.random() < 0.3, "series": r.randint(2, 4),
         "dp_multi": r.random() < 0.5,
         "escore": r.choice([None, None, 1000.0])}
    if part == "simple":
        p["dp"] = {"train_frac": r.choice([0.5, 0.7]), "test_size": r.randint(2, 6)}
    else:
        p["dp"] = {"start_train_frac": r.choice([0.4, 0.5]), "test_frac": r.choice([0.1, 0.2]),
                   "window_frac": 0.0 if p["flavour"] == "ksb" else r.choice([0.0, 0.1]),
                   "expanding_steps": r.randint(1, 6), "constant_train_size": r.random() < 0.5}
    return p


def generic_data(p, seed):
    one = C.series(seed, p["n"], p["shape"])
    if p["flavour"] in ("ksb", "one"):
        return one
    many = [C.series(seed + 31 * j, p["n"] + j, p["shape"]) for j in range(p["series"])]
    if p["flavour"] == "list":
        return many
    return {"s%d" % (9 - j): m for j, m in enumerate(many)}


def make_dp(p, multi):
    from kats.utils import datapartition as D
    cls = D.SimpleDataPartition if p["part"] == "simple" else D.RollingOriginDataParition
    return cls(multi=multi, **p["dp"])


def forecaster(train, test, model="toy", fail=None):
    """A forecaster over one or many series: fits each series on its own."""
    cls, mk, _ = toys.series_model(model)
    if isinstance(train, dict):
        items = [(k, train[k], test[k]) for k in train]
    elif isinstance(train, list):
        items = [(k, a, b) for k, (a, b) in enumerate(zip(train, test))]
    else:
        items = [("x", train, test)]
    out = []
    for k, a, b in items:
        pr = mk()
        if fail:
            pr.fail = fail
        m = cls(data=a, params=pr)
        m.fit()
        gap = int(round((b.time.iloc[0] - a.time.iloc[-1]) / pd.Timedelta(days=1))) - 1
        f = m.predict(steps=len(b) + gap, freq="D")
        f = f.iloc[gap:].reset_index(drop=True)
        f["y"] = np.asarray(b.value.values, dtype=float)
        f["key"] = str(k)
        out.append(f)
    return pd.concat(out, ignore_index=True)


class FnScorer:
    def __init__(self, names):
        self.names = names

    def __call__(self, result):
        from kats.metrics.metrics import core_metric
        y, f = result["y"].values, result["fcst"].values
        return {n: core_metric(n)(y, f) for n in self.names}


def make_generic(p, multi, fail=None, params=None):
    from kats.utils import backtesters as B
    cls, mk, _ = toys.series_model(p["model"])
    sc = FnScorer(list(p["errs"])) if p["callable_scorer"] else list(p["errs"])
    kw = dict(summarizer=p["summ"], multi=multi, max_core=p["max_core"])
    if p["escore"] is not None:
        kw["error_score"] = p["escore"]
    if p["flavour"] == "ksb":
        pr = params if params is not None else mk()
        if fail:
            pr.fail = fail
        return B.KatsSimpleBacktester(datapartition=make_dp(p, p["dp_multi"] and multi), scorer=sc,
                                      model_params=pr, model_class=cls, **kw)
    return B.GenericBacktester(datapartition=make_dp(p, p["dp_multi"] and multi), scorer=sc,
                               forecaster=partial(forecaster, model=p["model"], fail=fail), **kw)


def generic_view(bt):
    res = bt.get_errors()
    return {"raw": res.raw_errors, "folds": [dict(x) for x in res.fold_errors],
            "summary": dict(res.summary_errors)}


def generic_diff(a, b):
    if len(a["raw"]) != len(b["raw"]) or len(a["folds"]) != len(b["folds"]):
        return "number of folds"
    for i, (x, y) in enumerate(zip(a["raw"], b["raw"])):
        if (x is None) != (y is None):
            return "raw result of fold %d present in one only" % i
        if x is not None and (list(x.columns) != list(y.columns) or not C.same(
                x[["fcst", "y"]].values, y[["fcst", "y"]].values, 1e-7, 1e-7)
                or ("key" in x.columns and list(x["key"]) != list(y["key"]))):
            return "raw result of fold %d" % i
    for i, (x, y) in enumerate(zip(a["folds"], b["folds"])):
        if set(x) != set(y) or not all(C.same(x[k], y[k], 1e-7, 1e-7) for k in x):
            return "errors of fold %d: %s != %s" % (i, x, y)
    if set(a["summary"]) != set(b["summary"]) or not all(
            C.same(a["summary"][k], b["summary"][k], 1e-7, 1e-7) for k in a["summary"]):
        return "summary %s != %s" % (a["summary"], b["summary"])
    return None


def generic_reference(p, data, failing=()):
    """Folds done one by one, without the backtester.  failing: fold numbers that fail."""
    from kats.metrics.metrics import core_metric
    folds = make_dp(p, False).split(data)
    raw, errs, w = [], [], []
    esc = float("nan") if p["escore"] is None else p["escore"]
    for i, f in enumerate(folds):
        sizes = [len(x) for x in (f.test.values() if isinstance(f.test, dict) else
                                  f.test if isinstance(f.test, list) else [f.test])]
        w.append(sum(sizes))
        if i in failing:
            raw.append(None)
            errs.append({e: esc for e in p["errs"]})
            continue
        r = forecaster(f.train, f.test, p["model"])
        if p["flavour"] == "ksb":
            r = r.drop(columns="key")
        raw.append(r)
        errs.append({e: core_metric(e)(r["y"].values, r["fcst"].values) for e in p["errs"]})
    summ = {}
    for e in p["errs"]:
        x = np.array([q[e] for q in errs], dtype=float)
        ww = np.array(w, dtype=float) if p["summ"] == "weighted" else np.ones(len(x))
        ok = ~np.isnan(x)
        summ[e] = float((x[ok] * ww[ok]).sum() / ww[ok].sum()) if ok.any() else float("nan")
    return {"raw": raw, "folds": errs, "summary": summ}

"""Ensemble workloads shared by C10 and C11."""
from __future__ import annotations

import sys

import numpy as np
import pandas as pd

from . import common as C
from . import toys

EPS = sys.float_info.epsilon
KINDS = ["median", "weighted", "kfit", "kforecast"]


def member(name, var):
    """(model class, params) of a member; var picks between parameter sets."""
    from kats.models.linear_model import LinearModel, LinearModelParams
    from kats.models.quadratic_model import QuadraticModel, QuadraticModelParams
    from kats.models.theta import ThetaModel, ThetaParams
    from kats.models.holtwinters import HoltWintersModel, HoltWintersParams
    al = [0.05, 0.2][var % 2]
    return {
        "linear": (LinearModel, lambda: LinearModelParams(alpha=al)),
        "quadratic": (QuadraticModel, lambda: QuadraticModelParams(alpha=al)),
        "theta": (ThetaModel, lambda: ThetaParams(m=[1, 7][var % 2])),
        "holtwinters": (HoltWintersModel, lambda: HoltWintersParams(trend=["add", None][var % 2])),
        "toya": (toys.FcstToy, lambda: toys.ToyParams(1 + var)),
        "toyb": (toys.FcstToy, lambda: toys.ToyParams(3 - var)),
        "toyc": (toys.FcstToy, lambda: toys.ToyParams(-1 - var)),
    }[name]


def register():
    from kats.models.ensemble import ensemble, kats_ensemble
    for d in (ensemble.BASE_MODELS, kats_ensemble.MODELS):
        for k in ("toya", "toyb", "toyc"):
            d[k] = toys.FcstToy


def gen(r):
    kind = r.choice(KINDS)
    seasonal = kind.startswith("k") and r.random() < 0.3
    names = ["linear", "quadratic", "toya", "toyb", "toyc"]
    if kind.startswith("k"):
        names.append("theta")
    if r.random() < 0.15:
        names.append("holtwinters")
    agg = r.choice(["median", "weightedavg"]) if kind.startswith("k") else None
    if agg == "weightedavg":
        names = [x for x in names if x != "holtwinters"]
    if seasonal and kind == "kfit" and "theta" in names:
        names.remove("theta")
    k = r.randint(1, min(5, len(names)))
    ms = r.sample(names, k)
    if kind.startswith("k") and r.random() < 0.2:
        ms = [x.capitalize() if r.random() < 0.5 else x for x in ms]
    return {"kind": kind, "agg": agg, "members": [[x, r.randint(0, 1)] for x in ms],
            "n": r.randint(40, 80) if not seasonal else 7 * r.randint(8, 12),
            "shape": "season" if seasonal else r.choice(["noise", "trend", "rw"]),
            "seasonal": seasonal, "mult": r.random() < 0.4,
            "steps": [r.randint(1, 20) for _ in range(r.choice([1, 1, 2, 3]))],
            "err": r.choice(["mape", "smape", "mae", "mse", "rmse"]),
            "cores": r.choice([1, 2, 4, 6, 8, 16])}


def data(p):
    ts = C.series(p["seed"], p["n"], p["shape"])
    if p["seasonal"]:
        ts.value = ts.value + 30 * np.sin(2 * np.pi * np.arange(p["n"]) / 7.0) + 40
    return ts


def params(p, fail=None):
    from kats.models.ensemble.ensemble import BaseModelParams, EnsembleParams
    ms = []
    for name, var in p["members"]:
        pr = member(name.lower(), var)[1]()
        if fail is not None and name in fail:
            pr.fail = fail[name]
        ms.append(BaseModelParams(name, pr))
    return EnsembleParams(ms)


def make(p, ts, fail=None):
    from kats.models.ensemble.median_ensemble import MedianEnsembleModel
    from kats.models.ensemble.weighted_avg_ensemble import WeightedAvgEnsemble
    from kats.models.ensemble.kats_ensemble import KatsEnsemble
    ep = params(p, fail)
    if p["kind"] == "median":
        return MedianEnsembleModel(data=ts, params=ep)
    if p["kind"] == "weighted":
        return WeightedAvgEnsemble(ts, ep)
    return KatsEnsemble(ts, {"models": ep, "aggregation": p["agg"],
                             "seasonality_length": 7,
                             "decomposition_method": "multiplicative" if p["mult"] else "additive"})


def go(p, m, steps):
    """[(frame, weights)] for each horizon."""
    out = []
    if p["kind"] in ("median", "weighted"):
        m.fit()
        for s in steps:
            kw = {"err_method": p["err"]} if p["kind"] == "weighted" else {}
            f = m.predict(s, **kw)
            out.append((f, getattr(m, "weights", None)))
        return out
    if p["kind"] == "kfit":
        m.fit(err_method=p["err"])
        for s in steps:
            m.predict(s)
            out.append((m.aggregate(), m.weights))
        return out
    for s in steps:
        m.forecast(s)
        out.append((m.aggregate(), m.weights))
    return out


def one_error(cls, pr, ts, err):
    from kats.utils.backtesters import BackTesterSimple
    b = BackTesterSimple([err], ts, pr, 80, 20, cls)
    b.run_backtest()
    return b.get_error_value(err)


def reference(p, ts, steps):
    """Every member fitted and backtested alone, one after another."""
    from kats.models.ensemble.kats_ensemble import KatsEnsemble
    kats = p["kind"].startswith("k")
    seasonal = kats and KatsEnsemble.seasonality_detector(ts)
    mode = "multiplicative" if p["mult"] else "additive"
    fit_on = ts
    if seasonal:
        sea, fit_on = KatsEnsemble.deseasonalize(ts, mode)
    err = p["err"] if p["kind"] != "kforecast" else "mape"
    fitted, errs = [], []
    for name, var in p["members"]:
        cls, mk = member(name.lower(), var)
        m = cls(data=fit_on, params=mk())
        m.fit()
        fitted.append((name, m, seasonal))
        if p["kind"] == "weighted" or p["agg"] == "weightedavg":
            # the forecast path judges every member on the whole series too
            errs.append((name, one_error(cls, mk(), ts, err)))
    if seasonal and p["kind"] == "kforecast":
        for name, var in p["members"]:
            if name.lower() == "theta":
                cls, mk = member("theta", var)
                m = cls(data=ts, params=mk())
                m.fit()
                fitted.append((name + "_smodel", m, False))
                if p["agg"] == "weightedavg":
                    errs.append((name + "_smodel", one_error(cls, mk(), ts, err)))
    w = None
    if errs:
        inv = {k: 1 / (e + EPS) for k, e in errs}
        w = {k: v / sum(inv.values()) for k, v in inv.items()}
    out = []
    for s in steps:
        cols = {}
        for name, m, add in fitted:
            f = m.predict(s)
            q = {c: np.asarray(f[c], dtype=float) if c in f.columns else np.full(s, np.nan)
                 for c in ("fcst", "fcst_lower", "fcst_upper")}
            if add:
                unit = np.asarray(sea.value, dtype=float)[-7:]
                rep = np.array([unit[i % 7] for i in range(s)])
                q = {c: (v * rep if p["mult"] else v + rep) for c, v in q.items()}
            cols[name] = q
        o = {}
        for c in ("fcst", "fcst_lower", "fcst_upper"):
            mat = np.stack([cols[k][c] for k in cols], 1)
            if w is None:
                if c != "fcst":
                    mat = np.where(mat == 0, np.nan, mat)
                o[c] = np.array([np.median(row[~np.isnan(row)]) if (~np.isnan(row)).any() else np.nan for row in mat])
            else:
                o[c] = mat @ np.array([w[k] for k in cols])
        out.append((o, w))
    return out


def diff(p, got, want):
    for s, (f, w), (o, w2) in zip(p["steps"], got, want):
        if len(f) != s:
            return "%d rows for %d steps" % (len(f), s)
        if w2 is not None:
            if set(w) != set(w2):
                return "weights of %s, expected %s" % (sorted(w), sorted(w2))
            for k in w2:
                if not C.same(w[k], w2[k], 1e-6, 1e-9):
                    return "weight of %s is %r, on its own %r" % (k, w[k], w2[k])
        cols = ("fcst", "fcst_lower", "fcst_upper") if p["kind"].startswith("k") else ("fcst",)
        for c in cols:
            if not C.same(f[c], o[c], 1e-6, 1e-6):
                return "%s %s, members on their own give %s" % (c, np.asarray(f[c])[:5], o[c][:5])
    return None

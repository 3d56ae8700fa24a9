"""Detector models: configurations, streams, windows."""
import numpy as np
import pandas as pd

from . import common as C

STEP = {"D": 86400, "H": 3600, "15T": 900, "5T": 300}


def kinds():
    return ["cusum", "statsig", "multistatsig", "rolling", "dist", "threshold", "outlier", "interval"]


def gen_freq(r, kind):
    return "D" if kind in ("outlier", "multivar") else r.choice(list(STEP))


def min_first(kind, cfg):
    """Points the first scored window and its history must have together."""
    return {"outlier": 16, "multivar": int(cfg.get("training_days", 0)) + 4, "cusum": 4, "vcusum": 4, "dist": 4}.get(kind, 1)


# ------------------------------------------------------------------ configs
def gen_cfg(r, kind, freq):
    s = STEP[freq]
    if kind in ("cusum", "vcusum"):
        scan = r.choice([4, 5, 6, 8, 10])
        c = {"scan_window": scan * s, "historical_window": r.choice([6, 8, 10, 14, 20]) * s,
             "step_window": r.choice([None, 1, 2, 3, scan - 1, 2.5]),
             "threshold": r.choice([0.01, 0.05, 0.2]), "delta_std_ratio": r.choice([0.5, 1.0, 2.0]),
             "change_directions": r.choice([None, None, ["increase"], ["decrease"], ["increase", "decrease"]]),
             "score_func": r.choice(["change", "percentage_change", "z_score"]),
             }
        if c["step_window"] is not None:
            c["step_window"] = int(c["step_window"] * s)
        if r.random() < 0.3:
            c["adapted_pre_mean"] = True
        if kind == "cusum" and r.random() < 0.3:
            c["vectorized"] = True
            if c["step_window"] is not None:
                c["step_window"] = r.choice([1, 2, 3]) * s
        return c
    if kind in ("statsig", "multistatsig"):
        c = {"n_control": r.choice([3, 4, 6, 10]), "n_test": r.choice([2, 3, 4]),
             "time_unit": {"D": r.choice(["D", "86400s"]), "H": r.choice(["H", "3600s", "60min"]), "15T": "900s", "5T": "5min"}[freq],
             "use_corrected_scores": r.random() < 0.6, "min_perc_change": r.choice([0.0, 0.0, 1.0, 5.0])}
        if kind == "statsig":
            c["max_split_ts_length"] = r.choice([500, 3, 4, 6, 8])
            c["anomaly_scores_only"] = r.random() < 0.2
        else:
            c["method"] = r.choice(["fdr_bh", "fdr_bh", "bonferroni", "holm"])
            c["skip_rescaling"] = r.random() < 0.3
        return c
    if kind == "rolling":
        pb = r.random() < 0.6
        c = {"statistics": r.choice(["z_score", "iqr", "mad", "modified_z_score_mad", "modified_z_score_iqr", "iqr_median_deviation"]),
             "point_based": pb, "score_base": r.choice([1.0, 0.6745]), "iqr_base": r.choice([1.5, 0.5])}
        w = r.choice([3, 4, 5, 8])
        c["rolling_window"] = w if pb else int((w + r.choice([0, 0, 0.5])) * s)
        if pb:
            c["allow_expanding_window"] = r.random() < 0.4
        return c
    if kind == "dist":
        c = {"window_size_sec": r.choice([1, 2, 3, 5]) * s,
             "distance_metric": r.choice(["jensenshannon", "jensenshannon", "euclidean", "cityblock", "chebyshev", "cosine"])}
        if r.random() < 0.3:
            c["jsd_base"] = r.choice([2, 3])
        return c
    if kind == "threshold":
        return {}
    if kind == "outlier":
        return {"decomp": r.choice(["additive", "multiplicative"]), "iqr_mult": r.choice([1.5, 3.0])}
    if kind == "interval":
        return {"cls": r.choice(["Real", "Proportion", "Count", "ArrivalTime", "One"]), "alpha": r.choice([0.05, 0.2]),
                "duration": r.choice([1, 2, 3]), "test_type": r.choice(["ONE_SIDED_LOWER", "ONE_SIDED_UPPER", "TWO_SIDED"]),
                "test_statistic": r.choice(["ABSOLUTE_DIFFERENCE", "RELATIVE_DIFFERENCE"])}
    if kind == "multivar":
        return {"training_days": r.choice([10.0, 12.0, 14.0]), "maxlags": r.choice([1, 2])}
    raise KeyError(kind)


def make(kind, cfg, state=None):
    """A model of this configuration, or one rebuilt from saved bytes."""
    c = dict(cfg)
    if kind == "cusum":
        from kats.detectors.cusum_model import CUSUMDetectorModel as M
        return M(serialized_model=state) if state is not None else M(**c)
    if kind == "vcusum":
        from kats.detectors.cusum_model import VectorizedCUSUMDetectorModel as M
        return M(serialized_model=state) if state is not None else M(**c)
    if kind == "statsig":
        from kats.detectors.stat_sig_detector import StatSigDetectorModel as M
        return M(serialized_model=state) if state is not None else M(**c)
    if kind == "multistatsig":
        from kats.detectors.stat_sig_detector import MultiStatSigDetectorModel as M
        return M(serialized_model=state) if state is not None else M(**c)
    if kind == "rolling":
        from kats.detectors.rolling_stats_model import RollingStatsModel as M
        return M(rolling_window=5, serialized_model=state) if state is not None else M(**c)
    if kind == "dist":
        from kats.detectors.distribution_distance_model import DistributionDistanceModel as M
        return M(window_size_sec=1, serialized_model=state) if state is not None else M(**c)
    if kind == "threshold":
        from kats.detectors.threshold_detector import StaticThresholdModel as M
        return M(serialized_model=state) if state is not None else M(**c)
    if kind == "outlier":
        from kats.detectors.outlier_detector import OutlierDetectorModel as M
        return M(serialized_model=state) if state is not None else M(**c)
    if kind == "interval":
        import kats.detectors.interval_detector as I
        cls = c.pop("cls")
        M = getattr(I, "OneSampleProportionIntervalDetectorModel" if cls == "One" else "TwoSample%sIntervalDetectorModel" % (
            {"Real": "RealValued"}.get(cls, cls)))
        if state is not None:
            return M(serialized_model=state)
        ts = I.TestStatistic[c.pop("test_statistic")]
        kw = dict(c, test_type=I.TestType[c["test_type"]])
        if cls != "One":
            kw["test_statistic"] = ts
        return M(**kw)
    if kind == "multivar":
        from kats.detectors.multivariate_detector import MultivariateAnomalyDetectorModel as M
        from kats.models.var import VARParams
        if state is not None:
            return M(serialized_model=state)
        return M(params=VARParams(maxlags=c["maxlags"]), training_days=c["training_days"])
    raise KeyError(kind)


SAVES = {"cusum", "statsig", "multistatsig", "rolling", "dist", "threshold", "outlier", "interval"}
MULTI = {"multistatsig", "dist", "vcusum", "multivar"}


# ------------------------------------------------------------------ streams
SHAPES = ["noise", "trend", "season", "step", "step", "steps", "spike", "rw", "const"]


def gen_stream(r, kind, freq, n):
    st = {"seed": r.randint(0, 10**9), "n": n, "freq": freq, "shape": r.choice(SHAPES), "cols": 0, "drop": [], "tz": None}
    if kind in MULTI:
        st["cols"] = r.choice([2, 3, 4]) if kind != "dist" else r.choice([4, 6])
    if kind == "multivar":
        st["cols"] = 2
    if r.random() < 0.15:
        st["tz"] = r.choice(["UTC", "US/Pacific"])
    return st


def stream(kind, cfg, st):
    """The whole stream as one series."""
    from kats.consts import TimeSeriesData
    n, cols = st["n"], st["cols"]
    t = C.times(n, st["freq"], drop=st["drop"])
    if st["tz"]:
        t = pd.Series(pd.DatetimeIndex(t).tz_localize("UTC").tz_convert(st["tz"]))
    if kind == "interval":
        return TimeSeriesData(time=t, value=interval_frame(cfg["cls"], st))
    if kind == "dist":
        v = np.sort(values(st["seed"], n, st["shape"], cols), axis=1)
        return TimeSeriesData(time=t, value=pd.DataFrame(v, columns=["p%d" % i for i in range(cols)]))
    v = values(st["seed"], n, st["shape"], cols)
    if cols:
        return TimeSeriesData(time=t, value=pd.DataFrame(v, columns=["v%d" % i for i in range(cols)]))
    return TimeSeriesData(time=t, value=pd.Series(v))


def values(seed, n, shape, cols=0):
    if shape != "steps":
        return C.values(seed, n, shape, cols)

    def one(s):
        g = np.random.RandomState(s % 2**32)
        b = 50 + g.normal(0, 1.0, n)
        k, lvl = 0, 0.0
        while k < n:
            w = int(g.randint(6, 30))
            b[k:k + w] += lvl
            lvl = float(g.choice([0, 0, 8, -8, 20]))
            k += w
        return b
    if cols:
        return np.stack([one(seed + 7919 * (c + 1)) for c in range(cols)], 1)
    return one(seed)


def interval_frame(cls, st):
    g = np.random.RandomState(st["seed"] % 2**32)
    n = st["n"]
    if cls == "One":
        cnt = g.randint(200, 400, n)
        return pd.DataFrame({"value": g.randint(20, 120, n) / 400.0, "effect_size": g.uniform(0.05, 0.3, n), "variance": g.uniform(1, 4, n), "sample_count": cnt})
    cnt_a, cnt_b = g.randint(200, 400, n), g.randint(200, 400, n)
    shift = np.where(g.rand(n) < 0.3, 1, 0)
    if cls in ("Real", "ArrivalTime"):
        a, b = g.uniform(5, 6, n), g.uniform(5, 6, n) + shift
    elif cls == "Proportion":
        a, b = g.uniform(0.1, 0.2, n), g.uniform(0.1, 0.2, n) + 0.1 * shift
    else:
        a, b = g.randint(20, 40, n), g.randint(20, 40, n) + 20 * shift
    return pd.DataFrame({"value_a": a, "value_b": b, "variance_a": g.uniform(1, 4, n), "variance_b": g.uniform(1, 4, n),
                         "sample_count_a": cnt_a, "sample_count_b": cnt_b, "effect_size": g.uniform(0.0, 0.05, n)})


# ------------------------------------------------------------------ deliveries
def gen_cuts(r, n, first, sizes):
    """Cut points [first, ..., n] of a delivery schedule."""
    cuts, k = [first], first
    while k < n:
        k = min(n, k + r.choice(sizes))
        cuts.append(k)
    return cuts


def deliver(full, a, b, h=None):
    """The window [a, b) and its history (all of it, or the last h points); new objects every time."""
    data = full[a:b]
    if a == 0 or h == 0:
        return data, None
    return data, full[(0 if h is None else max(0, a - h)):a]


def rejects():
    """Errors by which a model documents that it cannot score a window."""
    from kats.consts import DataError, DataInsufficientError, DataIrregularGranularityError, ParameterError
    return (DataInsufficientError, DataIrregularGranularityError, DataError, ParameterError)


def score(model, data, hist, **kw):
    return model.fit_predict(data, hist, **kw)

"""Small forecasting models used as workloads; module level, so that they pickle."""
from __future__ import annotations

import threading

import numpy as np
import pandas as pd
from kats.consts import Params, TimeSeriesData
from kats.models.model import Model


class ToyParams(Params):
    """fail: {str(last training time): kind}; failures are cleared by the scenario."""

    def __init__(self, k=1, fail=None, tag=0, noise=False):
        super().__init__()
        self.k, self.fail, self.tag, self.noise = k, dict(fail or {}), tag, noise

    def validate_params(self):
        pass


class Boom(Exception):
    pass


SEEN = []  # what model instances of this process received (thread pools share it)


class ToyModel(Model):
    """Forecast depends on every training point, in order, and on the horizon."""

    def __init__(self, data, params):
        super().__init__(data, params)
        self.rec = {"times": [int(x) for x in pd.DatetimeIndex(data.time).asi8],
                    "values": [float(x) for x in np.asarray(data.value).ravel()],
                    "fits": 0, "steps": []}
        self.fitted_value = None

    def _fail(self, where):
        kind = self.params.fail.get(str(self.rec["times"][-1]))
        if kind is None or not kind.startswith(where):
            return
        what = kind.split(":")[1]
        if what == "value":
            raise ValueError("injected model failure")
        if what == "memory":
            raise MemoryError("injected out of memory")
        if what == "boom":
            raise Boom("injected")
        if what == "lock":
            self.cache = threading.Lock()
        if what == "short":
            self.short = True
        if what == "nan":
            self.short = None

    def fit(self, **kwargs):
        self.rec["fits"] += 1
        self._fail("fit")
        v = np.asarray(self.data.value, dtype=float).ravel()
        w = 0.0
        for i, x in enumerate(v):
            w = 0.7 * w + 0.3 * x + 1e-3 * (i % 5)
        self.level = w
        self.slope = (v[-1] - v[0]) / max(1, len(v) - 1)
        self.fitted_value = True
        return self

    def predict(self, steps, *args, **kwargs):
        self.rec["steps"].append(int(steps))
        self._fail("predict")
        h = np.arange(1, steps + 1)
        f = self.level + self.slope * h * self.params.k + np.sin(h)
        if getattr(self, "short", False):
            f = f[:-1]
        t = pd.date_range(self.data.time.iloc[-1], periods=len(f) + 1, freq=kwargs.get("freq") or "D")[1:]
        return pd.DataFrame({"time": t, "fcst": f, "fcst_lower": f - 1, "fcst_upper": f + 1})

    def plot(self, *a, **k):
        raise NotImplementedError

    def __str__(self):
        return "Toy"

    @staticmethod
    def get_parameter_search_space():
        return []


def seen_model(data, params):
    m = ToyModel(data, params)
    SEEN.append(m)
    return m


class SeenModel(ToyModel):
    """Like ToyModel; also leaves itself in SEEN (thread pools only)."""

    def __init__(self, data, params):
        super().__init__(data, params)
        SEEN.append(self)


def series_model(name):
    """Real Kats models usable in backtests: (class, params factory, minimum train size)."""
    from kats.models.linear_model import LinearModel, LinearModelParams
    from kats.models.quadratic_model import QuadraticModel, QuadraticModelParams
    from kats.models.theta import ThetaModel, ThetaParams
    from kats.models.simple_heuristic_model import SimpleHeuristicModel, SimpleHeuristicModelParams
    from kats.models.holtwinters import HoltWintersModel, HoltWintersParams
    t = {
        "toy": (ToyModel, lambda: ToyParams(2), 2),
        "linear": (LinearModel, lambda: LinearModelParams(alpha=0.1), 5),
        "quadratic": (QuadraticModel, lambda: QuadraticModelParams(alpha=0.1), 6),
        "theta": (ThetaModel, lambda: ThetaParams(m=1), 10),
        "theta7": (ThetaModel, lambda: ThetaParams(m=7), 20),
        "last": (SimpleHeuristicModel, lambda: SimpleHeuristicModelParams(method="last"), 4),
        "meanh": (SimpleHeuristicModel, lambda: SimpleHeuristicModelParams(method="percentile", quantile=80), 6),
        "holt": (HoltWintersModel, lambda: HoltWintersParams(trend="add"), 12),
    }
    return t[name]


class FcstToy(ToyModel):
    """Keeps its last forecast in .fcst, as the models used in ensembles do."""

    def fit(self, **kwargs):
        super().fit(**kwargs)
        return self

    def predict(self, steps, *args, **kwargs):
        df = super().predict(steps, *args, **kwargs)
        self.fcst = df["fcst"]
        self.fcst_df = df
        return df

"""Data, fingerprints and comparisons shared by the scenarios."""
from __future__ import annotations

import hashlib
import math

import numpy as np
import pandas as pd

FREQS = {"D": 86400, "H": 3600, "15T": 900, "W": 7 * 86400}


def values(seed, n, shape, cols=0):
    """Deterministic series content.  shape: noise, trend, season, step, spike, const, rw."""
    g = np.random.RandomState(seed % (2**32))
    def one(g):
        t = np.arange(n)
        base = 50.0 + g.normal(0, 1.0, n)
        if shape == "trend":
            base = base + 0.3 * t
        elif shape == "season":
            base = base + 8 * np.sin(2 * np.pi * t / 7.0)
        elif shape == "step":
            k = int(n * (0.3 + 0.5 * g.rand()))
            base[k:] += 12.0
        elif shape == "spike":
            for k in g.randint(0, n, max(1, n // 20)):
                base[k] += 25.0
        elif shape == "const":
            base = np.full(n, 7.0)
        elif shape == "rw":
            base = 50 + np.cumsum(g.normal(0, 1.0, n))
        return base
    if cols:
        return np.stack([one(np.random.RandomState((seed + 7919 * (c + 1)) % 2**32)) for c in range(cols)], 1)
    return one(g)


def times(n, freq="D", start="2021-01-04", drop=()):
    t = pd.date_range(start, periods=n + len(drop), freq=freq)
    if len(drop):
        keep = [i for i in range(n + len(drop)) if i not in set(drop)]
        t = t[keep[:n]]
    return pd.Series(pd.DatetimeIndex(t)).reset_index(drop=True)


def series(seed, n, shape="noise", freq="D", start="2021-01-04", cols=0, drop=()):
    from kats.consts import TimeSeriesData
    v = values(seed, n, shape, cols)
    t = times(n, freq, start, drop)
    if cols:
        df = pd.DataFrame(v, columns=["v%d" % i for i in range(cols)])
        return TimeSeriesData(time=t, value=df)
    return TimeSeriesData(time=t, value=pd.Series(v))


def ts_fp(ts):
    """Full observable content of a TimeSeriesData."""
    if ts is None:
        return None
    t = pd.DatetimeIndex(ts.time) if len(ts.time) else None
    v = ts.value
    h = hashlib.sha256()
    if t is not None:
        h.update(np.asarray(t.asi8).tobytes())
        h.update(str(t.tz).encode())
    a = np.asarray(v.values)
    h.update(str(a.shape).encode())
    try:
        h.update(np.ascontiguousarray(a.astype(float)).tobytes())
    except (TypeError, ValueError):
        h.update(repr(a.tolist()).encode())
    if hasattr(v, "columns"):
        h.update(repr(list(map(str, v.columns))).encode())
    h.update(repr(ts.time_col_name).encode())
    return h.hexdigest()[:20]


def frame_fp(df):
    h = hashlib.sha256()
    for c in df.columns:
        a = df[c]
        h.update(str(c).encode())
        try:
            if str(a.dtype).startswith("datetime"):
                h.update(np.asarray(pd.DatetimeIndex(a).asi8).tobytes())
            else:
                h.update(np.ascontiguousarray(a.astype(float).values).tobytes())
        except (TypeError, ValueError):
            h.update(repr(list(a)).encode())
    return h.hexdigest()[:20]


def same(a, b, rtol=1e-9, atol=1e-9):
    """Numeric equality up to rounding noise, NaN equal to NaN, same shape."""
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    return bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))


def same_ts(x, y, rtol=1e-9, atol=1e-9):
    if (x is None) != (y is None):
        return False
    if x is None:
        return True
    if len(x.time) != len(y.time):
        return False
    if len(x.time) and not np.array_equal(pd.DatetimeIndex(x.time).asi8, pd.DatetimeIndex(y.time).asi8):
        return False
    return same(x.value.values, y.value.values, rtol, atol)


RESP_FIELDS = ("scores", "predicted_ts", "anomaly_magnitude_ts", "stat_sig_ts")


def resp_parts(r):
    out = [(f, getattr(r, f, None)) for f in RESP_FIELDS]
    cb = getattr(r, "confidence_band", None)
    if cb is not None:
        out.append(("confidence_band.lower", cb.lower))
        out.append(("confidence_band.upper", cb.upper))
    else:
        out.append(("confidence_band", None))
    return out


def resp_diff(a, b, rtol=1e-9, atol=1e-9):
    """None when equal, else the first differing field with values."""
    pa, pb = dict(resp_parts(a)), dict(resp_parts(b))
    for k in sorted(set(pa) | set(pb)):
        x, y = pa.get(k), pb.get(k)
        if not same_ts(x, y, rtol, atol):
            return "%s: %s != %s" % (k, brief(x), brief(y))
    return None


def brief(ts):
    if ts is None:
        return "None"
    v = np.asarray(ts.value.values, dtype=float)
    return "len %d %s" % (len(ts.time), np.array2string(v.ravel()[:8], precision=6))


def ts_dump(ts):
    if ts is None:
        return None
    t = pd.DatetimeIndex(ts.time)
    v = np.asarray(ts.value.values)
    try:
        v = v.astype(float)
    except (TypeError, ValueError):
        v = np.array(repr(v.tolist()))
    return (np.asarray(t.asi8), str(t.tz), v)


def resp_dump(r):
    """The response as plain arrays (survives a trip through a pipe)."""
    return {k: ts_dump(x) for k, x in resp_parts(r)}


def dump_diff(a, b, rtol=1e-9, atol=1e-9):
    for k in sorted(set(a) | set(b)):
        x, y = a.get(k), b.get(k)
        if (x is None) != (y is None):
            return "%s: %s" % (k, "missing on one side")
        if x is None:
            continue
        if x[0].shape != y[0].shape or not np.array_equal(x[0], y[0]) or x[1] != y[1]:
            return "%s: different times (%d and %d rows)" % (k, len(x[0]), len(y[0]))
        if x[2].dtype.kind == "U" or y[2].dtype.kind == "U":
            if str(x[2]) != str(y[2]):
                return "%s: different values" % k
        elif not same(x[2], y[2], rtol, atol):
            return "%s: %s != %s" % (k, np.array2string(x[2].ravel()[:8], precision=6), np.array2string(y[2].ravel()[:8], precision=6))
    return None


def resp_fp(r):
    return [(k, ts_fp(x)) for k, x in resp_parts(r)]


class Outcome:
    """What a call did: a value or an exception type."""

    def __init__(self, fn, catch=Exception):
        self.value = self.exc = None
        try:
            self.value = fn()
            self.ok = True
        except catch as e:
            self.ok = False
            self.exc = e

    def __repr__(self):
        return "ok" if self.ok else "%s(%s)" % (type(self.exc).__name__, str(self.exc)[:200])


def finite(x):
    return x is not None and not (isinstance(x, float) and math.isnan(x))

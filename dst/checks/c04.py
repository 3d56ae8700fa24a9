"""C04: a detector's response covers exactly the delivered window."""
import numpy as np
import pandas as pd

from .. import common as C
from .. import det
from ..sim import is_kats_file

ID = "C04"
LEVEL = "exploration"
RUNS = {"quick": 1500, "thorough": 60000}
CAP = {"quick": 38, "thorough": 1500}
RULE = ("A run draws a streaming detector model, a configuration, a stream (with outages: missing points and long gaps) "
        "and a delivery schedule that splits, delays and bunches it into windows whose sizes are biased to the edges of "
        "the model's internal windows and batches, with history cut to all, some or none of the earlier points; a "
        "rejected window is bunched with the next one. Every accepted response is compared with the window that was "
        "delivered. Non-trivial: at least one window was accepted. Distinct by the sequence of windows and outcomes.")
INTER = "hash of the delivery schedule (window bounds, history length, outcome of each delivery)"
REAL = ["CUSUM, VectorizedCUSUM, StatSig, MultiStatSig, RollingStats, DistributionDistance, StaticThreshold and Outlier detector models", "kats.consts.TimeSeriesData"]
STUB = ["delivery: windows are cut, delayed and bunched by the simulator"]
ASSUMPTIONS = ["points of a stream are delivered in time order"]

# errors with which a model may refuse a window
REFUSE = ("DataInsufficientError", "DataIrregularGranularityError", "DataError", "ParameterError", "InternalError")


def refusal(e):
    """A named kats error, or a ValueError the library itself raised (not one that escaped from numpy or pandas)."""
    if type(e).__name__ in REFUSE:
        return True
    tb = e.__traceback__
    while tb.tb_next is not None:
        tb = tb.tb_next
    return type(e) is ValueError and is_kats_file(tb.tb_frame.f_code.co_filename)


def edges(kind, cfg, freq):
    s = det.STEP[freq]
    if kind in ("cusum", "vcusum"):
        scan, hist = cfg["scan_window"] // s, cfg["historical_window"] // s
        step = (cfg["step_window"] or cfg["scan_window"] / 2) / s
        return [scan, hist, int(step), int(2 * step), int(3 * step), hist + int(step), scan + int(step)]
    if kind in ("statsig", "multistatsig"):
        m = cfg.get("max_split_ts_length", 500)
        c, t = cfg["n_control"], cfg["n_test"]
        return [c, t, c + t] + ([m, 2 * m, 3 * m, m + c + t] if m < 20 else [])
    if kind == "rolling":
        w = cfg["rolling_window"]
        w = w if cfg["point_based"] else w // s
        return [int(w), int(2 * w)]
    if kind == "dist":
        return [cfg["window_size_sec"] // s]
    return [3]


def gen(r, i, tier):
    kind = r.choice(["cusum"] * 4 + ["vcusum"] * 3 + ["statsig"] * 4 + ["multistatsig"] * 2 + ["rolling"] * 3 + ["dist", "dist", "threshold", "outlier"])
    freq = det.gen_freq(r, kind)
    cfg = det.gen_cfg(r, kind, freq)
    if kind in ("statsig", "multistatsig") and r.random() < 0.3:
        cfg["time_unit"] = None
    if kind == "statsig" and r.random() < 0.15:
        cfg["rem_season"] = True
        cfg["seasonal_period"] = "weekly" if freq == "D" else "daily"
    n = {"cusum": r.randint(16, 44), "vcusum": r.randint(20, 60), "statsig": r.randint(8, 60), "multistatsig": r.randint(8, 40)}.get(kind, r.randint(8, 80))
    st = det.gen_stream(r, kind, freq, n)
    if r.random() < 0.4 and kind not in ("multistatsig", "outlier", "vcusum"):
        for _ in range(r.randint(1, 3)):
            a = r.randint(1, n - 2)
            st["drop"] += list(range(a, min(n - 1, a + r.choice([1, 1, 2, 4, 9]))))
        st["drop"] = sorted(set(st["drop"]))[: n // 3]
    n -= len(st["drop"])
    e = edges(kind, cfg, freq)
    sizes = [1, 1, 2, 3] + [max(1, x + d) for x in e for d in (-1, 0, 0, 1)]
    if kind == "vcusum":
        first = min(n - 2, cfg["historical_window"] // det.STEP[freq] + r.randint(-2, 3))
    else:
        first = r.choice([0, 0, 1, 2, r.randint(0, n // 2)])
    cuts = det.gen_cuts(r, n, first, sizes)
    m = r.choice([2, 3, 4, 5])
    if kind not in ("rolling", "threshold") and len(cuts) > m + 1:
        j = r.randint(0, len(cuts) - m - 1)
        cuts = cuts[j:j + m + 1]
    return {"kind": kind, "cfg": cfg, "stream": st, "cuts": cuts, "hist": [r.choice([None, None, None, max(1, r.choice(e) + r.choice([-1, 0, 1])), 1, 0]) for _ in cuts[1:]],
            "fresh": r.random() < 0.3}


def run(plan, ctx):
    kind, cfg = plan["kind"], plan["cfg"]
    full = det.stream(kind, cfg, plan["stream"])
    if len(plan["cuts"]) < 2:
        return
    ctx.sim_seconds += plan["stream"]["n"] * det.STEP[plan["stream"]["freq"]]
    m = det.make(kind, cfg)
    a, log, okc = plan["cuts"][0], [], 0
    for j, b in enumerate(plan["cuts"][1:]):
        if b <= a:
            continue
        h = plan["hist"][j] if j < len(plan["hist"]) else None
        data, hist = det.deliver(full, a, b, h)
        if kind == "vcusum" and hist is None:
            a = b
            continue
        if plan["fresh"]:
            m = det.make(kind, cfg)
        name = "%s %s window [%d,%d) history %d of %d" % (kind, cfg, a, b, 0 if hist is None else len(hist), a)
        o = C.Outcome(lambda: det.score(m, data, hist))
        log.append((a, b, h, repr(type(o.exc).__name__)))
        if not o.ok:
            tiny = len(data) + (0 if hist is None else len(hist)) < 3     # no frequency can be told from two points
            ctx.check(kind == "outlier" or refusal(o.exc) or (tiny and isinstance(o.exc, ValueError)), "raised", "%s: %s" % (name, o))
            ctx.event("refused", a, b, h, type(o.exc).__name__)
            ctx.probe("refused:" + kind, 1)
            ctx.fault("delivery delayed and bunched with the next", 1)
            m = det.make(kind, cfg)
            continue
        okc += 1
        ctx.probe("accepted:" + kind, 1)
        covers(ctx, name, kind, full, a, b, o.value, hist, plan["fresh"] or okc == 1)
        ctx.event("scored", a, b, h, C.resp_fp(o.value))
        a = b
    ctx.fault("outage (points missing from the stream)", len(plan["stream"]["drop"]))
    ctx.interleaving((kind, tuple(map(str, log))))
    ctx.nontrivial = okc > 0


def covers(ctx, name, kind, full, a, b, resp, hist, new):
    want = pd.DatetimeIndex(full.time)[a:b]
    ctx.check(resp.scores is not None, "no-scores", name)
    for f, ts in C.resp_parts(resp):
        if ts is None:
            continue
        got = pd.DatetimeIndex(ts.time) if len(ts.time) else want[:0]
        ctx.check(len(ts.time) == len(ts.value), "ragged", "%s: %s has %d times and %d values" % (name, f, len(ts.time), len(ts.value)))
        ctx.check(len(got) == b - a, "rows", "%s: %s has %d rows for %d points" % (name, f, len(got), b - a))
        ctx.check(np.array_equal(got.asi8, want.asi8), "times", "%s: %s is at %s instead of %s" % (name, f, list(got[:3]), list(want[:3])))
    if hist is None and (kind in ("statsig", "multistatsig") or (kind == "cusum" and new)):
        # the very first point has nothing to be compared with
        x = np.asarray(resp.scores.value.values, dtype=float)[:1]
        ctx.check(np.all(x == 0), "neutral", "%s: first point of the stream scored %s" % (name, x))

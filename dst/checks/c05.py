"""C05: how a stream is cut into deliveries does not change a point's score."""
import numpy as np

from .. import common as C
from .. import det

ID = "C05"
LEVEL = "exploration"
RUNS = {"quick": 1200, "thorough": 50000}
CAP = {"quick": 38, "thorough": 1500}
RULE = ("A run draws a point-scoring detector model, its configuration and a stream, and two or three delivery "
        "schedules of the same stream over the same span: point by point, in small windows, and stalled and then "
        "backfilled in one window longer than the internal split length, each window with its full history; the "
        "schedules may stop early. Every point's score is compared between the schedules. Non-trivial: two schedules "
        "with different cuts scored a common point that is not neutral. Distinct by the schedules and scores.")
INTER = "hash of the delivery schedules (window bounds)"
REAL = ["StatSig, MultiStatSig, RollingStats, DistributionDistance and StaticThreshold detector models", "kats.consts.TimeSeriesData"]
STUB = ["delivery: windows are cut, stalled and backfilled by the simulator"]
ASSUMPTIONS = ["scores are equal up to 1e-6 relative (different summation order)", "streams are regular where a long window is split internally"]


def gen(r, i, tier):
    kind = r.choice(["statsig"] * 5 + ["multistatsig"] * 3 + ["rolling"] * 9 + ["dist"] * 4 + ["threshold"])
    freq = det.gen_freq(r, kind)
    cfg = det.gen_cfg(r, kind, freq)
    if kind == "rolling" and r.random() < 0.4:
        cfg["statistics"] = r.choice(["iqr", "iqr_median_deviation"])
    timed = kind == "rolling" and not cfg["point_based"]
    n = {"statsig": r.randint(16, 60), "multistatsig": r.randint(12, 36)}.get(kind, r.randint(30 if timed else 12, 80))
    st = det.gen_stream(r, kind, freq, n)
    if r.random() < (0.6 if timed else 0.25) and kind in ("rolling", "threshold"):
        st["drop"] = sorted(r.sample(range(1, n - 1), r.randint(1, 3)))
    n -= len(st["drop"])
    first = r.randint(1, n // 2)
    need = {"rolling": cfg.get("rolling_window", 0) if not timed else 12, "dist": 2 * cfg.get("window_size_sec", 0) // det.STEP[freq] + 1,
            "statsig": cfg.get("n_control", 0) + cfg.get("n_test", 0), "multistatsig": cfg.get("n_control", 0) + cfg.get("n_test", 0)}.get(kind, 1)
    if r.random() < 0.6:
        first = max(first, min(n - 3, need))
    if timed:
        # enough history to tell the sampling interval, and a whole window of it
        first = max(first, 12)
    plans = []
    m = cfg.get("max_split_ts_length", 8)
    for _ in range(r.choice([2, 2, 3])):
        style = r.choice(["one", "one", "small", "points", "mixed", "split"])
        if style == "one":
            c = [first, n]
        elif style == "small":
            c = det.gen_cuts(r, n, first, [1, 2, 3, 5])
        elif style == "points":
            c = list(range(first, min(n, first + 12) + 1))
        elif style == "split" and m < 20:
            c = det.gen_cuts(r, n, first, [m, m + 1, 2 * m, 2 * m + 1, 3 * m, 3 * m - 1])
        else:
            c = det.gen_cuts(r, n, first, [1, 2, 8, 21, 40])
        k = {"statsig": 4, "multistatsig": 3}.get(kind, 14)
        if len(c) > k + 1:
            j = r.randint(0, len(c) - k - 1)
            c = c[j:j + k + 1]
        if r.random() < 0.25 and len(c) == 2:
            c[1] = r.randint(first + 1, n)
        plans.append(c)
    return {"kind": kind, "cfg": cfg, "stream": st, "plans": plans, "keep": r.random() < 0.5}


def run(plan, ctx):
    kind, cfg = plan["kind"], plan["cfg"]
    full = det.stream(kind, cfg, plan["stream"])
    ctx.sim_seconds += plan["stream"]["n"] * det.STEP[plan["stream"]["freq"]]
    seen, common = {}, 0
    for k, cuts in enumerate(plan["plans"]):
        m = det.make(kind, cfg)
        for a, b in zip(cuts, cuts[1:]):
            if b <= a:
                continue
            if not plan["keep"]:
                m = det.make(kind, cfg)
            data, hist = det.deliver(full, a, b)
            o = C.Outcome(lambda: det.score(m, data, hist))
            if not o.ok:
                ctx.event("refused", a, b, type(o.exc).__name__)
                ctx.probe("refused:" + type(o.exc).__name__, 1)
                continue
            v = np.asarray(o.value.scores.value.values, dtype=float)
            ctx.check(len(v) == b - a, "rows", "%s window [%d,%d): %d scores" % (kind, a, b, len(v)))
            if kind == "statsig" and getattr(m, "bigdata_trans_flag", False):
                ctx.probe("window split internally", 1)
            for i in range(a, b):
                x = v[i - a]
                if i in seen:
                    y, ka, aa, bb = seen[i]
                    ctx.check(C.same(x, y, 1e-6, 1e-6), "score",
                              "%s %s: point %d scores %s in window [%d,%d) and %s in window [%d,%d)" % (kind, cfg, i, y, aa, bb, x, a, b))
                    if ka != k and np.any(np.asarray(x) != 0) and (aa, bb) != (a, b):
                        common += 1
                else:
                    seen[i] = (x, k, a, b)
            ctx.event("scored", a, b, repr(v.tolist())[:400])
    ctx.fault("window cut, stalled or backfilled differently", max(0, len(plan["plans"]) - 1))
    ctx.probe("points scored in two schedules", common)
    ctx.interleaving((kind, str(plan["plans"])))
    ctx.nontrivial = common > 0

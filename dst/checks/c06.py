"""C06: series batched into one detector call do not affect each other."""
import numpy as np
import pandas as pd

from .. import common as C
from .. import det

ID = "C06"
LEVEL = "exploration"
RUNS = {"quick": 1200, "thorough": 50000}
CAP = {"quick": 38, "thorough": 1500}
RULE = ("A run draws a multi-series detector and its configuration, a pool of series, and one to three batches: subsets of "
        "the pool in any order, in which some of the other series are corrupted (spikes, constants, level shifts, extreme "
        "values, missing values). Every intact series of every batch is compared with the single-series detector run on "
        "it alone. Non-trivial: a compared series has a non-neutral score. Distinct by the batches and scores.")
INTER = "hash of the batches (members, order, corruption)"
REAL = ["MultiStatSigDetectorModel, VectorizedCUSUMDetectorModel, VectorizedCUSUMDetector", "StatSigDetectorModel, CUSUMDetectorModel, CUSUMDetector as the single-series reference"]
STUB = ["batching of series and corruption of the other members of a batch"]
ASSUMPTIONS = ["scores are equal up to 1e-6 relative (different summation order)", "the stability flag of a change point (did the search converge before max_iter) is compared between batches, not with the single detector, which also calls a search unstable that converges in its last iteration", "the single-series statistical significance model deliberately computes uncorrected scores with another formula, so the comparison uses corrected scores"]


def gen(r, i, tier):
    kind = r.choice(["multistatsig", "multistatsig", "vcusum", "vcusum", "vcusum", "vdetector", "vdetector"])
    freq = r.choice(list(det.STEP))
    cfg = det.gen_cfg(r, "vcusum" if kind == "vdetector" else kind, freq)
    n = {"multistatsig": r.randint(8, 20), "vcusum": r.randint(16, 36), "vdetector": r.randint(8, 60)}[kind]
    if kind == "multistatsig":
        cfg["skip_rescaling"] = True
        cfg["use_corrected_scores"] = True
        a = r.randint(1, n - 2)
    elif kind == "vdetector":
        s = r.randint(2, n - 3)
        cfg = {"interest_window": r.choice([None, [s, r.randint(s + 2, n)]]), "threshold": r.choice([0.01, 0.05, 0.3]),
               "delta_std_ratio": r.choice([0.5, 1.0, 2.0]), "change_directions": r.choice([None, ["increase"], ["decrease"]]),
               "max_iter": r.choice([2, 10]), "return_all_changepoints": r.random() < 0.4, "magnitude_quantile": None}
        if r.random() < 0.3:
            cfg["start_point"] = r.randint(1, n - 2)
        a = 0
    else:
        a = r.randint(2, n - 2)
    pool = [{"seed": r.randint(0, 10**9), "shape": r.choice(det.SHAPES)} for _ in range(r.randint(2, 4))]
    batches = []
    for _ in range(r.choice([1, 2, 2, 3])):
        ids = r.sample(range(len(pool)), r.randint(1, len(pool)))
        b = [[k, None if r.random() < 0.7 else r.choice(["spike", "const", "level", "huge", "zero", "nan"])] for k in ids]
        while len(b) < 2:
            b.append([r.randrange(len(pool)), r.choice(["spike", "const", "level", "huge"])])
        r.shuffle(b)
        batches.append(b)
    return {"kind": kind, "cfg": cfg, "freq": freq, "n": n, "a": a, "pool": pool, "batches": batches, "windows": r.choice([1, 1, 2])}


def column(plan, k, corrupt, j):
    p = plan["pool"][k]
    v = np.array(det.values(p["seed"], plan["n"], p["shape"]), dtype=float)
    g = np.random.RandomState((p["seed"] + 31 * j) % 2**32)
    m = int(g.randint(0, plan["n"]))
    if corrupt == "spike":
        v[m] += 1000
    elif corrupt == "const":
        v[:] = 7.0
    elif corrupt == "zero":
        v[:] = 0.0
    elif corrupt == "level":
        v[m:] += 50
    elif corrupt == "huge":
        v *= 1e9
    elif corrupt == "nan":
        v[m:m + 3] = np.nan
    return v


def windows(plan):
    n, a = plan["n"], plan["a"]
    if plan["windows"] == 1 or n - a < 4:
        return [(a, n)]
    m = (a + n) // 2
    return [(a, m), (m, n)]


def single(plan, v, t):
    """What the single-series detector says about this series alone."""
    from kats.consts import TimeSeriesData
    ts = TimeSeriesData(time=t, value=pd.Series(v))
    if plan["kind"] == "vdetector":
        from kats.detectors.cusum_detection import CUSUMDetector
        return [C.Outcome(lambda: cps(CUSUMDetector(ts).detector(**dict(plan["cfg"]))))]
    out = []
    if plan["kind"] == "multistatsig":
        c = {k: x for k, x in plan["cfg"].items() if k not in ("method", "skip_rescaling")}
        m = det.make("statsig", c)
    else:
        m = det.make("cusum", plan["cfg"])
    for a, b in windows(plan):
        if plan["kind"] == "vcusum":
            m = det.make("cusum", plan["cfg"])
        o = C.Outcome(lambda: m.fit_predict(ts[a:b], ts[:a]))
        out.append(o)
    return out


def cps(l):
    return [(c.start_time.value, c.end_time.value, int(c.cp_index), c.direction, float(c.delta), float(c.mu0), float(c.mu1), bool(c.stable_changepoint), float(c.p_value)) for c in l]


def run(plan, ctx):
    from kats.consts import TimeSeriesData
    kind = plan["kind"]
    t = C.times(plan["n"], plan["freq"])
    ctx.sim_seconds += plan["n"] * det.STEP[plan["freq"]]
    ref, live, stable = {}, 0, {}
    for k, b in enumerate(plan["batches"]):
        if len(b) < 2:
            continue
        names = ["s%d_%d" % (x[0], j) for j, x in enumerate(b)]
        df = pd.DataFrame({nm: column(plan, x[0], x[1], j) for j, (nm, x) in enumerate(zip(names, b))})
        ts = TimeSeriesData(time=t, value=df)
        ctx.fault("other series of the batch corrupted", sum(1 for x in b if x[1]))
        if kind == "vdetector":
            from kats.detectors.cusum_detection import VectorizedCUSUMDetector
            out = [C.Outcome(lambda: [cps(x) for x in VectorizedCUSUMDetector(ts).detector(**dict(plan["cfg"]))])]
        else:
            m = det.make(kind, plan["cfg"])
            out = []
            for a, e in windows(plan):
                if kind == "vcusum":
                    m = det.make(kind, plan["cfg"])
                out.append(C.Outcome(lambda: m.fit_predict(ts[a:e], ts[:a])))
        for j, (c, corrupt) in enumerate(b):
            if corrupt:
                continue
            if c not in ref:
                ref[c] = single(plan, column(plan, c, None, 0), t)
            for (a, e), got, want in zip(windows(plan), out, ref[c]):
                name = "%s series %d (column %d of %s) window [%d,%d)" % (kind, c, j, b, a, e)
                if not want.ok or not got.ok:
                    ctx.event("refused", repr(want)[:80], repr(got)[:80])
                    ctx.probe("refused", 1)
                    ctx.check(want.ok == got.ok or not all(x[1] is None for x in b), "outcome", "%s: alone %s, in the batch %s" % (name, want, got))
                    continue
                if kind == "vdetector":
                    ctx.check(same_cps(got.value[j], want.value), "change-points", "%s %s: alone %s, in the batch %s" % (name, plan["cfg"], want.value, got.value[j]))
                    live += bool(want.value)
                    flags = [x[7] for x in got.value[j]]
                    ctx.check(stable.setdefault(c, flags) == flags, "stable-flag", "%s: stability of its change points is %s, was %s in an earlier batch" % (name, flags, stable[c]))
                    ctx.event(c, str([x[2] for x in got.value[j]]))
                    continue
                x = np.asarray(got.value.scores.value.values, dtype=float)[:, j]
                y = np.asarray(want.value.scores.value.values, dtype=float)
                ctx.check(C.same(x, y, 1e-6, 1e-6), "score", "%s %s: alone %s, in the batch %s" % (name, plan["cfg"], first_diff(y, x), x[:6]))
                live += bool(np.any(y != 0))
                ctx.event(c, repr(x.tolist())[:300])
    ctx.probe("compared series with a non-neutral answer", live)
    ctx.interleaving((kind, str(plan["batches"]), str(plan["cfg"])))
    ctx.nontrivial = live > 0


def first_diff(a, b):
    if a.shape != b.shape:
        return "%d rows, not %d" % (len(a), len(b))
    k = [i for i in range(len(a)) if not C.same(a[i], b[i], 1e-6, 1e-6)]
    return "row %s: %s != %s" % (k[:1], a[k[:1]], b[k[:1]])


def same_cps(x, y):
    if len(x) != len(y):
        return False
    for p, q in zip(x, y):
        if p[:4] != q[:4] or not C.same(p[4:7], q[4:7], 1e-6, 1e-6):
            return False
    return True

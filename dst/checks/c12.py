"""C12: prediction-interval ensembles are reproducible and their chains independent."""
import numpy as np
import pandas as pd

from .. import common as C
from .. import toys
from ..sim import Sim, gen_schedule

ID = "C12"
LEVEL = "exploration"
RUNS = {"quick": 400, "thorough": 30000}
CAP = {"quick": 38, "thorough": 2000}
RULE = ("A run draws a series, block layout, ensemble size, horizon, mode and model, then projects once in serial mode and "
        "once or twice in parallel mode under a drawn core count and worker schedule, each from the same global seed, with "
        "repeated projections and a failing worker in some runs. Non-trivial: a parallel projection with at least two "
        "workers made a scheduling decision; distinct by event log.")
REAL = ["kats.utils.ensemble_predict_interval", "worker processes (forks) that inherit the parent's random state", "linear and theta models"]
STUB = ["pool scheduling", "cpu_count", "a toy model in most runs"]
ASSUMPTIONS = ["chains are compared through the perturbations recovered from the forecasts of a known model"]


def gen(r, i, tier):
    block = r.choice([10, 10, 11, 12, 14])
    nb = r.choice([5, 5, 5, 6, 8])
    p = {"block": block, "n_block": nb, "extra": r.choice([0, 0, 3, 17]), "by": r.choice(["both", "block", "n"]),
         "size": r.choice([4, 4, 5, 6, 9]), "step": r.choice([1, 5, block - 1, block, block + 1, 2 * block, 3 * block + 2]),
         "rolling": r.random() < 0.3, "model": r.choice(["toy"] * 8 + ["linear", "theta"]),
         "shape": r.choice(["noise", "trend", "rw"]), "cores": r.choice([1, 2, 3, 4, 6, 8, 16, 32]),
         "cores2": r.choice([1, 4, 8, 16]), "again": r.random() < 0.25, "second": r.random() < 0.3,
         "level": r.choice([0.5, 0.8, 0.95]), "fail": r.choice([None] * 4 + ["matrix", "chain"]),
         "freq": r.choice(["D", "D", "H"]), "noise_seed": r.randint(0, 10**6)}
    p["sched"] = gen_schedule(r, 20)
    return p


def make(p, data, params, multi):
    from kats.utils.ensemble_predict_interval import ensemble_predict_interval
    cls = toys.series_model(p["model"])[0]
    kw = {}
    if p["by"] in ("both", "block"):
        kw["block_size"] = p["block"]
    if p["by"] in ("both", "n"):
        kw["n_block"] = p["n_block"]
    return ensemble_predict_interval(cls, params, data, ensemble_size=p["size"], multiprocessing=multi, **kw)


def project(p, e, steps):
    out = []
    for s in steps:
        f = e.get_projection(s, p["rolling"], p["level"])
        out.append((f[["fcst", "fcst_lower", "fcst_upper"]].values.copy(), e.ensemble_fcst.copy()))
    return out


def run(plan, ctx):
    p, s = plan, plan["sched"]
    n = (p["n_block"] + 1) * p["block"] + p["extra"]
    mk = toys.series_model(p["model"])[1]
    steps = [p["step"]] + ([max(1, p["step"] // 2)] if p["again"] else [])
    data = lambda: C.series(p["seed"], n, p["shape"], p["freq"])

    def serial(sd):
        np.random.seed(sd)
        e = make(p, data(), mk(), False)
        return e, project(p, e, steps)
    e0, want = serial(p["noise_seed"])
    with Sim(s["switches"], s["picks"], cores=p["cores"]) as sim:
        d = data()
        fp = C.ts_fp(d)
        params = mk()
        e = make(p, d, params, True)
        if p["fail"] and p["model"] == "toy":
            asi = pd.DatetimeIndex(e.ts.time).asi8
            key = str(int(asi[-1] if p["fail"] == "chain" else asi[e.block_size * (1 + p["noise_seed"] % e.n_block) - 1]))
            params.fail[key] = "fit:value"
            o = C.Outcome(lambda: project(p, e, steps[:1]))
            ctx.check(not o.ok, "failure-swallowed", "a worker failed and the projection returned")
            ctx.fault("worker-failure-" + p["fail"])
            params.fail.clear()
        np.random.seed(p["noise_seed"])
        o = C.Outcome(lambda: project(p, e, steps))
        ctx.check(o.ok, "raised", repr(o))
        got = o.value
        sim.cores = p["cores2"]
        np.random.seed(p["noise_seed"])
        got2 = project(p, make(p, data(), mk(), True), steps) if p["second"] else got
        st = sim.stats
        ctx.interleaving(sim.log)
    ctx.check(C.ts_fp(d) == fp, "caller-data-changed", "series")
    for k, ((f, c), (f2, c2), (fs, cs)) in enumerate(zip(got, got2, want)):
        where = "projection %d of %d steps, %d chains" % (k + 1, steps[k], p["size"])
        ctx.check(c.shape == (p["size"], steps[k]), "shape", where)
        ctx.check(C.same(c, c2) and C.same(f, f2), "schedule-dependent",
                  "%s: %d cores and %d cores give different chains from one seed" % (where, p["cores"], p["cores2"]))
        ctx.check(C.same(c, cs) and C.same(f, fs), "parallel-differs-from-serial", "%s on %d cores" % (where, p["cores"]))
        ctx.check(bool((f[:, 1] <= f[:, 0] + 1e-9).all() and (f[:, 0] <= f[:, 2] + 1e-9).all()), "band-order", where)
        ctx.check(C.same(f[:, 0], c.mean(0)), "centre", where)
        independence(ctx, p, e, c, where)
        ctx.event("proj", k, C.hashlib.sha256(np.ascontiguousarray(c).tobytes()).hexdigest()[:16])
    error_rows(ctx, p, e, mk)
    if e.error_matrix_flag:
        ctx.check(C.same(e.error_matrix, e0.error_matrix), "error-matrix", "parallel and serial error matrices differ")
    ctx.fault("task-assignment-and-completion-order", st["decisions"])
    ctx.fault("shared-random-state-at-fork", st["pools"])
    ctx.probe("mode-" + ("rolling" if p["rolling"] else "block"))
    ctx.sim_seconds += n * 86400
    ctx.nontrivial = st["decisions"] > 0 and (p["cores"] - 1) // 2 > 1


def independence(ctx, p, e, c, where):
    """The first block of every chain is one common forecast plus that chain's own draw."""
    w = min(p["block"], c.shape[1])
    first = c[:, :w]
    for i in range(len(c)):
        for j in range(i):
            ctx.check(not np.allclose(first[i], first[j], rtol=1e-9, atol=1e-7), "chains-share-draws",
                      "%s: chains %d and %d are the same" % (where, j, i))
            if c.shape[1] >= 2 * e.block_size and w >= 5:
                # perturbations re-used with another sign or scale
                r = np.corrcoef(first[i] - c[:, :w].mean(0), first[j] - c[:, :w].mean(0))[0, 1]
                ctx.check(p["size"] == 2 or abs(r) < 0.999999, "chains-share-draws", "%s: chains %d and %d move together" % (where, j, i))


def error_rows(ctx, p, e, mk):
    """Every block's errors are in that block's row."""
    from kats.consts import TimeSeriesData
    cls = toys.series_model(p["model"])[0]
    b = e.block_size
    v = np.asarray(e.ts.value, dtype=float)
    for i in range(e.n_block):
        m = cls(TimeSeriesData(time=e.ts.time[i * b:(i + 1) * b].reset_index(drop=True),
                               value=e.ts.value[i * b:(i + 1) * b].reset_index(drop=True)), mk())
        m.fit()
        f = np.asarray(m.predict(steps=b, freq=e.freq)["fcst"], dtype=float)
        ctx.check(C.same(e.error_matrix[i], v[(i + 1) * b:(i + 2) * b] - f, 1e-7, 1e-7), "error-row", "row of block %d" % i)

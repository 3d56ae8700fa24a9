"""C13: parallel data partitioning equals the serial split and keeps its keys."""
import numpy as np
import pandas as pd

from .. import common as C
from ..sim import Sim, gen_schedule

ID = "C13"
LEVEL = "exploration"
RUNS = {"quick": 1600, "thorough": 60000}
CAP = {"quick": 35, "thorough": 1500}
RULE = ("A run draws a list or dictionary of 1-6 series of different lengths, one partition class "
        "and its parameters, a core limit, the machine's core count and a schedule, and splits with the "
        "worker pool under the simulated scheduler. Non-trivial: at least two series and at least one "
        "scheduling decision or preemption happened; distinct by event log.")
REAL = ["kats.utils.datapartition (all three partition classes)", "kats.consts.TimeSeriesData"]
STUB = ["multiprocessing.dummy.Pool (simulated thread pool)", "cpu_count"]
ASSUMPTIONS = ["worker threads switch only at source lines of kats code and at pool operations"]


def gen(r, i, tier):
    kind = r.choice(["simple", "stamp", "rolling", "rolling"])
    k = r.randint(1, 6)
    cores = r.choice([1, 2, 3, 4, 8])
    lens = [r.randint(8, 60) for _ in range(k)]
    if kind == "simple":
        if r.random() < 0.5:
            cfg = {"train_frac": r.choice([0.3, 0.5, 0.66, 0.8])}
        else:
            cfg = {"train_size": r.randint(1, min(lens) - 2)}
        c = r.random()
        if c < 0.35:
            cfg["test_frac"] = r.choice([0.1, 0.15, 0.2])
        elif c < 0.7:
            cfg["test_size"] = r.randint(1, 5)
    elif kind == "stamp":
        a = r.randint(1, min(lens) - 3)
        cfg = {"train_end": a, "test_start": a + r.randint(1, 4), "half": r.random() < 0.3}
        if r.random() < 0.4:
            cfg["train_start"] = r.randint(0, a - 1)
        if r.random() < 0.4:
            cfg["test_end"] = cfg["test_start"] + r.randint(1, 8)
    else:
        st = r.choice([0.3, 0.4, 0.5])
        te = r.choice([0.1, 0.2, 0.25])
        wf = r.choice([0.0, 0.0, 0.1, 0.15])
        cfg = {"start_train_frac": st, "test_frac": te, "window_frac": wf,
               "expanding_steps": r.randint(1, 5), "constant_train_size": r.random() < 0.5}
    p = {"kind": kind, "cfg": cfg, "lens": lens, "container": r.choice(["list", "dict", "dict", "single"]),
         "keys": r.sample(["a", "b", "zz", "k1", "k10", "k2", "m"], k) if r.random() < .6 else r.sample(range(50), k),
         "cores": cores, "max_core": r.choice([None] + list(range(1, cores + 1))),
         "cols": r.choice([0, 0, 2]), "resplit": r.random() < 0.4}
    p["sched"] = gen_schedule(r, 60 * k)
    return p


def reference(kind, cfg, ts, stamps):
    n = len(ts)
    idx = np.arange(n)
    t = pd.DatetimeIndex(ts.time)
    if kind == "simple":
        a = cfg["train_size"] if "train_size" in cfg else int(n * cfg["train_frac"])
        if "test_frac" in cfg:
            b = a + int(n * cfg["test_frac"])
        elif "test_size" in cfg:
            b = a + cfg["test_size"]
        else:
            b = n
        return [(idx[:a], idx[a:b])]
    if kind == "stamp":
        lo = stamps.get("train_start", t[0])
        hi = stamps.get("test_end", t[-1])
        tr = idx[(t >= lo) & (t <= stamps["train_end"])]
        te = idx[(t >= stamps["test_start"]) & (t <= hi)]
        return [(tr, te)]
    a, b, w = (int(n * cfg[x]) for x in ("start_train_frac", "test_frac", "window_frac"))
    steps = cfg["expanding_steps"]
    span = n - a - b - w
    out = []
    for j in range(steps):
        o = 0 if steps == 1 else (span if j == steps - 1 else int(j * (span / (steps - 1))))
        out.append((o, a, b, w))
    return out


def fold_ok(ctx, kind, cfg, ts, ref, j, fold, where):
    n = len(ts)
    allt = pd.DatetimeIndex(ts.time).asi8
    allv = np.asarray(ts.value.values, dtype=float)
    pos = {x: i for i, x in enumerate(allt)}
    got = []
    for part in (fold.train, fold.test):
        tt = pd.DatetimeIndex(part.time).asi8 if len(part.time) else np.array([], dtype=np.int64)
        ctx.check(all(x in pos for x in tt), "foreign-points", where)
        ix = np.array([pos[x] for x in tt], dtype=int)
        # (an empty part of a multivariate series has no columns)
        ctx.check(C.same(np.asarray(part.value.values, dtype=float), allv[ix]) if len(ix)
                  else len(part.value) == 0, "values", where)
        got.append(ix)
    tr, te = got
    if kind == "rolling":
        o, a, b, w = ref[j]
        # the slide may round either way in the middle, never at the ends
        slack = 0 if j in (0, len(ref) - 1) else 1
        ctx.check(len(te) == b, "test-size", where)
        e = te[0] - w - a if len(te) else o
        ctx.check(abs(e - o) <= slack, "fold-offset", "%s offset %s expected %s" % (where, e, o))
        s = e if cfg["constant_train_size"] else 0
        ctx.check(list(tr) == list(range(s, e + a)), "train-range", where)
        ctx.check(not len(te) or list(te) == list(range(e + a + w, e + a + w + b)), "test-range", where)
    else:
        ctx.check(list(tr) == list(ref[j][0]), "train-range", "%s %s != %s" % (where, tr, ref[j][0]))
        ctx.check(list(te) == list(ref[j][1]), "test-range", "%s %s != %s" % (where, te, ref[j][1]))
    if len(tr) and len(te):
        ctx.check(tr.max() < te.min(), "order", where)


def run(plan, ctx):
    from kats.utils import datapartition as dp
    kind, cfg = plan["kind"], dict(plan["cfg"])
    lens = plan["lens"]
    data = [C.series(plan["seed"] + j, n, ["noise", "trend", "season"][j % 3], cols=plan["cols"])
            for j, n in enumerate(lens)]
    stamps = {}
    if kind == "stamp":
        half = pd.Timedelta(hours=7) if cfg.pop("half") else pd.Timedelta(0)
        base = pd.Timestamp("2021-01-04")
        for k in ("train_end", "test_start", "train_start", "test_end"):
            if k in cfg:
                stamps[k] = base + pd.Timedelta(days=cfg[k]) + (half if k == "train_end" else -half if k == "test_start" and half else pd.Timedelta(0))
        if not stamps["train_end"] < stamps["test_start"]:
            stamps["test_start"] = stamps["train_end"] + pd.Timedelta(hours=1)
        if "test_end" in stamps and stamps["test_end"] <= stamps["test_start"]:
            del stamps["test_end"]
    container = plan["container"]
    if container == "dict":
        keys = plan["keys"][:len(data)]
        arg = dict(zip(keys, data))
    elif container == "single":
        keys, data, arg = [0], data[:1], data[0]
    else:
        keys, arg = list(range(len(data))), list(data)
    if not data:
        return
    before = [C.ts_fp(d) for d in data]
    order_before = list(arg) if container == "dict" else None

    cls = {"simple": dp.SimpleDataPartition, "stamp": dp.SimpleTimestampDataPartition,
           "rolling": dp.RollingOriginDataParition}[kind]
    kw = stamps if kind == "stamp" else cfg
    sched = plan["sched"]
    with Sim(sched["switches"], sched["picks"], cores=plan["cores"]) as sim:
        o = C.Outcome(lambda: cls(multi=True, max_core=plan["max_core"], **kw))
        ctx.check(o.ok, "core-limit-rejected", "max_core=%s of %s cores: %r" % (plan["max_core"], plan["cores"], o))
        part = o.value
        if plan["max_core"] is not None:
            ctx.check(part.max_core == plan["max_core"], "core-limit-ignored", str(part.max_core))
        ctx.check(1 <= part.max_core <= max(1, plan["cores"]), "core-limit-range", str(part.max_core))
        outs = [C.Outcome(lambda: part.split(arg)) for _ in range(2 if plan["resplit"] else 1)]
        st = sim.stats
        ctx.interleaving(sim.log)
    ctx.fault("preemption", st["preemptions"])
    ctx.fault("completion-reordering", st["decisions"])
    ctx.probe("pool-used", st["pools"])
    for out in outs:
        ctx.check(out.ok, "split-raised", repr(out))
        folds = out.value
        nfold = cfg.get("expanding_steps", 1)
        ctx.check(len(folds) == nfold, "fold-count", "%d != %d" % (len(folds), nfold))
        for j, fold in enumerate(folds):
            tr, te = fold.train, fold.test
            if container == "single":
                tr, te = {0: tr}, {0: te}
            elif container == "list":
                ctx.check(isinstance(tr, list) and isinstance(te, list) and len(tr) == len(te) == len(keys), "container", "list expected")
                tr, te = dict(enumerate(tr)), dict(enumerate(te))
            else:
                ctx.check(isinstance(tr, dict) and isinstance(te, dict), "container", "dict expected")
            ctx.check(list(tr) == keys and list(te) == keys, "keys", "%s / %s != %s" % (list(tr), list(te), keys))
            for k, d in zip(keys, data):
                ref = reference(kind, cfg, d, stamps)
                f = dp.TrainTestData(train=tr[k], test=te[k])
                fold_ok(ctx, kind, cfg, d, ref, j, f, "fold %d key %r" % (j, k))
            ctx.event("fold", j, [C.ts_fp(tr[k]) for k in keys], [C.ts_fp(te[k]) for k in keys])
        ctx.sim_seconds += sum(len(d) for d in data) * 86400.0
    # the caller's series are left unchanged, also when the results are changed afterwards
    ctx.check([C.ts_fp(d) for d in data] == before, "caller-data-changed", "by split")
    if container == "dict":
        ctx.check(list(arg) == order_before, "caller-data-changed", "container")
    for out in outs:
        for fold in out.value:
            for x in ([fold.train, fold.test] if container == "single" else
                      (list(fold.train.values()) + list(fold.test.values()) if container == "dict" else list(fold.train) + list(fold.test))):
                if len(x):
                    x.value = x.value * 0 - 1
    ctx.check([C.ts_fp(d) for d in data] == before, "caller-data-changed", "through a returned fold")
    ctx.nontrivial = len(data) > 1 and (st["decisions"] + st["preemptions"]) > 0

"""C02: redelivering a window to a detector gives the same answer."""
import numpy as np

from .. import common as C
from .. import det
from ..sim import InjectedError, InjectedMemoryError, Sim, SimCrash, crash_at, gen_schedule

ID = "C02"
LEVEL = "exploration"
RUNS = {"quick": 900, "thorough": 40000}
CAP = {"quick": 38, "thorough": 1500}
RULE = ("A run draws a detector model, its configuration, a stream and one window with its history (for models with "
        "state, after a prefix of earlier windows whose state was saved), and delivers the same two objects again and "
        "again: complete deliveries, deliveries during which the worker dies or runs out of memory at a source line "
        "placed anywhere in the scoring, and two deliveries scored at the same time on two threads under a scheduled "
        "interleaving. Non-trivial: at least two deliveries of which one was scored. Distinct by the fault sites, "
        "the schedule and the response.")
INTER = "hash of the sequence of delivery kinds with their fault sites, and of the thread switches of concurrent deliveries"
REAL = ["CUSUM, VectorizedCUSUM, StatSig, MultiStatSig, RollingStats, DistributionDistance, StaticThreshold, Outlier, Multivariate and interval detector models", "kats.consts.TimeSeriesData"]
STUB = ["worker death and memory exhaustion: exceptions injected at source lines", "thread scheduler"]
ASSUMPTIONS = ["faults strike at kats source lines", "threads switch only at kats source lines"]

EXC = {"crash": SimCrash, "memory": InjectedMemoryError, "error": InjectedError}


def gen(r, i, tier):
    kind = r.choice(["cusum"] * 3 + ["vcusum", "vcusum", "statsig", "statsig", "multistatsig", "rolling", "rolling", "dist",
                     "threshold", "outlier", "interval", "interval"] + (["multivar"] if r.random() < 0.3 else []))
    freq = det.gen_freq(r, kind)
    cfg = det.gen_cfg(r, kind, freq)
    if kind in ("statsig", "multistatsig") and r.random() < 0.25:
        cfg["time_unit"] = None
    if kind == "statsig" and r.random() < 0.15:
        cfg["rem_season"] = True
        cfg["seasonal_period"] = "weekly" if freq == "D" else "daily"
    n = {"cusum": r.randint(20, 44), "vcusum": r.randint(20, 44), "outlier": r.randint(24, 50), "multivar": r.randint(20, 26),
         "statsig": r.randint(12, 60), "multistatsig": r.randint(12, 40)}.get(kind, r.randint(12, 80))
    st = det.gen_stream(r, kind, freq, n)
    if kind == "multivar":
        st["tz"], st["shape"] = None, "noise"
    if kind in ("rolling", "cusum", "threshold") and r.random() < 0.25:
        st["drop"] = sorted(r.sample(range(1, n - 1), r.randint(1, 4)))
    n -= len(st["drop"])
    lo = min(n - 2, max(det.min_first(kind, cfg), 1) + (4 if kind in ("cusum", "vcusum") else 0))
    b = r.randint(max(lo + 1, n // 2), n)
    a = r.randint(max(1, lo // 2) if kind not in ("outlier", "multivar") else lo, b - 1)
    if kind == "vcusum":
        a = max(a, lo)
        b = max(b, a + 1)
    elif r.random() < 0.2 and kind not in ("dist", "multivar"):
        a = 0
    prefix = []
    if kind == "cusum" and a > lo + 2 and r.random() < 0.6:
        prefix = sorted(set([lo, a] + [r.randint(lo, a) for _ in range(r.randint(0, 1))]))
    tries = []
    for _ in range(r.randint(2, 4) if kind != "multivar" else 2):
        x = r.random()
        if x < 0.30:
            tries.append({"do": "score"})
        elif x < 0.80:
            tries.append({"do": r.choice(["crash", "crash", "memory", "error"]), "at": r.choice([r.randint(0, 999), r.randint(0, 999), int(2 ** r.uniform(0, 10)) - 1])})
        else:
            tries.append({"do": "both"})
    return {"kind": kind, "cfg": cfg, "stream": st, "a": a, "b": b, "hist": r.choice([None, None, None, 40]),
            "prefix": prefix, "tries": tries, "sched": gen_schedule(r, 1500, r.choice([1, 2, 4, 8, 16, 48])),
            "rebuild": r.random() < 0.5}


def obj_fp(ts):
    """Everything a caller can see of a series object."""
    if ts is None:
        return None
    v = ts.value
    return (C.ts_fp(ts), len(ts.time), str(ts.time.dtype), list(map(str, ts.time.index)), ts.time.name, list(map(str, v.index)),
            getattr(v, "name", None), repr(ts.min), repr(ts.max), ts.time_col_name, str(sorted(ts.__dict__)))


def run(plan, ctx):
    kind, cfg = plan["kind"], plan["cfg"]
    full = det.stream(kind, cfg, plan["stream"])
    ctx.sim_seconds += plan["stream"]["n"] * det.STEP[plan["stream"]["freq"]]
    state = None
    m = det.make(kind, cfg)
    for x, y in zip(plan["prefix"], plan["prefix"][1:]):
        o = C.Outcome(lambda: det.score(m, *det.deliver(full, x, y, plan["hist"])))
        if not o.ok:
            break
        state = m.serialize()
    if state is None and kind in det.SAVES and plan["rebuild"]:
        state = det.make(kind, cfg).serialize()
    data, hist = det.deliver(full, plan["a"], plan["b"], plan["hist"])
    shape = (obj_fp(data), obj_fp(hist))
    name = "%s window [%d,%d)" % (kind, plan["a"], plan["b"])

    def untouched(what):
        got = (obj_fp(data), obj_fp(hist))
        for w, x, y in zip(("window", "history"), shape, got):
            ctx.check(x == y, w + "-changed", "%s: after %s the caller's %s is %s, was %s" % (name, what, w, y, x))

    def deliver_again():
        np.random.seed(plan["seed"] % 2**32)
        model = det.make(kind, cfg, state)
        return det.score(model, data, hist)

    # the answer to a first, undisturbed delivery of private copies
    np.random.seed(plan["seed"] % 2**32)
    d0, h0 = det.deliver(full, plan["a"], plan["b"], plan["hist"])
    cr = crash_at(None)
    with cr:
        want = C.Outcome(lambda: det.score(det.make(kind, cfg, state), d0, h0))
    log, scored = [], 0
    ctx.event("first", want.ok, type(want.exc).__name__, cr.lines, C.resp_fp(want.value) if want.ok else "")
    ctx.probe("rejected:" + type(want.exc).__name__ if not want.ok else "scored:" + kind, 1)

    def same(o, what):
        ctx.check(o.ok == want.ok and type(o.exc) is type(want.exc), "outcome", "%s: first delivery %s, %s %s" % (name, want, what, o))
        if o.ok:
            d = C.resp_diff(want.value, o.value, 0, 0)
            ctx.check(d is None, "response", "%s: %s: %s" % (name, what, d))

    for t in plan["tries"]:
        if t["do"] == "score":
            o = C.Outcome(deliver_again)
            same(o, "redelivery")
            untouched("redelivery")
            scored += o.ok
            log.append("score")
        elif t["do"] == "both":
            np.random.seed(plan["seed"] % 2**32)
            models = [det.make(kind, cfg, state) for _ in range(2)]
            s = plan["sched"]
            with Sim(s["switches"], s["picks"]) as sim:
                out = sim.run_threads([lambda m=m: det.score(m, data, hist) for m in models])
                ctx.fault("thread switch between concurrent deliveries", sim.stats["preemptions"])
                log.append(("both", tuple(map(str, sim.log))))
            for ok, v in out:
                def again(ok=ok, v=v):
                    if not ok:
                        raise v
                    return v
                o = C.Outcome(again)
                same(o, "delivery to two workers at once")
                scored += o.ok
            untouched("delivery to two workers at once")
        else:
            k = 1 + t["at"] * cr.lines // 1000
            c = crash_at(k, EXC[t["do"]])
            try:
                with c:
                    deliver_again()
            except (SimCrash, Exception):
                pass
            ctx.fault("%s while scoring" % {"crash": "worker killed", "memory": "memory exhausted", "error": "error"}[t["do"]], 1 if c.where else 0)
            ctx.event(t["do"], c.where)
            log.append((t["do"], c.where, k))
            untouched("a delivery aborted in %s" % c.where)
    o = C.Outcome(deliver_again)
    same(o, "last redelivery")
    untouched("last redelivery")
    scored += o.ok
    if o.ok:
        # what the caller does with the answer is not written into the data it will send again
        for _, ts in C.resp_parts(o.value):
            if ts is not None and len(ts):
                try:
                    ts.value.iloc[:] = -1.0
                except Exception:
                    pass
        untouched("writing into the response")
    ctx.interleaving((kind, tuple(map(str, log))))
    ctx.nontrivial = bool(plan["tries"]) and scored > 0

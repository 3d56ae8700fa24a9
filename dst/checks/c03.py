"""C03: one detector worker can serve many streams without mixing them up."""
import numpy as np

from .. import common as C
from .. import det, zyg
from ..sim import InjectedError, InjectedMemoryError, Sim, SimCrash, crash_at, gen_schedule

ID = "C03"
LEVEL = "exploration"
RUNS = {"quick": 900, "thorough": 40000}
CAP = {"quick": 38, "thorough": 1500}
RULE = ("A run draws one detector model class without state, one to three instances with their configurations, two or "
        "three streams of different shapes, widths and lengths, and a delivery order that interleaves their windows over "
        "the instances, with deliveries the model must reject and deliveries aborted at a source line in between; or it "
        "gives every instance its own thread and a scheduled interleaving. Each answer is compared with the answer of a "
        "fresh instance (in part of the runs, of a fresh process). Non-trivial: an instance answered a window after "
        "another delivery. Distinct by the order of deliveries, faults and thread switches.")
INTER = "hash of the order of deliveries with their outcomes, and of the thread switches"
REAL = ["StatSig, MultiStatSig, RollingStats, DistributionDistance, StaticThreshold, Outlier, Multivariate and interval detector models", "kats.consts.TimeSeriesData"]
STUB = ["worker aborts and memory exhaustion: exceptions injected at source lines", "thread scheduler"]
ASSUMPTIONS = ["streams of one instance have the configured time unit", "threads switch only at kats source lines"]
EXC = {"crash": SimCrash, "memory": InjectedMemoryError, "error": InjectedError}


def worker_setup():
    zyg.start()


def gen(r, i, tier):
    kind = r.choice(["statsig"] * 3 + ["multistatsig"] * 2 + ["rolling"] * 3 + ["dist", "dist", "threshold", "outlier", "interval", "interval"]
                    + (["multivar"] if r.random() < 0.2 else []))
    freq = det.gen_freq(r, kind)
    threads = r.random() < 0.25 and kind != "multivar"
    ninst = r.choice([2, 3] if threads else [1, 1, 2, 3])
    cfgs = [det.gen_cfg(r, kind, freq) for _ in range(ninst)]
    if r.random() < 0.4:
        cfgs = [cfgs[0]] * ninst
    if kind == "interval":
        for c in cfgs:
            c["cls"] = cfgs[0]["cls"]
    streams, wins = [], []
    for k in range(r.choice([2, 2, 3])):
        n = {"outlier": r.randint(20, 40), "multivar": r.randint(20, 24), "statsig": r.randint(12, 50), "multistatsig": r.randint(12, 36)}.get(kind, r.randint(12, 70))
        st = det.gen_stream(r, kind, freq, n)
        if kind == "multivar":
            st["tz"], st["shape"] = None, "noise"
        if kind == "rolling" and r.random() < 0.35:
            st["drop"] = sorted(r.sample(range(1, n - 1), r.randint(1, 4)))
        n -= len(st["drop"])
        streams.append(st)
        w = []
        for _ in range(r.randint(1, 3)):
            lo = min(n - 2, max(det.min_first(kind, cfgs[0]), 2))
            b = r.randint(lo + 1, n)
            a = r.randint(lo if kind in ("multivar", "outlier") else 1, b - 1)
            if kind not in ("dist", "multivar") and r.random() < 0.15:
                a = 0
            w.append([a, b, r.choice([None, None, None, 20, 0])])
        wins.append(w)
    ops = []
    for _ in range(r.randint(3, 7) if kind != "multivar" else 3):
        s = r.randrange(len(streams))
        o = {"inst": r.randrange(ninst), "s": s, "w": r.randrange(len(wins[s])), "do": "score"}
        if kind == "interval" and r.random() < 0.35:
            o["kw"] = {"consolidate_into_intervals": False}
        x = r.random()
        if x < 0.2 and not threads:
            o["do"] = r.choice(["crash", "memory", "error"])
            o["at"] = r.randint(0, 999)
        elif x < 0.35:
            o["do"] = r.choice(["nan", "cols", "empty", "short"])
        ops.append(o)
    return {"kind": kind, "cfgs": cfgs, "streams": streams, "wins": wins, "ops": ops, "threads": threads,
            "fork": r.random() < 0.2, "sched": gen_schedule(r, 2500, r.choice([2, 4, 8, 16, 48]))}


def delivery(plan, op, bad=False):
    from kats.consts import TimeSeriesData
    s = op["s"]
    a, b, h = plan["wins"][s][op["w"]]
    full = det.stream(plan["kind"], plan["cfgs"][0], plan["streams"][s])
    data, hist = det.deliver(full, a, b, h)
    if bad:
        v = data.value
        if op["do"] == "nan":
            x = v.astype(float)
            x.iloc[len(x) // 2:] = np.nan
            data = TimeSeriesData(time=data.time, value=x)
        elif op["do"] == "cols":
            import pandas as pd
            x = pd.DataFrame({"q%d" % k: np.asarray(v, dtype=float).reshape(len(v), -1)[:, 0] + k for k in range(3)})
            data = TimeSeriesData(time=data.time, value=x)
        elif op["do"] == "empty":
            data = data[0:0]
        else:
            data, hist = data[0:1], None
    return data, hist


def one(plan, op, model=None):
    """-> ("ok", dump) or ("raised", type, text)"""
    np.random.seed(plan["seed"] % 2**32)
    m = model if model is not None else det.make(plan["kind"], plan["cfgs"][op["inst"]])
    data, hist = delivery(plan, op, op["do"] in ("nan", "cols", "empty", "short"))
    o = C.Outcome(lambda: det.score(m, data, hist, **op.get("kw", {})))
    return ("ok", C.resp_dump(o.value)) if o.ok else ("raised", type(o.exc).__name__, str(o.exc)[:300])


def run(plan, ctx):
    kind = plan["kind"]
    want, lines, log = {}, {}, []
    key = lambda o: "%d/%d/%d/%s/%s" % (o["inst"], o["s"], o["w"], "plain" if o.get("kw") else "", o["do"] if o["do"] not in EXC else "score")
    for o in plan["ops"]:
        if key(o) in want:
            continue
        if plan["fork"]:
            q = dict(o, do=key(o).split("/")[-1])
            want[key(o)] = zyg.call("dst.checks.c03", "one", plan, q)
            ctx.probe("reference in a fresh process", 1)
        else:
            q = dict(o, do=key(o).split("/")[-1])
            want[key(o)] = one(plan, q)
    ctx.sim_seconds += sum(s["n"] for s in plan["streams"]) * det.STEP[plan["streams"][0]["freq"]]
    models = [det.make(kind, c) for c in plan["cfgs"]]
    used, shared = set(), 0

    def judge(o, got, how):
        w = want[key(o)]
        name = "%s instance %d stream %d window %s (%s)%s" % (kind, o["inst"], o["s"], plan["wins"][o["s"]][o["w"]], o["do"], how)
        if w[0] != got[0] or (w[0] == "raised" and w[1] != got[1]):
            ctx.fail("outcome", "%s: fresh instance %s, shared %s" % (name, w if w[0] != "ok" else "ok", got if got[0] != "ok" else "ok"))
        elif w[0] == "ok":
            d = C.dump_diff(w[1], got[1])
            ctx.check(d is None, "response", "%s: %s" % (name, d))
        ctx.event(key(o), got[0], got[1] if got[0] != "ok" else {k: None if x is None else (len(x[0]), repr(x[2].tolist())[:200]) for k, x in got[1].items()})
        ctx.probe("answered:" + kind if got[0] == "ok" else "rejected", 1)

    if plan["threads"]:
        s = plan["sched"]
        by = [[o for o in plan["ops"] if o["inst"] == k] for k in range(len(models))]
        with Sim(s["switches"], s["picks"]) as sim:
            out = sim.run_threads([lambda k=k: [(o, one(plan, o, models[k])) for o in by[k]] for k in range(len(models))])
            ctx.fault("thread switch between workers", sim.stats["preemptions"])
            log += list(map(str, sim.log))
        for ok, v in out:
            if not ok:
                raise v
            for o, got in v:
                judge(o, got, " on its own thread")
                shared += 1
    else:
        for o in plan["ops"]:
            m = models[o["inst"]]
            if o["do"] in EXC:
                data, hist = delivery(plan, o)
                with crash_at(None) as c0:
                    C.Outcome(lambda: det.score(det.make(kind, plan["cfgs"][o["inst"]]), data, hist))
                data, hist = delivery(plan, o)
                c = crash_at(1 + o["at"] * c0.lines // 1000, EXC[o["do"]])
                try:
                    with c:
                        det.score(m, data, hist, **o.get("kw", {}))
                except (SimCrash, Exception):
                    pass
                ctx.fault("%s while scoring" % {"crash": "delivery aborted", "memory": "memory exhausted", "error": "error"}[o["do"]], 1 if c.where else 0)
                ctx.event(o["do"], c.where)
                log.append((key(o), c.where))
            else:
                if o["do"] != "score":
                    ctx.fault("delivery of a damaged window (%s)" % o["do"], 1)
                got = one(plan, o, m)
                judge(o, got, "")
                shared += o["inst"] in used
                log.append((key(o), got[0]))
            used.add(o["inst"])
    ctx.interleaving((kind, tuple(map(str, log))))
    ctx.nontrivial = shared > 0

"""C16: a stored nowcasting model restores the same one-step forecasts."""
import copy
import pickle

import numpy as np
import pandas as pd

from .. import common as C
from .. import zyg
from ..sim import Sim, gen_schedule

ID = "C16"
LEVEL = "exploration"
RUNS = {"quick": 6000, "thorough": 200000}
CAP = {"quick": 38, "thorough": 1500}
RULE = ("A run creates trainers and servers of one to three nowcasting models over one or two series and performs a random sequence of fits, stores, fetches, "
        "forecasts, re-stores by servers, forecasts with an external model or frame, and restarts, with a key-value store that loses writes, serves stale or "
        "truncated values and delivers twice; part of the runs have the servers on simulated threads. Every forecast is compared with that of a reference "
        "server that was handed the trainer's live model object. Non-trivial: at least one forecast from restored bytes after a fault, a second load or a context switch. Distinct by event log.")
INTER = "the order of operations and store faults, or scheduling decisions of the simulated threads"
REAL = ["NowcastingModel, NowcastingPlusModel, dynamic NowcastingModel (feature_extraction, label_extraction, fit, save_model, load_model, predict)", "model_io", "sklearn, pickle"]
STUB = ["the key-value store between trainers and servers", "thread scheduling in the threaded runs"]
ASSUMPTIONS = ["the store damages values only by truncating them (sklearn pickles carry no checksum)", "a server of a scaled model is constructed with the trainer's scalers, as the constructor provides",
               "fitting takes no seed, so forecasts of two fits are not compared"]

KINDS = "AAAAZZZZZBBD"
_cache = {}


def gen(r, i, tier):
    kinds = [r.choice(KINDS) for _ in range(r.choice([1, 1, 2, 3]))]
    cache = r.random() < 0.7
    data = [{"seed": r.randrange(6) if cache else r.randint(0, 2**31 - 1), "n": r.choice([56, 64] if cache else [56, 64, 80]), "freq": r.choice(["H", "H", "30T"])} for _ in range(r.choice([1, 2]))]
    pairs = [[k, r.randrange(len(data)), r.choice([1, 1, 2])] for k in kinds]
    servers = [[r.randrange(len(pairs)), r.choice([0, 0, 3, 6])] for _ in range(r.randint(1, 3))]
    threads = r.random() < 0.25
    if threads:
        loads = [[r.randrange(2) for _ in range(r.randint(1, 3))] for _ in servers]
        return {"threads": True, "cache": cache, "data": data, "pairs": pairs, "servers": servers, "loads": loads, "sched": gen_schedule(r, r.choice([60, 400, 1500]), 8)}
    ops = [["fit", k] for k in range(len(pairs))] + [["put", k, 0, None, 0] for k in range(len(pairs))]
    for _ in range(r.randint(4, 14)):
        o = r.choice(["fit", "put", "put", "get", "get", "get", "get", "resave", "predict", "predict", "ext", "df", "empty", "fresh", "restart"])
        if o == "fit":
            ops.append([o, r.randrange(len(pairs))])
        elif o == "put":
            ops.append([o, r.randrange(len(pairs)), r.randrange(2), r.choice([None, None, "lost", "torn", "dup"]), round(r.random(), 3)])
        elif o == "get":
            ops.append([o, r.randrange(len(servers)), r.randrange(2), r.choice([0, 0, 0, 1, 2]), r.choice([None, None, None, round(r.random(), 3), 1.0]), r.choice([1, 1, 2])])
        elif o == "resave":
            ops.append([o, r.randrange(len(servers)), r.randrange(2)])
        else:
            ops.append([o, r.randrange(len(servers)), r.randrange(2)])
    ops.append(["get", 0, 0, 0, None, 1])
    return {"threads": False, "cache": cache, "data": data, "pairs": pairs, "servers": servers, "ops": ops}


def setup():
    zyg.start()


def worker_setup():
    # smaller ensembles: what is judged does not depend on the number of trees
    import functools
    from kats.models.nowcasting import dynamic_nowcasting, nowcasting
    for m, name, n in ((dynamic_nowcasting, "RandomForestRegressor", 8), (nowcasting, "GradientBoostingRegressor", 25)):
        if isinstance(getattr(m, name, None), type):
            setattr(m, name, functools.partial(getattr(m, name), n_estimators=n))


def mod(kind):
    from kats.models.nowcasting import dynamic_nowcasting, nowcasting, nowcastingplus
    if kind == "A":
        return nowcasting.NowcastingModel, nowcasting.NowcastingParams
    if kind == "B":
        return nowcastingplus.NowcastingPlusModel, nowcastingplus.NowcastingParams
    return dynamic_nowcasting.NowcastingModel, dynamic_nowcasting.NowcastingParams


def series(d, extra, zero):
    from kats.consts import TimeSeriesData
    n = d["n"] + extra
    g = np.random.RandomState(d["seed"] % 2**32)
    v = 50 + 5 * np.sin(np.arange(100) / 4.0) + g.normal(0, 1, 100)
    if zero:
        v[d["n"] // 2] = 0.0
    return TimeSeriesData(time=pd.Series(pd.date_range("2021-01-04", periods=n, freq=d["freq"])), value=pd.Series(v[:n], name="y"))


def make(kind, ts, step, args=None):
    M, P = mod(kind)
    m = M(data=ts, params=P(step=step), **(args or {}))
    m.feature_extraction()
    return m


def scalers(kind, m):
    if kind == "B":
        return {"scaler": m.scaler}
    if kind in "DZ":
        return {"scaler": m.scaler, "label_scaler": m.label_scaler}
    return {}


def train(kind, ts, step, g):
    m = make(kind, ts, step)
    m.label_extraction()
    np.random.seed(3 + g)
    m.fit()
    return m


def forecast(m):
    try:
        return np.asarray(m.predict(), dtype=float).tolist()
    except AttributeError:
        # no model has been loaded
        return "none"


def fresh(kind, d, extra, step, args, raw):
    m = make(kind, series(d, extra, kind == "Z"), step, pickle.loads(args))
    m.load_model(raw)
    return forecast(m)


def run(plan, ctx):
    pairs = plan["pairs"]
    # live models: [model object at save time, scaler args]
    live = []
    cur = {}
    refs = {}

    shared = {}

    def ts_of(p, extra):
        """The series of a pair: all its trainers and servers share the object."""
        kind, di, _ = pairs[p]
        k = (di, extra, kind == "Z")
        if k not in shared:
            t = series(plan["data"][di], extra, kind == "Z")
            shared[k] = (t, C.ts_fp(t))
        return shared[k][0]

    def data_unchanged():
        for t, fp in shared.values():
            ctx.check(C.ts_fp(t) == fp, "data", "a nowcasting model changed the series it was given")

    def fit(p):
        kind, di, step = pairs[p]
        # most runs take the trained objects of an earlier run of this process, as pickled then
        key = (kind, str(plan["data"][di]), step, len([L for L in live if L["p"] == p]) % 2)
        if not plan["cache"] or key not in _cache:
            m = train(kind, ts_of(p, 0), step, key[3])
            if plan["cache"]:
                _cache[key] = pickle.dumps(m)
        else:
            m = pickle.loads(_cache[key])
        live.append({"p": p, "model": m.model, "args": scalers(kind, m), "obj": m})
        cur[p] = len(live) - 1
        return m

    def ref(v, extra):
        """The forecast of a server holding the live model object of version v."""
        if (v, extra) not in refs:
            L = live[v]
            kind, _, step = pairs[L["p"]]
            a = copy.deepcopy(L["args"])
            a["model"] = L["model"]
            refs[v, extra] = forecast(make(kind, ts_of(L["p"], extra), step, a))
        return refs[v, extra]

    if plan["threads"]:
        for p in range(len(pairs)):
            fit(p), fit(p)
        vers = {p: [v for v in range(len(live)) if live[v]["p"] == p] for p in range(len(pairs))}
        raws = [L["obj"].save_model() for L in live]
        want = [[ref(vers[p][l], extra) for l in plan["loads"][s]] for s, (p, extra) in enumerate(plan["servers"])]
        got = [[] for _ in plan["servers"]]
        for p, extra in plan["servers"]:
            ts_of(p, extra)

        def body(s):
            p, extra = plan["servers"][s]
            kind, di, step = pairs[p]

            def f():
                for l in plan["loads"][s]:
                    v = vers[p][l]
                    m = make(kind, ts_of(p, extra), step, copy.deepcopy(live[v]["args"]))
                    m.load_model(raws[v])
                    got[s].append(forecast(m))
            return f
        with Sim(plan["sched"]["switches"], plan["sched"]["picks"]) as sim:
            sim.run_threads([body(s) for s in range(len(got))])
        ctx.interleaving(sim.log)
        ctx.fault("preemption between threads", sim.stats.get("preemptions", 0))
        for s, (p, extra) in enumerate(plan["servers"]):
            for a, b in zip(got[s], want[s]):
                ctx.check(C.same(a, b), "threaded:" + pairs[p][0], "server %d (%s) on a thread forecast %s, alone with the live model %s" % (s, pairs[p], a, b))
            ctx.event(s, str(got[s])[:100])
            ctx.probe("forecasts " + pairs[p][0], len(got[s]))
        data_unchanged()
        ctx.nontrivial = sim.stats.get("preemptions", 0) > 0 or len(got) > 1
        return

    store = {}
    servers = []

    def start(s):
        p, extra = plan["servers"][s]
        kind, _, step = pairs[p]
        return {"p": p, "extra": extra, "m": make(kind, ts_of(p, extra), step, copy.deepcopy(live[cur[p]]["args"])), "v": None, "loads": 0}

    def expect(sv):
        return "none" if sv["v"] is None else ref(sv["v"], sv["extra"])

    def judge(sv, what):
        got = forecast(sv["m"])
        want = expect(sv)
        kind = pairs[sv["p"]][0]
        ok = got == want if "none" in (got, want) else C.same(got, want)
        ctx.check(ok, "forecast:" + kind, "%s: the server of %s forecast %s, with the trainer's live model %s" % (what, pairs[sv["p"]], got, want))
        ctx.event("forecast", kind, sv["v"], str(got)[:60])
        ctx.probe("forecasts " + kind, 1)

    def swap(sv, v):
        """A version with other scalers needs a server constructed with them."""
        if sv["v"] is None or live[v]["args"]:
            p = sv["p"]
            kind, _, step = pairs[p]
            m = make(kind, ts_of(p, sv["extra"]), step, copy.deepcopy(live[v]["args"]))
            m.model = sv["m"].model
            sv["m"] = m

    faults = 0
    for step, op in enumerate(plan["ops"]):
        what = "step %d %s" % (step, op)
        if op[0] == "fit":
            fit(op[1])
            ctx.event("fit", op[1])
            if not servers and len(cur) == len(pairs):
                servers = [start(s) for s in range(len(plan["servers"]))]
        elif op[0] == "put":
            p = op[1]
            v = cur[p]
            before = forecast(live[v]["obj"])
            raw = live[v]["obj"].save_model()
            ctx.check(isinstance(raw, bytes) and raw, "save", "%s: save_model returned %r" % (what, type(raw)))
            ctx.check(C.same(forecast(live[v]["obj"]), before), "save-changes", "%s: saving changed the trainer's forecast" % what)
            vs = store.setdefault((p, op[2]), [])
            if op[3]:
                ctx.fault("store: " + op[3])
                faults += 1
            if op[3] == "torn":
                vs.append([raw[:int(len(raw) * op[4])], None])
            elif op[3] != "lost":
                vs.extend([[raw, v]] * (2 if op[3] == "dup" else 1))
        elif op[0] == "get":
            sv = servers[op[1]]
            vs = store.get((sv["p"], op[2]))
            if not vs:
                continue
            if op[3] and len(vs) > 1:
                ctx.fault("store: stale read")
            raw, v = vs[max(0, len(vs) - 1 - op[3])]
            if op[4] is not None and raw:
                k = int(len(raw) * op[4]) if op[4] < 1 else len(raw) - 1
                raw, v = raw[:k], None
                ctx.fault("store: truncated read")
                faults += 1
            for _ in range(op[5]):
                if v is not None:
                    swap(sv, v)
                try:
                    sv["m"].load_model(raw)
                    if not raw:
                        sv["v"] = None
                    else:
                        ctx.check(v is not None, "truncated-accepted", "%s: %d bytes of a truncated model were accepted" % (what, len(raw)))
                        sv["v"] = v
                    sv["loads"] += 1
                except Exception as e:
                    ctx.check(v is None, "intact-refused", "%s: intact bytes were refused: %r" % (what, e))
                    ctx.probe("refused truncated bytes", 1)
                judge(sv, what)
            if op[5] > 1:
                ctx.fault("store: redelivery")
            ctx.nontrivial = ctx.nontrivial or faults > 0 or sv["loads"] > 1
        elif op[0] == "predict":
            judge(servers[op[1]], what)
        elif op[0] == "resave":
            sv = servers[op[1]]
            if sv["v"] is not None:
                store.setdefault((sv["p"], op[2]), []).append([sv["m"].save_model(), sv["v"]])
                ctx.probe("re-stored by a server", 1)
                judge(sv, what)
            else:
                ctx.check(sv["m"].save_model() == b"", "empty", "%s: a server without a model saved something" % what)
        elif op[0] == "empty":
            sv = servers[op[1]]
            sv["m"].load_model(b"" if op[2] else None)
            sv["v"] = None
            judge(sv, what)
        elif op[0] == "restart":
            servers[op[1]] = start(op[1])
            ctx.fault("server restart")
        elif op[0] == "fresh":
            sv = servers[op[1]]
            vs = [x for x in store.get((sv["p"], op[2]), []) if x[1] is not None]
            if vs:
                raw, v = vs[-1]
                kind, di, st = pairs[sv["p"]]
                got = zyg.call("dst.checks.c16", "fresh", kind, plan["data"][di], sv["extra"], st, pickle.dumps(live[v]["args"]), raw)
                ctx.check(C.same(got, ref(v, sv["extra"])), "fresh:" + kind, "%s: in a fresh process the forecast is %s, with the live model %s" % (what, got, ref(v, sv["extra"])))
                ctx.probe("fresh process", 1)
        elif op[0] == "ext":
            sv = servers[op[1]]
            if pairs[sv["p"]][0] != "A":
                continue
            v = cur[sv["p"]]
            got = np.asarray(sv["m"].predict(model=live[v]["model"]), dtype=float).tolist()
            ctx.check(C.same(got, ref(v, sv["extra"])), "external", "%s: forecast with an external model %s, expected %s" % (what, got, ref(v, sv["extra"])))
            judge(sv, what + " (after a call with an external model)")
        elif op[0] == "df":
            sv = servers[op[1]]
            if pairs[sv["p"]][0] != "A" or sv["v"] is None:
                continue
            other = make("A", ts_of(sv["p"], 9), pairs[sv["p"]][2]).df
            keep = other.copy()
            sv["m"].predict(df=other)
            ctx.check(other.equals(keep), "external-frame", "%s: the external frame was changed" % what)
            judge(sv, what + " (after a call with an external frame)")
    for sv in servers:
        judge(sv, "at the end")
    data_unchanged()
    ctx.interleaving(plan["ops"])
    ctx.sim_seconds += 3600 * sum(d["n"] for d in plan["data"])

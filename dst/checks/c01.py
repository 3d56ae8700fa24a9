"""C01: restarting a detector from its saved state is invisible in its output."""
import json

from .. import common as C
from .. import det, zyg
from ..sim import SimCrash, crash_at

ID = "C01"
LEVEL = "exploration"
RUNS = {"quick": 900, "thorough": 40000}
CAP = {"quick": 38, "thorough": 1500}
RULE = ("A run draws a detector model and its configuration, a stream, the delivery windows it is cut into and, "
        "per window, whether a worker saves more often, is killed at a source line inside scoring, is killed between "
        "scoring and saving (the window is then redelivered), or is restarted from the saved bytes, in the same "
        "process or in a fresh one. Non-trivial: a window was scored by a rebuilt model. Distinct by the sequence of "
        "windows, crashes and restarts with their responses.")
REAL = ["CUSUM, StatSig, MultiStatSig, RollingStats, DistributionDistance, StaticThreshold and Outlier detector models", "kats.consts.TimeSeriesData"]
STUB = ["worker process death: an injected BaseException at a source line, after which only the saved bytes are kept", "storage of the saved bytes (always whole)"]
ASSUMPTIONS = ["a worker dies only at kats source lines or between calls", "saved bytes are stored whole"]


def worker_setup():
    zyg.start()


def gen(r, i, tier):
    kind = r.choice(["cusum"] * 4 + ["statsig", "statsig", "multistatsig", "multistatsig", "rolling", "rolling", "dist", "threshold", "outlier"])
    freq = det.gen_freq(r, kind)
    cfg = det.gen_cfg(r, kind, freq)
    if kind == "statsig" and r.random() < 0.1:
        cfg["rem_season"] = True
        cfg["seasonal_period"] = "weekly" if freq == "D" else "daily"
    if kind in ("statsig", "multistatsig") and r.random() < 0.25:
        cfg["time_unit"] = None
    n = {"cusum": r.randint(24, 48), "statsig": r.randint(20, 70), "multistatsig": r.randint(18, 45),
         "outlier": r.randint(24, 60)}.get(kind, r.randint(20, 90))
    st = det.gen_stream(r, kind, freq, n)
    if kind in ("rolling", "cusum", "threshold") and r.random() < 0.25:
        st["drop"] = sorted(r.sample(range(1, n - 1), r.randint(1, 4)))
    n = st["n"] - len(st["drop"])
    first = min(n - 3, max(r.randint(4, n // 2), det.min_first(kind, cfg) + (6 if kind == "cusum" else 2)))
    sizes = [1, 1, 2, 3, 5, 8, 13] if kind != "cusum" else [1, 2, 4, 7, 12]
    cuts = det.gen_cuts(r, n, first, sizes)
    m = r.choice([3, 4, 5])
    if kind not in ("rolling", "threshold") and len(cuts) > m + 1:
        cuts = cuts[:m] + [n]
    hist = r.choice([None, None, None, 60]) if kind != "threshold" else r.choice([None, 0])
    wins = []
    for _ in cuts[1:]:
        w = {}
        x = r.random()
        if x < 0.30:
            w["kill"] = int(2 ** r.uniform(0, 13))
        elif x < 0.45:
            w["lose"] = r.choice([1, 1, 2])         # scored, killed before the state was stored
        elif x < 0.75:
            w["restart"] = True
        if r.random() < 0.3:
            w["pre"] = r.randint(1, 2)
        if r.random() < 0.3:
            w["post"] = r.randint(1, 2)
        wins.append(w)
    return {"kind": kind, "cfg": cfg, "stream": st, "cuts": cuts, "hist": hist, "wins": wins, "fork": r.random() < 0.3}


def attempt(plan, model, full, j):
    """Scores delivery j: its dump, or how it was rejected."""
    a, b = plan["cuts"][j], plan["cuts"][j + 1]
    data, hist = det.deliver(full, a, b, plan["hist"])
    o = C.Outcome(lambda: det.score(model, data, hist))
    return ("ok", C.resp_dump(o.value)) if o.ok else ("rejected", type(o.exc).__name__, str(o.exc)[:300])


def worker(plan, state, j, kill):
    """One worker's life: rebuilt (or freshly configured), scores delivery j, saves. -> (answer, state, died at)"""
    import numpy as np
    np.random.seed(plan["seed"] % 2**32)
    kind = plan["kind"]
    full = det.stream(kind, plan["cfg"], plan["stream"])
    m = det.make(kind, plan["cfg"], state)
    if state is not None and kind in det.SAVES:
        again = m.serialize()
    else:
        again = state
    if kill:
        cr = crash_at(kill)
        try:
            with cr:
                ans = attempt(plan, m, full, j)
        except SimCrash:
            return None, None, cr.where, again
        if cr.where:         # swallowed by a handler: the worker is dead all the same
            return None, None, cr.where, again
    else:
        ans = attempt(plan, m, full, j)
    return ans, (m.serialize() if ans[0] == "ok" else None), None, again


def norm(b):
    """The saved state as values (the diagnostic flag about the last window is not state)."""
    d = json.loads(b)
    if isinstance(d, dict):
        d.pop("vectorized_trans_flag", None)
    return json.dumps(d, sort_keys=True)


def run(plan, ctx):
    kind = plan["kind"]
    full = det.stream(kind, plan["cfg"], plan["stream"])
    cfg = plan["cfg"]
    ref = det.make(kind, cfg)
    ctx.sim_seconds += plan["stream"]["n"] * det.STEP[plan["stream"]["freq"]]
    live, state, log = det.make(kind, cfg), None, []
    rebuilt = False
    # what a fresh model saves is what a fresh model rebuilt from it saves
    if plan["seed"] % 3 == 0:
        state = live.serialize()
    spawn = (lambda *a: zyg.call("dst.checks.c01", "worker", plan, *a)) if plan["fork"] else (lambda *a: worker(plan, *a))
    for j, w in enumerate(plan["wins"]):
        want = attempt(plan, ref, full, j)
        name = "%s window %d [%d,%d)" % (kind, j, plan["cuts"][j], plan["cuts"][j + 1])
        if w.get("kill"):
            ans, _, where, _ = spawn(state, j, w["kill"])
            if where:
                ctx.fault("worker killed while scoring", 1)
                ctx.event("killed", where)
                live = None
            else:
                same_answer(ctx, want, ans, name + " scored by a rebuilt model")
        for _ in range(w.get("lose", 0)):
            ans, _, _, _ = spawn(state, j, None)
            same_answer(ctx, want, ans, name + " scored by a rebuilt model that was lost before saving")
            ctx.fault("worker killed between scoring and saving", 1)
            live = None
        if w.get("restart"):
            live = None
            ctx.fault("worker restarted between windows", 1)
        if live is None:
            rebuilt = rebuilt or state is not None
            if plan["fork"]:
                ans, new, _, again = spawn(state, j, None)
                if state is not None:
                    ctx.check(norm(again) == norm(state), "state-of-rebuilt", "%s: %s != %s" % (name, again, state))
            else:
                live = det.make(kind, cfg, state)
                if state is not None:
                    ctx.check(norm(live.serialize()) == norm(state), "state-of-rebuilt", "%s: %s != %s" % (name, live.serialize(), state))
        if live is not None:
            for _ in range(w.get("pre", 0)):
                live.serialize()
            ans = attempt(plan, live, full, j)
        same_answer(ctx, want, ans, name)
        log.append((plan["cuts"][j + 1], ans[0], sorted(w), live is None))
        ctx.event("window", j, want[0], digest(want), sorted(w))
        if want[0] != "ok":
            ctx.probe("rejected:" + want[1], 1)
            break
        if live is not None:
            new = live.serialize()
            for _ in range(w.get("post", 0)):
                ctx.check(norm(live.serialize()) == norm(new), "save-twice", name)
        ctx.check(norm(new) == norm(ref.serialize()), "state", "%s: %s != %s" % (name, new, ref.serialize()))
        state = new
        ctx.probe("windows scored", 1)
        if kind == "cusum":
            d = json.loads(state)
            ctx.probe("cusum alert state carried over", int(bool(d["alert_fired"])))
            ctx.probe("cusum vectorized window", int(bool(d["vectorized_trans_flag"])))
    ctx.interleaving((kind, tuple(map(str, log))))
    ctx.nontrivial = rebuilt


def digest(ans):
    import hashlib
    if ans[0] != "ok":
        return ans[1]
    h = hashlib.sha256()
    for k in sorted(ans[1]):
        x = ans[1][k]
        if x is not None:
            h.update(k.encode() + x[0].tobytes() + repr(x[2].tolist()).encode())
    return h.hexdigest()[:12]


def same_answer(ctx, want, got, name):
    if want[0] != got[0] or (want[0] == "rejected" and want[1] != got[1]):
        ctx.fail("outcome", "%s: uninterrupted %s, restarted %s" % (name, want[:1] + want[1:3] if want[0] != "ok" else "ok", got[:1] + got[1:3] if got[0] != "ok" else "ok"))
        return
    if want[0] == "ok":
        d = C.dump_diff(want[1], got[1])
        ctx.check(d is None, "response", "%s: %s" % (name, d))

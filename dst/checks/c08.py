"""C08: backtest folds never look ahead and follow their documented layout."""
import numpy as np
import pandas as pd

from .. import bt, toys
from .. import common as C
from ..sim import Sim, gen_schedule

ID = "C08"
LEVEL = "exploration"
RUNS = {"quick": 700, "thorough": 40000}
CAP = {"quick": 38, "thorough": 2000}
RULE = ("A run draws a backtest class, data length, percentages, folds, gap and schedule. A recording model, run in the "
        "(simulated) worker that the schedule chooses, reports every point it was given, every horizon it was asked for; "
        "these are compared with the documented layout. Non-trivial: the layout was accepted and the run had two or "
        "more folds, or a gap; distinct by event log.")
REAL = ["kats.utils.backtesters", "kats.utils.datapartition", "worker processes (forks) and threads"]
STUB = ["pool scheduling", "cpu_count", "the forecasting model (records what it is given)"]
ASSUMPTIONS = ["the layout formulas are those of the class documentation: floor of size times percentage, even slides"]


def gen(r, i, tier):
    if r.random() < 0.65:
        p = bt.gen_std(r)
        p["n"] = r.randint(10, 130)
        if r.random() < 0.5 and p["kind"] not in ("simple", "fixed"):
            p["a"] = round(r.uniform(10, 80), r.choice([0, 1]))
            p["b"] = round(r.uniform(3, max(4, 99 - p["a"])), r.choice([0, 1]))
            p["k"] = r.randint(1, 9)
        p["cores"] = r.choice([1, 2, 4, 8])
        p["multi"] = r.random() < 0.6
    else:
        p = bt.gen_generic(r)
        if p["part"] == "rolling":
            p["dp"]["window_frac"] = r.choice([0.0, 0.0, 0.05, 0.1, 0.2])
        p["multi"] = r.random() < 0.8
    p["model"] = "toy"
    p["sched"] = gen_schedule(r, 250 * 3)
    p["late"] = r.random() < 0.3
    return p


def check_fold(ctx, i, rec, T, V, train, test, gap):
    lo, hi = train
    tlo, thi = test
    w = "fold %d" % i
    ctx.check(len(rec["times"]) and max(rec["times"]) < T[tlo], "look-ahead",
              "%s: model saw a point at or after its test range" % w)
    ctx.check(rec["times"] == list(T[lo:hi]), "train-range", "%s: %d points from index %s, expected [%d,%d)" % (
        w, len(rec["times"]), list(T).index(rec["times"][0]) if rec["times"][0] in list(T) else "?", lo, hi))
    ctx.check(C.same(rec["values"], V[lo:hi]), "train-values", w)
    ctx.check(rec["fits"] == 1, "fits", "%s fitted %d times" % (w, rec["fits"]))
    ctx.check(rec["steps"] == [thi - hi], "horizon", "%s: asked for %s steps, test range ends %d after training" % (
        w, rec["steps"], thi - hi))


def run(plan, ctx):
    p, s = plan, plan["sched"]
    if p["kind"] == "generic":
        return run_generic(p, s, ctx)
    data = C.series(p["seed"], p["n"], p["shape"], p["freq"])
    T = [int(x) for x in pd.DatetimeIndex(data.time).asi8]
    V = np.asarray(data.value.values, dtype=float)
    a, b, w, slides = bt.std_layout(p)
    n = p["n"]
    with Sim(s["switches"], s["picks"], cores=p["cores"], late_pickle=p["late"]) as sim:
        holder = []
        o = C.Outcome(lambda: holder.append(bt.go(bt.make_std(p, data, p["multi"]))))
        st = sim.stats
        ctx.interleaving(sim.log)
    last = max(x for x in slides if x is not None)
    possible = (a >= 1 and b >= 1 and a + b + w + 0 <= n and last >= 0
                and (len(slides) == 1 or a + b < n) and p["a"] + p["b"] + (0 if "k" in p else 0) <= 100
                and not (len(slides) > 1 and p["a"] + p["b"] == 100))
    if not o.ok:
        ctx.check(not possible or p["model"] != "toy", "layout-refused",
                  "valid layout refused: %r" % o)
        ctx.check(isinstance(o.exc, ValueError), "layout-error-type", repr(o))
        ctx.probe("refused")
        ctx.event("refused", a, b, w, n)
        return
    ctx.check(a >= 1 and b >= 1 and a + b + w <= n, "impossible-layout-accepted", "a=%d b=%d w=%d n=%d" % (a, b, w, n))
    res = holder[0].results
    ctx.check(len(res) == len(slides), "fold-count", "%d != %d" % (len(res), len(slides)))
    const = p["kind"] == "rw" or (p["kind"] in ("ro", "cv") and p["const"])
    prev, steps = None, []
    for i, (tr, truth, model, preds) in enumerate(res):
        rec = model.rec
        # the slide is read off the end of the training range
        end = T.index(rec["times"][-1]) + 1 if rec["times"] and rec["times"][-1] in T else -1
        o_i = end - a
        if slides[i] is not None:
            ctx.check(o_i == slides[i], "fold-position", "fold %d slid by %d, documented %d" % (i, o_i, slides[i]))
        if prev is not None:
            ctx.check(o_i >= prev, "fold-order", "fold %d slid by %d after %d" % (i, o_i, prev))
            steps.append(o_i - prev)
        prev = o_i
        lo = o_i if const else 0
        test = (a + o_i + w, a + o_i + w + b)
        ctx.check(test[1] <= n, "fold-beyond-data", "fold %d" % i)
        check_fold(ctx, i, rec, T, V, (lo, a + o_i), test, w)
        ctx.check(C.same(tr, V[lo:a + o_i]), "result-train", "fold %d" % i)
        ctx.check(C.same(truth, V[test[0]:test[1]]), "result-truth", "fold %d" % i)
        ctx.check(len(preds) == b, "result-forecast", "fold %d has %d forecasts for %d test points" % (i, len(preds), b))
        again = np.asarray(model.predict(steps=b + w)["fcst"])[w:]
        ctx.check(C.same(preds, again), "result-forecast", "fold %d: not the forecast of its test points" % i)
        ctx.event("fold", i, lo, a + o_i, test)
    if steps:
        ctx.check(max(steps) - min(steps) <= 1, "uneven-slides", str(steps))
        ctx.check(res and (a + prev + b) == n, "last-fold", "ends at %d of %d" % (a + prev + b, n))
    ctx.fault("task-assignment-and-completion-order", st["decisions"])
    ctx.fault("late-pickling", 1 if p["late"] else 0)
    ctx.probe("folds", len(res))
    ctx.probe("kind-" + p["kind"])
    ctx.sim_seconds += n * C.FREQS[p["freq"]]
    ctx.nontrivial = len(res) > 1 or w > 0


def run_generic(p, s, ctx):
    data = bt.generic_data(p, p["seed"])
    many = data if isinstance(data, dict) else dict(enumerate(data)) if isinstance(data, list) else {0: data}
    del toys.SEEN[:]
    toys_model = toys.series_model
    toys.series_model = lambda name: (toys.SeenModel, lambda: toys.ToyParams(2), 2)
    try:
        with Sim(s["switches"], s["picks"], cores=p["cores"]) as sim:
            back = bt.make_generic(p, p["multi"])
            o = C.Outcome(lambda: back.run_backtester(data))
            st = sim.stats
            ctx.interleaving(sim.log)
    finally:
        toys.series_model = toys_model
    ctx.check(o.ok, "raised", repr(o))
    view = bt.generic_view(back)
    seen = {}
    for m in toys.SEEN:
        seen.setdefault((tuple(m.rec["times"]), tuple(m.rec["values"])), []).append(m)
    del toys.SEEN[:]
    dp = p["dp"]
    nf = dp.get("expanding_steps", 1)
    ctx.check(len(view["raw"]) == nf, "fold-count", "%d != %d" % (len(view["raw"]), nf))
    asked = sum(len(v) for v in seen.values())
    ctx.check(asked == nf * len(many), "model-count", "%d models for %d folds of %d series" % (asked, nf, len(many)))
    for key, d in many.items():
        n = len(d)
        T = [int(x) for x in pd.DatetimeIndex(d.time).asi8]
        V = np.asarray(d.value.values, dtype=float)
        if p["part"] == "simple":
            a, w, b = int(n * dp["train_frac"]), 0, dp["test_size"]
        else:
            a, w, b = int(n * dp["start_train_frac"]), int(n * dp["window_frac"]), int(n * dp["test_frac"])
        span = n - a - b - w if p["part"] != "simple" else 0
        prev = None
        for i in range(nf):
            raw = view["raw"][i]
            ctx.check(raw is not None, "fold-failed", "fold %d" % i)
            if "key" in raw.columns:
                raw = raw[raw["key"] == str("x" if p["flavour"] == "one" else key)]
            y = np.asarray(raw["y"], dtype=float)
            ctx.check(len(y) == b, "result-truth", "fold %d has %d of %d test points" % (i, len(y), b))
            at = [q for q in range(n - b + 1) if C.same(V[q:q + b], y)]
            ctx.check(bool(at), "result-truth", "fold %d judged on points that are not a range of the data" % i)
            o_i = at[0] - w - a
            exact = 0 if i == 0 else (span if i == nf - 1 else None)
            if exact is not None:
                ctx.check(o_i == exact, "fold-position", "fold %d slid by %d, documented %d" % (i, o_i, exact))
            else:
                ctx.check(abs(o_i - i * span / (nf - 1)) <= 1, "fold-position", "fold %d slid by %d" % (i, o_i))
            ctx.check(prev is None or o_i >= prev, "fold-order", "fold %d" % i)
            prev = o_i
            lo = o_i if dp.get("constant_train_size") else 0
            k = (tuple(T[lo:a + o_i]), tuple(V[lo:a + o_i]))
            ctx.check(k in seen, "train-range", "fold %d of %r: no model was trained on exactly [%d,%d)" % (i, key, lo, a + o_i))
            m = seen[k][0]
            check_fold(ctx, i, m.rec, T, V, (lo, a + o_i), (at[0], at[0] + b), w)
            f = np.asarray(m.predict(steps=w + b)["fcst"])[w:]
            m.rec["steps"].pop()
            ctx.check(C.same(np.asarray(raw["fcst"], dtype=float), f), "result-forecast",
                      "fold %d of %r: forecast is not that of its test points" % (i, key))
            ctx.event("fold", str(key), i, lo, a + o_i, at[0])
    ctx.fault("preemption", st["preemptions"])
    ctx.fault("task-assignment-and-completion-order", st["decisions"])
    ctx.probe("folds", nf)
    ctx.probe("generic-" + p["flavour"])
    ctx.sim_seconds += p["n"] * 86400
    ctx.nontrivial = nf > 1

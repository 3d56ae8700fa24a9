"""C18: series assembled from out-of-order deliveries end up the same."""
import copy
import operator
import pickle
import sys

import numpy as np
import pandas as pd

from .. import common as C
from ..sim import InjectedMemoryError, Sim, gen_schedule, is_kats_file

ID = "C18"
LEVEL = "exploration"
RUNS = {"quick": 4000, "thorough": 150000}
CAP = {"quick": 38, "thorough": 1500}
RULE = ("A run is a history of 6-24 operations by several actors on a growing set of related series: series built from "
        "points that the simulated network delivered reordered, duplicated (a stale copy has another value) and in batches, "
        "slices, copies, arithmetic, interpolation, iteration, exclusion, extension, time zone changes, new values, writes "
        "into a series; some operations run at the same time on simulated threads, and in some an allocation (a pandas call "
        "made by kats) fails. After every operation all live series are compared with a reference model (plain arrays). "
        "Non-trivial: at least four live series. Distinct by the operations and resulting contents.")
INTER = "hash of the operations in order, the failing allocation and the scheduling decisions"
REAL = ["kats.consts.TimeSeriesData, TimeSeriesIterator, TSIterator", "pandas and numpy"]
STUB = ["message delivery", "thread scheduling", "failing allocations: chosen pandas calls made from kats raise MemoryError"]
ASSUMPTIONS = ["a failing allocation shows up as MemoryError from a pandas call (concat, merge, DataFrame/Series reset_index, sort_values, infer_freq), not inside pandas' own update of an object",
               "points with equal timestamps that are not dropped may come in any order and are not compared further"]

STEPS = {"H": 3600, "D": 86400, "15T": 900}
TZS = ["US/Eastern", "UTC", "Europe/London"]
OPS = [("build", 3), ("slice", 3), ("columns", 1), ("copy", 1), ("arith", 3), ("const", 2), ("interp", 3), ("iter", 2), ("exclude", 2),
       ("extend", 4), ("setval", 2), ("settime", 1), ("poke", 3), ("tz", 2), ("conv", 1), ("frame", 2), ("threads", 2), ("bad", 2), ("batches", 2)]


def gen(r, i, tier):
    names = [o for o, w in OPS for _ in range(w)]
    ops = [["build"] + [r.randint(0, 10**6) for _ in range(4)]]
    for _ in range(r.randint(5, 23)):
        op = [r.choice(names)] + [r.randint(0, 10**6) for _ in range(4)]
        ops.append(op)
    fails = {str(r.randrange(len(ops))): r.randint(1, 8) for _ in range(r.choice([0, 1, 2, 4]))}
    return {"ops": ops, "fails": fails, "freq": r.choice(list(STEPS)), "start": r.choice(["2021-01-04", "2021-03-13", "2021-11-06"]),
            "sched": gen_schedule(r, 120)}


# ------------------------------------------------------------ reference model
class Model:
    """times (UTC ns), columns by name, time zone, name of the time column."""

    def __init__(self, t, cols, tz=None, tcol="time", fresh=True):
        self.t = np.array(t, dtype=np.int64)
        self.cols = {k: np.array(v, dtype=float) for k, v in cols.items()}
        self.tz, self.tcol, self.fresh = tz, tcol, fresh

    @property
    def n(self):
        return len(self.t)

    @property
    def plain(self):
        return self.n > 0 and np.all(np.diff(self.t) > 0)

    def take(self, ix):
        return Model(self.t[ix], {k: v[ix] for k, v in self.cols.items()}, self.tz, self.tcol)

    def sorted(self):
        o = np.argsort(self.t, kind="stable")
        m = self.take(o)
        return m

    def dup(self):
        return Model(self.t, self.cols, self.tz, self.tcol, self.fresh)

    def index(self):
        ix = pd.DatetimeIndex(self.t)
        return ix.tz_localize("UTC").tz_convert(self.tz) if self.tz else ix

    def sizes(self):
        return (self.n, sorted(self.cols), self.tz)


def times_of(ts):
    return np.asarray(pd.DatetimeIndex(ts.time).asi8, dtype=np.int64) if len(ts.time) else np.array([], dtype=np.int64)


def diff(ts, m, mm=True):
    """None, or how the series differs from its model."""
    if len(ts) != m.n or len(ts.time) != m.n:
        return "has %d values and %d times, expected %d" % (len(ts), len(ts.time), m.n)
    if m.n == 0:
        return None
    if not np.array_equal(times_of(ts), m.t):
        return "times differ: %s expected %s" % (list(ts.time[:5]), list(m.index()[:5]))
    tz = pd.DatetimeIndex(ts.time).tz
    if str(tz) != str(m.index().tz):
        return "time zone %s expected %s" % (tz, m.tz)
    if ts.time_col_name != m.tcol or (ts.time.name or m.tcol) != m.tcol:
        return "time column %r/%r expected %r" % (ts.time_col_name, ts.time.name, m.tcol)
    if list(ts.time.index) != list(range(m.n)) or list(ts.value.index) != list(range(m.n)):
        return "row labels %s / %s" % (list(ts.time.index)[:6], list(ts.value.index)[:6])
    v = ts.value
    cols = {v.name: v.values} if isinstance(v, pd.Series) else {c: v[c].values for c in v.columns}
    if isinstance(v, pd.Series) != (len(m.cols) == 1):
        return "has columns %s, expected %s" % (list(cols), list(m.cols))
    if set(map(str, cols)) != set(map(str, m.cols)):
        return "has columns %s, expected %s" % (list(cols), list(m.cols))
    for k, x in cols.items():
        want = m.cols[k] if k in m.cols else m.cols[str(k)]
        if not C.same(x, want):
            return "values of %s: %s expected %s" % (k, np.asarray(x, dtype=float)[:8], want[:8])
    if mm and m.fresh:
        for what, fn in (("min", min), ("max", max)):
            got = getattr(ts, what)
            for k in m.cols:
                ok = [x for x in m.cols[k] if not np.isnan(x)]
                want = fn(ok) if ok else np.nan
                g = got if np.isscalar(got) or len(m.cols) == 1 else got[k]
                if not C.same(float(g), want):
                    return "%s of %s is %s, expected %s" % (what, k, g, want)
    return None


# -------------------------------------------------------------------- faults
class alloc_fail:
    """The k-th of these pandas calls made from kats code raises MemoryError."""
    FUNCS = [(pd, "concat"), (pd, "merge"), (pd, "infer_freq")]
    METHODS = [(pd.DataFrame, "sort_values"), (pd.DataFrame, "reset_index"), (pd.Series, "reset_index")]

    def __init__(self, k):
        self.k, self.calls, self.hit = k, 0, None

    def __enter__(self):
        self.saved = []
        for o, n in self.FUNCS + self.METHODS:
            f = o.__dict__[n]
            self.saved.append((o, n, f))
            setattr(o, n, self.wrap(n, f))
        return self

    def wrap(self, name, f):
        def inner(*a, **k):
            if self.k is not None and is_kats_file(sys._getframe(1).f_code.co_filename):
                self.calls += 1
                if self.calls == self.k:
                    self.hit = name
                    raise InjectedMemoryError("injected in %s" % name)
            return f(*a, **k)
        return inner

    def __exit__(self, *a):
        for o, n, f in self.saved:
            setattr(o, n, f)
        return False


# ------------------------------------------------------------------ the world
class World:
    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.live = []          # [series, model]
        self.step = STEPS[plan["freq"]] * 10**9
        self.t0 = pd.Timestamp(plan["start"]).value
        self.last = {}

    def pick(self, x, cond=None):
        l = [p for p in self.live if cond is None or cond(p[1])]
        return l[x % len(l)] if l else None

    def check_all(self, what):
        for j, (ts, m) in enumerate(self.live):
            d = diff(ts, m)
            self.ctx.check(d is None, "series-changed:" + what.split()[0], lambda: "after %s, series %d of %d %s" % (what, j, len(self.live), d))

    def add(self, ts, m, what):
        d = diff(ts, m)
        self.ctx.check(d is None, "result:" + what.split()[0], lambda: "%s: the result %s" % (what, d))
        if len(self.live) < 12:
            self.live.append([ts, m])


def deliver(g, n, step, t0, ncols):
    """The points of a source and the messages the network makes of them."""
    gap = g.rand() < 0.4
    k = np.arange(n)
    if gap and n > 3:
        k = np.sort(g.choice(np.arange(n + n // 2), n, replace=False))
    t = t0 + k * step
    v = np.round(g.normal(10, 3, (n, ncols)), 3)
    if g.rand() < 0.2:
        v[g.randint(0, n), 0] = np.nan
    order = list(range(n))
    mode = g.randint(0, 4)
    if mode == 1:
        order = list(g.permutation(n))
    elif mode == 2:
        order = order[::-1]
    elif mode == 3:
        d = g.randint(0, 5, n)
        order = list(np.argsort(np.arange(n) + d, kind="stable"))
    msgs = [(t[i], v[i]) for i in order]
    ndup = 0
    if g.rand() < 0.5:
        for _ in range(g.randint(1, 4)):
            i = g.randint(0, len(msgs))
            j = g.randint(i + 1, len(msgs) + 1)
            msgs.insert(j, (msgs[i][0], msgs[i][1] + g.choice([0.0, 5.0])))
            ndup += 1
    first = {}
    for a, b in msgs:
        first.setdefault(int(a), b)
    return msgs, first, ndup, sum(1 for a, b in zip(order, order[1:]) if b < a)


def build(w, a, b, c, d):
    from kats.consts import TimeSeriesData
    g = np.random.RandomState(a)
    ncols = [1, 1, 2, 3][b % 4]
    n = 1 + c % 14
    names = ["value", "y", "z"][:ncols] if b % 3 else ["y", "z", "q"][:ncols]
    t0 = w.t0 + (d % 5) * w.step
    msgs, first, ndup, ooo = deliver(g, n, w.step, t0, ncols)
    w.ctx.fault("message duplicated", ndup)
    w.ctx.fault("message out of order", ooo)
    t = np.array([x[0] for x in msgs], dtype=np.int64)
    v = np.array([x[1] for x in msgs]).reshape(len(msgs), ncols)
    tcol = ["time", "ds"][d % 2]
    keys = np.array(sorted(first), dtype=np.int64)
    m = Model(keys, {nm: [first[int(k)][j] for k in keys] for j, nm in enumerate(names)}, None, tcol)
    style = (d // 2) % 5
    drop = ndup > 0 or a % 2 == 0
    kw = {}
    ix = np.random.RandomState(d).permutation(len(msgs)) if a % 3 == 0 else np.arange(len(msgs))
    if style == 0 or style == 1:
        tt = pd.DatetimeIndex(t)
        if style == 1:
            tt = tt.strftime("%Y-%m-%d %H:%M:%S")
            if c % 2:
                kw["date_format"] = "%Y-%m-%d %H:%M:%S"
        df = pd.DataFrame(v, columns=names)
        df.insert(d % (ncols + 1), tcol, list(tt))
        df.index = ix
        call = lambda: TimeSeriesData(df, time_col_name=tcol, drop_duplicate_time=drop, **kw)
        inputs = [df]
    elif style == 2:
        df = pd.DataFrame(v, columns=names)
        df[tcol] = t // 10**9
        kw.update(use_unix_time=True, unix_time_units="s")
        if c % 2:
            kw["tz"] = TZS[c % 3]
            m.tz = kw["tz"]
        df.index = ix
        call = lambda: TimeSeriesData(df, time_col_name=tcol, drop_duplicate_time=drop, **kw)
        inputs = [df]
    else:
        ts = pd.Series(pd.DatetimeIndex(t), name=None if tcol == "time" else tcol, index=ix)
        val = pd.DataFrame(v, columns=names, index=ix) if ncols > 1 or c % 3 == 0 else pd.Series(v[:, 0], name=names[0], index=ix)
        if style == 4:
            ts = pd.DatetimeIndex(t, name=tcol)
        call = lambda: TimeSeriesData(time=ts, value=val, time_col_name=tcol, drop_duplicate_time=drop)
        inputs = [ts, val]
    before = [x.copy(deep=True) for x in inputs]

    def done(out):
        for x, y in zip(inputs, before):
            same = x.equals(y) and (x.index.equals(y.index) if hasattr(x, "iloc") else True) and getattr(x, "name", None) == getattr(y, "name", None)
            w.ctx.check(same, "input-changed:build", "building a series changed the caller's %s" % type(x).__name__)
        w.add(out, m, "build (%d messages, %d duplicates, style %d)" % (len(msgs), ndup, style))
        for x in inputs:        # the caller goes on using its objects
            if isinstance(x, pd.DataFrame):
                x.iloc[:, :] = x.iloc[::-1].values
            elif isinstance(x, pd.Series):
                x.iloc[:] = x.iloc[0]
        w.check_all("build (the caller then changed its own objects)")
    return call, done


def batches(w, a, b, c, d):
    """Appending batches in time order gives the series built at once."""
    from kats.consts import TimeSeriesData
    g = np.random.RandomState(a)
    ncols = [1, 2][b % 2]
    n = 3 + c % 12
    names = ["value", "y"][:ncols]
    t = w.t0 + np.arange(n) * w.step
    v = np.round(g.normal(0, 5, (n, ncols)), 3)
    cuts = sorted(set([0, n] + list(g.randint(1, n, 1 + d % 3))))
    validate = bool(a % 2)

    def part(i, j):
        val = pd.DataFrame(v[i:j], columns=names) if ncols > 1 else pd.Series(v[i:j, 0], name=names[0])
        return TimeSeriesData(time=pd.Series(pd.DatetimeIndex(t[i:j])), value=val)

    def call():
        out = TimeSeriesData() if d % 4 == 0 else None
        for i, j in zip(cuts, cuts[1:]):
            p = part(i, j)
            if out is None:
                out = p
            else:
                out.extend(p, validate=validate and j >= 3)
        return out

    def done(out):
        w.add(out, Model(t, {nm: v[:, j] for j, nm in enumerate(names)}), "batches %s" % (cuts,))
    return call, done


BIN = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv}


def arith_model(x, y, op):
    cols = {}
    for k in list(x.cols) + [k for k in y.cols if k not in x.cols]:
        with np.errstate(all="ignore"):
            cols[k] = BIN[op](x.cols[k], y.cols[k]) if k in x.cols and k in y.cols else np.full(x.n, np.nan)
    return Model(x.t, cols, x.tz, x.tcol).sorted()


def interp_model(m, step, method):
    grid = np.arange(m.t[0], m.t[-1] + 1, step)
    cols = {}
    for k, v in m.cols.items():
        if method == "linear":
            ok = ~np.isnan(v)
            if not ok.any():
                cols[k] = np.full(len(grid), np.nan)
                continue
            x = np.interp(grid, m.t[ok], v[ok])
            x[grid < m.t[ok][0]] = np.nan
        else:
            side = np.searchsorted(m.t, grid, side="right") - 1 if method == "ffill" else np.searchsorted(m.t, grid, side="left")
            x = v[side]
        cols[k] = x
    return Model(grid, cols, m.tz, m.tcol)


def operation(w, name, a, b, c, d):
    """-> (call, done) for one operation, or None when it does not apply."""
    from kats.consts import TimeSeriesData, TimeSeriesIterator, TSIterator
    if name == "build":
        return build(w, a, b, c, d)
    if name == "batches":
        return batches(w, a, b, c, d)
    p = w.pick(a, lambda m: m.n > 0)
    if p is None:
        return None
    ts, m = p
    if name == "slice":
        if len(set(m.t)) < m.n:
            return None
        lo, hi = sorted([b % (m.n + 1), c % (m.n + 1)])
        st = [None, None, 2, None][d % 4]
        s = slice(lo if d % 3 else None, hi if d % 5 else None, st)
        if d % 7 == 0:
            s = slice(-(1 + b % m.n), None, None)
        ix = np.arange(m.n)[s]
        return (lambda: ts[s]), (lambda out: w.add(out, m.take(ix).sorted(), "slice %s" % s))
    if name == "columns":
        if len(m.cols) < 2:
            return None
        ks = list(m.cols)
        if b % 2:
            sel = ks[c % len(ks)]
            want = Model(m.t, {sel: m.cols[sel]}, m.tz, m.tcol)
        else:
            sel = ks[:1 + c % len(ks)]
            want = Model(m.t, {k: m.cols[k] for k in sel}, m.tz, m.tcol)
        want = want if m.plain else want.sorted()
        if not m.plain and len(set(m.t)) < m.n:
            return None
        return (lambda: ts[sel]), (lambda out: w.add(out, want, "columns %s" % sel))
    if name == "copy":
        if b % 3 == 0:
            return (lambda: pickle.loads(pickle.dumps(ts))), (lambda out: w.add(out, m.dup(), "copy (pickle)"))
        return (lambda: copy.deepcopy(ts)), (lambda out: w.add(out, m.dup(), "copy (deepcopy)"))
    if name == "arith":
        if len(set(m.t)) < m.n:
            return None
        op = "+-*/"[c % 4]
        q = w.pick(b, lambda k: k.n == m.n and np.array_equal(k.t, m.t) and k.tz == m.tz)
        return (lambda: BIN[op](ts, q[0])), (lambda out: w.add(out, arith_model(m, q[1], op), "arith %s" % op))
    if name == "const":
        op = "+-*/"[c % 4]
        k = [2, 0.5, -1.0][b % 3]
        if len(m.cols) > 1 or len(set(m.t)) < m.n:
            return None
        with np.errstate(all="ignore"):
            want = Model(m.t, {x: BIN[op](v, k) for x, v in m.cols.items()}, m.tz, m.tcol).sorted()
        return (lambda: BIN[op](ts, k)), (lambda out: w.add(out, want, "const %s %s" % (op, k)))
    if name == "interp":
        method = ["linear", "linear", "ffill", "bfill"][b % 4]
        if not m.plain or m.tz or m.n < 2 or np.any((m.t - pd.Timestamp("2021-01-01").value) % w.step):
            return None
        if method != "linear" and any(np.isnan(v).any() for v in m.cols.values()):
            return None
        kw = {"freq": w.plan["freq"]}
        dd = np.diff(m.t)
        u, cnt = np.unique(dd, return_counts=True)
        if c % 3 == 0 and u[np.argmax(cnt)] == w.step and (cnt == cnt.max()).sum() == 1:
            kw = {}
        return (lambda: ts.interpolate(method=method, **kw)), (lambda out: w.add(out, interp_model(m, w.step, method), "interp %s" % method))
    if name == "iter":
        def rows():
            if b % 2:
                return [x for x in TimeSeriesIterator(ts)]
            return [x for x in TSIterator(ts)]

        def done(out):
            if b % 2:
                w.ctx.check(len(out) == len(m.cols), "iteration", "%d columns for %s" % (len(out), m.sizes()))
                v = list(m.cols.values())
                ks = [ts.value.name] if len(m.cols) == 1 else list(ts.value.columns)
                for k, x in zip(ks, out):
                    w.ctx.check(C.same(x["y"].values, m.cols[k]) and np.array_equal(pd.DatetimeIndex(x.index).asi8, m.t), "iteration", "column %s: %s" % (k, x["y"].values[:6]))
                    x.iloc[:, 0] = -99.0
            else:
                w.ctx.check(len(out) == m.n, "iteration", "%d points for %d" % (len(out), m.n))
                for i, x in enumerate(out):
                    vals = np.asarray(x.value.values, dtype=float).ravel()
                    ks = [ts.value.name] if len(m.cols) == 1 else list(ts.value.columns)
                    w.ctx.check(np.array_equal(times_of(x), m.t[i:i + 1]) and C.same(vals, [m.cols[k][i] for k in ks]), "iteration", "point %d: %s %s" % (i, x.time.values, vals))
                    x.value.iloc[0] = -99.0
            w.check_all("iter (and writing into the items)")
        return rows, done
    if name == "exclude":
        lo, hi = sorted([b % m.n, c % m.n])
        ix = m.index()
        s, e = min(ix[lo], ix[hi]), max(ix[lo], ix[hi])
        keep = (m.t < s.value) | (m.t > e.value)
        want = m.take(np.where(keep)[0])
        if len(set(m.t)) < m.n:
            return None
        return (lambda: ts.exclude(s, e)), (lambda out: w.add(out, want.sorted(), "exclude"))
    if name == "extend":
        q = w.pick(b, lambda k: k.n > 0 and k.tz == m.tz and k.tcol == m.tcol)
        o, k = q
        validate = bool(c % 2)
        t = np.concatenate([m.t, k.t])
        names = list(m.cols) + [x for x in k.cols if x not in m.cols]
        nan = lambda z: np.full(z.n, np.nan)
        want = Model(t, {x: np.concatenate([m.cols.get(x, nan(m)), k.cols.get(x, nan(k))]) for x in names}, m.tz, m.tcol)
        ok = True
        if validate:
            try:
                ok = pd.infer_freq(want.index()) is not None
            except ValueError:
                ok = False

        def done(out):
            w.ctx.check(ok, "extend-validate", "extending with validation accepted times %s" % list(want.index()[:6]))
            d_ = diff(ts, want)
            w.ctx.check(d_ is None, "result:extend", lambda: "extend: the series %s" % d_)
            p[1] = want
        return (lambda: ts.extend(o, validate=validate)), done, (None if ok else ValueError)
    if name == "setval":
        g = np.random.RandomState(b)
        v = {k: np.round(g.normal(0, 9, m.n), 3) for k in m.cols}
        if c % 3 == 0:
            v = {"y": np.round(g.normal(0, 9, m.n), 3)}
        new = pd.Series(list(v.values())[0], name=list(v)[0]) if len(v) == 1 else pd.DataFrame(v)

        def call():
            ts.value = new
            return ts

        def done(out):
            p[1] = Model(m.t, v, m.tz, m.tcol)
        return call, done
    if name == "settime":
        t = m.t + (1 + b % 3) * w.step

        def call():
            ix = pd.DatetimeIndex(t)
            ts.time = pd.Series(ix.tz_localize("UTC").tz_convert(m.tz) if m.tz else ix, name=m.tcol)
            return ts

        def done(out):
            p[1] = Model(t, m.cols, m.tz, m.tcol, m.fresh)
        return call, done
    if name == "poke":
        i, x = b % m.n, float(c % 97) + 0.5

        def call():
            if d % 3 == 0:
                ix = m.index()
                ts.time.iloc[i] = ix[i] + pd.Timedelta(seconds=7)
            elif isinstance(ts.value, pd.Series):
                ts.value.iloc[i] = x
            else:
                ts.value.iloc[i, 0] = x
            return ts

        def done(out):
            k = m.dup()
            if d % 3 == 0:
                k.t[i] += 7 * 10**9
            else:
                col = ts.value.name if isinstance(ts.value, pd.Series) else ts.value.columns[0]
                k.cols[col][i] = x
                k.fresh = False
            p[1] = k
        return call, done
    if name == "tz":
        if m.tz or len(set(m.t)) < m.n:
            return None
        z = TZS[b % 3]
        try:
            t = np.asarray(m.index().tz_localize(z).asi8)
            err = None
        except Exception as e:
            err = type(e)

        def done(out):
            p[1] = Model(t, m.cols, z, m.tcol, m.fresh).sorted()
            p[1].fresh = m.fresh
        return (lambda: ts.set_timezone(z)), done, err
    if name == "conv":
        z = TZS[b % 3]

        def done(out):
            if m.tz:
                p[1] = Model(m.t, m.cols, z, m.tcol, m.fresh)
        return (lambda: ts.convert_timezone(z)), done
    if name == "frame":
        def call():
            return ts.to_dataframe(), ts.to_dataframe(standard_time_col_name=True), ts.time_to_index(), ts == copy.deepcopy(ts), ts.is_timezone_aware(), ts.is_empty(), ts.to_array()

        def done(out):
            f, f2, ix, eq, aware, empty, arr = out
            w.ctx.check(list(f.columns)[0] == m.tcol and "time" in f2.columns and len(f) == m.n, "frame", "columns %s" % list(f.columns))
            w.ctx.check(np.array_equal(pd.DatetimeIndex(f[m.tcol]).asi8, m.t) and all(C.same(f[k].values, v) for k, v in m.cols.items()), "frame", "to_dataframe content")
            w.ctx.check(np.array_equal(ix.asi8, m.t) and eq and aware == bool(m.tz) and not empty and arr.shape == f.shape, "frame", "index, equality, emptiness")
        return call, done
    if name == "bad":
        kind = b % 4
        q = w.pick(c, lambda k: k.n and not np.array_equal(k.t, m.t))
        if kind == 0:
            return (lambda: ts.extend([1, 2])), None, TypeError
        if kind == 1 and q is not None:
            return (lambda: ts + q[0]), None, ValueError
        if kind == 2:
            return (lambda: ts * "x"), None, TypeError
        if kind == 3:
            return (lambda: TimeSeriesData(time=ts.time, value=ts.value[:-1] if m.n > 1 else ts.value[:0])), None, ValueError
        return None
    raise KeyError(name)


READ = ["slice", "arith", "const", "interp", "iter", "exclude", "frame", "copy", "columns"]


def run(plan, ctx):
    w = World(plan, ctx)
    for i, op in enumerate(plan["ops"]):
        name, a, b, c, d = op
        what = "%s %s" % (name, op[1:])
        ctx.event(what)
        if name == "threads":
            todo = []
            for j in range(2 + a % 2):
                o = operation(w, READ[(b // (j + 1)) % len(READ)], a if c % 2 else a + j, c + j, d + j, b + j)
                if o and len(o) == 2:
                    todo.append(o)
            if len(todo) < 2:
                continue
            res = [None] * len(todo)

            def body(j):
                def f():
                    res[j] = C.Outcome(todo[j][0])
                return f
            with Sim(plan["sched"]["switches"], plan["sched"]["picks"]) as sim:
                sim.run_threads([body(j) for j in range(len(todo))])
            ctx.interleaving(sim.log)
            for k, v in sim.stats.items():
                if k == "switches":
                    ctx.fault("preemption between threads", v)
            for j, o in enumerate(res):
                if not o.ok:
                    raise o.exc
                todo[j][1](o.value)
            ctx.probe("operations run at the same time", len(todo))
            w.check_all(what)
            continue
        o = operation(w, name, a, b, c, d)
        if o is None:
            continue
        call, done, err = o if len(o) == 3 else o + (None,)
        k = plan["fails"].get(str(i))
        if k is not None:
            with alloc_fail(k) as f:
                r = C.Outcome(call)
            if f.hit:
                ctx.fault("allocation failed in " + f.hit)
                ctx.check(not r.ok, "swallowed-error:" + name, "%s went on after a failed allocation in %s" % (what, f.hit))
                w.check_all(what + " failed in " + f.hit)
                r = C.Outcome(call)
        else:
            r = C.Outcome(call)
        if err is not None:
            ctx.check(not r.ok, "accepted:" + name, "%s should raise %s" % (what, err.__name__))
            ctx.probe("operation refused", 1)
            if not isinstance(r.exc, err):
                raise r.exc
        elif not r.ok:
            raise r.exc
        else:
            done(r.value)
        w.check_all(what)
    for ts, m in w.live:
        ctx.event(m.n, C.ts_fp(ts) if m.n else "")
        ctx.sim_seconds += m.n * w.step / 1e9
    ctx.interleaving((str(plan["ops"]), str(plan["fails"])))
    ctx.probe("live series", len(w.live))
    ctx.nontrivial = len(w.live) >= 4

"""C17: silencing a model's console output always gives the console back."""
import gc
import io
import os
import resource
import sys
import tempfile

import numpy as np
import pandas as pd

from .. import common as C
from ..sim import Sim, gen_schedule

ID = "C17"
LEVEL = "exploration"
RUNS = {"quick": 20000, "thorough": 600000}
CAP = {"quick": 38, "thorough": 1500}
RULE = ("A run puts temporary files behind the real descriptors 1 and 2 and executes one to four simulated threads, each a random program of nested silenced sections "
        "(sharing guard objects or not), writes to both descriptors and to sys.stdout and sys.stderr, exceptions, and Prophet detector fits whose model writes and sometimes fails. "
        "Descriptors run out at chosen points and flushing fails at others. Every written token is checked against where it may and must appear, and after the last section the "
        "descriptors must be the original files with none left open. Non-trivial: at least two sections overlapped, nested, failed or were left by an exception. Distinct by event log and schedule.")
INTER = "scheduling decisions of the simulated threads"
REAL = ["SilentStdoutStderr, ProphetDetectorModel.fit, ProphetTrendDetectorModel.fit_predict", "the process's descriptors 1 and 2, os.dup, os.dup2, os.open, RLIMIT_NOFILE"]
STUB = ["thread scheduling", "Prophet.fit (writes tokens and fails on request)", "sys.stdout and sys.stderr objects over descriptors 1 and 2"]
ASSUMPTIONS = ["threads switch at source lines of kats code, so a token is written at a moment when the set of open sections is known",
               "tokens left in Python's buffer by threads other than the one that enters or leaves a section are not judged"]


class Oops(Exception):
    pass


def gen_prog(r, depth, allow_fit, faults):
    ops = []
    for _ in range(r.randint(1, 3)):
        o = r.choice(["os", "os", "print", "err", "sec", "sec", "sec"] + (["fit"] if allow_fit else []))
        if o == "os":
            ops.append(["os", r.choice([1, 2])])
        elif o == "print":
            ops.append(["print", r.random() < 0.6])
        elif o == "err":
            ops.append(["err"])
        elif o == "fit":
            ops.append(["fit", r.choice(["det", "det", "trend"]), r.random() < 0.4, r.random() < 0.15])
        elif depth < 3:
            fault = None
            if faults and r.random() < 0.35:
                fault = r.choice([["fds", 0], ["fds", 1], ["fds", 2], ["flush", "enter"], ["flush", "exit"]])
            ops.append(["sec", r.choice([0, 0, 1, None, None]), gen_prog(r, depth + 1, allow_fit and depth < 1, faults), r.random() < 0.25, fault])
        else:
            ops.append(["os", 1])
    return ops


def gen(r, i, tier):
    n = r.choice([1, 2, 2, 3, 4])
    fit = r.random() < 0.25
    faults = r.random() < 0.5
    return {"progs": [gen_prog(r, 0, fit, faults) for _ in range(n)], "sched": gen_schedule(r, 30 * n if r.random() < 0.7 else 120, 10), "env": fit and r.random() < 0.1}


def worker_setup():
    """Everything the run imports lazily and that keeps descriptors open."""
    try:
        import readline  # noqa: F401
    except ImportError:
        pass
    from kats.detectors import prophet_detector as PD
    fit = PD.Prophet.fit
    try:
        PD.Prophet.fit = lambda self, df, **k: (_ for _ in ()).throw(Oops())
        for f in (lambda: PD.ProphetDetectorModel().fit(C.series(3, 20)), lambda: PD.ProphetTrendDetectorModel().fit_predict(C.series(3, 20))):
            try:
                f()
            except Oops:
                pass
    finally:
        PD.Prophet.fit = fit


class Out(io.TextIOWrapper):
    """sys.stdout over descriptor 1, with a flush that fails on request."""
    fail = False

    def flush(self):
        if self.fail:
            raise OSError(28, "simulated: no space left for the console log")
        return super().flush()


def fds():
    return {int(x) for x in os.listdir("/proc/self/fd") if os.path.exists("/proc/self/fd/" + x)}


def limit_free(k):
    """Leave k descriptors free."""
    resource.setrlimit(resource.RLIMIT_NOFILE, (SOFT, HARD))
    have, n, free = fds(), 0, 0
    while free < k or n in have:
        free += n not in have
        n += 1
    while n in have:
        n += 1
    resource.setrlimit(resource.RLIMIT_NOFILE, (n, HARD))


SOFT, HARD = resource.getrlimit(resource.RLIMIT_NOFILE)


def run(plan, ctx):
    from kats.detectors import prophet_detector as PD
    paths = [tempfile.mkstemp(prefix="c17-") for _ in range(2)]
    keep = [os.dup(1), os.dup(2)]
    old = sys.stdout, sys.stderr
    oldfit = PD.Prophet.fit
    oldenv = os.environ.pop(PD.NOT_SUPPRESS_PROPHET_FIT_LOGS_VAR_NAME, None)
    result = {}
    try:
        old[0].flush(), old[1].flush()
        for (fd, _), n in zip(paths, (1, 2)):
            os.dup2(fd, n)
        sys.stdout = Out(io.BufferedWriter(io.FileIO(1, "w", closefd=False)), encoding="utf8", errors="replace")
        sys.stderr = Out(io.BufferedWriter(io.FileIO(2, "w", closefd=False), 1), encoding="utf8", errors="replace", write_through=True)
        if plan["env"]:
            os.environ[PD.NOT_SUPPRESS_PROPHET_FIT_LOGS_VAR_NAME] = "1"
        drive(plan, ctx, PD, paths, keep, result)
    finally:
        resource.setrlimit(resource.RLIMIT_NOFILE, (SOFT, HARD))
        for s in (sys.stdout, sys.stderr):
            s.fail = False
            try:
                s.detach().detach()
            except (OSError, ValueError):
                pass
        sys.stdout, sys.stderr = old
        PD.Prophet.fit = oldfit
        os.environ.pop(PD.NOT_SUPPRESS_PROPHET_FIT_LOGS_VAR_NAME, None)
        if oldenv is not None:
            os.environ[PD.NOT_SUPPRESS_PROPHET_FIT_LOGS_VAR_NAME] = oldenv
        os.dup2(keep[0], 1), os.dup2(keep[1], 2)
        for fd in keep:
            os.close(fd)
        for fd, p in paths:
            os.close(fd)
            os.unlink(p)
        for fd in result.get("leaked", ()):
            try:
                os.close(fd)
            except OSError:
                pass


def drive(plan, ctx, PD, paths, keep, result):
    state = {"active": 0, "pending": 0, "n": 0, "flushfault": False}
    tokens = []
    guards = {0: PD.SilentStdoutStderr(), 1: PD.SilentStdoutStderr()}
    ts = C.series(3, 20)
    stats = {"overlap": 0}

    def token(fd, flushed=True):
        state["n"] += 1
        t = "<%d>" % state["n"]
        where = "silent" if state["active"] else "open" if not state["pending"] else "either"
        tokens.append([t, fd, where, flushed])
        return t

    def fake_fit(self, df, **k):
        state["active"] += not plan["env"]
        try:
            os.write(1, token(1).encode())
            os.write(2, token(2).encode())
            print(token(1, False))
            if getattr(fake_fit, "fail", False):
                raise Oops("the optimiser failed")
        finally:
            state["active"] -= not plan["env"]
        self.changepoints = pd.Series(pd.to_datetime(df["ds"].iloc[[3, 9]]))
        self.params = {"delta": np.ones((1, 2))}
        return self

    PD.Prophet.fit = fake_fit
    start = fds()
    ino = [os.fstat(n).st_ino for n in (1, 2)]

    def do(ops):
        for op in ops:
            if op[0] == "os":
                os.write(op[1], token(op[1]).encode())
            elif op[0] == "print":
                if not sys.stdout.fail:
                    print(token(1, op[1]), flush=op[1])
            elif op[0] == "err":
                if not sys.stderr.fail:
                    print(token(2), file=sys.stderr, flush=True)
            elif op[0] == "fit":
                state["pending"] += not plan["env"]
                stats["overlap"] += state["pending"] > 1
                fake_fit.fail = op[2]
                try:
                    if op[1] == "det":
                        PD.ProphetDetectorModel().fit(ts)
                    else:
                        PD.ProphetTrendDetectorModel().fit_predict(ts)
                except (Oops, OSError):
                    ctx.fault("model fit failed in a silenced section")
                finally:
                    state["pending"] -= not plan["env"]
                    fake_fit.fail = False
            else:
                section(op)

    def section(op):
        _, g, body, raises, fault = op
        guard = PD.SilentStdoutStderr() if g is None else guards[g]
        state["pending"] += 1
        stats["overlap"] += state["pending"] > 1
        try:
            if fault and fault[0] == "fds":
                limit_free(fault[1])
            if fault and fault == ["flush", "enter"]:
                sys.stdout.fail = state["flushfault"] = True
            try:
                guard.__enter__()
            except OSError:
                ctx.fault("section failed to set up: " + (fault[0] if fault else "another thread's fault"))
                stats["overlap"] += 1
                return
            finally:
                if fault and fault[0] == "fds":
                    resource.setrlimit(resource.RLIMIT_NOFILE, (SOFT, HARD))
                if fault and fault == ["flush", "enter"]:
                    sys.stdout.fail = False
            state["active"] += 1
            err = (None, None, None)
            try:
                do(body)
                if raises:
                    raise Oops("body")
            except Oops:
                err = sys.exc_info()
                stats["overlap"] += 1
            state["active"] -= 1
            if fault and fault == ["flush", "exit"]:
                sys.stdout.fail = state["flushfault"] = True
            try:
                guard.__exit__(*err)
            except OSError:
                ctx.fault("flush failed at the end of a section")
            finally:
                if fault and fault == ["flush", "exit"]:
                    sys.stdout.fail = False
        finally:
            state["pending"] -= 1

    def body(p):
        def f():
            do(p)
        return f

    sim = None
    with Sim(plan["sched"]["switches"], plan["sched"]["picks"]) as sim:
        res = sim.run_threads([body(p) for p in plan["progs"]])
    for ok, e in res:
        if not ok:
            raise e
    ctx.interleaving(sim.log)
    ctx.fault("preemption between threads", sim.stats.get("preemptions", 0))
    resource.setrlimit(resource.RLIMIT_NOFILE, (SOFT, HARD))
    sys.stdout.fail = sys.stderr.fail = False
    left = fds() - start
    if left:
        gc.collect()
        left = fds() - start
    result["leaked"] = left
    ctx.check(not left, "descriptor-leak", lambda: "%d descriptors left open: %s" % (len(left), {n: os.readlink("/proc/self/fd/%d" % n) for n in left}))
    gone = (start & ({0, 1, 2} | set(keep) | {fd for fd, _ in paths})) - fds()
    ctx.check(not gone, "descriptor-closed", "descriptors %s were closed" % sorted(gone))
    back = True
    for n, i in zip((1, 2), ino):
        try:
            now = os.fstat(n).st_ino
        except OSError:
            now = None
        back = back and now == i
        ctx.check(now == i, "console-lost", lambda: "after the last silenced section descriptor %d points to %s" % (n, os.readlink("/proc/self/fd/%d" % n) if now else "nothing"))
    sys.stdout.flush(), sys.stderr.flush()
    os.write(1, token(1).encode())
    os.write(2, token(2).encode())
    text = {}
    for (fd, p), n in zip(paths, (1, 2)):
        with open(p, "rb") as f:
            text[n] = f.read().decode("utf8", "replace")
    for t, fd, where, flushed in tokens:
        n = text[fd].count(t)
        ctx.check(t not in text[3 - fd], "crossed", "token %s for descriptor %d appeared on the other one" % (t, fd))
        ctx.check(n <= 1, "twice", "token %s appeared %d times" % (t, n))
        if (len(plan["progs"]) > 1 or state["flushfault"]) and not flushed:
            continue
        if where == "silent":
            ctx.check(n == 0, "not-silenced", "token %s was written to descriptor %d while output was silenced, and appeared" % (t, fd))
        elif where == "open":
            ctx.check(n == 1, "output-lost", "token %s was written to descriptor %d while no section was open, and is lost" % (t, fd))
    ctx.probe("tokens written while silenced", sum(t[2] == "silent" for t in tokens))
    ctx.probe("tokens written while open", sum(t[2] == "open" for t in tokens))
    ctx.event(plan["progs"], [t[2] for t in tokens])
    ctx.nontrivial = stats["overlap"] > 0
    ctx.sim_seconds += len(tokens)

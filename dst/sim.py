"""The simulator: one seeded scheduler that owns threads, process pools, clocks-free
waiting, randomness, crash points and file I/O for code under /repo/kats.

`install()` must be called before kats is imported.  It replaces the standard
library's pool factories (multiprocessing and concurrent.futures), Manager,
cpu_count and the lock factories by seams that behave exactly as the originals
when no simulation is active, and are driven by the active `Sim` otherwise.
Nothing in /repo is changed for this.
"""
from __future__ import annotations

import builtins
import errno
import os
import pickle
import random
import struct
import sys
import threading
import types

REPO = os.environ.get("VERIF_REPO", "/repo")
KATS_PREFIX = os.path.join(REPO, "kats") + os.sep

_real = {}
_current = None  # the active Sim


class SimCrash(BaseException):
    """The simulated process dies here."""


class SimKill(BaseException):
    """Unwinds a parked simulated thread at the end of a run."""


class SimDeadlock(Exception):
    """No simulated thread can make progress."""


class InjectedError(Exception):
    """An ordinary error injected by the simulator."""


class InjectedMemoryError(MemoryError):
    pass


def current():
    return _current


# --------------------------------------------------------------------------
# line events in kats code: preemption points and crash points
# --------------------------------------------------------------------------
_is_kats = {}


def is_kats_file(fn):
    r = _is_kats.get(fn)
    if r is None:
        p = fn if os.path.isabs(fn) or fn.startswith("<") else os.path.abspath(fn)
        r = p.startswith(KATS_PREFIX) and (os.sep + "tests" + os.sep) not in p
        _is_kats[fn] = r
    return r


class LineHook:
    """Calls `on_line` before every source line executed in kats code."""

    def __init__(self, on_line):
        self.on_line = on_line
        self.off = False

    def glob(self, frame, event, arg):
        if is_kats_file(frame.f_code.co_filename):
            return self.loc
        return None

    def loc(self, frame, event, arg):
        if event == "line" and not self.off:
            self.on_line(frame)
        return self.loc


class crash_at:
    """with crash_at(k, exc): raises exc at the k-th kats line (1-based); k=None counts only.

    After the block, `.lines` is the number of lines seen and `.where` the crash site."""

    def __init__(self, k, exc=SimCrash):
        self.k, self.exc, self.lines, self.where = k, exc, 0, None

    def __enter__(self):
        self.prev = sys.gettrace()
        self.hook = LineHook(self._line)
        sys.settrace(self.hook.glob)
        return self

    def _line(self, frame):
        self.lines += 1
        if self.k is not None and self.lines == self.k:
            self.hook.off = True
            self.where = "%s:%s" % (
                os.path.relpath(frame.f_code.co_filename, REPO),
                frame.f_code.co_name,
            )
            raise self.exc("injected at line event %d" % self.k)

    def __exit__(self, et, ev, tb):
        sys.settrace(self.prev)
        return False


# --------------------------------------------------------------------------
# the cooperative scheduler
# --------------------------------------------------------------------------
class SimThread:
    def __init__(self, sim, tid, fn, name):
        self.sim, self.tid, self.fn, self.name = sim, tid, fn, name
        self.sem = _real_lock()
        self.sem.acquire()
        self.done = False
        self.pred = None  # blocked while not pred()
        self.killed = False
        self.exc = None
        self.thread = None


def _real_lock():
    return _real["Lock"]() if "Lock" in _real else threading.Lock()


class Sim:
    """One simulated execution.

    switches: list of [step, pick]: at global line step `step` preempt the running
              thread and hand over to runnable thread number pick % n.
    picks:    list of ints consumed cyclically at every forced scheduling decision.
    cores:    what cpu_count() answers.
    """

    def __init__(self, switches=(), picks=(0,), cores=4, max_steps=3_000_000,
                 line_preempt=True, late_pickle=0, pool_fail=(), log=None):
        self.switches = {int(s): int(p) for s, p in switches}
        self.picks = list(picks) or [0]
        self.pick_i = 0
        self.cores = cores
        self.max_steps = max_steps
        self.line_preempt = line_preempt and bool(self.switches)
        self.late_pickle = late_pickle
        self.pool_fail = set(pool_fail)
        self.step = 0
        self.threads = []
        self.live = 1
        self.cur = None
        self.pools = []
        self.log = log if log is not None else []
        self.stats = {"preemptions": 0, "decisions": 0, "tasks": 0, "pools": 0}
        self.in_child = False
        self.atomic = 0
        self.hook = LineHook(self._on_line)
        self.deadlock = False

    # -- lifecycle
    def __enter__(self):
        global _current
        assert _current is None, "nested simulation"
        self.main = SimThread(self, 0, None, "main")
        self.threads = [self.main]
        self.cur = self.main
        self.main.ident = threading.get_ident()
        _current = self
        if self.line_preempt:
            sys.settrace(self.hook.glob)
        return self

    def __exit__(self, et, ev, tb):
        global _current
        sys.settrace(None)
        self.hook.off = True
        # unwind whatever is still parked
        for t in self.threads[1:]:
            if not t.done:
                t.killed = True
                self._resume_and_wait(t)
        for p in self.pools:
            p._destroy()
        _current = None
        return False

    def _resume_and_wait(self, t):
        prev, self.cur = self.cur, t
        self._kill_back = True
        t.sem.release()
        self.main.sem.acquire()
        self.cur = prev

    # -- decisions
    def pick(self, n, what):
        if n <= 1:
            return 0
        v = self.picks[self.pick_i % len(self.picks)] % n
        self.pick_i += 1
        self.stats["decisions"] += 1
        self.log.append((what, v, n))
        return v

    def runnable(self, exclude=None):
        out = []
        for t in self.threads:
            if t.done or t is exclude:
                continue
            if t.pred is None or t.pred():
                out.append(t)
        return out

    def _switch(self, t):
        me = self.cur
        self.cur = t
        t.sem.release()
        me.sem.acquire()
        if me.killed:
            raise SimKill()

    def _on_line(self, frame):
        if self.in_child or self.atomic:
            return
        if self.cur is None or threading.get_ident() != self.cur.ident:
            return
        if self.live < 2:
            return  # steps are counted while there is more than one thread
        self.step += 1
        if self.step > self.max_steps:
            self.hook.off = True
            raise SimDeadlock("no end after %d steps" % self.step)
        p = self.switches.get(self.step)
        if p is not None:
            f = frame
            while f is not None:
                if f.f_code.co_filename.startswith("<frozen importlib"):
                    # holds the import lock: switch at the next line instead
                    self.switches.setdefault(self.step + 1, p)
                    return
                f = f.f_back
            rs = self.runnable(exclude=self.cur)
            if rs:
                t = rs[p % len(rs)]
                self.stats["preemptions"] += 1
                self.log.append(("preempt", self.cur.tid, t.tid,
                                 frame.f_code.co_name, frame.f_lineno))
                self._switch(t)

    def yield_now(self):
        rs = self.runnable(exclude=self.cur)
        rs = [self.cur] + rs
        t = rs[self.pick(len(rs), "yield")]
        if t is not self.cur:
            self._switch(t)

    def block_until(self, pred, what="block"):
        me = self.cur
        while not pred():
            me.pred = pred
            rs = self.runnable(exclude=me)
            if not rs:
                me.pred = None
                if pred():
                    return
                self.deadlock = True
                raise SimDeadlock("blocked forever in " + what)
            t = rs[self.pick(len(rs), what)]
            self._switch(t)
            me.pred = None

    def spawn(self, fn, name):
        t = SimThread(self, len(self.threads), fn, name)
        self.threads.append(t)
        self.live += 1

        def boot():
            t.sem.acquire()
            try:
                if t.killed:
                    raise SimKill()
                if self.line_preempt:
                    sys.settrace(self.hook.glob)
                t.fn()
            except SimKill:
                pass
            except BaseException as e:  # noqa
                t.exc = e
            finally:
                sys.settrace(None)
                t.done = True
                self.live -= 1
                if t.killed:
                    self.main.sem.release()
                else:
                    rs = self.runnable()
                    if not rs:  # main must be blocked on something impossible
                        nxt = self.main
                    else:
                        nxt = rs[self.pick(len(rs), "exit")]
                    self.cur = nxt
                    nxt.sem.release()

        th = _real.get("Thread", threading.Thread)(target=boot, name=name, daemon=True)
        t.thread = th
        _orig_start(th)
        t.ident = th.ident
        return t

    def run_threads(self, fns):
        """Run the callables concurrently under the scheduler; returns [(ok, value)]."""
        res = [None] * len(fns)

        def mk(i, fn):
            def go():
                try:
                    res[i] = (True, fn())
                except SimKill:
                    raise
                except BaseException as e:  # noqa
                    res[i] = (False, e)
            return go

        ts = [self.spawn(mk(i, f), "t%d" % i) for i, f in enumerate(fns)]
        self.block_until(lambda: all(t.done for t in ts), "join")
        return res


def _orig_start(th):
    threading.Thread.start(th)


# --------------------------------------------------------------------------
# pools
# --------------------------------------------------------------------------
class Task:
    __slots__ = ("idx", "payload", "raw", "func", "args", "kwds", "done", "ok", "value",
                 "lost", "callback", "ecallback", "started", "batch")

    def __init__(self, idx, func, args, kwds):
        self.idx, self.func, self.args, self.kwds = idx, func, args, kwds
        self.done = self.ok = self.lost = self.started = False
        self.value = None
        self.payload = None
        self.callback = self.ecallback = None
        self.batch = None


class AsyncResult:
    def __init__(self, pool, tasks, single):
        self.pool, self.tasks, self.single = pool, tasks, single

    def ready(self):
        self.pool._poll()
        return all(t.done for t in self.tasks)

    def successful(self):
        if not self.ready():
            raise ValueError("not ready")
        return all(t.ok for t in self.tasks)

    def wait(self, timeout=None):
        self.pool._wait(self.tasks, timeout)

    def get(self, timeout=None):
        self.pool._wait(self.tasks, timeout)
        for t in self.pool._first_failure_order(self.tasks):
            if not t.ok:
                raise t.value
        vals = [t.value for t in self.tasks]
        return vals[0] if self.single else vals


class BasePool:
    kind = "?"

    def __init__(self, sim, processes, caller):
        self.sim = sim
        self.n = processes
        self.tasks = []
        self.queue = []
        self.state = "run"
        self.joined = False
        self.caller = caller
        self.order = []
        self.id = len(sim.pools)
        sim.pools.append(self)
        sim.stats["pools"] += 1
        sim.log.append(("pool", self.kind, self.n))

    # -- submission
    def _submit(self, func, args, kwds, batch=None):
        if self.state != "run":
            raise ValueError("Pool not running")
        t = Task(len(self.tasks), func, args, kwds)
        t.batch = batch
        self.tasks.append(t)
        self._prepare(t)
        self.queue.append(t)
        self.sim.stats["tasks"] += 1
        return t

    def _prepare(self, t):
        pass

    def _poll(self):
        """Someone looks whether a task is done: time passes."""

    def _first_failure_order(self, tasks):
        pos = {id(t): i for i, t in enumerate(self.order)}
        return sorted(tasks, key=lambda t: pos.get(id(t), 1 << 30))

    def apply_async(self, func, args=(), kwds=None, callback=None, error_callback=None):
        t = self._submit(func, tuple(args), dict(kwds or {}))
        t.callback, t.ecallback = callback, error_callback
        return AsyncResult(self, [t], True)

    def apply(self, func, args=(), kwds=None):
        return self.apply_async(func, args, kwds).get()

    def _map(self, func, iterable, star, chunksize, callback=None, error_callback=None):
        items = list(iterable)
        if chunksize is None:
            chunksize, extra = divmod(len(items), max(1, self.n) * 4)
            if extra:
                chunksize += 1
        chunksize = max(1, chunksize)
        tasks = []
        for i, it in enumerate(items):
            args = tuple(it) if star else (it,)
            tasks.append(self._submit(func, args, {}, batch=(len(self.tasks) - i, i // chunksize)))
        r = AsyncResult(self, tasks, False)
        if callback is not None or error_callback is not None:
            def cb(_):
                if all(t.done for t in tasks):
                    if all(t.ok for t in tasks) and callback:
                        callback([t.value for t in tasks])
                    elif error_callback:
                        error_callback([t.value for t in tasks if not t.ok][0])
            for t in tasks:
                t.callback = t.ecallback = cb
        return r

    def map(self, func, iterable, chunksize=None):
        return self._map(func, iterable, False, chunksize).get()

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._map(func, iterable, False, chunksize, callback, error_callback)

    def starmap(self, func, iterable, chunksize=None):
        return self._map(func, iterable, True, chunksize).get()

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._map(func, iterable, True, chunksize, callback, error_callback)

    def imap(self, func, iterable, chunksize=1):
        r = self._map(func, iterable, False, chunksize)
        for t in r.tasks:
            self._wait([t], None)
            if not t.ok:
                raise t.value
            yield t.value

    def imap_unordered(self, func, iterable, chunksize=1):
        r = self._map(func, iterable, False, chunksize)
        left = list(r.tasks)
        while left:
            self._wait_any(left)
            nxt = [t for t in self._first_failure_order(left) if t.done][0]
            left.remove(nxt)
            if not nxt.ok:
                raise nxt.value
            yield nxt.value

    # -- lifecycle
    def close(self):
        if self.state == "run":
            self.state = "close"

    def terminate(self):
        self.state = "terminate"
        for t in self.queue:
            t.lost = True
        self.queue = []
        self.joined = True

    def join(self):
        if self.state == "run":
            raise ValueError("Pool is still running")
        self._wait(list(self.tasks), None)
        self.joined = True

    def __enter__(self):
        if self.state != "run":
            raise ValueError("Pool not running")
        return self

    def __exit__(self, *a):
        self.terminate()

    def _finish(self, t, ok, value):
        t.done, t.ok, t.value = True, ok, value
        self.order.append(t)
        self.sim.log.append(("done", self.id, t.idx, ok))
        cb = t.callback if ok else t.ecallback
        if cb is not None:
            cb(value)

    def _destroy(self):
        pass

    # what is still alive when the call that made the pool has ended
    def leak(self):
        if self.state == "run":
            return "pool never closed"
        if not self.joined:
            return "pool closed but its workers were never waited for"
        return None


class ThreadPoolSim(BasePool):
    kind = "thread"

    def __init__(self, sim, processes, caller):
        super().__init__(sim, processes, caller)
        self.workers = [sim.spawn(self._worker, "pool%d-%d" % (self.id, i))
                        for i in range(processes)]

    def _worker(self):
        sim = self.sim
        while True:
            me = sim.cur
            # a plain wait: runnable only when there is something to do
            if not self.queue:
                if self.state != "run":
                    return
                me.pred = lambda: bool(self.queue) or self.state != "run"
                rs = sim.runnable(exclude=me)
                if not rs:
                    raise SimDeadlock("idle workers only")
                sim._switch(rs[sim.pick(len(rs), "idle")])
                me.pred = None
                continue
            t = self.queue.pop(0)
            chunk = [t]
            while self.queue and t.batch is not None and self.queue[0].batch == t.batch:
                chunk.append(self.queue.pop(0))
            for t in chunk:
                t.started = True
            for t in chunk:
                try:
                    v = t.func(*t.args, **t.kwds)
                    ok = True
                except SimKill:
                    raise
                except Exception as e:
                    v, ok = e, False
                self._finish(t, ok, v)
                if not ok and t.batch is not None:
                    for u in chunk[chunk.index(t) + 1:]:
                        self._finish(u, False, v)
                    break

    def _wait(self, tasks, timeout):
        if any(t.lost for t in tasks):
            raise SimDeadlock("waiting for tasks of a terminated pool")
        self.sim.block_until(lambda: all(t.done for t in tasks), "pool-wait")

    def _wait_any(self, tasks):
        self.sim.block_until(lambda: any(t.done for t in tasks), "pool-wait-any")

    def _poll(self):
        self.sim.yield_now()

    def _destroy(self):
        pass


class ProcessPoolSim(BasePool):
    """Worker processes are real forked children, each driven one task at a time."""

    kind = "process"

    def __init__(self, sim, processes, caller, initializer=None, initargs=(), late=None):
        super().__init__(sim, processes, caller)
        self.late = sim.late_pickle if late is None else late
        self.kids = [None] * processes
        self.spawned = False
        self.init = (initializer, initargs)
        # the parent's random state at the moment the pool is made is what every child inherits
        self._fork_all()

    def _fork_all(self):
        sys.stdout.flush()
        sys.stderr.flush()
        self.kids = [_Child(self) for _ in range(min(self.n, 16))]
        self.spawned = True

    def _prepare(self, t):
        if not self.late:
            t.payload = self._dump(t)

    def _dump(self, t):
        return pickle.dumps((t.func, t.args, t.kwds))

    def _pump_one(self):
        """Some idle worker takes the next chunk and finishes it."""
        if not self.queue:
            return False
        t = self.queue.pop(0)
        chunk = [t]
        while self.queue and t.batch is not None and self.queue[0].batch == t.batch:
            chunk.append(self.queue.pop(0))
        w = self.sim.pick(len(self.kids), "assign")
        for t in chunk:
            t.started = True
        results = []
        for t in chunk:
            try:
                payload = t.payload if t.payload is not None else self._dump(t)
            except Exception as e:
                results.append((t, False, e))
                break
            self.sim.log.append(("run", self.id, t.idx, w))
            ok, v = self.kids[w].call(payload)
            results.append((t, ok, v))
            if not ok and t.batch is not None:
                break
        if len(results) < len(chunk):
            bad = results[-1][2]
            for u in chunk[len(results):]:
                results.append((u, False, bad))
        self.inflight.append(results)
        return True

    inflight = None

    def _progress(self, tasks):
        # start up to n chunks, then let one of the started ones complete
        if self.inflight is None:
            self.inflight = []
        while self.queue and len(self.inflight) < self.n:
            self._pump_one()
        if not self.inflight:
            return False
        k = self.sim.pick(len(self.inflight), "complete")
        for t, ok, v in self.inflight.pop(k):
            self._finish(t, ok, v)
        return True

    def _wait(self, tasks, timeout):
        while not all(t.done for t in tasks):
            if any(t.lost for t in tasks) or not self._progress(tasks):
                raise SimDeadlock("waiting for tasks of a terminated pool")

    def _wait_any(self, tasks):
        while not any(t.done for t in tasks):
            if not self._progress(tasks):
                raise SimDeadlock("waiting for tasks of a terminated pool")

    def _poll(self):
        self._progress([])

    def terminate(self):
        super().terminate()
        for rs in (self.inflight or []):
            for t, _, _ in rs:
                t.lost = True
        self.inflight = []
        self._destroy()

    def _destroy(self):
        for k in self.kids:
            if k is not None:
                k.close()
        self.kids = [None] * len(self.kids)

    def join(self):
        super().join()
        self._destroy()


STOP = b"\xff" * 8


class _Child:
    def __init__(self, pool):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(w1)
                os.close(r2)
                sim = pool.sim
                sim.in_child = True
                sys.settrace(None)
                fi, ia = pool.init
                if fi is not None:
                    fi(*ia)
                while True:
                    n = _read_n(r1, 8)
                    if n is None or n == STOP:
                        break
                    payload = _read_n(r1, struct.unpack("<Q", n)[0])
                    ok, v = False, None
                    try:
                        func, args, kwds = pickle.loads(payload)
                        v = func(*args, **kwds)
                        ok = True
                    except Exception as e:  # as multiprocessing's worker does
                        ok, v = False, e
                    try:
                        out = pickle.dumps((ok, v))
                        pickle.loads(out)
                    except Exception as e:
                        from multiprocessing.pool import MaybeEncodingError
                        out = pickle.dumps((False, MaybeEncodingError(repr(e), repr(v)[:200])))
                    os.write(w2, struct.pack("<Q", len(out)))
                    _write_all(w2, out)
            except BaseException as e:  # noqa
                try:
                    os.write(2, ("simulated worker died: %r\n" % (e,)).encode())
                except Exception:
                    pass
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        self.pid, self.w, self.r = pid, w1, r2

    def call(self, payload):
        os.write(self.w, struct.pack("<Q", len(payload)))
        _write_all(self.w, payload)
        n = _read_n(self.r, 8)
        if n is None:
            raise SimDeadlock("worker process died")
        return pickle.loads(_read_n(self.r, struct.unpack("<Q", n)[0]))

    def close(self):
        if self.pid is None:
            return
        try:
            os.write(self.w, STOP)  # siblings hold copies of this pipe: EOF alone would not do
        except OSError:
            pass
        os.close(self.w)
        os.close(self.r)
        try:
            os.waitpid(self.pid, 0)
        except ChildProcessError:
            pass
        self.pid = None


def _read_n(fd, n):
    buf = b""
    while len(buf) < n:
        b = os.read(fd, min(1 << 20, n - len(buf)))
        if not b:
            return None
        buf += b
    return buf


def _write_all(fd, b):
    mv = memoryview(b)
    while mv:
        k = os.write(fd, mv)
        mv = mv[k:]


# -- concurrent.futures flavour ------------------------------------------------
class _Future:
    def __init__(self, res):
        self._r = res

    def result(self, timeout=None):
        return self._r.get(timeout)

    def exception(self, timeout=None):
        self._r.wait(timeout)
        t = self._r.tasks[0]
        return None if t.ok else t.value

    def done(self):
        return self._r.ready()

    def cancel(self):
        return False

    def add_done_callback(self, cb):
        t = self._r.tasks[0]
        if t.done:
            cb(self)
        else:
            t.callback = t.ecallback = lambda _v: cb(self)


class ExecutorSim:
    def __init__(self, pool):
        self._pool = pool

    def submit(self, fn, *a, **k):
        return _Future(self._pool.apply_async(fn, a, k))

    def map(self, fn, *its, timeout=None, chunksize=1):
        fs = [self.submit(fn, *a) for a in zip(*its)]
        return (f.result() for f in fs)

    def shutdown(self, wait=True, cancel_futures=False):
        self._pool.close()
        if wait:
            self._pool.join()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown(True)
        return False


# --------------------------------------------------------------------------
# installation of the seams
# --------------------------------------------------------------------------
class SimLock:
    """A lock made by kats code.  Blocks cooperatively inside a simulation."""

    def __init__(self, reentrant):
        self._re = reentrant
        self._lock = (_real["RLock"] if reentrant else _real["Lock"])()
        self._owner, self._count = None, 0

    def acquire(self, blocking=True, timeout=-1):
        s = _current
        if s is None or s.in_child:
            return self._lock.acquire(blocking, timeout)
        me = s.cur
        if self._re and self._owner is me:
            self._count += 1
            return True
        if self._owner is not None:
            if not blocking:
                return False
            s.block_until(lambda: self._owner is None, "lock")
        self._owner, self._count = me, 1
        return True

    def release(self):
        s = _current
        if s is None or s.in_child:
            return self._lock.release()
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        self._count -= 1
        if self._count == 0:
            self._owner = None

    def locked(self):
        return self._owner is not None or (not self._re and self._lock.locked())

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


def _caller_is_kats(depth=2):
    try:
        return is_kats_file(sys._getframe(depth).f_code.co_filename)
    except Exception:
        return False


def _check_pool_fail(sim):
    i = sim.stats["pools"]
    if i in sim.pool_fail:
        sim.pool_fail.discard(i)
        sim.stats["pool_start_failures"] = sim.stats.get("pool_start_failures", 0) + 1
        sim.log.append(("poolfail",))
        raise OSError(errno.EAGAIN, "injected: cannot start worker")


def _mk_process_pool(realkey):
    def Pool(processes=None, initializer=None, initargs=(), maxtasksperchild=None, *a, **k):
        s = _current
        if s is None:
            return _real[realkey](processes, initializer, initargs, maxtasksperchild, *a, **k)
        if s.in_child:
            raise AssertionError("daemonic processes are not allowed to have children")
        if processes is None:
            processes = s.cores
        if processes < 1:
            raise ValueError("Number of processes must be at least 1")
        _check_pool_fail(s)
        return ProcessPoolSim(s, processes, None, initializer, initargs)

    return Pool


def _mk_thread_pool(realkey):
    def Pool(processes=None, initializer=None, initargs=()):
        s = _current
        if s is None or s.in_child:
            return _real[realkey](processes, initializer, initargs)
        if processes is None:
            processes = s.cores
        if processes < 1:
            raise ValueError("Number of processes must be at least 1")
        _check_pool_fail(s)
        return ThreadPoolSim(s, processes, None)

    return Pool


class _ManagerSim:
    def __init__(self, sim):
        self._sim = sim

    def Pool(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None):
        _check_pool_fail(self._sim)
        return ProcessPoolSim(self._sim, processes or self._sim.cores, None,
                              initializer, initargs, late=0)

    def dict(self, *a, **k):
        return builtins.dict(*a, **k)

    def list(self, *a, **k):
        return builtins.list(*a, **k)

    def shutdown(self):
        pass

    def start(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    import concurrent.futures as cf
    import multiprocessing as mp
    import multiprocessing.dummy as mpd
    import multiprocessing.pool as mpp

    _real["mp.Pool"] = mp.Pool
    _real["mpp.Pool"] = mpp.Pool
    _real["mpp.ThreadPool"] = mpp.ThreadPool
    _real["mpd.Pool"] = mpd.Pool
    _real["Manager"] = mp.Manager
    _real["cpu_count"] = mp.cpu_count
    _real["os.cpu_count"] = os.cpu_count
    _real["Lock"] = threading.Lock
    _real["RLock"] = threading.RLock
    _real["TPE"] = cf.ThreadPoolExecutor
    _real["PPE"] = cf.ProcessPoolExecutor

    real_mpp_pool = mpp.Pool
    real_tp = mpp.ThreadPool

    class PoolMeta(type):
        def __instancecheck__(cls, o):
            return isinstance(o, (real_mpp_pool, ProcessPoolSim))

    mp.Pool = _mk_process_pool("mp.Pool")
    simpool = _mk_process_pool("mpp.Pool")
    simtp = _mk_thread_pool("mpp.ThreadPool")
    mpp_proxy = types.ModuleType("multiprocessing.pool")
    mpp_proxy.__dict__.update(mpp.__dict__)
    mpp_proxy.Pool = simpool
    mpp_proxy.ThreadPool = simtp
    # only code that imports from now on sees the seam; the library itself keeps the original
    sys.modules["multiprocessing.pool"] = mpp_proxy
    mp.pool = mpp_proxy
    mpd.Pool = _mk_thread_pool("mpd.Pool")

    def Manager():
        s = _current
        if s is None or s.in_child:
            return _real["Manager"]()
        return _ManagerSim(s)

    mp.Manager = Manager

    def cpu_count():
        s = _current
        return _real["cpu_count"]() if s is None else s.cores

    mp.cpu_count = cpu_count
    os.cpu_count = cpu_count

    class TPE:
        def __new__(cls, max_workers=None, *a, **k):
            s = _current
            if s is None or s.in_child:
                return _real["TPE"](max_workers, *a, **k)
            _check_pool_fail(s)
            return ExecutorSim(ThreadPoolSim(s, max_workers or s.cores, None))

    class PPE:
        def __new__(cls, max_workers=None, *a, **k):
            s = _current
            if s is None:
                return _real["PPE"](max_workers, *a, **k)
            _check_pool_fail(s)
            return ExecutorSim(ProcessPoolSim(s, max_workers or s.cores, None))

    cf.ThreadPoolExecutor = TPE
    cf.ProcessPoolExecutor = PPE

    def Lock():
        if _caller_is_kats():
            return SimLock(False)
        return _real["Lock"]()

    def RLock():
        if _caller_is_kats():
            return SimLock(True)
        return _real["RLock"]()

    threading.Lock = Lock
    threading.RLock = RLock


def rng(*parts):
    """A private generator derived from its arguments only."""
    return random.Random("/".join(str(p) for p in parts))


def gen_schedule(r, est_steps, n_switch=None, n_picks=40):
    """Preemption points (log- or uniformly spread over the expected run) and picks."""
    if n_switch is None:
        n_switch = r.choice([0, 1, 2, 4, 8, 16, 32, 64])
    sw = []
    scale = max(4, int(est_steps * r.choice([1, 1, 1, 0.3, 0.1, 0.03])))
    for _ in range(n_switch):
        if r.random() < 0.8:
            s = r.randint(1, scale)
        else:
            s = int(2 ** r.uniform(0, max(1, est_steps).bit_length()))
        sw.append([s, r.randint(0, 7)])
    sw.sort()
    return {"switches": sw, "picks": [r.randint(0, 7) for _ in range(n_picks)]}

"""Runs one property's scenario over many seeds on forked workers, minimises and
records violations, writes evidence.

A scenario module defines
    ID, LEVEL, TECHNIQUE, RULE, REAL, STUB, ASSUMPTIONS
    RUNS = {"quick": n, "thorough": m}; optional CAP = seconds per tier
    gen(r, i, tier) -> plan   (JSON-able; the only place that draws randomness)
    run(plan, ctx)            (pure function of plan and of the code under /repo)
"""
from __future__ import annotations

import hashlib
import io
import json
import logging
import os
import random
import select
import signal
import sys
import time
import traceback
import warnings

from . import sim as simmod

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RUN_TIMEOUT = 150


class Violation(Exception):
    def __init__(self, key, msg):
        super().__init__(key, msg)
        self.key, self.msg = key, msg


class HarnessError(Exception):
    pass


class Ctx:
    def __init__(self, known=()):
        self.known_keys = set(known)
        self.known_hit = {}
        self.faults = {}
        self.probes = {}
        self.h = hashlib.sha256()
        self.inter = hashlib.sha256()
        self.has_inter = False
        self.n_events = 0
        self.events = []
        self.checks = 0
        self.sim_seconds = 0.0
        self.nontrivial = False
        self.note = None

    def fault(self, kind, n=1):
        if n:
            self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def event(self, *parts):
        s = json.dumps(parts, default=str)
        self.h.update(s.encode())
        self.n_events += 1
        if len(self.events) < 60:
            self.events.append(s)

    def interleaving(self, log):
        """Feeds a schedule (what ran when) to the distinct-interleavings measure."""
        self.has_inter = True
        for e in log:
            s = json.dumps(e, default=str)
            self.inter.update(s.encode())
            self.h.update(s.encode())

    def check(self, cond, key, msg=""):
        self.checks += 1
        if cond:
            return True
        self.fail(key, msg() if callable(msg) else msg)
        return False

    def fail(self, key, msg=""):
        if key in self.known_keys:
            self.known_hit[key] = str(msg)[:500]
            self.event("known", key)
            return
        raise Violation(key, str(msg)[:2000])


class quiet:
    """Scenario output (prints, warnings, plots) goes nowhere."""

    def __enter__(self):
        self.o, self.e = sys.stdout, sys.stderr
        sys.stdout = io.StringIO()
        sys.stderr = io.StringIO()

    def __exit__(self, *a):
        sys.stdout, sys.stderr = self.o, self.e


def prepare():
    """Import seams first, then silence everything."""
    warnings.simplefilter("ignore")
    warnings.filterwarnings("ignore")
    logging.disable(logging.CRITICAL)
    # libraries keep the originals: only code of kats imported from here on sees the seams
    with quiet():
        import joblib, sklearn.linear_model, statsmodels.api  # noqa
        try:
            import prophet  # noqa
        except ImportError:
            pass
    simmod.install()
    with quiet():
        import kats.consts, kats.models.model  # noqa
    import pandas as pd
    pd.options.mode.chained_assignment = None
    sys.setrecursionlimit(max(sys.getrecursionlimit(), 3000))


def reset_world(seed):
    import numpy as np
    random.seed(seed)
    np.random.seed(seed % (1 << 32))
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)


def _kats_frame(tb):
    """Is the innermost repo-or-harness frame of this traceback code under test?"""
    last = None
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if simmod.is_kats_file(fn):
            last = "kats:" + os.path.relpath(fn, simmod.REPO) + ":" + tb.tb_frame.f_code.co_name
        elif fn.startswith(os.path.join(VERIF, "dst")):
            last = "harness"
        tb = tb.tb_next
    return last


def execute(mod, plan, known=()):
    """-> dict describing one run; never raises for violations."""
    ctx = Ctx(known)
    out = {"v": None, "err": None}
    reset_world(int(plan.get("seed", 0)))
    try:
        with quiet():
            mod.run(plan, ctx)
    except Violation as v:
        out["v"] = [v.key, v.msg]
    except simmod.SimDeadlock as e:
        out["v"] = ["deadlock", "%s" % e]
    except Exception as e:
        where = _kats_frame(e.__traceback__)
        if where and where.startswith("kats:"):
            out["v"] = ["unexpected-exception:%s:%s" % (type(e).__name__, where[5:]),
                        "".join(traceback.format_exception(type(e), e, e.__traceback__))[-1800:]]
        else:
            out["err"] = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:]
    except BaseException as e:
        out["err"] = "escaped %r\n" % (e,) + "".join(
            traceback.format_exception(type(e), e, e.__traceback__))[-4000:]
    finally:
        sys.settrace(None)
        simmod._current = None
    out.update(
        faults=ctx.faults, probes=ctx.probes, digest=ctx.h.hexdigest(), checks=ctx.checks,
        inter=ctx.inter.hexdigest() if ctx.has_inter else None,
        events=ctx.n_events, sim_s=ctx.sim_seconds, nontrivial=ctx.nontrivial,
        known=ctx.known_hit, trace=ctx.events[:40],
    )
    return out


_alarms = [0]


def _alarm(sig, frame):
    _alarms[0] += 1
    if _alarms[0] > 1:
        os._exit(9)
    signal.alarm(10)
    raise BaseException("run timed out")


def run_in_fork(mod, plans, known, timeout=RUN_TIMEOUT):
    """Executes plans one after another in one pristine fork; returns the list of results."""
    h = fork_job(mod, plans, known)
    return wait_job(h, timeout)


def fork_job(mod, plans, known):
    r, w = os.pipe()
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            os.setpgid(0, 0)
            _devnull_std()
            with os.fdopen(w, "wb") as f:
                if hasattr(mod, "worker_setup"):
                    mod.worker_setup()
                for p in plans:
                    res = execute(mod, p, known)
                    f.write(json.dumps(res).encode() + b"\n")
                    f.flush()
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    return pid, r


def wait_job(h, timeout=RUN_TIMEOUT):
    pid, r = h
    buf = b""
    end = time.time() + timeout
    while True:
        left = end - time.time()
        if left <= 0:
            _kill(pid)
            break
        rd, _, _ = select.select([r], [], [], left)
        if not rd:
            continue
        b = os.read(r, 1 << 16)
        if not b:
            break
        buf += b
    os.close(r)
    try:
        os.waitpid(pid, 0)
    except ChildProcessError:
        pass
    return [json.loads(x) for x in buf.split(b"\n") if x]


def _kill(pid):
    try:
        os.killpg(pid, signal.SIGKILL)
    except Exception:
        try:
            os.kill(pid, signal.SIGKILL)
        except Exception:
            pass


def _devnull_std():
    # scenario code may write to the raw descriptors; results travel on their own pipe
    dn = os.open(os.devnull, os.O_RDWR)
    os.dup2(dn, 0)
    os.dup2(dn, 1)
    if not os.environ.get("VERIF_DEBUG"):
        os.dup2(dn, 2)
    os.close(dn)


def plan_for(mod, seed, i, tier):
    r = simmod.rng(mod.ID, seed, i)
    p = mod.gen(r, i, tier)
    p.setdefault("seed", r.randint(0, 2**31 - 1))
    # plans must survive JSON unchanged, so that replaying a file is replaying the run
    return json.loads(json.dumps(p))


def worker(mod, w, nw, seed, tier, nruns, deadline, known, wfd, start=0):
    f = os.fdopen(wfd, "wb")
    signal.signal(signal.SIGALRM, _alarm)
    if hasattr(mod, "worker_setup"):
        mod.worker_setup()
    for i in range(start + w, start + nruns, nw):
        if time.time() > deadline:
            f.write(json.dumps({"i": i, "stop": "deadline"}).encode() + b"\n")
            break
        t0 = time.time()
        try:
            plan = plan_for(mod, seed, i, tier)
        except BaseException as e:
            f.write(json.dumps({"i": i, "err": "gen: " + traceback.format_exc()}).encode() + b"\n")
            f.flush()
            break
        signal.alarm(RUN_TIMEOUT)
        res = execute(mod, plan, known)
        signal.alarm(0)
        res["i"] = i
        res["t"] = round(time.time() - t0, 3)
        if res["v"] or res["err"]:
            res["plan"] = plan
        if not res["v"]:
            res["trace"] = res["trace"] if i < 24 else None
        f.write(json.dumps(res).encode() + b"\n")
        f.flush()
        if res["v"] or res["err"]:
            break
    f.flush()


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        d = json.load(f)
    return [x for x in d.get("known", []) if x["property"] == pid]


# ---------------------------------------------------------------- minimiser
def _size(p):
    return len(json.dumps(p))


def shrink_candidates(plan):
    """Smaller plans, most aggressive first.  Generic over JSON."""
    out = []

    def walk(node, path):
        if isinstance(node, list):
            n = len(node)
            if n:
                chunk = n
                while chunk >= 1:
                    for s in range(0, n, chunk):
                        out.append((path, "del", s, s + chunk))
                    if chunk == 1:
                        break
                    chunk //= 2
            for i, x in enumerate(node):
                walk(x, path + [i])
        elif isinstance(node, dict):
            for k in node:
                if k in ("seed",):
                    continue
                walk(node[k], path + [k])
        elif isinstance(node, bool):
            if node:
                out.append((path, "set", False, None))
        elif isinstance(node, int):
            for c in (0, 1, node // 2, node - 1):
                if c != node and abs(c) < abs(node):
                    out.append((path, "set", c, None))

    walk(plan, [])
    # deletions of big chunks first, then scalars
    out.sort(key=lambda c: (0 if c[1] == "del" else 1, -(c[3] - c[2]) if c[1] == "del" else 0))
    return out


def apply_candidate(plan, c):
    p = json.loads(json.dumps(plan))
    path, op, a, b = c
    if op == "set":
        node = p
        for k in path[:-1]:
            node = node[k]
        node[path[-1]] = a
    else:
        node = p
        for k in path:
            node = node[k]
        del node[a:b]
    return p


def minimise(mod, prelude, plan, key, known, budget, par=8):
    end = time.time() + budget
    tried = 0
    seen = set()

    def attempt(pairs):
        nonlocal tried
        jobs = []
        for pre, pl in pairs:
            jobs.append(fork_job(mod, pre + [pl], known))
        ok = []
        for h, (pre, pl) in zip(jobs, pairs):
            tried += 1
            rs = wait_job(h, max(5, min(60, end - time.time() + 5)))
            ok.append(len(rs) == len(pre) + 1 and rs[-1]["v"] is not None and rs[-1]["v"][0] == key)
        return ok

    # 1. drop preludes
    i = 0
    while prelude and time.time() < end:
        n = max(1, len(prelude) // 2)
        cands = [prelude[:s] + prelude[s + n:] for s in range(0, len(prelude), n)][:par]
        ok = attempt([(c, plan) for c in cands])
        if True in ok:
            prelude = cands[ok.index(True)]
        elif n == 1:
            break
        else:
            cands = [prelude[:s] + prelude[s + 1:] for s in range(len(prelude))][:par]
            ok = attempt([(c, plan) for c in cands])
            if True in ok:
                prelude = cands[ok.index(True)]
            else:
                break
        i += 1
    # 2. the plan itself
    progress = True
    while progress and time.time() < end:
        progress = False
        cands = shrink_candidates(plan)
        pos = 0
        while pos < len(cands) and time.time() < end:
            batch = []
            while pos < len(cands) and len(batch) < par:
                try:
                    p = apply_candidate(plan, cands[pos])
                except Exception:
                    pos += 1
                    continue
                pos += 1
                d = json.dumps(p, sort_keys=True)
                if d in seen:
                    continue
                seen.add(d)
                batch.append(p)
            if not batch:
                break
            ok = attempt([(prelude, p) for p in batch])
            if True in ok:
                plan = batch[ok.index(True)]
                progress = True
                break
    return prelude, plan, tried


# ---------------------------------------------------------------- top level
def check(mod, seed, tier, nw=8, runs=None, cap=None, quiet_out=False, start=0):
    t0 = time.time()
    nruns = runs or mod.RUNS[tier]
    cap = cap or getattr(mod, "CAP", {}).get(tier, 60 if tier == "quick" else 3000)
    known = load_known(mod.ID)
    kkeys = [k["key"] for k in known]
    with quiet():
        if hasattr(mod, "setup"):
            mod.setup()
    deadline = t0 + cap
    pids = {}
    sys.stdout.flush(); sys.stderr.flush()
    for w in range(nw):
        r, wf = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                os.setpgid(0, 0)
                _devnull_std()
                worker(mod, w, nw, seed, tier, nruns, deadline, kkeys, wf, start)
            except BaseException:
                pass
            finally:
                os._exit(0)
        os.close(wf)
        pids[r] = (pid, w, [b""])
    results = {}
    hard = deadline + RUN_TIMEOUT
    first_bad = None
    while pids:
        left = hard - time.time()
        if left <= 0:
            break
        rd, _, _ = select.select(list(pids), [], [], min(left, 5))
        for r in rd:
            pid, w, buf = pids[r]
            b = os.read(r, 1 << 16)
            if not b:
                os.close(r)
                os.waitpid(pid, 0)
                del pids[r]
                continue
            buf[0] += b
            while b"\n" in buf[0]:
                line, buf[0] = buf[0].split(b"\n", 1)
                res = json.loads(line)
                res["w"] = w
                if "stop" in res:
                    continue
                results[res["i"]] = res
                if (res.get("v") or res.get("err")) and first_bad is None:
                    first_bad = time.time()
        if first_bad and time.time() - first_bad > 6:
            break
    stuck = []
    for r, (pid, w, buf) in list(pids.items()):
        if not first_bad:
            stuck.append(w)
        _kill(pid)
        os.close(r)
        try:
            os.waitpid(pid, 0)
        except ChildProcessError:
            pass

    bad = [results[i] for i in sorted(results) if results[i].get("v")]
    errs = [results[i] for i in sorted(results) if results[i].get("err")]
    wall = time.time() - t0
    known_hits = {}
    for x in results.values():
        known_hits.update(x.get("known") or {})
    report = []
    viols = 0
    if bad:
        # the same violation found from several seeds: minimise the first
        viols = len(bad)
        b = bad[0]
        path, info = handle_violation(mod, b, results, seed, tier, nw, kkeys, start)
        report.append("VIOLATION property=%s replay=%s" % (mod.ID, path))
        report.append("  key: %s" % b["v"][0])
        report.append("  %s" % b["v"][1].strip().replace("\n", "\n  "))
        report.append("  " + info)
        for o in bad[1:4]:
            report.append("  also run %d: %s" % (o["i"], o["v"][0]))
    write_evidence(mod, results, seed, tier, t0, nw, viols, known_hits, start)
    for k in known:
        if k["key"] in known_hits:
            print("KNOWN-FINDING: property=%s %s" % (mod.ID, k["what"]))
    for k in known:
        if k["key"] not in known_hits:
            # listed findings are always announced; say when this batch did not reach one
            print("KNOWN-FINDING: property=%s %s (not reached by this batch)" % (mod.ID, k["what"]))
    for line in report:
        print(line)
    if bad:
        return 1
    if errs or stuck:
        for e in errs[:3]:
            print("HARNESS ERROR run %s:\n%s" % (e["i"], e["err"]))
        if stuck:
            print("HARNESS ERROR: workers %s gave no answer" % stuck)
        return 2
    if not results:
        print("HARNESS ERROR: no run completed")
        return 2
    if not quiet_out:
        print("OK property=%s runs=%d of %d wall=%.1fs" % (mod.ID, len(results), nruns, wall))
    return 0


def handle_violation(mod, b, results, seed, tier, nw, kkeys, start):
    key = b["v"][0]
    budget = 60 if tier == "quick" else 180
    plan = b["plan"]
    prelude = []
    rs = run_in_fork(mod, [plan], kkeys, 120)
    how = "reproduced in a fresh process"
    if not (rs and rs[-1]["v"] and rs[-1]["v"][0] == key):
        # depends on what the same process ran before: include those runs
        prelude = [plan_for(mod, seed, i, tier)
                   for i in range(start + (b["i"] - start) % nw, b["i"], nw)]
        rs = run_in_fork(mod, prelude + [plan], kkeys, 240)
        if len(rs) == len(prelude) + 1 and rs[-1]["v"] and rs[-1]["v"][0] == key:
            how = "reproduced after the runs its process had done before"
        else:
            how = "NOT reproduced in isolation (raw run recorded)"
            budget = 0
    tried = 0
    if budget:
        prelude, plan, tried = minimise(mod, prelude, plan, key, kkeys, budget)
    final = run_in_fork(mod, prelude + [plan], kkeys, 240)
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%d-%d.json" % (mod.ID, seed, b["i"]))
    rec = {
        "property": mod.ID, "seed": seed, "run": b["i"], "tier": tier, "key": key,
        "message": (final[-1]["v"][1] if final and final[-1]["v"] else b["v"][1]),
        "prelude": prelude, "plan": plan, "original_plan": b["plan"],
        "minimiser_attempts": tried, "how": how,
        "trace": final[-1]["trace"] if final else b.get("trace"),
        "digest": final[-1]["digest"] if final else None,
    }
    with open(path, "w") as f:
        json.dump(rec, f, indent=1)
    return path, "%s; minimised from %d to %d bytes in %d attempts" % (
        how, _size(b["plan"]), _size(plan), tried)


def replay(mod, path):
    with open(path) as f:
        rec = json.load(f)
    with quiet():
        if hasattr(mod, "setup"):
            mod.setup()
    kk = [k["key"] for k in load_known(mod.ID)]
    rs = run_in_fork(mod, rec["prelude"] + [rec["plan"]], kk, 600)
    last = rs[-1] if rs else None
    if last and last["v"]:
        print("VIOLATION property=%s replay=%s" % (mod.ID, path))
        print("  key: %s%s" % (last["v"][0], "" if last["v"][0] == rec["key"] else " (recorded: %s)" % rec["key"]))
        print("  same event log: %s" % (last["digest"] == rec["digest"]))
        print("  " + last["v"][1].replace("\n", "\n  "))
        return 1
    if last and last["err"]:
        print("HARNESS ERROR\n" + last["err"])
        return 2
    print("OK: replay does not violate %s" % mod.ID)
    return 0


def write_evidence(mod, results, seed, tier, t0, nw, viols, known_hits, start):
    good = [r for r in results.values() if not r.get("err")]
    faults, probes = {}, {}
    for r in good:
        for k, v in r["faults"].items():
            faults[k] = faults.get(k, 0) + v
        for k, v in r["probes"].items():
            probes[k] = probes.get(k, 0) + v
    wall = time.time() - t0
    nontriv = {r["digest"] for r in good if r["nontrivial"]}
    inter = {r["inter"] for r in good if r["inter"]}
    samples = []
    for i in sorted(results)[:3]:
        try:
            samples.append({"run": i, "plan": plan_for(mod, seed, i, tier),
                            "history": (results[i].get("trace") or [])[:25],
                            "digest": results[i].get("digest")})
        except Exception:
            pass
    cov = {
        "evaluations": len(good),
        "distinct_nontrivial": len(nontriv),
        "rule": mod.RULE,
        "samples": samples,
        "oracle_comparisons": sum(r["checks"] for r in good),
        "simulated_runs_per_hour": round(len(good) / wall * 3600) if wall else 0,
        "seeds_per_hour": round(len(good) / wall * 3600) if wall else 0,
        "simulated_time_s": round(sum(r["sim_s"] for r in good), 1),
        "faults_injected": dict(sorted(faults.items())),
        "probes": dict(sorted(probes.items())),
        "distinct_interleavings": len(inter),
        "interleaving_measure": getattr(mod, "INTER", "hash of the recorded scheduling decisions of a run (preemptions, task assignment, completion order)"),
        "distinct_event_logs": len({r["digest"] for r in good}),
        "real_components": mod.REAL,
        "stubbed_components": mod.STUB,
        "workers": nw,
        "run_seconds": {"mean": round(sum(r["t"] for r in good) / max(1, len(good)), 3),
                        "max": max([r["t"] for r in good] or [0])},
        "known_findings_reached": sorted(known_hits),
    }
    ev = {"property": mod.ID, "tier": tier, "seed": seed, "level": mod.LEVEL,
          "coverage": cov, "assumptions": mod.ASSUMPTIONS,
          "wall_s": round(wall, 2), "violations": viols}
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, ".%s.tmp" % mod.ID)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(d, mod.ID + ".json"))

"""C15: a saved metalearner is loaded back exactly or not at all."""
import builtins
import errno
import io
import os
import shutil
import tempfile

import numpy as np

from .. import common as C
from .. import zyg
from ..sim import SimCrash
from . import c14

ID = "C15"
LEVEL = "exploration"
RUNS = {"quick": 6000, "thorough": 200000}
CAP = {"quick": 38, "thorough": 1500}
RULE = ("A run creates one to three metalearners, trains them, and performs a random sequence of saves, loads, predictions, retrainings and file damage on one to three "
        "files of a simulated disk that fails opens, writes, reads and closes, fills up, writes short, and loses power in the middle of or after a save, "
        "keeping a prefix, the old contents or a zeroed tail. A reference records what each successful save held. A load must give exactly the predictions "
        "of a model saved under that name or raise ValueError and leave the receiver as it was; the load after an undamaged save must succeed, here and in a fresh process. "
        "Non-trivial: at least one load after a fault or a second generation. Distinct by event log.")
INTER = "the order of operations and the positions of disk faults"
REAL = ["MetaLearnPredictability and MetaLearnModelSelect (train, preprocess, save_model, load_model, pred_by_feature)", "joblib, pickle, sklearn, the io module's buffering"]
STUB = ["the raw file layer under open() for files of the run's directory (faults, short transfers, power loss)"]
ASSUMPTIONS = ["a disk that loses data loses a suffix (it may read as zeros) or the whole new contents; files are not protected against flipped bits or holes in the middle",
               "GBDT training is left out of most runs because it is slow under this interpreter"]

EXT = [".joblib", ".joblib", ".joblib", ".pkl", ".joblib.gz", ".pkl.z", ".xz"]
WFAULTS = ["eio-open", "perm-open", "eio-write", "enospc", "short", "eio-close", "crash", "crash-zero", "crash-old", "power", "power-zero", "power-old"]
RFAULTS = ["eio-open", "emfile-open", "eio-read", "short", "kill"]


def gen(r, i, tier):
    n = r.choice([1, 1, 2, 3])
    heavy = r.random() < 0.06
    objs = []
    for _ in range(n):
        kind = r.choice("PS")
        methods = ["KNN", "NaiveBayes", "RandomForest"] + (["SVM"] if kind == "S" else []) + (["GBDT"] if heavy else [])
        objs.append({"kind": kind, "methods": [r.choice(methods) for _ in range(3)], "pre": r.random() < 0.5, "down": r.random() < 0.5, "seed": r.randint(0, 2**31 - 1)})
    kinds = sorted({o["kind"] for o in objs})
    files = [{"kind": r.choice(kinds), "ext": r.choice(EXT)} for _ in range(r.choice([1, 2, 3]))]
    ops = []
    for _ in range(r.randint(4, 14)):
        o = r.choice(["save", "save", "savef", "savef", "load", "load", "load", "loadf", "damage", "train", "fresh", "retrain"])
        k, f = r.randrange(64), r.randrange(len(files))
        if o == "save":
            ops.append([o, k, f])
        elif o == "savef":
            ops.append([o, k, f, r.choice(WFAULTS), r.choice([0, 1, 1, 2, 3, 5, 9]), round(r.random(), 3)])
            ops.append(["load", r.randrange(64), f, r.random() < 0.5])
        elif o == "load":
            ops.append([o, k, f, r.random() < 0.6])
        elif o == "loadf":
            ops.append([o, k, f, r.choice(RFAULTS), r.choice([0, 1, 1, 2, 3]), r.random() < 0.6])
        elif o == "damage":
            ops.append([o, f, r.choice(["truncate", "truncate", "zero", "empty", "delete", "directory", "last"]), round(r.random(), 3)])
            ops.append(["load", r.randrange(64), f, r.random() < 0.5])
        elif o == "train":
            ops.append([o, k])
        elif o == "fresh":
            ops.append([o, f])
        else:
            ops.append([o, k, f])
    return {"objs": objs, "files": files, "ops": ops}


def setup():
    zyg.start()


class Raw(io.RawIOBase):
    """An unbuffered file of the simulated disk."""

    def __init__(self, disk, path, mode):
        self.f = io.FileIO(path, mode)
        self.disk, self.path, self.dead = disk, path, False
        disk.raws.append(self)

    def readable(self):
        return self.f.readable()

    def writable(self):
        return self.f.writable()

    def seekable(self):
        return True

    def fileno(self):
        return self.f.fileno()

    @property
    def name(self):
        return self.path

    @property
    def mode(self):
        return self.f.mode

    def seek(self, *a):
        return self.f.seek(*a)

    def tell(self):
        return self.f.tell()

    def truncate(self, *a):
        return self.f.truncate(*a)

    def write(self, b):
        if self.dead:
            return len(b)
        d = self.disk
        d.writes += 1
        if d.fault in ("eio-write", "enospc", "crash", "crash-zero", "crash-old") and d.writes > d.at:
            part = int(len(b) * d.frac)
            if part:
                self.f.write(bytes(b)[:part])
            d.fired = True
            if d.fault == "eio-write":
                raise OSError(errno.EIO, "simulated write error")
            if d.fault == "enospc":
                raise OSError(errno.ENOSPC, "simulated full disk")
            for r in d.raws:
                r.dead = True
            raise SimCrash("power lost")
        if d.fault == "short" and len(b) > 1:
            d.fired = True
            return self.f.write(bytes(b)[:max(1, int(len(b) * d.frac))])
        return self.f.write(b)

    def readinto(self, b):
        d = self.disk
        d.reads += 1
        if d.fault in ("eio-read", "kill") and d.reads > d.at:
            d.fired = True
            if d.fault == "kill":
                raise SimCrash("interrupted")
            raise OSError(errno.EIO, "simulated read error")
        if d.fault == "short" and len(b) > 1:
            d.fired = True
            k = max(1, len(b) // 3)
            x = self.f.read(k)
            b[:len(x)] = x
            return len(x)
        return self.f.readinto(b)

    def close(self):
        if self.closed:
            return
        w = self.f.writable() and not self.dead
        super().close()
        if w and self.disk.fault == "eio-close":
            self.disk.fired = True
            try:
                size = os.fstat(self.f.fileno()).st_size
                self.f.truncate(int(size * self.disk.frac * 0.98))
            finally:
                self.f.close()
            raise OSError(errno.EIO, "simulated write-back error on close")
        self.f.close()


class Disk:
    """Routes open() of files below `root` through Raw."""

    def __init__(self, root):
        self.root = root
        self.arm(None)
        self.raws = []

    def arm(self, fault, at=0, frac=0.0):
        self.fault, self.at, self.frac = fault, at, frac
        self.fired = False
        self.writes = self.reads = 0
        self.raws = []

    def __enter__(self):
        self.saved = (builtins.open, io.open)
        builtins.open = self.opener(builtins.open)
        io.open = self.opener(io.open)
        return self

    def __exit__(self, *a):
        builtins.open, io.open = self.saved

    def opener(self, real):
        def sim_open(file, mode="r", *a, **k):
            if isinstance(file, (str, bytes, os.PathLike)) and os.fsdecode(file).startswith(self.root) and "b" in mode:
                if self.fault in ("eio-open", "perm-open", "emfile-open"):
                    self.fired = True
                    code = {"eio-open": errno.EIO, "perm-open": errno.EACCES, "emfile-open": errno.EMFILE}[self.fault]
                    raise OSError(code, "simulated: " + os.strerror(code), file)
                raw = Raw(self, os.fsdecode(file), mode)
                if "+" in mode:
                    return io.BufferedRandom(raw)
                return io.BufferedWriter(raw) if raw.writable() else io.BufferedReader(raw)
            return real(file, mode, *a, **k)
        return sim_open


def classes():
    from kats.models.metalearner.metalearner_modelselect import MetaLearnModelSelect
    from kats.models.metalearner.metalearner_predictability import MetaLearnPredictability
    return {"P": MetaLearnPredictability, "S": MetaLearnModelSelect}


def preds(obj, kind):
    x = c14.metadata()[1]
    try:
        out = [np.asarray(obj.pred_by_feature(x)).tolist(), np.asarray(obj.pred_by_feature([row for row in x[:3]])).tolist()]
        if kind == "S":
            out.append(np.asarray(obj.pred_by_feature(x, n_top=2)).tolist())
            clf = obj.clf
        else:
            clf = obj.clf
        out.append(np.round(np.asarray(clf.predict_proba((x - 0.5) * 1.7), dtype=float), 9).tolist() if hasattr(clf, "predict_proba") else None)
        return out
    except (ValueError, AttributeError) as e:
        return "no model: " + type(e).__name__


def fresh(kind, path):
    """In another process: load and predict."""
    m = classes()[kind](load_model=True)
    try:
        m.load_model(path)
    except ValueError:
        return "ValueError"
    return preds(m, kind)


def train(obj, o, g, seed):
    np.random.seed(seed % 2**32)
    method = o["methods"][g % 3]
    if o["kind"] == "P":
        e = obj.train(method=method, valid_size=0.2, test_size=0.1, n_estimators=5)
        return sorted((k, round(float(v), 9)) for k, v in e.items())
    e = obj.train(method=method, test_size=0.2, n_trees=5)
    return round(float(e["clf_accuracy"]), 9)


def build(o):
    meta, _ = c14.metadata()
    np.random.seed(o["seed"] % 2**32)
    if o["kind"] == "P":
        m = classes()["P"](meta, threshold=0.15)
        if o["pre"]:
            m.preprocess()
    else:
        m = classes()["S"](meta)
        m.preprocess(downsample=o["down"], scale=o["pre"])
    return m


def run(plan, ctx):
    root = tempfile.mkdtemp(prefix="c15-")
    try:
        drive(plan, ctx, root)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def drive(plan, ctx, root):
    disk = Disk(root)
    objs = []
    for o in plan["objs"]:
        m = build(o)
        train(m, o, 0, o["seed"])
        objs.append({"m": m, "o": o, "fp": preds(m, o["kind"]), "g": 0})
    n0 = len(objs)
    # an unloaded receiver of each kind that is used
    for kind in sorted({f["kind"] for f in plan["files"]}):
        objs.append({"m": classes()[kind](load_model=True), "o": {"kind": kind, "methods": ["KNN"] * 3, "seed": 1}, "fp": None, "g": 0})
        objs[-1]["fp"] = preds(objs[-1]["m"], kind)
    files = [{"path": os.path.join(root, "f%d%s" % (k, f["ext"])), "kind": f["kind"], "clean": None, "saved": [], "bytes": None, "state": "missing", "src": None}
             for k, f in enumerate(plan["files"])]

    def pick(k, kind, trained):
        c = [x for x in objs if x["o"]["kind"] == kind and (not trained or not isinstance(x["fp"], str))]
        return c[k % len(c)] if c else None

    def content(path):
        try:
            with open(path, "rb") as f:
                return f.read()
        except OSError:
            return None

    def put(path, data):
        if os.path.isdir(path):
            os.rmdir(path)
        if data is None:
            if os.path.exists(path):
                os.remove(path)
        else:
            with open(path, "wb") as f:
                f.write(data)

    def check_receiver(x, what):
        now = preds(x["m"], x["o"]["kind"])
        ctx.check(now == x["fp"], "receiver-changed", lambda: "%s changed the receiving object: its predictions were %s, now %s" % (what, str(x["fp"])[:120], str(now)[:120]))
        x["fp"] = now

    def judge_load(x, fl, outcome, what):
        """After load_model: outcome is None for success or the exception."""
        kind = fl["kind"]
        ctx.event("load", fl["state"], type(outcome).__name__)
        if outcome is None:
            got = preds(x["m"], kind)
            if fl["clean"] is not None:
                ctx.check(got == fl["clean"], "restored-model", lambda: "%s: the model loaded predicts %s, the saved one %s" % (what, str(got)[:160], str(fl["clean"])[:160]))
            else:
                ctx.check(any(got == s for s in fl["saved"]), "damaged-accepted", lambda: "%s: loading a %s file succeeded with predictions %s that no model saved there makes" % (what, fl["state"], str(got)[:160]))
            x["fp"] = got
            ctx.probe("loaded " + kind, 1)
        else:
            ctx.check(isinstance(outcome, (ValueError, SimCrash)), "load-error", "%s: loading a %s file raised %r instead of ValueError" % (what, fl["state"], outcome))
            check_receiver(x, what)
            ctx.probe("load refused", 1)

    def load(x, fl):
        try:
            x["m"].load_model(fl["path"])
            return None
        except SimCrash as e:
            return e
        except Exception as e:
            return e

    with disk:
        for step, op in enumerate(plan["ops"]):
            what = "step %d %s" % (step, op)
            if op[0] in ("save", "savef"):
                fl = files[op[2]]
                x = pick(op[1], fl["kind"], True)
                if x is None:
                    continue
                if os.path.isdir(fl["path"]):
                    os.rmdir(fl["path"])
                old = content(fl["path"])
                fault = op[3] if op[0] == "savef" else None
                disk.arm(fault, *(op[4:6] if fault else ()))
                err = None
                try:
                    x["m"].save_model(fl["path"])
                except (SimCrash, Exception) as e:
                    err = e
                fired = disk.fired
                disk.arm(None)
                if err is not None and not fired:
                    raise err
                if fired:
                    ctx.fault("disk: " + fault)
                fl["saved"].append(x["fp"])
                if fault and fault.startswith(("crash", "power")) and (fired or fault.startswith("power")):
                    # the process is gone and only what was durable survives
                    new = content(fl["path"]) or b""
                    cut = int(len(new) * op[5])
                    if fault.endswith("-old"):
                        put(fl["path"], old)
                        fl["state"] = "not yet durable"
                        fl["clean"] = fl["clean"] if old is not None else None
                    elif fault.endswith("-zero"):
                        put(fl["path"], new[:cut] + b"\0" * (len(new) - cut))
                        fl["state"], fl["clean"] = "torn (zero tail)", None
                    else:
                        put(fl["path"], new[:cut])
                        fl["state"], fl["clean"] = "torn", None
                    if fault.startswith("power"):
                        ctx.fault("disk: " + fault)
                    if not fault.endswith("-old"):
                        fl["durable"] = False
                elif err is not None:
                    fl["clean"], fl["state"] = None, "failed save"
                    if fault in ("eio-open", "perm-open") and content(fl["path"]) == old:
                        fl["state"] = "untouched"
                else:
                    fl["clean"], fl["state"] = x["fp"], "saved"
                    ctx.check(not (fired and fault in ("eio-write", "enospc", "eio-close")) or fresh_ok(fl), "error-swallowed",
                              "%s: the disk failed during save_model, which reported success, but the file does not hold the model" % what)
                check_receiver(x, what)
                ctx.event(op[0], fault, type(err).__name__, fl["state"])
                ctx.probe("saved " + fl["kind"], 1)
            elif op[0] in ("load", "loadf"):
                fl = files[op[2]]
                x = pick(op[1], fl["kind"], False)
                if x is None:
                    continue
                if op[-1]:
                    # into a new, empty object
                    x = {"m": classes()[fl["kind"]](load_model=True), "o": dict(x["o"]), "fp": None, "g": x["g"]}
                    x["fp"] = preds(x["m"], fl["kind"])
                    if len(objs) < 10:
                        objs.append(x)
                fault = op[3] if op[0] == "loadf" else None
                disk.arm(fault, *((op[4], 0.0) if fault else ()))
                err = load(x, fl)
                fired = disk.fired
                disk.arm(None)
                if fired:
                    ctx.fault("disk: read " + fault)
                    ctx.nontrivial = True
                if err is not None and fl["clean"] is not None and not (fired and fault != "short"):
                    ctx.fail("good-file-refused", "%s: loading an intact file (%s) raised %r" % (what, fl["state"], err))
                judge_load(x, fl, err, what)
                ctx.nontrivial = ctx.nontrivial or fl["state"] != "saved" or len(fl["saved"]) > 1
            elif op[0] == "damage":
                fl = files[op[1]]
                data = content(fl["path"])
                kind = op[2]
                if kind == "delete":
                    put(fl["path"], None)
                elif kind == "directory":
                    put(fl["path"], None)
                    os.mkdir(fl["path"])
                elif data is None:
                    continue
                elif kind == "empty":
                    put(fl["path"], b"")
                elif kind == "last":
                    put(fl["path"], data[:-1])
                elif kind == "zero":
                    put(fl["path"], data[:int(len(data) * op[3])] + b"\0" * (len(data) - int(len(data) * op[3])))
                else:
                    put(fl["path"], data[:int(len(data) * op[3])])
                fl["clean"], fl["state"] = None, kind
                ctx.fault("disk: " + kind)
            elif op[0] == "train":
                x = objs[op[1] % n0]
                x["g"] += 1
                train(x["m"], x["o"], x["g"], x["o"]["seed"] + x["g"])
                x["fp"] = preds(x["m"], x["o"]["kind"])
                ctx.event("train", str(x["fp"])[:60])
            elif op[0] == "fresh":
                fl = files[op[1]]
                got = zyg.call("dst.checks.c15", "fresh", fl["kind"], fl["path"])
                if got == "ValueError":
                    ctx.check(fl["clean"] is None, "good-file-refused", "%s: a fresh process cannot load an intact file" % what)
                elif fl["clean"] is not None:
                    ctx.check(got == fl["clean"], "restored-model", lambda: "%s: in a fresh process the model predicts %s, the saved one %s" % (what, str(got)[:160], str(fl["clean"])[:160]))
                else:
                    ctx.check(any(got == s for s in fl["saved"]), "damaged-accepted", "%s: a fresh process loaded a %s file" % (what, fl["state"]))
                ctx.probe("fresh process", 1)
                ctx.event("fresh", str(got)[:40])
            elif op[0] == "retrain":
                # everything training needs is in the file: the copy trains like the original
                fl = files[op[2]]
                x = pick(op[1], fl["kind"], True)
                if x is None or objs.index(x) >= n0:
                    continue
                if os.path.isdir(fl["path"]):
                    os.rmdir(fl["path"])
                x["m"].save_model(fl["path"])
                fl["saved"].append(x["fp"])
                fl["clean"], fl["state"] = x["fp"], "saved"
                y = classes()[fl["kind"]](load_model=True)
                y.load_model(fl["path"])
                x["g"] += 1
                a = train(x["m"], x["o"], x["g"], x["o"]["seed"] + x["g"])
                x["fp"] = preds(x["m"], fl["kind"])
                ctx.check(preds(y, fl["kind"]) == fl["clean"], "copy-shared", "%s: training the original changed the loaded copy" % what)
                b = train(y, x["o"], x["g"], x["o"]["seed"] + x["g"])
                ctx.check(a == b and preds(y, fl["kind"]) == x["fp"], "retrained", "%s: the loaded copy trains to a different model (%s, original %s)" % (what, b, a))
                ctx.probe("retrained a copy", 1)
    ctx.interleaving(plan["ops"])
    ctx.sim_seconds += 60 * len(plan["ops"])


def fresh_ok(fl):
    m = classes()[fl["kind"]](load_model=True)
    try:
        m.load_model(fl["path"])
    except ValueError:
        return False
    return preds(m, fl["kind"]) == fl["clean"]

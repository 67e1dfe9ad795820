"""C13 - a directory index always reflects the files after an update."""
import copy
import os
import random
import shutil
import sys
import time
from collections import Counter

import numpy as np
import pandas as pd

import dascore as dc

from .. import tlc
from ..enc import NULL, OFF

TRACE = "TraceDir"
ASSUMPTIONS = ["files appear by atomic renames with the modification time of their appearance and do not turn unreadable again",
               "interruptions are exceptions raised inside dascore code, not hard kills in the middle of an HDF5 write",
               "updates of different spools of one directory do not run at the same time"]
NAMES = ["a.h5", "b.h5", "c.hdf5", "noext", "sub/a.h5", "sub/deep/d.h5", "sub/x y.h5", "data/#1.h5", "sub/[z]?.h5", "e.pkl"]
ROOT = os.path.dirname(os.path.abspath(dc.__file__))


def models(tier):
    q = dict(Files='{"a", "b"}', MaxWrites=4, MaxUpdates=3)
    th = dict(Files='{"a", "b", "c"}', MaxWrites=5, MaxUpdates=4)
    return [dict(module="DirIndexMC", constants=dict(q if tier == "quick" else th, StampEarly="TRUE", DropOld="TRUE", Emit="FALSE"),
                 invariants=("Fresh", "Once", "NoGhosts"), view="View")]


def behaviours(tier, seed, scratch):
    b = tlc.generate("DirIndexMC", scratch, num=400 if tier == "quick" else 3000, depth=60, seed=seed,
                     constants=dict(Files='{"a", "b", "c"}', MaxWrites=5, MaxUpdates=4, StampEarly="TRUE", DropOld="TRUE", Emit="TRUE"),
                     invariants=("EmitInv",))
    uniq = sorted({str(x["log"]): x["log"] for x in b}.items())
    random.Random(seed).shuffle(uniq)
    return [x for _, x in uniq[: 70 if tier == "quick" else 900]]


def jobs(tier, seed, behs):
    n = 170 if tier == "quick" else 2200
    return ([{"kind": "beh", "log": b, "seed": f"C13b-{seed}-{i}"} for i, b in enumerate(behs)]
            + [{"kind": "rand", "seed": f"C13-{seed}-{i}"} for i in range(n)]
            + [{"kind": "probe", "what": "old-mtime"}, {"kind": "probe", "what": "timedelta"}])


def finding_key(job, ev, clause):
    return job.get("what") if job["kind"] == "probe" else None


# ------------------------------------------------------------------ patches
def _patch(label):
    n = 2 + label % 3
    data = np.full((n, 2), float(label))
    attrs = {"tag": str(label), "station": f"S{label % 2}"}
    if label % 7 == 0:  # no times
        return dc.Patch(data=data, coords={"depth": np.arange(n) * 1.0, "distance": np.arange(2)}, dims=("depth", "distance"), attrs=attrs)
    t = np.datetime64("2020-01-01T00:00:00", "ns") + np.arange(n) * np.timedelta64(1, "s") + np.timedelta64(label * 10, "s")
    return dc.Patch(data=data, coords={"time": t, "distance": np.arange(2)}, dims=("time", "distance"), attrs=attrs)


T0 = np.datetime64("2020-01-01T00:00:00", "ns")


class Lab:
    def __init__(self, d, rng):
        self.rng, self.dir = rng, os.path.join(d, rng.choice(["data", "my data", "d"]))
        self.stage = os.path.join(d, "stage")
        os.makedirs(self.dir)
        os.makedirs(self.stage)
        self.kw = {"index_path": os.path.join(d, "elsewhere.h5")} if rng.random() < 0.2 else {}
        self.next, self.k = 1, 0
        self.spools, self.ev = [], []
        self.disk = {}
        self.td = False  # times of the only patch are time deltas

    def base(self):
        return self.dir + ("/" if self.rng.random() < 0.1 else "")

    def open(self, first=False):
        from pathlib import Path

        p = self.base()
        sp = dc.spool(p if self.rng.random() < 0.5 else Path(p), **(self.kw if first else {}))
        self.spools.append(sp)
        return len(self.spools) - 1

    # files are prepared in the staging area and moved in place at once
    def prepare(self, f, junk=False):
        self.k += 1
        path = os.path.join(self.stage, f"s{self.k}")
        if junk:
            kind = self.rng.choice(["empty", "text", "bytes", "truncated"])
            if kind == "truncated":
                dc.write(_patch(1), path, "dasdae")
                data = open(path, "rb").read()
                open(path, "wb").write(data[: len(data) // 3])
            else:
                open(path, "wb").write({"empty": b"", "text": b"some,text\n1,2\n", "bytes": bytes(range(1, 200))}[kind])
            return path, []
        n = 1 if f.endswith("pkl") else self.rng.choice([1, 1, 1, 2, 3])
        labels = list(range(self.next, self.next + n))
        self.next += n
        sp = dc.spool([_patch(x) for x in labels])
        dc.write(sp if n > 1 else sp[0], path, "pickle" if f.endswith("pkl") else "dasdae")
        return path, labels

    def place(self, path, f):
        dest = os.path.join(self.dir, f)
        os.makedirs(os.path.dirname(dest), exist_ok=True)
        now = time.time()
        os.utime(path, (now, now))
        os.replace(path, dest)

    def name(self, new=False):
        used = list(self.disk)
        if used and not new and self.rng.random() < 0.35:
            good = [f for f in used if self.disk[f]]
            if good:
                return self.rng.choice(good)
        free = [f for f in NAMES if f not in self.disk]
        return self.rng.choice(free) if free else self.rng.choice([f for f in used])

    def write(self, f=None, junk=None):
        f = self.name() if f is None else f
        junk = (f not in self.disk and self.rng.random() < 0.15) if junk is None else junk
        path, labels = self.prepare(f, junk)
        time.sleep(0.002)
        self.place(path, f)
        self.disk[f] = labels
        self.ev.append({"o": {"op": "write", "f": f, "labels": labels}, "err": "", "obs": [], "loaded": 0, "len": 0})

    def update(self, h, frac=None, crash=False, writes=()):
        """
        Update spool h; at a fraction of its calls write files or interrupt.
        """
        during = []
        todo = []
        for w in writes:
            f = w if isinstance(w, str) else self.name()
            path, labels = self.prepare(f)
            todo.append((path, f))
            during.append({"f": f, "labels": labels})
        at, total = None, 0
        if frac is not None:
            total = self._count(h)
            at = max(1, int(total * frac))
        fired = []

        def hook():
            for path, f in todo:
                self.place(path, f)
            fired.append(1)
            if crash:
                raise Interrupted

        err, new = "", None
        try:
            new = _traced(lambda: self.spools[h].update(progress=None), at, hook)
        except Interrupted:
            err = "interrupted"
        except Exception as exc:
            err = type(exc).__name__ + ": " + str(exc)[:150]
        if crash and fired:  # even if the exception was replaced on its way
            err = "interrupted"
        if at is not None and not fired and todo:  # shorter than expected
            for path, f in todo:
                self.place(path, f)
        for x in during:
            self.disk[x["f"]] = x["labels"]
        o = {"op": "update", "h": h, "during": during}
        if err == "interrupted":
            self.ev.append({"o": dict(o, op="crash"), "err": "", "obs": [], "loaded": 0, "len": 0})
            return
        self._observe(o, err, new, load=not during)
        if new is not None:
            self.spools[h] = new
        time.sleep(0.002)

    def _count(self, h):
        """How many calls an update makes, measured on a copy."""
        shadow = self.dir + "_shadow"
        shutil.copytree(self.dir, shadow)
        count = [0]

        def tracer(frame, event, arg):
            if event == "call" and frame.f_code.co_filename.startswith(ROOT):
                count[0] += 1

        old = sys.gettrace()
        sys.settrace(tracer)
        try:
            dc.spool(shadow).update(progress=None)
        finally:
            sys.settrace(old)
        shutil.rmtree(shadow)
        return count[0]

    def _observe(self, o, err, spool, load=True):
        obs, n = [], 0
        if not err:
            try:
                df = spool.get_contents()
                n = len(spool)
                patches = [spool[i] for i in range(len(df))] if load else [None] * len(df)
                for i in range(len(df)):
                    row = df.iloc[i]
                    lab = int(row["tag"]) if str(row["tag"]).isdigit() else -1
                    elo = NULL if lab % 7 == 0 else lab * 10000
                    lo = NULL if pd.isnull(row["time_min"]) else OFF if self.td else int((np.datetime64(row["time_min"], "ns") - T0) / np.timedelta64(1, "ms"))
                    obs.append({"f": str(row["path"]), "row": lab, "lo": lo, "elo": elo,
                                "id": int(patches[i].data.flat[0]) if load else NULL})
            except Exception as exc:
                err = type(exc).__name__ + ": " + str(exc)[:150]
        self.ev.append({"o": o, "err": err, "obs": obs, "loaded": int(load), "len": n})

    def reopen(self):
        h = self.open()
        self._observe({"op": "open", "during": []}, "", self.spools[h], load=False)

    def reindex(self):
        good = [f for f in self.disk if self.disk[f]]
        for f in self.rng.sample(good, min(len(good), self.rng.randint(0, 2))):
            os.remove(os.path.join(self.dir, f))
            del self.disk[f]
        h = self.rng.randrange(len(self.spools))
        path = self.spools[h].indexer.index_path
        if os.path.exists(path):
            os.unlink(path)
        files = [{"f": f, "labels": v} for f, v in self.disk.items()]
        err, new = "", None
        try:
            new = self.spools[h].update(progress=None)
            self.spools[h] = new
        except Exception as exc:
            err = type(exc).__name__ + ": " + str(exc)[:150]
        self._observe({"op": "reindex", "files": files, "during": []}, err, new)
        time.sleep(0.002)


class Interrupted(KeyboardInterrupt):
    pass


def _traced(func, at, hook):
    """Run func, calling hook at the at-th call of a function of dascore."""
    if at is None:
        return func()
    count = [0]

    def tracer(frame, event, arg):
        if event == "call" and frame.f_code.co_filename.startswith(ROOT):
            count[0] += 1
            if count[0] == at:
                sys.settrace(None)
                hook()

    old = sys.gettrace()
    sys.settrace(tracer)
    try:
        return func()
    finally:
        sys.settrace(old)


STAGE = {"scan": (0.0, 0.75), "drop": (0.7, 0.95), "append": (0.8, 0.98), "stamp": (0.9, 1.0), "idle": (0, 0)}


def _replay(lab, rng, log):
    """A behaviour of DirIndexMC: writes and interruptions between the steps."""
    names = dict(zip("abc", rng.sample(NAMES, 3)))
    i = 0
    while i < len(log):
        e = log[i]
        if e["a"] == "write":
            lab.write(names[e["f"]], junk=False)
            i += 1
            continue
        assert e["a"] == "start"
        j = i + 1
        writes, stage = [], None
        while log[j]["a"] == "write":
            writes.append(names[log[j]["f"]])
            stage = stage or log[j]["at"]
            j += 1
        crash = log[j]["a"] == "crash"
        stage = log[j]["at"] if crash else stage
        h = rng.randrange(len(lab.spools))
        lab.update(h, rng.uniform(*STAGE[stage]) if stage else None, crash, writes)
        if rng.random() < 0.2:
            lab.reopen()
        i = j + 1
    lab.update(rng.randrange(len(lab.spools)))


def run_job(job, d):
    rng = random.Random(job.get("seed", 0))
    lab = Lab(d, rng)
    if job["kind"] == "probe":
        return _probe(lab, job["what"])
    lab.open(first=True)
    if rng.random() < 0.5:
        lab.open()
    if job["kind"] == "beh":
        _replay(lab, rng, job["log"])
        return {"ev": lab.ev}
    for _ in range(rng.randint(0, 3)):
        lab.write()
    for _ in range(rng.randint(2, 6)):
        r = rng.random()
        h = rng.randrange(len(lab.spools))
        if r < 0.3:
            lab.write()
        elif r < 0.55:
            lab.update(h)
        elif r < 0.7:
            lab.update(h, rng.random(), crash=True, writes=[1] * rng.randint(0, 1))
        elif r < 0.8:
            lab.update(h, rng.random(), writes=[1] * rng.randint(1, 2))
        elif r < 0.9:
            lab.reopen()
        else:
            lab.reindex()
    lab.update(rng.randrange(len(lab.spools)))
    return {"ev": lab.ev}


def _probe(lab, what):
    """Deterministic scenarios of recorded findings."""
    if what == "old-mtime":  # a file which keeps its old modification time
        lab.kw = {}
        lab.open(first=True)
        lab.write("a.h5", junk=False)
        lab.update(0)
        path, labels = lab.prepare("b.h5")
        os.utime(path, (10 ** 9, 10 ** 9))
        os.replace(path, os.path.join(lab.dir, "b.h5"))
        lab.ev.append({"o": {"op": "write", "f": "b.h5", "labels": labels}, "err": "", "obs": [], "loaded": 0, "len": 0})
        lab.update(0)
    if what == "timedelta":
        lab.kw = {}
        lab.open(first=True)
        patch = _patch(1).update_coords(time=np.timedelta64(10, "s") + np.arange(3) * np.timedelta64(1, "s"))
        dc.write(patch, os.path.join(lab.dir, "a.h5"), "dasdae")
        lab.ev.append({"o": {"op": "write", "f": "a.h5", "labels": [1]}, "err": "", "obs": [], "loaded": 0, "len": 0})
        sp = lab.spools[0].update(progress=None)
        lab.td = sp.get_contents()["time_min"].iloc[0] != np.timedelta64(10, "s")
        lab._observe({"op": "update", "h": 0, "during": []}, "", sp)
    return {"ev": lab.ev}


def canaries(traces):
    out = []
    for tr in traces:
        for k, e in enumerate(tr["ev"]):
            if e["o"]["op"] == "update" and e["obs"] and not e["o"]["during"]:
                c = copy.deepcopy(tr)
                c["ev"] = c["ev"][: k + 1]
                if len(out) % 2:
                    c["ev"][k]["obs"].append(dict(c["ev"][k]["obs"][0]))
                    c["ev"][k]["len"] += 1
                else:
                    c["ev"][k]["obs"][0]["id"] += 1
                out.append(c)
                break
        if len(out) >= 4:
            break
    return out


def stats(traces):
    c = Counter()
    for tr in traces:
        for e in tr["ev"]:
            c[e["o"]["op"] + (":during" if e["o"].get("during") else "") + (":error" if e["err"] else "")] += 1
    return {"operations": dict(sorted(c.items()))}

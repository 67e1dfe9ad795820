"""C16 - no operation leaves a file open, and none closes the caller's."""
from __future__ import annotations

import copy
import os
import random
import warnings
from collections import Counter
from pathlib import Path

import h5py
import numpy as np
import tables

import dascore as dc
from dascore.io import FiberIO

from .. import iolab as io
from .. import synfmt as sf

TRACE = "TraceResource"
JOB_LIMIT = 180
ASSUMPTIONS = ["open files are the descriptors of this process below the scratch directory, looked at while the frames of a failing call are still alive",
               "sources are paths; handles of the caller are passed to the methods of the formats, as dascore's own dispatcher does"]


def models(tier):
    return [dict(module="ResourceMC", constants=dict(Types='{"bin","h5","tab"}', MaxDepth=3, MaxUser=2),
                 invariants=("NoLeak", "UserKept", "OnePerType"))]


def behaviours(tier, seed, scratch):
    return []


def jobs(tier, seed, behs):
    n = 1 if tier == "quick" else 8
    return ([{"kind": "lab", "seed": f"C16-{seed}-{i}"} for i in range(90 * n)]
            + [{"kind": "direct", "seed": f"C16d-{seed}-{i}"} for i in range(40 * n)]
            + [{"kind": "spool", "seed": f"C16s-{seed}-{i}"} for i in range(60 * n)])


class Watch:
    """Records what is open after each call."""

    def __init__(self, base):
        self.base, self.ev, self.mine = base, [], {}

    def call(self, o, func):
        e = {"o": o, "err": "", "msg": "", "leak": [], "dead": 0, "warn": 0}
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("ignore")
            warnings.simplefilter("always", ResourceWarning)
            out = None
            try:
                out = func()
            except Exception as exc:
                e["err"], e["msg"] = type(exc).__name__, str(exc)[:100]
                if not third_party(exc):
                    e["leak"] = io.open_files(self.base)
            e["leak"] = e["leak"] or io.open_files(self.base)
        e["warn"] = int(any(issubclass(w.category, ResourceWarning) and str(self.base) in str(w.message) for w in ws))
        e["dead"] = int(any(not alive(h) for h in self.mine.values()))
        self.ev.append(e)
        return out


def third_party(exc):
    """The exception was raised by an installed package, whose frames may own files."""
    tb = exc.__traceback__
    while tb.tb_next:
        tb = tb.tb_next
    return "site-packages" in tb.tb_frame.f_code.co_filename


def alive(h):
    if isinstance(h, h5py.File):
        return bool(h)
    if isinstance(h, tables.File):
        return bool(h.isopen)
    return not h.closed


KINDS = ["DASDAE", "PICKLE", "text", "noise", "empty", "h5", "trunc", "dir"]


def _files(rng, base, n=None):
    out = []
    for k in rng.sample(KINDS, n or len(KINDS)):
        ext = rng.choice(["h5", "pkl", "txt", "segy", ""])
        p = Path(base) / (f"{k}" + (f".{ext}" if ext else ""))
        sf.real_file(p, k, [rng.randrange(1, 50), 60], rng)
        out.append((k, p))
    return out


def run_direct(rng, d):
    """Every method of every known format on files of every kind."""
    w = Watch(d)
    files = _files(rng, d, 4)
    FiberIO.manager.load_plugins()
    ios = [v for f in FiberIO.manager._format_version.values() for v in f.values() if v.name and "SYN" not in v.name]
    ios.sort(key=lambda x: (x.name, x.version))
    for fio in rng.sample(ios, min(12, len(ios))):
        for k, p in files:
            arg = rng.choice([p, str(p)])
            for m in ("get_format", "scan", "read"):
                w.call({"op": m, "f": ""}, lambda: getattr(fio, m)(arg))
    # the caller's own handle
    for k, p in files:
        if k == "dir":
            continue
        name = p.name
        for fmt, opener in (("PICKLE", lambda: open(p, "rb")), ("DASDAE", lambda: h5py.File(p, "r")), ("DASDAE", lambda: tables.open_file(p))):
            try:
                h = opener()
            except Exception:
                continue
            w.mine[name] = h
            w.call({"op": "uopen", "f": name}, lambda: None)
            fio = FiberIO.manager.get_fiberio(format=fmt)
            for m in rng.sample(["get_format", "read", "scan", "get_format"], 3):
                w.call({"op": m, "f": ""}, lambda: getattr(fio, m)(h) and None)
            h.close()
            del w.mine[name]
            w.call({"op": "uclose", "f": name}, lambda: None)
    return w.ev


class _Bad:
    """Data which cannot be written."""


def run_spool(rng, d):
    """Spools, indices, failing writes and failing reads."""
    w = Watch(d)
    sub = Path(d) / "dir"
    sub.mkdir()
    _files(rng, sub, rng.randint(1, 5))
    held = {}

    def idx():
        held["s"] = dc.spool(sub).update(progress=None)

    def broken_iter():
        for i, _p in enumerate(held.get("s", [])):
            if i >= 1:
                raise RuntimeError("stop")

    def write_bad():
        p = sf.patch_of(3).update_attrs(custom=lambda: 1)
        dc.write(p, sub / "bad.h5", "DASDAE")

    def write_bad_pickle():
        dc.write(sf.patch_of(3).update_attrs(custom=lambda: 1), sub / "bad.pkl", "PICKLE")

    def write_spool():
        dc.write(held["s"], Path(d) / f"o{len(w.ev)}.h5", rng.choice(["DASDAE", "PICKLE"]), **({"index": True} if rng.random() < 0.3 else {}))

    def append():
        dc.write(dc.spool([sf.patch_of(i) for i in (5, 6)]), sub / "app.h5", "DASDAE", index=rng.random() < 0.5)

    def chunk():
        return len(list(held["s"].chunk(time=2, keep_partial=True)))

    def query():
        return len(list(held["s"].select(time=(sf.T0, sf.T0 + np.timedelta64(rng.randrange(300), "s")))))

    def one():
        return dc.spool(rng.choice(sorted(sub.iterdir())))[0]

    def scan():
        return dc.scan(sub, progress=None)

    def read():
        return dc.read(rng.choice(sorted(sub.iterdir())), time=(None, sf.T0), **({"nosuch": 1} if rng.random() < 0.2 else {}))

    def write_ro():
        dc.write(sf.patch_of(1), Path(d), "DASDAE")

    def others():
        dc.write(sf.patch_of(1), Path(d) / f"o{len(w.ev)}.x", rng.choice(["WAV", "RSF", "SEGY", "H5SIMPLE"]))

    def reindex():
        os.remove(sub / ".dascore_index.h5")
        idx()

    acts = [idx, broken_iter, write_bad, write_bad_pickle, write_spool, append, chunk, query, one, scan, read, write_ro, others, reindex]
    w.call({"op": "idx", "f": ""}, idx)
    for _ in range(rng.randint(4, 12)):
        f = rng.choice(acts)
        w.call({"op": f.__name__, "f": ""}, f)
    return w.ev


def run_lab(rng, d):
    lab = sf.Lab(rng, d, "Q%03d" % rng.randrange(1000))
    for _ in range(rng.randint(3, 12)):
        r = rng.random()
        lab.register() if r < 0.2 else lab.make() if r < 0.45 else lab.act()
    return [{"o": {"op": e["o"]["op"], "f": ""}, "err": e["err"], "msg": e["msg"], "leak": e["leak"], "dead": 0, "warn": 0} for e in lab.ev]


def run_job(job, d):
    rng = random.Random(job["seed"])
    f = {"lab": run_lab, "direct": run_direct, "spool": run_spool}[job["kind"]]
    return {"init": [], "ev": sf.isolated(f, rng, d)}


def canaries(traces):
    out = []
    for tr in traces:
        k = next((k for k, e in enumerate(tr["ev"]) if e["o"]["op"] in ("read", "scan")), None)
        if k is not None:
            c = copy.deepcopy(tr)
            c["ev"][k]["leak"] = c["ev"][k]["leak"] + ["left.h5"]
            c["ev"] = c["ev"][: k + 1]
            out.append(c)
        if len(out) >= 3:
            break
    return out


def stats(traces):
    c = Counter()
    for tr in traces:
        for e in tr["ev"]:
            c[e["o"]["op"] + (":raising" if e["err"] else "")] += 1
    return {"operations": dict(sorted(c.items()))}

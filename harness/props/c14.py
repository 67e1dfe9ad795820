"""C14 - what is written to a file can be read, scanned and queried again, unchanged."""
from __future__ import annotations

import copy
import os
import random
from collections import Counter

import numpy as np

import dascore as dc

from .. import enc as E
from .. import iolab as io
from .. import patchlab as pl
from .. import spoollab as sl

TRACE = "TraceFile"
JOB_LIMIT = 120
ASSUMPTIONS = [
    "formats which can be written offline: DASDAE and PICKLE; a patch written again with the same attributes and extent may replace the old one",
    "coordinates without labels and coordinates of only nulls are the same; floats are compared to nine digits",
    "an index is only requested for files whose patches all have datetime times; its scan is judged on the columns it keeps",
]
INDEX_KEYS = ["dims", "a:tag", "a:station", "a:network", "a:data_type", "a:data_category", "a:instrument_id", "a:experiment_id",
              "c:time:min", "c:time:max", "c:time:step"]
DTYPES = ["float64", "float32", "int64", "int16", "uint8", "bool", "complex128"]


def models(tier):
    big = tier != "quick"
    return [dict(module="FileIOMC",
                 constants=dict(Idents="{1,2,3}" if big else "{1,2}", Names="{1}", Vers="{1,2}",
                                MaxWrites=3 if big else 2, MaxBatch=2 if big else 3),
                 invariants=("NothingLost", "NothingInvented", "IndexComplete"))]


def behaviours(tier, seed, scratch):
    return []


def jobs(tier, seed, behs):
    n = 1 if tier == "quick" else 10
    return ([{"kind": "rt", "seed": f"C14-{seed}-{i}"} for i in range(320 * n)]
            + [{"kind": "q", "seed": f"C14q-{seed}-{i}"} for i in range(240 * n)]
            + [{"kind": "probe", "what": "same-summary"}, {"kind": "probe", "what": "null-labels"}])


def finding_key(job, ev, clause):
    return f"{job['what']}:{ev['o']['op']}" if job["kind"] == "probe" else None


def _event(o, **kw):
    return {"o": o, "err": "", "may": 0, "ps": [], "got": [], "keys": [], **kw}


def _probe(what, d):
    """Minimal demonstrations of the recorded findings."""
    p = dc.Patch(data=np.arange(6.0).reshape(3, 2), dims=("time", "distance"),
                 coords={"time": np.array([0.0, 1.0, 3.0]), "distance": np.array([1.0, 2.0])})
    ps = [p, p.update(data=p.data + 1)] if what == "same-summary" else [p.pad(time=(1, 0), samples=True)]
    path = os.path.join(d, "p.h5")
    dc.write(dc.spool(ps), path, "DASDAE")
    return {"init": [], "ev": [
        _event({"op": "write", "f": "p.h5", "grows": 1}, ps=[record(x) for x in ps]),
        _event({"op": "read", "f": "p.h5"}, got=[io.fields(x) for x in dc.read(path)]),
        _event({"op": "spool", "f": "p.h5"}, got=[io.fields(x) for x in dc.spool(path)])]}


def _addressable(ps, keys=None):
    """A file spool finds its patches by their summaries (or the columns of the file's index)."""
    ids = [io._h(sorted((k, v) for k, v in io.summary(p.attrs).items() if keys is None or k in keys)) for p in ps]
    part = [io.has_some_null(c) for p in ps for c in p.coords.coord_map.values()]
    return len(set(ids)) == len(ids) and not any(part) and all(0 not in p.shape for p in ps)  # empty patches are skipped (#583)


def _attrs(rng):
    out = {"tag": rng.choice(["", "a", "b c", "x/y", "é", "r[1]", "a*"])}
    for name, vals in {"station": ["", "S1"], "network": ["N", "M"], "data_units": ["m", "m/s", "10 microstrain"],
                       "instrument_id": ["i1"], "data_category": ["DAS", ""], "data_type": ["strain_rate", "velocity"],
                       "custom": [1, 2.5, "x", True, (1, 2), "", -3, "line\nbreak"], "gauge_length": [10.0, 0.1], "foo": ["bar"]}.items():
        if rng.random() < 0.3:
            out[name] = rng.choice(vals)
    return out


def random_patch(rng, base=None):
    if base is not None and rng.random() < 0.5:  # a close relative of another patch
        p = base
        r = rng.random()
        if r < 0.3:
            return p.update(data=np.asarray(p.data)[::-1].copy())
        if r < 0.5:
            return p.update_attrs(tag=rng.choice(["a", "z"]))
        if r < 0.7:
            return p.update_attrs(history=("changed",))
        if r < 0.85:
            d = rng.choice(p.dims)
            return p.select(**{d: (0, max(1, p.shape[p.dims.index(d)] - 1))}, samples=True)
        return p
    sp = pl.make_spec(rng, maxlen=rng.choice([1, 2, 4, 6]))
    p = pl.build(sp, dtype=rng.choice(DTYPES), attrs=_attrs(rng))
    for d in list(p.coords.coord_map):
        if rng.random() < 0.2 and p.coords.coord_map[d].dtype.kind not in "mM":
            p = p.set_units(**{d: rng.choice(["m", "ft", "1/s"])})
    for _ in range(rng.choice([0, 0, 1, 2, 3])):
        try:
            o = pl.gen_struct(rng, p, E.proj(p))
            p = pl.apply(p, o)
        except Exception:  # judged elsewhere
            pass
    return p


def record(p):
    s = io.summary(p.attrs)
    return {"f": io.fields(p), "s": s, "ident": io._h(sorted(s.items())), "sup": 0}


def _indexable(ps):
    def ok(p):
        if "time" not in p.dims or not all(p.shape):
            return False
        c = p.get_coord("time")
        return c.dtype is not None and c.dtype.kind == "M" and not io.null(c.min())
    return all(ok(p) for p in ps)


def run_rt(rng, d):
    ev, held, indexed, base = [], {}, set(), []
    files = ["a.h5", "b.h5", "c.pkl"]
    for _ in range(rng.randint(2, 7)):
        live = [f for f in files if f in held]
        op = rng.choices(["write", "read", "scan", "spool", "copy", "badwrite"], [3, 2, 2, 1, 0.7, 0.5])[0] if live else "write"
        o = {"op": op, "f": rng.choice(live or files)}
        if op in ("copy", "spool") and not o["f"].endswith("pkl") and not _addressable(
                held.get(o["f"], []), INDEX_KEYS if o["f"] in indexed else None):
            op = o["op"] = "read"
        e = {"o": o, "err": "", "may": 0, "ps": [], "got": [], "keys": []}
        path = os.path.join(d, o["f"])
        try:
            if op == "write":
                o["f"] = rng.choice(files)
                path = os.path.join(d, o["f"])
                o["grows"] = int(not o["f"].endswith("pkl"))
                ps = []
                for _ in range(rng.choice([1, 1, 1, 2, 3])):
                    ps.append(random_patch(rng, rng.choice(base) if base else None))
                    base.append(ps[-1])
                e["ps"] = [record(p) for p in ps]
                arg = ps[0] if len(ps) == 1 and rng.random() < 0.6 else dc.spool(ps)
                kw = {}
                before = held.get(o["f"], []) if o["grows"] else []
                if o["grows"] and rng.random() < 0.3 and _indexable(before + ps):
                    kw["index"] = True
                if o["f"] in indexed and not _indexable(ps):
                    break
                if rng.random() < 0.5 or len(ps) > 1:
                    dc.write(arg, path, "DASDAE" if o["grows"] else "PICKLE", **kw)
                else:
                    ps[0].io.write(path, "DASDAE" if o["grows"] else "PICKLE", **kw)
                held[o["f"]] = before + ps
                if kw:
                    indexed.add(o["f"])
            elif op == "badwrite":  # the last patch cannot be written
                ps = [random_patch(rng, rng.choice(base)) for _ in range(rng.choice([0, 0, 1]))]
                bad = random_patch(rng, rng.choice(base))
                bad = bad.update_attrs(custom=lambda: 1) if rng.random() < 0.6 else bad.update(data=np.full(bad.shape, None, dtype=object))
                if o["f"] in indexed and not _indexable(ps):
                    break
                o["grows"] = int(not o["f"].endswith("pkl"))
                e["ps"] = [record(p) for p in ps] if o["grows"] else []
                e["may"] = 1
                if bad.data.dtype == object and not o["grows"]:
                    break
                dc.write(dc.spool([*ps, bad]), path, "DASDAE" if o["grows"] else "PICKLE")
            elif op == "copy":
                o["to"] = rng.choice([f for f in files if f != o["f"]])
                o["grows"] = int(not o["to"].endswith("pkl"))
                if o["to"] in indexed:
                    break
                spool = dc.spool(path)
                ps = list(spool)
                # what is copied is what the *specification* says is in the file
                e["ps"] = [record(p) for p in ps]
                dc.write(spool, os.path.join(d, o["to"]), "DASDAE" if o["grows"] else "PICKLE")
                held[o["to"]] = (held.get(o["to"], []) if o["grows"] else []) + ps
            elif op == "read":
                e["got"] = [io.fields(p) for p in dc.read(path)]
            elif op == "spool":
                sp = dc.spool(path)
                e["got"] = [io.fields(p) for p in sp] if rng.random() < 0.7 else [io.fields(sp[i]) for i in range(len(sp))]
            elif op == "scan":
                if o["f"] in indexed:
                    e["keys"] = INDEX_KEYS
                e["got"] = [io.summary(a) for a in dc.scan(path)]
        except Exception as exc:
            e["err"], e["msg"] = type(exc).__name__, (str(exc)[:160] + " @ " + sl._where(exc))[:260]
        ev.append(e)
        if e["err"] and op != "badwrite":
            break
        if op == "badwrite":
            held[o["f"]] = held[o["f"]] + ps
            if not e["err"] or o["f"] in indexed:
                break
            if rng.random() < 0.8:
                e = _event({"op": "read", "f": o["f"]})
                try:
                    e["got"] = [io.fields(p) for p in dc.read(path)]
                except Exception as exc:
                    e["err"], e["msg"] = type(exc).__name__, (str(exc)[:160] + " @ " + sl._where(exc))[:260]
                ev.append(e)
    return {"init": [], "ev": ev}


def run_q(rng, d):
    w = sl.World(rng, aux=rng.random() < 0.4)
    ev, recs, held = [], [], []
    for k in range(rng.choice([1, 1, 2])):
        src = sl.random_sources(w, rng, nmax=4, uneven=0.15)
        ps = [sl.make_patch(w, s) for s in src]
        path = os.path.join(d, "q.h5")
        dc.write(dc.spool(ps), path, "DASDAE")
        out = []
        for p in ps:
            r = record(p)
            r = {"f": {}, "s": {}, "ident": r["ident"], "sup": 0}
            r.update(sl.decode_row(w, dc.scan_to_df([p]), 0))
            r.update(sl.decode_patch(w, p))
            out.append(r)
        recs += out
        held += ps
        ev.append({"o": {"op": "write", "f": "q.h5", "grows": 1}, "err": "", "may": 0, "ps": out, "got": [], "keys": []})
        for _ in range(rng.randint(1, 4)):
            q = []
            if rng.random() < 0.8:
                q.append(sl.range_query(w, rng, recs, "m"))
            if rng.random() < 0.4:
                q.append(sl.range_query(w, rng, recs, "o"))
            if rng.random() < 0.4:
                a = sl.attr_query(w, rng, recs)
                if a["on"] == "g" and isinstance(a["val"], str) and not set(a["val"]) & set("*?["):
                    q.append(a)
            q = [x for x in q if x]
            o = {"op": "query", "f": "q.h5", "q": q}
            e = {"o": o, "err": "", "may": 0, "ps": [], "got": [], "keys": []}
            kw = {}
            for s in q:
                if s["on"] in ("m", "o"):
                    dim = w.main if s["on"] == "m" else w.other
                    kw[dim] = (sl.qval(w, s["lo"], dim, rng), sl.qval(w, s["hi"], dim, rng))
                else:
                    kw[s["col"]] = s["val"]
            try:
                got = dc.read(path, **kw)
                e["got"] = [sl.decode_patch(w, p) for p in got]
            except Exception as exc:
                e["err"], e["msg"] = type(exc).__name__, (str(exc)[:160] + " @ " + sl._where(exc))[:260]
            ev.append(e)
    return {"init": [], "ev": ev}


def run_job(job, d):
    if job["kind"] == "probe":
        return _probe(job["what"], d)
    rng = random.Random(job["seed"])
    return run_rt(rng, d) if job["kind"] == "rt" else run_q(rng, d)


def canaries(traces):
    out, kinds = [], set()
    for tr in traces:
        for k, e in enumerate(tr["ev"]):
            op = e["o"]["op"]
            if op in kinds or e["err"] or not e["got"] or e["keys"]:
                continue
            c = copy.deepcopy(tr)
            g = c["ev"][k]["got"]
            if op in ("read", "spool"):
                g[0]["data"] = "deadbeef"
            elif op == "scan":
                g[0]["dims"] = "wrong"
            elif op == "query" and len(g[0]["id"]) > 1:
                g[0]["id"] = g[0]["id"][1:]
                g[0]["v"] = g[0]["v"][1:]
            else:
                continue
            c["ev"] = c["ev"][: k + 1]
            kinds.add(op)
            out.append(c)
    return out


def stats(traces):
    c = Counter()
    for tr in traces:
        for e in tr["ev"]:
            c[e["o"]["op"] + (":error" if e["err"] else "")] += 1
    return {"operations": dict(sorted(c.items()))}

"""C17 - provenance: history and attributes follow the operations applied."""
import copy
import functools
import random
import re
from collections import Counter

import numpy as np

import dascore as dc

from .. import anyops as ao
from .. import patchlab as pl

TRACE = "TraceHistory"
TRACE_CONSTANTS = dict(Ops="{}", MaxObj=1)
ASSUMPTIONS = ["history entries are attributed to the outermost public call",
               "which attributes an operation is about (data_type, data_units of transforms) is listed in spec/History.tla"]
SKIP_ATTR = {"history", "coords", "dims"}


def models(tier):
    return [dict(module="History", constants=dict(Ops='{"select", "abs", "roll", "stalta", "assign_coords"}', MaxObj=4 if tier == "quick" else 5),
                 invariants=("StepsOk", "Lineage"), properties=("Grow",))]


def jobs(tier, seed, behs):
    n = 1500 if tier == "quick" else 15000
    return [{"kind": "rand", "seed": f"C17-{seed}-{i}"} for i in range(n)]


def _entry(x):
    m = re.match(r"\s*([A-Za-z_]\w*)", x)
    return {"n": m.group(1) if m else "?", "x": x[:400]}


def _hist(p):
    h = p.attrs.history
    return [_entry(x) for x in ([h] if isinstance(h, str) else h)]


def _attrs(p):
    out = {}
    for k, v in p.attrs.model_dump().items():
        if k in SKIP_ATTR or k.startswith("_"):
            continue
        if k == "data_units" and v:
            q = dc.get_quantity(v).to_base_units()
            out[k] = f"q:{float(q.magnitude):.9g} {q.units}"
            continue
        out[k] = f"{type(v).__name__}:{v}" if not hasattr(v, "units") else f"q:{v}"
    return out


class Rec:
    """Records the outermost public Patch calls."""

    def __init__(self):
        self.depth = 0
        self.ev = []
        self.ids = {}
        self.keep = []

    def pid(self, p):
        self.keep.append(p)
        return "p" + str(self.ids.setdefault(id(p), len(self.ids) + 1))

    def log(self, op, src, dst, args, kwargs):
        coordish = re.compile(r"^(%s)_(min|max|step|units)$" % "|".join(map(re.escape, src.coords.coord_map)))
        dims = [k for k, v in kwargs.items() if k in src.dims and v is not None]
        h0, h1 = _hist(src), _hist(dst)
        a0, a1 = _attrs(src), _attrs(dst)
        st, free, resets = {}, [], 0
        if op in ("update_attrs", "new", "update"):
            req = dict(kwargs) if op == "update_attrs" else None
            if req is not None:
                for k, v in req.items():
                    if k == "history":
                        resets = 1
                    elif not coordish.match(k) and k not in SKIP_ATTR:
                        free.append(k)  # presence decided below
                        if k in a1 and str(v) == str(getattr(dst.attrs, k)):
                            free.remove(k)
                            st[k] = a1[k]
                        elif k in ("data_units",):
                            pass
                        else:
                            st[k] = f"requested {v!r}"
                            free.remove(k)
            elif "attrs" in kwargs or len(args) > 3:
                resets = 1
                free = sorted(set(a0) | set(a1))
        new = h1[len(h0):]
        txt = new[-1]["x"] if new else ""
        self.ev.append({"o": {"op": op}, "err": "", "src": self.pid(src), "dst": self.pid(dst), "same": int(src is dst),
                        "h0": h0, "h1": h1, "a0": a0, "a1": a1, "set": st, "free": free, "resets": resets,
                        "kw": dims if "(" in txt else [], "kwin": [k for k in dims if re.search(r"\b%s\s*=" % re.escape(k), txt)]})


REC = None


def _install():
    """Wrap the public methods of Patch (in this process only)."""
    if getattr(dc.Patch, "_verif_wrapped", False):
        return
    from dascore.utils.array import PatchUFunc

    for name in dir(dc.Patch):
        if name.startswith("_") or name in ("T", "get_coord", "get_array"):
            continue
        f = dc.Patch.__dict__.get(name)
        if not callable(f) or isinstance(f, PatchUFunc | type | staticmethod | classmethod | property):
            continue

        def mk(name, f):
            @functools.wraps(f)
            def w(self, *a, **k):
                r = REC
                if r is None or r.depth or not isinstance(self, dc.Patch):
                    return f(self, *a, **k)
                r.depth += 1
                try:
                    out = f(self, *a, **k)
                finally:
                    r.depth -= 1
                if isinstance(out, dc.Patch):
                    r.log(name, self, out, a, k)
                return out
            return w
        setattr(dc.Patch, name, mk(name, f))
    dc.Patch._verif_wrapped = True


def _direct(rng, p, rec):
    """Operations outside the method table: operators, numpy functions, copies, spool level combination."""
    r = rng.randrange(9)
    rec.depth += 1
    name = "ufunc"
    try:
        d = rng.choice(p.dims)
        if r == 0:
            out = p + rng.choice([1, 2.5, p])
        elif r == 1:
            out = -p
        elif r == 2:
            out = np.abs(p)
        elif r == 3:
            out = p * np.asarray(p.data)
        elif r == 4:
            name, out = "deepcopy", copy.deepcopy(p)
        elif r == 5:
            import pickle
            name, out = "pickle", pickle.loads(pickle.dumps(p))
        elif r == 6:
            name, out = "stack", dc.spool([p, p]).stack(dim_vary=None)
        elif r == 7:
            c = p.get_coord(d)
            name, out = "concatenate", dc.spool([p, p.update_coords(**{d: c.values})]).concatenate(**{d: None})[0]
            p = p
        else:
            n = len(p.get_coord(d))
            name = "rolling"
            out = getattr(p.rolling(**{d: min(2, n)}, samples=True), rng.choice(["mean", "max", "sum"]))()
    finally:
        rec.depth -= 1
    if isinstance(out, dc.Patch):
        if name == "concatenate" and out is p:
            return None
        rec.log(name, p, out, (), {})
    return out


def run_job(job, d):
    global REC
    _install()
    rng = random.Random(job["seed"])
    spec = pl.make_spec(rng, maxlen=rng.choice([4, 8]), even=rng.random() < 0.75)
    attrs = {"tag": "a", "station": "st", "network": "N", "data_type": rng.choice(["velocity", "strain_rate", ""]),
             "data_units": rng.choice(["m/s", None]), "custom": rng.choice([1, "x", 2.5]), "history": rng.choice([["x"], [], ["a(b=1)", "c"]])}
    p = pl.build(spec, dtype=rng.choice(["float64", "float32"]), attrs=attrs)
    REC = rec = Rec()
    try:
        for _ in range(rng.randint(3, 7)):
            try:
                new = _direct(rng, p, rec) if rng.random() < 0.2 else _named(rng, p)
            except ao.Skip:
                continue
            except Exception:
                continue
            if isinstance(new, dc.Patch) and 0 < new.size < 1500 and new.ndim < 5:
                p = new
    finally:
        REC = None
    return {"init": 0, "ev": rec.ev}


def _named(rng, p):
    name = ao.choose(rng)
    while name in ("spool", "arith", "numpy"):
        name = ao.choose(rng)
    return ao.call(name, rng, p)


def canaries(traces):
    out = []
    def mut(pred, f):
        for tr in traces:
            for e in tr["ev"]:
                if not e["err"] and pred(e):
                    c = copy.deepcopy(e)
                    f(c)
                    out.append({"init": 0, "ev": [c]})
                    return
    recd = lambda e: not e["resets"] and len(e["h1"]) == len(e["h0"]) + 1 and e["h0"]
    mut(recd, lambda e: e["h1"].pop())
    mut(recd, lambda e: e["h1"].pop(0))
    mut(recd, lambda e: e["h1"].append({"n": "zzz", "x": "zzz"}))
    mut(recd, lambda e: e["a1"].__setitem__("station", "lost"))
    return out


def stats(traces):
    return {"operations": dict(sorted(Counter(e["o"]["op"] for tr in traces for e in tr["ev"]).items()))}

"""
Spool scenarios: building sources, applying operations, observing.

Every slice along the main dimension carries a unique id, every column of the
other dimension a unique number, and data[i, j] = 100 * id[i] + col[j]; an
observed patch can therefore be decoded sample by sample.
"""
from __future__ import annotations

import fnmatch
import os
import random

import numpy as np
import pandas as pd

import dascore as dc

from . import enc as E
from .enc import NONE, NULL, OFF, dec, dec_array, enc_array

COLS = ("tag", "station", "network")


class World:
    """Choices fixed for one scenario."""

    def __init__(self, rng, **over):
        self.main = rng.choice(["time", "time", "distance"])
        self.kind = rng.choice(["dt", "dt", "td"]) if self.main == "time" else rng.choice(["f", "i"])
        self.fine = self.kind == "dt" and rng.random() < 0.15
        for k, v in over.items():
            setattr(self, k, v)
        E.set_time_scale(self.fine)
        self.other = "distance" if self.main == "time" else "time"
        self.okind = "f" if self.other == "distance" else "dt"
        self.order = (self.main, self.other) if rng.random() < 0.5 else (self.other, self.main)
        self.attr = rng.choice(["instrument_id", "acquisition_id", "foo"])
        self.aux = rng.random() < 0.25
        self.dtype = rng.choice([np.float64, np.float32, np.int64, np.int32])
        self.mixed = rng.random() < 0.25  # sources of different dtypes, floats carry a fraction
        self.frac = {}
        for k, v in over.items():
            setattr(self, k, v)
        self.next_id = 1
        self.dir = over.get("dir", False)  # a directory index knows only some columns

    def steps(self):
        if self.fine:
            return [1, 2, 7, 1000]
        return {"dt": [1000, 500, 250, 4], "td": [1000, 500, 250], "f": [1000, 500, 250, 125], "i": [1000, 2000]}[self.kind]


def make_patch(w, src):
    """Concretise one source block."""
    n = len(src["v"])
    ids = np.array(src["id"])
    oc = np.array(src["oc"])
    dtype, frac = w.dtype, 0.0
    if w.mixed and len(ids):
        dtype = [np.int64, np.float64, np.int32, np.float32][int(ids[0]) // 2 % 4]
        frac = 0.5 if np.dtype(dtype).kind == "f" else 0.0
    w.frac.update({int(i): frac for i in ids})
    data = (ids[:, None] * 100 + oc[None, :] + frac).astype(dtype)
    if src["st"] != NULL and src.get("range", True):
        coord = dc.core.get_coord(start=dec(src["v"][0], w.kind), step=_step(w, src["st"]), shape=n)
        assert len(coord) == n
    else:
        coord = dec_array(src["v"], w.kind)
    coords = {w.main: coord, w.other: dec_array(src["o"], w.okind)}
    if src["x"]:
        coords["qx"] = (w.main, np.array(src["x"]) / 1000)
    if w.order[0] != w.main:
        data = data.T
    tag, sta, net = src["pg"].split("|")
    attrs = {"tag": tag, "station": sta, "network": net}
    if src["pa"]:
        attrs[w.attr] = src["pa"]
    return dc.Patch(data=data, coords=coords, dims=w.order, attrs=attrs)


def _step(w, st):
    if w.kind in ("dt", "td"):
        return np.timedelta64(int(st) * E.NS, "ns")
    return st / 1000 if w.kind == "f" else st // 1000


def new_block(w, g, a, st, v0, n, o, x=None):
    ids = list(range(w.next_id, w.next_id + n))
    w.next_id += n
    return {"v": [v0 + k * st for k in range(n)], "id": ids, "st": st, "o": list(o),
            "oc": [int(q // 500) + 5 for q in o], "pg": g, "pa": a,
            "x": [i * 1000 + 7 for i in ids] if (w.aux if x is None else x) else []}


def random_sources(w, rng, nmax=6, conflict=0.2, odiff=0.12, rev=0.08, uneven=0.0, offgrid=0.1, tags=None):
    """A few lines of contiguous / gapped / overlapping blocks."""
    out = []
    steps = w.steps()
    tags = tags or ["a1", "a2", "b1"]
    nlines = rng.choice([1, 1, 2, 3])
    base = rng.randrange(0, 4) * 1000
    oax = [k * 1000 for k in range(rng.randint(1, 3))]
    astd = rng.choice(["", "k1"])
    st0 = rng.choice(steps)
    labels = []
    for _ in range(nlines):
        g = f"{rng.choice(tags)}|{rng.choice(['S1', 'S2'])}|{rng.choice(['', 'N1'])}"
        labels.append(g)
        st = st0 if rng.random() < 0.7 else rng.choice(steps)
        sgn = -1 if rng.random() < rev else 1
        pos = base + rng.randrange(0, 5) * st
        for _ in range(rng.randint(1, max(1, nmax // nlines))):
            n = rng.choice([1, 2, 3, 4, 5, 6])
            a = astd if rng.random() > conflict else rng.choice(["k1", "k2"])
            o = oax if rng.random() > odiff else rng.choice([[q + 1000 for q in oax], oax + [oax[-1] + 1000]])
            if sgn > 0:
                b = new_block(w, g, a, st, pos, n, o)
            else:
                b = new_block(w, g, a, -st, pos + (n - 1) * st, n, o)
            if rng.random() < uneven and n > 2 and w.kind != "i" and st > 2:
                b["v"][1] += st // 2 if (st // 2) % (1 if w.kind != "f" else 125) == 0 else 0
                if b["v"][1] != b["v"][0] + st * sgn:
                    b["st"] = NULL
            out.append(b)
            end = pos + (n - 1) * st
            r = rng.random()
            if r < 0.55:
                pos = end + st  # contiguous
            elif r < 0.70:
                pos = end + st * rng.choice([2, 3, 5])  # gap
            elif r < 0.90:
                pos = max(base, end - st * rng.randrange(0, n + 1))  # overlap or nested
            elif offgrid and rng.random() < offgrid * 5 and st % 4 == 0 and w.kind != "i":
                q = st // 4
                pos = end + st + q if (w.kind != "f" or q % 125 == 0) else end + st
            else:
                pos = end + st
    if rng.random() < 0.6:
        rng.shuffle(out)
    return out


def build(w, sources, backend, d):
    """A spool of the sources."""
    patches = [make_patch(w, s) for s in sources]
    if backend == "memory":
        return dc.spool(patches)
    if backend == "file":
        path = os.path.join(d, "all.h5")
        dc.write(dc.spool(patches), path, "dasdae")
        return dc.spool(path)
    sub = os.path.join(d, "dir")
    os.makedirs(sub, exist_ok=True)
    for k, p in enumerate(patches):
        name = os.path.join(sub, f"f{k:02d}.h5")
        dc.write(p, name, "dasdae")
    return dc.spool(sub).update(progress=None)


def decode_patch(w, p):
    """Identity of the samples of a delivered patch."""
    axis = p.dims.index(w.main)
    data = np.asarray(p.data)
    if axis != 0:
        data = data.T
    data = data.astype(np.float64)
    v = enc_array(p.get_array(w.main))
    o = enc_array(p.get_array(w.other))
    ids, oc, sane = [], [], 1
    if data.size:
        flat = np.floor(data[:, 0] / 100)
        frac = np.array([w.frac.get(int(q), 0.0) if abs(q) < 1e6 else 0.0 for q in flat])
        cols = data[0, :] - 100 * flat[0] - frac[0]
        sane = int(np.array_equal(data, flat[:, None] * 100 + cols[None, :] + frac[:, None]))
        ids = [int(q) if abs(q) < 1e6 else OFF for q in flat]
        oc = [int(q) if abs(q) < 1e6 else OFF for q in cols]
    x = []
    if "qx" in p.coords.coord_map:
        x = enc_array(p.get_array("qx"))
    pst = p.get_coord(w.main).step
    return {"v": v, "id": ids, "x": x, "o": o, "oc": oc, "sane": sane,
            "pg": "|".join(str(p.attrs[c]) for c in COLS),
            "pa": str(dict(p.attrs).get(w.attr, "") or ""),
            "pst": E._step(pst)}


def _cell(df, i, col):
    if col not in df.columns:
        return None
    return df[col].iloc[i]


def _txt(x):
    return "" if x is None or (not isinstance(x, str) and pd.isnull(x)) else str(x)


def decode_row(w, df, i):
    vals = [_txt(_cell(df, i, c)) for c in COLS]
    missing = any(c not in df.columns for c in COLS)
    return {"lo": E.enc(_cell(df, i, f"{w.main}_min")), "hi": E.enc(_cell(df, i, f"{w.main}_max")),
            "st": E._step(_cell(df, i, f"{w.main}_step")),
            "olo": E.enc(_cell(df, i, f"{w.other}_min")), "ohi": E.enc(_cell(df, i, f"{w.other}_max")),
            "g": "" if missing else "|".join(vals), "a": _txt(_cell(df, i, w.attr))}


BLANK_ROW = {"lo": OFF, "hi": OFF, "st": OFF, "olo": OFF, "ohi": OFF, "g": "?", "a": "?"}
BLANK_PATCH = {"v": [], "id": [], "x": [], "o": [], "oc": [], "sane": 0, "pg": "?", "pa": "?", "pst": OFF}


def observe(w, spool, by_index=False):
    """All records of a spool: contents joined with delivered patches."""
    df = spool.get_contents()
    patches = [spool[i] for i in range(len(spool))] if by_index else list(spool)
    n = max(len(df), len(patches))
    out = []
    for i in range(n):
        r = dict(decode_row(w, df, i) if i < len(df) else BLANK_ROW)
        r.update(decode_patch(w, patches[i]) if i < len(patches) else BLANK_PATCH)
        out.append(r)
    return out


# ------------------------------------------------------------------ queries
def qval(w, v, dim, rng):
    """A concrete bound in one of its accepted forms."""
    kind = w.kind if dim == w.main else w.okind
    if v == NONE:
        return rng.choice([None, ...])
    c = dec(v, kind)
    if kind == "dt":
        return rng.choice([c, c, str(c), pd.Timestamp(c)])
    return c


def apply_select(w, spool, q, rng):
    kw = {}
    for s in q:
        if s["on"] in ("m", "o"):
            dim = w.main if s["on"] == "m" else w.other
            kw[dim] = (qval(w, s["lo"], dim, rng), qval(w, s["hi"], dim, rng))
        else:
            v = s["val"]
            kw[s["col"]] = v
    return spool.select(**kw)


def attr_query(w, rng, recs):
    """An attribute query together with the labels it matches."""
    if rng.random() < 0.6:
        ci = rng.randrange(3)
        labels = sorted({r["g"] for r in recs})
        vals = sorted({x.split("|")[ci] for x in labels})
        on, col = "g", COLS[ci]
        part = lambda lab: lab.split("|")[ci]  # noqa
    else:
        labels = sorted({r["a"] for r in recs})
        vals, on, col = labels, "a", w.attr
        part = lambda lab: lab  # noqa
    r = rng.random()
    if r < 0.4:
        val = rng.choice(vals + ["zz"])
        ok = [x for x in labels if part(x) == val]
    elif r < 0.75:
        val = rng.choice(["a*", "?1", "*", "*2", "b?", "S*", "[ab]1", "k*"])
        ok = [x for x in labels if fnmatch.fnmatchcase(part(x), val)]
    else:
        val = rng.sample(vals + ["zz"], rng.randint(1, len(vals)))
        ok = [x for x in labels if part(x) in val]
        val = rng.choice([tuple, list, set])(val) if len(val) != 2 else list(val)
    return {"on": on, "col": col, "val": list(val) if isinstance(val, tuple | set) else val, "vals": ok}


def range_query(w, rng, recs, on):
    key = "v" if on == "m" else "o"
    vals = sorted({x for r in recs for x in r[key]})
    if not vals:
        return None
    st = 1 if w.fine else (1000 if w.kind == "i" or on == "o" else 125)
    for _ in range(8):
        def bound():
            r = rng.random()
            if r < 0.15:
                return NONE
            v = rng.choice(vals)
            if r < 0.7:
                return v
            if w.kind == "i" and on == "m":
                return v + rng.choice([-1, 1]) * 1000
            return v + rng.choice([-1, 1, 2]) * st
        lo, hi = bound(), bound()
        a, b = (lo, hi) if NONE in (lo, hi) or lo <= hi else (hi, lo)
        ok = True
        for r in recs:
            l_, h_ = (r["lo"], r["hi"]) if on == "m" else (r["olo"], r["ohi"])
            if (a == NONE or h_ >= a) and (b == NONE or l_ <= b):
                if not any((a == NONE or x >= a) and (b == NONE or x <= b) for x in r[key]):
                    ok = False
        if ok:
            return {"on": on, "lo": lo, "hi": hi}
    return None


def gen_op(w, rng, recs, weights, chunked):
    """The next operation, feasible in the observed state."""
    n = len(recs)
    for _ in range(20):
        op = rng.choices(list(weights), list(weights.values()))[0]
        if op == "slice":
            f = lambda: rng.choice([NONE, NONE] + list(range(-n - 1, n + 2)))  # noqa
            return {"op": "slice", "a": f(), "b": f(), "c": rng.choice([NONE, NONE, 1, 2, -1, -2])}
        if op == "intarr":
            if n == 0:
                continue
            arr = [rng.randrange(-n, n) for _ in range(rng.randint(0, n))]
            uniq, seen = [], set()
            for q in arr:
                if q % n not in seen:
                    seen.add(q % n)
                    uniq.append(q)
            return {"op": "intarr", "arr": uniq}
        if op == "boolarr":
            return {"op": "boolarr", "arr": [rng.randrange(2) for _ in range(n)]}
        if op == "index":
            return {"op": "index", "i": rng.randrange(-n - 2, n + 2)}
        if op == "observe":
            return {"op": "observe"}
        if op == "sort":
            key = rng.choice(["m", "m", "g", "a"] if w.dir else ["m", "m", "o", "g", "a"])
            if key == "g":
                if not recs or any(r["g"] == "" for r in recs):
                    continue
                ci = rng.randrange(3)
                labs = sorted({r["g"] for r in recs})
                parts = sorted({x.split("|")[ci] for x in labs})
                return {"op": "sort", "key": "g", "col": COLS[ci],
                        "rank": {x: parts.index(x.split("|")[ci]) for x in labs}}
            if key == "a":
                if not recs or any(r["a"] == "" for r in recs):
                    continue
                labs = sorted({r["a"] for r in recs})
                return {"op": "sort", "key": "a", "col": w.attr, "rank": {x: i for i, x in enumerate(labs)}}
            if any(r["lo" if key == "m" else "olo"] in (NULL, OFF) for r in recs) or n == 0:
                continue
            return {"op": "sort", "key": key, "col": w.main if key == "m" else w.other, "rank": {"": 0}}
        if op == "select":
            q = []
            names = set()
            cur = recs
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                on = rng.choice(["m", "m", "at"] if w.dir else ["m", "m", "o", "at"])
                if on == "at":
                    if not recs or any(r["g"] == "" for r in recs):
                        continue
                    if chunked and any(r["a"] == "" for r in recs):
                        continue
                    s = attr_query(w, rng, recs)
                    if s["col"] == w.attr and w.attr == "foo" and not any(r["a"] for r in recs):
                        continue  # an attribute no patch has is ignored by select
                    if s["col"] == w.attr and w.attr == "foo" and any(not r["a"] for r in recs):
                        continue
                    key = s["col"]
                else:
                    s = range_query(w, rng, cur, on)
                    key = on
                if s is None or key in names:
                    continue
                names.add(key)
                q.append(s)
            # several range queries at once must leave samples everywhere
            if not q or not _keeps(recs, q):
                continue
            return {"op": "select", "q": q}
        if op in ("chunk", "merge"):
            return gen_chunk(w, rng, recs, op == "merge")
        if op == "split":
            if rng.random() < 0.5:
                return {"op": "split", "size": rng.randint(1, n + 1), "count": NONE}
            return {"op": "split", "size": NONE, "count": rng.randint(1, n + 2)}
        if op == "map":
            return {"op": "map", "client": rng.choice(["none", "shuffled", "shuffled", "threads", "reverse"]),
                    "size": rng.choice([NONE, 1, 2, 3]), "seed": rng.randrange(10 ** 6)}
    return {"op": "observe"}


def _keeps(recs, q):
    m = [s for s in q if s["on"] == "m"]
    o = [s for s in q if s["on"] == "o"]
    def inr(x, s):
        lo, hi = s["lo"], s["hi"]
        if NONE not in (lo, hi) and lo > hi:
            lo, hi = hi, lo
        return (lo == NONE or x >= lo) and (hi == NONE or x <= hi)
    for r in recs:
        for s, key, l_, h_ in [(s, "v", r["lo"], r["hi"]) for s in m] + [(s, "o", r["olo"], r["ohi"]) for s in o]:
            lo, hi = s["lo"], s["hi"]
            if NONE not in (lo, hi) and lo > hi:
                lo, hi = hi, lo
            if (lo == NONE or h_ >= lo) and (hi == NONE or l_ <= hi) and not any(inr(x, s) for x in r[key]):
                return False
    return True


def gen_chunk(w, rng, recs, merge):
    steps = sorted({abs(r["st"]) for r in recs if r["st"] not in (NULL, OFF, 0)}) or [w.steps()[0]]
    st = rng.choice(steps)
    o = {"op": "chunk", "len": NONE, "ov": 0, "kp": 0, "snap": rng.choice([1, 1, 1, 0]),
         "tol": rng.choice([15, 15, 15, 15, 15, 25, 35, 60, 10]), "conf": rng.choice(["raise", "raise", "drop", "keep_first"])}
    if merge:
        if rng.random() < 0.03:
            o["kp"] = 1
        return o
    unit = 1 if w.kind in ("dt", "td") else 125 if w.kind == "f" else 1000
    n = rng.randint(1, 7)
    length = n * st
    r = rng.random()
    if r < 0.2:
        d = rng.randrange(0, st + 1)
        length += d - d % unit if w.kind != "i" else 0
    elif r < 0.24:
        length = rng.choice([0, -st])
    o["len"] = length
    r = rng.random()
    if r < 0.35 and length > 0:
        o["ov"] = rng.randrange(0, n) * st
    elif r < 0.42 and length > 0:
        d = rng.randrange(0, length)
        o["ov"] = d - d % unit
    elif r < 0.48:
        o["ov"] = -rng.randint(1, 2) * st
    elif r < 0.51:
        o["ov"] = length + rng.choice([0, 1]) * st
    o["kp"] = rng.randrange(2)
    # bound the number of segments
    ext = [(x["lo"], x["hi"]) for x in recs if x["lo"] not in (NULL, OFF)]
    if ext and length > 0 and o["ov"] < length:
        span = max(b for _, b in ext) - min(a for a, _ in ext)
        if span / (length - o["ov"]) > 60:
            o["ov"], o["len"] = 0, max(length, (span // 10) // st * st + st)
    return o


def chunk_value(w, v, rng):
    """A length in one of its accepted forms."""
    if w.kind in ("dt", "td"):
        td = np.timedelta64(int(v) * E.NS, "ns")
        forms = [td, td, pd.Timedelta(td)]
        if not w.fine and v % 125 == 0:
            forms.append(v / 1000)
        return rng.choice(forms)
    if w.kind == "i":
        return v // 1000
    return v / 1000


class _Shuffled:
    """An executor which runs its tasks in another order than submitted."""

    def __init__(self, seed, mode):
        self.rng, self.mode = random.Random(seed), mode

    def map(self, func, *iterables):
        tasks = list(zip(*iterables))
        order = list(range(len(tasks)))
        if self.mode == "reverse":
            order.reverse()
        else:
            self.rng.shuffle(order)
        res = {}
        for i in order:
            res[i] = func(*tasks[i])
        return iter([res[i] for i in range(len(tasks))])


def run_op(w, spool, o, rng):
    """Apply an operation; return (new spool or None, event)."""
    ev = {"o": o, "err": "", "obs": [], "len": 0}
    new = None
    try:
        if o["op"] == "slice":
            f = lambda x: None if x == NONE else x  # noqa
            new = spool[f(o["a"]):f(o["b"]):f(o["c"])]
        elif o["op"] == "intarr":
            new = spool[np.array(o["arr"], dtype=np.int64)]
        elif o["op"] == "boolarr":
            new = spool[np.array(o["arr"], dtype=bool)]
        elif o["op"] == "index":
            p = spool[o["i"]]
            ev["obs"] = [dict(BLANK_ROW, **decode_patch(w, p))]
        elif o["op"] == "observe":
            new = spool
        elif o["op"] == "sort":
            new = spool.sort(o["col"])
        elif o["op"] == "select":
            new = apply_select(w, spool, o["q"], rng)
        elif o["op"] == "chunk":
            kw = dict(keep_partial=bool(o["kp"]), snap_coords=bool(o["snap"]), conflict=o["conf"])
            if o["tol"] != 15:
                kw["tolerance"] = o["tol"] / 10
            if o["ov"]:
                kw["overlap"] = chunk_value(w, o["ov"], rng)
            kw[w.main] = rng.choice([None, ...]) if o["len"] == NONE else chunk_value(w, o["len"], rng)
            new = spool.chunk(**kw)
        elif o["op"] == "split":
            kw = {k: o[k] for k in ("size", "count") if o[k] != NONE}
            ev["parts"] = [observe(w, s) for s in spool.split(**kw)]
        elif o["op"] == "map":
            calls = []

            def func(p, extra=0):
                calls.append(1)
                return decode_patch(w, p)["id"]

            kw = {"progress": False}
            if o["size"] != NONE:
                kw["size"] = o["size"]
            if o["client"] == "threads":
                import concurrent.futures as cf

                with cf.ThreadPoolExecutor(3) as ex:
                    res = spool.map(func, client=ex, **kw)
                    res = list(res)
            elif o["client"] == "none":
                res = list(spool.map(func, **kw))
            else:
                res = list(spool.map(func, client=_Shuffled(o["seed"], o["client"]), **kw))
            ev["out"] = res
            ev["calls"] = len(calls)
        if new is not None:
            ev["len"] = len(new)
            ev["obs"] = observe(w, new, by_index=rng.random() < 0.3)
    except Exception as exc:
        if "harness/" in _where(exc):
            raise
        ev = {"o": o, "err": type(exc).__name__, "msg": str(exc)[:200], "obs": [], "len": 0, "parts": [], "out": [], "calls": 0}
        new = None
    return new, ev


def _where(exc):
    """File of the innermost frame."""
    tb = exc.__traceback__
    name = ""
    while tb is not None:
        name = tb.tb_frame.f_code.co_filename
        tb = tb.tb_next
    return name


def init_records(w, spool):
    return observe(w, spool)


def run_history(w, rng, spool, weights, nops, recs=None):
    """A random history on a spool."""
    recs = observe(w, spool) if recs is None else recs
    tr = {"init": recs, "ev": [], "world": {"main": w.main, "kind": w.kind, "fine": int(w.fine)}}
    chunked = False
    for _ in range(nops):
        o = gen_op(w, rng, recs, weights, chunked)
        new, ev = run_op(w, spool, o, rng)
        tr["ev"].append(ev)
        if new is not None and o["op"] != "observe":
            spool, recs = new, ev["obs"]
            if o["op"] == "chunk":
                chunked = True
                weights = {k: v for k, v in weights.items() if k not in ("chunk", "merge")} or {"observe": 1}
            if len(recs) > 40 or any(r["v"] and OFF in r["v"] for r in recs) or any(not r["v"] for r in recs):
                break
    return tr


DIR_WORLD = dict(dir=True, main="time", kind="dt", attr="instrument_id")

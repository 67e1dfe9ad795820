"""
Histories of operations on single coordinates (C05, C06).

Labels are integers (ticks); a Kind says which concrete values they stand for.
Coordinate labels are multiples of ten ticks for integer kinds so queries can
fall between them.
"""
from __future__ import annotations

import random

import numpy as np
import pandas as pd

NULL = 2000000001
OFF = -2000000001
LIM = 1_900_000_000


class Kind:
    """Concrete values of ticks."""

    def __init__(self, name, off, scale, dtype):
        self.name, self.off, self.scale, self.dtype = name, off, scale, dtype

    exact = property(lambda s: s.name in ("i", "fd", "dt", "td", "i4"))
    tiny = property(lambda s: s.name == "ft")
    time = property(lambda s: s.name in ("dt", "td"))

    def dur(self, tick):
        """A difference of labels."""
        if self.time:
            return np.timedelta64(int(tick) * self.scale, "ns")
        if self.name in ("i", "i4"):
            q, r = divmod(int(tick), 10)
            return q if r == 0 else tick / 10
        return tick * self.scale

    def val(self, tick):
        if self.name == "dt":
            return np.datetime64(self.off, "ns") + self.dur(tick)
        return self.off + self.dur(tick)

    def arr(self, ticks):
        if self.time:
            if self.name == "dt":
                return np.array([self.val(x) for x in ticks], dtype="datetime64[ns]")
            return np.array([self.val(x) for x in ticks], dtype="timedelta64[ns]")
        return np.array([self.val(x) for x in ticks], dtype=self.dtype)

    def _num(self, y):
        r = round(y)
        if abs(r) > LIM or abs(y - r) > (0.02 if self.name == "fb" else 1e-3):
            return OFF
        return int(r)

    def enc_dur(self, x):
        if x is None or (not isinstance(x, str) and pd.isnull(x)):
            return NULL
        try:
            if self.time:
                if isinstance(x, pd.Timedelta):
                    x = x.to_numpy()
                if not isinstance(x, np.timedelta64):
                    return OFF
                q, r = divmod(int(x.astype("timedelta64[ns]").astype(np.int64)), self.scale)
                return int(q) if r == 0 and abs(q) < LIM else OFF
            if isinstance(x, np.timedelta64 | np.datetime64):
                return OFF
            return self._num(float(x) * 10 if self.name in ("i", "i4") else float(x) / self.scale)
        except (TypeError, ValueError, OverflowError):
            return OFF

    def enc(self, x, lossy=False):
        if x is None or (not isinstance(x, str) and pd.isnull(x)):
            return NULL
        try:
            if self.name == "dt":
                if isinstance(x, pd.Timestamp):
                    x = x.to_numpy()
                if not isinstance(x, np.datetime64):
                    return OFF
                d = x.astype("datetime64[ns]") - np.datetime64(self.off, "ns")
            else:
                d = x - self.off
            if lossy:
                if self.time:
                    return int(round(int(d.astype("timedelta64[ns]").astype(np.int64)) / self.scale))
                return int(round(float(d) * 10 if self.name in ("i", "i4") else float(d) / self.scale))
            return self.enc_dur(d)
        except (TypeError, ValueError, OverflowError):
            return OFF

    def q(self, tick, coord=None):
        """A query value; the label itself where there is one."""
        if tick == NULL:
            return None
        if coord is not None and not self.exact:
            for x in np.atleast_1d(coord.values):
                if self.enc(x) == tick:
                    return x
        return self.val(tick)


def kinds(rng):
    k = rng.choice(["i", "i", "f", "f", "fd", "ft", "fb", "dt", "dt", "dt", "td", "td"])
    if k == "i":
        return Kind("i", rng.choice([0, 0, 7, -100]), 1, "int64")
    if k == "f":
        return Kind("f", rng.choice([0.0, 0.0, 100.3, -7.7, 5e3]), rng.choice([0.01, 0.07, 0.003]), "float64")
    if k == "fd":
        return Kind("fd", rng.choice([0.0, 64.0, -3.5]), rng.choice([0.125, 0.25]), "float64")
    if k == "ft":
        return Kind("ft", 0.0, rng.choice([1e-11, 1e-13]), "float64")
    if k == "fb":
        return Kind("fb", 1.6e9, 0.001, "float64")
    scale = rng.choice([1, 1, 1000, 10**6, 10**8, 7])
    if k == "dt":
        return Kind("dt", rng.choice(["2020-01-01", "1970-01-01", "1969-12-31T23:59:59", "2250-06-01"]), scale, "datetime64[ns]")
    return Kind("td", np.timedelta64(rng.choice([0, 0, 10**9, -(10**9)]), "ns"), scale, "timedelta64[ns]")


def _o(f, default=OFF):
    try:
        return f()
    except Exception:
        return default


def obs(c, k, lossy=False):
    """Everything a coordinate says about itself."""
    if not hasattr(c, "values"):
        return {"v": [OFF], "n": -1, "sh": [], "size": -1, "mn": OFF, "mx": OFF, "st": OFF, "ev": 0, "so": 0, "rs": 0,
                "arr": [], "rg": OFF, "rgx": OFF, "dt": type(c).__name__, "un": "?"}
    v = [k.enc(x, lossy) for x in np.atleast_1d(c.values)]
    n = len(v)
    ev = int(bool(c.evenly_sampled))
    dt = str(np.dtype(c.dtype)) if c.dtype is not None and not (isinstance(c.dtype, float) and np.isnan(c.dtype)) else "?"
    return {
        "v": v, "n": int(len(c)), "sh": [int(x) for x in c.shape], "size": int(c.size),
        "mn": k.enc(c.min()) if n else NULL, "mx": k.enc(c.max()) if n else NULL,
        "st": k.enc_dur(c.step), "ev": ev, "so": int(bool(c.sorted)), "rs": int(bool(c.reverse_sorted)),
        "arr": [k.enc(x, lossy) for x in np.atleast_1d(np.array(c))],
        "rg": _o(lambda: k.enc_dur(c.coord_range(extend=False))) if n else NULL,
        "rgx": _o(lambda: k.enc_dur(c.coord_range())) if n and ev else NULL,
        "dt": dt.replace("datetime64[ns]", "M").replace("timedelta64[ns]", "m"),
        "un": "" if c.units is None else c.unit_str,
    }


DT = {"datetime64[ns]": "M", "timedelta64[ns]": "m"}


def positions(ix, n):
    """Which positions of a sequence of length n an indexer picks."""
    return [int(x) for x in np.atleast_1d(np.arange(n)[ix])]


# --------------------------------------------------------------------- make


def gen_make(rng, k):
    unit = 10
    mode = rng.choice(["array", "array", "array", "sss", "sss", "start", "stop", "span"])
    o = {"op": "make", "mode": mode, "bad": 0, "start": 0, "stop": 0, "step": NULL, "n": 0, "arr": [], "dt": DT.get(k.dtype, k.dtype),
         "un": "", "given": 0}
    step = unit * rng.choice([1, 1, 2, 3, 7]) * rng.choice([1, 1, 1, -1])
    start = unit * rng.randint(-6, 6)
    n = rng.choice([1, 1, 2, 3, 4, 5, 6, 8, 11])
    if mode == "array":
        shape = rng.choice(["even", "even", "mono", "mono", "down", "free", "dup", "one", "onestep"])
        if shape == "even":
            arr = [start + i * step for i in range(max(n, 2))]
        elif shape in ("mono", "down"):
            arr = [start]
            for _ in range(max(n, 3) - 1):
                arr.append(arr[-1] + unit * rng.choice([1, 2, 2, 5]))
            if shape == "down":
                arr = arr[::-1]
        elif shape == "free":
            arr = [unit * x for x in rng.sample(range(-12, 13), max(n, 3))]
        elif shape == "dup":
            arr = [unit * rng.randint(-2, 2) for _ in range(max(n, 3))]
        else:
            arr = [start]
            if shape == "onestep":
                o["given"] = 1
                o["step"] = step
        o["arr"] = arr
    else:
        o.update(start=start, step=step, n=n)
        o["stop"] = start + step * n
        if mode == "sss":
            o["n"] = 0
            if rng.random() < 0.4 and k.name != "i":
                rem = rng.choice([x for x in range(1, abs(step)) if 10 * x >= 2 * abs(step)])
                o["stop"] += (1 if step > 0 else -1) * (rem - abs(step))
                if (o["stop"] - o["start"]) * step <= 0:
                    o["stop"] = start + step * n
            if rng.random() < 0.08:
                o["stop"] = start - step * n
                o["bad"] = 1
        elif mode == "span" and abs(step) % 10:
            o["mode"] = "start"
    if not k.time and rng.random() < 0.5:
        o["un"] = rng.choice(["m", "s", "ft"])
    return o


def do_make(o, k):
    from dascore.core import get_coord

    kw = {"units": o["un"]} if o["un"] else {}
    if k.time:
        o["un"] = "s"
    if o["mode"] == "array":
        if o["given"]:
            kw["step"] = k.dur(o["step"])
        return get_coord(data=k.arr(o["arr"]), **kw)
    cast = (lambda x: x) if k.name != "i" else int
    if o["mode"] in ("sss", "start", "span"):
        kw["start"] = cast(k.val(o["start"]))
    if o["mode"] in ("sss", "stop", "span"):
        kw["stop"] = cast(k.val(o["stop"]))
    if o["mode"] != "span":
        kw["step"] = k.dur(o["step"])
    if o["mode"] != "sss":
        kw["shape"] = o["n"] if o["n"] % 2 else (o["n"],)
    return get_coord(**kw)


# ---------------------------------------------------------------- operations


def _ticks(rng, v, grid=False):
    """Interesting ticks around labels v."""
    lo, hi = (min(v), max(v)) if v else (0, 50)
    r = rng.random()
    if v and r < 0.5:
        x = rng.choice(v)
    elif r < 0.9:
        x = rng.randint(lo - 25, hi + 25)
    else:
        x = rng.choice([lo - 200, hi + 200])
    if not grid and rng.random() < 0.3:
        x += rng.choice([-1, 1, 4, -4])
    return x - x % 10 if grid else x


def gen_sel(rng, v, k, c):
    n = len(v)
    r = rng.random()
    if r < 0.34:
        rel = int(rng.random() < 0.3 and n > 0)
        if rel:
            span = max(v) - min(v)
            f = lambda: rng.choice([0, span, -span, rng.randint(-span - 15, span + 15)])  # noqa: E731
            if not k.exact and not c.evenly_sampled:
                f = lambda: rng.randint(-span - 15, span + 15) // 10 * 10 + 5  # noqa: E731
            lo, hi = f(), f()
        else:
            lo, hi = _ticks(rng, v), _ticks(rng, v)
            if rng.random() < 0.25:
                hi = lo
        if rng.random() < 0.2:
            lo = NULL
        if rng.random() < 0.2:
            hi = NULL
        return {"op": "sel", "lo": lo, "hi": hi, "rel": rel, "form": rng.choice(["t", "s", "e"])}
    if r < 0.44:
        return {"op": "selsamp", "a": rng.choice([NULL, rng.randint(-n - 2, n + 2)]), "b": rng.choice([NULL, rng.randint(-n - 2, n + 2)]), "c": NULL}
    if r < 0.52:
        arr = [_ticks(rng, v, grid=True) for _ in range(rng.randint(1, 5))]
        rel = int(k.exact and n > 0 and rng.random() < 0.3)
        if rel:
            arr = [rng.choice([x - min(v), x - max(v)]) for x in [rng.choice(v) for _ in arr]]
        return {"op": "selarr", "arr": arr, "rel": rel}
    if r < 0.58:
        return {"op": "selsamparr", "arr": [rng.randint(0, n + 1) for _ in range(rng.randint(1, 5))]}
    if r < 0.63:
        return {"op": "mask", "arr": [rng.randint(0, 1) for _ in range(n)]}
    if r < 0.72:
        arr = [_ticks(rng, v, grid=True) for _ in range(rng.randint(1, 6))]
        rel = int(k.exact and n > 0 and rng.random() < 0.3)
        if rel:
            arr = [rng.choice([x - min(v), x - max(v)]) for x in [rng.choice(v) for _ in arr]]
        if n == 0:
            return {"op": "mask", "arr": []}
        return {"op": "order", "arr": arr, "rel": rel}
    if r < 0.77:
        return {"op": "ordersamp", "arr": [rng.randint(-n - 1, n + 1) for _ in range(rng.randint(1, 6))]}
    if r < 0.87:
        return {"op": "slice", "a": rng.choice([NULL, rng.randint(-n - 2, n + 2)]), "b": rng.choice([NULL, rng.randint(-n - 2, n + 2)]),
                "c": rng.choice([NULL, 1, 2, -1, -2, 3])}
    if r < 0.91:
        bad = rng.random() < 0.15
        return {"op": "take", "arr": [rng.randint(-n, n - 1) + (2 * n + 2 if bad else 0) for _ in range(rng.randint(1, 6))]} if n else {
            "op": "sort", "rev": 0}
    if r < 0.93 and n:
        return {"op": "index", "arr": [rng.randint(-n, n - 1) for _ in range(rng.randint(1, 6))]}
    if r < 0.95:
        return {"op": "item", "i": rng.randint(-n - 2, n + 1)}
    if r < 0.98:
        return {"op": "sort", "rev": rng.randint(0, 1)}
    if k.exact:
        m = rng.randint(1, 6)
        st = 10 * rng.choice([1, 2, -1])
        w = [10 * rng.randint(-4, 4) + i * st for i in range(m)] if rng.random() < 0.5 else None
        if w is None:
            s0 = (rng.choice(v) if v else 0)
            w = [s0 + i * st for i in range(m)]
        w = list(dict.fromkeys(w))
        if rng.random() < 0.2 and v:
            w = list(dict.fromkeys(v))
        return {"op": "align", "w": w}
    return {"op": "sort", "rev": rng.randint(0, 1)}


def gen_meta(rng, v, k, c):
    n = len(v)
    r = rng.random()
    if r < 0.2:
        samples = int(rng.random() < 0.25)
        oob = int(rng.random() < 0.3)
        rel = int(not samples and k.exact and rng.random() < 0.3 and n > 0)
        m = rng.choice([1, 1, 3])
        if samples:
            arr = [rng.randint(-n - 1, n + 1) for _ in range(m)]
        elif rel:
            span = max(v) - min(v)
            arr = [rng.randint(-span, span) for _ in range(m)]
        else:
            lo, hi = (min(v), max(v)) if v else (0, 0)
            arr = [rng.randint(lo, hi) if rng.random() < 0.8 else _ticks(rng, v) for _ in range(m)]
        return {"op": "next", "arr": arr, "samples": samples, "oob": oob, "rel": rel, "scalar": int(m == 1 and rng.random() < 0.7)}
    if r < 0.32:
        samples = int(rng.random() < 0.2)
        st = k.enc_dur(c.step) if c.evenly_sampled else 10
        st = 10 if st in (NULL, OFF, 0) else abs(st)
        q = rng.randint(1, n + 2) if samples else rng.choice([st * rng.randint(1, n + 2), rng.randint(1, st * (n + 1))])
        if not samples and q % st and not k.exact and min(q % st, st - q % st) * 100 < st:
            q = st
        return {"op": "count", "q": q, "samples": samples, "lt": int(rng.random() < 0.3)}
    if r < 0.42:
        return {"op": "chlen", "n": rng.choice([0, 1, 2, n, n + 1, n + 3, max(n - 1, 0), -1])}
    if r < 0.62:
        pick = lambda: 10 * rng.randint(-30, 30)  # noqa: E731
        up = -1 if (n > 1 and v[0] > v[-1]) else 1
        step = 10 * rng.choice([1, 2, 3, 5]) * up
        ev = bool(c.evenly_sampled)
        which = rng.choice(["min", "max", "step"] + (["minstep", "maxstep"] if ev else []))
        o = {"op": "limits", "min": NULL, "max": NULL, "step": NULL, "via": rng.choice(["limits", "update"])}
        if "min" in which:
            o["min"] = pick()
        if "max" in which:
            o["max"] = pick()
        if "step" in which:
            o["step"] = step * (-1 if ev and rng.random() < 0.2 else 1)
        if o["step"] != NULL and not ev and n < 1:
            o["step"], o["min"] = NULL, pick()
        return o
    if r < 0.68:
        return {"op": "summary"}
    if r < 0.74:
        return {"op": "snap"}
    if r < 0.77:
        return {"op": "empty"}
    if r < 0.85:
        return {"op": "reduce", "how": rng.choice(["min", "max", "first", "last", "empty"])}
    if r < 0.92:
        return {"op": "equal"}
    return gen_sel(rng, v, k, c)


class Lab:
    """One history."""

    def __init__(self, k):
        self.k, self.c, self.ev = k, None, []

    def record(self, o, err="", c=None, ix=(), keep=1, **kw):
        e = {"o": o, "err": err, "ix": list(ix), "keep": keep, "out": [], "val": NULL, "w": [], "ix2": [], "c": {}, "c2": {}}
        e.update(kw)
        if c is not None:
            e["c"] = obs(c, self.k, lossy=o["op"] == "snap")
            if keep:
                self.c = c
        e["c"] = e["c"] or {"v": []}
        e["c2"] = e["c2"] or {"v": []}
        self.ev.append(e)
        return e

    def make(self, o):
        try:
            c = do_make(o, self.k)
        except Exception as exc:
            self.record(o, type(exc).__name__, keep=0)
            return False
        self.record(o, c=c)
        return True

    def do(self, o):
        try:
            self._do(o)
        except Exception as exc:
            self.record(o, type(exc).__name__, keep=0)

    def _do(self, o):
        from dascore.core import get_coord

        c, k, op = self.c, self.k, o["op"]
        n = len(c)
        if op == "sel":
            f = (lambda t: None if t == NULL else k.dur(t)) if o["rel"] else (lambda t: k.q(t, c))
            lo, hi = f(o["lo"]), f(o["hi"])
            if o.get("form") == "s":
                arg = slice(lo, hi)
            elif o.get("form") == "e":
                arg = (... if lo is None else lo, ... if hi is None else hi)
            else:
                arg = (lo, hi)
            new, ix = c.select(arg, relative=bool(o["rel"]))
            self.record(o, c=new, ix=positions(ix, n))
        elif op == "selsamp":
            g = lambda t: None if t == NULL else t  # noqa: E731
            new, ix = c.select((g(o["a"]), g(o["b"])), samples=True)
            self.record(o, c=new, ix=positions(ix, n))
        elif op == "selarr":
            arr = self.durs(o["arr"]) if o["rel"] else self.vals(o["arr"])
            new, ix = c.select(arr, relative=bool(o["rel"]))
            self.record(o, c=new, ix=positions(ix, n))
        elif op == "selsamparr":
            new, ix = c.select(np.array(o["arr"], dtype=np.int64), samples=True)
            self.record(o, c=new, ix=positions(ix, n))
        elif op == "mask":
            new, ix = c.select(np.array(o["arr"], dtype=bool))
            self.record(o, c=new, ix=positions(ix, n))
        elif op == "order":
            arr = self.durs(o["arr"]) if o["rel"] else self.vals(o["arr"])
            new, ix = c.order(arr, relative=bool(o["rel"]))
            self.record(o, c=new, ix=positions(ix, n))
        elif op == "ordersamp":
            new, ix = c.order(np.array(o["arr"], dtype=np.int64), samples=True)
            self.record(o, c=new, ix=positions(ix, n))
        elif op == "slice":
            g = lambda t: None if t == NULL else t  # noqa: E731
            s = slice(g(o["a"]), g(o["b"]), g(o["c"]))
            self.record(o, c=c[s], ix=positions(s, n))
        elif op == "take":
            a = np.array(o["arr"], dtype=np.int64)
            new = c[a]
            self.record(o, c=new, ix=positions(a, n))
        elif op == "index":
            a = np.array(o["arr"], dtype=np.int64)
            self.record(o, c=c.index(a), ix=positions(a, n))
        elif op == "item":
            self.record(o, val=k.enc(c[o["i"]]), keep=0)
        elif op == "sort":
            new, ix = c.sort(reverse=bool(o["rev"]))
            self.record(o, c=new, ix=positions(ix, n))
        elif op == "snap":
            v = [k.enc(x) for x in np.atleast_1d(c.values)]
            whole = len(v) > 1 and (max(v) - min(v)) % (len(v) - 1) == 0 and len(set(v)) == len(v)
            whole = whole and (k.name != "i" or (max(v) - min(v)) // (len(v) - 1) % 10 == 0)
            self.record(o, c=c.snap(), keep=int(whole or bool(c.evenly_sampled)))
        elif op == "next":
            if o["samples"]:
                arr = np.array(o["arr"], dtype=np.int64)
            else:
                arr = self.durs(o["arr"]) if o["rel"] else self.vals(o["arr"])
            out = c.get_next_index(arr[0] if o["scalar"] else arr, samples=bool(o["samples"]), allow_out_of_bounds=bool(o["oob"]),
                                   relative=bool(o["rel"]))
            self.record(o, out=[int(x) for x in np.atleast_1d(out)], keep=0)
        elif op == "count":
            v = o["q"] if o["samples"] else k.dur(o["q"])
            out = c.get_sample_count(v, samples=bool(o["samples"]), enforce_lt_coord=bool(o["lt"]))
            self.record(o, out=[int(out)], keep=0)
        elif op == "chlen":
            self.record(o, c=c.change_length(o["n"]))
        elif op == "limits":
            kw = {x: k.val(o[x]) for x in ("min", "max") if o[x] != NULL}
            if o["step"] != NULL:
                kw["step"] = k.dur(o["step"])
            new = c.update(**kw) if o["via"] == "update" and len(kw) == 1 else c.update_limits(**kw)
            self.record(o, c=new, keep=int(n > 0))
        elif op == "summary":
            s = c.to_summary()
            out = [k.enc(s.min), k.enc(s.max), k.enc_dur(s.step)]
            if c.evenly_sampled:
                self.record(o, out=out, c=s.to_coord(), keep=0)
            else:
                self.record(o, out=out, keep=0)
        elif op == "empty":
            self.record(o, c=c.empty())
        elif op == "reduce":
            self.record(o, c=c.reduce_coord(o["how"]), keep=0)
        elif op == "align":
            other = get_coord(data=k.arr(o["w"]), units=c.units)
            n1, n2, i1, i2 = c.align_to(other)
            self.record(o, c=n1, ix=positions(i1, n), c2=obs(n2, k), ix2=positions(i2, len(other)), w=o["w"], keep=0)
        elif op == "equal":
            if len(c):
                step = c.step if c.evenly_sampled and len(c) == 1 else None
                twin = get_coord(data=np.array(c.values), units=c.units, step=step)
                shift = get_coord(data=np.array(c.values) + k.dur(10**8 if k.name != "ft" else 10**15), units=c.units, step=step)
            else:
                twin = get_coord(data=np.array(c.values, dtype=c.dtype), units=c.units, step=c.step)
                shift = twin
            same = 1 if not k.exact else int(twin == c and c == twin)
            close = int(bool(c.approx_equal(twin)))
            sclose = 0 if k.tiny or k.time else int(bool(c.approx_equal(shift)))
            self.record(o, out=[same, close, int(shift == c), sclose], keep=0)

    def vals(self, ticks):
        return np.array([self.k.q(t, self.c) for t in ticks])

    def durs(self, ticks):
        return np.array([self.k.dur(t) for t in ticks])


def c_big(c, k):
    st = k.enc_dur(c.step)
    return st != NULL and abs(st) > 10**6


def run(seed, gen, nops):
    rng = random.Random(seed)
    k = kinds(rng)
    lab = Lab(k)
    o = gen_make(rng, k)
    if not lab.make(o):
        return {"init": {"v": [], "ev": 0, "st": NULL, "dt": "", "un": ""}, "ev": lab.ev}
    for _ in range(rng.randint(1, nops)):
        v = [k.enc(x) for x in np.atleast_1d(lab.c.values)]
        if OFF in v or NULL in v or k.enc_dur(lab.c.step) == OFF or (v and c_big(lab.c, k)) or (v and (max(v) > 10**6 or min(v) < -(10**6))):
            break
        lab.do(gen(rng, v, k, lab.c))
    return {"init": {"v": [], "ev": 0, "st": NULL, "dt": "", "un": ""}, "ev": lab.ev}


def run_beh(beh, seed):
    """Replay a behaviour of CoordMC, its ticks spread by ten, as any kind."""
    rng = random.Random(seed)
    k = kinds(rng)
    lab = Lab(k)
    t = lambda x: x if x == NULL else 10 * x  # noqa: E731
    for o in beh["ops"]:
        o = dict(o)
        if o["op"] == "make":
            m = {"op": "make", "mode": rng.choice(["start", "array"]), "bad": 0, "start": t(o["start"]), "step": t(o["step"]), "n": o["n"],
                 "stop": 0, "arr": [t(o["start"]) + i * t(o["step"]) for i in range(o["n"])], "dt": DT.get(k.dtype, k.dtype), "un": "",
                 "given": 1}
            if not lab.make(m):
                break
            continue
        for f in ("lo", "hi", "min", "max", "step"):
            if f in o:
                o[f] = t(o[f])
        if o["op"] == "limits":
            o["via"] = "limits"
        lab.do(o)
        if lab.ev[-1]["err"]:
            break
    return {"init": {"v": [], "ev": 0, "st": NULL, "dt": "", "un": ""}, "ev": lab.ev}

"""Conversions of times, durations and numbers."""
from __future__ import annotations

import copy
import datetime as D
import random
from fractions import Fraction as Fr

import numpy as np
import pandas as pd

from dascore.constants import LARGEDT64, SMALLDT64
from dascore.utils.time import get_max_min_times, to_datetime64, to_float, to_int, to_timedelta64

FUN = {"to_datetime64": to_datetime64, "to_timedelta64": to_timedelta64, "to_int": to_int, "to_float": to_float}
UNIT = {"ns": 1, "us": 10**3, "ms": 10**6, "s": 10**9, "m": 60 * 10**9, "h": 3600 * 10**9, "D": 86400 * 10**9}
WORD = {"ns": "nanosecond", "us": "microsecond", "ms": "millisecond", "s": "second", "m": "minute", "h": "hour", "D": "day"}
LIM = 9_200_000_000 * 10**9


def amount(t):
    d, r = divmod(int(t), 86400 * 10**9)
    return [d, *divmod(r, 10**9)]


NULL = {"k": "null", "v": [0, 0, 0]}


def val(k, t):
    return {"k": k, "v": amount(t)}


def exact(t):
    """Is the number of seconds exact (enough) as a float?"""
    return abs(t) < 2**50 or (t % 10**9 == 0 and abs(t) < 46 * 10**17)


def rand_t(rng, k, f, word=False):
    """A number of ns of a value of kind k which f can convert exactly."""
    u = rng.choice(list(UNIT))
    c = rng.choice([0, 1, -1, 2, 59, 999, 1000, 10**6 + 1, rng.randint(-10**4, 10**4), rng.randint(-10**12, 10**12), rng.randint(-10**18, 10**18)])
    t = c * UNIT[u]
    if rng.random() < 0.3:
        t = rng.choice([2**62 + 1, 1_600_000_000 * 10**9 + 1, -2**61 - 3, 2**53 + 1, 1_500_000_000 * 10**9 + 123456789])
    while abs(t) > LIM:
        t //= 1000
    if (k == "num" or f == "to_float") and not exact(t):
        t = t // 10**9 * 10**9 % (45 * 10**17) if rng.random() < 0.5 else t % (2**50)
    return t


def in_unit(rng, ts, pandas=False):
    """The coarsest unit (sometimes a finer one) in which all are whole."""
    us = [u for u in UNIT if all(t is None or t % UNIT[u] == 0 for t in ts) and not (pandas and u in "mhD")]
    return rng.choice(us)


def np_time(k, t, u):
    c = np.datetime64 if k == "dt" else np.timedelta64
    return c("NaT", u) if t is None else c(t // UNIT[u], u)


def iso(t):
    d, s, n = amount(t)
    day = D.date(1970, 1, 1) + D.timedelta(days=d)
    return f"{day.isoformat()}T{s // 3600:02d}:{s // 60 % 60:02d}:{s % 60:02d}.{n:09d}"


def number(rng, t):
    """A number of seconds."""
    if t % 10**9 == 0 and rng.random() < 0.6:
        s = t // 10**9
        ty = [x for x in ("int8", "uint8", "int16", "int32", "uint32", "int64") if np.iinfo(x).min <= s <= np.iinfo(x).max]
        return rng.choice([s, np.dtype(rng.choice(ty)).type(s), float(s)])
    x = float(Fr(t, 10**9))
    if Fr(float(np.float32(x))) == Fr(t, 10**9) and rng.random() < 0.3:
        return np.float32(x)
    return rng.choice([x, np.float64(x)])


def scalar(rng, k, t, f):
    if t is None:
        return rng.choice([None, np.nan, pd.NaT, np.datetime64("NaT"), np.timedelta64("NaT")] + ([float("inf")] if f in ("to_datetime64", "to_timedelta64") else []))
    u = in_unit(rng, [t])
    if k == "num":
        return number(rng, t)
    if k == "dt":
        c = [np_time(k, t, u), pd.Timestamp(t)]
        if t % 1000 == 0 and -10**18 < t < 10**18:
            c.append(D.datetime(1970, 1, 1) + D.timedelta(microseconds=t // 1000))
        if f == "to_datetime64":
            c += [iso(t), iso(t) + "Z"]
        return rng.choice(c)
    c = [np_time(k, t, u)]
    if f in ("to_timedelta64", "to_float"):
        c.append(pd.Timedelta(t))
        if t % 1000 == 0 and abs(t) < 10**18:
            c.append(D.timedelta(microseconds=t // 1000))
    if f == "to_timedelta64":
        c.append(f"{t // UNIT[u]} {WORD[u]}{rng.choice(['', 's'])}")
    return rng.choice(c)


def array(rng, k, ts, f):
    """Values as an array."""
    if k != "num":
        u = in_unit(rng, ts)
        return np.array([np_time(k, t, u) for t in ts], dtype=f"{'M8' if k == 'dt' else 'm8'}[{u}]")
    if not ts:
        return np.array([], dtype=rng.choice(["float64", "int64"]))
    if None not in ts and all(t % 10**9 == 0 for t in ts):
        ss = [t // 10**9 for t in ts]
        ty = [x for x in ("int8", "uint8", "int16", "int32", "uint32", "int64", "float64") if x == "float64" or np.iinfo(x).min <= min(ss) and max(ss) <= np.iinfo(x).max]
        return np.array(ss, dtype=rng.choice(ty))
    return np.array([np.nan if t is None else float(Fr(t, 10**9)) for t in ts])


def make(rng, f):
    """(object, kind of container, input values, shape)."""
    k = rng.choice(["dt", "td", "num"])
    null = 0 if f == "to_int" else rng.choice([0, 0, 0.3])
    r = rng.random()
    if r < 0.35:
        if k == "dt" and f == "to_timedelta64":
            k = "td"
        t = None if rng.random() < null else rand_t(rng, k, f)
        return scalar(rng, k, t, f), "scalar", [NULL if t is None else val(k, t)], []
    n = rng.choice([0, 1, 2, 3, 4, 6])
    ts = [None if rng.random() < null else rand_t(rng, k, f) for _ in range(n)]
    if rng.random() < 0.5:      # of one size, so that coarse units occur
        u = rng.choice(list(UNIT))
        ts = [None if t is None else t // UNIT[u] * UNIT[u] % (2**50 // UNIT[u] * UNIT[u]) for t in ts]
    if k == "num" and any(t is not None and t % 10**9 for t in ts) and any(t is not None and not exact(t) for t in ts):
        ts = [None if t is None else t // 10**9 * 10**9 % (45 * 10**17) for t in ts]
    vals = [NULL if t is None else val(k, t) for t in ts]
    if r < 0.65:
        a = array(rng, k, ts, f)
        shape = [n]
        if rng.random() < 0.4 and n:
            shape = rng.choice([s for s in ([1, n], [n, 1], [2, n // 2], [n // 2, 2], [1, 1, n]) if np.prod(s) == n])
            a = a.reshape(shape)
            if rng.random() < 0.3:
                a = np.asfortranarray(a)
        if rng.random() < 0.2 and n:
            a = a.repeat(2, axis=-1)[..., ::2]
        if rng.random() < 0.2:
            a.flags.writeable = False
        return a, "array", vals, shape
    if r < 0.8:
        a = array(rng, k, ts, f)
        if k != "num":
            u = in_unit(rng, ts, pandas=True)
            a = a.astype(f"{a.dtype.kind}8[{u}]")
        index = rng.sample(range(20), n)
        if f == "to_datetime64" and k == "dt" and n and None not in ts and rng.random() < 0.3:
            return pd.Series([iso(t) for t in ts], index=index), "series", vals, [n]
        return pd.Series(a, index=index), "series", vals, [n]
    c = rng.choice([list, tuple])
    if f == "to_datetime64" and rng.random() < 0.6 and n:      # a mixture of all kinds
        ks = [rng.choice(["dt", "td", "num"]) for _ in ts]
        ks = [kk if kk != "num" or t is None or exact(t) else "dt" for kk, t in zip(ks, ts)]
        items = [None if t is None else scalar(rng, kk, t, f) for kk, t in zip(ks, ts)]
        items = np.array(items + [None], dtype=object)[:-1]
        return items, "array", [NULL if t is None else val(kk, t) for kk, t in zip(ks, ts)], [n]
    if k == "num":
        return c(None if t is None else number(rng, t) for t in ts), "array", vals, [n]
    u = in_unit(rng, ts)
    if not n and f == "to_int":
        k = "num"
    return c(np_time(k, t, u) for t in ts), "array", vals, [n]


def project(x, timed):
    """Values of a result as the specification has them."""
    if isinstance(x, np.datetime64 | np.timedelta64):
        if np.isnat(x):
            return NULL
        u, m = np.datetime_data(x.dtype)
        return val("dt" if isinstance(x, np.datetime64) else "td", int(x.astype(np.int64)) * m * UNIT[u])
    if x is None or x is pd.NaT or (isinstance(x, float | np.floating) and np.isnan(x)):
        return NULL
    if isinstance(x, float | np.floating) and np.isinf(x):
        return {"k": "inf", "v": [0, 0, 0]}
    if isinstance(x, int | np.integer | float | np.floating):
        if timed:
            if not isinstance(x, int | np.integer):
                return {"k": "bad", "v": [0, 0, 0]}
            return val("ns", int(x))
        t = round(Fr(float(x) if isinstance(x, np.floating) else int(x) if isinstance(x, np.integer) else x) * 10**9)
        return val("num", t) if abs(t) < 2**64 else {"k": "big", "v": [0, 0, 0]}
    return {"k": type(x).__name__, "v": [0, 0, 0]}


def snap(x):
    if isinstance(x, np.ndarray) and x.dtype != object:
        return x.dtype.str, x.shape, x.tobytes()
    if isinstance(x, pd.Series):
        return str(x.dtype), repr(x.tolist()), x.index.tolist()
    return repr(x)


def one(f, x, cont, vals, shape):
    ev = {"o": {"op": "conv", "f": f}, "err": "", "inp": vals, "shape": shape, "single": int(cont == "scalar" or (cont == "series" and f == "to_int")), "out": [], "oshape": [], "owner": 1, "same": 1}
    before = snap(x)
    keep = copy.deepcopy(x)
    try:
        out = FUN[f](x)
    except Exception as exc:
        ev["err"], ev["msg"] = type(exc).__name__, str(exc)[:200] + " <- " + repr(keep)[:200]
        return ev, None
    ev["same"] = int(snap(x) == before)
    # an integer is in ns if the input was a time
    timed = f == "to_int" and any(v["k"] in ("dt", "td") for v in vals)
    if cont == "scalar":
        ev["owner"] = int(np.ndim(out) == 0 and not isinstance(out, np.ndarray | pd.Series))
        items = [out]
    else:
        ev["owner"] = int(isinstance(out, pd.Series if cont == "series" else np.ndarray))
        if cont == "series" and ev["owner"]:
            ev["owner"] = int(out.index.tolist() == x.index.tolist())
        a = np.asarray(out.values if isinstance(out, pd.Series) else out)
        ev["oshape"] = list(a.shape)
        if f in ("to_datetime64", "to_timedelta64") and a.dtype != np.dtype("M8[ns]" if f == "to_datetime64" else "m8[ns]"):
            ev["owner"] = 0
        items = list(a.ravel())
    ev["out"] = [project(v, timed) for v in items]
    ev["what"] = repr(keep)[:200]
    return ev, out


def gen(rng):
    if rng.random() < 0.1:
        a, b = rand_t(rng, "dt", ""), rand_t(rng, "dt", "")
        if rng.random() < 0.3:
            a = rng.choice([0, 0, -10**9])
        if rng.random() < 0.3:
            b = rng.choice([0, 0, 10**9])
        if a > b and rng.random() < 0.8:
            a, b = b, a
        ts = [None if rng.random() < 0.2 else t for t in (a, b)]
        xs = []
        for t in ts:
            k = "num" if t is not None and exact(t) and rng.random() < 0.4 else "dt"
            xs.append(rng.choice([None, np.datetime64("NaT")]) if t is None else scalar(rng, k, t, "to_datetime64"))
        ev = {"o": {"op": "range", "f": ""}, "err": "", "inp": [NULL if t is None else val("dt", t) for t in ts], "shape": [], "single": 1, "out": [], "oshape": [], "owner": 1, "same": 1}
        keep = repr(xs)
        try:
            r = get_max_min_times(None if xs == [None, None] and rng.random() < 0.5 else tuple(xs))
        except Exception as exc:
            ev["err"], ev["msg"] = type(exc).__name__, str(exc)[:200] + keep
            return ev
        ev["out"] = [NULL if x == (LARGEDT64 if i else SMALLDT64) else project(x, False) for i, x in enumerate(r)]
        return ev
    f = rng.choice(list(FUN))
    return one(f, *make(rng, f))[0]


def run(seed, beh=None, n=6):
    rng = random.Random(seed)
    tr = {"init": [], "ev": []}
    if not beh:
        tr["ev"] = [gen(rng) for _ in range(n)]
        return tr

    def ns(v):
        return (v["v"][0] * 86400 + v["v"][1]) * 10**9 + v["v"][2]

    orig = beh["orig"]
    kinds = {v["k"] for v in orig} - {"null"}
    ts = [None if v["k"] == "null" else ns(v) for v in orig]
    if any(t is not None and not exact(t) for t in ts) and ("to_float" in beh["ops"] or "num" in kinds):
        return tr
    jobs = []
    if len(kinds) == 1 and rng.random() < 0.7:
        k = next(iter(kinds))
        a = array(rng, k, ts, "")
        c = rng.choice(["array", "series", "array2"])
        if c == "series":
            a = a.astype(f"{a.dtype.kind}8[ns]") if k != "num" else a
            jobs = [(pd.Series(a, index=[3, 1]), "series", orig, [2])]
        else:
            s = [2] if c == "array" else rng.choice([[2, 1], [1, 2]])
            jobs = [(a.reshape(s), "array", orig, s)]
    else:
        jobs = [(scalar(rng, v["k"], t, "to_int" if t is not None else beh["ops"][0]) , "scalar", [v], []) for v, t in zip(orig, ts)]
    for x, c, vals, shape in jobs:
        for f in beh["ops"]:
            if f == "to_int" and any(v["k"] == "null" for v in vals):
                break
            if c == "scalar" and f == "to_timedelta64" and vals[0]["k"] == "dt":
                break
            if c == "scalar" and f == "to_int" and vals[0]["k"] == "num" and vals[0]["v"][2]:
                break
            ev, x = one(f, x, c, vals, shape)
            tr["ev"].append(ev)
            if ev["err"]:
                break
            vals = ev["out"]
    return tr

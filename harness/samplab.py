"""Operations which change where a patch is sampled."""
from __future__ import annotations

import random
from fractions import Fraction as Fr

import numpy as np
import pandas as pd

import dascore as dc
from dascore.units import get_quantity

BAD = [1999999999, 1]
T0 = np.datetime64("2020-01-01T00:00:00", "ns")


def rat(x, lim=5000):
    x = float(x)
    if not np.isfinite(x):
        return BAD
    r = Fr(x).limit_denominator(lim)
    if abs(float(r) - x) > 2e-9 * max(1.0, abs(x)) or abs(r.numerator) > 1_000_000:
        return BAD
    return [r.numerator, r.denominator]


def labels(values):
    """Labels as rationals; times in seconds from T0 (durations in seconds)."""
    v = np.asarray(values)
    if v.dtype.kind == "M":
        v = v.astype("M8[ns]") - T0
    if v.dtype.kind == "m":
        return [BAD if np.isnat(x) else [(f := Fr(int(x.astype("m8[ns]").astype(np.int64)), 10**9).limit_denominator(5000)).numerator, f.denominator] for x in v]
    return [rat(x) for x in v]


def nums(a):
    return [nums(x) for x in a] if np.ndim(a) > 1 else [rat(x) for x in a]


def near(a):
    """Values computed with a small error as the simplest fraction within 1e-5."""
    def one(v):
        if np.isfinite(v):
            for lim in (1, 4, 20, 60, 150, 300):
                r = float(Fr(float(v)).limit_denominator(lim))
                if abs(r - v) < 1e-5 * max(1, abs(v)):
                    return r
        return v
    return np.vectorize(one, otypes=[float])(np.asarray(a))


EMPTY = {"x": [], "y": [], "d": [], "q": [], "re": [], "im": [], "z": []}


def proj(p, x="x"):
    """The patch with x first, then y."""
    dims = [x, "y"] + [d for d in p.dims if d not in (x, "y")]
    d = np.asarray(p.transpose(*dims).data)
    out = dict(EMPTY, x=labels(p.get_array(x)), y=labels(p.get_array("y")))
    if np.iscomplexobj(d):
        out["re"], out["im"] = nums(d.real), nums(d.imag)
    else:
        out["d"] = nums(d)
    if "q" in p.coords.coord_map:
        cm = p.coords
        out["q"] = [int(v) for v in p.get_array("q")] if cm.dim_map["q"] == (x,) else [-1]
    if len(dims) > 2:
        out["z"] = labels(p.get_array(dims[2]))
    return out


def make(rng):
    n, m = rng.choice([1, 2, 2, 3, 4, 4, 5, 6]), rng.randint(1, 3)
    kind = rng.choice(["float", "int", "time", "uneven", "float"])
    start, step = rng.choice([0, 1, 5, -4]), rng.choice([1, 2, 5]) if kind != "float" else rng.choice([0.5, 0.25, 1.0, 2.0])
    xs = [start + step * i for i in range(n)]
    if kind == "uneven" and n > 2:
        xs[-1] += rng.randint(1, 4)
        if rng.random() < 0.4:
            rng.shuffle(xs)
    if rng.random() < 0.25:
        xs = xs[::-1]
    x = np.array(xs, dtype="float64" if kind == "float" else "int64")
    if kind == "time":
        x = T0 + x.astype("m8[s]").astype("m8[ns]")
    r = rng.random()
    if r < 0.2:
        row = [rng.randint(-9, 20) for _ in range(m)]
        data = [row for _ in range(n)]
    else:
        data = [[rng.randint(-9, 20) for _ in range(m)] for _ in range(n)]
    y0 = rng.choice([0, 3])
    coords = {"x": x, "y": np.arange(m) * rng.choice([1, 2]) + y0}
    q = rng.random() < 0.5
    if q:
        coords["q"] = (("x",), np.array(rng.sample(range(10, 40), n)))
    data = np.array(data, dtype=rng.choice(["float64", "float64", "int64", "int32"]))
    dims = ("x", "y")
    if rng.random() < 0.5:
        data, dims = data.T, ("y", "x")
    p = dc.Patch(data=data, coords=coords, dims=dims, attrs={"data_type": "velocity"})
    if rng.random() < 0.4:
        p = p.set_units("m/s", x="s" if kind == "time" else rng.choice(["m", "s"]))
    return p


def sane(ob):
    return ob["x"] and all(v != BAD and abs(v[0]) < 20_000 and v[1] <= 64 for row in ob["d"] + [ob["x"]] for v in row)


def even(p):
    c = p.get_coord("x")
    return len(c) > 1 and c.evenly_sampled


def as_label(v, timed):
    """A rational as a label of the coordinate."""
    return T0 + np.timedelta64(int(v * 10**9), "ns") if timed else float(v)


def gen(rng, p, ob):
    n = len(ob["x"])
    ev = even(p)
    op = rng.choice(["dec", "dec", "pad", "pad", "roll", "interp", "interp", "diff", "cdiff", "corr", "dft", "back", "res", "resp", "snap", "deriv", "integ", "integd"])
    if not ev and op not in ("dec", "pad", "interp", "snap", "deriv", "integ", "integd"):
        op = rng.choice(["dec", "pad", "interp", "deriv", "integ"])
    if op == "dec":
        return {"op": op, "f": rng.choice([1, 2, 2, 3, 4, 7])}
    if op == "pad":
        return {"op": op, "b": rng.choice([0, 1, 2]), "a": rng.choice([0, 1, 3]), "v": [rng.choice([0, 0, 7]), 1], "expand": rng.choice([1, 1, 0]) if n > 1 else 0, "by": rng.choice(["samples", "labels", "same"])}
    if op == "roll":
        return {"op": op, "k": rng.choice([0, 1, 2, -1, -3, n, n + 1]), "lab": rng.randrange(2), "by": rng.choice(["samples", "labels"])}
    xs = [Fr(*v) for v in ob["x"]]
    if op in ("interp", "snap") and (n < 2 or len(set(xs)) < n):
        return {"op": "dec", "f": 2}
    if op == "interp":
        kind = rng.choice(["linear", "linear", "nearest"])
        s = sorted(xs)
        r = rng.random()
        if r < 0.2:
            out = list(xs)
        else:
            out = []
            for _ in range(rng.choice([1, 2, 3, n, n + 2])):
                i = rng.randrange(-1, n)
                a, b = (s[i], s[i + 1]) if 0 <= i < n - 1 else ((s[0] - 1, s[0]) if i < 0 else (s[-1], s[-1] + 1))
                out.append(a + (b - a) * rng.choice([Fr(0), Fr(1, 4), Fr(1, 2), Fr(3, 4)] if kind == "linear" else [Fr(0), Fr(1, 4), Fr(3, 4)]))
            out = sorted(set(out))
            if rng.random() < 0.2:
                out = out[::-1]
        if kind == "nearest":
            out = [v for v in out if s[0] <= v <= s[-1]] or [s[0]]
        return {"op": op, "kind": kind, "labels": [[v.numerator, v.denominator] for v in out]}
    if op == "snap":
        return {"op": op, "kind": "linear"}
    if op == "diff":
        return {"op": op, "k": rng.randint(1, max(1, n - 1))}
    if op in ("integ", "integd"):
        return {"op": op}
    if op == "deriv":
        return {"op": op, "k": rng.choice([1, 1, 2])}
    if op == "cdiff":
        return {"op": op, "k": rng.choice([1, 1, 2])}
    if op == "corr":
        m = len(ob["y"])
        src = sorted(rng.sample(range(1, m + 1), rng.randint(1, m)))
        return {"op": op, "src": src, "by": rng.choice(["samples", "labels", "all"])}
    if op == "dft":
        return {"op": op, "real": rng.randrange(2)}
    if op == "back":
        return {"op": op, "real": rng.randrange(2), "pad": rng.randrange(2)}
    if op == "res":
        return {"op": op, "n": rng.choice([n, 2 * n, 3 * n, n * 2, max(1, n - 1), n + 1]), "by": rng.choice(["samples", "labels", "hz"])}
    st = abs(xs[1] - xs[0])
    f = rng.choice([Fr(3, 4), Fr(5, 4), Fr(2, 3), Fr(3, 2), Fr(1, 2), Fr(5, 8)])
    q = st * f
    return {"op": "resp", "p": [q.numerator, q.denominator]}


FILL = {"f": 0, "b": 0, "a": 0, "v": [0, 1], "expand": 0, "k": 0, "lab": 0, "labels": [], "kind": "", "src": [], "real": 0, "n": 0, "p": [1, 1], "may": 0}


def execute(p, o, ob, rng):
    o = {**FILL, **o}
    n = len(ob["x"])
    ev = {"o": o, "err": "", "obs": EMPTY, "sums": [], "keep": 0}
    timed = p.get_coord("x").dtype.kind == "M"
    op = o["op"]
    step = p.get_coord("x").step if even(p) else None
    out = None
    try:
        if op == "dec":
            out = p.decimate(x=o["f"], filter_type=None, copy=rng.random() < 0.7)
        elif op == "pad":
            b, a = o["b"], o["a"]
            if o["by"] == "labels" and step is not None and n > 1:
                sec = abs(step)
                val = (b * sec, a * sec)
                if timed and rng.random() < 0.5:
                    val = tuple(v / np.timedelta64(1, "s") for v in val)
                out = p.pad(x=val, constant_values=o["v"][0], expand_coords=bool(o["expand"]))
            elif o["by"] == "same":
                o["b"] = o["a"]
                out = p.pad(x=a, samples=True, constant_values=o["v"][0], expand_coords=bool(o["expand"]))
            else:
                out = p.pad(x=(b, a), samples=True, constant_values=o["v"][0], expand_coords=bool(o["expand"]))
        elif op == "roll":
            lab = bool(o["lab"])
            if o["by"] == "labels":
                out = p.roll(x=o["k"] * abs(step), update_coord=lab)
            else:
                out = p.roll(x=o["k"], samples=True, update_coord=lab)
        elif op == "interp":
            new = [as_label(Fr(*v), timed) for v in o["labels"]]
            out = p.interpolate(x=np.array(new), kind=1 if o["kind"] == "linear" and rng.random() < 0.2 else o["kind"])
            if timed:     # interpolation of times is done in float nanoseconds since 1970
                out = out.new(data=near(out.data))
        elif op == "snap":
            out = p.interpolate(x=None)
            if timed:
                out = out.new(data=near(out.data))
        elif op == "diff":
            q = p.rename_coords(x="distance").velocity_to_strain_rate_edgeless(step_multiple=o["k"])
            out = q.rename_coords(distance="x")
        elif op == "cdiff":
            q = p.rename_coords(x="distance").velocity_to_strain_rate(step_multiple=2 * o["k"])
            out = q.rename_coords(distance="x")
        elif op == "deriv":
            out = p.differentiate("x", step=o["k"])
        elif op in ("integ", "integd"):
            out = p.integrate("x", definite=op == "integd")
        elif op == "corr":
            ys = p.get_array("y")
            if o["by"] == "all":
                o["src"] = list(range(1, len(ys) + 1))
                q = p.correlate(y=None)
            else:
                src = [i - 1 for i in o["src"]] if o["by"] == "samples" else [ys[i - 1] for i in o["src"]]
                src = src[0] if len(src) == 1 and rng.random() < 0.5 else np.array(src)
                q = p.correlate(y=src, samples=o["by"] == "samples")
            ob2 = proj(q, "lag_x")
            if o["by"] == "samples":    # sources are named by their number
                ob2["z"] = [ob["y"][int(v[0])] if v[1] == 1 and 0 <= v[0] < len(ob["y"]) else BAD for v in ob2["z"]]
            ev["obs"] = ob2
            return ev, None
        elif op == "dft":
            out = p.dft("x", real="x" if o["real"] else None)
            ev["obs"] = dict(proj(out, "ft_x"), q=[])
            return ev, None
        elif op == "back":
            q = p.dft("x", real="x" if o["real"] else None, pad=bool(o["pad"])).idft()
            ev["obs"] = proj(q.new(data=near(q.data.real)))
            return ev, None
        elif op == "res":
            if o["by"] == "samples" or (step is None):
                out = p.resample(x=o["n"], samples=True)
            else:
                sec = Fr(n, o["n"]) * Fr(abs(step).astype("m8[ns]").astype(np.int64).item(), 10**9) if timed else Fr(n, o["n"]) * Fr(float(abs(step)))
                units = p.get_coord("x").units
                if o["by"] == "hz" and units is not None and str(units.units) == "s":
                    out = p.resample(x=float(1 / sec) * get_quantity("Hz"))
                elif p.get_coord("x").reverse_sorted:
                    out = p.resample(x=o["n"], samples=True)
                else:
                    out = p.resample(x=float(sec))
        elif op == "resp":
            out = p.resample(x=float(Fr(*o["p"])))
            if timed:
                out = out.new(data=near(out.data))
        else:
            raise ValueError(op)
    except Exception as exc:
        ev["err"], ev["msg"] = type(exc).__name__, str(exc)[:200]
        return ev, None
    ev["obs"] = proj(out)
    if op == "res":
        d = np.asarray(out.transpose("x", "y").data)
        ev["sums"] = [rat(v, 500) for v in d.sum(axis=0, dtype=float)]
    if op in ("deriv", "integ", "integd") and timed and step is None:
        out = out.new(data=near(out.data))
        ev["obs"] = proj(out)
    if op in ("res", "resp", "integd"):
        out = None
    return ev, out


def allowed(p, o, ob):
    """Operations whose result is defined (otherwise they aren't run)."""
    n = len(ob["x"])
    ev, rev = even(p), p.get_coord("x").reverse_sorted
    if o["op"] in ("interp", "snap", "resp"):
        if len({tuple(v) for v in ob["x"]}) < n:
            return False
        if any(v[1] > (16 if o["op"] == "interp" else 8) for row in ob["d"] + [ob["x"]] for v in row):
            return False
        if o["op"] == "snap" and not ev and p.get_coord("x").dtype.kind == "M":
            return False
        # interpolation in time is only good to about 1e-6
        if p.get_coord("x").dtype.kind == "M" and any(v[1] > 4 for row in ob["d"] + [ob["x"]] for v in row):
            return False
    if o["op"] in ("diff", "cdiff", "corr", "dft", "back", "res", "resp", "roll") and not ev:
        return False
    if o["op"] in ("deriv", "integ", "integd"):
        srt = p.get_coord("x").sorted or p.get_coord("x").reverse_sorted
        if not srt or any(v[1] > 8 or abs(v[0]) > 400 for row in ob["d"] + [ob["x"]] for v in row) or len({tuple(v) for v in ob["x"]}) < n:
            return False
        if p.get_coord("x").dtype.kind == "M" and not ev and any(v[1] > 2 or abs(v[0]) > 40 for row in ob["d"] + [ob["x"]] for v in row):
            return False
        return n >= 3 * o.get("k", 0) and n > 1
    if o["op"] == "cdiff":
        return n >= 3 * o["k"] and p.get_coord("x").dtype.kind != "M"
    if o["op"] == "diff":
        return o["k"] < n and p.get_coord("x").dtype.kind != "M"
    if o["op"] == "dft":
        return n in (1, 2, 4) and not rev
    if o["op"] == "res":
        return not rev
    if o["op"] == "resp":
        return not rev and n > 2
    if o["op"] == "corr":
        return all(v[1] <= 4 and abs(v[0]) < 400 for row in ob["d"] for v in row)
    return True


def run(seed, nops=4, beh=None):
    rng = random.Random(seed)
    p = make(rng)
    while beh and not even(p):
        p = make(rng)
    ob = proj(p)
    tr = {"init": ob, "ev": []}
    todo = beh["ops"] if beh else [None] * rng.randint(1, nops)
    for b in todo:
        if not sane(ob):
            break
        if b is None:
            o = gen(rng, p, ob)
        else:
            o = dict(b)
            o["by"] = rng.choice(["samples", "labels"]) if even(p) else "samples"
            if "v" in o:
                o["v"], o["expand"] = [o["v"], 1], int(o["expand"] and len(ob["x"]) > 1)
            if "lab" in o:
                o["lab"] = int(o["lab"])
            if o["op"] == "mid":
                xs = [Fr(*v) for v in ob["x"]]
                if len(xs) < 2:
                    break
                new = [a + Fr(*o.pop("h")) * (c - a) if i < 0 else a + (c - a) / 4 for i, (a, c) in enumerate(zip(xs, xs[1:]))]
                o = {"op": "interp", "kind": "linear", "labels": [[v.numerator, v.denominator] for v in new]}
        if not allowed(p, o, ob):
            continue
        ev, out = execute(p, o, ob, rng)
        tr["ev"].append(ev)
        if out is not None and sane(ev["obs"]):
            ev["keep"] = 1
            p, ob = out, ev["obs"]
            if not np.issubdtype(p.get_coord("x").dtype, np.datetime64) and pd.isnull(p.get_array("x")).any():
                break
            if p.attrs.data_type != "velocity":
                p = p.update_attrs(data_type="velocity")
        elif out is not None:
            break
    return tr

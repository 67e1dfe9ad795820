"""Operations which scale, shift or replace samples in place."""
from __future__ import annotations

import random
from fractions import Fraction as Fr

import numpy as np

import dascore as dc
from dascore.units import get_quantity

from . import samplab as sl
from .samplab import BAD, T0, even, labels, make

INF = [1999999998, 1]


def rat(x):
    return INF if np.isposinf(x) else sl.rat(x)


def proj(p):
    d = np.asarray(p.transpose("x", "y").data)
    q = []
    if "q" in p.coords.coord_map:
        q = [int(v) for v in p.get_array("q")] if p.coords.dim_map["q"] == ("x",) else [-1]
    return {"x": labels(p.get_array("x")), "y": labels(p.get_array("y")), "d": [[rat(v) for v in row] for row in d], "q": q}


EMPTY = {"x": [], "y": [], "d": [], "q": []}


def small(v, den=12, num=2000):
    return v in (BAD, INF) or (v[1] <= den and abs(v[0]) <= num)


def sane(ob):
    return ob["x"] and ob["y"] and all(small(v) for row in ob["d"] for v in row) and all(small(v) and v != BAD for v in ob["x"] + ob["y"])


def start(rng):
    p = make(rng)
    if rng.random() < 0.35 and p.data.dtype.kind == "f":
        d = np.array(p.data)
        for _ in range(rng.randint(1, 3)):
            d[rng.randrange(d.shape[0]), rng.randrange(d.shape[1])] = rng.choice([np.nan, np.nan, np.inf])
        p = p.new(data=d)
    return p


def srt(xs):
    return all(a < b for a, b in zip(xs, xs[1:]))


def gen(rng, p, ob):
    dim = rng.choice(["x", "x", "y"])
    xs = [Fr(*v) for v in ob[dim]]
    n = len(xs)
    flat = [v for row in ob["d"] for v in row]
    nulls, infs = BAD in flat, INF in flat
    op = rng.choice(["norm", "detrend", "taper", "taper", "range", "range", "mute", "mute", "align", "align", "slope", "fill", "drop", "median", "hampel"])
    if nulls or infs:
        op = rng.choice(["fill", "drop", "drop", "align"] + ([] if infs else ["norm"]))
    kind = p.get_coord(dim).dtype.kind
    if op == "norm":
        return {"op": op, "dim": dim, "kind": rng.choice(["l1", "max", "bit"])}
    if op == "detrend":
        if n < 2 or not (dim == "y" or even(p)) or any(not small(v, 4, 400) for v in flat):
            return {"op": "norm", "dim": dim, "kind": "max"}
        return {"op": op, "dim": dim, "kind": rng.choice(["constant", "linear"])}
    if op == "fill":
        return {"op": op, "dim": "x", "fill": [rng.choice([0, 5, -3]), 1], "inf": rng.randrange(2)}
    if op == "drop":
        return {"op": op, "dim": dim, "kind": rng.choice(["any", "all"]), "inf": rng.randrange(2)}
    if op in ("median", "hampel"):
        w = [rng.choice([1, 3, 3, 5]), rng.choice([1, 1, 3])]
        if op == "hampel":
            w = [max(3, w[0]), rng.choice([1, 3])]
        return {"op": op, "dim": "x", "wx": w[0], "wy": w[1], "thr": [rng.choice([1, 2, 3, 10]), 1]}
    if op == "mute":
        a, b = sorted([rng.choice(xs), rng.choice(xs)])
        if kind != "i" and rng.random() < 0.4:
            a -= Fr(1, 8)
        lo, hi = [BAD if rng.random() < 0.2 else [v.numerator, v.denominator] for v in (a, b)]
        return {"op": op, "dim": dim, "lo": lo, "hi": hi, "inv": rng.randrange(2), "rel": rng.randrange(2)}
    if op == "slope":
        s = [rng.choice([Fr(0), Fr(1, 2), Fr(1), Fr(3, 2), Fr(3), Fr(10)]) for _ in range(2)]
        return {"op": op, "dim": "x", "s1": [s[0].numerator, s[0].denominator], "s2": [s[1].numerator, s[1].denominator], "inv": rng.randrange(2), "swap": rng.randrange(2)}
    if op == "align":
        m = len(ob["y"]) if dim == "x" else len(ob["x"])
        k = rng.choice([1, 2, 2, n - 1 if n > 1 else 1, n + 1])
        sh = [rng.randint(-k, k) for _ in range(m)]
        if rng.random() < 0.3:
            sh = [abs(v) for v in sh]
        return {"op": op, "dim": dim, "sh": sh, "mode": rng.choice(["full", "same", "valid"]), "fill": rng.choice([BAD, BAD, [0, 1], [7, 1]]), "by": rng.choice(["samples", "labels"]), "rev": rng.randrange(2)}
    if not srt(xs) or n < 2:
        return {"op": "norm", "dim": dim, "kind": "max"}
    if op == "taper":
        st = xs[1] - xs[0]

        def amount():
            if rng.random() < 0.2:
                return BAD
            h = rng.choice([x - xs[0] for x in xs[1:]] + [xs[1] - xs[0], Fr(0) if kind != "i" else xs[1] - xs[0]])
            if kind != "i":
                h += Fr(1, 16)
            return [h.numerator, h.denominator]
        h = amount()
        t = h if rng.random() < 0.3 else amount()
        del st
        return {"op": op, "dim": dim, "h": h, "t": t, "by": rng.choice(["part", "percent", "quantity", "delta"])}
    four = rng.random() < 0.6
    q = sorted(rng.randrange(n) for _ in range(4))
    if not four:
        q = [0, *sorted(rng.randrange(n) for _ in range(2)), n]
    return {"op": "range", "dim": dim, "q": q, "four": int(four), "inv": rng.randrange(2), "by": rng.choice(["samples", "labels", "relative", "between"]), "open": rng.choice([0, 0, 1, 2])}


FILL = {"dim": "x", "kind": "", "h": BAD, "t": BAD, "q": [], "inv": 0, "lo": BAD, "hi": BAD, "s1": [0, 1], "s2": [0, 1], "sh": [], "mode": "", "fill": BAD, "inf": 0,
        "wx": 1, "wy": 1, "thr": [1, 1], "isint": 0, "may": 0}


def allowed(p, o, ob):
    xs = [Fr(*v) for v in ob[o["dim"]]]
    ys = [Fr(*v) for v in ob["y"]]
    flat = [v for row in ob["d"] for v in row]
    nulls, infs = BAD in flat, INF in flat
    op = o["op"]
    c = p.get_coord(o["dim"])
    if (nulls and op not in ("fill", "drop", "align", "norm")) or (infs and op not in ("fill", "drop", "align")):
        return False
    if op == "norm":
        return all(small(v, 6, 200) for v in flat)
    if op == "detrend":
        return len(xs) > 1 and (o["dim"] == "y" or even(p)) and all(small(v, 2, 200) for v in flat)
    if op in ("taper", "range"):
        return srt(xs) and len(xs) > 1
    if op == "align":
        return len(xs) > 1 and c.evenly_sampled and srt(xs) and (p.data.dtype.kind == "f" or o["fill"] != INF)
    if op == "mute":
        return len(set(xs)) == len(xs)
    if op == "slope":
        return len(xs) > 1 and len(ys) > 1 and even(p) and p.get_coord("y").evenly_sampled and o["s1"] != o["s2"]
    if op in ("median", "hampel"):
        return even(p) and len(xs) > 1 and ((op == "median" and o["wy"] == 1) or all(p.get_coord(d).evenly_sampled and len(p.get_coord(d)) > 1 for d in ("x", "y")))
    return True


def delta(v, kind):
    return np.timedelta64(int(v * 10**9), "ns") if kind == "M" else (int(v) if kind == "i" else float(v))


def label(v, kind):
    return T0 + delta(v, "M") if kind == "M" else delta(v, kind)


def execute(p, o, ob, rng):
    o = {**FILL, **o}
    dim = o["dim"]
    ev = {"o": o, "err": "", "obs": EMPTY, "keep": 0}
    c = p.get_coord(dim)
    kind, op = c.dtype.kind, o["op"]
    xs = [Fr(*v) for v in ob[dim]]
    o["isint"] = int(p.data.dtype.kind == "i")
    try:
        if op == "norm":
            out = p.normalize(dim, norm=o["kind"])
        elif op == "detrend":
            out = p.detrend(dim, type=o["kind"])
        elif op == "fill":
            out = p.fillna(o["fill"][0], include_inf=bool(o["inf"]))
        elif op == "drop":
            out = p.dropna(dim, how=o["kind"], include_inf=bool(o["inf"]))
        elif op in ("median", "hampel"):
            by = rng.random() < 0.5
            kw = {}
            for d, w in (("x", o["wx"]), ("y", o["wy"])):
                cc = p.get_coord(d)
                if w > 1 or (cc.evenly_sampled and len(cc) > 1 and rng.random() < 0.3):
                    # a window of labels must be evenly sampled and the count exact
                    kw[d] = w if by else w * abs(cc.step) if len(cc) > 1 and cc.evenly_sampled else None
            if None in kw.values() or not kw:
                by, kw = True, {"x": o["wx"]} | ({"y": o["wy"]} if o["wy"] > 1 else {})
            if op == "hampel":
                if o["wy"] == 1:
                    kw.pop("y", None)
                o["may"] = 1 if o["wx"] > len(ob["x"]) or o["wy"] > len(ob["y"]) else 0
                out = p.hampel_filter(threshold=o["thr"][0], samples=by, approximate=False, **kw)
            else:
                out = p.median_filter(samples=by, **kw)
        elif op == "mute":
            lo, hi = [None if v == BAD else Fr(*v) for v in (o["lo"], o["hi"])]
            a, b = min(xs), max(xs)
            if any(v is not None and v < a for v in (lo, hi)):    # negative: from the end
                o["rel"] = 0
            if o["rel"]:
                lim = []
                for v in (lo, hi):
                    if v is None:
                        lim.append(None)
                    elif v == b or (v > a and rng.random() < 0.4 and v < b):
                        lim.append(delta(v - b, kind) if v < b else None)
                    else:
                        lim.append(delta(v - a, kind))
                if lo is not None and lim[0] is None:    # the last label
                    lim[0] = delta(b - a, kind)
                if hi is not None and lim[1] is None:
                    lim[1] = delta(b - a, kind)
                if kind == "M" and None not in lim and rng.random() < 0.4:
                    lim = [v / np.timedelta64(1, "s") for v in lim]
            else:
                lim = [None if v is None else label(v, kind) for v in (lo, hi)]
            out = p.line_mute(**{dim: tuple(lim)}, relative=bool(o["rel"]), invert=bool(o["inv"]))
        elif op == "slope":
            s1, s2 = Fr(*o["s1"]), Fr(*o["s2"])
            if o["swap"] and s1 and s2:
                out = p.slope_mute((float(1 / s1), float(1 / s2)), dims=("y", "x"), invert=bool(o["inv"]))
            else:
                out = p.slope_mute((float(s1), float(s2)), dims=("x", "y"), invert=bool(o["inv"]))
        elif op == "align":
            other = "y" if dim == "x" else "x"
            sh = np.array(o["sh"])
            if o["rev"]:
                sh = -sh
            by = o["by"] == "samples"
            co = sh if by else sh * c.step
            if kind == "M" and not by and rng.random() < 0.4:
                co = co / np.timedelta64(1, "s")
            # only full alignment allows rows which don't overlap
            if o["mode"] != "full" and max(abs(v) for v in o["sh"]) >= len(xs):
                o["may"] = 1
            fill = np.nan if o["fill"] == BAD else o["fill"][0]
            out = p.update_coords(moves=(other, co)).align_to_coord(**{dim: "moves"}, mode=o["mode"], samples=by, reverse=bool(o["rev"]), fill_value=fill)
            out = out.drop_coords("moves")
        elif op == "taper":
            dur = max(xs) - min(xs)
            hs = [None if v == BAD else Fr(*v) for v in (o["h"], o["t"])]
            units = c.units
            by = o["by"]
            if by == "delta" and kind != "M" or by in ("quantity", "percent") and units is None:
                by = "part"
            if kind == "i" and by != "quantity" and any(h is not None and float(h / dur) * float(dur) != float(h) for h in hs):
                return ev, "skip"
            unit = lambda: get_quantity(str(units.units))  # noqa: E731
            conv = {"part": lambda v: float(v / dur), "percent": lambda v: float(v / dur) * 100 * get_quantity("percent"),
                    "quantity": lambda v: float(v) * unit(), "delta": lambda v: delta(v, kind)}[by]
            if by == "percent" and kind == "i":
                return ev, "skip"
            val = tuple(None if h is None else conv(h) for h in hs)
            if o["h"] == o["t"] and o["h"] != BAD and rng.random() < 0.7:
                val = val[0]
            out = p.taper(**{dim: val}, window_type=rng.choice(["triang", "ramp"]))
        elif op == "range":
            q, n = o["q"], len(xs)
            use = list(q) if o["four"] else q[1:3]
            by = o["by"]
            if by == "between" and kind == "i":
                by = "labels"
            if by == "samples":
                val = list(use)
            else:
                val = []
                for i in use:
                    v = xs[i]
                    if by == "between" and i > 0:
                        v -= (xs[i] - xs[i - 1]) / 4
                    if by == "relative":
                        if 0 < i < n - 1 and rng.random() < 0.4:
                            val.append(delta(v - xs[-1], kind))
                        else:
                            val.append(delta(v - xs[0], kind))
                    else:
                        val.append(label(v, kind))
            if o["four"] and o["open"] == 1:
                q[0], val[0] = 0, rng.choice([None, ...])
            if o["four"] and o["open"] == 2:
                q[3], val[3] = n - 1, rng.choice([None, ...])
            out = p.taper_range(**{dim: tuple(val)}, window_type="triang", samples=by == "samples", relative=by == "relative", invert=bool(o["inv"]))
        else:
            raise ValueError(op)
    except Exception as exc:
        ev["err"], ev["msg"] = type(exc).__name__, str(exc)[:200]
        return ev, None
    ev["obs"] = proj(out)
    return ev, out


def run(seed, nops=3, beh=None):
    rng = random.Random(seed)
    p = start(rng)
    while beh and not even(p):
        p = start(rng)
    ob = proj(p)
    tr = {"init": ob, "ev": []}
    for b in beh["ops"] if beh else [None] * rng.randint(1, nops):
        if not sane(ob):
            break
        o = gen(rng, p, ob) if b is None else dict(b)
        if b is not None:
            o.update({"by": rng.choice(["samples", "labels"]), "four": 1, "open": 0, "rel": 0, "rev": rng.randrange(2)})
            if o["op"] == "align" and len(o["sh"]) != len(ob["y"]):
                o["sh"] = [o["sh"][i % 2] for i in range(len(ob["y"]))]
            if o["op"] == "range" and o["q"][3] >= len(ob["x"]):
                continue
        if not allowed(p, o, ob):
            continue
        ev, out = execute(p, o, ob, rng)
        if isinstance(out, str):
            continue
        tr["ev"].append(ev)
        if out is not None:
            if not sane(ev["obs"]):
                break
            ev["keep"] = 1
            p, ob = out, ev["obs"]
            if o["op"] in ("detrend", "norm") and p.data.dtype.kind == "f":    # without rounding errors
                d = np.array([[np.nan if v == BAD else v[0] / v[1] for v in row] for row in ob["d"]])
                p = p.new(data=d if p.dims == ("x", "y") else d.T)
    return tr

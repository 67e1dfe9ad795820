"""Units of data and coordinates."""
from __future__ import annotations

import random
from fractions import Fraction as Fr

import numpy as np

import dascore as dc
from dascore.units import get_filter_units, get_quantity

# what the specification's unit names are called in dascore
NAME = {"m": "m", "km": "km", "cm": "cm", "ft": "ft", "tenm": "10 m", "s": "s", "ms": "ms", "min": "min", "h": "hour", "K": "kelvin",
        "degC": "degC", "degF": "degF", "mps": "m/s", "kmph": "km/hour", "Hz": "Hz", "strain": "strain", "none": None}
DIM = {"m": "L", "km": "L", "cm": "L", "ft": "L", "tenm": "L", "s": "T", "ms": "T", "min": "T", "h": "T", "K": "K", "degC": "K", "degF": "K",
       "mps": "V", "kmph": "V", "Hz": "F", "strain": "0", "none": "n"}
BIG = 2_000_000
BAD = [1999999999, 1]
# dimensions, factor and offset of the units pint may answer with
PINT = {"meter": ((1, 0, 0), Fr(1)), "kilometer": ((1, 0, 0), Fr(1000)), "centimeter": ((1, 0, 0), Fr(1, 100)), "foot": ((1, 0, 0), Fr(381, 1250)),
        "second": ((0, 1, 0), Fr(1)), "millisecond": ((0, 1, 0), Fr(1, 1000)), "minute": ((0, 1, 0), Fr(60)), "hour": ((0, 1, 0), Fr(3600)),
        "kelvin": ((0, 0, 1), Fr(1)), "hertz": ((0, -1, 0), Fr(1)), "strain": ((0, 0, 0), Fr(1)), "dimensionless": ((0, 0, 0), Fr(1)),
        "degree_Celsius": ((0, 0, 1), Fr(1)), "degree_Fahrenheit": ((0, 0, 1), Fr(5, 9)),
        "delta_degree_Celsius": ((0, 0, 1), Fr(1)), "delta_degree_Fahrenheit": ((0, 0, 1), Fr(5, 9))}
OFFS = {"degree_Celsius": Fr(5463, 20), "degree_Fahrenheit": Fr(45967, 180)}


def unit(q):
    """(record for the specification, factor, offset) of a quantity of dascore."""
    if q is None:
        return {"none": 1, "dim": [0, 0, 0], "f": [1, 1], "o": [0, 1]}, Fr(1), Fr(0)
    f, o, dim = Fr(float(q.magnitude)).limit_denominator(10000), Fr(0), [0, 0, 0]
    cont = dict(q.units._units)
    for n, e in cont.items():
        d, k = PINT[n]
        assert e == int(e), cont
        f *= k ** int(e)
        dim = [a + b * int(e) for a, b in zip(dim, d)]
    if len(cont) == 1 and list(cont.values()) == [1]:
        o = OFFS.get(next(iter(cont)), Fr(0))
    return {"none": 0, "dim": dim, "f": [f.numerator, f.denominator], "o": [o.numerator, o.denominator]}, f, o


def rat(x, lim=20000):
    """The simple rational a float stands for."""
    if not np.isfinite(x):
        return BAD
    r = Fr(float(x)).limit_denominator(lim)
    if abs(float(r) - float(x)) > 1e-11 * abs(float(x)) + 2e-13 or abs(r.numerator) > BIG:
        return BAD
    return [r.numerator, r.denominator]


def quantity(q, values):
    u, f, o = unit(q)
    raw = [rat(x) for x in values]
    base = []
    for x in values:
        b = Fr(float(x)) * f + o if np.isfinite(x) else None
        base.append(BAD if b is None else rat(float(b)))
    return {"u": u, "raw": raw, "base": base}


def proj(patch, x="x"):
    data = np.asarray(patch.data)
    if np.iscomplexobj(data):
        data = data.real
    c = patch.get_coord(x)
    return {"d": quantity(patch.attrs.data_units, data.astype(float).ravel().tolist()),
            "x": quantity(c.units, np.asarray(c.values).astype(float).tolist()), "n": len(c), "m": int(data.size // max(len(c), 1))}


def sane(ob):
    return all(v != BAD and abs(v[0]) <= 200_000 and v[1] <= 2000 for q in (ob["d"], ob["x"]) for k in ("raw", "base") for v in q[k]) and ob["n"] > 0


def make(rng, beh=None):
    n, m = rng.randint(2, 4), rng.randint(1, 2)
    start, step = rng.choice([0, 1, 5, -4]), rng.choice([1, 2, 3, 5])
    xs = [start + step * i for i in range(n)]
    r = rng.random()
    if r < 0.25:
        xs = xs[::-1]
    elif r < 0.5 and n > 2:
        xs[-1] += rng.randint(1, 3)
        if rng.random() < 0.5:
            rng.shuffle(xs)
    if rng.random() < 0.5:
        data = [[rng.randint(-9, 20) for _ in range(m)] for _ in range(n)]
    else:
        ks = [(rng.randint(-2, 3), rng.randint(0, 9)) for _ in range(m)]
        data = [[a * x + b for a, b in ks] for x in xs]
    uni = sorted(NAME)
    du, xu = rng.choice(uni), rng.choice(["m", "km", "m", "ft", "s", "ms", "degC", "degF", "none", "tenm", "min"])
    if beh:
        if rng.random() < 0.5:
            du = beh["q"]["u"]
        else:
            xu = beh["q"]["u"]
    ty = rng.choice(["float64", "float64", "int64"])
    p = dc.Patch(data=np.array(data, dtype=ty), coords={"x": np.array(xs, dtype=rng.choice(["float64", "int64"])), "y": np.arange(m) * 1.0}, dims=("x", "y"))
    p = p.set_units(NAME[du], x=NAME[xu])
    return p


def arg(rng, name):
    """A unit as text or as an object."""
    n = NAME[name]
    return n if n is None or rng.random() < 0.6 else get_quantity(n)


def same(d, u):
    return [x for x in sorted(NAME) if DIM[x] == d]


def dim_of(u):
    return {(1, 0, 0): "L", (0, 1, 0): "T", (0, 0, 1): "K", (1, -1, 0): "V", (0, -1, 0): "F", (0, 0, 0): "0"}.get(tuple(u["dim"])) if not u["none"] else None


def pick(rng, u, other=0.2):
    """A unit, mostly compatible with u."""
    d = dim_of(u)
    if d and rng.random() > other:
        return rng.choice([x for x in sorted(NAME) if DIM[x] == d])
    return rng.choice([x for x in sorted(NAME) if x != "none"])


def gen(rng, ob):
    op = rng.choice(["set", "conv", "conv", "conv", "simp", "sel", "sel", "qop", "qop", "pop", "pop", "diff", "int", "dft", "filt"])
    w = rng.choice(["data", "x"])
    if op == "set":
        return {"op": op, "w": w, "u": rng.choice(sorted(NAME)), "via": rng.randrange(2)}
    if op == "conv":
        return {"op": op, "w": w, "u": pick(rng, (ob["d"] if w == "data" else ob["x"])["u"]), "via": 0}
    if op == "sel":
        u = pick(rng, ob["x"]["u"], 0.1)
        f, o = unit(get_quantity(NAME[u]))[1:]
        xs = sorted({Fr(*b) for b in ob["x"]["base"]})
        gap = min([b - a for a, b in zip(xs, xs[1:])] or [Fr(1)])
        out = []
        for _ in range(2):
            # in the middle between labels; boundaries are C03's and C05's
            b = rng.choice(xs) + rng.choice([-1, 1]) * gap * Fr(2, 5)
            v = Fr(float((b - o) / f)).limit_denominator(40)
            back = v * f + o
            ok = all(abs(back - x) > gap / 10 for x in xs)
            out.append([{"u": u, "v": [v.numerator, v.denominator]}] if ok and rng.random() < 0.8 else [])
        if out[0] and out[1] and Fr(*out[0][0]["v"]) > Fr(*out[1][0]["v"]):
            out = out[::-1]
        if not (out[0] or out[1]):
            return {"op": "simp"}
        return {"op": op, "lo": out[0], "hi": out[1]}
    if op == "qop":
        if ob["d"]["u"]["none"]:
            return {"op": "conv", "w": "x", "u": pick(rng, ob["x"]["u"]), "via": 0}
        mult = [x for x in sorted(NAME) if x not in ("none", "degC", "degF", "tenm")]
        f = rng.choice(["add", "sub", "mul", "div", "gt", "le"])
        u = pick(rng, ob["d"]["u"], 0.15) if f not in ("mul", "div") else rng.choice(mult)
        if u not in mult or ob["d"]["u"]["o"][0]:
            return {"op": "conv", "w": "data", "u": pick(rng, ob["d"]["u"]), "via": 0}
        v = rng.choice([1, 2, 3, 5]) if f in ("mul", "div") else rng.choice([1, 2, 3, 7])
        return {"op": op, "f": f, "u": u, "v": [v, 1], "via": rng.randrange(2)}
    if op == "pop":
        f = rng.choice(["add", "sub", "mul", "gt", "le"])
        if ob["d"]["u"]["o"][0]:
            f = "le"
        return {"op": op, "f": f, "xu": pick(rng, ob["x"]["u"], 0.1) if not ob["x"]["u"]["none"] else "none"}
    if op == "filt":
        to = rng.choice(["s", "m", "ms", "min"])
        d = rng.choice(["T", "F"]) if to != "m" else rng.choice(["L", "L", "F"])
        u = rng.choice([x for x in sorted(NAME) if DIM[x] == d and x != "tenm" and (to, x) != ("ms", "h")])
        a, b = sorted(rng.sample([1, 2, 4, 5, 8, 10], 2))
        lo, hi = ([[a, 1]] if rng.random() < 0.8 else []), ([[b, 1]] if rng.random() < 0.8 else [])
        if not (lo or hi):
            lo = [[a, 1]]
        return {"op": op, "lo": lo, "hi": hi, "u": u, "to": to}
    return {"op": op}


def as_quantity(name, v):
    q = get_quantity(NAME[name])
    return q.__class__(v[0] / v[1] * q.magnitude, q.units)


def execute(patch, o, rng):
    none = {"u": unit(None)[0], "raw": [], "base": []}
    empty = {"d": none, "x": none, "n": 0, "m": 0}
    ev = {"o": o, "err": "", "obs": empty, "back": empty, "out": [], "keep": 0}
    op = o["op"]
    try:
        if op == "set":
            u = arg(rng, o["u"])
            if o["w"] == "data":
                out = patch.set_units(u) if o["via"] else patch.update_attrs(data_units=u)
            else:
                out = patch.set_units(x=u)
        elif op == "conv":
            u = arg(rng, o["u"])
            out = patch.convert_units(u) if o["w"] == "data" else patch.convert_units(x=u)
        elif op == "simp":
            out = patch.simplify_units()
        elif op == "sel":
            lim = [None if not v else as_quantity(v[0]["u"], v[0]["v"]) for v in (o["lo"], o["hi"])]
            out = patch.select(x=tuple(lim))
        elif op == "qop":
            q = (o["v"][0] / o["v"][1]) * get_quantity(NAME[o["u"]])
            if o["via"]:
                fun = {"add": np.add, "sub": np.subtract, "mul": np.multiply, "div": np.divide, "gt": np.greater, "le": np.less_equal}[o["f"]]
                out = fun(patch, q)
            else:
                out = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "div": lambda a, b: a / b,
                       "gt": lambda a, b: a > b, "le": lambda a, b: a <= b}[o["f"]](patch, q)
        elif op == "pop":
            other = patch
            if o["xu"] != "none" and patch.get_coord("x").units is not None:
                try:
                    other = patch.convert_units(x=NAME[o["xu"]])
                except Exception:
                    other = patch.set_units(x=NAME[o["xu"]]).set_units(patch.attrs.data_units)
            out = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "gt": lambda a, b: a > b, "le": lambda a, b: a <= b}[o["f"]](patch, other)
        elif op == "diff":
            out = patch.differentiate("x")
        elif op == "int":
            out = patch.integrate("x", definite=True)
        elif op == "dft":
            out = patch.dft("x")
            back = out.idft()
            ev["back"] = proj(back.new(data=np.round(back.data.real, 7)))
            ev["obs"] = {"d": {**none, "u": unit(out.attrs.data_units)[0]}, "x": {**none, "u": unit(out.get_coord("ft_x").units)[0]}, "n": 0, "m": 0}
            return ev, None
        elif op == "filt":
            uq = get_quantity(NAME[o["u"]])
            lim = [v[0][0] / v[0][1] * uq if v else None for v in (o["lo"], o["hi"])]
            r = get_filter_units(*lim, to_unit=NAME[o["to"]])
            ev["out"] = [[] if v is None else [rat(v, 10**7)] for v in r]
            return ev, None
        else:
            raise ValueError(op)
    except Exception as exc:
        ev["err"] = type(exc).__name__
        ev["msg"] = str(exc)[:200]
        return ev, None
    ev["obs"] = proj(out)
    return ev, out


def run(seed, nops=4, beh=None):
    rng = random.Random(seed)
    patch = make(rng, beh)
    ob = proj(patch)
    tr = {"init": ob, "ev": []}
    where = rng.choice(["data", "x"])
    todo = [{**{"u": "none"}, **x, **({"w": where, "via": 0} if x["op"] != "simp" else {})} for x in beh["ops"]] if beh else [None] * rng.randint(1, nops)
    for o in todo:
        if not sane(ob):
            break
        if o is None:
            o = gen(rng, ob)
            if o["op"] in ("diff", "int", "dft") and (len(patch.get_coord("x")) < 2 + (o["op"] == "diff") or ob["d"]["u"]["o"][0] or ob["x"]["u"]["o"][0]):
                o = {"op": "simp"}
            if o["op"] == "dft" and (not patch.get_coord("x").evenly_sampled or any(v[1] > 1 for v in ob["d"]["raw"])):
                o = {"op": "int"}
            if o["op"] in ("diff", "int") and not (patch.get_coord("x").sorted or patch.get_coord("x").reverse_sorted):
                o = {"op": "simp"}
        ev, out = execute(patch, o, rng)
        if o["op"] not in ("dft", "filt") and not ev["err"] and any(BAD in q[k] for q in (ev["obs"]["d"], ev["obs"]["x"]) for k in ("raw", "base")):
            break       # numbers too wild to be compared exactly
        tr["ev"].append(ev)
        if out is not None and o["op"] in ("set", "conv", "simp", "sel", "qop", "pop") and "x" in out.dims and not np.issubdtype(out.data.dtype, np.bool_):
            ev["keep"] = 1
            patch, ob = out, ev["obs"]
    return tr

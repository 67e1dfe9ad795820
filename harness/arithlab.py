"""Element-wise, reducing, rolling and combining operations on patches."""
from __future__ import annotations

import random

import numpy as np

import dascore as dc
from dascore.core.coords import get_coord
from dascore.utils.patch import concatenate_patches, stack_patches

from . import patchlab as pl
from .enc import NULL, OFF, dec_array, kind_of, proj

UF2 = {"add": np.add, "sub": np.subtract, "mul": np.multiply, "max": np.maximum, "min": np.minimum, "gt": np.greater,
       "ge": np.greater_equal, "lt": np.less, "le": np.less_equal, "fdiv": np.floor_divide, "mod": np.mod}
UF1 = {"neg": np.negative, "abs": np.abs, "sq": np.square, "isnan": np.isnan}
OPR = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "gt": lambda a, b: a > b,
       "lt": lambda a, b: a < b, "fdiv": lambda a, b: a // b, "mod": lambda a, b: a % b}
METH = {"add": "add", "sub": "subtract", "mul": "multiply", "max": "maximum", "min": "minimum"}
BOOL = ("gt", "ge", "lt", "le", "isnan")
LIM = 400_000


def is_null(v):
    return bool(v) and all(x == NULL for x in v)


def build(spec, dtype="float64", attrs=None):
    """Like patchlab.build, but null dimensions have no labels at all."""
    dims, kinds = spec["dims"], spec.get("kinds", {})
    coords = {}
    for name, c in spec["coords"].items():
        arr = dec_array(c["v"], kinds.get(name, "f")) if not is_null(c["v"]) else None
        if name in dims:
            coords[name] = get_coord(shape=(len(c["v"]),)) if arr is None else arr
        elif arr is not None:
            if len(c["d"]) > 1:
                arr = arr.reshape([len(spec["coords"][d]["v"]) for d in c["d"]])
            coords[name] = (tuple(c["d"]) if c["d"] else None, arr)
    data = np.array([np.nan if x == NULL else x for x in spec["data"]], dtype="float64")
    if not np.isnan(data).any():
        data = data.astype(dtype)
    data = data.reshape([len(spec["coords"][d]["v"]) for d in dims])
    return dc.Patch(data=data, coords=coords, dims=tuple(dims), attrs=attrs or {})


def values(rng, size, nulls=0.0, scale=1, lo=-9, hi=60):
    v = [scale * rng.randint(lo, hi) for _ in range(size)]
    return [NULL if rng.random() < nulls else x for x in v]


def make(rng, ndim=None, maxlen=4, nulls=None, scale=1, styles=None):
    """A random abstract patch."""
    spec = pl.make_spec(rng, ndim=ndim, maxlen=maxlen, styles=styles)
    if nulls is None:
        nulls = rng.choice([0, 0, 0.2])
    spec["data"] = values(rng, len(spec["data"]), nulls, scale)
    return spec


def relabel(rng, v, kind, how=None):
    """Labels overlapping v in various ways."""
    how = how or rng.choice(["same", "same", "rev", "shuffle", "sub", "shift", "extend", "disjoint", "one", "null1", "nulln"])
    g = 1000 if kind == "i" else 500
    n = len(v)
    step = (v[1] - v[0]) if n > 1 else g
    if how == "rev":
        return v[::-1]
    if how == "shuffle":
        w = list(v)
        rng.shuffle(w)
        return w
    if how == "sub" and n > 1:
        k = sorted(rng.sample(range(n), rng.randint(1, n - 1)))
        return [v[i] for i in k]
    if how == "shift":
        s = step * rng.choice([-2, -1, 1, 2])
        w = [x + s for x in v]
        return w if min(w) >= 0 or kind != "dt" else v
    if how == "extend":
        top = max(v)
        return v + [top + g * (i + 1) for i in range(rng.randint(1, 2))]
    if how == "disjoint":
        return [x + 70_000_000 for x in v]
    if how == "one":
        return [rng.choice(v)]
    if how == "null1":
        return [NULL]
    if how == "nulln":
        return [NULL] * n
    return list(v)


def other_for(rng, patch, p, kinds, positive=False, scale=1, nulls=None, inner=False):
    """An operand related to p."""
    dims = list(p["dims"])
    keep = dims if rng.random() < 0.6 else rng.sample(dims, rng.randint(1, len(dims)))
    qd = list(keep)
    if rng.random() < 0.3:
        rng.shuffle(qd)
    coords, ck = {}, {}
    size = int(np.prod([len(p["coords"][d]["v"]) for d in dims]))
    mild = rng.random() < 0.35
    for d in qd:
        v = p["coords"][d]["v"]
        ck[d] = kinds[d]
        if is_null(v):
            r = rng.random()
            v2 = list(v) if r < 0.4 or inner else ([NULL] if r < 0.6 else [1000 * (i + 3) for i in range(len(v) if r < 0.9 or len(v) > 1 else 3)])
            if v2 and v2[0] != NULL and kinds[d] not in ("dt", "td", "i", "f"):
                ck[d] = "f"
        else:
            v2 = relabel(rng, v, kinds[d], "same" if mild else None)
        coords[d] = {"d": [d], "v": v2}
    if not inner and rng.random() < 0.25 and size < 30 and len(dims) < 4:
        nd = next(x for x in ("newdim", "extra", "third", "fourth") if x not in dims)
        ck[nd] = "f"
        coords[nd] = {"d": [nd], "v": [500 * i for i in range(rng.randint(1, 3))] if rng.random() < 0.8 else [NULL]}
        qd.insert(rng.randint(0, len(qd)), nd)
    # related coordinates: a function of the label, or new ones
    for n, c in p["coords"].items():
        if n in dims or not c["d"] or not set(c["d"]) <= set(qd) or len(c["d"]) > 1:
            continue
        if rng.random() < 0.6:
            base = dict(zip(p["coords"][c["d"][0]]["v"], c["v"]))
            w = coords[c["d"][0]]["v"]
            if is_null(p["coords"][c["d"][0]]["v"]) or is_null(w):
                continue
            top = max(c["v"])
            ck[n] = kinds[n]
            coords[n] = {"d": list(c["d"]), "v": [base.get(x, top + 1000 * (i + 1)) for i, x in enumerate(w)]}
            if rng.random() < 0.1:
                coords[n]["v"] = [x + 1000 for x in coords[n]["v"]]
    if rng.random() < 0.25:
        d = rng.choice(qd)
        if not is_null(coords[d]["v"]):
            ck["qaux"] = "f"
            coords["qaux"] = {"d": [d], "v": [1000 * x for x in rng.sample(range(50), len(coords[d]["v"]))]}
    sz = int(np.prod([len(coords[d]["v"]) for d in qd]))
    data = values(rng, sz, (rng.choice([0, 0, 0.2]) if nulls is None else nulls), scale, 1 if positive else -9, 9 if positive else 60)
    return {"dims": qd, "coords": coords, "data": data, "kinds": ck}


def strip(spec):
    return {k: v for k, v in spec.items() if k != "kinds"}


# ------------------------------------------------------------------- generators

def kinds_of(patch):
    return pl.coord_kinds(patch)


def gen_bin(rng, patch, p):
    """A binary operation, array operation, unary operation or where."""
    kinds = kinds_of(patch)
    r = rng.random()
    big = max([abs(x) for x in p["data"] if x != NULL] or [0]) > LIM
    if r < 0.1:
        return {"op": "un", "f": rng.choice(["neg", "abs", "isnan"] + ([] if big else ["sq"])), "via": rng.randrange(3)}
    f = rng.choice([x for x in UF2 if not (big and x == "mul")])
    pos = f in ("fdiv", "mod")
    if r < 0.3:
        return gen_arr(rng, p, f, pos)
    if r < 0.45:
        q = other_for(rng, patch, p, kinds, nulls=0, inner=True)
        q["data"] = [int(x % 3 > 0) for x in q["data"]]
        s = [other_for(rng, patch, p, kinds, inner=True)] if rng.random() < 0.4 else []
        return {"op": "where", "q": q, "s": s, "x": rng.choice([NULL, 0, -7])}
    return {"op": "bin", "f": f, "q": other_for(rng, patch, p, kinds, pos), "via": rng.randrange(3),
            "conflict": int(rng.random() < 0.05)}


def gen_arr(rng, p, f, pos):
    sh = [len(p["coords"][d]["v"]) for d in p["dims"]]
    k = rng.randint(0, len(sh))
    ash = list(sh[len(sh) - k:])
    for i in range(len(ash)):
        x = rng.random()
        if x < 0.2:
            ash[i] = 1
        elif x < 0.3 and sh[len(sh) - k + i] == 1:
            ash[i] = rng.randint(2, 3)
    if rng.random() < 0.05:
        ash = [rng.choice([1, 2])] * (len(sh) + 1)
    if rng.random() < 0.05 and ash:
        ash[-1] = ash[-1] + 1
    n = int(np.prod(ash)) if ash else 1
    rev = int(rng.random() < 0.4)
    if pos and rev:
        rev = 0
    return {"op": "arr", "f": f, "b": {"shape": ash, "v": values(rng, n, 0, 1, 1 if pos else -9, 9)}, "rev": rev,
            "via": rng.randrange(4), "ty": rng.choice(["f", "f", "i"])}


def _lanes_ok(p, ds, scale_needed):
    return all(x == NULL or x % scale_needed == 0 for x in p["data"])


def gen_agg(rng, patch, p):
    """A reduction, accumulation or rolling operation."""
    kinds = kinds_of(patch)
    dims = list(p["dims"])
    r = rng.random()
    big = max([abs(x) for x in p["data"] if x != NULL] or [0]) > 10 * LIM
    if r < 0.55:
        via = rng.choice(["agg", "agg", "meth", "meth", "ufunc", "npfunc", "bound"])
        ds = rng.sample(dims, rng.randint(1, len(dims)))
        fs = ["min", "max"] + ([] if big else ["sum"])
        skip = int(via in ("agg", "meth"))
        if via in ("agg", "meth"):
            fs += ["first", "last"]
        if via != "ufunc" and via != "bound" and _lanes_ok(p, ds, 60 ** len(ds)):
            fs += ["mean", "median"] * 2
        f = rng.choice(fs)
        how = "empty"
        if via in ("agg", "meth"):
            how = rng.choice(["empty", "empty", "squeeze", "min", "max", "first", "last", "mean", "median"])
            if how == "squeeze" and len(ds) == len(dims) and rng.random() < 0.8:
                ds = ds[:-1] or ds
                how = how if len(dims) > len(ds) else "empty"
            if how in ("mean", "median") and not all(_divisible(p["coords"][d]["v"], how) for d in ds):
                how = "min"
            if any(is_null(p["coords"][d]["v"]) for d in ds) and how not in ("empty", "squeeze"):
                how = "empty"
        if via == "npfunc" and f == "median":
            ds = ds[:1]
        o = {"op": "agg", "ds": ds, "f": f, "how": how, "skip": skip, "via": via, "all": 0, "form": rng.randrange(2)}
        if set(ds) == set(dims) and (f not in ("first", "last", "median", "mean") or not skip) and rng.random() < 0.6:
            o["all"], o["ds"] = 1, dims
        return o
    if r < 0.65:
        return {"op": "acc", "d": rng.choice(dims), "f": rng.choice(["sum", "max", "min"] if not big else ["max", "min"]),
                "via": rng.randrange(3)}
    cand = [d for d in dims if len(p["coords"][d]["v"]) > 1 and patch.get_coord(d).evenly_sampled]
    if not cand:
        return {"op": "acc", "d": rng.choice(dims), "f": "max", "via": 0}
    d = rng.choice(cand)
    n = len(p["coords"][d]["v"])
    fs = ["min", "max"] + ([] if big else ["sum"]) + (["mean", "median"] * 2 if _lanes_ok(p, [d], 60) else [])
    w = rng.randint(1, min(n, 6))
    return {"op": "roll", "d": d, "f": rng.choice(fs), "w": w, "step": rng.choice([1, 1, 2, 3, n]), "center": rng.randint(0, 1),
            "engine": rng.choice(["numpy", "pandas", ""]), "apply": int(rng.random() < 0.25)}


def _divisible(v, how):
    n = len(v)
    if how == "mean":
        return sum(v) % n == 0
    w = sorted(v)
    return n % 2 == 1 or (w[n // 2 - 1] + w[n // 2]) % 2 == 0


def gen_cat(rng, patch, p):
    """Concatenation or stacking of patches similar to p."""
    kinds = kinds_of(patch)
    dims = list(p["dims"])
    op = rng.choice(["cat", "cat", "stack"])
    new = op == "cat" and rng.random() < 0.3
    d = "newdim" if new else rng.choice(dims)
    if op == "stack" and rng.random() < 0.4:
        d = ""
    ps = []
    for i in range(rng.randint(1, 4)):
        coords, ck = {}, dict(kinds)
        same = new or d == "" or i == 0 or rng.random() < 0.15
        for n, c in p["coords"].items():
            v = list(c["v"])
            if n == d and i and not same:
                s = rng.choice([0, 500, 1000, 100_000]) if ck[n] != "i" else rng.choice([0, 1000, 100_000])
                k = len(v) if op == "stack" and rng.random() < 0.85 else rng.randint(1, len(v) + 1)
                base = v[: k] if k <= len(v) else v + [max(v) + 1000]
                v = [x + s * i for x in base] if not is_null(v) else [NULL] * k
            coords[n] = {"d": list(c["d"]), "v": v}
        if i and not same:
            changed = len(coords[d]["v"]) != len(p["coords"][d]["v"])
            for n in list(coords):
                if n != d and d in coords[n]["d"]:
                    if changed or rng.random() < 0.3:
                        del coords[n]
                    elif rng.random() < 0.3:
                        coords[n]["v"] = [x + 1000 for x in coords[n]["v"]]
        if i and rng.random() < 0.12:
            od = rng.choice(dims)
            if not is_null(coords[od]["v"]):
                coords[od]["v"] = [x + 1000 for x in coords[od]["v"]]
        if i and rng.random() < 0.05:
            extra = [x for x in coords if x not in dims and x != d]
            if extra:
                del coords[rng.choice(extra)]
        pd = list(dims)
        if i and len(dims) > 1 and rng.random() < 0.04:
            pd = pd[::-1]
        size = int(np.prod([len(coords[x]["v"]) for x in pd]))
        ps.append({"dims": pd, "coords": coords, "data": values(rng, size, rng.choice([0, 0, 0.2])), "kinds": ck})
    return {"op": op, "d": d, "ps": ps, "n": rng.choice([0, 0, 1, 2, 3]) if op == "cat" else 0,
            "check": rng.choice(["raise", "warn", "none"]), "via": rng.randrange(2), "dts": [rng.choice(["float64", "float64", "int64", "float32"]) for _ in ps]}


# --------------------------------------------------------------------- executor

def run_op(patch, o, dt2="float64"):
    op = o["op"]
    if op == "un":
        f = o["f"]
        if o["via"] == 1 and f == "neg":
            return -patch
        if o["via"] == 1 and f == "abs":
            return patch.abs()
        if o["via"] == 1 and f == "isnan":
            return patch.isnan()
        return UF1[f](patch)
    if op == "bin":
        attrs = {"station": "other"} if o["conflict"] else {}
        q = build(o["q"], dt2, attrs=attrs)
        return call2(o["f"], patch, q, o["via"])
    if op == "where":
        q = build(o["q"])
        q = q.new(data=q.data.astype(bool))
        other = build(o["s"][0], dt2) if o["s"] else (np.nan if o["x"] == NULL else o["x"])
        if not o["s"] and o["x"] == NULL:
            return patch.where(q)
        return patch.where(q, other=other)
    if op == "arr":
        b = np.array(o["b"]["v"], dtype="float64" if o["ty"] == "f" else "int64").reshape(o["b"]["shape"])
        if not o["b"]["shape"] and o["via"] % 2:
            b = b.item()
        f = o["f"]
        if o["rev"]:
            if f in OPR and o["via"] < 2 and not isinstance(b, np.ndarray):
                return OPR[f](b, patch)
            return UF2[f](b, patch)
        return call2(f, patch, b, o["via"] % 3)
    if op == "agg":
        return run_agg(patch, o)
    if op == "acc":
        u = {"sum": "add", "max": "max", "min": "min"}[o["f"]]
        if o["via"] == 0:
            return UF2[u].accumulate(patch, axis=patch.dims.index(o["d"]))
        if o["via"] == 1:
            return getattr(patch, METH[u]).accumulate(dim=o["d"])
        if o["f"] == "sum":
            return np.cumsum(patch, axis=patch.dims.index(o["d"]) - patch.ndim)
        return UF2[u].accumulate(patch, axis=patch.dims.index(o["d"]) - patch.ndim)
    if op == "roll":
        kw = {o["d"]: o["w"]}
        if o["step"] > 1:
            kw["step"] = o["step"]
        roll = patch.rolling(**kw, samples=True, center=bool(o["center"]), engine=o["engine"] or None)
        if o["apply"]:
            func = getattr(np, o["f"])
            return roll.apply(func)
        return getattr(roll, o["f"])()
    raise ValueError(op)


def call2(f, a, b, via):
    if via == 0 and f in OPR:
        return OPR[f](a, b)
    if via == 1 and f in METH:
        return getattr(a, METH[f])(b)
    return UF2[f](a, b)


def run_agg(patch, o):
    f, ds, via = o["f"], o["ds"], o["via"]
    ax = tuple(patch.dims.index(d) for d in ds)
    if via in ("agg", "meth"):
        dim = None if o["all"] else (ds[0] if len(ds) == 1 and o["form"] else (list(ds) if o["form"] else tuple(ds)))
        kw = {} if o["how"] == "empty" and o["form"] else {"dim_reduce": o["how"]}
        if via == "agg":
            return patch.aggregate(dim, method=f, **kw)
        return getattr(patch, f)(dim=dim, **kw)
    u = {"sum": "add", "max": "max", "min": "min"}.get(f)
    if via == "ufunc":
        return UF2[u].reduce(patch, axis=None if o["all"] else (ax[0] if len(ax) == 1 else ax))
    if via == "bound":
        dim = ds[0] if len(ds) == 1 and o["form"] else (list(ds) if o["form"] else tuple(ds))
        return getattr(patch, METH[u]).reduce(dim=dim)
    return getattr(np, f)(patch, axis=None if o["all"] else (ax[0] if len(ax) == 1 else ax))


def run_group(o):
    ps = [build(s, dt) for s, dt in zip(o["ps"], o["dts"])]
    check = None if o["check"] == "none" else o["check"]
    if o["op"] == "stack":
        if o["via"]:
            return dc.spool(ps).stack(dim_vary=o["d"] or None, check_behavior=check)
        return stack_patches(ps, dim_vary=o["d"] or None, check_behavior=check)
    kw = {o["d"]: o["n"] or None}
    if o["via"]:
        return list(dc.spool(ps).concatenate(check_behavior=check, **kw))
    return concatenate_patches(ps, check_behavior=check, **kw)


def clean_op(o):
    """The operation as the specification sees it."""
    out = {k: v for k, v in o.items() if k not in ("dts", "kinds")}
    if "q" in out:
        out["q"] = strip(out["q"])
    for k in ("s", "ps"):
        if k in out:
            out[k] = [strip(x) for x in out[k]]
    return out


def execute(patch, o, dt2="float64"):
    """Returns (event, result patch or None)."""
    group = o["op"] in ("cat", "stack")
    none = {"dims": [], "coords": {"x": {"d": [], "v": []}}, "data": []}
    ev = {"o": clean_op(o), "err": "", "obs": none, "outs": [], "keep": 0}
    try:
        if group:
            out = run_group(o)
            if o["op"] == "cat":
                ev["outs"] = [proj(x) for x in out]
            else:
                ev["obs"] = fixstack(proj(out), o, out)
            return ev, None
        out = run_op(patch, o, dt2)
    except Exception as exc:
        ev["err"] = type(exc).__name__
        ev["msg"] = str(exc)[:200]
        return ev, None
    ev["obs"] = proj(out)
    sound = all(np.shape(out.data)[i] == len(ev["obs"]["coords"][d]["v"]) for i, d in enumerate(out.dims)
                if len(out.dims) == np.ndim(out.data))
    if not sound or np.ndim(out.data) != len(out.dims):
        ev["obs"]["data"] = []
    return ev, out


def fixstack(ob, o, out):
    """dim_vary of times starts at zero: 1970 for datetimes."""
    d = o["d"]
    if d and kind_of(out.get_coord(d).dtype) == "dt":
        w = (out.get_array(d) - np.datetime64(0, "ns")).astype("timedelta64[ns]").astype(np.int64)
        ob["coords"][d]["v"] = [int(x // 1_000_000) if x % 1_000_000 == 0 else OFF for x in w]
    return ob


def run(seed, gen, nops, scales=(), **mk):
    rng = random.Random(seed)
    if scales:
        mk = {**mk, "scale": rng.choice(scales), "styles": rng.choice([None, ["even"], ["even", "rev"]])}
    spec = make(rng, **mk)
    dt = rng.choice(["float64", "float64", "int64"])
    patch = build(spec, dt)
    p = proj(patch)
    tr = {"init": p, "ev": []}
    for _ in range(rng.randint(1, nops)):
        o = gen(rng, patch, p)
        ev, out = execute(patch, o, rng.choice(["float64", "int64"]))
        tr["ev"].append(ev)
        if out is None or ev["err"]:
            continue
        obs = ev["obs"]
        ok = (len(obs["data"]) == int(np.prod(out.shape)) and 0 < len(obs["data"]) <= 150 and not any(x == OFF for x in obs["data"])
              and not any(OFF in c["v"] or not c["v"] for c in obs["coords"].values())
              and not np.issubdtype(out.data.dtype, np.bool_)
              and all(is_null(c["v"]) or NULL not in c["v"] for c in obs["coords"].values()))
        if ok and max([abs(x) for x in obs["data"] if x != NULL] or [0]) < 200 * LIM:
            ev["keep"] = 1
            patch, p = out, obs
    return tr


# ---------------------------------------------- pairs generated by the specification

def run_pair(beh, seed, prop):
    """Operations on the operands the specification enumerates."""
    rng = random.Random(seed)
    kinds = {"a": rng.choice(["f", "f", "dt", "td", "i"]), "b": rng.choice(["f", "i"]), "x": "f"}
    p, q = ({**s, "kinds": kinds, "data": list(s["data"])} for s in (beh["p"], beh["q"]))
    if prop == "C19":
        p["data"] = [3600 * x for x in p["data"]]
        rng.shuffle(p["data"])
    patch = build(p, rng.choice(["float64", "int64"]))
    ob = proj(patch)
    tr = {"init": ob, "ev": []}
    ops = []
    if prop == "C18":
        for f in rng.sample(sorted(UF2), 4):
            ops.append({"op": "bin", "f": f, "q": q, "via": rng.randrange(3), "conflict": 0})
        # a condition has to be broadcastable to the patch
        if all(d in p["dims"] and (not is_null(p["coords"][d]["v"]) or p["coords"][d]["v"] == q["coords"][d]["v"]) for d in q["dims"]):
            c = {**q, "data": [int(x // 100 % 3 > 0) for x in q["data"]]}
            ops.append({"op": "where", "q": c, "s": [], "x": rng.choice([NULL, 5])})
            ops.append({"op": "where", "q": c, "s": [q], "x": 0})
        ops.append(gen_arr(rng, ob, "sub", False))
    elif prop == "C19":
        ops = [gen_agg(rng, patch, ob) for _ in range(8)]
    else:
        ops = [gen_cat(rng, patch, ob) for _ in range(4)]
    for o in ops:
        tr["ev"].append(execute(patch, o, rng.choice(["float64", "int64"]))[0])
    return tr

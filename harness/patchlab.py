"""Build concrete patches, generate and execute patch operations."""

from __future__ import annotations

import random
import string

import numpy as np
import pandas as pd

import dascore as dc
from dascore.core.coords import get_coord

from . import enc as E
from .enc import NONE, NULL, dec, dec_array, enc, kind_of, meta, proj

KINDS = ("dt", "td", "f", "i")


def coord_values(rng: random.Random, n, style=None, grid=500, kind="f"):
    """Abstract values of a coordinate of length n."""
    g = 1000 if kind == "i" else grid
    style = style or rng.choice(["even", "even", "even", "rev", "mono", "rmono", "unsorted"])
    start = rng.randrange(-20, 40) * g
    if kind == "dt":
        start = abs(start)
    step = rng.choice([1, 2, 3]) * g
    if style in ("even", "rev") or n <= 2:
        v = [start + i * step for i in range(n)]
        if style in ("rev", "rmono"):
            v = v[::-1]
        return v
    vals = rng.sample(range(0, 4 * n), n)
    v = sorted(start + x * g for x in vals)
    if style == "rmono":
        v = v[::-1]
    elif style == "unsorted":
        rng.shuffle(v)
    return v


def make_spec(rng: random.Random, ndim=None, maxlen=5, aux=True, nonlen=False, dims=None, styles=None,
              kinds=None, even=False, twod=True):
    """A random abstract patch with concretisation kinds."""
    ndim = ndim or rng.choice([1, 2, 2, 2, 3])
    dims = dims or rng.sample(["time", "distance", rng.choice(["depth", "fast_axis", "time_x"])], ndim)
    lens = {d: rng.randint(1, maxlen) for d in dims}
    coords, ck = {}, {}
    for d in dims:
        k = (kinds or {}).get(d) or ("dt" if d == "time" and rng.random() < 0.6 else rng.choice(["f", "f", "i", "td"]))
        ck[d] = k
        st = "even" if even else (rng.choice(styles) if styles else None)
        coords[d] = {"d": [d], "v": coord_values(rng, lens[d], st, kind=k)}
    if aux:
        for i in range(rng.choice([0, 1, 1, 2])):
            d = rng.choice(dims)
            k = rng.choice(["f", "i", "dt", "td"])
            nm = f"aux{i}"
            ck[nm] = k
            coords[nm] = {"d": [d], "v": coord_values(rng, lens[d], kind=k)}
        if twod and ndim >= 2 and rng.random() < 0.4:
            ds = rng.sample(dims, 2)
            n = lens[ds[0]] * lens[ds[1]]
            coords["twod"] = {"d": ds, "v": [1000 * x for x in rng.sample(range(3 * n), n)]}
            ck["twod"] = "f"
        if rng.random() < 0.25:
            coords["free"] = {"d": [], "v": coord_values(rng, rng.randint(2, 4), kind="f")}
            ck["free"] = "f"
    size = int(np.prod([lens[d] for d in dims]))
    return {"dims": list(dims), "coords": coords, "data": list(range(1, size + 1)), "kinds": ck}


def build(spec, dtype="float64", attrs=None):
    """Concrete patch from an abstract one."""
    dims = spec["dims"]
    kinds = spec.get("kinds", {})
    shape = tuple(len(spec["coords"][d]["v"]) for d in dims)
    coords = {}
    for name, c in spec["coords"].items():
        k = kinds.get(name, "f")
        arr = dec_array(c["v"], k)
        if len(c["d"]) > 1:
            arr = arr.reshape([len(spec["coords"][d]["v"]) for d in c["d"]])
        if name in dims:
            coords[name] = arr
        else:
            coords[name] = (tuple(c["d"]) if c["d"] else None, arr)
    data = np.array([np.nan if x == NULL else x for x in spec["data"]], dtype="float64")
    if not any(x == NULL for x in spec["data"]):
        data = data.astype(dtype)
    data = data.reshape(shape)
    return dc.Patch(data=data, coords=coords, dims=tuple(dims), attrs=attrs or {})


# ------------------------------------------------------------------ executor


def _conc(v, kind, form=0):
    """Concrete query value; `form` varies the accepted spelling."""
    if v == NONE:
        return ... if form % 2 else None
    x = dec(v, kind)
    if kind == "dt":
        if form == 1:
            return str(x)
        if form == 2:
            return pd.Timestamp(x)
        return x
    if kind == "td":
        if form == 1:
            return pd.Timedelta(x)
        return x
    if form == 1 and kind == "f":
        return np.float64(x)
    return x


def _rel(v, kind, form=0):
    if v == NONE:
        return ... if form % 2 else None
    if kind in ("dt", "td"):
        if form == 1:
            return np.timedelta64(int(v) * E.NS, "ns")
        if form == 2:
            return v * dc.get_unit("millisecond" if E.NS > 1 else "nanosecond")
        return v * E.NS / 1e9
    return dec(v, kind)


def query_value(patch, q):
    """The concrete kwarg value for a select/order query and flags."""
    coord = patch.coords.coord_map[q["c"]]
    kind = kind_of(coord.dtype) if coord.dtype is not None else "f"
    form = q.get("form", 0)
    m = q["mode"]
    if m in ("range", "rel"):
        f = _conc if m == "range" else _rel
        pair = (f(q["lo"], kind, form), f(q["hi"], kind, form))
        if q.get("slice"):
            return slice(*(None if x is ... else x for x in pair))
        return pair
    if m == "samp":
        if q.get("int"):
            return q["lo"]
        pair = tuple((... if form % 2 else None) if x == NONE else x for x in (q["lo"], q["hi"]))
        if q.get("slice"):
            return slice(*(None if x is ... else x for x in pair))
        return pair
    if m == "vals":
        return dec_array(q["a"], kind)
    if m == "relvals":
        return dec_array(q["a"], "td" if kind == "dt" else kind)
    if m == "mask":
        return np.array(q["a"], dtype=bool)
    if m == "sidx":
        return np.array(q["a"], dtype=np.int64)
    raise ValueError(m)


def apply(patch, o):
    """Apply an abstract operation to a real patch through the public API."""
    op = o["op"]
    if op in ("select", "order"):
        kw = {q["c"]: query_value(patch, q) for q in o["q"]}
        modes = {q["mode"] for q in o["q"]}
        flags = {}
        if modes & {"rel", "relvals"}:
            flags["relative"] = True
        if modes & {"samp", "sidx"}:
            flags["samples"] = True
        if o.get("copy"):
            flags["copy"] = True
        return getattr(patch, op)(**flags, **kw)
    if op == "transpose":
        if o.get("ell"):
            # leading dims given, rest via ...
            k = o["ell"]
            rest = o["dims"][k:]
            if rest == [d for d in patch.dims if d in rest]:
                return patch.transpose(*o["dims"][:k], ...)
        return patch.transpose(*o["dims"])
    if op == "sort":
        return patch.sort_coords(*o["names"], reverse=bool(o["rev"]))
    if op == "snap":
        return patch.snap_coords(*o["names"], reverse=bool(o["rev"]))
    if op == "flip":
        return patch.flip(*o["dims"], flip_coords=bool(o["fc"]))
    if op == "squeeze":
        return patch.squeeze(o["dims"] if o["dims"] else None)
    if op == "append":
        if o.get("empty"):
            return patch.append_dims(o["d"])
        if o.get("n"):
            return patch.append_dims(**{o["d"]: int(o["n"])})
        return patch.append_dims(**{o["d"]: dec_array(o["v"], "f")})
    if op == "rename":
        return patch.rename_coords(**o["m"])
    if op == "setdim":
        return patch.set_dims(**{o["old"]: o["new"]})
    if op == "dropcoords":
        return patch.drop_coords(*o["names"])
    if op == "putcoord":
        arr = dec_array(o["v"], o.get("kind", "f"))
        if len(o["d"]) > 1:
            arr = arr.reshape([patch.coords.coord_map[d].shape[0] for d in o["d"]])
        if o["name"] in patch.dims:
            return patch.update_coords(**{o["name"]: arr})
        return patch.update_coords(**{o["name"]: (tuple(o["d"]) if o["d"] else None, arr)})
    if op == "setlim":
        k = kind_of(patch.get_coord(o["d"]).dtype)
        x = dec(o["x"], ("td" if k == "dt" else k) if o["w"] == "step" else k)
        if k == "dt" and o["w"] != "step" and o.get("form"):
            x = str(x)
        return getattr(patch, o["via"])(**{f"{o['d']}_{o['w']}": x})
    if op == "setattr":
        return patch.update_attrs(**{o["name"]: o["x"]})
    if op == "decimate":
        return patch.decimate(**{o["d"]: o["k"]}, filter_type=None, copy=bool(o.get("copy", 1)))
    if op == "roll":
        return patch.roll(**{o["d"]: o["s"]}, samples=True, update_coord=bool(o["uc"]))
    if op == "pad":
        return patch.pad(**{o["d"]: (o["b"], o["a"])}, samples=True, constant_values=o["fill"],
                         expand_coords=bool(o["ex"]))
    if op == "dropna":
        return patch.dropna(o["d"], how=o["how"])
    if op == "fillna":
        return patch.fillna(o["fill"])
    if op == "noop":
        return patch
    raise ValueError(op)


# ----------------------------------------------------------------- generator


def _one_d(p):
    return [n for n, c in p["coords"].items() if len(c["d"]) == 1]


def _is_null(c):
    return any(x >= NULL or x < -2000000000 for x in c["v"])


def _near(rng, vals, g=250):
    """A query value on, between or outside the coordinate values."""
    if not vals:
        return rng.randrange(-10, 10) * g
    x = rng.choice(vals)
    r = rng.random()
    if r < 0.5:
        return x
    if r < 0.85:
        return x + rng.choice([-3, -2, -1, 1, 2, 3]) * g
    return x + rng.choice([-80, 80]) * 1000


def gen_query(rng, p, name, kind, mode=None):
    c = p["coords"][name]
    v, n = c["v"], len(c["v"])
    g = 250
    modes = ["range", "range", "rel", "samp", "vals", "mask", "sidx", "relvals"]
    mode = mode or rng.choice(modes)
    q = {"c": name, "mode": mode, "form": rng.randrange(3)}
    if mode == "range":
        q["lo"] = NONE if rng.random() < 0.2 else _near(rng, v, g)
        q["hi"] = NONE if rng.random() < 0.2 else _near(rng, v, g)
        if rng.random() < 0.2:
            q["slice"] = 1
    elif mode == "rel":
        span = (max(v) - min(v)) if v else 1000
        pick = lambda: rng.choice([0, g, -g, span, -span, (span // 2) // g * g, -((span // 3) // g * g), span + 1000, -span - 1000])
        q["lo"] = NONE if rng.random() < 0.2 else pick()
        q["hi"] = NONE if rng.random() < 0.2 else pick()
    elif mode == "samp":
        q["lo"] = NONE if rng.random() < 0.25 else rng.randint(-n, n)
        q["hi"] = NONE if rng.random() < 0.25 else rng.randint(-n, n + 2)
        r = rng.random()
        if r < 0.2:
            q["slice"] = 1
        elif r < 0.35 and n:
            i = rng.randint(-n, n - 1)
            q["lo"], q["hi"], q["int"] = i, (NONE if i == -1 else i + 1), 1
    elif mode == "vals":
        k = rng.randint(1, max(1, n))
        a = [rng.choice(v) if v and rng.random() < 0.8 else _near(rng, v, g) for _ in range(k)]
        if kind == "i":
            a = [x // 1000 * 1000 for x in a]
        q["a"] = a
    elif mode == "relvals":
        span = (max(v) - min(v)) if v else 1000
        lo, hi = (min(v), max(v)) if v else (0, 0)
        a = []
        for _ in range(rng.randint(1, max(1, n))):
            x = rng.choice(v) if v else 0
            a.append(x - lo if rng.random() < 0.6 or x == hi else x - hi)
        q["a"] = a
    elif mode == "mask":
        q["a"] = [rng.randint(0, 1) for _ in range(n)]
    elif mode == "sidx":
        q["a"] = [rng.randrange(n + 1) for _ in range(rng.randint(1, n + 1))] if n else [0]
    return q


def coord_kinds(patch):
    out = {}
    for n, c in patch.coords.coord_map.items():
        out[n] = kind_of(c.dtype) if c.dtype is not None else "f"
    return out


def gen_select(rng, patch, p):
    kinds = coord_kinds(patch)
    names = [n for n in p["coords"] if len(p["coords"][n]["d"]) <= 1 and not _is_null(p["coords"][n])]
    if not names:
        return {"op": "noop"}
    if rng.random() < 0.65 or len(names) == 1:
        n = rng.choice(names)
        qs = [gen_query(rng, p, n, kinds[n])]
    else:
        k = rng.choice([2, 2, 3])
        chosen = sorted(rng.sample(names, min(k, len(names))))
        used = [tuple(p["coords"][n]["d"]) for n in chosen]
        share = len(set(used)) < len(used)
        fam = "val" if share else rng.choice(["val", "rel", "samp"])
        mm = {"val": ["range", "range", "vals"], "rel": ["rel", "relvals"], "samp": ["samp", "sidx"]}[fam]
        if fam == "val" and not share:
            mm = mm + ["mask"]
        qs = [gen_query(rng, p, n, kinds[n], rng.choice(mm)) for n in chosen]
    return {"op": "select", "q": qs, "copy": int(rng.random() < 0.2)}


def gen_struct(rng, patch, p, allow=None):
    """A random structural op valid for the current patch."""
    dims = p["dims"]
    oned = [n for n in _one_d(p) if not _is_null(p["coords"][n])]
    good_dims = [d for d in dims if not _is_null(p["coords"][d])]
    ops = allow or ["select", "order", "transpose", "sort", "snap", "flip", "squeeze", "append", "rename",
                    "setdim", "dropcoords", "putcoord", "decimate", "roll", "pad", "dropna", "flipnc",
                    "setlim", "setattr"]
    kinds = coord_kinds(patch)
    for _ in range(20):
        op = rng.choice(ops)
        size = len(p["data"])
        if op == "select":
            return gen_select(rng, patch, p)
        if op == "order":
            cand = [n for n in oned if len(set(p["coords"][n]["v"])) == len(p["coords"][n]["v"]) and p["coords"][n]["v"]]
            if not cand:
                continue
            n = rng.choice(cand)
            v = p["coords"][n]["v"]
            if size > 60:
                a = rng.sample(v, rng.randint(1, len(v)))
            else:
                a = [rng.choice(v) for _ in range(rng.randint(1, len(v)))]
            if rng.random() < 0.5:
                return {"op": "order", "q": [{"c": n, "mode": "vals", "a": a}]}
            idx = [rng.randint(-len(v) + 1, len(v) - 1) for _ in a]
            return {"op": "order", "q": [{"c": n, "mode": "sidx", "a": idx}]}
        if op == "transpose":
            nd = rng.sample(dims, len(dims))
            return {"op": "transpose", "dims": nd, "ell": rng.choice([0, 0, 1])}
        if op in ("sort", "snap"):
            if op == "snap":
                cand = [d for d in good_dims if len(set(p["coords"][d]["v"])) == len(p["coords"][d]["v"]) and len(p["coords"][d]["v"]) > 1]
            else:
                cand = [n for n in oned if len(set(p["coords"][n]["v"])) == len(p["coords"][n]["v"]) and p["coords"][n]["v"]]
            if not cand:
                continue
            k = rng.choice([1, 1, 2])
            names = []
            used = set()
            for n in rng.sample(cand, len(cand)):
                d = p["coords"][n]["d"][0]
                if d in used:
                    continue
                used.add(d)
                names.append(n)
                if len(names) == k:
                    break
            o = {"op": op, "names": names, "rev": int(rng.random() < 0.5)}
            if op == "snap":
                o["tol"] = 1
                o["lossy"] = 1
            return o
        if op == "flip":
            return {"op": "flip", "dims": rng.sample(dims, rng.randint(1, len(dims))), "fc": 1}
        if op == "flipnc":
            return {"op": "flip", "dims": rng.sample(dims, rng.randint(1, len(dims))), "fc": 0}
        if op == "squeeze":
            ones = [d for d in dims if len(p["coords"][d]["v"]) == 1]
            if not ones or len(ones) == len(dims):
                continue
            if rng.random() < 0.4 and all(len(p["coords"][d]["v"]) > 0 for d in dims):
                return {"op": "squeeze", "dims": []}
            return {"op": "squeeze", "dims": rng.sample(ones, rng.randint(1, len(ones)))}
        if op == "append":
            if len(dims) >= 4 or size > 60:
                continue
            nm = "new" + rng.choice(string.ascii_lowercase)
            if nm in p["coords"]:
                continue
            r = rng.random()
            if r < 0.3:
                return {"op": "append", "d": nm, "v": [NULL], "empty": 1}
            if r < 0.5:
                n = rng.randint(1, 3)
                return {"op": "append", "d": nm, "v": [NULL] * n, "n": n}
            return {"op": "append", "d": nm, "v": coord_values(rng, rng.randint(1, 3))}
        if op == "rename":
            names = list(p["coords"])
            k = rng.choice([1, 1, 2])
            olds = rng.sample(names, min(k, len(names)))
            m = {o: f"r{rng.randrange(1000)}{i}" for i, o in enumerate(olds)}
            r = rng.random()
            if r < 0.3 and len(names) > 1:  # swap or rotate names
                olds = rng.sample(names, rng.randint(2, min(3, len(names))))
                m = {a: b for a, b in zip(olds, olds[1:] + olds[:1])}
            elif r < 0.5:  # names which look like those of other coordinates
                a = olds[0]
                new = rng.choice([f"{rng.choice(names)}_x", f"x{rng.choice(names)}", f"fast_{a}"])
                if new in names or len(new) > 30 or any(x.startswith(new) for x in dict(patch.attrs)):
                    continue  # (an attribute with the name of a coordinate attribute is ambiguous)
                m = {a: new}
            return {"op": "rename", "m": m}
        if op == "setdim":
            cand = [(p["coords"][n]["d"][0], n) for n in oned if n not in dims]
            if not cand:
                continue
            old, new = rng.choice(cand)
            return {"op": "setdim", "old": old, "new": new}
        if op == "dropcoords":
            cand = [n for n in p["coords"] if n not in dims]
            if not cand:
                continue
            return {"op": "dropcoords", "names": rng.sample(cand, rng.randint(1, len(cand)))}
        if op == "putcoord":
            r = rng.random()
            if r < 0.4 and good_dims:
                n = rng.choice(good_dims)
                d = [n]
                k = rng.choice(["f", "i", "dt"])
            else:
                n = rng.choice([x for x in ("put0", "put1", "put2", "put3", "put4") if x not in dims])
                d = [rng.choice(dims)] if rng.random() < 0.7 or len(dims) < 2 else rng.sample(dims, 2)
                k = rng.choice(["f", "i", "dt", "td"])
            num = int(np.prod([len(p["coords"][x]["v"]) for x in d]))
            if num == 0:
                continue
            v = coord_values(rng, num, kind=k)
            return {"op": "putcoord", "name": n, "d": d, "v": v, "kind": k}
        if op == "setlim":
            cand = [d for d in good_dims if p["coords"][d]["v"]]
            if not cand:
                continue
            d = rng.choice(cand)
            v, k = p["coords"][d]["v"], kinds[d]
            w = rng.choice(["min", "max", "step"])
            g = 1000 if k == "i" else 500
            if w == "step":
                if not patch.get_coord(d).evenly_sampled or len(v) < 2:
                    continue
                x = rng.choice([1, 2, 3]) * g * (1 if v[1] > v[0] else -1)
                if rng.random() < 0.2:
                    x = -x
                if k == "dt" and v[0] + x * len(v) < 0:
                    continue
            else:
                x = rng.choice(v) // g * g + rng.randint(-2, 4) * g
                if k == "dt":
                    x = abs(x)
            return {"op": "setlim", "d": d, "w": w, "x": x, "via": rng.choice(["update_coords", "update_attrs"]),
                    "form": rng.randint(0, 1)}
        if op == "setattr":
            d = rng.choice(dims)
            base = rng.choice([f"x{d}", f"{d}s", f"{d}_x", f"{d}{d}"])
            if base in p["coords"]:
                continue
            name = f"{base}_{rng.choice(['min', 'max', 'step', 'units', 'x'])}"
            if rng.random() < 0.3:
                name = rng.choice(["tag", "station", "custom"])
            return {"op": "setattr", "name": name, "x": rng.choice(["s", "tag1"])}
        if op == "decimate":
            cand = [d for d in dims if len(p["coords"][d]["v"]) > 0 and
                    (d in good_dims or all(x == NULL for x in p["coords"][d]["v"]))]
            if not cand:
                continue
            d = rng.choice(cand)
            return {"op": "decimate", "d": d, "k": rng.randint(1, len(p["coords"][d]["v"]) + 1), "copy": rng.randint(0, 1)}
        if op == "roll":
            cand = [d for d in good_dims if patch.get_coord(d).evenly_sampled and len(p["coords"][d]["v"]) > 0]
            if not cand:
                continue
            d = rng.choice(cand)
            n = len(p["coords"][d]["v"])
            return {"op": "roll", "d": d, "s": rng.randint(-n - 1, n + 1), "uc": rng.randint(0, 1)}
        if op == "pad":
            cand = [d for d in good_dims if len(p["coords"][d]["v"]) > 1]
            if not cand or size > 60:
                continue
            d = rng.choice(cand)
            return {"op": "pad", "d": d, "b": rng.randint(0, 2), "a": rng.randint(0, 2), "fill": rng.choice([0, -7]),
                    "ex": rng.randint(0, 1)}
        if op == "dropna":
            cand = [d for d in good_dims if len(p["coords"][d]["v"]) > 0]
            if len(dims) < 2 or not cand or not size:
                continue
            return {"op": "dropna", "d": rng.choice(cand), "how": rng.choice(["any", "all"])}
    return {"op": "noop"}


def observe(patch, o, with_meta=True):
    lossy = bool(o.get("lossy"))
    out = {"obs": proj(patch, lossy=lossy)}
    if with_meta and not lossy:
        out["meta"] = meta(patch)
    return out


def errname(exc):
    return type(exc).__name__


def step(patch, o, with_meta=True):
    """Execute one op, returning (event, new patch or None)."""
    try:
        new = apply(patch, o)
        ev = {"o": o, "err": ""}
        ev.update(observe(new, o, with_meta))
        if o["op"] == "setattr":
            ev["kept"] = int(getattr(new.attrs, o["name"], None) == o["x"])
        return ev, new
    except Exception as exc:  # recorded as an observation, judged by the spec
        return {"o": o, "err": errname(exc), "msg": str(exc)[:200]}, None

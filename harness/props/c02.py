"""C02 - operations never change existing objects."""
import copy
import hashlib
import random
from collections import Counter

import numpy as np
import pandas as pd

import dascore as dc

from .. import anyops as ao
from .. import patchlab as pl
from ..enc import digest_coord, digest_patch

TRACE = "TraceHeap"
ASSUMPTIONS = ["observable content = data bytes, dims, coordinates (type, values, units, limits), attributes, spool contents and patches"]


def models(tier):
    n = 4 if tier == "quick" else 5
    return [dict(module="Heap", constants=dict(MaxBuf=n, MaxObj=n, Vals="{0, 1}"),
                 invariants=("Immutable", "NoWriteAlias"), properties=("Stable",))]


def jobs(tier, seed, behs):
    n = 1600 if tier == "quick" else 16000
    return [{"kind": "rand", "seed": f"C02-{seed}-{i}"} for i in range(n)]


def _md(x):
    return hashlib.md5(x if isinstance(x, bytes) else repr(x).encode()).hexdigest()[:12]


def _dig_cm(cm):
    return _md([(n, tuple(cm.dim_map[n]), digest_coord(c)) for n, c in sorted(cm.coord_map.items())] + list(cm.dims))


def _dig_spool(sp):
    df = sp.get_contents().drop(columns=["patch"], errors="ignore")
    df = df[sorted(df.columns)]
    return _md([len(sp), df.to_csv(), [digest_patch(p) for p in sp]])


def _dig_obj(x):
    """Digest of a caller supplied argument."""
    if isinstance(x, np.ndarray):
        return _md(x.tobytes() + repr((x.shape, x.dtype)).encode())
    if isinstance(x, dict):
        return _md([(str(k), _dig_obj(v)) for k, v in x.items()])
    if isinstance(x, list | tuple):
        return _md([_dig_obj(v) for v in x])
    if isinstance(x, pd.DataFrame | pd.Series):
        return _md(x.to_csv())
    if isinstance(x, dc.Patch):
        return digest_patch(x)
    return _md(str(x))


class Pop:
    """The population of observable objects."""

    def __init__(self):
        self.objs = {}
        self.n = 0

    def add(self, kind, obj):
        self.n += 1
        key = f"{kind}{self.n}"
        self.objs[key] = (kind, obj)
        return key

    def pick(self, rng, kind):
        c = [o for k, (kd, o) in self.objs.items() if kd == kind]
        return rng.choice(c) if c else None

    def digest(self, keys=None):
        f = {"patch": digest_patch, "coord": digest_coord, "cm": _dig_cm, "spool": _dig_spool, "arg": _dig_obj, "attrs": lambda a: _md(sorted((k, str(v)) for k, v in a.model_dump().items()))}
        out = {}
        for k in keys if keys is not None else self.objs:
            kd, o = self.objs[k]
            try:
                out[k] = f[kd](o)
            except Exception as e:
                out[k] = "unreadable:" + type(e).__name__
        return out


def coord_op(rng, c):
    v = c.values
    r = rng.randrange(18)
    n = len(v)
    one = np.timedelta64(1, "s") if c.dtype.kind in "mM" else 1
    if r == 0:
        return c.select((v.min(), v.max()))[0]
    if r == 1:
        return c.select(np.array(v[: n // 2 + 1]))[0]
    if r == 2:
        return c.sort(reverse=rng.random() < 0.5)[0]
    if r == 3:
        return c.snap()
    if r == 4:
        return c.update_limits(min=v[0] + one)
    if r == 5:
        return c.update_limits(step=one * 2)
    if r == 6:
        return c.set_units("m" if c.dtype.kind in "fi" else "s")
    if r == 7:
        return c.set_units("m").convert_units("km") if c.dtype.kind in "fi" else c.convert_units("s")
    if r == 8:
        return c[rng.randrange(n):]
    if r == 9:
        return c.order(np.array(v[::-1]))[0]
    if r == 10:
        return c.change_length(n + 1)
    if r == 11:
        return c.get_next_index(v[0])
    if r == 12:
        return c.empty()
    if r == 13:
        return c.reduce_coord(rng.choice(["mean", "empty", "max"]))
    if r == 14:
        return c.update(units="m" if c.dtype.kind in "fi" else "s")
    if r == 15:
        return c.simplify_units()
    if r == 16:
        return c.align_to(c[1:])[0]
    return c.new(units=None)


def cm_op(rng, cm):
    r = rng.randrange(12)
    d = rng.choice(cm.dims)
    c = cm.coord_map[d]
    if r == 0:
        return cm.update(**{d: c.values[::-1]})
    if r == 1:
        return cm.update(extra=(d, np.arange(len(c))))
    if r == 2:
        return cm.sort(d, reverse=True)[0]
    if r == 3:
        return cm.select(**{d: (c.min(), c.max())})[0]
    if r == 4:
        return cm.drop_coords(d)[0]
    if r == 5:
        return cm.rename_coord(**{d: "ren"})
    if r == 6:
        return cm.transpose(*cm.dims[::-1])
    if r == 7:
        return cm.squeeze()
    if r == 8:
        return cm.snap(d)[0]
    if r == 9:
        return cm.set_units(**{d: "m" if c.dtype.kind in "fi" else "s"})
    if r == 10:
        return cm.new(dims=cm.dims)
    return cm.update(**{d: None})


def spool_op(rng, sp, pop):
    r = rng.randrange(12)
    p = sp[0]
    d = rng.choice(p.dims)
    c = p.get_coord(d)
    if r == 0:
        return sp.select(**{d: (c.min(), c.max())})
    if r == 1:
        return sp.sort(d)
    if r == 2:
        return sp[0:1]
    if r == 3:
        return sp[np.array([0])]
    if r == 4:
        return sp.chunk(**{d: None}, conflict=rng.choice(["drop", "keep_first", "raise"]))
    if r == 5:
        step = c.step if c.step is not None else 1
        return sp.chunk(**{d: abs(step) * 3}, keep_partial=True)
    if r == 6:
        return list(sp.split(size=1))[0]
    if r == 7:
        return sp.concatenate(**{d: None}, check_behavior=None)
    if r == 8:
        return sp.stack(dim_vary=d)
    if r == 9:
        return sp.map(lambda x: x.data.sum(), progress=False)
    if r == 10:
        return list(sp)[-1]
    return sp.update()


def with_args(rng, p, pop):
    """Operations which take caller owned arrays, dicts or lists."""
    d = rng.choice(p.dims)
    c = p.get_coord(d)
    n = len(c)
    r = rng.randrange(14)
    arr = np.array(c.values)
    one = np.timedelta64(1, "s") if c.dtype.kind in "mM" else 1

    def use(*xs):
        return [pop.add("arg", x) for x in xs]

    data = np.array(p.data, copy=True)
    if r == 0:
        cd = {k: np.array(p.get_coord(k).values) for k in p.dims}
        at = {"tag": "x", "custom": [1, 2], f"{d}_units": "s" if c.dtype.kind in "mM" else "m"}
        dims = list(p.dims)
        return use(data, cd, at, dims), lambda: dc.Patch(data=data, coords=cd, dims=dims, attrs=at)
    if r == 1:
        return use(arr), lambda: p.update_coords(**{d: arr})
    if r == 2:
        m = np.array([rng.random() < 0.5 for _ in range(n)])
        return use(m), lambda: p.select(**{d: m})
    if r == 3:
        q = arr[rng.sample(range(n), n)]
        return use(q), lambda: p.order(**{d: q})
    if r == 4:
        q = np.array([0, n - 1, 0])
        return use(q), lambda: p.select(**{d: q}, samples=True)
    if r == 5:
        at = {"tag": "new", "station": "b", "coords": {}}
        return use(at), lambda: p.new(attrs=at)
    if r == 6:
        cd = {k: np.array(p.get_coord(k).values) for k in p.dims}
        return use(cd, data), lambda: p.update(data=data, coords=cd)
    if r == 7:
        return use(data), lambda: p + data
    if r == 8:
        lst = [p, p.update_coords(**{d: arr + one * 100})]
        return use(lst), lambda: dc.spool(lst)
    if r == 9:
        df = pd.DataFrame({d: arr, "q": np.arange(n) * 1.0})
        return use(df), lambda: p.coords_from_df(df)
    if r == 10:
        cond = data > 3
        return use(cond), lambda: p.where(cond, other=0)
    if r == 11:
        q = np.linspace(0, 1, n)
        return use(q), lambda: p.interpolate(**{d: q})
    if r == 12:
        ks = {d: (arr.min(), arr.max())}
        return use(ks), lambda: p.select(**ks)
    h = ["a", "b"]
    return use(h), lambda: p.update_attrs(history=h)


def failing(rng, p):
    """Calls expected to raise: they too must leave everything unchanged."""
    d = rng.choice(p.dims)
    r = rng.randrange(8)
    fs = [lambda: p.select(**{d: np.array(["a"])}), lambda: p.update_coords(**{d: np.arange(99)}), lambda: p.rename_coords(nope="a"),
          lambda: p.transpose("nope"), lambda: p.new(data=np.ones((1, 2, 3, 4, 5))), lambda: p.convert_units("m", **{d: "kg"}),
          lambda: p.pad(**{d: "bad"}), lambda: p + np.ones((7, 3, 5))]
    return fs[r]()


def run_job(job, d):
    rng = random.Random(job["seed"])
    pop = Pop()
    even = rng.random() < 0.7
    spec = pl.make_spec(rng, maxlen=rng.choice([4, 8]), even=even)
    p0 = pl.build(spec, dtype=rng.choice(["float64", "float32", "int64"]), attrs={"tag": "a", "history": ["x"]})
    pop.add("patch", p0)
    pop.add("cm", p0.coords)
    pop.add("attrs", p0.attrs)
    for c in list(p0.coords.coord_map.values())[:3]:
        pop.add("coord", c)
    dim = p0.dims[0]
    c = p0.get_coord(dim)
    one = np.timedelta64(1, "s") if c.dtype.kind in "mM" else 1
    try:
        p1 = p0.update_coords(**{dim: c.values + one * (len(c) + 3)})
        pop.add("patch", p1)
        pop.add("spool", dc.spool([p0, p1]))
    except Exception:
        pass
    tr = {"init": pop.digest(), "ev": []}
    for _ in range(rng.randint(3, 8)):
        r = rng.random()
        pre, res, err = [], None, ""
        name = "?"
        try:
            if r < 0.4:
                name = ao.choose(rng)
                res = ao.call(name, rng, pop.pick(rng, "patch"))
            elif r < 0.55:
                name = "args"
                pre, f = with_args(rng, pop.pick(rng, "patch"), pop)
                prekeys = pop.digest(pre)
                res = f()
            elif r < 0.65:
                name = "failing"
                res = failing(rng, pop.pick(rng, "patch"))
            elif r < 0.78:
                name = "coord"
                res = coord_op(rng, pop.pick(rng, "coord"))
            elif r < 0.88:
                name = "cm"
                res = cm_op(rng, pop.pick(rng, "cm"))
            else:
                name = "spool"
                sp = pop.pick(rng, "spool")
                if sp is None:
                    continue
                res = spool_op(rng, sp, pop)
        except ao.Skip:
            continue
        except Exception as exc:
            err = type(exc).__name__
        ev = {"o": {"op": name}, "err": err, "pre": prekeys if name == "args" and pre else {}, "post": pop.digest()}
        tr["ev"].append(ev)
        # publish the result for the following operations
        new = []
        if isinstance(res, dc.Patch) and 0 < res.size < 1500:
            new.append(pop.add("patch", res))
            if rng.random() < 0.5:
                new.append(pop.add("cm", res.coords))
                new.append(pop.add("coord", rng.choice(list(res.coords.coord_map.values()))))
        elif isinstance(res, dc.BaseSpool) and len(res) and len(res) < 20:
            new.append(pop.add("spool", res))
        elif isinstance(res, dc.core.CoordManager):
            new.append(pop.add("cm", res))
        elif isinstance(res, dc.core.coords.BaseCoord):
            if len(res):
                new.append(pop.add("coord", res))
        ev["post"].update(pop.digest(new))
    return tr


def canaries(traces):
    out = []
    for tr in traces:
        if len(tr["ev"]) >= 2:
            c = copy.deepcopy(tr)
            k = sorted(c["init"])[0]
            c["ev"][-1]["post"][k] = "tampered"
            out.append(c)
            c = copy.deepcopy(tr)
            del c["ev"][-1]["post"][k]
            out.append(c)
            break
    return out


def stats(traces):
    return {"operations": dict(Counter(e["o"]["op"] for tr in traces for e in tr["ev"])),
            "raised": dict(Counter(e["o"]["op"] for tr in traces for e in tr["ev"] if e["err"]))}

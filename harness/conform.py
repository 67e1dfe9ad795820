"""Observation of a patch for the conformance specification (ranks, facts)."""
from __future__ import annotations

import numpy as np
import pandas as pd

from .enc import NULL, OFF


def _num(x):
    """A comparable python number, None for null, or OFF marker string."""
    if x is None:
        return None
    if isinstance(x, pd.Timestamp | pd.Timedelta):
        x = x.to_numpy()
    if isinstance(x, np.datetime64 | np.timedelta64):
        if np.isnat(x):
            return None
        u = "datetime64[ns]" if isinstance(x, np.datetime64) else "timedelta64[ns]"
        return int(x.astype(u).astype(np.int64))
    if isinstance(x, bool | np.bool_):
        return int(x)
    if isinstance(x, int | np.integer):
        return int(x)
    if isinstance(x, float | np.floating):
        return None if np.isnan(x) else float(x)
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return _num(x[()])
    if isinstance(x, str):
        return x
    return "?"


def _kind(x):
    if x is None:
        return ""
    if isinstance(x, pd.Timestamp | np.datetime64):
        return "M"
    if isinstance(x, pd.Timedelta | np.timedelta64):
        return "m"
    if isinstance(x, str):
        return "s"
    return "f"


def _ranks(values, extra):
    """Order preserving integer codes for values and extra published scalars."""
    nums = [_num(v) for v in values]
    ext = [_num(v) for v in extra]
    pool = [x for x in nums + ext if x is not None]
    if any(isinstance(x, str) for x in pool):
        uniq = sorted({str(x) for x in pool})
        code = {x: i for i, x in enumerate(uniq)}
        f = lambda x: NULL if x is None else code[str(x)]
        return [f(x) for x in nums], [f(x) for x in ext]
    uniq = sorted(set(pool))
    code, k, prev = {}, -1, None
    for x in uniq:
        if prev is None or not _close(x, prev):
            k += 1
        code[x] = k
        prev = x
    f = lambda x: NULL if x is None else code[x]
    return [f(x) for x in nums], [f(x) for x in ext]


def _close(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return False
    return abs(a - b) <= 1e-9 * max(abs(a), abs(b), 1e-9)


def _units(u):
    return "" if u is None else str(u)


def observe(patch):
    cm = patch.coords
    attrs = patch.attrs
    coords, facts = {}, {}
    asum = attrs.coords
    for name in cm.coord_map:
        c = cm.coord_map[name]
        v = np.asarray(c.values)
        flat = list(v.ravel())
        summ = asum.get(name)
        smin, smax, sstep, su = (summ.min, summ.max, summ.step, summ.units) if summ is not None else (None,) * 4
        r, (mn, mx, amn, amx) = _ranks(flat, [c.min(), c.max(), smin, smax])
        if summ is not None and v.dtype.kind in "mM" and flat:
            # a published bound of the wrong kind (float for a time) is a mismatch
            if _kind(smin) != v.dtype.kind and _num(smin) is not None:
                amn = OFF
            if _kind(smax) != v.dtype.kind and _num(smax) is not None:
                amx = OFF
        _, (st, ast) = _ranks([], [c.step, sstep])
        sd = []
        even = int(bool(c.evenly_sampled))
        if even and len(flat) > 1 and v.ndim == 1:
            step = _num(c.step)
            nums = [_num(x) for x in flat]
            if step and all(x is not None for x in nums):
                # rounding of int64 nanosecond/float arithmetic is allowed
                for a, b in zip(nums, nums[1:]):
                    ratio = (b - a) / step
                    sd.append(int(round(max(-9e8, min(9e8, ratio * 1e6)))))
            elif step == 0:
                sd = [0]
        coords[name] = {"d": list(cm.dim_map[name]), "shape": [int(x) for x in v.shape], "r": r}
        facts[name] = {"min": mn, "max": mx, "amin": amn, "amax": amx, "step": st, "astep": ast, "sd": sd,
                       "even": even, "sorted": int(bool(c.sorted)), "rsorted": int(bool(c.reverse_sorted)),
                       "n": int(len(c)) if v.ndim else 0, "partial": int(len(flat) > 0 and all(x is None for x in map(_num, flat))),
                       "units": _units(c.units), "aunits": _units(su)}
    s = {"dims": list(cm.dims), "coords": coords, "dshape": [int(x) for x in np.shape(patch.data)]}
    m = {"pshape": [int(x) for x in patch.shape], "ndim": int(patch.ndim), "size": int(patch.size),
         "adims": list(attrs.dim_tuple), "pdims": list(patch.dims), "anames": list(asum),
         "cshapes": {n: [int(x) for x in sh] for n, sh in patch.coord_shapes.items()}, "f": facts}
    return {"s": s, "m": m}

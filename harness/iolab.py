"""Describe patches and scan results field by field."""
from __future__ import annotations

import hashlib
import os

import numpy as np
import pandas as pd


def _h(x):
    return hashlib.md5(x if isinstance(x, bytes) else repr(x).encode()).hexdigest()[:10]


def null(x):
    try:
        r = pd.isnull(x)
    except Exception:
        return False
    return bool(np.all(r)) if not isinstance(x, str | list | tuple | dict) else False


def text(x):
    """One attribute or scalar as text, insensitive to container type and precision of time."""
    if x is None or null(x):
        return ""
    if isinstance(x, pd.Timestamp | pd.Timedelta):
        x = x.to_numpy()
    if isinstance(x, np.datetime64 | np.timedelta64):
        unit = "datetime64[ns]" if isinstance(x, np.datetime64) else "timedelta64[ns]"
        return f"{unit}:{int(x.astype(unit).astype(np.int64))}"
    if isinstance(x, bool | np.bool_):
        return str(bool(x))
    if isinstance(x, float | np.floating):
        return f"{float(x):.9g}"
    if isinstance(x, int | np.integer):
        return f"{int(x):.9g}" if abs(int(x)) < 10**15 else str(int(x))
    if isinstance(x, list | tuple | np.ndarray):
        return "[" + ",".join(text(y) for y in list(x)) + "]"
    if isinstance(x, dict):
        return "{" + ",".join(f"{k}:{text(v)}" for k, v in sorted(x.items())) + "}"
    return str(x)


def has_some_null(coord):
    """Some, but not all, labels are missing."""
    if coord.dtype is None or coord.dtype.kind not in "fmMc" or not coord.shape:
        return False
    bad = np.asarray(pd.isnull(coord.values))
    return bool(bad.any() and not bad.all())


def values_digest(coord):
    v = np.asarray(coord.values)
    if v.dtype.kind in "mM":
        v = v.astype("datetime64[ns]" if v.dtype.kind == "M" else "timedelta64[ns]").astype(np.int64)
        return _h(v.tobytes())
    if v.dtype.kind == "f":
        return _h([f"{x:.9g}" for x in v.ravel().tolist()])
    return _h(v.ravel().tolist())


def attr_fields(attrs, history=True):
    out = {}
    for k, v in attrs.model_dump().items():
        if k == "coords" or k == "dims" or k.startswith("_") or k in ("path", "file_format", "file_version"):
            continue
        if k == "history" and not history:
            continue
        t = text(v)
        if t not in ("", "[]"):
            out["a:" + k] = t if len(t) < 24 else _h(t)
    return out


def fields(p):
    """Everything a user can observe on a patch."""
    a = np.asarray(p.data)
    out = {"dims": ",".join(p.dims), "shape": str(a.shape), "dtype": str(a.dtype),
           "data": _h(np.ascontiguousarray(a).tobytes()), "coords": ",".join(sorted(p.coords.coord_map))}
    for n, c in p.coords.coord_map.items():
        part = bool(getattr(c, "_partial", False)) or (c.shape and len(c) == 0)
        allnan = not part and c.dtype is not None and c.dtype.kind in "fmM" and bool(np.all(pd.isnull(c.values)))
        out[f"c:{n}:dims"] = ",".join(p.coords.dim_map[n])
        out[f"c:{n}:shape"] = str(c.shape)
        out[f"c:{n}:units"] = text(c.units)
        if part or allnan:  # dimensions without labels
            out[f"c:{n}:values"] = "none"
            continue
        out[f"c:{n}:dtype"] = str(c.dtype)
        out[f"c:{n}:values"] = values_digest(c)
        if len(c.shape) == 1 and c.shape[0] > 1:
            out[f"c:{n}:step"] = text(c.step)
            out[f"c:{n}:order"] = f"{int(bool(c.sorted))}{int(bool(c.reverse_sorted))}{int(bool(c.evenly_sampled))}"
    out.update(attr_fields(p.attrs))
    return out


def summary(attrs, coords=None):
    """What a scan says about one patch (`coords`: names to report)."""
    out = {"dims": ",".join(attrs.dim_tuple)}
    out.update(attr_fields(attrs, history=False))
    for n, c in attrs.coords.items():
        if coords is not None and n not in coords:
            continue
        for k in ("min", "max", "step", "units"):
            t = text(getattr(c, k))
            if t:
                out[f"c:{n}:{k}"] = t
    return out


def open_files(base):
    """Files under base which this process has open."""
    out = []
    for f in os.listdir("/proc/self/fd"):
        try:
            t = os.readlink("/proc/self/fd/" + f)
        except OSError:
            continue
        if t.startswith(str(base)) and not os.path.isdir(t):
            out.append(os.path.basename(t))
    return sorted(out)

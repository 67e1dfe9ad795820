"""
Projection of real dascore objects onto the abstract state of the specification.

Coordinate values are encoded as integers in milli-units: datetimes as
milliseconds after T0, time deltas as milliseconds, floats/ints times 1000.
Null values become NULL; values which are not on the grid become OFF (so they
can never compare equal to an expected value), unless the lossy encoding
(nearest milli-unit) is requested.
"""

from __future__ import annotations

import hashlib
import math

import numpy as np
import pandas as pd

NULL = 2000000001
OFF = -2000000001
NONE = 2000000002
LIMIT = 2000000000

T0 = np.datetime64("2020-01-01T00:00:00", "ns")
T0_NS = T0.astype(np.int64)
NS = 1_000_000  # nanoseconds per time unit


def set_time_scale(fine=False):
    """Concretise time as milliseconds after 2020 or nanoseconds after 2250."""
    global T0, T0_NS, NS
    T0 = np.datetime64("2250-01-01T00:00:00" if fine else "2020-01-01T00:00:00", "ns")
    T0_NS = T0.astype(np.int64)
    NS = 1 if fine else 1_000_000


def _from_number(x, lossy):
    if x is None or (isinstance(x, float) and math.isnan(x)):
        return NULL
    y = x
    r = round(y)
    if abs(r) >= LIMIT:
        return OFF
    if lossy or abs(y - r) < 1e-5:
        return int(r)
    return OFF


def enc(x, lossy=False) -> int:
    """Encode one coordinate value."""
    if x is None:
        return NULL
    if isinstance(x, str):
        return OFF
    if isinstance(x, pd.Timestamp | pd.Timedelta):
        x = x.to_numpy()
    if isinstance(x, np.datetime64):
        if np.isnat(x):
            return NULL
        ns = int(x.astype("datetime64[ns]").astype(np.int64)) - int(T0_NS)
        return _enc_ns(ns, lossy)
    if isinstance(x, np.timedelta64):
        if np.isnat(x):
            return NULL
        return _enc_ns(int(x.astype("timedelta64[ns]").astype(np.int64)), lossy)
    if isinstance(x, bool | np.bool_):
        return 1000 if x else 0
    try:
        f = float(x)
    except (TypeError, ValueError):
        return OFF
    if math.isnan(f):
        return NULL
    if math.isinf(f):
        return OFF
    return _from_number(f * 1000, lossy)


def _enc_ns(ns, lossy):
    q, r = divmod(ns, NS)
    if r and not lossy:
        return OFF
    if r and r >= NS // 2:
        q += 1
    return int(q) if abs(q) < LIMIT else OFF


def enc_array(a, lossy=False) -> list[int]:
    """Encode an array (flattened row-major)."""
    a = np.asarray(a)
    if a.size == 0:
        return []
    if a.dtype.kind in "mM":
        unit = "datetime64[ns]" if a.dtype.kind == "M" else "timedelta64[ns]"
        b = a.astype(unit)
        nat = np.isnat(b).ravel()
        ns = b.astype(np.int64).ravel()
        off = int(T0_NS) if a.dtype.kind == "M" else 0
        return [NULL if n else _enc_ns(int(v) - off, lossy) for v, n in zip(ns, nat)]
    if a.dtype.kind in "OUS":
        return [enc(x, lossy) for x in a.ravel()]
    if a.dtype.kind == "c":
        return [OFF] * a.size
    return [enc(x, lossy) for x in a.ravel().tolist()]


def enc_data(a, scale=1, lossy=False) -> list[int]:
    """Encode data samples (ids)."""
    a = np.asarray(a)
    out = []
    for x in a.ravel().tolist():
        if isinstance(x, complex):
            out.append(OFF)
        elif isinstance(x, bool):
            out.append(int(x) * scale)
        elif isinstance(x, float) and math.isnan(x):
            out.append(NULL)
        elif isinstance(x, float) and math.isinf(x):
            out.append(OFF)
        elif isinstance(x, int | float):
            out.append(_from_number(x * scale, lossy))
        else:
            out.append(OFF)
    return out


def dec(v, kind):
    """Decode an abstract value to a concrete one of kind dt/td/f/i."""
    if v == NONE:
        return None
    if kind == "dt":
        return np.datetime64("NaT", "ns") if v == NULL else T0 + np.timedelta64(int(v) * NS, "ns")
    if kind == "td":
        return np.timedelta64("NaT", "ns") if v == NULL else np.timedelta64(int(v) * NS, "ns")
    if v == NULL:
        return np.nan
    if kind == "i":
        return int(v // 1000) if v % 1000 == 0 else v / 1000
    return v / 1000


def dec_array(vs, kind):
    """Decode a list."""
    if kind == "dt":
        nat = np.array([v == NULL for v in vs], dtype=bool)
        out = T0 + (np.array([0 if v == NULL else v for v in vs], dtype="int64") * NS).astype("timedelta64[ns]").astype(
            "timedelta64[ns]"
        )
        out = out.astype("datetime64[ns]")
        if nat.any():
            out[nat] = np.datetime64("NaT")
        return out
    if kind == "td":
        return (np.array(vs, dtype="int64") * NS).astype("timedelta64[ns]")
    if kind == "i":
        return np.array([v // 1000 for v in vs], dtype=np.int64)
    return np.array([np.nan if v == NULL else v / 1000 for v in vs], dtype=np.float64)


def kind_of(dtype) -> str:
    k = np.dtype(dtype).kind
    return {"M": "dt", "m": "td", "i": "i", "u": "i"}.get(k, "f")


def proj(patch, lossy=False, data=True, dscale=1):
    """Project a patch onto the abstract patch state."""
    coords = {}
    cm = patch.coords
    for name in cm.coord_map:
        coord = cm.coord_map[name]
        coords[name] = {
            "d": list(cm.dim_map[name]),
            "v": enc_array(coord.values, lossy),
        }
    out = {
        "dims": list(patch.dims),
        "coords": coords,
        "data": enc_data(patch.data, dscale, lossy) if data else [],
    }
    return out


def _step(x, lossy=False):
    try:
        if x is None or pd.isnull(x):
            return NULL
    except (TypeError, ValueError):
        pass
    return enc(x, lossy)


def coord_meta(coord, lossy=False):
    """Published metadata of one coordinate."""
    return {
        "shape": [int(x) for x in coord.shape],
        "n": int(coord.shape[0]) if len(coord.shape) else 0,
        "min": enc(coord.min(), lossy),
        "max": enc(coord.max(), lossy),
        "step": _step(coord.step, lossy),
        "sorted": int(bool(coord.sorted)),
        "rsorted": int(bool(coord.reverse_sorted)),
        "even": int(bool(coord.evenly_sampled)),
        "partial": int(bool(getattr(coord, "_partial", False))),
        "units": str(coord.units) if coord.units is not None else "",
    }


def meta(patch, lossy=False):
    """Published metadata of a patch: real shapes, attrs, coordinate facts."""
    cm = patch.coords
    attrs = patch.attrs
    asum = {}
    for name, summ in attrs.coords.items():
        asum[name] = {
            "min": enc(summ.min, lossy),
            "max": enc(summ.max, lossy),
            "step": _step(summ.step, lossy),
            "units": str(summ.units) if summ.units is not None else "",
        }
    return {
        "shape": [int(x) for x in np.shape(patch.data)],
        "pshape": [int(x) for x in patch.shape],
        "ndim": int(patch.ndim),
        "size": int(patch.size),
        "adims": list(attrs.dim_tuple),
        "asum": asum,
        "cm": {n: coord_meta(cm.coord_map[n], lossy) for n in cm.coord_map},
    }


def _h(h, x):
    h.update(repr(x).encode())


def digest_coord(coord) -> str:
    h = hashlib.md5()
    v = np.ascontiguousarray(coord.values)
    _h(h, (type(coord).__name__, v.dtype.str, v.shape, str(coord.units)))
    h.update(v.tobytes() if v.dtype.kind != "O" else repr(v.tolist()).encode())
    _h(h, (str(coord.min()), str(coord.max()), str(coord.step)))
    return h.hexdigest()[:12]


def digest_patch(patch) -> str:
    """Content digest of everything a user can observe on a patch."""
    h = hashlib.md5()
    data = np.ascontiguousarray(patch.data)
    _h(h, (data.dtype.str, data.shape))
    h.update(data.tobytes())
    _h(h, tuple(patch.dims))
    cm = patch.coords
    for name in sorted(cm.coord_map):
        _h(h, (name, tuple(cm.dim_map[name]), digest_coord(cm.coord_map[name])))
    for k, v in sorted(patch.attrs.model_dump().items()):
        _h(h, (k, str(v)))
    return h.hexdigest()[:12]

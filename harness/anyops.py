"""The public patch operations as a catalogue of randomly parameterised calls."""
from __future__ import annotations

import copy
import pickle
import random

import numpy as np
import pandas as pd

import dascore as dc

from . import patchlab as pl
from .enc import proj


class Skip(Exception):
    """The operation does not apply to this patch."""


def _dim(rng, p, minlen=1):
    c = [d for d in p.dims if len(p.get_coord(d)) >= minlen]
    if not c:
        raise Skip
    return rng.choice(c)


def _even(rng, p, minlen=2, num=False):
    c = [d for d in p.dims if len(p.get_coord(d)) >= minlen and p.get_coord(d).evenly_sampled]
    if num:
        c = [d for d in c if p.get_coord(d).dtype.kind in "fi"]
    if not c:
        raise Skip
    return rng.choice(c)


def _stepsec(coord):
    s = coord.step
    return abs(s / np.timedelta64(1, "s")) if isinstance(s, np.timedelta64) else abs(float(s))


def _struct(rng, p):
    o = pl.gen_struct(rng, p, proj(p, lossy=True))
    return pl.apply(p, o), o["op"]


AGG = ["min", "max", "mean", "median", "std", "sum", "first", "last", "any", "all"]
REDUCE = ["empty", "squeeze", "mean", "min", "max", "first"]


def op_agg(rng, p):
    dim = rng.choice([None, _dim(rng, p), tuple(rng.sample(p.dims, rng.randint(1, len(p.dims))))])
    return getattr(p, rng.choice(AGG))(dim, dim_reduce=rng.choice(REDUCE))


def op_aggregate(rng, p):
    return p.aggregate(_dim(rng, p), method=rng.choice(["mean", np.ptp, np.nanmax]), dim_reduce=rng.choice(REDUCE))


def op_rolling(rng, p):
    d = _even(rng, p, 3)
    n = len(p.get_coord(d))
    w = rng.randint(1, n)
    kw = dict(step=rng.choice([None, 1, 2]), center=rng.random() < 0.5, engine=rng.choice([None, "numpy", "pandas"]), samples=True)
    r = p.rolling(**{d: w}, **kw)
    return getattr(r, rng.choice(["mean", "min", "max", "sum", "std", "median"]))()


def op_units(rng, p):
    r = rng.randrange(5)
    d = rng.choice(list(p.coords.coord_map))
    num = p.coords.coord_map[d].dtype.kind in "fi"
    if r == 0:
        return p.set_units(rng.choice(["m", "strain", "km/s", None]), **({d: rng.choice(["m", "km", "ft"])} if num else {d: "s"}))
    if r == 1:
        return p.set_units("m/s").convert_units("km/s")
    if r == 2 and num:
        return p.set_units(**{d: "m"}).convert_units(**{d: rng.choice(["ft", "km", "cm"])})
    if r == 3:
        return p.set_units("km/ms", **({d: "km"} if num else {})).simplify_units()
    return p.convert_units(rng.choice(["m", "s"]))


def op_update_attrs(rng, p):
    d = _dim(rng, p, 1)
    c = p.get_coord(d)
    r = rng.randrange(6)
    one = np.timedelta64(1, "s") if c.dtype.kind in "mM" else 1
    if r == 0:
        return p.update_attrs(tag="abc", station="st", custom=rng.choice([1, "a", (1, 2)]))
    if r == 1:
        return p.update_attrs(**{f"{d}_min": c.min() + 3 * one})
    if r == 2:
        return p.update_attrs(**{f"{d}_max": c.max() + 3 * one})
    if r == 3:
        return p.update_attrs(**{f"{d}_step": 2 * one})
    if r == 4:
        return p.update_attrs(history=["a", "b"])
    return p.update_attrs(data_units="m", **{f"{d}_units": "s" if c.dtype.kind in "mM" else "km"})


def op_update_coords(rng, p):
    d = _dim(rng, p, 1)
    c = p.get_coord(d)
    one = np.timedelta64(1, "s") if c.dtype.kind in "mM" else 1
    r = rng.randrange(7)
    if r == 0:
        return p.update_coords(**{f"{d}_min": c.min() + one})
    if r == 1:
        return p.update_coords(**{f"{d}_max": c.max() - one})
    if r == 2:
        return p.update_coords(**{f"{d}_step": 3 * one})
    if r == 3:
        return p.update_coords(**{d: c.values[::-1]})
    if r == 4:
        return p.update_coords(**{d: c.values + one})
    if r == 5:
        return p.update_coords(extra=(d, np.random.default_rng(rng.randrange(99)).random(len(c))))
    return p.update_coords(**{d: np.sort(np.random.default_rng(rng.randrange(99)).random(len(c)) * 10)})


def op_new(rng, p):
    r = rng.randrange(6)
    if r == 0:
        return p.new(data=np.asarray(p.data) * 2)
    if r == 1:
        return p.new(attrs={"tag": "new"})
    if r == 2:
        return p.update(coords={d: p.get_coord(d).values for d in p.dims})
    if r == 3:
        return dc.Patch(p)
    if r == 4:
        return dc.Patch(data=p.data, coords=p.coords, dims=p.dims, attrs=p.attrs)
    return p.new(dims=tuple(f"x{i}" for i in range(p.ndim)), coords={f"x{i}": p.get_coord(d) for i, d in enumerate(p.dims)})


def op_arith(rng, p):
    r = rng.randrange(9)
    if r == 0:
        return p + rng.choice([1, 2.5, p])
    if r == 1:
        return 3 - p
    if r == 2:
        return p * np.asarray(p.data)
    if r == 3:
        return -p
    if r == 4:
        return p > 3
    if r == 5:
        d = _dim(rng, p)
        return p - p.mean(d)
    if r == 6:
        d = _dim(rng, p, 2)
        q = p.select(**{d: (1, None)}, samples=True)
        return p + q
    if r == 7:
        return np.add.reduce(p, axis=0)
    return p.add.accumulate(p, axis=0) if hasattr(p.add, "accumulate") else np.exp(p)


def op_numpy(rng, p):
    f = rng.choice([np.abs, np.cos, np.sqrt, np.isnan, np.mean, np.sum, np.max, np.cumsum, np.sign])
    if f in (np.mean, np.sum, np.max, np.cumsum):
        out = f(p, axis=rng.randrange(p.ndim))
    else:
        out = f(p)
    return out


def op_simple(rng, p):
    d = _dim(rng, p, 2)
    f = rng.choice(["abs", "real", "imag", "angle", "conj", "normalize", "standardize", "detrend", "demean", "demedian", "fillna",
                    "full", "exp", "log", "isnan", "T", "drop_private_coords", "hilbert", "envelope", "pipe", "copy", "pickle"])
    if f == "T":
        return p.T
    if f == "fillna":
        return p.fillna(0)
    if f == "full":
        return p.full(3)
    if f == "normalize":
        return p.normalize(d, norm=rng.choice(["l1", "l2", "max", "bit"]))
    if f in ("standardize", "detrend", "demean", "demedian", "hilbert", "envelope"):
        return getattr(p, f)(d)
    if f == "pipe":
        return p.pipe(lambda x: x)
    if f == "copy":
        return copy.deepcopy(p)
    if f == "pickle":
        return pickle.loads(pickle.dumps(p))
    return getattr(p, f)()


def op_where(rng, p):
    cond = rng.choice([p > 2, np.asarray(p.data) > 2])
    return p.where(cond, other=rng.choice([np.nan, 0, p * 2]))


def op_filter(rng, p):
    d = _even(rng, p, 4)
    sec = _stepsec(p.get_coord(d))
    r = rng.randrange(12)
    if r == 0:
        return p.pass_filter(**{d: (None, 0.2 / sec)})
    if r == 1:
        return p.median_filter(**{d: 3}, samples=True)
    if r == 2:
        return p.savgol_filter(1, samples=True, **{d: 3})
    if r == 3:
        return p.gaussian_filter(samples=True, **{d: 2})
    if r == 4:
        return p.sobel_filter(d)
    if r == 5:
        return p.notch_filter(10, **{d: 0.2 / sec})
    if r == 6:
        return p.hampel_filter(samples=True, **{d: 3})
    if r == 7:
        return p.wiener_filter(samples=True, **{d: 3})
    if r == 8:
        return p.taper(**{d: rng.choice([0.2, (0.1, 0.3)])})
    if r == 9:
        c = p.get_coord(d)
        v = c.values
        return p.taper_range(**{d: (v[0], v[1], v[-2], v[-1])})
    if r == 10:
        return p.whiten(**{d: None}) if rng.random() < 0.5 else p.whiten()
    return p.line_mute(**{d: (0, sec)}) if rng.random() < 0.5 else p.slope_filter([0.1, 0.2, 0.3, 0.4], dims=tuple(p.dims[:2]))


def op_fourier(rng, p):
    d = _even(rng, p, 3)
    r = rng.randrange(8)
    if r == 0:
        return p.dft(d, real=rng.choice([None, True]), pad=rng.random() < 0.5)
    if r == 1:
        return p.dft(d, pad=rng.random() < 0.5).idft()
    if r == 2:
        return p.dft(d, real=True, pad=rng.random() < 0.5).idft()
    if r == 3:
        n = len(p.get_coord(d))
        return p.stft(samples=True, **{d: min(n, 4)}, overlap=rng.choice([None, 2]))
    if r == 4:
        n = len(p.get_coord(d))
        return p.stft(samples=True, **{d: min(n, 4)}, overlap=2).istft()
    if r == 5:
        return p.correlate(samples=True, **{rng.choice([x for x in p.dims]): 0})
    if r == 6:
        o = rng.choice([x for x in p.dims if x != d] or [d])
        return p.correlate(samples=True, **{o: 0})
    return p.dft(None)


def op_calc(rng, p):
    d = _even(rng, p, 4)
    r = rng.randrange(9)
    if r == 0:
        return p.differentiate(d, step=rng.choice([1, 2]) if len(p.get_coord(d)) > 6 else 1)
    if r == 1:
        return p.integrate(d, definite=rng.random() < 0.5)
    if r == 2:
        return p.integrate(None, definite=True)
    if r == 3:
        return p.velocity_to_strain_rate(step_multiple=2)
    if r == 4:
        return p.velocity_to_strain_rate_edgeless(step_multiple=rng.choice([1, 2]))
    if r == 5:
        return p.stalta(samples=True, **{d: (2, 4)})
    if r == 6:
        return p.kurtosis(samples=True, **{d: 3})
    if r == 7:
        others = [x for x in p.dims if x != d]
        if not others:
            raise Skip
        return p.phase_weighted_stack(others[0], transform_dim=d)
    return p.radians_to_strain() if rng.random() < 0.5 else p.spectrogram(d)


def op_resample(rng, p):
    d = _even(rng, p, 3)
    c = p.get_coord(d)
    r = rng.randrange(4)
    if r == 0:
        return p.resample(**{d: c.step * rng.choice([2, 0.5]) if c.dtype.kind not in "mM" else (c.step * 2 if rng.random() < 0.5 else c.step / 2)})
    if r == 1:
        return p.resample(samples=True, **{d: rng.randint(2, 2 * len(c))})
    if r == 2:
        return p.decimate(**{d: 2}, filter_type=rng.choice(["iir", "fir", None]))
    v = c.values
    return p.interpolate(**{d: v[1:-1]}) if rng.random() < 0.5 else p.interpolate(**{d: (c.min(), c.max(), abs(c.step) * 2)})


def op_align(rng, p):
    d = _even(rng, p, 4)
    others = [x for x in p.dims if x != d]
    if not others:
        raise Skip
    o = rng.choice(others)
    n = len(p.get_coord(o))
    sh = np.array([rng.randint(0, 2) for _ in range(n)])
    q = p.update_coords(shift=(o, sh))
    return q.align_to_coord(**{d: "shift"}, samples=True, mode=rng.choice(["full", "valid", "same"]), reverse=rng.random() < 0.5)


def op_misc(rng, p):
    r = rng.randrange(6)
    d = _dim(rng, p)
    if r == 0:
        return p.make_broadcastable_to((1,) * rng.randint(0, 1) + tuple(p.shape), drop_coords=rng.random() < 0.3)
    if r == 1:
        c = p.get_coord(d)
        df = pd.DataFrame({d: c.values, "qual": np.arange(len(c)) * 1.0})
        return p.coords_from_df(df)
    if r == 2:
        n = len(p.get_coord(d))
        q = p.update_coords(x=(d, np.arange(n) * 1.0), y=(d, np.arange(n) * 2.0))
        return q.add_distance_to(pd.Series({"x": 1.0, "y": 2.0}))
    if r == 3:
        e = _even(rng, p, 2)
        return p.pad(**{e: rng.choice(["fft", (1, 2)])}, samples=True, expand_coords=rng.random() < 0.5)
    if r == 4:
        e = _even(rng, p, 2)
        return p.roll(**{e: 2}, samples=True, update_coord=rng.random() < 0.5)
    return p.assign_coords(zz=(d, np.arange(len(p.get_coord(d)))))


def op_spool(rng, p):
    d = _even(rng, p, 2)
    c = p.get_coord(d)
    r = rng.randrange(4)
    if r == 0:
        nxt = c.max() + abs(c.step)
        q = p.update_coords(**{d: c.update_limits(min=nxt)})
        return dc.spool([p, q]).chunk(**{d: None})[0]
    if r == 1:
        return dc.spool([p, p.update_coords(**{d: c.values})]).concatenate(**{d: None})[0]
    if r == 2:
        return dc.spool([p, p]).stack(dim_vary=rng.choice([None, d]))
    q = p.transpose(*p.dims)
    return dc.spool([q]).chunk(**{d: abs(c.step) * 2}, keep_partial=True)[-1]


CATALOGUE = {f.__name__[3:]: f for f in (
    op_agg, op_aggregate, op_rolling, op_units, op_update_attrs, op_update_coords, op_new, op_arith, op_numpy, op_simple,
    op_where, op_filter, op_fourier, op_calc, op_resample, op_align, op_misc, op_spool)}
NAMES = sorted(CATALOGUE)


def choose(rng: random.Random):
    if rng.random() < 0.35:
        return "struct"
    return rng.choice(NAMES)


def call(name, rng, patch):
    """Apply one catalogue entry; may raise anything."""
    if name == "struct":
        return _struct(rng, patch)[0]
    return CATALOGUE[name](rng, patch)

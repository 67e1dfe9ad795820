"""C01 - a patch is always consistent with itself."""
import copy
import random
from collections import Counter

import dascore as dc

from .. import anyops as ao
from .. import patchlab as pl
from ..conform import observe
from ..patchprops import beh_jobs, patch_behaviours, patch_models

TRACE = "TraceConform"
ASSUMPTIONS = ["patches of at most 4 dimensions and 12 samples per dimension",
               "coordinates whose values are all null (partial coordinates) publish no min/max/step"]
models = patch_models


def behaviours(tier, seed, scratch):
    return patch_behaviours(tier, seed, scratch, 300)


def jobs(tier, seed, behs):
    n = 2400 if tier == "quick" else 30000
    return beh_jobs(behs) + [{"kind": "rand", "seed": f"C01-{seed}-{i}"} for i in range(n)]


def _ev(name, patch):
    e = {"o": {"op": name}, "err": ""}
    try:
        e.update(observe(patch))
    except Exception as exc:
        # a patch which cannot even be looked at
        e.update({"s": {"dims": ["unobservable"], "coords": {"x": {"d": [], "shape": [], "r": []}}, "dshape": []}, "m": {"e": repr(exc)[:200]}})
    return e


def run_job(job, d):
    tr = {"init": 0, "ev": []}
    if job["kind"] == "beh":
        init = dict(job["init"])
        k = job["k"]
        init["kinds"] = {"time": "dt" if k % 2 else "f", "distance": "i" if k % 3 else "f", "ta": ["f", "dt", "td"][k % 3]}
        patch = pl.build(init)
        for o in job["ops"]:
            try:
                patch = pl.apply(patch, o)
            except Exception as exc:
                tr["ev"].append({"o": {"op": o["op"]}, "err": type(exc).__name__})
                break
            tr["ev"].append(_ev(o["op"], patch))
        return tr
    rng = random.Random(job["seed"])
    even = rng.random() < 0.6
    spec = pl.make_spec(rng, maxlen=rng.choice([3, 6, 12]) if even else rng.choice([3, 6]), even=even)
    patch = pl.build(spec, dtype=rng.choice(["float64", "float32", "int64"]))
    if rng.random() < 0.4:
        names = [n for n in patch.coords.coord_map if patch.coords.coord_map[n].dtype.kind in "fi"]
        patch = patch.set_units(rng.choice(["m", "m/s", None]), **{n: rng.choice(["m", "km", "ft"]) for n in names})
    if rng.random() < 0.3:
        patch = patch.update_attrs(data_type="velocity", tag="t")
    tr["ev"].append(_ev("init", patch))
    for _ in range(rng.randint(2, 6)):
        name = ao.choose(rng)
        try:
            new = ao.call(name, rng, patch)
        except ao.Skip:
            continue
        except Exception as exc:
            tr["ev"].append({"o": {"op": name}, "err": type(exc).__name__})
            continue
        if not isinstance(new, dc.Patch):
            continue
        tr["ev"].append(_ev(name, new))
        if new.size > 1500 or new.size == 0 and rng.random() < 0.7 or new.ndim > 5:
            continue
        patch = new
    return tr


def canaries(traces):
    """Corrupted observations: a wrong min, shape, summary and sortedness."""
    out = []
    def mut(f):
        for tr in traces:
            e = tr["ev"][0] if tr["ev"] else None
            if e and not e["err"] and e["s"]["dims"]:
                d = e["s"]["dims"][0]
                fd = e["m"]["f"].get(d)
                if fd and fd["partial"] == 0 and e["s"]["coords"][d]["r"]:
                    c = copy.deepcopy(tr)
                    c["ev"] = c["ev"][:1]
                    f(c["ev"][0], d)
                    out.append(c)
                    return
    mut(lambda e, d: e["m"]["f"][d].__setitem__("min", e["m"]["f"][d]["min"] + 1))
    mut(lambda e, d: e["m"]["f"][d].__setitem__("aunits", "bogus"))
    mut(lambda e, d: e["s"]["dshape"].__setitem__(0, 77))
    mut(lambda e, d: e["m"]["adims"].append("zz"))
    return out


def stats(traces):
    c = Counter(e["o"]["op"] for tr in traces for e in tr["ev"])
    r = Counter(e["o"]["op"] for tr in traces for e in tr["ev"] if e["err"])
    return {"operations": dict(sorted(c.items())), "raised": dict(sorted(r.items()))}

"""Shared pieces of the properties decided on patch traces."""
from __future__ import annotations

import copy
import random
from collections import Counter

from . import patchlab as pl
from . import tlc
from .enc import NULL, OFF, proj

TRACE = "TracePatch"


def patch_models(tier):
    return [dict(module="PatchMC", constants=dict(MaxOps=2 if tier == "quick" else 3, Inits=1, Emit="FALSE"),
                 invariants=("Conform", "LabelsKept", "NoNewSamples"), view="View")]


def patch_behaviours(tier, seed, scratch, cap=800):
    b = tlc.generate("PatchMC", scratch, num=4 if tier == "quick" else 40, depth=5, seed=seed,
                     constants=dict(MaxOps=4, Inits=1, Emit="TRUE"), invariants=("EmitInv",))
    b.sort(key=lambda x: str(x))
    random.Random(seed).shuffle(b)
    return b[: cap if tier == "quick" else cap * 8]


def beh_jobs(behs):
    return [{"kind": "beh", "init": b["init"], "ops": b["ops"], "k": i} for i, b in enumerate(behs)]


def names_of(o):
    """The coordinates an operation refers to."""
    if o["op"] in ("append", "putcoord"):
        return set(o.get("d", [])) if o["op"] == "putcoord" else set()
    out = {q["c"] for q in o.get("q", [])} | set(o.get("names", [])) | set(o.get("dims", [])) | set(o.get("m", {}))
    return out | {o[k] for k in ("d", "old", "new") if isinstance(o.get(k), str)}


def run_beh(job, with_meta):
    init = dict(job["init"])
    k = job["k"]
    init["kinds"] = {"time": "dt" if k % 2 else "f", "distance": "i" if k % 3 else "f", "ta": ["f", "dt", "td"][k % 3]}
    patch = pl.build(init)
    tr = {"init": proj(patch), "ev": []}
    for o in job["ops"]:
        if not names_of(o) <= set(patch.coords.coord_map):
            break  # the behaviour kept a coordinate which the code (legitimately) dropped
        e, patch = pl.step(patch, o, with_meta=with_meta)
        tr["ev"].append(e)
        if patch is None:
            break
    return tr


def run_random(rng, gen, nops, with_meta, **mk):
    """A random initial patch and nops operations from gen(rng, patch, p)."""
    spec = pl.make_spec(rng, **mk)
    patch = pl.build(spec, dtype=rng.choice(["float64", "float32", "int64"]))
    tr = {"init": proj(patch), "ev": []}
    if with_meta:
        e, patch = pl.step(patch, {"op": "noop"}, True)
        tr["ev"].append(e)
    for _ in range(nops):
        o = gen(rng, patch, proj(patch))
        e, new = pl.step(patch, o, with_meta=with_meta)
        tr["ev"].append(e)
        if new is None:
            break
        patch = new
        if o.get("lossy") and any(x % 250 for c in proj(patch, True, False)["coords"].values() for x in c["v"] if x != NULL):
            break
        if any(OFF in c["v"] for c in proj(patch, data=False)["coords"].values()):
            break  # labels left the grid (snap); nothing more can be said exactly
        if len(tr["ev"][-1]["obs"]["data"]) > 200:
            break
    return tr


def corrupt_data(traces, ops=None, limit=3):
    """Corrupted copies of recorded traces: two samples swapped."""
    out = []
    for tr in traces:
        for k, e in enumerate(tr["ev"]):
            if (ops is None or e["o"]["op"] in ops) and not e["err"] and len(set(e["obs"]["data"])) > 2:
                c = copy.deepcopy(tr)
                dd = c["ev"][k]["obs"]["data"]
                i = next(i for i in range(1, len(dd)) if dd[i] != dd[0])
                dd[0], dd[i] = dd[i], dd[0]
                c["ev"] = c["ev"][: k + 1]
                out.append(c)
                break
        if len(out) >= limit:
            break
    return out


def op_stats(traces):
    c = Counter()
    for tr in traces:
        for e in tr["ev"]:
            o = e["o"]
            if o["op"] == "select":
                for q in o["q"]:
                    c["select:" + q["mode"]] += 1
            else:
                c[o["op"]] += 1
    return {"operations": dict(sorted(c.items()))}

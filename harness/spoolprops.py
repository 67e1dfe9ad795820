"""Shared pieces of the properties decided on spool histories."""
from __future__ import annotations

import copy
import random
from collections import Counter

from . import spoollab as sl
from . import tlc

TRACE = "TraceSpool"
ASSUMPTIONS = ["values lie on a grid exactly representable in the coordinate's dtype; at most 6 sources of at most 6 slices",
               "trailing partial segments of a single sample may be kept or dropped (the test-suite pins dropping)",
               "segments joined across a tolerated gap may be relabelled when snap_coords is set"]


INVARIANTS = ("NoInvention", "OrderedUnique", "LabelsKept", "ContentsTrue", "Tiling", "Disjoint", "Lengths", "Satisfiable",
              "MergeAgain")


def models(tier):
    return [dict(module="SpoolMC", constants=dict(MaxOps=2 if tier == "quick" else 4, Emit="FALSE"),
                 invariants=INVARIANTS, view="View")]


def behaviours(tier, seed, scratch, cap=250, needs=("chunk",)):
    b = tlc.generate("SpoolMC", scratch, num=2 if tier == "quick" else 20, depth=5, seed=seed,
                     constants=dict(MaxOps=4, Emit="TRUE"), invariants=("EmitInv",))
    b = [x for x in b if any(o["op"] in needs for o in x["ops"])]
    b.sort(key=str)
    random.Random(seed).shuffle(b)
    return b[: cap if tier == "quick" else cap * 10]


def beh_jobs(behs):
    return [{"kind": "beh", "beh": b, "k": i} for i, b in enumerate(behs)]


def run_beh(job, d, backend="memory"):
    """Replay a behaviour of SpoolMC with the k-th choice of dimension and dtype."""
    k, beh = job["k"], job["beh"]
    rng = random.Random(k)
    over = [("time", "dt"), ("distance", "f"), ("time", "td"), ("distance", "i")][k % 4 if backend == "memory" else 0]
    w = sl.World(rng, main=over[0], kind=over[1], fine=False, attr="instrument_id", aux=False)
    spool = sl.build(w, beh["init"], backend, d)
    tr = {"init": sl.observe(w, spool), "ev": []}
    for o in beh["ops"]:
        o = dict(o)
        if o["op"] == "select":
            o["q"] = [dict(q, col="tag", val=q["vals"][0].split("|")[0]) if q["on"] == "g" else q for q in o["q"]]
        if o["op"] == "chunk" and w.kind == "i" and o["len"] % 1000 and o["len"] != sl.NONE:
            o["len"], o["ov"] = 2000, 1000
        spool, ev = sl.run_op(w, spool, o, rng)
        tr["ev"].append(ev)
        if spool is None:
            break
    return tr


def canaries(traces):
    """Recorded traces with one sample replaced by its neighbour."""
    out = []
    for tr in traces:
        for k, e in enumerate(tr["ev"]):
            if e["o"]["op"] in ("chunk", "slice", "select", "boolarr") and not e["err"] and any(len(r["id"]) > 1 for r in e["obs"]):
                c = copy.deepcopy(tr)
                r = next(r for r in c["ev"][k]["obs"] if len(r["id"]) > 1)
                r["id"][1] = r["id"][0]
                c["ev"] = c["ev"][: k + 1]
                out.append(c)
                break
        if len(out) >= 3:
            break
    return out


def stats(traces):
    c = Counter()
    for tr in traces:
        for e in tr["ev"]:
            c[e["o"]["op"] + (":error" if e["err"] else "")] += 1
    return {"operations": dict(sorted(c.items()))}

"""Shared pieces of the properties decided on coordinate histories."""
from __future__ import annotations

import copy
from collections import Counter

from . import coordlab as cl
from . import tlc

TRACE = "TraceCoord"


def models(tier):
    q = tier == "quick"
    return [dict(module="CoordMC", constants=dict(MaxN=4 if q else 6, Span=9 if q else 14, MaxOps=2 if q else 3, Emit="FALSE"),
                 invariants=("Represents", "SelectAgrees", "NextAgrees", "Tight", "CountAgrees"), view="View")]


def behaviours(tier, seed, scratch):
    b = tlc.generate("CoordMC", scratch, num=40 if tier == "quick" else 400, depth=6, seed=seed,
                     constants=dict(MaxN=5, Span=12, MaxOps=4, Emit="TRUE"), invariants=("EmitInv",))
    b.sort(key=str)
    return b[:600 if tier == "quick" else 6000]


def stats(traces):
    c = Counter()
    for tr in traces:
        for e in tr["ev"]:
            c[e["o"]["op"] + (":" + e["err"] if e["err"] else "")] += 1
    return {"operations": dict(sorted(c.items()))}


def canaries(traces, ops):
    out = []
    for tr in traces:
        for n, e in enumerate(tr["ev"]):
            if e["o"]["op"] in ops and not e["err"] and len(e["c"].get("v", [])) > 1 and cl.OFF not in e["c"]["v"]:
                c = copy.deepcopy(tr)
                x = c["ev"][n]["c"]
                x["v"] = [v + 10 for v in x["v"]]
                c["ev"] = c["ev"][: n + 1]
                out.append(c)
                break
        if len(out) >= 4:
            break
    return out

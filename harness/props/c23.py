"""C23 - operations which scale, shift or replace samples."""
from __future__ import annotations

import copy
import random
from collections import Counter

from .. import shapelab as sl
from .. import tlc

TRACE = "TraceShaping"
ASSUMPTIONS = ["patches of at most 6 x 3 samples (integers and simple fractions, nulls and infinities), compared as exact rationals after projection with relative tolerance 2e-9",
               "triangular windows; l2 norms, standard deviations and smoothed mutes aren't judged; samples exactly on the line of a slope mute may be muted or not"]


def models(tier):
    return [dict(module="ShapingMC", constants=dict(MaxOps=2, Emit="FALSE", Big="FALSE" if tier == "quick" else "TRUE"),
                 invariants=("Shapes", "ScaleOk", "DetrendOk", "Halves", "AlignOk", "NullsOk", "MedianOk"), timeout=1500)]


def behaviours(tier, seed, scratch):
    b = tlc.generate("ShapingMC", scratch, num=400 if tier == "quick" else 4000, depth=6, seed=seed, constants=dict(MaxOps=4, Emit="TRUE", Big="TRUE"), invariants=("EmitInv",))
    b = sorted({str(x): x for x in b}.items())
    random.Random(seed).shuffle(b)
    return [x for _, x in b[:800 if tier == "quick" else 10000]]


def jobs(tier, seed, behs):
    n = 3000 if tier == "quick" else 40000
    return [{"seed": f"C23-{seed}-{i}"} for i in range(n)] + [{"seed": f"C23b-{seed}-{i}", "beh": b} for i, b in enumerate(behs)]


def run_job(job, d):
    return sl.run(job["seed"], 4, job.get("beh"))


def canaries(traces):
    out, seen = [], set()
    for tr in traces:
        for n, e in enumerate(tr["ev"]):
            op = e["o"]["op"]
            if e["err"]:
                continue
            for what in ("x", "d"):
                c = copy.deepcopy(tr)
                v = c["ev"][n]["obs"][what]
                while v and isinstance(v[0], list):
                    v = v[0]
                if (op, what) in seen or not v or v == sl.BAD or (op in ("taper", "slope") and what == "d"):
                    continue
                v[0] += v[1]
                c["ev"] = c["ev"][: n + 1]
                seen.add((op, what))
                out.append(c)
    return out


def stats(traces):
    c = Counter()
    for tr in traces:
        for e in tr["ev"]:
            c[e["o"]["op"] + (":" + e["err"] if e["err"] else "")] += 1
    return {"operations": dict(sorted(c.items()))}

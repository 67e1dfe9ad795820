"""C20 - units."""
from __future__ import annotations

import copy
import random
from collections import Counter

from .. import tlc
from .. import unitlab as ul

TRACE = "TraceUnits"
ASSUMPTIONS = ["numbers are small rationals (compared exactly after projection with relative tolerance 1e-9)",
               "seventeen units of length, time, temperature, velocity and frequency, among them two with offsets and a multiple of a unit",
               "pint's own arithmetic is trusted"]


def models(tier):
    return [dict(module="UnitsMC", constants=dict(MaxOps=2 if tier == "quick" else 3, Emit="FALSE"),
                 invariants=("Consistent", "Kept", "Direct", "BackAgain", "SimpIdem", "Group"))]


def behaviours(tier, seed, scratch):
    b = tlc.generate("UnitsMC", scratch, num=400 if tier == "quick" else 4000, depth=6, seed=seed, constants=dict(MaxOps=4, Emit="TRUE"), invariants=("EmitInv",))
    b = sorted({str(x): x for x in b}.items())
    random.Random(seed).shuffle(b)
    return [x for _, x in b[:1500 if tier == "quick" else 15000]]


def jobs(tier, seed, behs):
    n = 3000 if tier == "quick" else 40000
    return [{"seed": f"C20-{seed}-{i}"} for i in range(n)] + [{"seed": f"C20b-{seed}-{i}", "beh": b} for i, b in enumerate(behs)]


def run_job(job, d):
    return ul.run(job["seed"], 4, job.get("beh"))


def canaries(traces):
    out, seen = [], set()
    for tr in traces:
        for n, e in enumerate(tr["ev"]):
            op = e["o"]["op"]
            if e["err"] or op in seen or op in ("dft", "filt", "diff"):
                continue
            c = copy.deepcopy(tr)
            b = c["ev"][n]["obs"]["d"]["base"]
            if not b or b[0][1] != 1 or c["ev"][n]["obs"]["d"]["u"]["none"]:
                continue
            b[0][0] += 1
            c["ev"] = c["ev"][: n + 1]
            seen.add(op)
            out.append(c)
    return out


def stats(traces):
    c = Counter()
    for tr in traces:
        for e in tr["ev"]:
            c[e["o"]["op"] + (":" + e["err"] if e["err"] else "")] += 1
    return {"operations": dict(sorted(c.items()))}

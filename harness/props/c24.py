"""C24 - times."""
from __future__ import annotations

import copy
import random
from collections import Counter

from .. import timelab as tl
from .. import tlc

TRACE = "TraceTimes"
ASSUMPTIONS = ["amounts within the range of 64 bit nanoseconds; numbers of seconds which are exact, or exact to the nanosecond, as floats",
               "only conversions the functions document or accept (e.g. no single datetime to a timedelta) are judged"]


def models(tier):
    return [dict(module="TimesMC", constants=dict(MaxOps=3 if tier == "quick" else 5, Emit="FALSE"),
                 invariants=("Kept", "Normal", "Last", "Idem", "Order", "Sums"))]


def behaviours(tier, seed, scratch):
    b = tlc.generate("TimesMC", scratch, num=400 if tier == "quick" else 4000, depth=6, seed=seed, constants=dict(MaxOps=4, Emit="TRUE"), invariants=("EmitInv",))
    b = sorted({str(x): x for x in b}.items())
    random.Random(seed).shuffle(b)
    return [x for _, x in b[:2000 if tier == "quick" else 15000]]


def jobs(tier, seed, behs):
    n = 3000 if tier == "quick" else 40000
    return [{"seed": f"C24-{seed}-{i}"} for i in range(n)] + [{"seed": f"C24b-{seed}-{i}", "beh": b} for i, b in enumerate(behs)]


def run_job(job, d):
    return tl.run(job["seed"], job.get("beh"))


def canaries(traces):
    out, seen = [], set()
    for tr in traces:
        for n, e in enumerate(tr["ev"]):
            key = (e["o"]["op"], e["o"]["f"])
            if e["err"] or key in seen or not e["out"] or e["out"][0]["k"] == "null":
                continue
            c = copy.deepcopy(tr)
            c["ev"][n]["out"][0]["v"][2] += 1
            c["ev"] = [c["ev"][n]]
            seen.add(key)
            out.append(c)
    return out


def stats(traces):
    c = Counter()
    for tr in traces:
        for e in tr["ev"]:
            c[(e["o"]["f"] or e["o"]["op"]) + (":" + e["err"] if e["err"] else "")] += 1
    return {"operations": dict(sorted(c.items()))}

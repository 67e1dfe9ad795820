"""C22 - operations which change the sampling."""
from __future__ import annotations

import copy
import random
from collections import Counter

from .. import samplab as sl
from .. import tlc

TRACE = "TraceSampling"
ASSUMPTIONS = ["patches of at most 6 x 3 samples (integers; fractions after interpolation), compared as exact rationals after projection with relative tolerance 2e-9",
               "fourier coefficients are compared for 1, 2 and 4 samples, where they are exact; other lengths through the inverse transform",
               "resampled values are judged at the original labels (upsampling by a whole factor), for constant data and by their mean",
               "anti-alias filters are not judged"]


def models(tier):
    return [dict(module="SamplingMC", constants=dict(MaxOps=2 if tier == "quick" else 3, Emit="FALSE"),
                 invariants=("Shapes", "KeepsLabels", "PadKeeps", "InterpId", "RollBack", "DftOk", "CorrOk", "Calculus"), timeout=1500)]


def behaviours(tier, seed, scratch):
    b = tlc.generate("SamplingMC", scratch, num=400 if tier == "quick" else 4000, depth=6, seed=seed, constants=dict(MaxOps=4, Emit="TRUE"), invariants=("EmitInv",))
    b = sorted({str(x): x for x in b}.items())
    random.Random(seed).shuffle(b)
    return [x for _, x in b[:800 if tier == "quick" else 10000]]


def jobs(tier, seed, behs):
    n = 3000 if tier == "quick" else 40000
    return [{"seed": f"C22-{seed}-{i}"} for i in range(n)] + [{"seed": f"C22b-{seed}-{i}", "beh": b} for i, b in enumerate(behs)]


def run_job(job, d):
    return sl.run(job["seed"], 4, job.get("beh"))


def canaries(traces):
    out, seen = [], set()
    for tr in traces:
        for n, e in enumerate(tr["ev"]):
            op = e["o"]["op"]
            if e["err"] or op == "resp":
                continue
            for what in ("x", "d"):
                c = copy.deepcopy(tr)
                v = c["ev"][n]["obs"][what]
                while v and isinstance(v[0], list):
                    v = v[0]
                if (op, what) in seen or not v or v == sl.BAD or (what == "d" and op in ("res", "cdiff")) or (what == "x" and op == "integd"):
                    continue
                v[0] += v[1]
                c["ev"] = c["ev"][: n + 1]
                seen.add((op, what))
                out.append(c)
    return out


def stats(traces):
    c = Counter()
    for tr in traces:
        for e in tr["ev"]:
            c[e["o"]["op"] + (":" + e["err"] if e["err"] else "")] += 1
    return {"operations": dict(sorted(c.items()))}

"""C05 - coordinates: an indexer picks exactly the labels of the coordinate returned with it."""
from __future__ import annotations

from .. import coordlab as cl
from .. import coordprops as cp

TRACE = cp.TRACE
ASSUMPTIONS = ["one-dimensional coordinates of at most 11 labels; arrays with a jitter below one per mille of the step are snapped by design",
               "floating labels are compared to a thousandth of a tick"]
models, stats = cp.models, cp.stats
OPS = ("sel", "slice", "sort", "selsamp", "order")


def behaviours(tier, seed, scratch):
    return cp.behaviours(tier, seed, scratch)


def jobs(tier, seed, behs):
    n = 5000 if tier == "quick" else 60000
    return [{"seed": f"C05-{seed}-{i}"} for i in range(n)] + [
        {"seed": f"C05b-{seed}-{i}", "beh": b} for i, b in enumerate(behs)]


def run_job(job, d):
    if "beh" in job:
        return cl.run_beh(job["beh"], job["seed"])
    return cl.run(job["seed"], cl.gen_sel, 7)


def canaries(traces):
    return cp.canaries(traces, OPS)

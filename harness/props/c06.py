"""C06 - coordinates: what a coordinate says of itself follows from its labels."""
from __future__ import annotations

from .. import coordlab as cl
from .. import coordprops as cp

TRACE = cp.TRACE
ASSUMPTIONS = ["one-dimensional coordinates of at most 14 labels; update_limits with min and max together is not judged",
               "indices out of bounds (allow_out_of_bounds) are not judged"]
models, stats = cp.models, cp.stats


def behaviours(tier, seed, scratch):
    return cp.behaviours(tier, seed, scratch)


def jobs(tier, seed, behs):
    n = 5000 if tier == "quick" else 60000
    return [{"seed": f"C06-{seed}-{i}"} for i in range(n)] + [
        {"seed": f"C06b-{seed}-{i}", "beh": b} for i, b in enumerate(behs)]


def run_job(job, d):
    if "beh" in job:
        return cl.run_beh(job["beh"], job["seed"])
    return cl.run(job["seed"], cl.gen_meta, 7)


def canaries(traces):
    return cp.canaries(traces, ("limits", "chlen", "make"))

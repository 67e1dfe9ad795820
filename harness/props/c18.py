"""C18 - binary operations."""
from __future__ import annotations

from .. import arithlab as al
from .. import arithprops as ap

TRACE = ap.TRACE
ASSUMPTIONS = ["patches of at most 4 dimensions and 64 samples; integer-valued data",
               "operands whose associated coordinates conflict, whose labels repeat or whose dimensions are empty may be refused",
               "where() is judged for conditions and alternatives which are broadcastable to the patch"]
stats = ap.stats
OPS = "bin,arr,un,where".split(",")


def models(tier):
    return ap.models(tier, True, ap.PAIR_INV)


def behaviours(tier, seed, scratch):
    return ap.behaviours(tier, seed, scratch, True)


def jobs(tier, seed, behs):
    n = 3000 if tier == "quick" else 40000
    return [{"seed": f"C18-{seed}-{i}"} for i in range(n)] + [
        {"seed": f"C18b-{seed}-{i}", "beh": b} for i, b in enumerate(behs)]


def run_job(job, d):
    if "beh" in job:
        return al.run_pair(job["beh"], job["seed"], "C18")
    return al.run(job["seed"], al.gen_bin, 4)


def canaries(traces):
    return ap.canaries(traces, OPS)

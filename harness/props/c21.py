"""C21 - combining operations."""
from __future__ import annotations

from .. import arithlab as al
from .. import arithprops as ap

TRACE = ap.TRACE
ASSUMPTIONS = ["groups of at most 4 patches",
               "associated coordinates may be dropped",
               "patches with other dimensions may be refused or skipped with a warning"]
stats = ap.stats
OPS = "cat,stack".split(",")


def models(tier):
    return ap.models(tier, False, ("CatSplit",))


def behaviours(tier, seed, scratch):
    return ap.behaviours(tier, seed, scratch, False)


def jobs(tier, seed, behs):
    n = 5000 if tier == "quick" else 50000
    return [{"seed": f"C21-{seed}-{i}"} for i in range(n)] + [
        {"seed": f"C21b-{seed}-{i}", "beh": b} for i, b in enumerate(behs)]


def run_job(job, d):
    if "beh" in job:
        return al.run_pair(job["beh"], job["seed"], "C21")
    return al.run(job["seed"], al.gen_cat, 4)


def canaries(traces):
    return ap.canaries(traces, OPS)

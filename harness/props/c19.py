"""C19 - reducing operations."""
from __future__ import annotations

import random

from .. import arithlab as al
from .. import arithprops as ap

TRACE = ap.TRACE
ASSUMPTIONS = ["patches of at most 3 dimensions with integer-valued data (scaled so that means and medians are exact)",
               "rolling is judged along evenly sampled dimensions with window and step within the dimension",
               "associated coordinates may be dropped"]
stats = ap.stats
OPS = "agg,acc,roll".split(",")


def models(tier):
    return ap.models(tier, False, ap.ONE_INV)


def behaviours(tier, seed, scratch):
    return ap.behaviours(tier, seed, scratch, False)


def jobs(tier, seed, behs):
    n = 8000 if tier == "quick" else 60000
    return [{"seed": f"C19-{seed}-{i}"} for i in range(n)] + [
        {"seed": f"C19b-{seed}-{i}", "beh": b} for i, b in enumerate(behs)]


def run_job(job, d):
    if "beh" in job:
        return al.run_pair(job["beh"], job["seed"], "C19")
    return al.run(job["seed"], al.gen_agg, 4, (1, 60, 60, 3600), maxlen=random.Random(job["seed"]).choice([2, 4, 6]))


def canaries(traces):
    return ap.canaries(traces, OPS)

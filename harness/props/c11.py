"""C11 - split and map partition a spool whatever the executor does."""
import random

from .. import spoollab as sl
from ..spoolprops import *  # noqa

W = {"split": 3, "map": 4, "select": 0.6, "slice": 0.6, "chunk": 0.6, "sort": 0.4, "intarr": 0.4}


def jobs(tier, seed, behs):
    n = 2000 if tier == "quick" else 16000
    return beh_jobs(behs) + [{"kind": "rand", "seed": f"C11-{seed}-{i}"} for i in range(n)]


def run_job(job, d):
    if job["kind"] == "beh":
        return run_beh(job, d)
    rng = random.Random(job["seed"])
    w = sl.World(rng)
    src = sl.random_sources(w, rng, nmax=rng.choice([3, 6, 9]))
    return sl.run_history(w, rng, sl.build(w, src, "memory", d), W, rng.randint(1, 5))

"""C07 - chunking tiles the data exactly."""
import random

from .. import spoollab as sl
from ..spoolprops import *  # noqa

W = {"chunk": 6, "select": 1, "slice": 1, "boolarr": 0.5, "sort": 0.5, "index": 0.5}


def jobs(tier, seed, behs):
    n = 3000 if tier == "quick" else 25000
    return beh_jobs(behs) + [{"kind": "rand", "seed": f"C07-{seed}-{i}"} for i in range(n)]


def run_job(job, d):
    if job["kind"] == "beh":
        return run_beh(job, d)
    rng = random.Random(job["seed"])
    w = sl.World(rng)
    src = sl.random_sources(w, rng)
    return sl.run_history(w, rng, sl.build(w, src, "memory", d), W, rng.randint(1, 4))

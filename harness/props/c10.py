"""C10 - spool select keeps exactly the matching patches, trimmed exactly."""
import random

from .. import spoollab as sl
from ..spoolprops import *  # noqa

W = {"select": 6, "sort": 0.5, "slice": 0.5, "chunk": 0.3, "index": 0.3}


def jobs(tier, seed, behs):
    n = 2500 if tier == "quick" else 22000
    return beh_jobs(behs) + [{"kind": "rand", "seed": f"C10-{seed}-{i}"} for i in range(n)]


def run_job(job, d):
    if job["kind"] == "beh":
        return run_beh(job, d)
    rng = random.Random(job["seed"])
    backend = rng.choices(["memory", "dir"], [6, 1])[0]
    w = sl.World(rng, **(sl.DIR_WORLD if backend == "dir" else {}))
    src = sl.random_sources(w, rng, odiff=0.4, rev=0.2, uneven=0.2)
    return sl.run_history(w, rng, sl.build(w, src, backend, d), W, rng.randint(1, 4))

"""C08 - merging contiguous, overlapping and gapped patches loses nothing."""
import random

from .. import spoollab as sl
from ..spoolprops import *  # noqa

W = {"merge": 6, "select": 1, "slice": 0.5, "intarr": 0.5, "index": 0.3}


def jobs(tier, seed, behs):
    n = 3000 if tier == "quick" else 25000
    return beh_jobs(behs) + [{"kind": "rand", "seed": f"C08-{seed}-{i}"} for i in range(n)]


def run_job(job, d):
    if job["kind"] == "beh":
        return run_beh(job, d)
    rng = random.Random(job["seed"])
    w = sl.World(rng)
    src = sl.random_sources(w, rng, conflict=rng.choice([0, 0.2]), odiff=rng.choice([0, 0, 0.15]), uneven=rng.choice([0, 0, 0.3]),
                            offgrid=0.25, tags=["a1", "b1"] if rng.random() < 0.5 else ["a1"])
    return sl.run_history(w, rng, sl.build(w, src, "memory", d), W, rng.randint(1, 3))

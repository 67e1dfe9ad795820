"""C09 - contents, length, indexing and iteration of a spool always agree."""
import random

from .. import spoollab as sl
from ..spoolprops import *  # noqa

W = {"chunk": 1, "merge": 0.7, "select": 2, "slice": 2, "intarr": 2, "boolarr": 2, "sort": 2, "index": 2, "observe": 1}


def jobs(tier, seed, behs):
    n = 2200 if tier == "quick" else 20000
    return beh_jobs(behs) + [{"kind": "rand", "seed": f"C09-{seed}-{i}"} for i in range(n)]


def run_job(job, d):
    if job["kind"] == "beh":
        return run_beh(job, d)
    rng = random.Random(job["seed"])
    backend = rng.choices(["memory", "file", "dir"], [5, 0, 1])[0]
    w = sl.World(rng, **(sl.DIR_WORLD if backend == "dir" else {}))
    src = sl.random_sources(w, rng)
    return sl.run_history(w, rng, sl.build(w, src, backend, d), W, rng.randint(2, 7))

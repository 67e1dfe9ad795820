"""C03 - Patch.select keeps exactly the requested samples."""
import random

from .. import enc as E
from .. import patchlab as pl
from ..patchprops import *  # noqa

ASSUMPTIONS = ["coordinate values lie on a milli-unit grid (times also on a nanosecond grid in the year 2250); at most 4 dimensions and about 200 samples per patch"]
models = patch_models


def behaviours(tier, seed, scratch):
    return patch_behaviours(tier, seed, scratch, 600)


def jobs(tier, seed, behs):
    n = 5000 if tier == "quick" else 40000
    return beh_jobs(behs) + [{"kind": "rand", "seed": f"C03-{seed}-{i}"} for i in range(n)]


def _gen(rng, patch, p):
    if rng.random() < 0.75:
        return pl.gen_select(rng, patch, p)
    return pl.gen_struct(rng, patch, p, allow=["transpose", "order", "sort", "append", "rename", "flip", "setdim"])


def run_job(job, d):
    E.set_time_scale(False)
    if job["kind"] == "beh":
        return run_beh(job, False)
    rng = random.Random(job["seed"])
    E.set_time_scale(rng.random() < 0.25)
    return run_random(rng, _gen, rng.randint(2, 5), False, maxlen=rng.choice([2, 4, 6, 9]))


def canaries(traces):
    return corrupt_data(traces, {"select"})


stats = op_stats

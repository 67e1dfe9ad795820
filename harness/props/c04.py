"""C04 - structural operations keep every sample attached to its labels."""
import random

from .. import patchlab as pl
from ..patchprops import *  # noqa

ASSUMPTIONS = ["coordinate values lie on a milli-unit grid; at most 4 dimensions and about 200 samples per patch",
               "order among equal sort keys is unspecified and not generated"]
models = patch_models


def behaviours(tier, seed, scratch):
    return patch_behaviours(tier, seed, scratch, 800)


def jobs(tier, seed, behs):
    n = 5000 if tier == "quick" else 40000
    return beh_jobs(behs) + [{"kind": "rand", "seed": f"C04-{seed}-{i}"} for i in range(n)]


def run_job(job, d):
    if job["kind"] == "beh":
        return run_beh(job, False)
    rng = random.Random(job["seed"])
    return run_random(rng, pl.gen_struct, rng.randint(2, 7), False, maxlen=rng.choice([2, 4, 6]))


def canaries(traces):
    return corrupt_data(traces)


stats = op_stats

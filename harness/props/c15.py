"""C15 - the format of a file is decided by its content alone."""
from __future__ import annotations

import copy
import random
from collections import Counter

from .. import synfmt as sf

TRACE = "TraceDispatch"
JOB_LIMIT = 120
ASSUMPTIONS = ["formats claim disjoint sets of files; version strings of one digit",
               "DASDAE and PICKLE are the only real formats with files; registering formats happens in a forked process"]


def models(tier):
    n = 2 if tier == "quick" else 3
    return [dict(module="DispatchMC",
                 constants=dict(Formats="{%s}" % ",".join(f'"f{i}"' for i in range(n)), Exts="{}", MaxSteps=5 if tier == "quick" else 6,
                                ClearOnRegister="TRUE"),
                 invariants=(), properties=("Right",))]


def behaviours(tier, seed, scratch):
    return []


def jobs(tier, seed, behs):
    return [{"seed": f"C15-{seed}-{i}"} for i in range(220 if tier == "quick" else 2500)]


def _run(job, d):
    rng = random.Random(job["seed"])
    lab = sf.Lab(rng, d, "Q%03d" % rng.randrange(1000))
    if rng.random() < 0.5:
        lab.register()
    for _ in range(rng.randint(1, 3)):
        lab.make()
    for _ in range(rng.randint(4, 14)):
        r = rng.random()
        if r < 0.15:
            lab.register()
        elif r < 0.35:
            lab.make()
        else:
            lab.act()
    return {"init": [], "ev": lab.ev}


def run_job(job, d):
    return sf.isolated(_run, job, d)


def canaries(traces):
    out = []
    for tr in traces:
        for k, e in enumerate(tr["ev"]):
            if e["o"]["op"] in ("read", "scan") and not e["err"] and e["ids"]:
                c = copy.deepcopy(tr)
                c["ev"][k]["ids"] = e["ids"][1:]
                c["ev"] = c["ev"][: k + 1]
                out.append(c)
                break
            if e["o"]["op"] == "format" and not e["err"]:
                c = copy.deepcopy(tr)
                c["ev"][k]["fmt"] = "OTHER"
                c["ev"] = c["ev"][: k + 1]
                out.append(c)
                break
        if len(out) >= 4:
            break
    return out


def stats(traces):
    c = Counter()
    for tr in traces:
        for e in tr["ev"]:
            c[e["o"]["op"] + (":" + e["err"] if e["err"] else "")] += 1
    return {"operations": dict(sorted(c.items()))}

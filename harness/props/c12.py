"""C12 - memory, file and directory spools of the same patches behave the same."""
import os
import random

import dascore as dc

from .. import spoollab as sl
from ..spoolprops import *  # noqa

W = {"chunk": 1.5, "merge": 1, "select": 3, "slice": 1, "intarr": 0.7, "boolarr": 0.7, "sort": 1, "index": 1}
FREE = ("select", "chunk")  # their results do not depend on the order of a spool


def jobs(tier, seed, behs):
    n = 420 if tier == "quick" else 5000
    return beh_jobs(behs[:80]) + [{"kind": "rand", "seed": f"C12-{seed}-{i}"} for i in range(n)]


def _distinct(src):
    """Sources a file could not tell apart are the same patch."""
    out, seen = [], set()
    for s in src:
        key = (s["pg"], s["pa"], min(s["v"]), max(s["v"]), tuple(s["o"]))
        if key not in seen:
            seen.add(key)
            out.append(s)
    return out


def _build_multi(w, src, d, rng):
    """A directory of files with several patches each, some in sub-folders."""
    sub = os.path.join(d, "multi")
    os.makedirs(os.path.join(sub, "deep", "er"))
    k = 0
    while src:
        n = rng.randint(1, 3)
        part, src = src[:n], src[n:]
        where = rng.choice(["", "deep", "deep/er"])
        dc.write(dc.spool([sl.make_patch(w, s) for s in part]), os.path.join(sub, where, f"m{k}.h5"), "dasdae")
        k += 1
    return dc.spool(sub).update(progress=None)


def run_job(job, d):
    if job["kind"] == "beh":
        backend = "dir" if job["k"] % 3 else "file"
        return dict(run_beh(job, d, backend), backend=backend + ":replayed")
    rng = random.Random(job["seed"])
    w = sl.World(rng, **sl.DIR_WORLD)
    src = _distinct(sl.random_sources(w, rng, odiff=0, rev=0.1, uneven=0.1))
    spools = {"memory": sl.build(w, src, "memory", d)}
    other = rng.choice(["file", "dir", "multi", "multi"])
    spools[other] = _build_multi(w, list(src), d, rng) if other == "multi" else sl.build(w, src, other, d)
    if rng.random() < 0.3 and other != "file":  # a fresh spool on the same index
        spools[other] = dc.spool(spools[other].spool_path)
    obs = {k: sl.observe(w, s) for k, s in spools.items()}
    init = obs["memory"]
    tr = {"init": init, "ev": [], "backend": other}

    def compare(weak):
        tr["ev"].append({"o": {"op": "equal", "weak": weak}, "err": "", "obs": [], "len": 0, "x": obs["memory"], "y": obs[other]})

    compare(0)
    weak = 0
    # operations whose outcome does not depend on the order are compared
    ops = []
    for _ in range(rng.randint(1, 2)):
        o = sl.gen_op(w, rng, obs["memory"], {k: W[k] for k in ("chunk", "merge", "select")}, bool(ops))
        if o["op"] not in FREE:
            break
        seed = rng.random()
        res = {}
        for k in spools:
            res[k] = sl.run_op(w, spools[k], o, random.Random(seed))
        if o["op"] == "chunk":
            weak = 1 if _overlap(src) or o["conf"] != "raise" else weak
            weak = 2 if o["tol"] != 15 or o["snap"] == 0 else weak
            # how far chunks of unevenly sampled sources reach is open
            if o["len"] != sl.NONE and any(s["st"] == sl.NULL for s in src):
                weak = 3
            # only spools in memory know about associated coordinates
            if w.aux and o["conf"] == "raise" or any(s["st"] < 0 for s in src):
                weak = 3
        ops.append(o)
        e1, e2 = res["memory"][1], res[other][1]
        tr["ev"].append(e1)
        if weak == 3:
            for k in spools:
                spools[k], obs[k] = res[k][0], res[k][1]["obs"]
            break
        if e1["err"] or e2["err"]:
            tr["ev"].append({"o": {"op": "outcome"}, "err": "", "obs": [], "len": 0, "x": e1["err"], "y": e2["err"]})
            break
        for k in spools:
            spools[k], obs[k] = res[k][0], res[k][1]["obs"]
        compare(weak)
        if o["op"] == "chunk" or any(not r["v"] for r in obs["memory"]):
            break
    # then the other backend goes on alone
    if spools[other] is None or any(o["op"] == "chunk" for o in ops):
        return tr
    tr["ev"].append({"o": {"op": "load"}, "err": "", "obs": obs[other], "len": len(spools[other])})
    if all(r["v"] for r in obs[other]):
        rest = sl.run_history(w, rng, spools[other], W, rng.randint(1, 4), recs=obs[other])
        tr["ev"] += rest["ev"]
    return tr


def _overlap(src):
    iv = sorted((min(s["v"]), max(s["v"])) for s in src)
    return any(b[0] <= a[1] for a, b in zip(iv, iv[1:]))


def canaries(traces):
    out = []
    for tr in traces:
        for k, e in enumerate(tr["ev"]):
            if e["o"]["op"] == "equal" and e["y"] and e["y"][0]["id"]:
                c = copy.deepcopy(tr)
                c["ev"] = c["ev"][: k + 1]
                c["ev"][k]["y"][0]["v"][0] += 1
                out.append(c)
                break
        if len(out) >= 2:
            break
    return out


def stats(traces):
    c, b = Counter(), Counter()
    for tr in traces:
        b[tr["backend"]] += 1
        for e in tr["ev"]:
            c[e["o"]["op"] + (":error" if e["err"] else "")] += 1
    return {"operations": dict(sorted(c.items())), "backends": dict(b)}

"""
Driver of one property check.

  python -m harness.run C03 [--tier quick|thorough] [--replay FILE]

Exit 0: held on everything explored.  Exit 1: VIOLATION line.  Exit 2: the
machinery itself failed.
"""

from __future__ import annotations

import argparse
import concurrent.futures as cf
import importlib
import json
import multiprocessing as mp
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
EVID = ROOT / "evidence"
NCPU = min(8, os.cpu_count() or 4)


def preload():
    """Import third party packages with their own byte code caches."""
    for name in ("numpy", "pandas", "pydantic", "pint", "scipy.signal", "scipy.fft", "scipy.interpolate", "scipy.ndimage",
                 "rich.progress", "rich.text", "tables", "h5py", "xarray", "obspy", "fsspec", "universal_pathlib", "upath", "matplotlib.pyplot",
                 "concurrent.futures.process", "platformdirs", "pooch", "numexpr", "packaging", "findiff", "numba"):
        try:
            importlib.import_module(name)
        except Exception:
            pass


def setup_scratch():
    """A private scratch directory holding every file effect of this run."""
    base = tempfile.mkdtemp(prefix="verif_")
    for name in ("xdg", "tmp", "data", "pyc"):
        os.makedirs(os.path.join(base, name))
    os.environ["XDG_CACHE_HOME"] = os.path.join(base, "xdg")
    os.environ["DFS_DATA_DIR"] = os.path.join(base, "data")
    os.environ["TMPDIR"] = os.path.join(base, "tmp")
    tempfile.tempdir = os.path.join(base, "tmp")
    preload()
    # never trust byte code left beside /repo's sources
    sys.pycache_prefix = os.path.join(base, "pyc")
    return base


class JobTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise JobTimeout()


_MOD = None
_SCR = None


def _worker_init(modname, scratch):
    global _MOD, _SCR
    _SCR = tempfile.mkdtemp(dir=scratch, prefix="w")
    os.environ["TMPDIR"] = _SCR
    tempfile.tempdir = _SCR
    os.chdir(_SCR)
    signal.signal(signal.SIGALRM, _alarm)
    warnings.simplefilter("ignore")
    _MOD = importlib.import_module(modname)


def _run_job(args):
    idx, job, limit = args
    d = tempfile.mkdtemp(dir=_SCR, prefix="j")
    try:
        signal.alarm(limit)
        tr = _MOD.run_job(job, d)
        signal.alarm(0)
    except JobTimeout:
        tr = {"timeout": 1}
    except Exception:
        signal.alarm(0)
        tr = {"crash": traceback.format_exc()[-3000:]}
    finally:
        signal.alarm(0)
        shutil.rmtree(d, ignore_errors=True)
    return idx, tr


def execute(mod, jobs, scratch, limit=60):
    """Run all jobs on the real code, in parallel, keeping order."""
    out = [None] * len(jobs)
    ctx = mp.get_context("fork")
    with cf.ProcessPoolExecutor(NCPU, mp_context=ctx, initializer=_worker_init,
                                initargs=(mod.__name__, scratch)) as ex:
        chunk = max(1, min(40, len(jobs) // (NCPU * 4) or 1))
        for idx, tr in ex.map(_run_job, [(i, j, limit) for i, j in enumerate(jobs)], chunksize=chunk):
            out[idx] = tr
    return out


def load_known(pid):
    f = ROOT / "known_findings.json"
    if not f.exists():
        return []
    return [k for k in json.loads(f.read_text())["findings"] if k["property"] == pid and k["status"] == "known"]


def match_known(known, keys):
    """All clauses of a rejected event must be explained by listed findings."""
    hit = set()
    for key in keys:
        ks = [k["key"] for k in known if k["key"] == key]
        if not ks:
            return None
        hit.update(ks)
    return hit


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args(argv)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    start = time.time()
    scratch = setup_scratch()
    warnings.simplefilter("ignore")
    code = 2
    try:
        code = run_check(a, seed, scratch, start)
    except Exception:
        traceback.print_exc()
        print(f"ERROR property={a.pid}: verification machinery failed")
        code = 2
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)
    return code


def run_check(a, seed, scratch, start):
    from . import tlc

    pid, tier = a.pid, a.tier
    modname = f"harness.props.{pid.lower()}"
    import dascore

    assert dascore.__file__.startswith("/repo/"), dascore.__file__
    mod = importlib.import_module(modname)
    EVID.mkdir(exist_ok=True)
    phases = {}

    # 1. exhaustive check of the design
    t = time.time()
    states = transitions = 0
    models = []
    if not a.replay:
        for m in mod.models(tier):
            m = dict(m)
            name = m.pop("module")
            ds, gen = tlc.model_check(name, scratch, **m)
            states += ds
            transitions += gen
            models.append({"module": name, "constants": dict(m.get("constants", {})),
                           "distinct_states": ds, "states_generated": gen,
                           "invariants": list(m.get("invariants", ())) + list(m.get("properties", ()))})
    phases["model"] = round(time.time() - t, 1)

    # 2. behaviours: generated from the specification plus seeded scenarios
    t = time.time()
    if a.replay:
        jobs = [json.loads(Path(a.replay).read_text())["job"]]
        behaviours = []
    else:
        behaviours = mod.behaviours(tier, seed, scratch) if hasattr(mod, "behaviours") else []
        jobs = mod.jobs(tier, seed, behaviours)
    phases["generate"] = round(time.time() - t, 1)

    # 3. execute on the real code
    t = time.time()
    traces = execute(mod, jobs, scratch, limit=getattr(mod, "JOB_LIMIT", 60))
    phases["execute"] = round(time.time() - t, 1)
    crashes = [(i, x) for i, x in enumerate(traces) if "crash" in x]
    # an exception escaping from dascore where the scenario expects none is an
    # observation about the code; anything else is a fault of the harness
    repo_crash = [(i, x) for i, x in crashes if "/repo/dascore/" in x["crash"]]
    if crashes and not repo_crash:
        raise tlc.MachineryError(f"executor crashed on job {jobs[crashes[0][0]]}: {crashes[0][1]['crash']}")
    violations = []
    timeouts = [i for i, x in enumerate(traces) if "timeout" in x]
    for i in timeouts:
        violations.append((i, 0, ["timeout"], {"err": "timeout"}))
    for i, x in crashes:
        violations.append((i, 0, ["crash"], {"err": x["crash"][-600:]}))

    # 4. verdicts by TLC on the recorded traces
    t = time.time()
    batch, owner = [], []
    for i, tr in enumerate(traces):
        if "timeout" in tr or "crash" in tr:
            continue
        batch.append(tr)
        owner.append(i)
    canary = []
    if hasattr(mod, "canaries") and not a.replay:
        canary = mod.canaries([x for x in batch])
    bad, tstates, ttrans = tlc.check_traces(mod.TRACE, batch + canary, scratch,
                                            constants=getattr(mod, "TRACE_CONSTANTS", ()),
                                            timeout=getattr(mod, "TRACE_TIMEOUT", 700))
    phases["verdict"] = round(time.time() - t, 1)
    caught = {b["t"] for b in bad if b["t"] > len(batch)}
    if len(caught) != len(canary):
        missed = [i for i in range(len(canary)) if i + len(batch) + 1 not in caught]
        raise tlc.MachineryError(f"corrupted traces were accepted: {missed}: {json.dumps(canary[missed[0]])[:1500]}")
    for b in bad:
        if b["t"] > len(batch):
            continue
        i = owner[b["t"] - 1]
        ev = traces[i]["ev"][b["l"] - 1] if b["l"] >= 1 else traces[i]
        violations.append((i, b["l"], sorted(b["bad"]), ev))

    known = load_known(pid)
    hits, fresh = {}, []
    for i, l, clauses, ev in violations:
        keyf = getattr(mod, "finding_key", None)
        keys = [keyf(jobs[i], ev, c) if keyf else c for c in clauses]
        h = match_known(known, keys) if keys else None
        if h is None:
            fresh.append((i, l, clauses, ev, keys))
        else:
            for k in h:
                hits[k] = hits.get(k, 0) + 1

    wall = round(time.time() - start, 1)
    nev = sum(len(x["ev"]) for x in batch)
    stats = mod.stats(batch) if hasattr(mod, "stats") else {}
    cov = {
        "states": states + tstates,
        "transitions": transitions + ttrans,
        "traces_validated_against_impl": len(batch),
        "events_judged": nev,
        "behaviours_from_spec": len(behaviours),
        "canary_traces_rejected": len(canary),
        "models": models,
        "trace_module": mod.TRACE,
        "phases_s": phases,
        "samples": [_shrink(jobs[k]) for k in range(0, len(jobs), max(1, len(jobs) // 3))][:3],
        **stats,
    }
    if not a.replay:
        ev_doc = {
            "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
            "coverage": cov, "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
            "wall_s": wall, "violations": len(fresh),
        }
        (EVID / f"{pid}.json").write_text(json.dumps(ev_doc, indent=1, default=str))
    for k in known:
        if k["key"] in hits:
            print(f"KNOWN-FINDING: property={pid} {k['what']} (seen {hits[k['key']]}x)")
    print(f"property={pid} tier={tier} seed={seed} traces={len(batch)} events={nev} "
          f"model_states={states} trace_states={tstates} phases={phases} wall={wall}s")
    if fresh:
        rd = EVID / "replays"
        rd.mkdir(exist_ok=True)
        seen = set()
        fresh.sort(key=lambda x: (x[1], x[0]))
        nprint = 0
        for i, l, clauses, ev, keys in fresh:
            sig = tuple(sorted(map(str, keys)))
            if sig in seen:
                continue
            seen.add(sig)
            nprint += 1
            if nprint > 8:
                break
            path = rd / f"{pid}-{nprint}.json"
            if not a.replay:
                path.write_text(json.dumps({"property": pid, "job": jobs[i], "event_index": l,
                                            "clauses": clauses, "event": ev}, indent=1, default=str))
            print(f"VIOLATION property={pid} replay={a.replay or path}")
            print(f"   clauses={clauses} keys={keys} job={json.dumps(_shrink(jobs[i]), default=str)[:300]} "
                  f"event={json.dumps(_shrink(ev), default=str)[:700]}")
        print(f"{len(fresh)} rejected event(s)")
        return 1
    return 0


def _shrink(x, n=12):
    """Bounded rendering of a case for evidence."""
    if isinstance(x, dict):
        return {k: _shrink(v, n) for k, v in list(x.items())[:24]}
    if isinstance(x, list):
        return [_shrink(v, n) for v in x[:n]] + ([f"...{len(x) - n} more"] if len(x) > n else [])
    return x


if __name__ == "__main__":
    sys.exit(main())

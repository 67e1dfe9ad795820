"""Run TLC: exhaustive model checks, behaviour generation and trace verdicts."""

from __future__ import annotations

import json
import os
import re
import shutil
import subprocess
import tempfile
from pathlib import Path

SPEC = Path(__file__).resolve().parent.parent / "spec"
JAR = "/opt/veriftools/tla/tla2tools.jar"
DEPS = "/opt/veriftools/tla/CommunityModules-deps.jar"


class MachineryError(RuntimeError):
    """The verification machinery itself failed (exit code 2, never 1)."""


def _run(args, cwd, env=None, timeout=800, heap="6g"):
    cmd = [
        "java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4", f"-Xmx{heap}", "-Xss64m",
        "-cp", f"{JAR}:{DEPS}", "tlc2.TLC", *args,
    ]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as exc:
        raise MachineryError(f"TLC timed out: {args}") from exc
    return r.returncode, r.stdout + r.stderr


def _cfg(path, spec="Spec", constants=(), invariants=(), properties=(), view=None,
         constraint=None, postcondition=None, init_next=None):
    out = []
    if init_next:
        out += [f"INIT {init_next[0]}", f"NEXT {init_next[1]}"]
    else:
        out.append(f"SPECIFICATION {spec}")
    if constants:
        out.append("CONSTANTS")
        out += [f"  {k} = {v}" for k, v in dict(constants).items()]
    for i in invariants:
        out.append(f"INVARIANT {i}")
    for i in properties:
        out.append(f"PROPERTY {i}")
    if view:
        out.append(f"VIEW {view}")
    if constraint:
        out.append(f"CONSTRAINT {constraint}")
    if postcondition:
        out.append(f"POSTCONDITION {postcondition}")
    out.append("CHECK_DEADLOCK FALSE")
    Path(path).write_text("\n".join(out) + "\n")


def _stats(text):
    m = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found, (\d[\d,]*) states left", text)
    if not m:
        return 0, 0
    gen, dist, _ = (int(x.replace(",", "")) for x in m[-1])
    return gen, dist


def _workdir(scratch):
    d = Path(tempfile.mkdtemp(dir=scratch, prefix="tlc"))
    for f in SPEC.glob("*.tla"):
        shutil.copy(f, d / f.name)
    return d


def model_check(module, scratch, *, workers=8, timeout=600, **cfg):
    """
    Exhaustively check a model.  Returns (states, transitions, failure text or None).
    A violated invariant here is a defect of the *specification*.
    """
    d = _workdir(scratch)
    _cfg(d / "m.cfg", **cfg)
    rc, out = _run(
        ["-workers", str(workers), "-metadir", str(d / "meta"), "-config", "m.cfg", f"{module}.tla"],
        cwd=d, timeout=timeout,
    )
    gen, dist = _stats(out)
    shutil.rmtree(d, ignore_errors=True)
    if rc != 0 or "No error has been found" not in out:
        raise MachineryError(f"model {module} failed (rc={rc}):\n{out[-3000:]}")
    return dist, gen


def generate(module, scratch, *, num, depth, seed, workers=4, timeout=300, **cfg):
    """Random behaviours of a specification, printed as @@GEN json lines."""
    d = _workdir(scratch)
    _cfg(d / "m.cfg", **cfg)
    rc, out = _run(
        ["-workers", str(workers), "-simulate", f"num={num}", "-depth", str(depth), "-seed", str(seed),
         "-metadir", str(d / "meta"), "-config", "m.cfg", f"{module}.tla"],
        cwd=d, timeout=timeout,
    )
    shutil.rmtree(d, ignore_errors=True)
    res = []
    for line in out.splitlines():
        line = line.strip()
        if line.startswith('"@@GEN '):
            txt = json.loads(line)  # TLA string literal is a JSON string literal
            res.append(json.loads(txt[len("@@GEN "):]))
    if rc != 0 or not res:
        raise MachineryError(f"simulation of {module} produced nothing (rc={rc}):\n{out[-3000:]}")
    return res


def check_traces(module, traces, scratch, *, workers=8, timeout=700, constants=()):
    """
    Total verdicts for a batch of traces.

    Every trace is a dict with key "ev" (list of events).  The trace module must
    define TraceSpec with variables t, l and print one "@@BAD {json}" line per
    rejected event.  Returns (list of bad records, distinct states, transitions).
    """
    if not traces:
        return [], 0, 0
    d = _workdir(scratch)
    tf = d / "traces.ndjson"
    with open(tf, "w") as fh:
        for tr in traces:
            fh.write(json.dumps(tr) + "\n")
    _cfg(d / "m.cfg", spec="TraceSpec", constants=constants, postcondition="TraceDone")
    rc, out = _run(
        ["-workers", str(workers), "-metadir", str(d / "meta"), "-config", "m.cfg", f"{module}.tla"],
        cwd=d, env={"TRACE_FILE": str(tf)}, timeout=timeout,
    )
    gen, dist = _stats(out)
    bad = []
    for line in out.splitlines():
        line = line.strip()
        if line.startswith('"@@BAD '):
            txt = json.loads(line)
            bad.append(json.loads(txt[len("@@BAD "):]))
    if rc != 0 or "No error has been found" not in out:
        keep = Path("/tmp/verif_last_tlc_failure.txt")
        keep.write_text(out)
        raise MachineryError(f"trace check {module} failed (rc={rc}):\n{_tail(out)}")
    # completeness: one state per trace per position
    shutil.rmtree(d, ignore_errors=True)
    uniq, seen = [], set()
    for b in bad:
        key = (b["t"], b["l"])
        if key not in seen:
            seen.add(key)
            uniq.append(b)
    return uniq, dist, gen


def _tail(out):
    """The part of TLC's output that says what went wrong."""
    keep = [x for x in out.splitlines() if not x.startswith(("Parsing file", "Semantic processing", '"@@'))]
    return "\n".join(keep)[-3000:]

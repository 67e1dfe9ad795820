"""
Plant a bug: python3 tools/mkseed.py SPEC.py
SPEC.py defines ID, PROP, EDITS=[(file, old, new)], DEMO (python text), NEEDS, BREAKS.
Builds /verif/seeded/ID, confirms demo/test-suite on /repo, runs the check, undoes.
  --no-suite skips the test suite;  --recheck ID [ID..] only runs checks of existing ones.
"""
import json
import os
import subprocess
import sys
from pathlib import Path

R = Path("/repo")
S = Path("/verif/seeded")


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def clean():
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo dirty"


def check(prop):
    r = sh(f"/verif/check.sh {prop} --tier quick", env={**os.environ, "VERIF_SEED": "1", "VERIF_TIER": "quick"})
    hit = r.returncode == 1 and f"VIOLATION property={prop}" in r.stdout
    return hit, r.returncode, (r.stdout + r.stderr)[-1500:]


def recheck(ids):
    clean()
    for i in ids:
        meta = json.loads((S / i / "meta.json").read_text())
        r = sh(f"git -C /repo apply {S / i / 'patch.diff'}")
        if r.returncode:
            print(i, "PATCH DOES NOT APPLY", r.stderr[:300])
            continue
        try:
            hit, rc, out = check(meta["property"])
        finally:
            sh("git -C /repo checkout -- .")
        print(i, meta["property"], "CAUGHT" if hit else f"missed rc={rc}", "" if hit else out[-600:], flush=True)


def main():
    if sys.argv[1] == "--recheck":
        return recheck(sys.argv[2:] or sorted(p.name for p in S.iterdir()))
    suite = "--no-suite" not in sys.argv
    ns = {}
    exec(Path(sys.argv[1]).read_text(), ns)
    clean()
    d = S / ns["ID"]
    d.mkdir(parents=True, exist_ok=True)
    (d / "demo.py").write_text(ns["DEMO"].lstrip())
    (d / "demo.sh").write_text('#!/bin/bash\n. /opt/vp/env.sh\nexport PYTHONDONTWRITEBYTECODE=1\n'
                               'W=$(mktemp -d); trap \'rm -rf "$W"\' EXIT\nexport XDG_CACHE_HOME=$W/c TMPDIR=$W\n'
                               'python "$(dirname "$0")/demo.py" "$W"\n')
    os.chmod(d / "demo.sh", 0o755)
    (d / "meta.json").write_text(json.dumps({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, indent=1) + "\n")
    a = sh(f"bash {d}/demo.sh", cwd="/repo")
    try:
        for f, old, new in ns["EDITS"]:
            t = (R / f).read_text()
            assert t.count(old) == 1, (f, t.count(old), old)
            (R / f).write_text(t.replace(old, new))
        (d / "patch.diff").write_text(sh("git -C /repo diff").stdout)
        b = sh(f"bash {d}/demo.sh", cwd="/repo")
        print("demo clean rc", a.returncode, a.stderr[-300:], "| patched rc", b.returncode, b.stderr.strip().splitlines()[-1:] )
        ok = a.returncode == 0 and b.returncode != 0
        if suite and ok:
            sh("bash /opt/vp/test.sh /tmp/seed_out.json")
            r = sh("python3 /verif/tools/suite_cmp.py /tmp/seed_out.json")
            print(r.stdout[-600:])
            ok = ok and "not passing now: 0" in r.stdout
        if (Path("/verif/harness/props") / (ns["PROP"].lower() + ".py")).exists():
            hit, rc, out = check(ns["PROP"])
            print("CAUGHT" if hit else f"MISSED rc={rc}", out[-900:] if not hit else out[-1100:-300])
        print("SEED", ns["ID"], "OK" if ok else "NOT VALID")
        if not ok:
            subprocess.run(["rm", "-rf", str(d)])
    finally:
        sh("git -C /repo checkout -- .")


main()

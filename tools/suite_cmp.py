"""Compare a test.sh result with the stable baseline: prints newly failing tests."""
import json, sys
b = json.load(open("/opt/vp/BASELINE.json"))
o = json.load(open(sys.argv[1]))
st = set(b["stable"])
missing = sorted(st - set(o["passed"]))
print("stable", len(st), "not passing now:", len(missing))
for m in missing[:20]:
    print("  ", m)
sys.exit(bool(missing))

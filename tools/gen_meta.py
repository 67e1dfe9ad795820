"""Write properties.jsonl and MANIFEST.json from tools/proptable.py."""
import json
import os
import sys
from pathlib import Path

sys.path.insert(0, os.path.dirname(__file__))
from proptable import P  # noqa

ROOT = Path(__file__).resolve().parent.parent
with open(ROOT / "properties.jsonl", "w") as fh:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        fh.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "state": list(p["state"]), "mechanism": p["mechanism"],
                        "observe_at": list(p["observe"]), "hook_needed": None},
        }) + "\n")
built = {p["id"] for p in P if p["claim"] and (ROOT / "harness/props" / (p["id"].lower() + ".py")).exists()}
man = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": [{
        "property": p["id"], "level": "model_checking",
        "technique": p["technique"], "level_note": p["note"],
        "quick_cmd": f"./check.sh {p['id']} --tier quick",
        "thorough_cmd": f"./check.sh {p['id']} --tier thorough",
    } for p in P if p["id"] in built],
    "not_applicable": [{"property": p["id"], "reason": p["reason"] or "check not built yet"} for p in P if p["id"] not in built],
}
(ROOT / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")
try:
    import jsonschema
    jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
    sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for line in open(ROOT / "properties.jsonl"):
        jsonschema.validate(json.loads(line), sch)
    print("valid", sorted(built))
except ImportError:
    print("written (no jsonschema)", sorted(built))


def fill(name, text):
    """Replace the block between the markers of DESIGN.md."""
    f = ROOT / "DESIGN.md"
    s = f.read_text()
    a, b = f"<!-- {name} -->", f"<!-- /{name} -->"
    f.write_text(s[: s.index(a) + len(a)] + "\n" + text + "\n" + s[s.index(b):])


finds = json.load(open(ROOT / "known_findings.json"))["findings"]
rows = ["| property | status | what failed |", "|---|---|---|"]
for x in sorted(finds, key=lambda x: (x["status"] != "known", x["property"])):
    what = x["what"].split(" ", 3)[-1] if x["status"] == "fixed" else x["what"]
    rows.append(f"| {x['property']} | {'fixed ' + x['commit'] if x['status'] == 'fixed' else 'known finding `' + x['key'] + '`'} | {what.replace('|', '/')} |")
fill("findings", "\n".join(rows))
rows = ["| planted bug | property | needs | breaks | reported by |", "|---|---|---|---|---|"]
for d in sorted((ROOT / "seeded").glob("*/meta.json")):
    m = json.load(open(d))
    rows.append(f"| {d.parent.name} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {m.get('caught', m['property'])} |")
fill("seeded", "\n".join(rows))

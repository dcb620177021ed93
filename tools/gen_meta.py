#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/meta.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from meta import PROPS, NOT_APPLICABLE  # noqa: E402

props, checks = [], []
for p in PROPS:
    assert len(p["title"]) <= 80, p["id"]
    props.append({
        "id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["for_all"]},
        "why_tests_cant": p["why"],
        "anchors": {"files": p["files"],
                    "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                    "state": [{"name": a, "meaning": b, "where": c} for a, b, c in p.get("state", [])],
                    "hook_needed": None},
    })
    if os.path.exists(os.path.join(ROOT, "checks", p["id"].lower() + ".py")):
        checks.append({
            "property": p["id"],
            "quick_cmd": "./check %s --tier quick" % p["id"],
            "thorough_cmd": "./check %s --tier thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": p["technique"],
            "level": "exploration",
            "level_note": p["note"],
        })
    elif p["id"] not in [n["property"] for n in NOT_APPLICABLE]:
        print("no check for", p["id"])
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1,
               "setup_cmd": "./setup.sh",
               "checks": checks, "not_applicable": NOT_APPLICABLE,
               "notes": "Property-based testing with Hypothesis over the real code in /repo (imported, nothing built or "
                        "hooked); every failure is shrunk and written to evidence/replays, and is replayed with "
                        "./check <id> --replay <file>."}, f, indent=1)
    f.write("\n")
try:
    import jsonschema
    sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in props:
        jsonschema.validate(p, sch)
    jsonschema.validate(json.load(open(os.path.join(ROOT, "MANIFEST.json"))),
                        json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError:
    print("jsonschema not available: run with python3-vt")
print(len(props), "properties,", len(checks), "checks")

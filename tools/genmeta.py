#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/properties.py and
tools/registry.py."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from registry import PROPS  # noqa: E402
from properties import P, NA, NOTES  # noqa: E402

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [p["id"] for p in P]
assert len(set(ids)) == len(ids)
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        q = {k: v for k, v in p.items() if k not in ("technique", "note")}
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(q) + "\n")
checks = []
for p in P:
    i = p["id"]
    if i not in PROPS:
        assert i in NA, i
        continue
    assert i not in NA
    checks.append({
        "property": i,
        "quick_cmd": "./run " + i,
        "thorough_cmd": "./run %s --thorough" % i,
        "technique": p["technique"],
        "level": PROPS[i]["level"],
        "level_note": p["note"],
        "evidence_file": "evidence/%s.json" % i,
    })
m = {
    "version": 1,
    "setup_cmd": "/usr/bin/python3 -B tools/setup.py",
    "checks": checks,
    "not_applicable": [{"property": i, "reason": r} for i, r in NA.items()],
    "notes": NOTES,
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(P), "properties,", len(checks), "claimed")

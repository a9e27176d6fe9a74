"""Writes /verif/MANIFEST.json from the properties and from what harness/checks.py claims."""
import json
import os
import re
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(os.path.join(V, "harness", "checks.py")).read()
claimed = re.findall(r'^    "([A-Z]\d\d)":', src, re.M)
NA = {}
TECH = {}
NOTE = {}
exec(open(os.path.join(V, "tools", "notes.py")).read())
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for i in ids:
    if i in claimed:
        checks.append({
            "property": i,
            "quick_cmd": "./check %s quick" % i,
            "thorough_cmd": "./check %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": TECH.get(i, "TLA+ specification (TLC) bound to the code by trace validation and behaviour replay"),
            "level": "model_checking",
            "level_note": NOTE[i],
        })
na = [{"property": i, "reason": NA.get(i, "check not built yet")} for i in ids if i not in claimed]
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", [x["property"] for x in na], "not")

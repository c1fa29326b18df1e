#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks/specs.py."""
import json, os, sys
V = os.path.realpath(os.path.join(os.path.dirname(__file__), ".."))
sys.path.insert(0, V + "/checks")
from specs import SPECS, NA, NOTES
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in SPECS:
        s = SPECS[i]
        checks.append(dict(property=i, quick_cmd=f"python3 tools/check.py {i} quick", thorough_cmd=f"python3 tools/check.py {i} thorough",
            technique=s.get("technique", "model checking: exhaustive bounded enumeration of operation sequences / inputs on the real code against a reference model"),
            level=s["level"], level_note=s.get("note", s["bounds"]["quick"])))
    else: na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="python3 -c 'import sys; sys.path.insert(0, \"checks\"); import specs'", checks=checks, not_applicable=na, notes=NOTES)
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
print(len(checks), "checks,", len(na), "not claimed")

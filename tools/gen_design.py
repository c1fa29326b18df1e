#!/usr/bin/env python3
"""Writes DESIGN.md from the prose below, properties.jsonl (titles) and checks/specs.py (bounds, assumptions)."""
import json, os, sys
root = os.path.join(os.path.dirname(__file__), ".."); sys.path.insert(0, os.path.join(root, "checks"))
import specs
P = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]

HEAD = open(os.path.join(root, "tools", "design", "head.md")).read()
TAIL = open(os.path.join(root, "tools", "design", "tail.md")).read()
NOTES = {}
cur = None
for l in open(os.path.join(root, "tools", "design", "notes.md")):
    if l.startswith("## "): cur = l[3:].split()[0]; NOTES[cur] = ""
    elif cur: NOTES[cur] += l
out = HEAD
for x in sorted(P, key=lambda x: x["id"]):
    s = specs.SPECS[x["id"]]
    eng = "A" if any(h.get("san") == "mcsched" for h in s["harnesses"]) else "B" if "lib/sim.hpp" in " ".join(s["assumptions"]) else "C"
    out += "### %s – %s (engine %s)\n\n%s\n\n" % (x["id"], x["title"], eng, NOTES.get(x["id"], "").strip())
    out += "*Quick bounds:* %s.\n*Thorough:* %s.\n" % (s["bounds"]["quick"], s["bounds"]["thorough"])
    out += "*Assumptions beyond the engine's:* %s\n\n" % ("; ".join(a for a in s["assumptions"] if a not in specs.ASSUME_A + specs.ASSUME_B + specs.ASSUME_C) or "none")
rows = "| planted bug | property | what it needs | caught by |\n|---|---|---|---|\n"
caught = dict(l.split(None, 1) for l in open(os.path.join(root, "tools", "design", "caught.txt")) if l.strip())
sd = os.path.join(root, "seeded")
for d in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open(os.path.join(sd, d, "meta.json")))
    rows += "| %s | %s | %s | %s |\n" % (d, m["property"], m["needs"].replace("|", "/"), caught.get(d, "?").strip())
out += TAIL.replace("@@SEEDS@@", rows)
open(os.path.join(root, "DESIGN.md"), "w").write(out)
missing = [x["id"] for x in P if x["id"] not in NOTES]
print("DESIGN.md", len(out), "missing notes:", missing)

#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the tables below."""
import json, os, re, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 "C33": "bounds a quantity over wall-clock time (how long a session object stays in memory); no code shape decides it, and the cache has no eviction whose shape could be checked",
 "C34": "a bound on elapsed time between a cluster change and its effect; depends on the watch latency of the API server and on scheduling, not on the source",
}
from tables import LEVELS
TECH = "static analysis: "
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
have = set(re.findall(r'(?:checks\["|reg\("|multi\(")(C\d\d)"', "".join(open(os.path.join(here, "analyzer", f)).read() for f in os.listdir(os.path.join(here, "analyzer")) if f.endswith(".go"))))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif i in have and i in LEVELS:
        tech, note = LEVELS[i]
        checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough", "technique": TECH + tech, "level": "other", "level_note": note})
    else:
        na.append({"property": i, "reason": "the check for this property is not built yet"})
m = {"version": 1, "setup_cmd": "./build.sh", "checks": checks, "not_applicable": na,
 "notes": "All checks are one analyzer (analyzer/, Go, golang.org/x/tools/go/ssa) over the type-checked SSA form of /repo's current tree; no hooks in /repo. Level 'other': static decision from source; DESIGN.md states per property what is decided, what is assumed and what is not covered."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1); open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks", [n["property"] for n in na])

#!/usr/bin/env python3
"""known_findings.json from the list of repairs (tools/fixed.txt: 'property commit what') and open findings (tools/open.json)."""
import json, os, subprocess
R = os.path.dirname(os.path.abspath(__file__))
out = []
for line in open(os.path.join(R, "fixed.txt")):
    line = line.strip()
    if line:
        pid, commit, what = line.split(" ", 2)
        out.append({"property": pid, "status": "fixed", "entry": "fixed: property=%s %s %s" % (pid, commit, what)})
op = os.path.join(R, "open.json")
if os.path.exists(op):
    out += json.load(open(op))
with open(os.path.join(R, "..", "known_findings.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")

#!/usr/bin/env python3
"""Rewrites the generated end of DESIGN.md: the repaired defects and the planted bugs."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, "DESIGN.md")
t = open(p).read()
t = t[:t.index("## Defects found and repaired")]
t += "## Defects found and repaired\n\n`known_findings.json` has one \"fixed\" entry per repair with the commit in /repo; there are no unrepaired findings.\n\n"
k = json.load(open(os.path.join(V, "known_findings.json")))
for x in sorted(k, key=lambda x: x["property"]):
    t += "* %s %s\n" % (x["property"], x["entry"].split(" ", 2)[2])
t += "\n## Planted bugs\n\nEach folder of `seeded/` holds one; `tools/seedcheck.sh` validates them the way vcheck does. Every one is caught by the quick check of its own property.\n\n| planted bug | caught by | needs |\n|---|---|---|\n"
for d in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    t += "| %s | %s | %s |\n" % (os.path.basename(os.path.dirname(d)), m["property"], m["needs"])
open(p, "w").write(t)

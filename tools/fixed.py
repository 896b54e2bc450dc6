#!/usr/bin/env python3
"""tools/fixed.py PROPERTY COMMIT TEXT: records a repaired defect in known_findings.json"""
import json, os, sys
f = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
l = json.load(open(f))
p, c, t = sys.argv[1:4]
l.append({"status": "fixed", "property": p, "commit": c, "entry": "fixed: property=%s %s %s" % (p, c, t)})
open(f, "w").write("[\n" + ",\n".join(" " + json.dumps(x) for x in l) + "\n]\n")

#!/usr/bin/env python3
"""Records a repaired defect: fixed.py PROPERTY WHAT (for the last commit in /repo)."""
import json, os, subprocess, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
k = json.load(open(p))
h = subprocess.run(["git", "-C", "/repo", "log", "--format=%h", "-1"], capture_output=True, text=True).stdout.strip()
k["fixed"].append("fixed: property=%s %s %s" % (sys.argv[1], h, sys.argv[2]))
json.dump(k, open(p, "w"), indent=1)
open(p, "a").write("\n")

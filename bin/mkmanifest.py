#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = dict(version=1, setup_cmd="python3 bin/check.py --setup",
         hooks=dict(guard="none: no hook was needed in /repo", enable="cargo build of /verif/harness/h with a path dependency on /repo", source_commits=[]),
         checks=[], not_applicable=[],
         notes="Every check executes the LLVM IR of the real code symbolically (symex/, z3); bounds per harness are in bin/props.py and in the evidence files. DESIGN.md has the rest.")
for i in ids:
    if i in props.CHECKS:
        c = props.CHECKS[i]
        m["checks"].append(dict(property=i, quick_cmd="python3 bin/check.py %s --tier quick" % i, thorough_cmd="python3 bin/check.py %s --tier thorough" % i,
            evidence_file="evidence/%s.json" % i, technique="symbolic execution of the compiled LLVM IR with z3",
            level=props.LEVEL,
            level_note=(c.get("note", "") + " Every input within the stated bounds is covered by solver verdicts on the optimised LLVM IR of the code in /repo; every counterexample is replayed natively before it is reported, and path witnesses are re-run natively to validate the encoding. Trusted: rustc's lowering, the executor in symex/, z3, and the reference in harness/.").strip()))
    else:
        m["not_applicable"].append(dict(property=i, reason=props.NOT_APPLICABLE.get(i, "no check has been built yet")))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(m["checks"]), "checks")

#!/usr/bin/env python3
"""Writes MANIFEST.json from checks/registry.py and properties.jsonl."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
from checks import registry
NA = {
 "C41": "the distribution of drawn values is a property of the random generator's output, not of the source; the ranges, independence and parameters of the draws are decided statically as part of C03, C18 and C22",
 "C42": "whether learning improves play quantifies over training runs and floating-point optimisation; no static argument bounds it",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks = []; na = []
for p in props:
    i = p["id"]
    if i in registry.CHECKS:
        rule = registry.CHECKS[i][0]
        checks.append({"property": i, "quick_cmd": "python3 run.py " + i, "thorough_cmd": "python3 run.py " + i,
            "technique": "static analysis of MIR: " + rule, "level": "other",
            "level_note": "Path-sensitive value-flow analysis of the compiler's MIR of the current tree; " + rule + ". Exact for all inputs within the stated domain; trusts rustc's MIR, the models of library calls in sa/models.py and ignores arithmetic overflow and index panics."})
    else: na.append({"property": i, "reason": NA.get(i, "no check yet: under construction")})
m = {"version": 1, "setup_cmd": "python3 sa/mir.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks are added to /repo. Every check extracts the MIR of the current tree again (compiler driver in extractor/)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", [x["property"] for x in na])

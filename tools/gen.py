"""writes properties.jsonl and MANIFEST.json from props.py and the registry"""
import json
import os
import sys

H = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [H, os.path.join(H, "..", "sa")]
from props import P            # noqa: E402
from registry import REG       # noqa: E402
try:
    from props import NA
except ImportError:
    NA = {}
TECH = "static analysis: value-flow fixpoint over rustc MIR"
R = os.path.join(H, "..")
with open(os.path.join(R, "properties.jsonl"), "w") as f:
    for i in sorted(P):
        if i in REG or i in NA:
            f.write(json.dumps(P[i]) + "\n")
checks = []
for i in sorted(REG):
    mod, fn, expl, assume = REG[i]
    checks.append({
        "property": i, "quick_cmd": "./run.sh %s quick" % i, "thorough_cmd": "./run.sh %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": TECH, "level": "other",
        "level_note": expl + " Trusted: " + "; ".join(assume) +
        ". Obligations the analysis cannot decide are reported as undecided in the evidence and raise no alarm."})
m = {"version": 1, "setup_cmd": "./run.sh setup", "checks": checks,
     "not_applicable": [{"property": i, "reason": NA[i]} for i in sorted(NA)],
     "notes": "All checks analyse the MIR of /repo's current source; nothing of it is executed. No hooks in /repo."}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
for i in P:
    if i not in REG and i not in NA:
        print("not claimed:", i)

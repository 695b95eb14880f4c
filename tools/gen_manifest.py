"""Writes MANIFEST.json from the table of properties that have a workload."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from dst.props import PROPS  # noqa

TECH = ("deterministic simulation with fault injection: seeded search over %s, judged by an "
        "executable reference model; minimised, exactly replaying traces")
NA = {}
ids = [json.loads(line)["id"] for line in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in ids:
    if p in PROPS:
        s = PROPS[p]
        checks.append({
            "property": p,
            "quick_cmd": "./check %s --tier quick" % p,
            "thorough_cmd": "./check %s --tier thorough" % p,
            "evidence_file": "evidence/%s.json" % p,
            "technique": TECH % s["search"],
            "level": "exploration",
            "level_note": s["note"]})
    else:
        na.append({"property": p, "reason": NA.get(p, "No check built yet.")})
m = {"version": 1, "setup_cmd": "./check --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every seam (hash iteration order, thread scheduling at bytecode "
              "granularity, interrupts at executed lines, log sinks, user supplied methods, "
              "predicates and constraints) exists outside the source. Checks load /repo/solver/*.py "
              "anew for every simulated run."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")

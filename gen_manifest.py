#!/usr/bin/env python3
"""Regenerates MANIFEST.json from targets.py and properties.jsonl."""
import json, os
from targets import PROPS, NOT_APPLICABLE
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PROPS:
        checks.append({
            "property": i,
            "quick_cmd": "./check %s --tier quick" % i,
            "thorough_cmd": "./check %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": PROPS[i].get("technique", "deterministic simulation: seeded scheduler and fault injection, oracle over the run's history"),
            "level": "exploration",
            "level_note": PROPS[i].get("note", "Seeded search over schedules, clock readings and faults of the real code; sampled, not exhaustive. "
                          "Trusts libsim's model of threads, time and I/O and the harness's reference model."),
        })
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "No check built yet.")})
m = {"version": 1, "setup_cmd": "./check --build", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo are needed: all seams are link-time interposition (see DESIGN.md)."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")

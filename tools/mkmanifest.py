#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
NA = {
}
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 tools/build.py", "checks": [], "not_applicable": []}
for i in ids:
    if i in PROPS:
        m["checks"].append({"property": i, "quick_cmd": "python3 tools/run.py %s quick" % i, "thorough_cmd": "python3 tools/run.py %s thorough" % i,
            "technique": "deterministic simulation with fault injection (seeded search over schedules and faults)", "level": "exploration",
            "level_note": PROPS[i].get("note", "Sampled, not exhaustive: no violation was found in the runs the evidence counts. Trusts the simulated kernel and C library, the oracle in the harness, and the compiler.")})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "No check is built for it yet; the design in DESIGN.md says how simulation decides it.")})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)

#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from plan import PLAN
NA = {
    "C16": "The recovery code only exists in builds with ENABLEFT (off by default). At this commit such a build does not work: the shipped example combi_example_faults hangs in the manager's constructor (updateCombiParameters waits for a status through the simft layer that never arrives) with and without injected faults, on the unmodified tree; the upstream test suite ftolerance is disabled. There is no working behaviour to check and the repair is not small.",
}
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PLAN:
        checks.append({
            "property": i,
            "quick_cmd": f"python3 check.py {i} quick",
            "thorough_cmd": f"python3 check.py {i} thorough",
            "technique": "deterministic simulation with fault injection: seeded search over schedules, deliveries and faults",
            "level": PLAN[i]["level"],
            "level_note": PLAN[i].get("note", "Seeded random exploration of schedules, layouts and workloads of the real code against a sequential reference model; not exhaustive."),
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "No check built yet.")})
m = {"version": 1, "setup_cmd": "python3 tools/build.py norm && python3 tools/build.py thr",
     "hooks": {"guard": "DISCOTEC_SIM_BYTES_PER_MIB",
               "enable": "tools/build.py compiles /repo/src with -DDISCOTEC_SIM_BYTES_PER_MIB=64 so that chunked reductions and files have several chunks on small grids; everything else is reached by linking the unmodified sources against a simulated MPI, OpenMP, socket, file and clock layer.",
               "source_commits": ["676b13a"]},
     "checks": checks, "not_applicable": na,
     "notes": "See DESIGN.md. replay.sh FILE replays a recorded violation."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)

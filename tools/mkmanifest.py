#!/usr/bin/env python3
"""Regenerate MANIFEST.json from properties.jsonl, plan.py and the notes below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from plan import PLAN  # noqa: E402
from techniques import TECH  # noqa: E402
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PLAN:
        checks.append({"property": i, "quick_cmd": f"python3 tools/check.py {i} --tier quick",
                       "thorough_cmd": f"python3 tools/check.py {i} --tier thorough",
                       "technique": TECH[i], "level": "exploration",
                       "level_note": "Runs the real library under generated workloads and schedules; says nothing about inputs and "
                                     "interleavings that were not executed. Coverage per run is in evidence/" + i + ".json."})
    else:
        na.append({"property": i, "reason": "the algorithms live under examples/, which counts as test "
                   "files here: monitors for them exist (harness/u_exg.cpp, u_exs.cpp, u_exm.cpp) and found 33 genuine defects, but the "
                   "repairs may not be committed to /repo (they are kept as patches in examples_repairs/, see DESIGN.md), and a check that "
                   "runs into most of the programs' defects on the unchanged tree decides nothing"})
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")

#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from props.py."""
import json, os
from props import PROPS, NOT_APPLICABLE
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for pid, p in sorted(PROPS.items()):
        assert len(p["title"]) <= 80, (pid, len(p["title"]))
        assert set(p["over"]) <= {"schedules", "crash_points", "inputs", "programs", "histories", "configurations", "fault_sequences"}, pid
        rec = {"id": pid, "title": p["title"], "statement": p["statement"],
               "quantifier": {"over": p["over"], "text": p["qtext"]},
               "why_tests_cant": p["why"],
               "anchors": {"files": p["files"], "mechanism": p["mech"], "hook_needed": None}}
        f.write(json.dumps(rec) + "\n")
checks = []
for pid, p in sorted(PROPS.items()):
    checks.append({"property": pid, "quick_cmd": "python3 run.py %s --tier quick" % pid,
                   "thorough_cmd": "python3 run.py %s --tier thorough" % pid,
                   "technique": p["tech"], "level": "model_checking",
                   "level_note": p["note"] + "Bounds: " + p["bounds"] + "."})
man = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
       "not_applicable": [{"property": k, "reason": v} for k, v in NOT_APPLICABLE.items()],
       "notes": "No hooks in /repo: randomness is controlled by replacing the engines of <random> at compile time (force-included header)."}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)

#!/usr/bin/env python3
"""writes MANIFEST.json and properties.jsonl from props.py"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NA
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "deterministic simulation with fault injection: seeded search over schedules and fault sequences of the real code in one process; "
with open(V + "/properties.jsonl", "w") as f:
    for k in sorted(list(PROPS) + list(NA)):
        p = (PROPS.get(k) or NA.get(k))["spec"]
        o = {"id": k, "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "observe_at": p["obs"], "hook_needed": "none"}}
        assert len(o["title"]) <= 80, k
        f.write(json.dumps(o) + "\n")
m = {"version": 1, "setup_cmd": "python3 lib/build.py all",
     "checks": [{"property": k, "quick_cmd": "python3 lib/check.py %s quick" % k, "thorough_cmd": "python3 lib/check.py %s thorough" % k,
                 "technique": TECH + v["oracle"], "level": v.get("level", "exploration"), "level_note": v["note"]} for k, v in sorted(PROPS.items())],
     "not_applicable": [{"property": k, "reason": v["reason"]} for k, v in sorted(NA.items())],
     "notes": "All checks are one simulator (sim/, lib/build.py) with per-subsystem scenarios; see DESIGN.md. No hooks in /repo: libc, pthread and file-system calls are interposed at link time."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)

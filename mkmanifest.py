#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
TECH = {
    "input": "bounded-exhaustive model checking of the implementation: every input of enumerated families is executed on the real code and compared with a reference model",
    "history": "explicit-state model checking of the implementation: every operation sequence up to a depth is executed on the real code in lockstep with a state-machine model",
    "schedule": "stateless model checking of the implementation: operation histories up to a depth, and two-thread schedules with one or two preemptions at instrumented control-flow edges under a controlled scheduler, all executed on the real code",
}
HIST = {"C05", "C15", "C16", "C17", "C20"}
SCHED = {"C21"}
skip = set(os.environ.get("SKIP", "").split())
checks = []
for line in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if i in skip:
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"bash check.sh {i} quick",
        "thorough_cmd": f"bash check.sh {i} thorough",
        "level": "model_checking",
        "level_note": "exhaustive within the bounds listed per stage in the evidence file; no sampling",
        "technique": TECH["schedule" if i in SCHED else "history" if i in HIST else "input"],
    })
m = {"version": 1, "setup_cmd": "bash check.sh setup", "checks": checks, "not_applicable": []}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)

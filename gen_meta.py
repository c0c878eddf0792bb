#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (props.py)."""
import json, os
from props import PROPS, NOT_APPLICABLE, HOOKS
# kinds of quantification of the later entries, whose "over" is text
KINDS = {
    "C13": ["inputs", "schedules", "fault_sequences", "configurations"],
    "C14": ["histories", "schedules", "crash_points", "configurations"],
    "C15": ["histories", "schedules", "crash_points", "fault_sequences"],
    "C16": ["histories", "schedules", "fault_sequences"],
    "C17": ["histories", "schedules", "fault_sequences"],
    "C20": ["histories", "schedules", "fault_sequences"],
    "C21": ["inputs", "schedules", "crash_points", "fault_sequences"],
    "C22": ["histories", "schedules", "fault_sequences"],
    "C23": ["histories", "schedules", "crash_points", "fault_sequences"],
    "C25": ["histories", "schedules", "crash_points"],
}


def quantifier(p):
    if isinstance(p["over"], list):
        return {"over": p["over"], "text": p["forall"]}
    return {"over": KINDS[p["id"]], "text": "for %s (%s)" % (p["over"], p["forall"])}


here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": quantifier(p),
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": p["mech"], "state": p.get("state", []), "observe_at": [p["observe"]] if isinstance(p.get("observe"), str) else p.get("observe", []), "hook_needed": ""},
        }) + "\n")
checks = []
for p in PROPS:
    if p.get("na"):
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "bash check.sh %s quick" % p["id"],
        "thorough_cmd": "bash check.sh %s thorough" % p["id"],
        "technique": "deterministic simulation with fault injection: " + p["tech"],
        "level": "exploration",
        "level_note": p["note"],
    })
m = {"version": 1, "setup_cmd": "bash sim/build.sh", "hooks": HOOKS, "checks": checks, "not_applicable": NOT_APPLICABLE}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")

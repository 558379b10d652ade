#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json
import os

from props import PROPS

HERE = os.path.dirname(os.path.realpath(__file__))
NA = {}
if os.path.exists(os.path.join(HERE, "not_applicable.json")):
    NA = json.load(open(os.path.join(HERE, "not_applicable.json")))
props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl")) if x.strip()]
checks = []
for p in props:
    i = p["id"]
    if i not in PROPS:
        assert i in NA, i
        continue
    s = PROPS[i]
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py %s --tier quick" % i,
        "thorough_cmd": "python3 check.py %s --tier thorough" % i,
        "technique": s.get("technique", "deterministic simulation with fault injection: seeded search over schedules and faults"),
        "level": s.get("level", "exploration"),
        "level_note": s["rule"] + " Assumes: " + "; ".join(s["assumptions"]) + ".",
        "evidence_file": "evidence/%s.json" % i,
    })
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "hooks": {"guard": "none", "enable": "No hooks: the checks compile /repo's sources unmodified against simulated std, rayon-core, num_cpus and libc I/O (sim/mkws.py).", "source_commits": []},
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
    "notes": "See DESIGN.md. Replay a failure with: python3 check.py --replay FILE",
}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)

#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from vlib/props.py and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from vlib.props import PROPS, NA
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for i in ids:
    if i in PROPS:
        checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py " + i,
                       "technique": "deterministic simulation of the whole daemon with fault injection (seeded random schedules and faults)",
                       "level": "exploration", "level_note": PROPS[i]["note"]})
na = [{"property": i, "reason": NA.get(i, "no check is built yet")} for i in ids if i not in PROPS]
m = {"version": 1, "setup_cmd": "python3 -m vlib.build >/dev/null 2>&1; true",
     "hooks": {"guard": "none", "enable": "no hooks: /repo's sources are compiled unchanged into shared objects; the simulator interposes on the C library calls below them", "source_commits": []},
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)

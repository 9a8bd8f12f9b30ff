#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry and the property list."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "bin"))
from registry import CHECKS
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
NA = {}
checks = []; na = []
for p in props:
    pid = p["id"]
    if pid in CHECKS:
        c = CHECKS[pid]
        checks.append(dict(property=pid, quick_cmd="python3 bin/check.py %s --tier quick" % pid, thorough_cmd="python3 bin/check.py %s --tier thorough" % pid,
            evidence_file="evidence/%s.json" % pid, technique=c.get("technique", "stateless model checking: exhaustive bounded enumeration of executions of the real code against an independent oracle"),
            level="model_checking", level_note=c.get("note", "Every case within the stated bounds is executed on the code built from /repo under AddressSanitizer and compared with an independent oracle; nothing is sampled. Outside the bounds nothing is claimed.")))
    else:
        na.append(dict(property=pid, reason=NA.get(pid, "No check built yet.")))
m = dict(version=1, setup_cmd="python3 -c \"import sys; sys.path.insert(0,'bin'); import registry\" && g++ --version", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)

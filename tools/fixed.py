#!/usr/bin/env python3
"""Adds 'fixed' entries: tools/fixed.py PID commit 'what failed'"""
import json, sys, os, subprocess
f = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
k = json.load(open(f)); pid, commit, what = sys.argv[1:4]
k["fixed"].append("fixed: property=%s %s %s" % (pid, commit, what)) if (k["fixed"] and isinstance(k["fixed"][0], str)) or not k["fixed"] else k["fixed"].append(dict(property=pid, commit=commit, what=what))
json.dump(k, open(f, "w"), indent=1)

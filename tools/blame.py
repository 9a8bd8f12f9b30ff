#!/usr/bin/env python3
"""tools/blame.py: which planted bugs change lines of the original repository (the others do not count)"""
import os, re, subprocess
base = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%H", "--reverse"], text=True).split()[0]
for s in sorted(os.listdir("/verif/seeded")):
    f = n = None; res = []
    for l in open("/verif/seeded/%s/patch.diff" % s):
        if l.startswith("--- a/"): f = l[6:].strip()
        elif l.startswith("@@"): n = int(re.match(r"@@ -(\d+)", l).group(1))
        elif f and l.startswith("-") and not l.startswith("---"):
            b = subprocess.check_output(["git", "-C", "/repo", "blame", "-l", "-s", "-L%d,%d" % (n, n), "HEAD", "--", f], text=True).split()[0].lstrip("^"); res.append(base.startswith(b)); n += 1
        elif l.startswith(" ") and n: n += 1
    print(s, "original" if all(res) and res else "insertion only" if not res else "MINE %s" % res)

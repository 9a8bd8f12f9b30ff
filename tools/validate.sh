#!/bin/bash
# tools/validate.sh SEED...: build and run the stable tests of a copy of /repo (in /tmp/vr) with each planted bug
set -u; v=/tmp/vr
if [ ! -d $v ]; then mkdir $v; git -C /repo archive HEAD | tar -x -C $v; (cd $v; git init -q; git add -A; git -c user.email=a@b -c user.name=a commit -qm x); fi
sed "s|/repo|$v|g; s|-j8|-j${J:-6}|" /opt/vp/build.sh > /tmp/vr_build.sh
sed "s|/repo|$v|g; s|/opt/vp/build.sh|/tmp/vr_build.sh|; s|-j6|-j${J:-6}|; s|/opt/vp/results|/opt/vp/results|" /opt/vp/test.sh > /tmp/vr_test.sh
for s in "$@"; do
  git -C $v checkout -q -- .; git -C $v apply /verif/seeded/$s/patch.diff || { echo "$s: does not apply"; continue; }
  bash /tmp/vr_test.sh /tmp/vr_out.json > /tmp/vr_log 2>&1
  python3 - "$s" <<'PY'
import json, sys
b = json.load(open("/opt/vp/BASELINE.json")); r = json.load(open("/tmp/vr_out.json"))
base = b.get("stable") or b.get("passed") or b; base = set(x if isinstance(x, str) else x.get("id") for x in base); p = set(r["passed"])
m = sorted(base - p); print(sys.argv[1], "passes the stable tests" if not m else "FAILS %d: %s" % (len(m), " ".join(m)[:300]), len(p))
PY
done
git -C $v checkout -q -- .

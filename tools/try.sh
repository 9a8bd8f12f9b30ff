#!/bin/bash
# tools/try.sh SEED [CHECK...]: runs the check(s) on /repo with the planted bug applied, then undoes it
cd /verif; s=$1; shift; p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
git -C /repo apply /verif/seeded/$s/patch.diff || exit 2
for c in ${@:-$p}; do timeout 900 python3 bin/check.py $c 2>&1 | cut -c1-250 | grep -v "^ *case" | tail -6; done
git -C /repo checkout -- .

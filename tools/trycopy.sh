#!/bin/bash
# tools/trycopy.sh SEED [CHECK...]: like try.sh but on a throw-away copy of /repo/include (several can run at once)
cd /verif; s=$1; shift; p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
w=$(mktemp -d /tmp/tc_XXXXXX); cp -a ${VERIF_REPO:-/repo}/include $w/; (cd $w && git init -q . && git apply /verif/seeded/$s/patch.diff) || exit 2
for c in ${@:-$p}; do r=$(VERIF_REPO=$w VERIF_TAG=-$s timeout 900 python3 bin/check.py $c 2>&1 | cut -c1-250 | grep -v "^ *case"); echo "$s $c: $(grep -c '^VIOLATION' <<<"$r") violations | $(grep '^VIOLATION\|ERROR' <<<"$r" | head -1) | $(grep quick: <<<"$r" | tail -1)"; done
find $w -delete; rm -rf /verif/build/$p-$s /verif/build/*-$s

#!/bin/bash
# run with cwd /repo: exit 0 when the property holds for this history, 1 when it does not
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d) || exit 2
mpicxx -std=c++14 -O1 -w -fopenmp -I include "$d/demo.cpp" -o "$t/demo" -llapack -lblas || exit 2
cd "$t" && OMP_NUM_THREADS=${THREADS:-2} timeout 100 ./demo; rc=$?
find "$t" -delete
exit $rc

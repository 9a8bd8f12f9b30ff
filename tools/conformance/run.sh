#!/bin/bash
# Compares the controlled MPI runtime with OpenMPI call by call, on 1 to 4 processes.
set -e; h=$(cd "$(dirname "$0")" && pwd); e=$h/../../engine; w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
mpicxx -std=c++14 -O1 -w "$h/mpi_conformance.cpp" -o $w/real
g++ -std=c++14 -O1 -g -w -DSHIM -I$e/mpi -I$e "$h/mpi_conformance.cpp" $e/mpi_shim.cpp -pthread -o $w/shim
for n in 1 2 3 4; do
  mpirun --allow-run-as-root --oversubscribe -np $n $w/real $w/real$n; $w/shim $n $w/shim$n
  for p in $(seq 0 $((n-1))); do cmp $w/real$n.$p $w/shim$n.$p; done; echo "$n processes: $(cat $w/real$n.* | wc -l) results agree"
done

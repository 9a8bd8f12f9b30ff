// Controlled MPI runtime. Processes are coroutines of the calling thread; a policy decides which one runs at every
// communication, so that all arrival orders can be enumerated. Every collective is checked against MPI's matching rules.
#ifndef VERIF_MPI_SHIM_HPP
#define VERIF_MPI_SHIM_HPP
#include <cstdint>
#include <functional>
#include <string>
#include <vector>
#include <mpi.h>
namespace mpimc {
struct Options {
    int world = 1;                 // number of processes
    bool synchronizing = false;    // collectives without data dependence also wait for every process (allowed by MPI)
    std::function<int(int)> choose; // number of enabled processes (the running one first if enabled) -> index; empty: 0
};
struct Outcome { bool ok = true; std::string what; uint64_t collectives = 0, points = 0, messages = 0; std::vector<std::string> trace; };
// runs body(rank in the world) on every process until all are done or something is wrong
Outcome run(const Options &o, const std::function<void(int)> &body);
// communicator of the processes world_ranks, numbered in that order; same handle on all of them; free with drop_comms
MPI_Comm make_comm(const std::vector<int> &world_ranks);
void drop_comms();
int self(); // rank in the world of the running process, -1 outside
} // namespace mpimc
#endif

// Happens-before race detector for code compiled with -fsanitize=thread and run by the controlled scheduler: vector
// clocks per team thread, one shadow cell per byte accessed inside a parallel region.
#ifndef VERIF_RACE_HPP
#define VERIF_RACE_HPP
#include <cstdint>
#include <string>
namespace race {
void install();                 // connects to the hooks of the OpenMP runtime
void enable(bool on);           // record accesses in parallel regions
void reset();                   // forget reported races
bool found();
std::string report();           // first race since reset
struct Pause { bool was; Pause(); ~Pause(); }; // accesses of the harness itself do not count
struct Stats { uint64_t accesses, granules, regions; };
Stats stats();
void access(const void *p, size_t n, bool write, const char *what);
}
#endif

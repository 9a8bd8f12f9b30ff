// Controlled OpenMP runtime: replaces libgomp at link time.  All team threads are real pthreads but only
// the one holding the token runs; at each scheduling point a policy decides who runs next.
#ifndef VERIF_OMP_SHIM_HPP
#define VERIF_OMP_SHIM_HPP
#include <functional>
#include <string>
#include <cstdint>
namespace ompmc {
// policy(n_enabled, current_index or -1 if the running thread cannot go on, where) -> index in the enabled
// list, whose first entry is the running thread if it is enabled, then ascending ids.
typedef std::function<int(int, bool, const char *)> Policy;
void set_threads(int n);
int get_threads();
void set_policy(Policy p); // empty: default round robin
struct Stats { uint64_t regions, points, grabs, criticals; int max_threads_with_work; uint64_t choices, schedule /* hash of the order of grabs and locks */; };
// partial-order reduction: only the order of loop grabs and lock acquisitions is a choice (complete for code without data races)
void set_reduction(bool on);
// a lock of the program (mutex) under the control of the scheduler
void lock_object(const void *);
void unlock_object(const void *);
Stats stats();
void reset_stats();
int current_tid();
bool in_parallel();
// called when no thread is enabled
extern void (*on_deadlock)(const std::string &);
// hooks for the race detector (may be null)
extern void (*hook_fork)(int nthreads);
extern void (*hook_join)(int nthreads);
extern void (*hook_acquire)(int tid, const void *lock);
extern void (*hook_release)(int tid, const void *lock);
extern void (*hook_barrier)(int nthreads);
} // namespace ompmc
#endif

#include "omp_shim.hpp"
#include <cstdio>
#include <cstdlib>
#include <map>
#include <pthread.h>
#include <semaphore.h>
#include <time.h>
#include <unistd.h>
#include <vector>

namespace ompmc {
void (*on_deadlock)(const std::string &) = nullptr;
void (*hook_fork)(int) = nullptr;
void (*hook_join)(int) = nullptr;
void (*hook_acquire)(int, const void *) = nullptr;
void (*hook_release)(int, const void *) = nullptr;
void (*hook_barrier)(int) = nullptr;

static int g_threads = 1;
static Policy g_policy;
static bool g_reduce = false;
static Stats g_stats;

struct WorkShare { bool init = false; long start, end, incr; long next; std::vector<char> left; bool single_taken = false; int arrived = 0; void *copyprivate = nullptr; };
// LOCAL: up to its next operation the thread does nothing that depends on the order of the others
struct Op { enum Kind { LOCAL, GRAB, LOCK } kind = LOCAL; const void *lock = nullptr; int ws = -1; };
enum St { RUN, BLOCK_LOCK, BARRIER, DONE };
struct Team {
    int n;
    std::vector<St> st;
    std::vector<const void *> waiting;
    std::vector<int> ws_index; // per thread
    std::vector<WorkShare> ws;
    std::map<const void *, int> owner;
    std::vector<char> had_work;
    std::vector<Op> pend; // next synchronization operation of each thread
    int cur = 0, at_barrier = 0;
};
static Team *g_team = nullptr; // at most one multi-thread team at a time (nested regions are serialized)
static thread_local int t_tid = 0;
static thread_local Team *t_serial = nullptr;

struct Worker { pthread_t th; sem_t sem; void (*fn)(void *); void *data; };
static std::vector<Worker *> g_pool;
static sem_t g_master;
static bool g_master_init = false;

static sem_t *sem_of(int tid) { return tid == 0 ? &g_master : &g_pool[tid - 1]->sem; }
static void wait_token(int tid) { while (sem_wait(sem_of(tid)) != 0) {} }

static int choose(bool cur_enabled, const char *where) {
    Team &T = *g_team;
    int en[64], n = 0;
    if (g_reduce) {
        // only the order of successful loop grabs and of lock acquisitions matters: everything else runs at once
        for (int k = 0; k < T.n; k++) {
            int i = (T.cur + k) % T.n;
            if (T.st[i] != RUN) continue;
            const Op &o = T.pend[i];
            bool local = o.kind == Op::LOCAL;
            if (o.kind == Op::GRAB) { const WorkShare &w = T.ws[o.ws]; local = w.init && !(w.incr > 0 ? w.next < w.end : w.next > w.end); }
            if (local) { g_stats.points++; return i; }
        }
        int ids[64];
        if (cur_enabled) ids[n++] = T.cur;
        for (int i = 0; i < T.n; i++) if (T.st[i] == RUN && !(cur_enabled && i == T.cur)) ids[n++] = i;
        int m = 0; bool first_is_cur = false;
        for (int i = 0; i < n; i++) { // a thread waiting for a held lock is not enabled
            const Op &o = T.pend[ids[i]];
            if (o.kind == Op::LOCK && T.owner.count(o.lock)) continue;
            if (ids[i] == T.cur && cur_enabled) first_is_cur = true;
            en[m++] = ids[i];
        }
        if (m == 0) return -1;
        g_stats.points++; g_stats.choices += m > 1;
        return en[m == 1 || !g_policy ? 0 : g_policy(m, first_is_cur, where)];
    }
    if (cur_enabled) en[n++] = T.cur;
    for (int i = 0; i < T.n; i++)
        if (T.st[i] == RUN && !(cur_enabled && i == T.cur)) en[n++] = i;
    if (n == 0) return -1;
    g_stats.points++;
    int k;
    if (n == 1) k = 0;
    else if (g_policy) k = g_policy(n, cur_enabled, where);
    else { // round robin: next id after the running one
        k = 0; int best = 1000;
        for (int i = 0; i < n; i++) { int d = (en[i] - T.cur + T.n - 1) % T.n; if (d < best) { best = d; k = i; } }
    }
    return en[k];
}
static void give(int to) {
    Team &T = *g_team;
    T.cur = to;
    sem_post(sem_of(to));
}
static void deadlock() {
    if (on_deadlock) on_deadlock("no thread of the team is enabled");
    fprintf(stderr, "ompmc: deadlock\n");
    _exit(93);
}
// scheduling point of the running thread, which stays runnable
static void point(const char *where, Op op = Op()) {
    Team &T = *g_team;
    int me = t_tid;
    T.pend[me] = op;
    int to = choose(true, where);
    if (to < 0) deadlock();
    if (to != me) { give(to); wait_token(me); }
    T.pend[me] = Op();
}
// the running thread cannot go on (state already set)
static void block(const char *where) {
    int me = t_tid;
    int to = choose(false, where);
    if (to < 0) deadlock();
    give(to);
    wait_token(me);
}
// returns true if every thread is done, i.e. the caller was the last one
static bool finish(const char *where) {
    Team &T = *g_team;
    int me = t_tid;
    T.st[me] = DONE;
    int to = choose(false, where);
    if (to < 0) { // all done (or blocked)
        bool all = true;
        for (int i = 0; i < T.n; i++) if (T.st[i] != DONE) all = false;
        if (!all) deadlock();
        if (me != 0) sem_post(&g_master);
        return true;
    }
    give(to);
    return false;
}
static void *pool_main(void *p) {
    Worker *w = (Worker *)p;
    int tid = 0;
    for (size_t i = 0; i < g_pool.size(); i++) if (g_pool[i] == w) tid = (int)i + 1;
    t_tid = tid;
    while (true) {
        while (sem_wait(&w->sem) != 0) {}
        w->fn(w->data);
        finish("thread end");
    }
    return nullptr;
}

static void run_parallel(void (*fn)(void *), void *data, unsigned nthreads, WorkShare *first) {
    if (!g_master_init) { sem_init(&g_master, 0, 0); g_master_init = true; }
    int n = nthreads ? (int)nthreads : g_threads;
    g_stats.regions++;
    if (g_team || t_serial || n <= 1) { // nested or single: serialized team of one
        Team serial;
        serial.n = 1; serial.st.assign(1, RUN); serial.waiting.assign(1, nullptr); serial.ws_index.assign(1, first ? 0 : -1); serial.had_work.assign(1, 0);
        if (first) serial.ws.push_back(*first);
        Team *old = t_serial;
        t_serial = &serial;
        fn(data);
        t_serial = old;
        return;
    }
    Team team;
    team.n = n; team.st.assign(n, RUN); team.waiting.assign(n, nullptr); team.ws_index.assign(n, first ? 0 : -1); team.had_work.assign(n, 0); team.pend.assign(n, Op());
    if (first) team.ws.push_back(*first);
    team.cur = 0;
    while ((int)g_pool.size() < n - 1) {
        Worker *w = new Worker;
        sem_init(&w->sem, 0, 0);
        g_pool.push_back(w);
        pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 8 << 20);
        pthread_create(&w->th, &at, pool_main, w);
    }
    for (int i = 1; i < n; i++) { g_pool[i - 1]->fn = fn; g_pool[i - 1]->data = data; }
    g_team = &team;
    int save = t_tid;
    t_tid = 0;
    if (hook_fork) hook_fork(n);
    point("region start");
    fn(data);
    if (!finish("master end")) wait_token(0);
    if (hook_join) hook_join(n);
    int w = 0; for (int i = 0; i < n; i++) w += team.had_work[i];
    if (w > g_stats.max_threads_with_work) g_stats.max_threads_with_work = w;
    g_team = nullptr;
    t_tid = save;
}

static Team &team_of() { return t_serial ? *t_serial : *g_team; }
static int tid_in_team() { return t_serial ? 0 : t_tid; }
static bool orphan() { return !t_serial && !g_team; }

static int T_ws() { return team_of().ws_index[tid_in_team()]; }
static WorkShare &ws_enter() {
    Team &T = team_of();
    int k = ++T.ws_index[tid_in_team()];
    while ((int)T.ws.size() <= k) T.ws.emplace_back();
    return T.ws[k];
}
static bool grab(long *s, long *e) {
    Team &T = team_of();
    int me = tid_in_team();
    if (!t_serial) { Op o; o.kind = Op::GRAB; o.ws = T.ws_index[me]; point("loop chunk", o); }
    WorkShare &w = T.ws[T.ws_index[me]];
    bool has = w.incr > 0 ? w.next < w.end : w.next > w.end;
    if (!has) return false;
    g_stats.grabs++;
    if (!t_serial) { g_stats.schedule = g_stats.schedule * 1099511628211ull + me * 8 + 1; }
    T.had_work[me] = 1;
    *s = w.next; *e = w.next + w.incr; w.next = *e;
    return true;
}
static bool loop_start(long start, long end, long incr, long *s, long *e) {
    WorkShare &w = ws_enter();
    if (!w.init) { w.init = true; w.start = w.next = start; w.end = end; w.incr = incr; }
    return grab(s, e);
}
static void lock(const void *l) {
    if (!g_team) return;
    Team &T = *g_team;
    int me = t_tid;
    Op o; o.kind = Op::LOCK; o.lock = l;
    point("lock", o);
    while (T.owner.count(l)) { T.st[me] = BLOCK_LOCK; T.waiting[me] = l; block("lock wait"); }
    T.owner[l] = me;
    g_stats.criticals++;
    g_stats.schedule = g_stats.schedule * 1099511628211ull + me * 8 + 2;
    if (hook_acquire) hook_acquire(me, l);
}
static void unlock(const void *l) {
    if (!g_team) return;
    Team &T = *g_team;
    int me = t_tid;
    if (hook_release) hook_release(me, l);
    T.owner.erase(l);
    for (int i = 0; i < T.n; i++) if (T.st[i] == BLOCK_LOCK && T.waiting[i] == l) { T.st[i] = RUN; T.waiting[i] = nullptr; }
    point("unlock");
}
void lock_object(const void *l) { lock(l); }
void unlock_object(const void *l) { unlock(l); }
static void barrier() {
    if (orphan() || t_serial) return;
    Team &T = *g_team;
    T.at_barrier++;
    if (T.at_barrier == T.n) {
        T.at_barrier = 0;
        if (hook_barrier) hook_barrier(T.n);
        for (int i = 0; i < T.n; i++) if (T.st[i] == BARRIER) T.st[i] = RUN;
        point("barrier exit");
    } else { T.st[t_tid] = BARRIER; block("barrier"); }
}

void set_threads(int n) { g_threads = n; }
int get_threads() { return g_threads; }
void set_policy(Policy p) { g_policy = p; }
void set_reduction(bool on) { g_reduce = on; }
Stats stats() { return g_stats; }
void reset_stats() { g_stats = Stats(); }
int current_tid() { return t_tid; } // thread of the outermost team
bool in_parallel() { return g_team != nullptr; }
} // namespace ompmc
using namespace ompmc;

extern "C" {
typedef bool gbool;
void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned) { run_parallel(fn, data, n, nullptr); }
unsigned GOMP_parallel_reductions(void (*fn)(void *), void *data, unsigned n, unsigned) { run_parallel(fn, data, n, nullptr); return n ? n : g_threads; }
static void par_loop(void (*fn)(void *), void *data, unsigned n, long s, long e, long i) {
    WorkShare w; w.init = true; w.start = w.next = s; w.end = e; w.incr = i;
    run_parallel(fn, data, n, &w);
}
#define PL(name) void name(void (*fn)(void *), void *data, unsigned n, long s, long e, long i, long, unsigned) { par_loop(fn, data, n, s, e, i); }
PL(GOMP_parallel_loop_static) PL(GOMP_parallel_loop_dynamic) PL(GOMP_parallel_loop_guided) PL(GOMP_parallel_loop_nonmonotonic_dynamic) PL(GOMP_parallel_loop_nonmonotonic_guided)
#define PLR(name) void name(void (*fn)(void *), void *data, unsigned n, long s, long e, long i, unsigned) { par_loop(fn, data, n, s, e, i); }
PLR(GOMP_parallel_loop_runtime) PLR(GOMP_parallel_loop_nonmonotonic_runtime) PLR(GOMP_parallel_loop_maybe_nonmonotonic_runtime)
#define LS(name) gbool name(long s, long e, long i, long, long *a, long *b) { if (orphan()) { *a = s; *b = e; return i > 0 ? s < e : s > e; } return loop_start(s, e, i, a, b); }
LS(GOMP_loop_static_start) LS(GOMP_loop_dynamic_start) LS(GOMP_loop_guided_start) LS(GOMP_loop_nonmonotonic_dynamic_start) LS(GOMP_loop_nonmonotonic_guided_start)
#define LSR(name) gbool name(long s, long e, long i, long *a, long *b) { if (orphan()) { *a = s; *b = e; return i > 0 ? s < e : s > e; } return loop_start(s, e, i, a, b); }
LSR(GOMP_loop_runtime_start) LSR(GOMP_loop_nonmonotonic_runtime_start) LSR(GOMP_loop_maybe_nonmonotonic_runtime_start)
#define LN(name) gbool name(long *a, long *b) { if (orphan()) return false; return grab(a, b); }
LN(GOMP_loop_static_next) LN(GOMP_loop_dynamic_next) LN(GOMP_loop_guided_next) LN(GOMP_loop_nonmonotonic_dynamic_next) LN(GOMP_loop_nonmonotonic_guided_next)
LN(GOMP_loop_runtime_next) LN(GOMP_loop_nonmonotonic_runtime_next) LN(GOMP_loop_maybe_nonmonotonic_runtime_next)
typedef unsigned long long ull;
#define ULS(name) gbool name(gbool up, ull s, ull e, ull i, ull, ull *a, ull *b) { if (orphan()) { *a = s; *b = e; return up ? s < e : s > e; } return loop_start((long)s, (long)e, (long)i, (long *)a, (long *)b); }
ULS(GOMP_loop_ull_static_start) ULS(GOMP_loop_ull_dynamic_start) ULS(GOMP_loop_ull_guided_start) ULS(GOMP_loop_ull_nonmonotonic_dynamic_start) ULS(GOMP_loop_ull_nonmonotonic_guided_start)
#define ULN(name) gbool name(ull *a, ull *b) { if (orphan()) return false; return grab((long *)a, (long *)b); }
ULN(GOMP_loop_ull_static_next) ULN(GOMP_loop_ull_dynamic_next) ULN(GOMP_loop_ull_guided_next) ULN(GOMP_loop_ull_nonmonotonic_dynamic_next) ULN(GOMP_loop_ull_nonmonotonic_guided_next)
void GOMP_loop_end(void) { barrier(); }
void GOMP_loop_end_nowait(void) {}
void GOMP_barrier(void) { barrier(); }
static char g_crit_unnamed, g_atomic;
void GOMP_critical_start(void) { if (!orphan()) lock(&g_crit_unnamed); }
void GOMP_critical_end(void) { if (!orphan()) unlock(&g_crit_unnamed); }
void GOMP_critical_name_start(void **p) { if (!orphan()) lock(p); }
void GOMP_critical_name_end(void **p) { if (!orphan()) unlock(p); }
void GOMP_atomic_start(void) { if (!orphan()) lock(&g_atomic); }
void GOMP_atomic_end(void) { if (!orphan()) unlock(&g_atomic); }
gbool GOMP_single_start(void) {
    if (orphan()) return true;
    WorkShare &w = ws_enter();
    if (!t_serial) { Op o; o.kind = Op::GRAB; o.ws = T_ws(); point("single", o); }
    WorkShare &w2 = team_of().ws[team_of().ws_index[tid_in_team()]];
    (void)w;
    if (w2.single_taken) return false;
    w2.single_taken = true;
    return true;
}
void *GOMP_single_copy_start(void) { if (GOMP_single_start()) return nullptr; barrier(); return team_of().ws[team_of().ws_index[tid_in_team()]].copyprivate; }
void GOMP_single_copy_end(void *d) { if (orphan()) return; team_of().ws[team_of().ws_index[tid_in_team()]].copyprivate = d; barrier(); }
unsigned GOMP_sections_start(unsigned n) { long a, b; if (orphan()) return 0; return loop_start(1, (long)n + 1, 1, &a, &b) ? (unsigned)a : 0; }
unsigned GOMP_sections_next(void) { long a, b; return grab(&a, &b) ? (unsigned)a : 0; }
void GOMP_sections_end(void) { barrier(); }
void GOMP_sections_end_nowait(void) {}
void GOMP_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long size, long align, gbool, unsigned, void **, int, void *) {
    if (cpy) { char *buf = (char *)malloc(size + align); char *arg = (char *)(((uintptr_t)buf + align - 1) & ~(uintptr_t)(align - 1)); cpy(arg, data); fn(arg); free(buf); }
    else fn(data);
}
void GOMP_taskwait(void) {}
void GOMP_taskgroup_start(void) {}
void GOMP_taskgroup_end(void) {}
void GOMP_taskyield(void) {}
int omp_get_thread_num(void) { return tid_in_team(); }
int omp_get_num_threads(void) { return orphan() ? 1 : team_of().n; }
int omp_get_max_threads(void) { return g_threads; }
int omp_in_parallel(void) { return g_team != nullptr; }
void omp_set_num_threads(int n) { g_threads = n; }
int omp_get_num_procs(void) { return g_threads; }
int omp_get_level(void) { return orphan() ? 0 : 1; }
void omp_set_dynamic(int) {}
void omp_set_nested(int) {}
double omp_get_wtime(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
typedef struct { void *p; } shim_lock_t;
void omp_init_lock(void **) {}
void omp_destroy_lock(void **) {}
void omp_set_lock(void **l) { if (!orphan()) lock(l); }
void omp_unset_lock(void **l) { if (!orphan()) unlock(l); }
}

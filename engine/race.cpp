#include "race.hpp"
#include "omp_shim.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <complex>
#include <execinfo.h>
#include <malloc.h>
#include <map>
#include <new>
#include <pthread.h>
#include <unordered_map>
#include <vector>
// The program's own allocator calls are wrapped, so the detector keeps its data in mmap-like plain malloc'd memory
// obtained through the real functions.
extern "C" {
void *__real_malloc(size_t);
void __real_free(void *);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
}
namespace race {
static const int MAXT = 4;
typedef uint32_t Clock;
static bool g_on = false, g_active = false; // active: inside a parallel region of several threads
static int g_n = 0;
static uint32_t g_region = 0;
static Clock VC[MAXT][MAXT];
static Stats g_stats;
static bool g_found = false;
static char g_report[2000];
struct Granule { uintptr_t key; uint32_t region; uint8_t wt[8]; Clock w[8]; Clock r[MAXT][8]; const char *wpc[8]; };
// open addressing table, emptied by changing the region number
static Granule *tab = nullptr; static size_t cap = 0, used = 0; static uint32_t tab_region = 0;
static Granule *slot(uintptr_t key) {
    if (!cap) { cap = 1 << 15; tab = (Granule *)__real_calloc(cap, sizeof(Granule)); }
    if (tab_region != g_region) { tab_region = g_region; used = 0; }
    if (used * 2 > cap) {
        Granule *old = tab; size_t oc = cap;
        cap *= 2; tab = (Granule *)__real_calloc(cap, sizeof(Granule));
        for (size_t i = 0; i < oc; i++) if (old[i].region == g_region) { size_t h = (old[i].key * 0x9E3779B97F4A7C15ull >> 17) & (cap - 1); while (tab[h].region == g_region) h = (h + 1) & (cap - 1); tab[h] = old[i]; }
        __real_free(old);
    }
    size_t h = (key * 0x9E3779B97F4A7C15ull >> 17) & (cap - 1);
    while (tab[h].region == g_region && tab[h].key != key) h = (h + 1) & (cap - 1);
    Granule &g = tab[h];
    if (g.region != g_region) { memset(&g, 0, sizeof g); g.key = key; g.region = g_region; used++; g_stats.granules++; }
    return &g;
}
static const char *stage_name(void *pc) {
    static char b[200];
    void *a[1] = {pc};
    char **s = backtrace_symbols(a, 1);
    snprintf(b, sizeof b, "%s", s ? s[0] : "?");
    if (s) __real_free(s);
    return b;
}
static void raced(const void *p, size_t n, bool w, int me, int other, bool ow, const char *what, void *pc) {
    if (g_found) return;
    g_found = true;
    g_active = false;
    snprintf(g_report, sizeof g_report, "%s of %zu bytes at %p by thread %d (%s at %s) not ordered with an earlier %s by thread %d", w ? "write" : "read", n, p, me, what, stage_name(pc), ow ? "write" : "read", other);
}
static void acc(const void *p, size_t n, bool write, const char *what, void *pc) {
    int t = ompmc::current_tid();
    if (t >= MAXT || t < 0) return;
    g_stats.accesses++;
    uintptr_t a = (uintptr_t)p, e = a + n;
    Clock now = VC[t][t];
    while (a < e) {
        uintptr_t key = a >> 3;
        Granule *g = slot(key);
        for (; a < e && (a >> 3) == key; a++) {
            int b = a & 7;
            if (g->w[b] && g->wt[b] != t && g->w[b] > VC[t][g->wt[b]]) { raced(p, n, write, t, g->wt[b], true, what, pc); return; }
            if (write) {
                for (int o = 0; o < g_n; o++) if (o != t && g->r[o][b] > VC[t][o]) { raced(p, n, write, t, o, false, what, pc); return; }
                g->w[b] = now; g->wt[b] = (uint8_t)t;
            } else g->r[t][b] = now;
        }
    }
}
static void forget(const void *p, size_t n) { // memory handed out again
    if (!g_active || !p) return;
    for (uintptr_t k = (uintptr_t)p >> 3; k <= ((uintptr_t)p + n - 1) >> 3 && n; k++) {
        Granule *g = slot(k);
        memset(g->w, 0, sizeof g->w); memset(g->r, 0, sizeof g->r);
    }
}
struct Sync { Clock c[MAXT]; };
static std::map<const void *, Sync> *syncs = nullptr;
static void acquire(int t, const void *l) {
    if (!g_active || t >= MAXT) return;
    bool a = g_active; g_active = false;
    auto it = syncs->find(l);
    if (it != syncs->end()) for (int i = 0; i < MAXT; i++) if (it->second.c[i] > VC[t][i]) VC[t][i] = it->second.c[i];
    g_active = a;
}
static void release(int t, const void *l) {
    if (!g_active || t >= MAXT) return;
    bool a = g_active; g_active = false;
    Sync &s = (*syncs)[l];
    for (int i = 0; i < MAXT; i++) if (VC[t][i] > s.c[i]) s.c[i] = VC[t][i];
    VC[t][t]++;
    g_active = a;
}
static void fork(int n) {
    if (!g_on || n > MAXT) return;
    g_n = n; g_region++; g_stats.regions++;
    if (!syncs) syncs = new std::map<const void *, Sync>;
    syncs->clear();
    memset(VC, 0, sizeof VC);
    for (int i = 0; i < n; i++) VC[i][i] = 1;
    g_active = true;
}
static void join(int) { g_active = false; }
static void barrier(int) {
    if (!g_active) return;
    Clock m[MAXT] = {0, 0, 0, 0};
    for (int i = 0; i < g_n; i++) for (int j = 0; j < MAXT; j++) if (VC[i][j] > m[j]) m[j] = VC[i][j];
    for (int i = 0; i < g_n; i++) { memcpy(VC[i], m, sizeof m); VC[i][i]++; }
}
void install() { ompmc::hook_fork = fork; ompmc::hook_join = join; ompmc::hook_acquire = acquire; ompmc::hook_release = release; ompmc::hook_barrier = barrier; }
void enable(bool on) { g_on = on; }
void reset() { g_found = false; }
bool found() { return g_found; }
std::string report() { return g_report; }
Stats stats() { return g_stats; }
Pause::Pause() : was(g_active) { g_active = false; }
Pause::~Pause() { g_active = was; }
void access(const void *p, size_t n, bool write, const char *what) { if (g_active) acc(p, n, write, what, __builtin_return_address(0)); }
} // namespace race
using namespace race;
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n) \
    void __tsan_read##n(void *p) { if (g_active) acc(p, n, false, "read", PC); } \
    void __tsan_write##n(void *p) { if (g_active) acc(p, n, true, "write", PC); } \
    void __tsan_volatile_read##n(void *p) { if (g_active) acc(p, n, false, "read", PC); } \
    void __tsan_volatile_write##n(void *p) { if (g_active) acc(p, n, true, "write", PC); } \
    void __tsan_unaligned_read##n(void *p) { if (g_active) acc(p, n, false, "read", PC); } \
    void __tsan_unaligned_write##n(void *p) { if (g_active) acc(p, n, true, "write", PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { if (g_active) acc(p, n, false, "read", PC); }
void __tsan_write_range(void *p, unsigned long n) { if (g_active) acc(p, n, true, "write", PC); }
void __tsan_vptr_update(void **p, void *v) { if (g_active) acc(p, sizeof(void *), *p != v, "vptr", PC); }
void __tsan_vptr_read(void **p) { if (g_active) acc(p, sizeof(void *), false, "vptr", PC); }
// atomic operations synchronize on their address
static void at(const volatile void *p) { if (g_active) { int t = ompmc::current_tid(); race::acquire(t, (const void *)p); race::release(t, (const void *)p); } }
#define ATOMIC(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T *a, int) { at(a); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##bits##_store(volatile T *a, T v, int) { at(a); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_exchange(volatile T *a, T v, int) { at(a); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int) { at(a); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int) { at(a); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int) { at(a); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int) { at(a); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int) { at(a); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int) { at(a); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { at(a); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { at(a); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------ functions that are not instrumented, wrapped at link time
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); forget(p, n); return p; }
void *__wrap_calloc(size_t n, size_t m) { void *p = __real_calloc(n, m); forget(p, n * m); return p; }
void *__wrap_realloc(void *q, size_t n) { void *p = __real_realloc(q, n); forget(p, n); return p; }
void __wrap_free(void *p) { __real_free(p); }
void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) { if (g_active) { acc(s, n, false, "memcpy", PC); if (g_active) acc(d, n, true, "memcpy", PC); } return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { if (g_active) { acc(s, n, false, "memmove", PC); if (g_active) acc(d, n, true, "memmove", PC); } return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int v, size_t n) { if (g_active) acc(d, n, true, "memset", PC); return __real_memset(d, v, n); }
int __real___cxa_guard_acquire(uint64_t *);
void __real___cxa_guard_release(uint64_t *);
int __wrap___cxa_guard_acquire(uint64_t *g) { at(g); return __real___cxa_guard_acquire(g); }
void __wrap___cxa_guard_release(uint64_t *g) { at(g); __real___cxa_guard_release(g); }
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { if (ompmc::in_parallel()) { ompmc::lock_object(m); return 0; } return __real_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { if (ompmc::in_parallel()) { ompmc::unlock_object(m); return 0; } return __real_pthread_mutex_unlock(m); }
}
void *operator new(size_t n) { void *p = __real_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); forget(p, n); return p; }
void *operator new[](size_t n) { void *p = __real_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); forget(p, n); return p; }
void operator delete(void *p) noexcept { __real_free(p); }
void operator delete[](void *p) noexcept { __real_free(p); }
void operator delete(void *p, size_t) noexcept { __real_free(p); }
void operator delete[](void *p, size_t) noexcept { __real_free(p); }

// BLAS kernels used inside parallel regions
static void cols(const void *p, int m, int n, int ld, size_t es, bool w, const char *what) {
    if (!g_active || m <= 0 || n <= 0) return;
    for (int j = 0; j < n && g_active; j++) acc((const char *)p + (size_t)j * ld * es, (size_t)m * es, w, what, PC);
}
static void stride(const void *p, int n, int inc, size_t es, bool w, const char *what) {
    if (!g_active || n <= 0) return;
    int a = inc < 0 ? -inc : inc;
    for (int i = 0; i < n && g_active; i++) acc((const char *)p + (size_t)i * a * es, es, w, what, PC);
}
extern "C" {
#define BLAS(T, c) \
    void __real_##c##axpy_(int *n, T *a, T *x, int *ix, T *y, int *iy); \
    void __wrap_##c##axpy_(int *n, T *a, T *x, int *ix, T *y, int *iy) { stride(x, *n, *ix, sizeof(T), false, "axpy"); stride(y, *n, *iy, sizeof(T), false, "axpy"); stride(y, *n, *iy, sizeof(T), true, "axpy"); __real_##c##axpy_(n, a, x, ix, y, iy); } \
    void __real_##c##scal_(int *n, T *a, T *x, int *ix); \
    void __wrap_##c##scal_(int *n, T *a, T *x, int *ix) { stride(x, *n, *ix, sizeof(T), true, "scal"); __real_##c##scal_(n, a, x, ix); } \
    void __real_##c##gemv_(char *t, int *m, int *n, T *al, T *A, int *lda, T *x, int *ix, T *be, T *y, int *iy); \
    void __wrap_##c##gemv_(char *t, int *m, int *n, T *al, T *A, int *lda, T *x, int *ix, T *be, T *y, int *iy) { \
        bool N = *t == 'N'; cols(A, *m, *n, *lda, sizeof(T), false, "gemv"); stride(x, N ? *n : *m, *ix, sizeof(T), false, "gemv"); stride(y, N ? *m : *n, *iy, sizeof(T), true, "gemv"); \
        __real_##c##gemv_(t, m, n, al, A, lda, x, ix, be, y, iy); } \
    void __real_##c##gemm_(char *ta, char *tb, int *m, int *n, int *k, T *al, T *A, int *lda, T *B, int *ldb, T *be, T *C, int *ldc); \
    void __wrap_##c##gemm_(char *ta, char *tb, int *m, int *n, int *k, T *al, T *A, int *lda, T *B, int *ldb, T *be, T *C, int *ldc) { \
        cols(A, *ta == 'N' ? *m : *k, *ta == 'N' ? *k : *m, *lda, sizeof(T), false, "gemm"); cols(B, *tb == 'N' ? *k : *n, *tb == 'N' ? *n : *k, *ldb, sizeof(T), false, "gemm"); cols(C, *m, *n, *ldc, sizeof(T), true, "gemm"); \
        __real_##c##gemm_(ta, tb, m, n, k, al, A, lda, B, ldb, be, C, ldc); }
#define SYMM(T, c, name, v) \
    void __real_##c##name##mm_(char *s, char *u, int *m, int *n, T *al, T *A, int *lda, T *B, int *ldb, T *be, T *C, int *ldc); \
    void __wrap_##c##name##mm_(char *s, char *u, int *m, int *n, T *al, T *A, int *lda, T *B, int *ldb, T *be, T *C, int *ldc) { \
        cols(B, *m, *n, *ldb, sizeof(T), false, "symm"); cols(C, *m, *n, *ldc, sizeof(T), true, "symm"); \
        __real_##c##name##mm_(s, u, m, n, al, A, lda, B, ldb, be, C, ldc); } \
    void __real_##c##name##mv_(char *u, int *n, T *al, T *A, int *lda, T *x, int *ix, T *be, T *y, int *iy); \
    void __wrap_##c##name##mv_(char *u, int *n, T *al, T *A, int *lda, T *x, int *ix, T *be, T *y, int *iy) { \
        stride(x, *n, *ix, sizeof(T), false, "symv"); stride(y, *n, *iy, sizeof(T), true, "symv"); \
        __real_##c##name##mv_(u, n, al, A, lda, x, ix, be, y, iy); }
typedef std::complex<float> CF; typedef std::complex<double> CD;
BLAS(float, s) BLAS(double, d) BLAS(CF, c) BLAS(CD, z)
SYMM(float, s, sy, v) SYMM(double, d, sy, v) SYMM(CF, c, sy, v) SYMM(CD, z, sy, v) SYMM(CF, c, he, v) SYMM(CD, z, he, v)
}

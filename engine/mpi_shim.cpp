#include "mpi_shim.hpp"
#include <algorithm>
#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <memory>
#include <sstream>
#include <ucontext.h>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
#define FIBER_SAN 1
#endif
struct mpimc_comm { std::vector<int> ranks; std::vector<int> seq; int id; };
struct mpimc_request { bool send, done; void *buf; int bytes, type, peer, tag; MPI_Comm comm; int owner; MPI_Status st; };
namespace mpimc {
enum Kind { BARRIER = 1, BCAST, REDUCE, ALLREDUCE, SCAN, EXSCAN, REDSCAT, GATHER, SCATTER, ALLGATHER, ALLTOALL, DUP, SPLIT };
static const char *const kname[] = {"", "Barrier", "Bcast", "Reduce", "Allreduce", "Scan", "Exscan", "Reduce_scatter", "Gather", "Scatter", "Allgather", "Alltoall", "Comm_dup", "Comm_split"};
struct Part { // what one process brings to a collective
    bool here = false; const void *s = nullptr; void *r = nullptr; int stype = 0, rtype = 0, op = 0, root = -1; std::vector<int> scount, sdispl, rcount, rdispl; std::vector<char> snap; bool in_place = false, done = false; int color = 0, key = 0; MPI_Comm *newcomm = nullptr;
};
struct Slot { int kind = 0, arrived = 0; MPI_Comm comm; std::vector<Part> p; std::vector<int> order; bool applied = false; };
struct Fiber { void *sp = nullptr; ucontext_t ctx; std::vector<char> stack; bool done = false, started = false; std::function<bool()> ready; std::string where; void *fake = nullptr; };
static const size_t STACK = 512 * 1024;
static std::vector<std::unique_ptr<Fiber>> pool; static int R = 0, cur = -1; static ucontext_t main_ctx; static void *main_sp = nullptr; static const void *main_stack = nullptr; static size_t main_size = 0; static void *main_fake = nullptr;
static const Options *opt = nullptr; static const std::function<void(int)> *body = nullptr; static Outcome *out = nullptr; static bool aborted = false;
static mpimc_comm world; static std::vector<std::unique_ptr<mpimc_comm>> comms; static std::vector<mpimc_comm> selfs; static std::exception_ptr pending;
typedef std::pair<MPI_Comm, int> Key;
static std::vector<std::pair<Key, std::unique_ptr<Slot>>> slots; static std::vector<std::unique_ptr<mpimc_request>> reqs;
struct Stop {};
int self() { return cur; }
static void fail(const std::string &w) { if (out->ok) { out->ok = false; out->what = w; } aborted = true; }
static void san_start(void **save, const void *b, size_t n) {
#ifdef FIBER_SAN
    __sanitizer_start_switch_fiber(save, b, n);
#else
    (void)save; (void)b; (void)n;
#endif
}
static void san_finish(void *fake, const void **b, size_t *n) {
#ifdef FIBER_SAN
    __sanitizer_finish_switch_fiber(fake, b, n);
#else
    (void)fake; (void)b; (void)n;
#endif
}
#if defined(__x86_64__)
#define FAST_SWITCH 1
// saves the registers the calling convention keeps and the stack pointer, and continues where the other side was saved
__attribute__((naked, noinline)) static void switch_stack(void **, void *) {
    __asm__ volatile("pushq %rbp\n pushq %rbx\n pushq %r12\n pushq %r13\n pushq %r14\n pushq %r15\n movq %rsp, (%rdi)\n movq %rsi, %rsp\n popq %r15\n popq %r14\n popq %r13\n popq %r12\n popq %rbx\n popq %rbp\n ret");
}
#endif
static void to_main(Fiber &f) {
#ifdef FAST_SWITCH
    switch_stack(&f.sp, main_sp);
#else
    swapcontext(&f.ctx, &main_ctx);
#endif
}
static void fiber_main() {
    san_finish(nullptr, &main_stack, &main_size);
    int me = cur;
    try { (*body)(me); } catch (Stop &) {} catch (...) { if (!pending) pending = std::current_exception(); aborted = true; }
    pool[me]->done = true;
    san_start(nullptr, main_stack, main_size);
    to_main(*pool[me]);
    std::abort();
}
static void resume(int k) {
    Fiber &f = *pool[k]; cur = k;
    if (!f.started) {
        f.started = true;
#ifdef FAST_SWITCH
#ifdef FIBER_SAN
        __asan_unpoison_memory_region(f.stack.data(), f.stack.size());
#endif
        uintptr_t top = ((uintptr_t)(f.stack.data() + f.stack.size()) & ~(uintptr_t)15) - 72; void **t = (void **)top; t[0] = nullptr; t[-1] = (void *)fiber_main; f.sp = t - 7; for (int i = 2; i <= 7; i++) t[-i] = nullptr;
#else
        getcontext(&f.ctx); f.ctx.uc_stack.ss_sp = f.stack.data(); f.ctx.uc_stack.ss_size = f.stack.size(); f.ctx.uc_link = nullptr; makecontext(&f.ctx, fiber_main, 0);
#endif
    }
    san_start(&main_fake, f.stack.data(), f.stack.size());
#ifdef FAST_SWITCH
    switch_stack(&main_sp, f.sp);
#else
    swapcontext(&main_ctx, &f.ctx);
#endif
    san_finish(main_fake, nullptr, nullptr); cur = -1;
}
static void yield(const char *where, std::function<bool()> ready) { // back to the scheduler until ready
    Fiber &f = *pool[cur]; f.where = where; f.ready = std::move(ready); int me = cur;
    san_start(&f.fake, main_stack, main_size); to_main(f); san_finish(pool[me]->fake, &main_stack, &main_size);
    if (aborted) throw Stop();
}
static std::string who(int r) { return std::to_string(r); }
Outcome run(const Options &o, const std::function<void(int)> &b) {
    Outcome res; out = &res; opt = &o; body = &b; R = o.world; aborted = false; pending = nullptr; slots.clear(); reqs.clear();
    while ((int)pool.size() < R) { pool.emplace_back(new Fiber); pool.back()->stack.resize(STACK); }
    for (int i = 0; i < R; i++) { Fiber &f = *pool[i]; f.done = f.started = false; f.ready = nullptr; f.where = "start"; f.fake = nullptr; }
    world.ranks.resize(R); for (int i = 0; i < R; i++) world.ranks[i] = i; world.seq.assign(R, 0); for (auto &c : comms) c->seq.assign(c->ranks.size(), 0);
    selfs.assign(R, mpimc_comm()); for (int i = 0; i < R; i++) { selfs[i].ranks = {i}; selfs[i].seq = {0}; }
    int last = -1;
    while (true) {
        // A process that has not started, or whose communication is complete, only touches its own memory until it
        // arrives at its next communication: such steps commute with everything and need no choice. The order in
        // which processes arrive at communications is the choice.
        std::vector<int> en; bool all = true; int local = -1;
        auto enabled = [&](int i) { Fiber &f = *pool[i]; return !f.done && (aborted || !f.ready || f.ready()); };
        for (int i = 0; i < R; i++) { Fiber &f = *pool[i]; if (!f.done) all = false; if (local < 0 && enabled(i) && (aborted || !f.started || f.ready)) local = i; }
        if (all) break;
        if (local >= 0) en.push_back(local);
        else { if (last >= 0 && enabled(last)) en.push_back(last); for (int i = 0; i < R; i++) if (i != last && enabled(i)) en.push_back(i); }
        if (en.empty()) { std::string s = "deadlock:"; for (int i = 0; i < R; i++) s += " process " + who(i) + (pool[i]->done ? " has ended" : " waits in " + pool[i]->where) + ";"; fail(s); continue; }
        int k = 0; if (!aborted && en.size() > 1) { res.points++; if (o.choose) k = o.choose((int)en.size()); }
        last = en[k]; if (aborted && !pool[last]->started) { pool[last]->done = true; continue; } resume(last);
    }
    if (res.ok && !pending) for (auto &s : slots) if (s.second->arrived != (int)s.second->p.size()) { std::string m = std::string(kname[s.second->kind]) + ": only some processes took part ("; for (size_t i = 0; i < s.second->p.size(); i++) if (s.second->p[i].here) m += " " + std::to_string(i); fail(m + " )"); break; }
    if (res.ok && !pending) for (auto &r : reqs) if (!r->done) { fail("a communication was never completed"); break; }
    slots.clear(); reqs.clear(); cur = -1; out = nullptr;
    if (pending) { auto e = pending; pending = nullptr; std::rethrow_exception(e); }
    return res;
}
MPI_Comm make_comm(const std::vector<int> &r) { comms.emplace_back(new mpimc_comm); comms.back()->ranks = r; comms.back()->seq.assign(r.size(), 0); comms.back()->id = (int)comms.size(); return comms.back().get(); }
void drop_comms() { comms.clear(); }

static int tsize(int t) { switch (t) { case MPI_CHAR: case MPI_SIGNED_CHAR: case MPI_UNSIGNED_CHAR: case MPI_BYTE: case MPI_C_BOOL: case MPI_CXX_BOOL: return 1; case MPI_SHORT: case MPI_UNSIGNED_SHORT: return 2; case MPI_INT: case MPI_UNSIGNED: case MPI_FLOAT: return 4; case MPI_LONG: case MPI_UNSIGNED_LONG: case MPI_LONG_LONG: case MPI_UNSIGNED_LONG_LONG: case MPI_DOUBLE: case MPI_C_COMPLEX: case MPI_INT64_T: case MPI_UINT64_T: return 8; case MPI_C_DOUBLE_COMPLEX: return 16; default: return 0; } }
static int my_rank(MPI_Comm c) { for (size_t i = 0; i < c->ranks.size(); i++) if (c->ranks[i] == cur) return (int)i; fail("process " + who(cur) + " uses a communicator it does not belong to"); throw Stop(); }
static void bad(const Slot &s, const std::string &m) { fail(std::string(kname[s.kind]) + ": " + m); throw Stop(); }
template <class T> static void fold(T *a, const T *b, int n, int op) { for (int i = 0; i < n; i++) switch (op) { case MPI_SUM: a[i] = a[i] + b[i]; break; case MPI_PROD: a[i] = a[i] * b[i]; break; default: break; } }
template <class T> static bool fold_ord(T *a, const T *b, int n, int op) { for (int i = 0; i < n; i++) switch (op) { case MPI_MAX: if (b[i] > a[i]) a[i] = b[i]; break; case MPI_MIN: if (b[i] < a[i]) a[i] = b[i]; break; case MPI_LAND: a[i] = (T)((a[i] != T(0)) && (b[i] != T(0))); break; case MPI_LOR: a[i] = (T)((a[i] != T(0)) || (b[i] != T(0))); break; default: fold(a + i, b + i, 1, op); } return op == MPI_SUM || op == MPI_PROD || op == MPI_MAX || op == MPI_MIN || op == MPI_LAND || op == MPI_LOR; }
static bool reduce_into(void *a, const void *b, int n, int t, int op) {
    switch (t) {
    case MPI_FLOAT: return fold_ord((float *)a, (const float *)b, n, op) && op != MPI_LAND && op != MPI_LOR;
    case MPI_DOUBLE: return fold_ord((double *)a, (const double *)b, n, op) && op != MPI_LAND && op != MPI_LOR;
    case MPI_INT: return fold_ord((int *)a, (const int *)b, n, op);
    case MPI_UNSIGNED: return fold_ord((unsigned *)a, (const unsigned *)b, n, op);
    case MPI_LONG: case MPI_LONG_LONG: case MPI_INT64_T: return fold_ord((long *)a, (const long *)b, n, op);
    case MPI_UNSIGNED_LONG: case MPI_UNSIGNED_LONG_LONG: case MPI_UINT64_T: return fold_ord((unsigned long *)a, (const unsigned long *)b, n, op);
    case MPI_CHAR: case MPI_SIGNED_CHAR: return fold_ord((signed char *)a, (const signed char *)b, n, op);
    case MPI_UNSIGNED_CHAR: case MPI_C_BOOL: case MPI_CXX_BOOL: return fold_ord((unsigned char *)a, (const unsigned char *)b, n, op);
    case MPI_C_COMPLEX: fold((std::complex<float> *)a, (const std::complex<float> *)b, n, op); return op == MPI_SUM || op == MPI_PROD;
    case MPI_C_DOUBLE_COMPLEX: fold((std::complex<double> *)a, (const std::complex<double> *)b, n, op); return op == MPI_SUM || op == MPI_PROD;
    default: return false;
    }
}
static bool overlap(const void *a, size_t n, const void *b, size_t m) { const char *x = (const char *)a, *y = (const char *)b; return n && m && x < y + m && y < x + n; }
// segments read or written on each process: used to copy data and to find illegal overlaps
static void check_segments(const Slot &s, int r, const char *what, const std::vector<int> &cnt, const std::vector<int> &dis, int ts) {
    for (size_t i = 0; i < cnt.size(); i++) { if (cnt[i] < 0) bad(s, std::string("negative ") + what + " count on process " + who(r)); if (dis.size() && dis[i] < 0 && cnt[i] > 0) bad(s, std::string("negative ") + what + " displacement on process " + who(r)); }
    if (what[0] == 'r' && dis.size()) for (size_t i = 0; i < cnt.size(); i++) for (size_t j = 0; j < i; j++) if (cnt[i] && cnt[j] && dis[i] < dis[j] + cnt[j] && dis[j] < dis[i] + cnt[i]) bad(s, "two receive blocks overlap on process " + who(r));
    (void)ts;
}
static size_t span(const std::vector<int> &cnt, const std::vector<int> &dis, int ts) { size_t m = 0; for (size_t i = 0; i < cnt.size(); i++) if (cnt[i] > 0) m = std::max(m, (size_t)((dis.size() ? dis[i] : 0) + cnt[i]) * ts); return m; }
// the collective call of the running process
static int collective(MPI_Comm comm, int kind, Part &&in) {
    if (cur < 0) { fprintf(stderr, "mpimc: collective outside a run\n"); _Exit(94); }
    if (!comm) { fail(std::string(kname[kind]) + " on a null communicator"); throw Stop(); }
    int me = my_rank(comm), n = (int)comm->ranks.size(); yield(kname[kind], nullptr); // arrival order is a choice
    int k = comm->seq[me]++; Slot *sp = nullptr; for (auto &e : slots) if (e.first == Key(comm, k)) sp = e.second.get();
    if (!sp) { slots.emplace_back(Key(comm, k), std::unique_ptr<Slot>(new Slot)); sp = slots.back().second.get(); sp->comm = comm; sp->kind = kind; sp->p.resize(n); out->collectives++; }
    Slot &s = *sp; if (s.kind != kind) bad(s, "process " + who(me) + " calls " + kname[kind] + " instead (collective " + who(k) + ")");
    Part &p = s.p[me]; p = std::move(in); p.here = true; s.arrived++; s.order.push_back(me); int st = tsize(p.stype), rt = tsize(p.rtype);
    for (int q = 0; q < n; q++) if (q != me && s.p[q].here) {
        Part &o = s.p[q]; if (o.root != p.root) bad(s, "roots differ: " + who(o.root) + " on process " + who(q) + ", " + who(p.root) + " on process " + who(me)); if (o.op != p.op) bad(s, "operations differ");
    }
    if (p.root >= n || (p.root < 0 && (kind == BCAST || kind == REDUCE || kind == GATHER || kind == SCATTER))) bad(s, "illegal root " + who(p.root));
    if ((p.s && !p.in_place && p.stype && !st) || (p.r && p.rtype && !rt)) bad(s, "unknown datatype");
    check_segments(s, me, "send", p.scount, p.sdispl, st); check_segments(s, me, "receive", p.rcount, p.rdispl, rt);
    size_t ss = span(p.scount, p.sdispl, st), rs = span(p.rcount, p.rdispl, rt);
    bool r_sig = kind == ALLREDUCE || kind == SCAN || kind == EXSCAN || kind == REDSCAT || kind == ALLGATHER || kind == ALLTOALL || ((kind == REDUCE || kind == GATHER) && me == p.root) || kind == SCATTER;
    bool s_sig = kind != SCATTER || me == p.root;
    if (p.in_place && !(kind == ALLREDUCE || kind == SCAN || kind == EXSCAN || kind == REDSCAT || kind == ALLGATHER || kind == ALLTOALL || ((kind == REDUCE || kind == GATHER) && me == p.root) || (kind == SCATTER && me == p.root))) bad(s, "MPI_IN_PLACE is not allowed on process " + who(me));
    if (r_sig && s_sig && !p.in_place && p.r && p.s && overlap(p.s, ss, p.r, rs)) bad(s, "send and receive buffers overlap on process " + who(me));
    const void *src = p.in_place ? p.r : p.s; size_t sz = p.in_place ? (kind == ALLGATHER || kind == ALLTOALL || kind == GATHER || kind == REDUCE || kind == ALLREDUCE || kind == SCAN || kind == EXSCAN || kind == REDSCAT ? rs : 0) : ss;
    if (kind == BCAST) { src = p.r; sz = me == p.root ? rs : 0; }
    if (!s_sig) sz = 0;
    if (sz) { p.snap.resize(sz); if (src) memcpy(p.snap.data(), src, sz); else bad(s, "null buffer on process " + who(me)); }
    bool wait_all = opt->synchronizing || !(kind == BCAST || kind == SCATTER || kind == REDUCE || kind == GATHER), is_root = me == p.root, gives = kind == BCAST || kind == SCATTER;
    std::string where = std::string(kname[kind]) + "#" + std::to_string(k);
    if (!wait_all && gives != is_root) { int root = p.root; yield(where.c_str(), [&s, gives, root, n] { return gives ? s.p[root].here : s.arrived == n; }); }
    else if (wait_all) yield(where.c_str(), [&s, n] { return s.arrived == n; });
    // deliver to this process
    auto put = [&](void *dst, size_t off, const char *from, size_t bytes) { if (bytes) { if (!dst) bad(s, "null receive buffer on process " + who(me)); memcpy((char *)dst + off, from, bytes); } };
    auto same = [&](const Part &a, int cnt_a, int ta, int cnt_b, int tb, const char *w, int q) { (void)a; if (ta != tb) bad(s, std::string("datatypes differ between processes ") + who(q) + " and " + who(me)); if (cnt_a != cnt_b) bad(s, std::string(w) + ": process " + who(q) + " sends " + who(cnt_a) + " elements, process " + who(me) + " expects " + who(cnt_b)); };
    Part &P = s.p[me];
    switch (kind) {
    case BCAST: if (!is_root) { Part &o = s.p[P.root]; same(o, o.rcount[0], o.rtype, P.rcount[0], P.rtype, "block", P.root); put(P.r, 0, o.snap.data(), o.snap.size()); } break;
    case REDUCE: case ALLREDUCE: case SCAN: case EXSCAN: case REDSCAT:
        if (kind != REDUCE || is_root) {
            std::vector<char> acc; int tot = 0, first = -1; for (int v : P.rcount) tot += v;
            for (int q : s.order) {
                Part &o = s.p[q]; int tq = 0; for (int v : o.rcount) tq += v;
                if (o.rtype != P.rtype) bad(s, "datatypes differ between processes " + who(q) + " and " + who(me)); if (tq != tot || o.rcount.size() != P.rcount.size() || (kind == REDSCAT && o.rcount != P.rcount)) bad(s, "counts differ: " + who(tq) + " on process " + who(q) + ", " + who(tot) + " on process " + who(me));
                if ((kind == SCAN && q > me) || (kind == EXSCAN && q >= me)) continue;
                if (first < 0) { acc = o.snap; first = q; } else if (tot && !reduce_into(acc.data(), o.snap.data(), tot, P.rtype, P.op)) bad(s, "operation not defined for the datatype");
            }
            if (kind == REDSCAT) { size_t off = 0; for (int q = 0; q < me; q++) off += (size_t)P.rcount[q] * rt; put(P.r, 0, acc.data() + off, (size_t)P.rcount[me] * rt); }
            else if (first >= 0) put(P.r, 0, acc.data(), (size_t)tot * rt);
        }
        break;
    case GATHER: case ALLGATHER:
        if (kind == ALLGATHER || is_root) for (int q = 0; q < n; q++) {
            Part &o = s.p[q]; size_t off = (size_t)(P.rdispl.size() ? P.rdispl[q] : q * P.rcount[0]) * rt; int want = P.rdispl.size() ? P.rcount[q] : P.rcount[0];
            if (o.in_place) { if (q == me) continue; int have = o.rdispl.size() ? o.rcount[q] : o.rcount[0]; same(o, have, o.rtype, want, P.rtype, "block", q); put(P.r, off, o.snap.data() + (size_t)(o.rdispl.size() ? o.rdispl[q] : q * o.rcount[0]) * rt, (size_t)have * rt); }
            else { same(o, o.scount[0], o.stype, want, P.rtype, "block", q); put(P.r, off, o.snap.data(), o.snap.size()); }
        }
        break;
    case SCATTER: {
        Part &o = s.p[P.root]; if (is_root && P.in_place) break; int have = o.sdispl.size() ? o.scount[me] : o.scount[0]; same(o, have, o.stype, P.rcount[0], P.rtype, "block", P.root);
        put(P.r, 0, o.snap.data() + (size_t)(o.sdispl.size() ? o.sdispl[me] : me * o.scount[0]) * rt, (size_t)have * rt);
    } break;
    case ALLTOALL:
        for (int q = 0; q < n; q++) { Part &o = s.p[q]; const std::vector<int> &oc = o.in_place ? o.rcount : o.scount, &od = o.in_place ? o.rdispl : o.sdispl; same(o, oc[me], o.in_place ? o.rtype : o.stype, P.rcount[q], P.rtype, "block", q); put(P.r, (size_t)P.rdispl[q] * rt, o.snap.data() + (size_t)od[me] * rt, (size_t)oc[me] * rt); }
        break;
    case DUP: case SPLIT:
        if (!s.applied) {
            s.applied = true; std::vector<int> colors; for (auto &q : s.p) if (std::find(colors.begin(), colors.end(), q.color) == colors.end()) colors.push_back(q.color);
            for (int col : colors) { std::vector<std::pair<int, int>> v; for (int q = 0; q < n; q++) if (s.p[q].color == col) v.push_back({s.p[q].key, q}); std::stable_sort(v.begin(), v.end()); std::vector<int> r; for (auto &x : v) r.push_back(comm->ranks[x.second]); MPI_Comm nc = col == MPI_UNDEFINED ? MPI_COMM_NULL : make_comm(r); for (auto &x : v) *s.p[x.second].newcomm = nc; }
        }
        break;
    default: break;
    }
    P.done = true;
    return MPI_SUCCESS;
}
static std::vector<int> one(int n) { return std::vector<int>(1, n); }
static std::vector<int> many(const int *p, int n) { return p ? std::vector<int>(p, p + n) : std::vector<int>(); }
static std::vector<int> regular(int c, int n) { std::vector<int> v(n); for (int i = 0; i < n; i++) v[i] = i * c; return v; }
static int reduction(const void *s, void *r, std::vector<int> counts, int t, int op, int root, MPI_Comm c, int kind) {
    Part p; p.in_place = s == MPI_IN_PLACE; p.s = p.in_place ? nullptr : s; p.r = r; p.stype = p.rtype = t; p.op = op; p.root = root; int tot = 0; for (int v : counts) tot += v; p.scount = one(tot); p.rcount = counts.size() == 1 ? one(tot) : counts; return collective(c, kind, std::move(p));
}
// ---------------------------------------------------------------- point to point
static void match() {
    for (auto &a : reqs) if (a->send && !a->done) for (auto &b : reqs) {
        if (b->send || b->done || b->comm != a->comm) continue;
        int arank = -1, brank = -1; for (size_t i = 0; i < a->comm->ranks.size(); i++) { if (a->comm->ranks[i] == a->owner) arank = (int)i; if (a->comm->ranks[i] == b->owner) brank = (int)i; }
        if (a->peer != brank || (b->peer != arank && b->peer != MPI_ANY_SOURCE) || (b->tag != a->tag && b->tag != MPI_ANY_TAG)) continue;
        if (b->type != a->type) { fail("Recv: datatypes differ"); return; } if (b->bytes < a->bytes) { fail("Recv: message truncated"); return; }
        if (a->bytes) memcpy(b->buf, a->buf, a->bytes); a->done = b->done = true; b->st.MPI_SOURCE = arank; b->st.MPI_TAG = a->tag; b->st.count_bytes = a->bytes; out->messages++; break;
    }
}
static mpimc_request *post(bool send, const void *b, int n, int t, int peer, int tag, MPI_Comm c) {
    my_rank(c); if (peer != MPI_PROC_NULL && peer != MPI_ANY_SOURCE && (peer < 0 || peer >= (int)c->ranks.size())) { fail("illegal peer"); throw Stop(); }
    yield(send ? "Send" : "Recv", nullptr); reqs.emplace_back(new mpimc_request{send, peer == MPI_PROC_NULL, (void *)b, n * tsize(t), t, peer, tag, c, cur, MPI_Status()}); mpimc_request *r = reqs.back().get(); match(); if (aborted) throw Stop(); return r;
}
static void await(mpimc_request *r, MPI_Status *st) { if (!r->done) yield(r->send ? "Send" : "Recv", [r] { return r->done; }); if (st) *st = r->st; }
} // namespace mpimc
using namespace mpimc;
extern "C" {
MPI_Comm mpimc_world(void) { return &world; }
MPI_Comm mpimc_self(void) { return cur >= 0 ? &selfs[cur] : nullptr; }
int MPI_Init(int *, char ***) { return 0; }
int MPI_Init_thread(int *, char ***, int r, int *p) { if (p) *p = r; return 0; }
int MPI_Initialized(int *f) { *f = 1; return 0; }
int MPI_Finalized(int *f) { *f = 0; return 0; }
int MPI_Finalize(void) { return 0; }
int MPI_Abort(MPI_Comm, int) { fail("MPI_Abort"); throw Stop(); }
double MPI_Wtime(void) { static double t = 0; return t += 0.001; }
int MPI_Comm_rank(MPI_Comm c, int *r) { if (!c) { fail("Comm_rank on a null communicator"); throw Stop(); } *r = my_rank(c); return 0; }
int MPI_Comm_size(MPI_Comm c, int *n) { if (!c) { fail("Comm_size on a null communicator"); throw Stop(); } my_rank(c); *n = (int)c->ranks.size(); return 0; }
int MPI_Comm_dup(MPI_Comm c, MPI_Comm *n) { Part p; p.newcomm = n; p.key = 0; return collective(c, DUP, std::move(p)); }
int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm *n) { Part p; p.newcomm = n; p.color = color; p.key = key; return collective(c, SPLIT, std::move(p)); }
int MPI_Comm_free(MPI_Comm *c) { *c = MPI_COMM_NULL; return 0; }
int MPI_Type_size(MPI_Datatype t, int *n) { *n = tsize(t); return 0; }
int MPI_Barrier(MPI_Comm c) { return collective(c, BARRIER, Part()); }
int MPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c) { Part p; p.r = b; p.rtype = p.stype = t; p.root = root; p.rcount = one(n); p.scount = one(n); return collective(c, BCAST, std::move(p)); }
int MPI_Reduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) { return reduction(s, r, one(n), t, op, root, c, REDUCE); }
int MPI_Allreduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return reduction(s, r, one(n), t, op, -1, c, ALLREDUCE); }
int MPI_Scan(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return reduction(s, r, one(n), t, op, -1, c, SCAN); }
int MPI_Exscan(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return reduction(s, r, one(n), t, op, -1, c, EXSCAN); }
int MPI_Reduce_scatter(const void *s, void *r, const int *n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return reduction(s, r, many(n, (int)c->ranks.size()), t, op, -1, c, REDSCAT); }
int MPI_Reduce_scatter_block(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return reduction(s, r, std::vector<int>(c->ranks.size(), n), t, op, -1, c, REDSCAT); }
int MPI_Gatherv(const void *s, int ns, MPI_Datatype ts, void *r, const int *nr, const int *d, MPI_Datatype tr, int root, MPI_Comm c) {
    Part p; p.in_place = s == MPI_IN_PLACE; p.s = p.in_place ? nullptr : s; p.scount = one(ns); p.stype = ts; p.root = root; int me = my_rank(c), n = (int)c->ranks.size(); if (me == root) { p.r = r; p.rtype = tr; p.rcount = many(nr, n); p.rdispl = many(d, n); } return collective(c, GATHER, std::move(p));
}
int MPI_Gather(const void *s, int ns, MPI_Datatype ts, void *r, int nr, MPI_Datatype tr, int root, MPI_Comm c) { int n = (int)c->ranks.size(); std::vector<int> v(n, nr), d = regular(nr, n); return MPI_Gatherv(s, ns, ts, r, v.data(), d.data(), tr, root, c); }
int MPI_Scatterv(const void *s, const int *ns, const int *d, MPI_Datatype ts, void *r, int nr, MPI_Datatype tr, int root, MPI_Comm c) {
    Part p; p.in_place = r == MPI_IN_PLACE; p.root = root; p.r = p.in_place ? nullptr : r; p.rcount = one(nr); p.rtype = tr; int me = my_rank(c), n = (int)c->ranks.size(); if (me == root) { p.s = s; p.stype = ts; p.scount = many(ns, n); p.sdispl = many(d, n); } return collective(c, SCATTER, std::move(p));
}
int MPI_Scatter(const void *s, int ns, MPI_Datatype ts, void *r, int nr, MPI_Datatype tr, int root, MPI_Comm c) { int n = (int)c->ranks.size(); std::vector<int> v(n, ns), d = regular(ns, n); return MPI_Scatterv(s, v.data(), d.data(), ts, r, nr, tr, root, c); }
int MPI_Allgatherv(const void *s, int ns, MPI_Datatype ts, void *r, const int *nr, const int *d, MPI_Datatype tr, MPI_Comm c) { Part p; p.in_place = s == MPI_IN_PLACE; p.s = p.in_place ? nullptr : s; p.scount = one(p.in_place ? 0 : ns); p.stype = ts; p.r = r; p.rtype = tr; int n = (int)c->ranks.size(); p.rcount = many(nr, n); p.rdispl = many(d, n); return collective(c, ALLGATHER, std::move(p)); }
int MPI_Allgather(const void *s, int ns, MPI_Datatype ts, void *r, int nr, MPI_Datatype tr, MPI_Comm c) { int n = (int)c->ranks.size(); std::vector<int> v(n, nr), d = regular(nr, n); return MPI_Allgatherv(s, ns, ts, r, v.data(), d.data(), tr, c); }
int MPI_Alltoallv(const void *s, const int *ns, const int *ds, MPI_Datatype ts, void *r, const int *nr, const int *dr, MPI_Datatype tr, MPI_Comm c) { int n = (int)c->ranks.size(); Part p; p.in_place = s == MPI_IN_PLACE; if (!p.in_place) { p.s = s; p.scount = many(ns, n); p.sdispl = many(ds, n); p.stype = ts; } p.r = r; p.rcount = many(nr, n); p.rdispl = many(dr, n); p.rtype = tr; return collective(c, ALLTOALL, std::move(p)); }
int MPI_Alltoall(const void *s, int ns, MPI_Datatype ts, void *r, int nr, MPI_Datatype tr, MPI_Comm c) { int n = (int)c->ranks.size(); std::vector<int> a(n, ns), b = regular(ns, n), e(n, nr), f = regular(nr, n); return MPI_Alltoallv(s, a.data(), b.data(), ts, r, e.data(), f.data(), tr, c); }
int MPI_Isend(const void *b, int n, MPI_Datatype t, int peer, int tag, MPI_Comm c, MPI_Request *q) { *q = post(true, b, n, t, peer, tag, c); return 0; }
int MPI_Irecv(void *b, int n, MPI_Datatype t, int peer, int tag, MPI_Comm c, MPI_Request *q) { *q = post(false, b, n, t, peer, tag, c); return 0; }
int MPI_Wait(MPI_Request *q, MPI_Status *st) { if (*q) { await(*q, st); *q = MPI_REQUEST_NULL; } return 0; }
int MPI_Waitall(int n, MPI_Request *q, MPI_Status *st) { for (int i = 0; i < n; i++) MPI_Wait(q + i, st ? st + i : nullptr); return 0; }
int MPI_Ssend(const void *b, int n, MPI_Datatype t, int peer, int tag, MPI_Comm c) { await(post(true, b, n, t, peer, tag, c), nullptr); return 0; }
int MPI_Send(const void *b, int n, MPI_Datatype t, int peer, int tag, MPI_Comm c) { return MPI_Ssend(b, n, t, peer, tag, c); }
int MPI_Recv(void *b, int n, MPI_Datatype t, int peer, int tag, MPI_Comm c, MPI_Status *st) { await(post(false, b, n, t, peer, tag, c), st); return 0; }
int MPI_Sendrecv(const void *s, int ns, MPI_Datatype ts, int to, int stag, void *r, int nr, MPI_Datatype tr, int from, int rtag, MPI_Comm c, MPI_Status *st) { auto *b = post(false, r, nr, tr, from, rtag, c); auto *a = post(true, s, ns, ts, to, stag, c); await(a, nullptr); await(b, st); return 0; }
int MPI_Get_count(const MPI_Status *s, MPI_Datatype t, int *n) { *n = tsize(t) ? s->count_bytes / tsize(t) : 0; return 0; }
}

// C11: every product of a distributed operator, on every process and for every order of arrival, against the global matrix
// assembled from what the processes hold.
#include "mpi_shim.hpp"
#include "space.hpp"
#include <htool/distributed_operator/distributed_operator.hpp>
#include <htool/distributed_operator/implementations/partition_from_cluster.hpp>
#include <htool/distributed_operator/utility.hpp>
#include <htool/local_operators/local_dense_matrix.hpp>
#include <htool/local_operators/local_hmatrix.hpp>
using namespace hx;
#ifndef TS
#define TS double
#endif
#include "dist.inc"
namespace {
void explore(mc::Run &c, DFix &f, bool large = false) {
    if (f.problem.size()) { c.fail("construction/" + TN, show(f.g) + ": " + f.problem); return; }
    if (!f.usable) c.skip();
    if (f.exact) {
        M G = f.gen->dense_cluster(*f.ct, *f.cs), D = f.A;
        for (int p = 0; p < f.g.R; p++) for (int q = 0; q < f.g.R; q++) if (!f.covers(p, q)) for (int i = 0; i < f.T_(p).get_size(); i++) for (int j = 0; j < f.S_(q).get_size(); j++) G(f.T_(p).get_offset() + i, f.S_(q).get_offset() + j) = 0;
        double e = fro(sub(D, G)), s = fro(G);
        c.check(e <= (20 * f.g.eps + 1e-4) * s, "approximation/" + TN, [&] { return mc::str(show(f.g), ": relative error ", e / s, " for epsilon ", f.g.eps); });
    }
    Call k; k.perm = c.pick(2, "numbering") == 0;
    auto ops = legal_ops(f, k.perm);
    k.o = c.of(ops, "operation");
    if (!k.perm && !user_numbering(k.o)) c.skip();
    k.mu = uses_matrix(k.o) ? c.of(large ? std::vector<int>{9} : c.thorough ? std::vector<int>{1, 2, 3} : std::vector<int>{1, 3}, "mu") : 1;
    if (has_work(k.o)) k.work = c.pick(2, "work") == 1;
    if (k.o == SUB) {
        int w = c.pick(f.g.R + 3, "columns");
        if (w < f.g.R) { k.off = f.S_(w).get_offset(); k.size = f.S_(w).get_size(); }
        else if (w == f.g.R) { k.off = 1; k.size = f.nc - 2; } else if (w == f.g.R + 1) { k.off = 0; k.size = f.nc; } else { k.off = f.nc / 2; k.size = 1; }
    }
    Expect e = expectation(f, k);
    std::vector<Buffers> b; for (int p = 0; p < f.g.R; p++) b.push_back(buffers(f, k, e, p));
    quiet();
    mpimc::Options o; o.world = f.world; o.synchronizing = false; o.choose = [&](int n) { return c.pick(n, "next process"); };
    if (large) { int order = c.pick(c.thorough ? 3 : 2, "order"), turn = 0; o.choose = [=](int n) mutable { return order == 0 ? 0 : order == 1 ? n - 1 : turn++ % n; }; } // a few orders only
    c.stage(op_name[k.o]);
    auto res = mpimc::run(o, [&](int) { int p = f.part(); if (p >= 0) perform(f, k, b[p], p); });
    c.step(res.points + 1);
    c.check(res.ok, mc::str("communication/", op_name[k.o], "/", TN), show(f.g) + "; " + show(k) + ": " + res.what);
    for (int p = 0; p < f.g.R; p++) judge(c, f, k, e, b[p], p, "product/");
    c.check(logged().errors == 0, "error-logged/" + TN, [&] { return show(f.g) + "; " + show(k) + ": " + logged().last; });
    uint64_t h = 5; for (auto &x : b) h = mc::hash_mix(h, mc::hash_bytes(x.out.data(), x.out.size() * sizeof(T)));
    c.outcome(h);
}
DFix &fixture(mc::Run &c, const DCfg &d) {
    static Cache<DFix> cache; c.stage("build"); quiet();
    return cache.get(c.cfg_hash(), [&] { return std::unique_ptr<DFix>(new DFix(d)); });
}
void builders(mc::Run &c) {
    DCfg d; bool th = c.thorough;
    d.R = c.of(th ? std::vector<int>{1, 2, 3, 4} : std::vector<int>{1, 2, 3}, "processes");
    d.layout = c.pick(3, "layout");
    auto so = c.of(sym_options<T>(), "symmetry"); d.sym = so.sym; d.uplo = so.uplo; d.kernel = so.kernel;
    if (d.layout == 2 && d.sym != 'N' && d.uplo == 'U') c.skip();
    d.gt = c.of(th ? std::vector<int>{LINE, GRID, TWO, RANDOM} : std::vector<int>{GRID, LINE}, "geometry"); d.nt = d.R == 4 ? 17 : c.of(th ? std::vector<int>{12, 19} : std::vector<int>{12}, "n");
    d.imposed_t = c.of(std::vector<int>{0, 2, 3}, "partition");
    if (d.R == 1 && d.imposed_t == 3) c.skip();
    if (d.sym == 'N' && c.pick(2, "rectangular")) { d.gs = RANDOM; d.ns = d.nt - 3; d.imposed_s = d.imposed_t ? 5 - d.imposed_t : 0; }
    if (th) { d.minsize = c.of(std::vector<int>{1, 3}, "minclustersize"); d.nchild = c.of(std::vector<int>{2, 3}, "children"); d.eta = c.of(std::vector<double>{10, 0.8}, "eta"); }
    d.comm = c.pick(th ? 3 : d.R == 2 ? 3 : 1, "communicator");
    if (d.layout == 1) { int k = c.of(th ? std::vector<int>{B_DENSE, B_HMAT, B_DENSE_SPERM, B_HMAT_SPERM, B_NONE, B_TWICE} : std::vector<int>{B_DENSE, B_HMAT_SPERM, B_NONE}, "off-diagonal"); if (d.sym != 'N' && k == B_TWICE) c.skip(); d.off.assign(d.R * d.R, k); for (int p = 0; p < d.R; p++) d.off[p * d.R + p] = B_NONE; if (d.R > 1 && k == B_NONE && !th && d.gt != GRID) c.skip(); if (d.R == 1 && k != B_NONE) c.skip(); }
    if (!c.mine()) return;
    explore(c, fixture(c, d));
}
// every table of local operators
void operators(mc::Run &c) {
    DCfg d; d.layout = 3; bool th = c.thorough;
    bool main_type = Ty<T>::cplx == (sizeof(P) == 4); // double and complex<float>
    d.R = c.of(th ? std::vector<int>{2, 3, 4} : main_type ? std::vector<int>{2, 3} : std::vector<int>{2}, "processes");
    d.gt = GRID; d.nt = 12; d.imposed_t = c.of(std::vector<int>{2, 0}, "partition");
    bool square = c.pick(2, "rectangular") == 0;
    if (!square) { d.gs = RANDOM; d.ns = 10; d.imposed_s = d.imposed_t ? 3 : 0; } else d.kernel = c.of(Ty<T>::cplx ? std::vector<int>{K_SYM, K_HERM} : std::vector<int>{K_SYM}, "kernel");
    std::vector<int> kinds = {B_NONE, B_DENSE, B_HMAT, B_TWICE, B_DENSE_SPERM}, more = kinds; if (th) { more.push_back(B_HMAT_SPERM); } more.push_back(B_DENSE_TPERM);
    std::vector<int> diag = more; if (square) { for (int k : Ty<T>::cplx && d.kernel == K_SYM ? std::vector<int>{B_SYM_L, B_SYM_U, B_HSYM_L, B_HSYM_U} : d.kernel == K_SYM ? std::vector<int>{B_SYM_L, B_SYM_U, B_HSYM_L, B_HSYM_U, B_HERM_U} : std::vector<int>{B_HERM_L, B_HERM_U, B_HHERM_L, B_HHERM_U}) diag.push_back(k); }
    if (d.R == 2) { // all combinations on the first process, a shift of them on the second
        int a = c.of(diag, "diagonal"), b = c.of(more, "off-diagonal"), s = c.pick(th ? 3 : 2, "shift");
        auto idx = [](const std::vector<int> &v, int k, int s) { return v[(std::find(v.begin(), v.end(), k) - v.begin() + s) % v.size()]; };
        d.off = {a, b, idx(more, b, s), idx(diag, a, s)};
    } else {
        int a = c.of(diag, "diagonal"), b = c.of(kinds, "next"), e = c.of(th ? kinds : std::vector<int>{B_NONE, B_DENSE}, "previous");
        d.off.assign(d.R * d.R, B_NONE); for (int p = 0; p < d.R; p++) { d.off[p * d.R + p] = a; d.off[p * d.R + (p + 1) % d.R] = b; d.off[p * d.R + (p + d.R - 1) % d.R] = e; }
    }
    if (!c.mine()) return;
    explore(c, fixture(c, d));
}
// more processes, larger matrices, deeper trees
void large(mc::Run &c) {
    DCfg d; bool th = c.thorough;
    d.R = c.of(th ? std::vector<int>{4, 5, 8} : std::vector<int>{4, 6}, "processes");
    d.layout = c.pick(3, "layout");
    auto so = c.of(sym_options<T>(), "symmetry"); d.sym = so.sym; d.uplo = so.uplo; d.kernel = so.kernel;
    if (d.layout == 2 && d.sym != 'N' && d.uplo == 'U') c.skip();
    d.gt = c.of(th ? std::vector<int>{RANDOM, TWO, CIRCLE} : std::vector<int>{RANDOM}, "geometry"); d.nt = c.of(th ? std::vector<int>{90, 160} : std::vector<int>{90}, "n");
    d.imposed_t = c.of(std::vector<int>{0, 2}, "partition"); d.nchild = c.of(std::vector<int>{2, 3}, "children"); d.minsize = th ? c.of(std::vector<int>{2, 5}, "minclustersize") : 3;
    if (d.sym == 'N' && c.pick(2, "rectangular")) { d.gs = RANDOM; d.ns = d.nt - 23; d.imposed_s = d.imposed_t; }
    if (d.layout == 1) { d.off.assign(d.R * d.R, c.of(std::vector<int>{B_DENSE, B_HMAT}, "off-diagonal")); for (int p = 0; p < d.R; p++) d.off[p * d.R + p] = B_NONE; }
    if (!c.mine()) return;
    explore(c, fixture(c, d), true);
}
struct Reg { Reg() {
#define REG(f) { static std::string n = std::string(#f) + "<" + TN + ">"; new mc::Registrar(n.c_str(), f); }
    REG(builders) REG(operators) REG(large)
} } reg;
} // namespace

// C13: sequences of collective operations without barriers in between, under every order of arrival; every communication is
// checked against MPI's matching rules by the runtime, and what each operation returns against the global data.
#include "mpi_shim.hpp"
#include "space.hpp"
#include <htool/distributed_operator/distributed_operator.hpp>
#include <htool/distributed_operator/implementations/partition_from_cluster.hpp>
#include <htool/distributed_operator/utility.hpp>
#include <htool/hmatrix/hmatrix_distributed_output.hpp>
#include <htool/local_operators/local_dense_matrix.hpp>
#include <htool/local_operators/local_hmatrix.hpp>
#include <htool/solvers/geneo/coarse_operator_builder.hpp>
#include <sstream>
using namespace hx;
#ifndef TS
#define TS double
#endif
#include "dist.inc"
namespace {
typedef HMatrix<T, P> H;
#define INFO_LIGHT
#include "distinfo.inc"
// ---- coarse operator
struct Coarse { int n = 0; std::vector<int> nev; std::vector<std::vector<T>> z; std::vector<std::vector<T *>> zp; std::vector<Matrix<T>> E; M want; double tol = 0; };
Coarse coarse(const DFix &f, const std::vector<int> &nev, int overlap, int seed) {
    Coarse q; int R = f.g.R, size = 0; q.nev = nev; q.z.resize(R); q.zp.resize(R); q.E.resize(R); for (int v : nev) size += v;
    M Zg(f.nr, size); int at = 0; double zn = 0;
    for (int p = 0; p < R; p++) {
        int in = f.T_(p).get_size(), n = in + overlap; q.z[p].assign((size_t)n * nev[p], T(0));
        for (int j = 0; j < nev[p]; j++) { for (int i = 0; i < n; i++) q.z[p][(size_t)j * n + i] = i < in ? val<T>(700 + 31 * seed + p, i, j) : Ty<T>::mk(Z(1e6, 3)); for (int i = 0; i < in; i++) { Zg(f.T_(p).get_offset() + i, at) = Z(q.z[p][(size_t)j * n + i]); zn = std::max(zn, std::abs(Zg(f.T_(p).get_offset() + i, at))); } at++; }
        for (int j = 0; j < nev[p]; j++) q.zp[p].push_back(q.z[p].data() + (size_t)j * n);
    }
    char tz = f.g.sym == 'H' ? 'C' : 'T'; q.want = mul(op(tz, Zg), mul(f.A, Zg));
    double s = 0; for (int i = 0; i < f.A.m; i++) for (int j = 0; j < f.A.n; j++) s += std::abs(f.A(i, j)); q.tol = 50 * EPS * (s + 1) * (zn * zn + 1) + 1e-30;
    if (f.g.sym != 'N') { double d = 0; M At = op(tz, f.A); for (int i = 0; i < f.nr; i++) for (int j = 0; j < f.nr; j++) d = std::max(d, std::abs(f.A(i, j) - At(i, j))); q.tol += d * zn * zn * f.nr * f.nr; }
    return q;
}
void judge_coarse(mc::Run &c, const DFix &f, const Coarse &q, const std::string &ctx) {
    const Matrix<T> &E = q.E[0]; int s = q.want.n; bool plain = E.nb_rows() == s && E.nb_cols() == s, tr = plain;
    if (plain) for (int i = 0; i < s; i++) for (int j = 0; j < s; j++) { Z e(E(i, j)); if (!(std::abs(e - q.want(i, j)) <= q.tol)) plain = false; if (!(std::abs(e - q.want(j, i)) <= q.tol)) tr = false; }
    c.check(plain || tr, mc::str("coarse-operator/", f.g.sym, "/", TN), [&] { return mc::str(ctx, "; coarse operator of size ", E.nb_rows(), " for ", s, " vectors: not the projection of the operator"); });
}
// ---- sequences
enum { INFO = NOPS, PRINT, COARSE, NSTEPS };
struct Step { int kind = 0; Call k; Expect e; std::vector<Buffers> b; std::vector<Info> info; std::vector<std::string> text; Coarse q; };
std::string show(const Step &s) { return s.kind < NOPS ? ::show(s.k) : s.kind == INFO ? "get_distributed_hmatrix_information" : s.kind == PRINT ? "print_distributed_hmatrix_information" : "build_geneo_coarse_operator"; }
void sequence(mc::Run &c, DFix &f, int len, int budget) {
    if (f.problem.size()) { c.fail("construction/" + TN, show(f.g) + ": " + f.problem); return; }
    if (!f.usable) c.skip();
    int R = f.g.R; bool full = c.thorough || (R == 2 && f.g.layout == 0 && f.g.sym == 'N'), perm = full ? c.pick(2, "numbering") == 0 : f.g.layout != 1; bool hm = f.r[0].hm != nullptr, square = f.nr == f.nc && f.cs == f.ct.get();
    std::vector<const H *> hs; std::map<std::string, double> fig; if (hm) { for (auto &r : f.r) hs.push_back(r.hm); fig = figures(hs); }
    std::vector<int> kinds = legal_ops(f, perm); if (hm) { kinds.push_back(INFO); kinds.push_back(PRINT); } if (square) kinds.push_back(COARSE);
    bool rooted = false; std::vector<Step> st(len); int mu = 0, work = -1;
    for (int i = 0; i < len; i++) {
        Step &s = st[i]; s.kind = c.of(kinds, "step");
        if (s.kind < NOPS) {
            s.k.o = s.kind; s.k.perm = perm; s.k.seed = 40 * i; if (uses_matrix(s.k.o)) { if (!mu) mu = c.of(c.thorough ? std::vector<int>{2, 1, 3} : std::vector<int>{2}, "mu"); s.k.mu = mu; }
            if (has_work(s.k.o)) { if (work < 0) work = full ? c.pick(2, "work") : 1; s.k.work = work == 1; }
            if (s.k.o == SUB) { s.k.off = f.S_(R - 1).get_offset(); s.k.size = f.S_(R - 1).get_size(); }
            s.e = expectation(f, s.k); for (int p = 0; p < R; p++) s.b.push_back(buffers(f, s.k, s.e, p));
        } else { rooted = true; s.info.resize(R); s.text.resize(R); if (s.kind == COARSE) { std::vector<int> nev; for (int p = 0; p < R; p++) nev.push_back((p + 1 + i) % 3); s.q = coarse(f, nev, i, i); } }
    }
    mpimc::Options o; o.world = f.world; o.synchronizing = rooted && c.pick(2, "rooted collectives wait") == 1;
    int left = budget; o.choose = [&](int n) { int k = std::min(n, left + 1); int v = k > 1 ? c.pick(k, "next process") : 0; left -= v; return v; };
    quiet(); c.stage("sequence");
    auto res = mpimc::run(o, [&](int) {
        int p = f.part(); if (p < 0) return; auto &A = *f.r[p].op; A.use_permutation() = perm; MPI_Comm cm = f.communicator(); Buffers *before = nullptr;
        for (auto &s : st) {
            if (s.kind < NOPS) { Buffers &b = s.b[p]; if (s.k.work && before) { size_t n = std::max(b.work.size(), before->work.size()); b.work.swap(before->work); b.work.resize(n); } perform(f, s.k, b, p); if (s.k.work) before = &b; }
            else if (s.kind == INFO) s.info[p] = htool::get_distributed_hmatrix_information(*f.r[p].hm, cm);
            else if (s.kind == PRINT) { std::ostringstream os; htool::print_distributed_hmatrix_information(*f.r[p].hm, os, cm); s.text[p] = os.str(); }
            else { int n = s.q.nev[p] ? (int)s.q.z[p].size() / s.q.nev[p] : f.T_(p).get_size(); htool::GeneoCoarseOperatorBuilder<T> gb(A); s.q.E[p] = gb.build_coarse_operator(n, s.q.nev[p], s.q.zp[p].data()); }
        }
    });
    c.step(res.points + 1);
    std::string all = show(f.g); for (auto &s : st) all += "; " + show(s);
    c.check(res.ok, mc::str("communication/", show(Step(st[0])).substr(0, 0), TN), all + ": " + res.what);
    if (!res.ok) return;
    uint64_t h = 5;
    for (auto &s : st) {
        if (s.kind < NOPS) { for (int p = 0; p < R; p++) { judge(c, f, s.k, s.e, s.b[p], p, "sequence/"); h = mc::hash_mix(h, mc::hash_bytes(s.b[p].out.data(), s.b[p].out.size() * sizeof(T))); } }
        else if (s.kind == INFO) for (int p = 0; p < R; p++) judge_info(c, fig, s.info[p], p == 0, [&] { return all; });
        else if (s.kind == PRINT) for (int p = 0; p < R; p++) judge_print(c, fig, s.text[p], p == 0, [&] { return all; });
        else { judge_coarse(c, f, s.q, all); h = mc::hash_mix(h, mc::hash_bytes(s.q.E[0].data(), sizeof(T) * s.q.E[0].nb_rows() * s.q.E[0].nb_cols())); }
    }
    c.check(logged().errors == 0, "error-logged/" + TN, [&] { return all + ": " + logged().last; });
    c.outcome(h);
}
DFix &fixture(mc::Run &c, const DCfg &d) {
    static Cache<DFix> cache; c.stage("build"); quiet();
    return cache.get(c.cfg_hash(), [&] { return std::unique_ptr<DFix>(new DFix(d)); });
}
void sequences(mc::Run &c) {
    DCfg d; bool th = c.thorough;
    d.R = c.of(th ? std::vector<int>{1, 2, 3, 4} : std::vector<int>{2, 3}, "processes");
    d.layout = c.of(std::vector<int>{0, 1, 3}, "layout"); d.nt = 11; d.gt = c.of(th ? std::vector<int>{LINE, GRID, RANDOM} : std::vector<int>{LINE}, "geometry");
    d.imposed_t = c.of(th ? std::vector<int>{2, 3, 0} : std::vector<int>{3, 0}, "partition"); if (d.R == 1 && d.imposed_t == 3) c.skip();
    if (d.layout == 3) { d.off.assign(d.R * d.R, B_NONE); for (int p = 0; p < d.R; p++) { d.off[p * d.R + p] = p % 2 ? B_TWICE : B_DENSE; d.off[p * d.R + (p + 1) % d.R] = p % 2 ? B_HMAT : B_DENSE; } if (c.pick(2, "rectangular")) { d.gs = GRID; d.ns = 9; d.imposed_s = d.imposed_t ? 2 : 0; } }
    else { auto so = c.of(sym_options<T>(), "symmetry"); d.sym = so.sym; d.uplo = so.uplo; d.kernel = so.kernel; if (d.sym != 'N' && d.uplo == 'U' && !th) c.skip(); if (d.layout == 1) { d.off.assign(d.R * d.R, B_DENSE); for (int p = 0; p < d.R; p++) d.off[p * d.R + p] = B_NONE; } }
    d.comm = c.pick(th ? 3 : 1, "communicator"); if (!th) d.comm = d.R == 2 ? (d.layout == 0 ? 2 : 1) : 0;
    bool main_type = Ty<T>::cplx == (sizeof(P) == 4); if (!th && !main_type && (d.layout != 0 || d.R != 2)) c.skip();
    if (!c.mine()) return;
    sequence(c, fixture(c, d), 2, th ? (d.R <= 2 ? 1000 : 3) : d.R <= 2 ? 2 : 1);
}
void three_steps(mc::Run &c) { // thorough only
    if (!c.thorough) { c.skip(); }
    DCfg d; d.R = 2; d.layout = c.of(std::vector<int>{0, 3}, "layout"); d.nt = 9; d.imposed_t = 3; if (d.layout == 3) d.off = {B_DENSE, B_TWICE, B_HMAT, B_DENSE};
    if (!c.mine()) return;
    sequence(c, fixture(c, d), 3, 2);
}
// every order of arrival at a whole operation which communicates several times
void coarse_operator(mc::Run &c) {
    DCfg d; bool th = c.thorough; d.R = c.of(th ? std::vector<int>{1, 2, 3, 4, 6} : std::vector<int>{1, 2, 3, 5}, "processes"); bool large = d.R > 4;
    auto so = c.of(sym_options<T>(), "symmetry"); d.sym = so.sym; d.uplo = so.uplo; d.kernel = so.kernel;
    d.layout = c.of(std::vector<int>{0, 3}, "layout"); if (d.layout == 3) { if (d.sym != 'N') c.skip(); d.off.assign(d.R * d.R, B_DENSE); for (int p = 0; p < d.R; p++) d.off[p * d.R + p] = B_HMAT; }
    d.gt = GRID; d.nt = large ? 60 : 11; d.imposed_t = c.of(std::vector<int>{2, 3}, "partition"); if (large) { d.gt = RANDOM; d.minsize = 3; } if (d.R == 1 && d.imposed_t == 3) c.skip(); d.comm = d.R == 2 ? c.pick(3, "communicator") : 0;
    if (!c.mine()) return;
    DFix &f = fixture(c, d); if (f.problem.size()) { c.fail("construction/" + TN, show(f.g) + ": " + f.problem); return; } if (!f.usable) c.skip();
    std::vector<int> nev; static const int many[][6] = {{3, 7, 4, 5, 2, 6}, {6, 0, 9, 1, 0, 5}, {0, 0, 8, 0, 3, 0}};
    if (large) { int w = c.pick(3, "vectors"); nev.assign(many[w], many[w] + d.R); } else for (int p = 0; p < d.R; p++) nev.push_back(c.pick(3, "vectors"));
    int ov = c.pick(2, "overlap") * 2;
    Coarse q = coarse(f, nev, ov, 3);
    mpimc::Options o; o.world = f.world; o.synchronizing = c.pick(2, "rooted collectives wait") == 1; int left = d.R <= 2 ? 1000 : th ? 3 : 1;
    o.choose = [&](int n) { int k = std::min(n, left + 1); int v = k > 1 ? c.pick(k, "next process") : 0; left -= v; return v; };
    quiet(); c.stage("coarse operator");
    auto res = mpimc::run(o, [&](int) { int p = f.part(); if (p < 0) return; htool::build_geneo_coarse_operator(*f.r[p].op, nev[p], f.T_(p).get_size() + ov, q.zp[p].data(), q.E[p]); });
    c.step(res.points + 1);
    std::string ctx = show(f.g) + "; vectors"; for (int v : nev) ctx += mc::str(" ", v);
    c.check(res.ok, "communication/coarse/" + TN, ctx + ": " + res.what); if (!res.ok) return;
    judge_coarse(c, f, q, ctx); c.outcome(mc::hash_bytes(q.E[0].data(), sizeof(T) * q.E[0].nb_rows() * q.E[0].nb_cols()));
}
struct Reg { Reg() {
#define REG(f) { static std::string n = std::string(#f) + "<" + TN + ">"; new mc::Registrar(n.c_str(), f); }
    REG(sequences) REG(three_steps) REG(coarse_operator) REG(information)
} } reg;
} // namespace

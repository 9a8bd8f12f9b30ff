// C19: the domain-decomposition solvers: every way of building them, partition, overlap and numbering of the subdomains, and
// sequences of solves, against the dense formulas of the preconditioners and the residual of the represented system.
#include <HPDDM.hpp>
#include <fstream>
#include <unistd.h>
#include "mpi_shim.hpp"
#include "space.hpp"
#include <htool/distributed_operator/distributed_operator.hpp>
#include <htool/distributed_operator/implementations/partition_from_cluster.hpp>
#include <htool/distributed_operator/utility.hpp>
#include <htool/local_operators/local_dense_matrix.hpp>
#include <htool/local_operators/local_hmatrix.hpp>
#include <htool/solvers/ddm.hpp>
#include <htool/solvers/geneo/coarse_operator_builder.hpp>
#include <htool/solvers/geneo/coarse_space_builder.hpp>
#include <htool/solvers/utility.hpp>
using namespace hx;
#ifndef TS
#define TS double
#endif
#include "dist.inc"
namespace {
typedef HMatrix<T, P> H;
enum { JACOBI = 0, ADDING, BUILDING };
const char *const way_name[] = {"block Jacobi", "adding overlap", "building overlap"};
// subdomains as the user describes them: numbers of the points, positions of the interior ones, neighbours, shared points
struct Sub { std::vector<int> to_global, cluster_to, neighbors; std::vector<std::vector<int>> inter; };
struct Domains { std::vector<Sub> s; };
Domains domains(const DFix &f, int shape, int order) {
    int R = f.g.R, n = f.nr; Domains d; d.s.resize(R); const auto &perm = f.ct->get_permutation(); std::vector<std::vector<char>> in(R, std::vector<char>(n, 0));
    for (int p = 0; p < R; p++) {
        const auto &c = f.T_(p); std::vector<int> ins, out; for (int i = 0; i < c.get_size(); i++) { ins.push_back(perm[c.get_offset() + i]); in[p][ins.back()] = 1; }
        std::vector<std::pair<double, int>> far; for (int u = 0; u < n; u++) if (!in[p][u]) { double m = 1e300; for (int v : ins) { double s = 0; for (int k = 0; k < 2; k++) { double t = f.geot.at(u)[k] - f.geot.at(v)[k]; s += t * t; } m = std::min(m, s); } far.push_back({m, u}); }
        std::sort(far.begin(), far.end());
        size_t k = shape == 0 ? 0 : shape == 1 ? std::min<size_t>(2, far.size()) : shape == 2 ? far.size() : shape == 3 ? (p == 0 ? std::min<size_t>(3, far.size()) : 0) : (p == R - 1 ? far.size() : std::min<size_t>(1, far.size()));
        for (size_t i = 0; i < k; i++) { out.push_back(far[i].second); in[p][far[i].second] = 1; }
        std::vector<int> all = ins; all.insert(all.end(), out.begin(), out.end());
        if (order == 1) std::sort(all.begin(), all.end()); else if (order == 2) std::reverse(all.begin(), all.end()); else if (order == 3) std::rotate(all.begin(), all.begin() + all.size() / 2, all.end());
        Sub &s = d.s[p]; s.to_global = all; for (int u : ins) s.cluster_to.push_back((int)(std::find(all.begin(), all.end(), u) - all.begin()));
    }
    for (int p = 0; p < R; p++) for (int k = 0; k < R; k++) {
        int q = order == 2 ? R - 1 - k : k; if (q == p) continue; std::vector<int> v;
        for (int u = 0; u < n; u++) { int w = order == 3 ? n - 1 - u : u; if (in[p][w] && in[q][w]) v.push_back((int)(std::find(d.s[p].to_global.begin(), d.s[p].to_global.end(), w) - d.s[p].to_global.begin())); }
        if (v.size()) { d.s[p].neighbors.push_back(q); d.s[p].inter.push_back(v); }
    }
    return d;
}
struct GivenSpace : htool::VirtualCoarseSpaceBuilder<T> { Matrix<T> Z; Matrix<T> build_coarse_space() override { return Z; } };
enum { KNONE = 0, KGMRES };
struct Solve { int method = 0, corr = -1, krylov = 0, mu = 1; };
// the stand-in's Krylov iteration serves under every name, so that the name reported can be compared with the one asked for
const char *krylov_name(const Solve &s, size_t h) { static const char *const w[] = {"gmres", "cg", "bgmres", "gcrodr", "bcg", "bgcrodr", "bfbcg", "richardson"}; return s.krylov ? w[h % 8] : "none"; }
const char *const method_name[] = {"none", "ras", "asm"}; const char *const corr_name[] = {"additive", "deflated", "balanced"};
std::string show(const Solve &s) { return mc::str(s.krylov ? "gmres " : "one application ", method_name[s.method], s.corr < 0 ? "" : " ", s.corr < 0 ? "" : corr_name[s.corr], " mu=", s.mu); }
struct Case { int way, dense, shape, order; std::vector<int> nev; int geneo = 0; bool coarse_first = false, books = false; std::vector<Solve> hist; };
struct Result { std::vector<T> x, rhs, rhs0; std::map<std::string, std::string> info; };
struct Rank { std::vector<int> l2g; std::vector<Result> res; int nevi = -1, size = -1; bool setup = false, keyed = true; M Z; std::map<std::string, std::string> last; std::string printed, saved; };
std::string slurp(const std::string &f) { std::ifstream i(f); std::ostringstream o; o << i.rdbuf(); return o.str(); }
template <class B> void drive(B &b, Rank &r, const DFix &f, const Case &k, int p) {
    auto &s = b.solver; int n = f.nr, in = f.T_(p).get_size(); HPDDM::Option &opt = *HPDDM::Option::get();
    for (int i = 0; i < (k.way == JACOBI ? in : (int)b.local_to_global_numbering.size()); i++) r.l2g.push_back(b.local_to_global_numbering[(k.way == JACOBI ? f.T_(p).get_offset() : 0) + i]);
    r.setup = s.get_information("DDM_setup_one_level_max") != "" || p != 0;
    int size = (int)r.l2g.size();
    auto coarse = [&] {
        if (k.nev.empty()) return;
        htool::GeneoCoarseOperatorBuilder<T> op(*f.r[p].op);
        if (k.geneo) {
            Matrix<T> Ai(size, size), Bi(size, size); for (int i = 0; i < size; i++) for (int j = 0; j < size; j++) { Ai(i, j) = Ty<T>::mk(f.gen->k(r.l2g[i], r.l2g[j])); Bi(i, j) = Ai(i, j) * T(0.5) + (i == j ? T(1 + 0.25 * i) : T(0)); }
            auto g = htool::GeneoCoarseSpaceDenseBuilder<T, P>::GeneoWithNu(in, size, Ai, Bi, f.g.sym, f.g.uplo, k.nev[p]); s.build_coarse_space(g, op);
            auto again = htool::GeneoCoarseSpaceDenseBuilder<T, P>::GeneoWithNu(in, size, Ai, Bi, f.g.sym, f.g.uplo, k.nev[p]).build_coarse_space(); r.Z = fromMat(again);
        } else {
            GivenSpace g; g.Z.resize(size, k.nev[p]); for (int i = 0; i < in; i++) for (int j = 0; j < k.nev[p]; j++) g.Z(i, j) = val<T>(820 + p, i, j) + T(i == j ? 1 : 0);
            r.Z = fromMat(g.Z); s.build_coarse_space(g, op);
        }
    };
    if (k.coarse_first) coarse(); s.facto_one_level(); if (!k.coarse_first) coarse();
    r.nevi = s.get_nevi(); r.size = s.get_local_size();
    for (size_t h = 0; h < k.hist.size(); h++) {
        const Solve &v = k.hist[h]; Result &o = r.res[h];
        static const char *const mw[] = {"none", "ras", "asm"};
        opt.parse(std::string("-hpddm_schwarz_method ") + mw[v.method] + " -hpddm_krylov_method " + krylov_name(v, h));
        if (v.corr < 0) opt.remove("schwarz_coarse_correction"); else opt.parse(std::string("-hpddm_schwarz_coarse_correction ") + corr_name[v.corr]);
        o.rhs.resize((size_t)n * v.mu); o.x.assign((size_t)n * v.mu, junk()); for (int i = 0; i < n; i++) for (int j = 0; j < v.mu; j++) o.rhs[i + (size_t)j * n] = val<T>(500 + 20 * (int)h, i, j); o.rhs0 = o.rhs;
        if (v.mu == 1 && h == 0) s.solve(o.rhs.data(), o.x.data()); else s.solve(o.rhs.data(), o.x.data(), v.mu);
        o.info = s.get_information();
    }
    // the books: entries set and added by hand, printed, saved
    s.set_infos("by hand", "2.5"); s.add_infos("by hand", "4"); s.add_infos("new", "some text"); s.set_infos("htool_solver", "mine");
    r.last = s.get_information(); for (auto &e : r.last) r.keyed = r.keyed && s.get_information(e.first) == e.second;
    if (k.books) {
        std::ostringstream o; std::streambuf *old = std::cout.rdbuf(o.rdbuf()); s.print_infos(); std::cout.rdbuf(old); r.printed = o.str();
        std::string f = mc::str("c19_", (int)getpid(), "_", p); s.save_infos(f, std::ios_base::trunc, " -> "); s.save_infos(f); r.saved = slurp(f); unlink(f.c_str());
    }
    s.clean();
}
std::string listed(const std::map<std::string, std::string> &m, const std::string &sep) { std::string s; for (auto &e : m) s += e.first + sep + e.second + "\n"; return s; }
void run_case(mc::Run &c, const DFix &f, const Domains &d, Case &k, std::function<int(int)> choose, bool sync, const std::string &ctx) {
    typedef htool::DDMSolverWithDenseLocalSolver<T, P> SD; typedef htool::DDMSolverBuilder<T, P> SH;
    int R = f.g.R, n = f.nr; std::vector<Rank> rk(R); for (auto &r : rk) r.res.resize(k.hist.size());
    c.stage("solvers"); mpimc::Options o; o.world = f.world; o.choose = choose; o.synchronizing = sync;
    auto res = mpimc::run(o, [&](int) {
        int p = f.part(); if (p < 0) return; auto &A = *f.r[p].op; A.use_permutation() = true; const Sub &s = d.s[p]; HPDDM::Option &opt = *HPDDM::Option::get(); opt.clear(); opt["tol"] = 1e-10; opt["max_it"] = 3 * n;
        H diag(*f.r[p].diag); P eps = (P)f.g.eps, eta = (P)f.g.eta; Pts<P> pts(f.geot);
        if (k.dense) {
            if (k.way == JACOBI) { SD b(A, diag); drive(b, rk[p], f, k, p); }
            else if (k.way == ADDING) { SD b(A, diag, *f.gen, s.to_global, s.cluster_to, s.neighbors, s.inter); drive(b, rk[p], f, k, p); }
            else { SD b(A, s.to_global, s.cluster_to, s.neighbors, s.inter, *f.gen, 2, pts.x.data(), eps, eta); drive(b, rk[p], f, k, p); }
        } else {
            if (k.way == JACOBI) { SH b(A, diag); drive(b, rk[p], f, k, p); }
            else if (k.way == ADDING) { SH b(A, diag, *f.gen, s.to_global, s.cluster_to, s.neighbors, s.inter); drive(b, rk[p], f, k, p); }
            else { SH b(A, s.to_global, s.cluster_to, s.neighbors, s.inter, *f.gen, 2, pts.x.data(), eps, eta); drive(b, rk[p], f, k, p); }
        }
    });
    c.step(res.points + 1);
    std::string all = ctx;
    std::string base = mc::str(k.dense ? "dense/" : "hierarchical/", way_name[k.way], "/", f.g.sym, f.g.uplo, "/", TN);
    if (!c.check(res.ok, "communication/" + base, all + ": " + res.what)) return;
    c.check(logged().errors == 0, "logged/" + base, all + ": " + logged().last);
    // what the subdomains are numbered by
    std::vector<M> Rp; M one_ras(n, n), one_asm(n, n), eye_(n, n); const auto &perm = f.ct->get_permutation(); double kappa = 1, am = 0; int ncoarse = 0; for (int v : k.nev) ncoarse += v;
    std::vector<int> pos(n); for (int i = 0; i < n; i++) { pos[perm[i]] = i; eye_(i, i) = 1; }
    M Zg(n, ncoarse); int at = 0;
    for (int p = 0; p < R; p++) {
        Rank &r = rk[p]; int off = f.T_(p).get_offset(), in = f.T_(p).get_size(), m = k.way == JACOBI ? in : (int)d.s[p].to_global.size(); bool good = (int)r.l2g.size() == m; std::vector<char> seen(n, 0);
        for (int i = 0; good && i < m; i++) { int u = r.l2g[i]; good = u >= 0 && u < n && !seen[u]; if (good) { seen[u] = 1; if (i < in) good = u == perm[off + i]; } }
        if (k.way != JACOBI) for (int u : d.s[p].to_global) good = good && seen[u];
        if (!c.check(good, "numbering/" + base, [&] { std::string s = all + mc::str("; process ", p, ": local numbering"); for (int u : r.l2g) s += mc::str(" ", u); return s; })) return;
        M Ai(m, m); for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) Ai(i, j) = f.gen->k(r.l2g[i], r.l2g[j]);
        M I = solve(Ai, eye(m)); kappa = std::max(kappa, fro(Ai) * fro(I)); am = std::max(am, fro(I));
        for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) { int gi = pos[r.l2g[i]], gj = pos[r.l2g[j]]; one_asm(gi, gj) += I(i, j); if (i < in) one_ras(gi, gj) += I(i, j); }
        c.check(r.size == m && (k.nev.empty() || r.nevi == k.nev[p]), "sizes/" + base, all + mc::str("; process ", p, ": ", r.size, " unknowns, ", r.nevi, " vectors"));
        if (ncoarse) { if (!c.check(r.Z.n == k.nev[p], "coarse-size/" + base, all)) return; for (int j = 0; j < k.nev[p]; j++, at++) for (int i = 0; i < in; i++) Zg(off + i, at) = r.Z(i, j); }
        c.check(r.setup, "information/setup/" + base, all);
        // entries by hand are kept by the first process only
        auto want = k.hist.empty() ? r.last : r.res.back().info; if (p == 0) { want["by hand"] = "6.5"; want["new"] = "some text"; want["htool_solver"] = "mine"; }
        c.check(r.keyed && (k.hist.empty() || r.last == want), "information/by-hand/" + base, [&] { return mc::str(all, "; process ", p, ":\n", listed(r.last, " = "), "instead of\n", listed(want, " = ")); });
        if (k.books) {
            c.check(r.printed == (p ? "" : listed(want, "\t") + "\n"), "information/printed/" + base, [&] { return mc::str(all, "; process ", p, ": ", r.printed); });
            c.check(r.saved == (p ? "" : listed(want, " -> ") + listed(want, " = ")), "information/saved/" + base, [&] { return mc::str(all, "; process ", p, ": ", r.saved); });
        }
    }
    const M &A = f.A; std::vector<M> Qs; double qm = 0;
    if (ncoarse) for (int cj_ = 0; cj_ < (Ty<T>::cplx ? 2 : 1); cj_++) for (int tr = 0; tr < 2; tr++) { M E = mul(op(cj_ || !Ty<T>::cplx || f.g.sym == 'H' ? 'C' : 'T', Zg), mul(A, Zg)); if (tr) E = op('T', E); M Ei = solve(E, eye(ncoarse)); double ke = fro(E) * fro(Ei); if (ke > 1e6) c.skip(); Qs.push_back(mul(Zg, mul(Ei, op('C', Zg)))); qm = std::max(qm, fro(Qs.back())); kappa = std::max(kappa, ke); }
    for (size_t h = 0; h < k.hist.size(); h++) {
        const Solve &v = k.hist[h]; std::string sig = mc::str(v.krylov ? "gmres/" : "application/", method_name[v.method], v.corr < 0 ? "" : "/", v.corr < 0 ? "" : corr_name[v.corr], "/", v.mu > 1 ? "several/" : "one/", base), here = all + mc::str("; solve ", h, " ", show(v)); if (h) here += " after " + show(k.hist[h - 1]);
        M b(n, v.mu), x(n, v.mu); for (int i = 0; i < n; i++) for (int j = 0; j < v.mu; j++) { b(i, j) = Z(rk[0].res[h].rhs0[perm[i] + (size_t)j * n]); x(i, j) = Z(rk[0].res[h].x[perm[i] + (size_t)j * n]); }
        bool same = true, kept = true; for (int p = 0; p < R; p++) { auto &q = rk[p].res[h]; for (size_t i = 0; i < q.x.size(); i++) same = same && q.x[i] == rk[0].res[h].x[i]; kept = kept && q.rhs == q.rhs0; }
        c.check(same, "agree/" + sig, here + ": the processes disagree on the solution"); c.check(kept, "right-hand-side/" + sig, here);
        if (v.krylov) { M r = sub(b, mul(A, x)); double e = fro(r), t = 1e-7 * fro(b); c.check(e <= t, "solution/" + sig, [&] { return mc::str(here, ": residual ", e, " > ", t); }); }
        else {
            const M &M1 = v.method == 0 ? eye_ : v.method == 1 ? one_ras : one_asm; std::vector<M> want;
            if (v.method == 0 || v.corr < 0) want.push_back(mul(M1, b));
            else for (auto &Q : Qs) { M q = mul(Q, b), w; if (v.corr == 0) w = mul(M1, b); else { w = mul(M1, sub(b, mul(A, q))); if (v.corr == 2) w = sub(w, mul(Q, mul(A, w))); } for (int i = 0; i < n; i++) for (int j = 0; j < v.mu; j++) w(i, j) += q(i, j); want.push_back(w); }
            double na = 1 + fro(A), amp = v.method == 0 ? 1 : (am + (v.corr < 0 ? 0 : qm)) * (v.corr < 0 ? 1 : na * (1 + qm * (v.corr == 2 ? na : 1))), tol = (v.method == 0 ? 4 * EPS : 2e3 * EPS * kappa + (k.dense && k.way == JACOBI ? 5 : 60) * f.g.eps * kappa) * amp * (fro(b) + 1e-30) * R, best = 1e300;
            if (v.method) tol += 20 * f.g.eps * amp * fro(b);
            for (auto &w : want) best = std::min(best, diff(x, w));
            c.check(best <= tol, "solution/" + sig, [&] { return mc::str(here, ": error ", best, " > ", tol, "\n      got ", ref::show(x), "\n      want ", ref::show(want[0])); });
        }
        auto &in = rk[0].res[h].info; auto is = [&](const char *key, const std::string &w) { c.check(in[key] == w, mc::str("information/", key, "/", base), [&] { return mc::str(here, ": ", key, " is '", in[key], "' instead of '", w, "'"); }); };
        is("Nb_subdomains", mc::str(R)); is("Precond", v.method == 0 ? "None" : v.method == 1 ? "RAS" : "ASM"); is("krylov_method", krylov_name(v, h)); is("htool_solver", "ddm");
        is("Coarse_correction", v.method == 0 || v.corr < 0 ? "None" : v.corr == 0 ? "Additive" : v.corr == 1 ? "Deflated" : "Balanced");
        int it = std::atoi(in["Nb_it"].c_str()); c.check(v.krylov ? it >= 1 && it <= 3 * n : it == 1, "information/Nb_it/" + base, here);
        if (v.method && ncoarse) { int mx = 0, mn = 1000; for (int e : k.nev) { mx = std::max(mx, e); mn = std::min(mn, e); } is("DDM_local_coarse_size_max", mc::str(mx)); is("DDM_local_coarse_size_min", mc::str(mn)); double mean = std::atof(in["DDM_local_coarse_size_mean"].c_str()); c.check(std::abs(mean - (double)ncoarse / R) < 1e-4, "information/DDM_local_coarse_size_mean/" + base, here); is("GenEO_coarse_size", mc::str(ncoarse)); }
        c.outcome(mc::hash_mix(hash(mul(v.method == 2 ? one_asm : v.method ? one_ras : eye_, b)), v.corr * 7 + v.krylov));
    }
}
DFix &fixture(mc::Run &c, const DCfg &d) {
    static Cache<DFix> cache; c.stage("build"); quiet();
    return cache.get(c.cfg_hash(), [&] { return std::unique_ptr<DFix>(new DFix(d)); });
}
struct SymK { char sym, uplo; int kernel; };
DCfg config(mc::Run &c, bool th) {
    DCfg d; d.R = c.of(th ? std::vector<int>{2, 1, 3, 4} : std::vector<int>{2, 1, 3}, "processes"); d.gt = c.of(th ? std::vector<int>{RANDOM, LINE, TWO} : std::vector<int>{RANDOM}, "geometry"); d.nt = c.of(th ? std::vector<int>{11, 14} : std::vector<int>{11}, "points");
    d.imposed_t = c.of(std::vector<int>{0, 2, 3}, "partition"); if (d.R == 1 && d.imposed_t == 3) c.skip();
    std::vector<SymK> sk = {{'N', 'N', K_DOMINANT}}; char s = Ty<T>::cplx ? 'H' : 'S'; for (char u : {'L', 'U'}) sk.push_back({s, u, Ty<T>::cplx ? K_DOMINANT_HERM : K_SPD}); if (Ty<T>::cplx) sk.push_back({'S', 'L', K_SPD});
    auto k = c.of(sk, "symmetry"); d.sym = k.sym; d.uplo = k.uplo; d.kernel = k.kernel; d.eps = c.of(th ? std::vector<double>{1e-10, 1e-3} : std::vector<double>{1e-10}, "epsilon"); d.eta = 10; return d;
}
bool set_up(mc::Run &c, DFix &f, Case &k, const DCfg &d) {
    if (f.problem.size()) { c.fail("construction/" + TN, show(f.g) + ": " + f.problem); return false; }
    if (!f.usable) c.skip();
    for (int p = 0; p < d.R; p++) { if (!f.r[p].diag || f.T_(p).get_size() < 2) c.skip(); for (size_t e = 0; e < k.nev.size(); e++) if (k.nev[e] > f.T_((int)e).get_size()) c.skip(); }
    return true;
}
void solvers(mc::Run &c) {
    quiet(); bool th = c.thorough; DCfg d = config(c, th); Case k;
    k.dense = c.pick(2, "local solver") == 0; k.way = c.pick(3, "construction"); if (k.dense && d.uplo == 'U') c.skip(); // refused by the library
    k.shape = k.way == JACOBI ? 0 : c.pick(5, "overlap"); k.order = k.way == JACOBI ? 0 : th || k.shape == 1 ? c.pick(4, "numbering") : (k.shape + 1) % 4;
    if (d.R == 1 && k.shape > 0) c.skip();
    int coarse = c.pick(th ? 5 : 3, "coarse space"); static const int nev[][4] = {{1, 1, 1, 1}, {2, 0, 1, 2}, {0, 2, 1, 0}, {2, 1, 2, 1}};
    if (coarse) { k.nev.assign(nev[coarse - 1], nev[coarse - 1] + d.R); k.coarse_first = coarse % 2 == 0; int s = 0; for (int v : k.nev) s += v; if (!s) c.skip(); k.geneo = th ? c.pick(2, "given or GenEO") : coarse == 2; }
    k.books = k.shape == 0 && (th || k.way == JACOBI);
    if (!c.mine()) return;
    DFix &f = fixture(c, d); if (!set_up(c, f, k, d)) return; Domains dom = domains(f, k.shape, k.order);
    std::vector<Solve> kinds; for (int mu : th ? std::vector<int>{1, 2, 3} : std::vector<int>{1, 2}) for (int kr = 0; kr < 2; kr++) for (int m = 0; m < 3; m++) for (int co = m && coarse ? 2 : -1; co >= -1; co--) { if (!th && kr && (m + co + mu) % 2) continue; Solve s; s.mu = mu; s.krylov = kr; s.method = m; s.corr = co; kinds.push_back(s); }
    // one history in which every kind of solve follows kinds of all the others: tours of different strides
    int K = (int)kinds.size(), stride = th ? c.pick(K - 1, "order of the solves") : (d.R + d.imposed_t + k.shape + k.order + k.way + 2 * k.dense + coarse) % 3, step = th ? stride + 1 : stride == 0 ? 1 : stride == 1 ? K - 1 : K / 2 + 1; std::vector<char> used(K, 0);
    for (int i = 0, at = 0; i < K; i++) { while (used[at]) at = (at + 1) % K; used[at] = 1; k.hist.push_back(kinds[at]); at = (at + step) % K; }
    run_case(c, f, dom, k, nullptr, false, mc::str(show(d), "; ", k.dense ? "dense, " : "hierarchical, ", way_name[k.way], " shape ", k.shape, " order ", k.order, " coarse ", coarse, k.geneo ? " GenEO" : ""));
}
// more and larger subdomains, larger coarse spaces, many right-hand sides
void large(mc::Run &c) {
    quiet(); bool th = c.thorough; DCfg d; d.R = c.of(th ? std::vector<int>{4, 5, 8} : std::vector<int>{4, 5}, "processes"); d.gt = c.of(th ? std::vector<int>{RANDOM, TWO, CIRCLE} : std::vector<int>{RANDOM}, "geometry"); d.nt = th ? c.of(std::vector<int>{60, 100}, "points") : 45;
    d.minsize = 3; d.nchild = th ? c.of(std::vector<int>{2, 3}, "children") : 2 + (d.R == 5); d.imposed_t = th ? c.of(std::vector<int>{0, 2}, "partition") : 0; d.eps = th ? c.of(std::vector<double>{1e-10, 1e-5}, "epsilon") : 1e-10; d.eta = 10;
    std::vector<SymK> sk = {{'N', 'N', K_DOMINANT}}; char sy = Ty<T>::cplx ? 'H' : 'S'; for (char u : {'L', 'U'}) sk.push_back({sy, u, Ty<T>::cplx ? K_DOMINANT_HERM : K_SPD}); auto q = c.of(sk, "symmetry"); d.sym = q.sym; d.uplo = q.uplo; d.kernel = q.kernel;
    Case k; k.dense = c.pick(2, "local solver") == 0; k.way = c.pick(3, "construction"); if (k.dense && d.uplo == 'U') c.skip();
    bool over = k.way != JACOBI; k.shape = over ? (th ? c.of(std::vector<int>{1, 4}, "overlap") : (k.dense ? 4 : 1)) : 0; k.order = over ? (th ? c.of(std::vector<int>{1, 3}, "numbering") : 3) : 0;
    int coarse = c.pick(3, "coarse space"); static const int nev[][8] = {{3, 5, 2, 4, 6, 1, 2, 3}, {0, 7, 0, 3, 1, 0, 5, 2}}; if (coarse) { k.nev.assign(nev[coarse - 1], nev[coarse - 1] + d.R); k.geneo = coarse == 2; k.coarse_first = coarse == 2; }
    if (!c.mine()) return;
    DFix &f = fixture(c, d); if (!set_up(c, f, k, d)) return; Domains dom = domains(f, k.shape, k.order);
    for (int mu : {8, 1}) for (int kr = 0; kr < 2; kr++) for (int m = 1; m < 3; m++) for (int co = coarse ? 2 : -1; co >= (coarse ? 0 : -1); co--) { if (kr && (m + co + mu) % 2) continue; if (!th && (m + co + kr + mu + (mu > 1)) % 2 && co >= 0) continue; Solve s; s.mu = mu; s.krylov = kr; s.method = m; s.corr = co; k.hist.push_back(s); }
    run_case(c, f, dom, k, nullptr, false, mc::str("large; ", show(d), "; ", k.dense ? "dense, " : "hierarchical, ", way_name[k.way], " shape ", k.shape, " order ", k.order, " coarse ", coarse, k.geneo ? " GenEO" : ""));
}
// every order in which the processes reach their communications, up to a number of deviations
void schedules(mc::Run &c) {
    quiet(); bool th = c.thorough; DCfg d; d.R = c.of(std::vector<int>{2, 3}, "processes"); d.gt = RANDOM; d.nt = 9; d.imposed_t = c.of(std::vector<int>{0, 3}, "partition"); d.kernel = K_DOMINANT; d.eps = 1e-10;
    if (c.pick(2, "symmetry")) { d.sym = Ty<T>::cplx ? 'H' : 'S'; d.uplo = 'L'; d.kernel = Ty<T>::cplx ? K_DOMINANT_HERM : K_SPD; }
    Case k; k.dense = c.pick(2, "local solver") == 0; k.way = c.of(std::vector<int>{ADDING, JACOBI, BUILDING}, "construction"); k.shape = k.way == JACOBI ? 0 : 1; k.order = k.way == JACOBI ? 0 : 3;
    int coarse = c.pick(2, "coarse space"); if (coarse) { k.nev = {2, 1, 0}; k.nev.resize(d.R); }
    Solve a; a.method = 1 + c.pick(2, "preconditioner"); a.corr = coarse ? c.pick(3, "correction") : -1; a.mu = 1 + (a.method + coarse) % 2; k.hist.push_back(a); if (th) { a.mu = 3 - a.mu; a.method = 3 - a.method; k.hist.push_back(a); }
    bool sync = c.pick(2, "rooted collectives wait") == 1;
    if (!c.mine()) return;
    DFix &f = fixture(c, d); if (!set_up(c, f, k, d)) return; Domains dom = domains(f, k.shape, k.order);
    int left = th ? 2 : 1; auto choose = [&](int n) { int m = std::min(n, left + 1), v = m > 1 ? c.pick(m, "next process") : 0; left -= v; return v; };
    run_case(c, f, dom, k, choose, sync, mc::str("schedules; ", show(d), "; ", k.dense ? "dense, " : "hierarchical, ", way_name[k.way], " shape ", k.shape, " order ", k.order, " coarse ", coarse));
}
struct Reg { Reg() {
#define REG(f) { static std::string n = std::string(#f) + "<" + TN + ">"; new mc::Registrar(n.c_str(), f); }
    REG(solvers) REG(schedules) REG(large)
} } reg;
} // namespace

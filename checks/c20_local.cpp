// C20: the local solvers of the domain-decomposition methods (dense, hierarchical, hierarchical with dense overlap): every
// history of solves after one factorization, against Gaussian elimination on the matrix they represent.
#include <HPDDM.hpp>
#include <htool/solvers/local_solvers/local_dense_solvers.hpp>
#include <htool/solvers/local_solvers/local_hmatrix_plus_overlap_solvers.hpp>
#include <htool/solvers/local_solvers/local_hmatrix_solvers.hpp>
#include "ops.inc"
struct SymK { char sym, uplo; };
std::vector<SymK> kinds() { char s = Ty<T>::cplx ? 'H' : 'S'; return {{'N', 'N'}, {s, 'L'}, {s, 'U'}}; }
typedef htool::VirtualLocalSolver<T> Solver;
M cond_inv(const M &A, double &kappa) { M I = solve(A, eye(A.m)); kappa = fro(A) * fro(I); return I; }
// a history of solves: A is what the solver must invert
void histories(mc::Run &c, const Solver &s, const M &A, double eps, const std::string &sig, const std::string &ctx) {
    int n = A.m, len = c.thorough ? 3 : 2; double kappa; M inv = cond_inv(A, kappa); std::vector<std::vector<T>> kept, was; std::string h;
    for (int k = 0; k < len; k++) {
        bool out = c.pick(2, "in or out of place"); int mu = c.of(c.thorough || k == 0 ? std::vector<int>{1, 2, 3} : std::vector<int>{1, 3}, "mu"); h += mc::str(out ? " out" : " in", mu);
        M b(n, mu); for (int i = 0; i < n; i++) for (int j = 0; j < mu; j++) b(i, j) = Z(val<T>(61 + 5 * k, i, j));
        std::vector<T> rhs((size_t)n * mu), x((size_t)n * mu, Ty<T>::mk(Z(std::nan(""), std::nan("")))); for (int i = 0; i < n; i++) for (int j = 0; j < mu; j++) rhs[i + (size_t)j * n] = Ty<T>::mk(b(i, j));
        std::vector<T> rhs0 = rhs;
        c.stage(mc::str("solve", h).c_str());
        if (out) { if (mu == 1 && k == 0) s.solve((const T *)rhs.data(), x.data()); else s.solve((const T *)rhs.data(), x.data(), (unsigned short)mu); }
        else { if (mu == 1 && k == 0) s.solve(rhs.data()); else s.solve(rhs.data(), (unsigned short)mu); x = rhs; }
        M want = mul(inv, b), got = from(x.data(), n, mu); double d = diff(got, want), tol = (30 * eps + 2e3 * EPS) * kappa * (fro(want) + 1e-30);
        c.check(d <= tol, sig + (out ? "/out-of-place/" : "/in-place/") + TN, [&] { return mc::str(ctx, ";", h, "; cond ", kappa, " error ", d, " > ", tol, "\n      got ", show(got), "\n      want ", show(want)); });
        if (out) c.check(rhs == rhs0, sig + "/right-hand-side/" + TN, ctx + ";" + h);
        for (size_t q = 0; q < kept.size(); q++) c.check(kept[q] == was[q], sig + "/earlier-solution/" + TN, ctx + ";" + h);
        kept.push_back(std::move(x)); was.push_back(kept.back()); // an earlier solution stays
        c.outcome(hash(want)); c.step();
    }
    c.check(logged().errors == 0, sig + "/logged/" + TN, logged().last);
}
void dense_solver(mc::Run &c) {
    quiet(); int n = c.of(c.thorough ? std::vector<int>{1, 2, 3, 4, 7, 40} : std::vector<int>{1, 3, 5, 30}, "n"), rot = c.pick(std::min(n, 3), "rows rotated");
    if (!c.mine()) return;
    Matrix<T> A = mat(n, n, 17); for (int i = 0; i < n; i++) A((i + rot) % n, i) += T(3 + i); M full = fromMat(A);
    htool::LocalDenseSolver<T> s(A); c.stage("numfact"); s.numfact(nullptr);
    histories(c, s, full, 0, "dense", mc::str("n ", n, " rotation ", rot));
}
struct PosK : htool::VirtualGenerator<T> { // dominant coefficients by position
    const Cluster<P> *root; int kind; std::vector<int> pos, piv; Kernel<T> k; const Geo *g;
    PosK(const Geo &geo, const Cluster<P> &r, bool herm, int p) : root(&r), kind(herm), pos(geo.n), piv(geo.n), k{&geo, &geo, herm ? K_HERM : K_NONSYM, true}, g(&geo) { for (int i = 0; i < geo.n; i++) pos[r.get_permutation()[i]] = i; for (int i = 0; i < geo.n; i++) piv[i] = i; if (p) rotate(r, p); }
    void rotate(const Cluster<P> &c, int p) { if (c.is_leaf()) { for (int i = 0; i < c.get_size(); i++) piv[c.get_offset() + i] = c.get_offset() + (i + p) % c.get_size(); return; } for (auto &ch : c.get_children()) rotate(*ch, p); } // dominant coefficients of the dense leaves off their diagonal
    void copy_submatrix(int Mm, int N, const int *rows, const int *cols, T *ptr) const override { for (int j = 0; j < N; j++) for (int i = 0; i < Mm; i++) { Z v = k(rows[i], cols[j]) * 0.25; if (rows[i] == cols[j] && kind) v = v.real(); if (piv[pos[rows[i]]] == pos[cols[j]]) v += 5 + 0.125 * pos[rows[i]]; ptr[i + (size_t)Mm * j] = Ty<T>::mk(v); } }
};
struct SV { int part, at; };
struct HA { std::unique_ptr<PosK> gen; std::unique_ptr<H> h; M full;
    HA(const Geo &g, const Cluster<P> &root, const Cluster<P> &v, Pat p, int rank, double eps, char sym, char uplo, int piv) {
        gen.reset(new PosK(g, root, sym != 'N', piv)); HMatrixTreeBuilder<T, P> b(v, v, (P)eps, 10, sym, uplo, -1, -1, -1);
        b.set_low_rank_generator(std::make_shared<ScriptedLR<T>>(rank, 0.1)); b.set_admissibility_condition(admissibility(p, v, v, true));
        h.reset(new H(b.build(*gen))); full = expand<T>(*h);
    } };
void hierarchical(mc::Run &c) {
    quiet(); ompmc::set_threads(1); bool th = c.thorough;
    SV v = c.of(th ? std::vector<SV>{{1, -1}, {2, -1}, {12, 1}, {2, 1}, {23, 0}} : std::vector<SV>{{1, -1}, {2, 1}, {12, 1}}, "view");
    int minsize = c.of(std::vector<int>{1, 3}, "minclustersize"); Pat p{false, c.of(std::vector<int>{0, 6}, "level 1"), c.of(th ? std::vector<int>{6, 0, 2, 4} : std::vector<int>{6}, "level 2")};
    int rank = c.of(th ? std::vector<int>{1, 0, 101} : std::vector<int>{1, 101}, "rank"); double eps = c.of(std::vector<double>{fine(), 1e-4}, "epsilon");
    auto k = c.of(kinds(), "symmetry"); bool perm = c.pick(2, "permutation");
    if (perm && v.at >= 0 && v.part < 10) c.skip(); // a part of a global permutation has no numbering of its own
    int piv = k.sym == 'N' && minsize > 1 ? c.pick(3, "pivots of the leaves") : 0;
    if (!c.mine()) return;
    Trees &t = trees(v.part, 2, minsize); const Cluster<P> &C = t.at(0, v.at);
    c.stage("build"); HA A(t.g[0], *t.root[0], C, p, rank, eps, k.sym, k.uplo, piv);
    htool::LocalHMatrixSolver<T, P> s(*A.h, perm); c.stage("numfact"); s.numfact(nullptr);
    histories(c, s, perm ? to_user(A.full, C, C) : A.full, eps, mc::str("hierarchical/", k.sym, k.uplo, perm ? "/user" : "/cluster"), mc::str("view ", v.part, "/", v.at, " min ", minsize, " pattern ", p.b1, "/", p.b2, " rank ", rank, " eps ", eps, " pivots ", piv));
}
// larger matrices: geometry-driven block structures, real compressors, long overlaps and many right-hand sides
void large(mc::Run &c) {
    quiet(); ompmc::set_threads(1); bool th = c.thorough; HCfg g; struct L { int nchild, minsize, part; };
    g.nt = c.of(th ? std::vector<int>{60, 110} : std::vector<int>{70}, "n"); g.gt = c.of(th ? std::vector<int>{RANDOM, TWO, CIRCLE} : std::vector<int>{RANDOM, TWO}, "geometry");
    L l = c.of(std::vector<L>{{2, 10, 1}, {3, 3, 1}, {2, 4, 1}, {6, 2, 1}}, "clusters"); g.ct.nchild = l.nchild; g.ct.minsize = l.minsize; g.eta = c.of(std::vector<double>{10, 1}, "eta"); g.eps = c.of(std::vector<double>{1e-4, fine()}, "epsilon"); g.comp = c.of(std::vector<int>{3, 0}, "compressor");
    auto k = c.of(kinds(), "symmetry"); g.sym = k.sym; g.uplo = k.uplo; g.kernel = k.sym == 'N' ? K_DOMINANT : K_DOMINANT_HERM; int kind = c.pick(4, "solver: cluster numbering, user numbering, overlap 9, overlap 24");
    if (!c.mine()) return;
    c.stage("build"); HFix<T> f(g); if (!f.usable) c.skip(); int n = g.nt, ov = kind < 2 ? 0 : kind == 2 ? 9 : 24, N = n + ov; std::unique_ptr<Solver> s; M A = kind == 1 ? to_user(f.full, *f.ct, *f.cs) : f.full; Matrix<T> B, C, D(ov, ov);
    if (ov) {
        M F(N, N); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) {
            if (i < n && j < n) { F(i, j) = A(i, j); continue; }
            int a = i, b = j; bool herm = k.sym != 'N'; if (herm && a < b) std::swap(a, b); Z x = Z(val<T>(71, a, b)) * 0.1; if (herm && i < j) x = std::conj(x); if (i == j) x = (herm ? Z(x.real()) : x) + Z(4 + 0.25 * i); F(i, j) = Z(Ty<T>::mk(x));
        }
        A = F; auto fill = [&](Matrix<T> &m, int i0, int j0, int r, int q) { m.resize(r, q); for (int i = 0; i < r; i++) for (int j = 0; j < q; j++) m(i, j) = Ty<T>::mk(F(i0 + i, j0 + j)); };
        if (k.uplo != 'L') fill(B, 0, n, n, ov); if (k.uplo != 'U') fill(C, n, 0, ov, n); fill(D, n, n, ov, ov);
        s.reset(new htool::LocalHMatrixPlusOverlapSolver<T, P>(*f.h, B, C, D));
    } else s.reset(new htool::LocalHMatrixSolver<T, P>(*f.h, kind == 1));
    c.stage("numfact"); s->numfact(nullptr);
    double kappa; M inv = cond_inv(A, kappa);
    for (int mu : {1, 12}) for (int out = 0; out < 2; out++) {
        M b(N, mu); for (int i = 0; i < N; i++) for (int j = 0; j < mu; j++) b(i, j) = Z(val<T>(61 + out, i, j));
        std::vector<T> rhs((size_t)N * mu), x((size_t)N * mu); for (int i = 0; i < N; i++) for (int j = 0; j < mu; j++) rhs[i + (size_t)j * N] = Ty<T>::mk(b(i, j));
        c.stage("solve"); if (out) s->solve((const T *)rhs.data(), x.data(), (unsigned short)mu); else { s->solve(rhs.data(), (unsigned short)mu); x = rhs; }
        M want = mul(inv, b), got = from(x.data(), N, mu); double d = diff(got, want), tol = (30 * g.eps + 2e3 * EPS) * kappa * (fro(want) + 1e-30);
        c.check(d <= tol, mc::str("large/", kind, "/", k.sym, k.uplo, out ? "/out-of-place/" : "/in-place/", TN), [&] { return mc::str(show(g), " solver ", kind, " mu ", mu, " cond ", kappa, " error ", d, " > ", tol); });
        c.step();
    }
    c.check(logged().errors == 0, "large/logged/" + TN, logged().last); c.outcome(hash(A));
}
void overlap(mc::Run &c) {
    quiet(); ompmc::set_threads(1); bool th = c.thorough;
    SV v = c.of(th ? std::vector<SV>{{1, -1}, {2, 1}, {12, 1}, {2, -1}} : std::vector<SV>{{1, -1}, {2, 1}}, "view");
    int minsize = c.of(th ? std::vector<int>{1, 3} : std::vector<int>{3, 1}, "minclustersize"); Pat p{false, c.of(std::vector<int>{0, 6}, "level 1"), 6};
    int rank = c.of(th ? std::vector<int>{1, 0, 101} : std::vector<int>{1}, "rank"); double eps = c.of(std::vector<double>{fine(), 1e-4}, "epsilon");
    auto k = c.of(kinds(), "symmetry"); int ov = c.of(th ? std::vector<int>{0, 1, 2, 3, 5} : std::vector<int>{0, 1, 3}, "overlap"), rot = k.sym == 'N' && ov > 1 ? c.pick(std::min(ov, 3), "rows of the overlap rotated") : 0;
    int piv = k.sym == 'N' && minsize > 1 ? c.pick(3, "pivots of the leaves") : 0;
    if (!c.mine()) return;
    Trees &t = trees(v.part, 2, minsize); const Cluster<P> &C = t.at(0, v.at); int n = C.get_size(), N = n + ov;
    c.stage("build"); HA A(t.g[0], *t.root[0], C, p, rank, eps, k.sym, k.uplo, piv);
    M F(N, N); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) {
        if (i < n && j < n) { F(i, j) = A.full(i, j); continue; }
        int a = i, b = j; Z x; bool herm = k.sym != 'N'; if (herm && a < b) std::swap(a, b); x = Z(val<T>(71, a, b)) * 0.4; if (herm && i < j) x = std::conj(x); if (i == j && herm) x = x.real();
        if (i >= n && j >= n && (i - n + rot) % ov == j - n) x += 4 + 0.25 * i; F(i, j) = Z(Ty<T>::mk(x));
    }
    Matrix<T> B, Cm, D(ov, ov); auto fill = [&](Matrix<T> &m, int i0, int j0, int r, int q) { m.resize(r, q); for (int i = 0; i < r; i++) for (int j = 0; j < q; j++) m(i, j) = Ty<T>::mk(F(i0 + i, j0 + j)); };
    if (k.uplo != 'L') fill(B, 0, n, n, ov); if (k.uplo != 'U') fill(Cm, n, 0, ov, n); fill(D, n, n, ov, ov);
    htool::LocalHMatrixPlusOverlapSolver<T, P> s(*A.h, B, Cm, D); c.stage("numfact"); s.numfact(nullptr);
    histories(c, s, F, eps, mc::str("overlap/", k.sym, k.uplo), mc::str("view ", v.part, "/", v.at, " min ", minsize, " pattern ", p.b1, "/", p.b2, " rank ", rank, " eps ", eps, " pivots ", piv, " overlap ", ov, " rotation ", rot));
}
struct Reg { Reg() {
#define R(f) { static std::string n = std::string(#f) + "<" + TN + ">"; new mc::Registrar(n.c_str(), f); }
    R(dense_solver) R(hierarchical) R(overlap) R(large)
} } reg;
} // namespace

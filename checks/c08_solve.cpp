// C08: hierarchical LU / Cholesky factorizations followed by solves, and hierarchical triangular solves,
// against dense Gaussian elimination on the matrix's own entries.
#include "ops.inc"
// coefficient by position in the cluster numbering: small off-diagonal part plus a dominant permutation of the
// rows inside each leaf cluster (so that the dense leaves need every pivot order)
struct PosGen : htool::VirtualGenerator<T> {
    const Geo *g; const Cluster<P> *root; std::vector<int> pos, piv; int kernel; double off; Kernel<T> k;
    static const int *perm3(int p) { static const int t[6][3] = {{0, 1, 2}, {1, 0, 2}, {0, 2, 1}, {2, 1, 0}, {1, 2, 0}, {2, 0, 1}}; return t[p]; }
    PosGen(const Geo &geo, const Cluster<P> &r, int kern, double o, int p) : g(&geo), root(&r), pos(geo.n), piv(geo.n), kernel(kern), off(o), k{&geo, &geo, kern, true} {
        for (int i = 0; i < geo.n; i++) pos[r.get_permutation()[i]] = i;
        for (int i = 0; i < geo.n; i++) piv[i] = i;
        if (p) leaves(r, p);
    }
    void leaves(const Cluster<P> &c, int p) {
        if (c.is_leaf()) { const int *q = perm3(p); if (c.get_size() >= 3) for (int i = 0; i < 3; i++) piv[c.get_offset() + i] = c.get_offset() + q[i]; else if (c.get_size() == 2 && (p & 1)) std::swap(piv[c.get_offset()], piv[c.get_offset() + 1]); return; }
        for (auto &ch : c.get_children()) leaves(*ch, p);
    }
    Z at(int i, int j) const { // user numbering
        int a = pos[i], b = pos[j];
        Z v = k(i, j) * off;
        if (a == b && kernel == K_HERM) v = v.real();
        if (piv[a] == b) v += 5 + 0.125 * a;
        return Z(Ty<T>::mk(v));
    }
    void copy_submatrix(int Mm, int N, const int *rows, const int *cols, T *ptr) const override { for (int j = 0; j < N; j++) for (int i = 0; i < Mm; i++) ptr[i + (size_t)Mm * j] = Ty<T>::mk(at(rows[i], cols[j])); }
};
struct Sq {
    std::unique_ptr<PosGen> gen; std::unique_ptr<H> h; M full; uint64_t raw;
    Sq(const Geo &g, const Cluster<P> &root, const Cluster<P> &view, Pat p, int rank, double eps, char sym, char uplo, int kernel, int piv, double off = 0.25) {
        gen.reset(new PosGen(g, root, kernel, off, piv));
        HMatrixTreeBuilder<T, P> b(view, view, (P)eps, 10, sym, uplo, -1, -1, -1);
        b.set_low_rank_generator(std::make_shared<ScriptedLR<T>>(rank, off * 0.4));
        b.set_admissibility_condition(admissibility(p, view, view, true));
        h.reset(new H(b.build(*gen)));
        full = expand<T>(*h); raw = raw_hash<T>(*h);
    }
};
M eye(int n) { M I(n, n); for (int i = 0; i < n; i++) I(i, i) = 1; return I; }
double condition(const M &A) { return fro(A) * fro(solve(A, eye(A.m))); }
struct SView { int part, at; };
std::vector<SView> sviews(bool th) { std::vector<SView> v = {{1, -1}, {2, -1}, {12, 1}}; if (th) { v.push_back({2, 1}); v.push_back({23, -1}); v.push_back({3, 0}); v.push_back({23, 1}); } return v; }
Matrix<T> from_user_solution(const M &b) { Matrix<T> X(b.m, b.n); for (int i = 0; i < b.m; i++) for (int j = 0; j < b.n; j++) X(i, j) = Ty<T>::mk(b(i, j)); return X; }
// position -> user numbering relative to the view
M rows_to_user(const M &X, const Cluster<P> &v) { M Y(X.m, X.n); for (int i = 0; i < X.m; i++) for (int j = 0; j < X.n; j++) Y(v.get_permutation()[v.get_offset() + i] - v.get_offset(), j) = X(i, j); return Y; }

void lu(mc::Run &c) {
    quiet(); ompmc::set_threads(1); bool th = c.thorough;
    SView v = c.of(sviews(th), "view");
    int nchild = c.of(th ? std::vector<int>{2, 3} : std::vector<int>{2}, "children"), minsize = c.of(th ? std::vector<int>{1, 2, 3} : std::vector<int>{1, 3}, "minclustersize");
    Pat p{false, c.of(std::vector<int>{0, 6, 2, 4}, "level 1"), c.of(std::vector<int>{6, 0, 2, 15, 4}, "level 2")};
    int rank = c.of(std::vector<int>{1, 0, 2, 101, 201}, "rank of compressed leaves");
    double eps = c.of(std::vector<double>{fine(), 1e-4}, "epsilon");
    int piv = c.pick(6, "pivot order in the dense leaves");
    if (!c.mine()) return;
    Trees &t = trees(v.part, nchild, minsize);
    const Cluster<P> &C = t.at(0, v.at);
    c.stage("build");
    Sq A(t.g[0], *t.root[0], C, p, rank, eps, 'N', 'N', K_NONSYM, piv);
    c.stage("lu_factorization");
    htool::lu_factorization(*A.h);
    uint64_t factored = raw_hash<T>(*A.h);
    double kappa = condition(A.full);
    std::string ctx = mc::str("view ", v.part, "/", v.at, " children ", nchild, " min ", minsize, " pattern ", p.b1, "/", p.b2, " rank ", rank, " eps ", eps, " pivots ", piv, " cond ", kappa);
    for (int nr : {1, 3}) for (char tr : {'N', 'T', 'C'}) for (int user = 0; user < (v.at < 0 || v.part > 10 ? 2 : 1); user++) {
        M b(C.get_size(), nr); for (int i = 0; i < b.m; i++) for (int j = 0; j < nr; j++) b(i, j) = Z(val<T>(55, i, j));
        M x = solve(op(tr, A.full), b);
        M bu = user ? rows_to_user(b, C) : b, xu = user ? rows_to_user(x, C) : x;
        Matrix<T> X = from_user_solution(bu);
        c.stage(mc::str(user ? "lu_solve " : "internal_lu_solve ", tr).c_str());
        if (user) htool::lu_solve(tr, *A.h, X); else htool::internal_lu_solve(tr, *A.h, X);
        double d = fro(sub(fromMat(X), xu)), tol = (30 * eps + 2e3 * EPS) * kappa * fro(x);
        c.check(d <= tol, mc::str("lu-solve/", tr, user ? "/user/" : "/cluster/", nr > 1 ? "multi/" : "single/", TN), [&] { return mc::str(ctx, " error ", d, " > ", tol, "\n      got ", show(fromMat(X)), "\n      want ", show(xu)); });
        c.step();
    }
    c.check(raw_hash<T>(*A.h) == factored, "lu-solve-changes-factor/" + TN, ctx);
    c.check(logged().errors == 0, "lu-logged/" + TN, logged().last);
    c.outcome(hash(A.full));
}
void cholesky(mc::Run &c) {
    quiet(); ompmc::set_threads(1); bool th = c.thorough;
    SView v = c.of(sviews(th), "view");
    int nchild = c.of(th ? std::vector<int>{2, 3} : std::vector<int>{2}, "children"), minsize = c.of(th ? std::vector<int>{1, 2, 3} : std::vector<int>{1, 3}, "minclustersize");
    Pat p{false, c.of(std::vector<int>{0, 6}, "level 1"), c.of(std::vector<int>{6, 0, 2, 15, 4}, "level 2")};
    int rank = c.of(std::vector<int>{1, 0, 2, 101, 201}, "rank of compressed leaves");
    double eps = c.of(std::vector<double>{fine(), 1e-4}, "epsilon");
    char uplo = c.ch("LU", "triangle"); bool full_storage = c.pick(2, "full storage");
    if (!c.mine()) return;
    Trees &t = trees(v.part, nchild, minsize);
    const Cluster<P> &C = t.at(0, v.at);
    c.stage("build");
    Sq A(t.g[0], *t.root[0], C, p, rank, eps, full_storage ? 'N' : Ty<T>::cplx ? 'H' : 'S', full_storage ? 'N' : uplo, K_HERM, 0);
    M full = full_storage ? mirror(A.full, uplo, 'H') : A.full;
    c.stage("cholesky_factorization");
    htool::cholesky_factorization(uplo, *A.h);
    uint64_t factored = raw_hash<T>(*A.h);
    double kappa = condition(full);
    std::string ctx = mc::str("view ", v.part, "/", v.at, " children ", nchild, " min ", minsize, " pattern ", p.b1, "/", p.b2, " rank ", rank, " eps ", eps, " triangle ", uplo, " cond ", kappa);
    for (int nr : {1, 3}) for (int user = 0; user < (v.at < 0 || v.part > 10 ? 2 : 1); user++) {
        M b(C.get_size(), nr); for (int i = 0; i < b.m; i++) for (int j = 0; j < nr; j++) b(i, j) = Z(val<T>(55, i, j));
        M x = solve(full, b), bu = user ? rows_to_user(b, C) : b, xu = user ? rows_to_user(x, C) : x;
        Matrix<T> X = from_user_solution(bu);
        c.stage(user ? "cholesky_solve" : "internal_cholesky_solve");
        if (user) htool::cholesky_solve(uplo, *A.h, X); else htool::internal_cholesky_solve(uplo, *A.h, X);
        double d = fro(sub(fromMat(X), xu)), tol = (30 * eps + 2e3 * EPS) * kappa * fro(x);
        c.check(d <= tol, mc::str("cholesky-solve/", uplo, full_storage ? "/full-storage" : "/half-storage", user ? "/user/" : "/cluster/", nr > 1 ? "multi/" : "single/", TN), [&] { return mc::str(ctx, " error ", d, " > ", tol, "\n      got ", show(fromMat(X)), "\n      want ", show(xu)); });
        c.step();
    }
    c.check(raw_hash<T>(*A.h) == factored, "cholesky-solve-changes-factor/" + TN, ctx);
    c.check(logged().errors == 0, "cholesky-logged/" + TN, logged().last);
    c.outcome(hash(full));
}
M triangle(const M &A, char uplo, char diag) { M B(A.m, A.n); for (int i = 0; i < A.m; i++) for (int j = 0; j < A.n; j++) if (i == j) B(i, j) = diag == 'U' ? Z(1) : A(i, j); else if ((uplo == 'L') == (i > j)) B(i, j) = A(i, j); return B; }
struct TView { int part, a, b; };
void triangular(mc::Run &c) {
    quiet(); ompmc::set_threads(1); bool th = c.thorough;
    TView v = c.of(th ? std::vector<TView>{{1, -1, -1}, {2, -1, -1}, {2, 1, 0}, {2, 1, -1}, {2, -1, 0}, {3, -1, -1}, {3, 2, 1}} : std::vector<TView>{{1, -1, -1}, {2, -1, -1}, {2, 1, 0}, {2, 1, -1}}, "view");
    int nchild = c.of(th ? std::vector<int>{2, 3} : std::vector<int>{2}, "children"), minsize = c.of(std::vector<int>{1, 3}, "minclustersize");
    char uplo = c.ch("LU", "triangle");
    int storage = c.pick(Ty<T>::cplx ? 3 : 2, "storage"); // full, symmetric, Hermitian
    Pat p{false, storage ? c.of(std::vector<int>{0, 6}, "level 1") : c.of(std::vector<int>{0, 6, 2, 4}, "level 1"), c.of(th ? std::vector<int>{6, 0, 2, 15, 4} : std::vector<int>{6, 0}, "level 2")};
    int rank = c.of(std::vector<int>{1, 0, 101}, "rank of compressed leaves");
    bool left = c.pick(2, "side") == 0;
    double eps = c.of(std::vector<double>{fine(), 1e-4}, "epsilon");
    if (!c.mine()) return;
    Trees &t = trees(v.part, nchild, minsize);
    const Cluster<P> &C = t.at(0, v.a), &F = t.at(2, v.b);
    static Cache<Sq> cache;
    c.stage("build A");
    Sq &A = cache.get(c.cfg_hash(), [&] { return std::unique_ptr<Sq>(new Sq(t.g[0], *t.root[0], C, p, rank, eps, "NSH"[storage], storage ? uplo : 'N', storage == 1 ? K_SYM : storage == 2 ? K_HERM : K_NONSYM, 0, 0.5)); });
    char ta = c.ch("NTC", "trans"), diag = c.ch("NU", "diag"), side = left ? 'L' : 'R';
    int kind = c.pick(3, "right-hand side: dense, low-rank, hierarchical");
    T alpha = kind == 0 || th ? c.of(std::vector<T>{T(1), Ty<T>::mk(Z(-1.5, 0.5))}, "alpha") : Ty<T>::mk(Z(-1.5, 0.5));
    M tri = triangle(A.full, uplo, diag), otri = op(ta, tri), b;
    int n = C.get_size();
    double kappa = condition(tri);
    auto reference = [&](const M &rhs) { M r = scal(Z(alpha), rhs); if (left) return solve(otri, r); return op('T', solve(op('T', otri), op('T', r))); };
    std::string ctx = mc::str(side, uplo, ta, diag, " view ", v.part, "/", v.a, v.b, " children ", nchild, " min ", minsize, " pattern ", p.b1, "/", p.b2, " rank ", rank, " eps ", eps, " alpha ", alpha, " storage ", storage, " cond ", kappa);
    M got;
    if (kind == 0) {
        int k = c.of(std::vector<int>{1, 4}, "free dimension");
        Matrix<T> B = left ? mat(n, k, 91) : mat(k, n, 91); b = fromMat(B);
        c.stage("dense right-hand side");
        htool::internal_triangular_hmatrix_matrix_solve(side, uplo, ta, diag, alpha, *A.h, B);
        got = fromMat(B);
    } else if (kind == 1) {
        int k = 5, r = c.of(std::vector<int>{2, 0}, "rank of right-hand side");
        LR B = left ? lrm(n, r, k, 92, eps) : lrm(k, r, n, 92, eps); b = dense(B);
        c.stage("low-rank right-hand side");
        htool::internal_triangular_hmatrix_lrmat_solve(side, uplo, ta, diag, alpha, *A.h, B);
        got = dense(B);
    } else {
        Pat q{false, c.of(th ? std::vector<int>{0, 6, 15, 1, 2, 4, 8, 9, 11, 14} : std::vector<int>{0, 6, 15, 1, 8}, "B level 1"), c.of(std::vector<int>{6, 9}, "B level 2")};
        if (v.a >= 0 && v.b >= 0) { q.b0 = c.pick(2, "B is one low-rank block"); if (q.b0 && (q.b1 || q.b2 != 6)) c.skip(); }
        int rb = c.of(std::vector<int>{2, 0, 102}, "rank of compressed leaves of B");
        if (rb == 0 && q.b1 != 6) c.skip();
        c.stage("build B");
        Op B(t.g[left ? 0 : 2], left ? C : F, t.g[left ? 2 : 0], left ? F : C, q, rb, eps); b = B.full;
        c.stage("hierarchical right-hand side");
        htool::internal_triangular_hmatrix_hmatrix_solve(side, uplo, ta, diag, alpha, *A.h, *B.h);
        got = expand<T>(*B.h);
    }
    M x = reference(b);
    double d = got.m == x.m ? fro(sub(got, x)) : INFINITY, tol = (30 * eps * (kind == 2) + 2e3 * EPS) * kappa * (fro(x) + std::abs(alpha) * fro(b)) + 1e-30;
    c.check(d <= tol, mc::str("triangular/", kind == 0 ? "dense/" : kind == 1 ? "low-rank/" : "hierarchical/", "NSH"[storage], "/", side, uplo, ta, diag, "/", TN), [&] { return mc::str(ctx, " error ", d, " > ", tol, "\n      got ", show(got), "\n      want ", show(x)); });
    c.step();
    c.check(raw_hash<T>(*A.h) == A.raw, "triangular-changes-A/" + TN, ctx);
    c.check(logged().errors == 0, "triangular-logged/" + TN, logged().last);
    c.outcome(hash(x));
}
// geometry-driven block trees and real compressors
void geometric(mc::Run &c) {
    quiet(); ompmc::set_threads(1); bool th = c.thorough;
    HCfg g; g.dim = th ? c.of(std::vector<int>{2, 3}, "dim") : 2;
    g.gt = c.of(th ? std::vector<int>{LINE, GRID, TWO, NEG, CIRCLE, RANDOM} : std::vector<int>{LINE, GRID, TWO}, "geometry");
    g.nt = c.of(th ? std::vector<int>{1, 2, 7, 17, 30, 61, 120} : std::vector<int>{1, 2, 17, 30, 80}, "n");
    g.ct.nchild = c.of(g.nt > 60 ? std::vector<int>{2, 5} : std::vector<int>{2, 3}, "children"); g.ct.minsize = c.of(g.nt > 60 ? std::vector<int>{2, 10} : std::vector<int>{1, 4}, "minclustersize");
    g.ct.part = c.of(std::vector<int>{1, 2, 3}, "partition"); g.ct.imposed = g.ct.part == 3 ? 2 : 0;
    if (g.ct.part > 1 && g.nt < 17) c.skip();
    g.eta = c.of(std::vector<double>{10, 1}, "eta"); g.eps = c.of(std::vector<double>{1e-4, fine()}, "epsilon");
    g.comp = c.of(th ? std::vector<int>{0, 1, 2, 3} : std::vector<int>{0, 3}, "compressor");
    int how = c.pick(3, "factorization"); // LU, Cholesky L, Cholesky U
    if (how) { g.sym = Ty<T>::cplx ? 'H' : 'S'; g.uplo = how == 1 ? 'L' : 'U'; g.kernel = K_DOMINANT_HERM; } else g.kernel = K_DOMINANT;
    if (!c.mine()) return;
    c.stage("build");
    HFix<T> f(g); if (!f.usable) c.skip();
    double kappa = condition(f.full);
    c.stage("factorize");
    if (how) htool::cholesky_factorization(g.uplo, *f.h); else htool::lu_factorization(*f.h);
    M fulluser = to_user(f.full, *f.ct, *f.cs);
    for (char tr : {'N', 'T', 'C'}) for (int nr : {1, g.nt > 60 ? 12 : 2}) {
        if (how && tr != 'N') continue;
        M b(g.nt, nr); for (int i = 0; i < g.nt; i++) for (int j = 0; j < nr; j++) b(i, j) = Z(val<T>(57, i, j));
        M x = solve(op(tr, fulluser), b);
        Matrix<T> X = from_user_solution(b);
        c.stage("solve");
        if (how) htool::cholesky_solve(g.uplo, *f.h, X); else htool::lu_solve(tr, *f.h, X);
        double d = fro(sub(fromMat(X), x)), tol = (30 * g.eps + 2e3 * EPS) * kappa * fro(x);
        c.check(d <= tol, mc::str("geometric/", how, "/", tr, "/", TN), [&] { return mc::str(show(g), " cond ", kappa, " error ", d, " > ", tol, "\n      got ", show(fromMat(X)), "\n      want ", show(x)); });
        c.step();
    }
    int de = 0, lr = 0; leaf_kinds<T>(*f.h, de, lr); c.state(mc::hash_mix(de, lr));
    c.check(logged().errors == 0, "geometric-logged/" + TN, logged().last);
}
struct Reg { Reg() {
#define R(f) { static std::string n = std::string(#f) + "<" + TN + ">"; new mc::Registrar(n.c_str(), f); }
    R(lu) R(cholesky) R(triangular) R(geometric)
} } reg;
} // namespace

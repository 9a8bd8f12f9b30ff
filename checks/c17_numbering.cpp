// C17: user / cluster numberings.
#include "hx.hpp"
#include <htool/distributed_operator/implementations/partition_from_cluster.hpp>
#include <htool/hmatrix/linalg/interface.hpp>
#include <htool/local_operators/local_dense_matrix.hpp>
#include <htool/local_operators/local_hmatrix.hpp>
#include "trees.inc"
typedef std::complex<P> CP;
template <class X> X mk(int i) { return X((P)(i + 1)); }
template <> CP mk<CP>(int i) { return CP((P)(i + 1), (P)(-2 * i)); }
const double MARK = -55;
// the two forms of an interface may add things up in different orders
template <class X> bool near(const X &a, const X &b) { double d = std::abs(Z(a) - Z(b)), s = std::abs(Z(a)) + std::abs(Z(b)); return a == b || d <= 1e4 * (double)std::numeric_limits<Re<X>>::epsilon() * (s + 1); }
// which kind of point each helper gives back, on exactly sized buffers (the sanitizer watches the ends)
template <class X> void vectors(mc::Run &c, const Cluster<P> &root, const std::vector<int> &perm, const std::string &ctx, const std::string &ty) {
    int n = root.get_size();
    auto same = [&](const std::vector<X> &got, const std::vector<X> &want, const std::string &sig) { c.check(got == want, sig + "/" + ty, [&] { std::string s = sig + ": got"; for (int i = 0; i < std::min((int)got.size(), 12); i++) s += mc::str(" ", std::real(got[i])); s += " want"; for (int i = 0; i < std::min((int)want.size(), 12); i++) s += mc::str(" ", std::real(want[i])); return s + " -- " + ctx; }); };
    std::vector<X> user(n), clus(n);
    for (int i = 0; i < n; i++) user[i] = mk<X>(i);
    for (int i = 0; i < n; i++) clus[i] = user[perm[i]];
    htool::PartitionFromCluster<X, P> part(root);
    c.check(part.get_global_size() == n && part.is_renumbering_local() == root.is_permutation_local(), "partition-data/" + ty, ctx);
    for (int way = 0; way < 3; way++) {
        std::vector<X> in = user, a(n, X((P)MARK)), b(n, X((P)MARK));
        c.stage("user to cluster numbering");
        if (way == 0) htool::global_to_root_cluster(root, in.data(), a.data()); else if (way == 1) htool::user_to_cluster(root, in.data(), a.data()); else part.global_to_partition_numbering(in.data(), a.data());
        c.step();
        same(a, clus, "to-cluster"); same(in, user, "input");
        c.stage("cluster to user numbering");
        if (way == 0) htool::root_cluster_to_global(root, a.data(), b.data()); else if (way == 1) htool::cluster_to_user(root, a.data(), b.data()); else part.partition_to_global_numbering(a.data(), b.data());
        c.step();
        same(b, user, "round-trip");
        std::vector<X> d(n, X((P)MARK)), e(n, X((P)MARK)); // the other way round
        if (way == 0) { htool::root_cluster_to_global(root, user.data(), d.data()); htool::global_to_root_cluster(root, d.data(), e.data()); }
        else if (way == 1) { htool::cluster_to_user(root, user.data(), d.data()); htool::user_to_cluster(root, d.data(), e.data()); }
        else { part.partition_to_global_numbering(user.data(), d.data()); part.global_to_partition_numbering(d.data(), e.data()); }
        same(e, user, "round-trip-cluster");
    }
    // parts
    int parts = (int)root.get_clusters_on_partition().size(), o = 0;
    for (int p = 0; p < parts; p++) {
        const Cluster<P> &cl = root.get_cluster_on_partition(p);
        c.check(part.get_offset_of_partition(p) == o && part.get_size_of_partition(p) == cl.get_size() && cl.get_offset() == o, "partition-tiling/" + ty, mc::str("part ", p, " -- ", ctx));
        int s = cl.get_size();
        if (root.is_permutation_local()) {
            std::vector<X> u(user.begin() + o, user.begin() + o + s), w(clus.begin() + o, clus.begin() + o + s);
            for (int way = 0; way < 3; way++) {
                std::vector<X> a(s, X((P)MARK)), b(s, X((P)MARK)), in = u;
                c.stage("local numbering");
                if (way == 0) htool::local_to_local_cluster(root, p, in.data(), a.data()); else if (way == 1) htool::user_to_cluster(cl, in.data(), a.data()); else part.local_to_local_partition_numbering(p, in.data(), a.data());
                c.step();
                same(a, w, "local-to-cluster"); same(in, u, "input");
                if (way == 0) htool::local_cluster_to_local(root, p, a.data(), b.data()); else if (way == 1) htool::cluster_to_user(cl, a.data(), b.data()); else part.local_partition_to_local_numbering(p, a.data(), b.data());
                c.step();
                same(b, u, "local-round-trip");
                std::vector<X> d(s, X((P)MARK)), e(s, X((P)MARK)), f(s, X((P)MARK)); // through a node of the tree rather than its root
                if (way == 0) { htool::local_cluster_to_local(cl, p, u.data(), d.data()); htool::local_to_local_cluster(cl, p, d.data(), e.data()); same(e, u, "local-round-trip-cluster"); }
            }
        }
        o += s;
    }
    c.check(o == n, "partition-tiling/" + ty, mc::str("the parts cover ", o, " of ", n, " -- ", ctx));
}
struct Table : htool::VirtualGenerator<P> {
    int n; mutable bool bad = false; Table(int k) : n(k) {}
    P at(int i, int j) const { return (P)(i * 1000 + j); }
    void copy_submatrix(int m, int q, const int *r, const int *cc, P *p) const override { for (int j = 0; j < q; j++) for (int i = 0; i < m; i++) { if (r[i] < 0 || r[i] >= n || cc[j] < 0 || cc[j] >= n) bad = true; p[i + (size_t)j * m] = at(r[i], cc[j]); } }
};
void helpers(mc::Run &c, const Case &k) {
    Built b = build(k);
    if (b.errors || !enough_points_for_partition(*b.root, k.parts)) c.skip();
    const Cluster<P> &r = *b.root; std::string ctx = show(k);
    const std::vector<int> perm = r.get_permutation();
    c.check((int)perm.size() == k.n, "permutation-size/" + TN, ctx);
    c.check(r.is_permutation_local() == (k.imposed != 0), "local-flag/" + TN, ctx);
    quiet();
    vectors<P>(c, r, perm, ctx, TN); vectors<CP>(c, r, perm, ctx, "c" + TN);
    // generators see the coefficients of the same points
    Table g(k.n); htool::InternalGeneratorWithPermutation<P> in(g, perm.data(), perm.data());
    std::vector<const Cluster<P> *> v; nodes(r, v);
    for (auto *t : v) for (auto *s : {v.front(), v.back(), t}) {
        if (v.size() > 40 && s == v.front() && t->get_depth() > 2) continue;
        std::vector<P> A((size_t)t->get_size() * s->get_size());
        c.stage("permuted generator");
        in.copy_submatrix(t->get_size(), s->get_size(), t->get_offset(), s->get_offset(), A.data());
        c.step();
        bool ok = !g.bad;
        for (int i = 0; ok && i < t->get_size(); i++) for (int j = 0; j < s->get_size(); j++) if (A[i + (size_t)j * t->get_size()] != g.at(perm[t->get_offset() + i], perm[s->get_offset() + j])) ok = false;
        c.check(ok, "generator/" + TN, ctx);
    }
    c.check(logged().errors == 0, "error/" + TN, [&] { return logged().last + " -- " + ctx; });
    c.outcome(mc::hash_bytes(perm.data(), perm.size() * sizeof(int)));
}
void lattice(mc::Run &c) { Case k; pick_lattice(c, k); if (!c.mine()) return; helpers(c, k); }
void named(mc::Run &c) { Case k; pick_named(c, k); if (!c.mine()) return; helpers(c, k); }
void big(mc::Run &c) { Case k; pick_big(c, k); if (!c.mine()) return; helpers(c, k); }
// the interfaces which exist in both numberings
template <class T, class Op> void local_operator(mc::Run &c, const std::string &what, const Op &make, const std::vector<T> &A, const Cluster<P> &t, const Cluster<P> &s, int global_size, const std::function<std::string()> &ctx);
template <class T> void interfaces(mc::Run &c) {
    const std::string TY = Ty<T>::name();
    bool th = c.thorough;
    HCfg g; g.gt = c.of(th ? std::vector<int>{LINE, GRID, TWO, CIRCLE, RANDOM, NEG} : std::vector<int>{LINE, TWO, RANDOM, NEG}, "geometry"); g.nt = c.of(th ? std::vector<int>{3, 8, 13, 22, 37, 50, 110} : std::vector<int>{5, 8, 17, 26, 80}, "n");
    bool large = g.nt > 60; if (large && g.gt != TWO && g.gt != RANDOM) c.skip();
    g.ct.nchild = c.of(std::vector<int>{2, 3}, "children"); g.ct.minsize = large ? c.of(std::vector<int>{4, 10}, "minclustersize") : c.of(std::vector<int>{1, 3}, "minclustersize");
    struct PP { int p, i; }; PP pp = c.of(large ? std::vector<PP>{{1, 0}, {4, 0}, {5, 2}} : std::vector<PP>{{1, 0}, {2, 0}, {2, 2}, {3, 2}}, "partition"); g.ct.part = pp.p; g.ct.imposed = pp.i;
    struct SO { char s, u; int k; };
    std::vector<SO> so{{'N', 'N', K_DOMINANT}, {'S', 'L', Ty<T>::cplx ? K_SYM : K_SPD}, {'S', 'U', Ty<T>::cplx ? K_SYM : K_SPD}};
    if (Ty<T>::cplx) { so.push_back({'H', 'L', K_DOMINANT_HERM}); so.push_back({'H', 'U', K_DOMINANT_HERM}); }
    SO s = c.of(so, "symmetry"); g.sym = s.s; g.uplo = s.u; g.kernel = s.k;
    if (!c.mine()) return;
    if (g.ct.part > g.nt) c.skip();
    Geo geo = geometry(g.gt, g.nt, 2); auto ct = make_cluster<P>(geo, g.ct);
    if (!enough_points_for_partition(*ct, pp.p)) c.skip();
    int view = c.pick(pp.i ? 1 + pp.p : 1, "view");
    const Cluster<P> &cl = view ? ct->get_cluster_on_partition(view - 1) : *ct;
    Gen<T> gen(geo, geo, g.kernel);
    quiet();
    HMatrixTreeBuilder<T, P> b(cl, cl, (P)1e-3, (P)10, g.sym, g.uplo, -1, -1, -1);
    HMatrix<T, P> h = b.build(gen);
    int n = cl.get_size(), off = cl.get_offset(); const auto &perm = ct->get_permutation();
    auto P_ = [&](int i) { return perm[off + i] - off; };
    auto ctx = [&] { return show(g) + mc::str(" view ", view); };
    std::vector<T> A((size_t)n * n, T((Re<T>)MARK)), B((size_t)n * n, T((Re<T>)MARK)), d(n), e(n);
    c.stage("copy_to_dense"); htool::copy_to_dense(h, A.data()); htool::copy_to_dense_in_user_numbering(h, B.data()); c.step(2);
    bool ok = true;
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { T a = A[i + (size_t)j * n], x = B[P_(i) + (size_t)P_(j) * n]; if (a != T((Re<T>)MARK) ? !near(a, x) : g.sym == 'N') ok = false; }
    c.check(ok, "dense/" + TY, ctx);
    c.stage("copy_diagonal"); htool::copy_diagonal(h, d.data()); htool::copy_diagonal_in_user_numbering(h, e.data()); c.step(2);
    ok = true; for (int i = 0; i < n; i++) if (!near(d[i], e[P_(i)]) || !near(d[i], A[i + (size_t)i * n])) ok = false;
    c.check(ok, "diagonal/" + TY, ctx);
    { // the full matrix in cluster numbering
        std::vector<T> F((size_t)n * n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) F[i + (size_t)j * n] = B[P_(i) + (size_t)P_(j) * n];
        Matrix<T> D(n, n); std::copy(F.begin(), F.end(), D.data());
        local_operator<T>(c, "dense/" + TY, [&](bool ut, bool us) { return htool::LocalDenseMatrix<T, P>(D, cl, cl, g.sym, g.uplo, ut, us); }, F, cl, cl, g.nt, ctx);
        local_operator<T>(c, "hierarchical/" + TY, [&](bool ut, bool us) { return htool::LocalHMatrix<T, P>(h, cl, cl, g.sym, g.uplo, ut, us); }, F, cl, cl, g.nt, ctx);
    }
    bool lu = g.sym == 'N', chol = g.sym == 'H' || (g.sym == 'S' && !Ty<T>::cplx);
    if (!lu && !chol) { c.outcome(1); return; }
    c.stage("factorization");
    if (lu) htool::lu_factorization(h); else htool::cholesky_factorization(g.uplo, h);
    for (int mu = 1; mu <= 3; mu += 2) for (char tr : std::string(lu ? (Ty<T>::cplx ? "NTC" : "NT") : "N")) {
        Matrix<T> X(n, mu), Y(n, mu);
        for (int i = 0; i < n; i++) for (int j = 0; j < mu; j++) { X(P_(i), j) = val<T>(77, i, j); Y(i, j) = val<T>(77, i, j); }
        c.stage("solve");
        if (lu) { htool::lu_solve(tr, h, X); htool::internal_lu_solve(tr, h, Y); } else { htool::cholesky_solve(g.uplo, h, X); htool::internal_cholesky_solve(g.uplo, h, Y); }
        c.step(2);
        ok = true; for (int i = 0; i < n; i++) for (int j = 0; j < mu; j++) if (!near(X(P_(i), j), Y(i, j))) ok = false;
        c.check(ok, std::string(lu ? "lu" : "cholesky") + "/" + TY, [&] { return ctx() + mc::str(" trans ", tr, " columns ", mu); });
    }
    c.check(logged().errors == 0, "error/" + TY, logged().last);
    c.outcome(n);
}
// local operators take and give vectors in either numbering on either side
template <class T, class Op> void local_operator(mc::Run &c, const std::string &what, const Op &make, const std::vector<T> &A, const Cluster<P> &t, const Cluster<P> &s, int global_size, const std::function<std::string()> &ctx) {
    int m = t.get_size(), n = s.get_size(), ro = t.get_offset(), co = s.get_offset(); const auto &pr = t.get_permutation(), &pc = s.get_permutation();
    double norm = 0; for (auto v : A) norm += std::norm(Z(v));
    for (int flags = 0; flags < 4; flags++) for (int mu : {0, 1, 3}) for (int tr = 0; tr < 2; tr++) { // mu = 0: the interface for one vector
        bool ut = flags & 1, us = flags & 2; int w = std::max(mu, 1), ni = tr ? m : global_size, no = tr ? global_size : m;
        auto R_ = [&](int i) { return ut ? pr[ro + i] - ro : i; }; auto C_ = [&](int j) { return us ? pc[co + j] - co : j; };
        T al = val<T>(3, mu, 1), be = val<T>(3, mu, 2); std::vector<T> x((size_t)ni * w), y((size_t)no * w), z;
        for (size_t i = 0; i < x.size(); i++) x[i] = val<T>(60, (int)i, 1);
        for (size_t i = 0; i < y.size(); i++) y[i] = val<T>(61, (int)i, 2);
        z = y;
        for (int k = 0; k < w; k++) {
            if (tr) for (int j = 0; j < n; j++) { Z v = Z(be) * Z(y[(size_t)(co + C_(j)) * w + k]); for (int i = 0; i < m; i++) v += Z(al) * Z(A[i + (size_t)j * m]) * Z(x[(size_t)R_(i) * w + k]); z[(size_t)(co + C_(j)) * w + k] = Ty<T>::mk(v); }
            else for (int i = 0; i < m; i++) { Z v = Z(be) * Z(y[(size_t)R_(i) * w + k]); for (int j = 0; j < n; j++) v += Z(al) * Z(A[i + (size_t)j * m]) * Z(x[(size_t)(co + C_(j)) * w + k]); z[(size_t)R_(i) * w + k] = Ty<T>::mk(v); }
        }
        auto op = make(ut, us); c.stage("local operator");
        if (tr) mu ? op.add_matrix_product_transp_local_to_global(al, x.data(), be, y.data(), mu) : op.add_vector_product_transp_local_to_global(al, x.data(), be, y.data());
        else mu ? op.add_matrix_product_global_to_local(al, x.data(), be, y.data(), mu) : op.add_vector_product_global_to_local(al, x.data(), be, y.data());
        c.step(); double e = 0; for (size_t i = 0; i < y.size(); i++) { double d = std::abs(Z(y[i]) - Z(z[i])); e = d <= e ? e : d; }
        c.check(e <= 200 * (double)std::numeric_limits<Re<T>>::epsilon() * (std::sqrt(norm) + 1) * (m + n), "local-operator/" + what, [&] { return ctx() + mc::str(ut ? " user" : " cluster", " target numbering", us ? " user" : " cluster", " source numbering, ", mu, tr ? " columns, transposed" : " columns", " error ", e); });
    }
}
// matrices between two different trees: each side has its own permutation, and compressed blocks can lie on the diagonal
template <class T> void rectangular(mc::Run &c) {
    const std::string TY = Ty<T>::name(); bool th = c.thorough;
    int ntarget = c.of(th ? std::vector<int>{1, 4, 9, 16, 27} : std::vector<int>{4, 13}, "targets"), nsource = c.of(th ? std::vector<int>{1, 4, 9, 16, 27} : std::vector<int>{4, 9, 13}, "sources"), shift = c.pick(3, "distance of the sources");
    ClusterOpt ot, os; ot.nchild = c.of(std::vector<int>{2, 3}, "children"); os.nchild = 5 - ot.nchild; ot.minsize = c.of(std::vector<int>{1, 2}, "minclustersize"); os.minsize = 3 - ot.minsize;
    struct PP { int p, i, q, j; }; PP pp = c.of(std::vector<PP>{{1, 0, 1, 0}, {2, 2, 2, 2}, {2, 2, 1, 0}, {3, 3, 2, 2}, {1, 1, 3, 2}, {2, 2, 2, 3}}, "partitions"); ot.part = pp.p; ot.imposed = pp.i; os.part = pp.q; os.imposed = pp.j;
    int comp = c.pick(3, "compression: none, ACA, SVD"), gt = c.of(std::vector<int>{TWO, RANDOM, LINE}, "geometry");
    if (!c.mine()) return;
    if (pp.p > ntarget || pp.q > nsource) c.skip();
    Geo a = geometry(gt, ntarget, 2), b = geometry(RANDOM, nsource, 2); for (int i = 0; i < nsource; i++) b.x[2 * i] += 15 * shift;
    auto ct = make_cluster<P>(a, ot), cs = make_cluster<P>(b, os);
    if (!enough_points_for_partition(*ct, pp.p) || !enough_points_for_partition(*cs, pp.q)) c.skip();
    int vt = c.pick(pp.i ? 1 + pp.p : 1, "target view"), vs = c.pick(pp.j ? 1 + pp.q : 1, "source view");
    const Cluster<P> &t = vt ? ct->get_cluster_on_partition(vt - 1) : *ct, &s = vs ? cs->get_cluster_on_partition(vs - 1) : *cs;
    Gen<T> gen(a, b, K_DOMINANT); quiet();
    HMatrixTreeBuilder<T, P> hb(t, s, (P)1e-3, comp ? (P)10 : (P)0, 'N', 'N', -1, -1, -1); if (comp == 2) hb.set_low_rank_generator(std::make_shared<htool::SVD<T, P>>());
    HMatrix<T, P> h = hb.build(gen);
    int m = t.get_size(), n = s.get_size(), ro = t.get_offset(), co = s.get_offset(); const auto &pr = ct->get_permutation(); const auto &pc = cs->get_permutation();
    auto R_ = [&](int i) { return pr[ro + i] - ro; }; auto C_ = [&](int j) { return pc[co + j] - co; };
    auto ctx = [&] { return mc::str(ntarget, "x", nsource, " points, sources at ", 15 * shift, " children ", ot.nchild, "/", os.nchild, " minclustersize ", ot.minsize, "/", os.minsize, " partitions ", pp.p, pp.i, "/", pp.q, pp.j, " views ", vt, "/", vs, " compression ", comp, " ", geo_name[gt]); };
    std::vector<T> A((size_t)m * n, T((Re<T>)MARK)), B((size_t)m * n, T((Re<T>)MARK));
    c.stage("copy_to_dense"); htool::copy_to_dense(h, A.data()); htool::copy_to_dense_in_user_numbering(h, B.data()); c.step(2);
    bool ok = true; for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) if (!near(A[i + (size_t)j * m], B[R_(i) + (size_t)C_(j) * m])) ok = false;
    c.check(ok, "dense/" + TY, ctx);
    if (m == n && ro == co && !vt == !vs) { // one root and one part are refused
        std::vector<T> d(n, T((Re<T>)MARK)), e(n, T((Re<T>)MARK));
        c.stage("copy_diagonal"); htool::copy_diagonal(h, d.data()); htool::copy_diagonal_in_user_numbering(h, e.data()); c.step(2);
        ok = true; for (int i = 0; i < n; i++) if (!near(d[i], e[R_(i)]) || !near(d[i], A[i + (size_t)i * n])) ok = false;
        c.check(ok, "diagonal/" + TY, ctx);
    }
    // the product, through its interfaces in both numberings
    for (char tr : std::string(Ty<T>::cplx ? "NTC" : "NT")) {
        int ni = tr == 'N' ? n : m, no = tr == 'N' ? m : n; std::vector<T> x(ni), y(no), z(no, T(0));
        for (int i = 0; i < ni; i++) x[i] = val<T>(55, i, 0);
        for (int i = 0; i < no; i++) y[i] = T(0);
        c.stage("product"); htool::internal_add_hmatrix_vector_product(tr, T(1), h, x.data(), T(0), y.data()); c.step();
        double scale = 0; for (auto v : A) scale += std::norm(Z(v));
        for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { int gi = R_(i), gj = C_(j); Z v = Z(B[gi + (size_t)gj * m]); if (tr == 'N') z[i] += Ty<T>::mk(v * Z(x[j])); else z[j] += Ty<T>::mk((tr == 'C' ? std::conj(v) : v) * Z(x[i])); }
        double e = 0; for (int i = 0; i < no; i++) e = std::max(e, std::abs(Z(y[i]) - Z(z[i])));
        c.check(e <= 200 * (double)std::numeric_limits<Re<T>>::epsilon() * (std::sqrt(scale) + 1) * (m + n), "product/" + TY, ctx);
    }
    Matrix<T> D(m, n); std::copy(A.begin(), A.end(), D.data());
    local_operator<T>(c, "dense/" + TY, [&](bool ut, bool us) { return htool::LocalDenseMatrix<T, P>(D, t, s, 'N', 'N', ut, us); }, A, t, s, nsource, ctx);
    local_operator<T>(c, "hierarchical/" + TY, [&](bool ut, bool us) { return htool::LocalHMatrix<T, P>(h, t, s, 'N', 'N', ut, us); }, A, t, s, nsource, ctx);
    c.check(logged().errors == 0, "error/" + TY, logged().last); c.outcome(mc::hash_bytes(A.data(), A.size() * sizeof(T)));
}
// a row block of a (symmetric) matrix: one part of the rows against all the columns, as the distributed operators store it
template <class T> void row_block(mc::Run &c) {
    const std::string TY = Ty<T>::name(); bool th = c.thorough;
    HCfg g; g.gt = c.of(th ? std::vector<int>{LINE, GRID, TWO, CIRCLE, RANDOM, NEG} : std::vector<int>{LINE, TWO, RANDOM}, "geometry"); g.nt = c.of(th ? std::vector<int>{6, 11, 16, 26, 40, 90} : std::vector<int>{6, 16, 40}, "n");
    g.ct.nchild = c.of(std::vector<int>{2, 3}, "children"); g.ct.minsize = c.of(std::vector<int>{1, 3}, "minclustersize");
    struct PP { int p, i; }; PP pp = c.of(std::vector<PP>{{2, 1}, {2, 2}, {3, 2}, {3, 3}}, "partition"); g.ct.part = pp.p; g.ct.imposed = pp.i;
    struct SO { char s, u; int k; }; std::vector<SO> so{{'N', 'N', K_DOMINANT}, {'S', 'L', Ty<T>::cplx ? K_SYM : K_SPD}, {'S', 'U', Ty<T>::cplx ? K_SYM : K_SPD}};
    if (Ty<T>::cplx) { so.push_back({'H', 'L', K_DOMINANT_HERM}); so.push_back({'H', 'U', K_DOMINANT_HERM}); }
    SO s = c.of(so, "symmetry"); g.sym = s.s; g.uplo = s.u; g.kernel = s.k; double eps = c.of(std::vector<double>{1e-2, 1e-4}, "epsilon");
    if (!c.mine()) return;
    Geo geo = geometry(g.gt, g.nt, 2); auto ct = make_cluster<P>(geo, g.ct);
    if (!enough_points_for_partition(*ct, pp.p)) c.skip();
    int p = c.pick(pp.p, "part"); const Cluster<P> &cl = ct->get_cluster_on_partition(p);
    Gen<T> gen(geo, geo, g.kernel); quiet();
    HMatrixTreeBuilder<T, P> b(*ct, *ct, (P)eps, (P)10, g.sym, g.uplo, -1, p, p); HMatrix<T, P> h = b.build(gen);
    int m = cl.get_size(), off = cl.get_offset(), n = g.nt; const auto &perm = ct->get_permutation();
    auto ctx = [&] { return show(g) + mc::str(" row block ", p, " epsilon ", eps); };
    c.check(h.get_target_cluster().get_offset() == off && h.get_target_cluster().get_size() == m && h.get_source_cluster().get_size() == n, "row-block-shape/" + TY, ctx);
    std::vector<T> A((size_t)m * n, T((Re<T>)MARK)), B((size_t)m * n, T((Re<T>)MARK));
    c.stage("copy_to_dense of a row block"); htool::copy_to_dense(h, A.data()); htool::copy_to_dense_in_user_numbering(h, B.data()); c.step(2);
    bool ok = true; double e2 = 0, n2 = 0;
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) {
        T a = A[i + (size_t)j * m], x = B[(perm[off + i] - off) + (size_t)perm[j] * m]; 
        // only the stored triangle is written in cluster numbering inside the symmetric block
        if (a != T((Re<T>)MARK) ? !near(a, x) : (g.sym == 'N' || j < off || j >= off + m)) ok = false;
        Z w = Z(gen.k(perm[off + i], perm[j])); e2 += std::norm(Z(x) - w); n2 += std::norm(w);
    }
    c.check(ok, "row-block/" + TY, ctx);
    c.check(e2 <= 4 * eps * eps * n2, "row-block-accuracy/" + TY, [&] { return ctx() + mc::str(" relative error ", std::sqrt(e2 / n2)); });
    c.check(logged().errors == 0, "error/" + TY, logged().last); c.outcome(mc::hash_bytes(B.data(), B.size() * sizeof(T)));
}
const std::string S8 = "row-block<" + TN + ">", S9 = "row-block<c" + TN + ">";
mc::Registrar r8(S8.c_str(), row_block<P>), r9(S9.c_str(), row_block<CP>);
const std::string S1 = "lattice<" + TN + ">", S2 = "named<" + TN + ">", S3 = "interfaces<" + TN + ">", S4 = "interfaces<c" + TN + ">", S5 = "rectangular<" + TN + ">", S6 = "rectangular<c" + TN + ">", S7 = "big<" + TN + ">";
mc::Registrar r1(S1.c_str(), lattice), r2(S2.c_str(), named), r3(S3.c_str(), interfaces<P>), r4(S4.c_str(), interfaces<CP>), r5(S5.c_str(), rectangular<P>), r6(S6.c_str(), rectangular<CP>), r7(S7.c_str(), big);
} // namespace

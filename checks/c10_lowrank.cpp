// C10: low-rank algebra and recompression against the dense computation on the factors' product.
#include "hx.hpp"
#include "omp_shim.hpp"
#include <htool/hmatrix/lrmat/linalg/add_lrmat_lrmat.hpp>
#include <htool/hmatrix/lrmat/linalg/interface.hpp>
#include <htool/hmatrix/lrmat/utils/recompression.hpp>
using namespace hx;
#ifndef TS
#define TS double
#endif
namespace {
typedef TS T;
typedef Re<T> P;
typedef LowRankMatrix<T> LR;
const double EPS = Ty<T>::eps;
const std::string TN = Ty<T>::name();

Matrix<T> mat(int m, int n, uint64_t seed) { Matrix<T> A(m, n); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) A(i, j) = val<T>(seed, i, j); return A; }
LR lrm(int m, int k, int n, uint64_t seed, double eps) {
    LR L((P)eps);
    L.get_U().resize(m, k); L.get_V().resize(k, n);
    for (int l = 0; l < k; l++) { double w = std::pow(0.11, l); // a decaying spectrum, so that truncation happens
        for (int i = 0; i < m; i++) L.get_U()(i, l) = val<T>(seed, i, l);
        for (int i = 0; i < n; i++) L.get_V()(l, i) = T(w) * val<T>(seed + 50, l, i); }
    return L;
}
M dense(const LR &L) { return mul(fromMat(L.get_U()), fromMat(L.get_V())); }
bool shape_ok(const LR &L, int m, int n) { return L.get_U().nb_rows() == m && L.get_V().nb_cols() == n && L.get_U().nb_cols() == L.get_V().nb_rows(); }
double mag(const M &a, const M &b, Z alpha, Z beta, const M &C) { return std::abs(alpha) * maxabs(a) * maxabs(b) * 2 * std::max(1, a.n) + std::abs(beta) * maxabs(C) * 2 + 1e-30; }
std::vector<int> ranks(mc::Run &c) { return c.thorough ? std::vector<int>{1, 2, 0, 3, 5, 9} : std::vector<int>{1, 2, 0, 7}; }
std::vector<int> dims(mc::Run &c) { return c.thorough ? std::vector<int>{1, 2, 4, 6, 9, 40} : std::vector<int>{1, 3, 6, 34}; }
// large dimensions and ranks are combined with each other only
bool combined(std::vector<int> d, std::vector<int> r) {
    bool big = false; for (int x : d) if (x > 20) big = true;
    if (!big) { for (int x : r) if (x > 6) return false; return true; }
    for (int x : d) if (x < 6) return false;
    for (int x : r) if (x == 0 || x == 1 || x == 3) return false;
    return true;
}
// a low-rank matrix whose operands' dimensions allow the rank
void vectors(mc::Run &c) {
    int m = c.of(dims(c), "rows"), n = c.of(dims(c), "cols"), k = c.of(ranks(c), "rank"), mu = c.of(std::vector<int>{1, 2, 4}, "mu");
    char t = c.ch("NTC", "trans"); int variant = c.pick(mu == 1 ? 2 : 1, "variant");
    if (!c.mine()) return;
    T alpha = c.of(scalars<T>(c.thorough), "alpha"), beta = c.of(scalars<T>(c.thorough), "beta");
    LR A = lrm(m, k, n, 1, 1e-3); M a = dense(A), oa = op(t, a);
    M x0(oa.n, mu), y0(oa.m, mu);
    std::vector<T> x((size_t)oa.n * mu), y((size_t)oa.m * mu + 1, T(5));
    for (int i = 0; i < oa.n; i++) for (int j = 0; j < mu; j++) { x[(size_t)i * mu + j] = val<T>(2, i, j); x0(i, j) = x[(size_t)i * mu + j]; }
    for (int i = 0; i < oa.m; i++) for (int j = 0; j < mu; j++) { y[(size_t)i * mu + j] = val<T>(3, i, j); y0(i, j) = y[(size_t)i * mu + j]; }
    auto xc = x;
    c.stage(variant ? "add_lrmat_vector_product" : "add_lrmat_matrix_product_row_major");
    if (variant) htool::add_lrmat_vector_product(t, alpha, A, x.data(), beta, y.data());
    else htool::add_lrmat_matrix_product_row_major(t, 'N', alpha, A, x.data(), beta, y.data(), mu);
    c.step();
    std::string sig = mc::str(variant ? "vector" : "row-major", k ? "" : "-rank0", "/", TN);
    M want = axpby(alpha, mul(oa, x0), beta, y0);
    equal_to(c, from_rm(y.data(), oa.m, mu), want, 60 * EPS * mag(oa, x0, alpha, beta, y0), sig, mc::str(t, " alpha ", alpha, " beta ", beta));
    c.check(y.back() == T(5), "bounds/" + sig); c.check(x == xc, "input/" + sig);
    equal_to(c, dense(A), a, 0, "input-matrix/" + sig);
    c.outcome(hash(want));
}
// products with a dense result: low-rank*dense, dense*low-rank, low-rank*low-rank
void to_dense(mc::Run &c) {
    auto D = dims(c);
    int kind = c.pick(3, "kind"), m = c.of(D, "M"), n = c.of(D, "N"), kk = c.of(D, "K");
    int ra = kind != 1 ? c.of(ranks(c), "rank A") : -1, rb = kind != 0 ? c.of(ranks(c), "rank B") : -1;
    if (!combined({m, n, kk}, {ra, rb})) c.skip();
    char ta = c.ch("NTC", "transa"), tb = c.ch("NTC", "transb");
    if (!c.mine()) return;
    T alpha = c.of(scalars<T>(c.thorough), "alpha"), beta = c.of(scalars<T>(c.thorough), "beta");
    int ma = ta == 'N' ? m : kk, na = ta == 'N' ? kk : m, mb = tb == 'N' ? kk : n, nb = tb == 'N' ? n : kk;
    LR LA = lrm(ma, std::max(ra, 0), na, 11, 1e-3), LB = lrm(mb, std::max(rb, 0), nb, 12, 1e-3);
    Matrix<T> DA = mat(ma, na, 13), DB = mat(mb, nb, 14), C = mat(m, n, 15);
    M a = ra >= 0 ? dense(LA) : fromMat(DA), b = rb >= 0 ? dense(LB) : fromMat(DB), c0 = fromMat(C);
    std::string sig = mc::str(kind == 0 ? "lr*dense" : kind == 1 ? "dense*lr" : "lr*lr", "=dense", ra == 0 || rb == 0 ? "-rank0" : "", "/", TN);
    c.stage(sig.c_str());
    if (kind == 0) htool::add_lrmat_matrix_product(ta, tb, alpha, LA, DB, beta, C);
    else if (kind == 1) htool::add_matrix_lrmat_product(ta, tb, alpha, DA, LB, beta, C);
    else htool::add_lrmat_lrmat_product(ta, tb, alpha, LA, LB, beta, C);
    c.step();
    M want = axpby(alpha, mul(op(ta, a), op(tb, b)), beta, c0);
    equal_to(c, fromMat(C), want, 100 * EPS * mag(op(ta, a), b, alpha, beta, c0), sig, mc::str(ta, tb, " alpha ", alpha, " beta ", beta));
    if (ra >= 0) equal_to(c, dense(LA), a, 0, "input/" + sig); else equal_to(c, fromMat(DA), a, 0, "input/" + sig);
    if (rb >= 0) equal_to(c, dense(LB), b, 0, "input/" + sig); else equal_to(c, fromMat(DB), b, 0, "input/" + sig);
    c.outcome(hash(want));
}
double tol_lr(double eps, const M &want, const M &ab, double scale) { return eps * (fro(want) + 2 * fro(ab)) * 1.01 + 400 * EPS * scale * (want.m + want.n); }
// products with a low-rank result
void to_lowrank(mc::Run &c) {
    auto D = dims(c);
    int kind = c.pick(4, "kind"), m = c.of(D, "M"), n = c.of(D, "N"), kk = c.of(D, "K");
    int ra = kind == 0 || kind == 2 ? c.of(ranks(c), "rank A") : -1, rb = kind == 1 || kind == 2 ? c.of(ranks(c), "rank B") : -1, rc = c.of(ranks(c), "rank C");
    if (!combined({m, n, kk}, {ra, rb, rc})) c.skip();
    char ta = c.ch("NTC", "transa"), tb = c.ch("NTC", "transb");
    if (!c.mine()) return;
    double eps = c.of(std::vector<double>{0.05, 1e-5}, "epsilon");
    T alpha = c.of(scalars<T>(c.thorough), "alpha"), beta = c.of(scalars<T>(c.thorough), "beta");
    int ma = ta == 'N' ? m : kk, na = ta == 'N' ? kk : m, mb = tb == 'N' ? kk : n, nb = tb == 'N' ? n : kk;
    LR LA = lrm(ma, std::max(ra, 0), na, 21, eps), LB = lrm(mb, std::max(rb, 0), nb, 22, eps), C = lrm(m, rc, n, 25, eps);
    Matrix<T> DA = mat(ma, na, 23), DB = mat(mb, nb, 24);
    M a = ra >= 0 ? dense(LA) : fromMat(DA), b = rb >= 0 ? dense(LB) : fromMat(DB), c0 = dense(C);
    static const char *const nm[] = {"lr*dense", "dense*lr", "lr*lr", "dense*dense"};
    std::string sig = mc::str(nm[kind], "=lr", ra == 0 || rb == 0 ? "-rank0" : "", "/", TN);
    c.stage(sig.c_str());
    if (kind == 0) htool::add_lrmat_matrix_product(ta, tb, alpha, LA, DB, beta, C);
    else if (kind == 1) htool::add_matrix_lrmat_product(ta, tb, alpha, DA, LB, beta, C);
    else if (kind == 2) htool::add_lrmat_lrmat_product(ta, tb, alpha, LA, LB, beta, C);
    else htool::add_matrix_matrix_product(ta, tb, alpha, DA, DB, beta, C);
    c.step();
    M ab = scal(alpha, mul(op(ta, a), op(tb, b)));
    M want = axpby(1, ab, beta, c0);
    std::string ctx = mc::str(ta, tb, " alpha ", alpha, " beta ", beta, " eps ", eps, " dims ", m, ",", n, ",", kk, " ranks ", ra, ",", rb, ",", rc);
    if (c.check(shape_ok(C, m, n), "shape/" + sig, ctx)) {
        double d = fro(sub(dense(C), want));
        double t = tol_lr(eps, want, ab, mag(op(ta, a), b, alpha, beta, c0));
        c.check(d <= t, sig, [&] { return mc::str(ctx, " error ", d, " > ", t, "\n      got ", show(dense(C)), "\n      want ", show(want)); });
        c.check(C.get_epsilon() == (P)eps, "epsilon/" + sig);
        int bound = (ra < 0 ? (rb < 0 ? std::min(m, n) : rb) : rb < 0 ? ra : std::min(rb, rb)) + rc;
        if (kind != 3) c.check(C.rank_of() <= std::max(bound, rc), "rank-grows/" + sig, [&] { return mc::str(ctx, " rank ", C.rank_of()); });
    }
    if (ra >= 0) equal_to(c, dense(LA), a, 0, "input/" + sig); else equal_to(c, fromMat(DA), a, 0, "input/" + sig);
    if (rb >= 0) equal_to(c, dense(LB), b, 0, "input/" + sig); else equal_to(c, fromMat(DB), b, 0, "input/" + sig);
    c.outcome(hash(want));
}
// sums of blocks over nested clusters, extending or restricting
void collect_clusters(const Cluster<P> &c, std::vector<const Cluster<P> *> &v) { v.push_back(&c); for (auto &x : c.get_children()) collect_clusters(*x, v); }
void sums(mc::Run &c) {
    int n = c.of(std::vector<int>{7, 12}, "n");
    static std::unique_ptr<Cluster<P>> cl[2]; std::unique_ptr<Cluster<P>> &root = cl[n == 12];
    if (!root) { ClusterOpt o; o.minsize = 1; o.nchild = n == 12 ? 2 : 3; root = make_cluster<P>(geometry(LINE, n, 2), o); }
    std::vector<const Cluster<P> *> v; collect_clusters(*root, v);
    std::vector<const Cluster<P> *> s; for (auto *p : v) if (p->get_depth() <= (c.thorough ? 3 : 2)) s.push_back(p);
    const Cluster<P> *xt = s[c.pick((int)s.size(), "X target")], *xs = s[c.pick((int)s.size(), "X source")], *yt = s[c.pick((int)s.size(), "Y target")], *ys = s[c.pick((int)s.size(), "Y source")];
    auto in = [](const Cluster<P> *big, const Cluster<P> *small) { return big->get_offset() <= small->get_offset() && small->get_offset() + small->get_size() <= big->get_offset() + big->get_size(); };
    bool ext = in(yt, xt) && in(ys, xs), res = in(xt, yt) && in(xs, ys);
    if (!ext && !res) return; // the library refuses other combinations
    if (!c.mine()) return;
    int rx = c.of(ranks(c), "rank X"), ry = c.of(ranks(c), "rank Y");
    double eps = c.of(std::vector<double>{0.05, 1e-5}, "epsilon");
    LR X = lrm(xt->get_size(), rx, xs->get_size(), 31, eps), Y = lrm(yt->get_size(), ry, ys->get_size(), 32, eps);
    M x = dense(X), want = dense(Y);
    for (int i = 0; i < x.m; i++) for (int j = 0; j < x.n; j++) { // global indices
        int gi = xt->get_offset() + i - yt->get_offset(), gj = xs->get_offset() + j - ys->get_offset();
        if (gi >= 0 && gj >= 0 && gi < want.m && gj < want.n) want(gi, gj) += x(i, j);
    }
    std::string sig = mc::str("lr+lr-", ext ? "extend" : "restrict", rx == 0 ? "-rank0" : "", "/", TN);
    quiet();
    c.stage(sig.c_str());
    htool::add_lrmat_lrmat(X, *xt, *xs, Y, *yt, *ys);
    c.step();
    if (c.check(shape_ok(Y, want.m, want.n), "shape/" + sig)) {
        double d = fro(sub(dense(Y), want)), t = tol_lr(eps, want, want, maxabs(x) + maxabs(want) + 1);
        c.check(d <= t, sig, [&] { return mc::str("ranks ", rx, ",", ry, " eps ", eps, " error ", d, " > ", t, "\n      got ", show(dense(Y)), "\n      want ", show(want)); });
    }
    c.check(logged().errors == 0, "logged/" + sig, logged().last);
    equal_to(c, dense(X), x, 0, "input/" + sig);
}
// recompression of a matrix with a chosen spectrum, redundant columns and a chosen tolerance
void recompress(mc::Run &c) {
    int m = c.of(c.thorough ? std::vector<int>{1, 2, 4, 7, 12, 40, 90} : std::vector<int>{1, 2, 5, 9, 40}, "rows"), n = c.of(c.thorough ? std::vector<int>{1, 3, 6, 11, 35, 80} : std::vector<int>{1, 3, 8, 33}, "cols");
    int k = c.of(c.thorough ? std::vector<int>{0, 1, 2, 3, 4, 5, 6, 7, 8, 20, 36} : std::vector<int>{0, 1, 2, 3, 4, 5, 14}, "rank"), kind = c.pick(6, "spectrum");
    bool via_copy = c.pick(2, "copying variant");
    if (!c.mine()) return;
    double eps = c.of(std::vector<double>{0.5, 0.05, 1e-3, 1e-5, 0}, "epsilon");
    LR A((P)eps); A.get_U().resize(m, k); A.get_V().resize(k, n);
    for (int l = 0; l < k; l++) {
        double w = kind == 0 ? 1 : kind == 1 ? std::pow(0.2, l) : kind == 2 ? std::pow(0.01, l) : kind == 3 ? (l < 2 ? 1 : 0) : kind == 4 ? 0 : 1e-3 * std::pow(5., l);
        int lu = kind == 5 ? l / 2 : l;  // repeated columns
        for (int i = 0; i < m; i++) A.get_U()(i, l) = val<T>(41, i, lu);
        for (int i = 0; i < n; i++) A.get_V()(l, i) = T(w) * val<T>(42, l, i);
    }
    M a = dense(A);
    std::string sig = mc::str("recompression", k ? "" : "-rank0", "/", TN);
    c.stage(sig.c_str());
    LR B((P)eps);
    if (via_copy) { auto p = htool::recompression(const_cast<const LR &>(A)); B = *p; equal_to(c, dense(A), a, 0, "input/" + sig); c.check(A.rank_of() == k, "input/" + sig); }
    else { htool::recompression(A); B = A; }
    c.step();
    std::string ctx = mc::str(m, "x", n, " rank ", k, " spectrum ", kind, " eps ", eps);
    if (!c.check(shape_ok(B, m, n), "shape/" + sig, ctx)) return;
    c.check(B.rank_of() <= k, "rank-grows/" + sig, [&] { return mc::str(ctx, " -> rank ", B.rank_of()); });
    double na = fro(a), d = fro(sub(dense(B), a)), t = eps * na * 1.001 + 200 * EPS * (m + n) * (na + (kind == 5 ? 3 : 0));
    c.check(d <= t, sig, [&] { return mc::str(ctx, " error ", d, " > ", t, " new rank ", B.rank_of()); });
    // it does recompress: no rank smaller by 1 or more would leave clear room under the tolerance
    if (k > 1 && na > 0 && B.rank_of() > 1 && eps > 1e-4) {
        auto sv = singular_values(a); double tail = 0;
        for (size_t i = B.rank_of() - 1; i < sv.size(); i++) tail += sv[i] * sv[i];
        c.check(std::sqrt(tail) >= 0.98 * eps * na, "not-reduced/" + sig, [&] { return mc::str(ctx, " -> rank ", B.rank_of(), " although the tail is ", std::sqrt(tail) / na); });
    }
    c.state(mc::hash_mix(B.rank_of(), k)); c.outcome(mc::hash_mix(hash(a), B.rank_of()));
}
// members and error measures
void members(mc::Run &c) {
    int m = c.of(dims(c), "rows"), n = c.of(dims(c), "cols"), k = c.of(ranks(c), "rank");
    if (!c.mine()) return;
    T alpha = c.of(scalars<T>(true), "alpha");
    LR A = lrm(m, k, n, 51, 1e-3); M a = dense(A);
    std::string z = k ? "" : "-rank0";
    if (k > 0) {
        std::vector<T> out((size_t)m * n + 1, T(3));
        c.stage("copy_to_dense"); A.copy_to_dense(out.data()); c.step();
        equal_to(c, from(out.data(), m, n), a, 60 * EPS * (maxabs(a) + 1), "copy_to_dense" + z + "/" + TN); c.check(out.back() == T(3), "copy_to_dense-bounds/" + TN);
        c.check(std::abs(A.compression_ratio() - (double)m * n / (k * (double)(m + n))) < 1e-9 * m * n + 1e-9, "compression_ratio/" + TN);
    }
    c.check(std::abs(A.space_saving() - (1 - (double)k * (m + n) / ((double)m * n))) < 1e-6, "space_saving/" + TN);
    c.check(A.nb_rows() == m && A.nb_cols() == n && A.rank_of() == k, "shape/" + TN);
    c.stage("scale"); htool::scale(alpha, A); c.step();
    equal_to(c, dense(A), scal(alpha, a), 30 * EPS * (maxabs(a) * std::abs(alpha) + 1), "scale" + z + "/" + TN);
}
// histories of accumulating operations on one low-rank matrix
void histories(mc::Run &c) {
    int n = 6, m = 5;
    double eps = c.of(std::vector<double>{1e-5, 0.02}, "epsilon");
    int depth = c.thorough ? 5 : 4;
    std::vector<int> ops; for (int i = 0; i < depth; i++) ops.push_back(c.pick(8, "operation"));
    if (!c.mine()) return;
    LR C = lrm(m, 0, n, 60, eps);
    M want(m, n); double budget = 0, scale = 1;
    auto acc = [&](const M &ab, double beta) { want = axpby(1, ab, beta, want); budget = std::abs(beta) * budget + eps * (fro(want) + 2 * fro(ab)); scale = std::max(scale, maxabs(want) + maxabs(ab)); };
    for (int i = 0; i < depth; i++) {
        LR A = lrm(m, 1 + i, 4, 61 + i, eps), B = lrm(4, 2, n, 71 + i, eps), At = lrm(4, 2, m, 81 + i, eps);
        Matrix<T> DA = mat(m, 4, 91 + i), DB = mat(4, n, 101 + i), DBt = mat(n, 4, 111 + i);
        c.stage(mc::str("operation ", ops[i]).c_str());
        switch (ops[i]) {
        case 0: htool::add_lrmat_matrix_product('N', 'N', T(1), A, DB, T(1), C); acc(mul(dense(A), fromMat(DB)), 1); break;
        case 1: htool::add_matrix_lrmat_product('N', 'N', T(-2), DA, B, T(1), C); acc(scal(-2, mul(fromMat(DA), dense(B))), 1); break;
        case 2: htool::add_lrmat_lrmat_product('C', 'N', T(1), At, B, T(-1), C); acc(mul(op('C', dense(At)), dense(B)), -1); break;
        case 3: htool::add_matrix_matrix_product('N', 'T', T(1), DA, DBt, T(1), C); acc(mul(fromMat(DA), op('T', fromMat(DBt))), 1); break;
        case 4: htool::recompression(C); acc(M(m, n), 1); break;
        case 5: htool::scale(T(-0.5), C); want = scal(-0.5, want); budget *= 0.5; break;
        case 6: { LR D(C); htool::scale(T(0), C); c.check(fro(sub(dense(D), want)) <= budget * 1.01 + 1e3 * EPS * scale, "copy/" + TN); C = D; break; }
        case 7: htool::add_lrmat_matrix_product('N', 'C', T(1), A, DBt, T(0), C); want = M(m, n); budget = 0; acc(mul(dense(A), op('C', fromMat(DBt))), 0); break;
        }
        c.step();
        if (!c.check(shape_ok(C, m, n), "history-shape/" + TN)) return;
        double d = fro(sub(dense(C), want)), t = budget * 1.01 + 3e3 * EPS * scale;
        c.check(d <= t, "history/" + TN, [&] { return mc::str("after operation ", i, " (", ops[i], "), error ", d, " > ", t); });
        c.state(mc::hash_mix(hash(want), C.rank_of()));
    }
}
struct Reg { Reg() {
#define R(f) { static std::string n = std::string(#f) + "<" + TN + ">"; new mc::Registrar(n.c_str(), f); }
    R(vectors) R(to_dense) R(to_lowrank) R(sums) R(recompress) R(members) R(histories)
} } reg;
} // namespace

// C09: every dense kernel on every shape, flag, scalar and type within the bounds, against a naive reference.
#include "ref.hpp"
#include <htool/basic_types/vector.hpp>
#include <htool/matrix/linalg/interface.hpp>
#include <htool/matrix/matrix.hpp>
#include <htool/matrix/utils/SVD_truncation.hpp>
using namespace ref;
using htool::Matrix;
#ifndef TS
#define TS double
#endif
typedef TS T;
static const double EPS = Ty<T>::eps;
static const std::string TN = Ty<T>::name();
#define SEC(n) MC_SECTION_DYN(n)

static std::vector<int> dims(mc::Run &c) { return c.thorough ? std::vector<int>{1, 2, 3, 4, 5, 9, 17, 33, 70, 0} : std::vector<int>{1, 2, 3, 5, 9, 35, 0}; }
static std::vector<int> dims1(mc::Run &c) { return c.thorough ? std::vector<int>{1, 2, 3, 4, 5, 6, 9, 17, 40, 66} : std::vector<int>{1, 2, 3, 4, 7, 17, 40}; }
static Matrix<T> mat(int m, int n, uint64_t seed) { Matrix<T> A(m, n); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) A(i, j) = val<T>(seed, i, j); return A; }
// an operand of the caller's own: either the matrix owns its entries or it is a view on a part of a larger buffer,
// whose surroundings must not be touched
namespace { struct Op {
    Matrix<T> X;
    std::vector<T> buf;
    size_t n;
    Op(const Matrix<T> &v, bool view) : n((size_t)v.nb_rows() * v.nb_cols()) {
        if (!view) { X = v; return; }
        buf.resize(n + 6);
        for (size_t i = 0; i < buf.size(); i++) buf[i] = val<T>(99, (int)i, 3);
        std::copy_n(v.data(), n, buf.data() + 3);
        X.assign(v.nb_rows(), v.nb_cols(), buf.data() + 3, false);
        X.get_pivots() = v.get_pivots();
    }
    Op(const Op &) = delete;
    void intact(mc::Run &c, const char *what) const {
        if (buf.empty()) return;
        bool ok = X.data() == buf.data() + 3;
        for (size_t i = 0; i < buf.size(); i++) if (i < 3 || i >= n + 3) ok = ok && buf[i] == val<T>(99, (int)i, 3);
        c.check(ok, mc::str(what, "-view/", TN), "the surroundings of a view were written, or the view was replaced");
    }
}; }
static double tol(double scale) { return 60 * EPS * (scale + 1e-30); }
static double mag(const M &A, const M &B, Z alpha, Z beta, const M &C) { return std::abs(alpha) * maxabs(A) * maxabs(B) * std::max(1, A.n) * 2 + std::abs(beta) * maxabs(C) * 2; }

static void gemm(mc::Run &c) {
    auto D = dims(c);
    int m = c.of(D, "M"), n = c.of(D, "N"), k = c.of(D, "K");
    char ta = c.ch("NTC", "transa"), tb = c.ch("NTC", "transb");
    if (!c.mine()) return;
    T alpha = c.of(scalars<T>(c.thorough), "alpha"), beta = c.of(scalars<T>(c.thorough), "beta");
    bool view = c.pick(2, "views");
    Op oA(ta == 'N' ? mat(m, k, 1) : mat(k, m, 1), view), oB(tb == 'N' ? mat(k, n, 2) : mat(n, k, 2), view), oC(mat(m, n, 3), view);
    Matrix<T> &A = oA.X, &B = oB.X, &C = oC.X;
    M a = fromMat(A), b = fromMat(B), c0 = fromMat(C);
    if (m == 0 || n == 0 || k == 0) { if (A.nb_rows() == 0 || B.nb_rows() == 0 || C.nb_rows() == 0) c.skip(); } // BLAS refuses a zero leading dimension
    c.stage("add_matrix_matrix_product");
    htool::add_matrix_matrix_product(ta, tb, alpha, A, B, beta, C);
    c.step();
    M want = axpby(alpha, mul(op(ta, a), op(tb, b)), beta, c0);
    equal_to(c, fromMat(C), want, tol(mag(op(ta, a), b, alpha, beta, c0)), "gemm/" + TN);
    equal_to(c, fromMat(A), a, 0, "gemm-input/" + TN);
    equal_to(c, fromMat(B), b, 0, "gemm-input/" + TN);
    oA.intact(c, "gemm"); oB.intact(c, "gemm"); oC.intact(c, "gemm");
    c.outcome(hash(want));
}
template <class X> static void hemm(char side, char uplo, X, const Matrix<X> &, const Matrix<X> &, X, Matrix<X> &) {}
template <class X> static void hemm(char side, char uplo, std::complex<X> al, const Matrix<std::complex<X>> &A, const Matrix<std::complex<X>> &B, std::complex<X> be, Matrix<std::complex<X>> &C) { htool::add_hermitian_matrix_matrix_product(side, uplo, al, A, B, be, C); }
static void symm(mc::Run &c) {
    auto D = dims1(c);
    int m = c.of(D, "M"), n = c.of(D, "N");
    char side = c.ch("LR", "side"), uplo = c.ch("LU", "uplo"), kind = Ty<T>::cplx ? c.ch("SH", "sym") : 'S';
    if (!c.mine()) return;
    T alpha = c.of(scalars<T>(c.thorough), "alpha"), beta = c.of(scalars<T>(c.thorough), "beta");
    int na = side == 'L' ? m : n;
    bool view = c.pick(2, "views");
    Op oA(mat(na, na, 4), view), oB(mat(m, n, 5), view), oC(mat(m, n, 6), view);
    Matrix<T> &A = oA.X, &B = oB.X, &C = oC.X;
    if (kind == 'H') for (int i = 0; i < na; i++) A(i, i) = std::real(A(i, i));
    M a = fromMat(A), b = fromMat(B), c0 = fromMat(C), full = mirror(a, uplo, kind);
    c.stage("add_symmetric_matrix_matrix_product");
    if (kind == 'S') htool::add_symmetric_matrix_matrix_product(side, uplo, alpha, A, B, beta, C);
    else hemm(side, uplo, alpha, A, B, beta, C);
    c.step();
    M want = axpby(alpha, side == 'L' ? mul(full, b) : mul(b, full), beta, c0);
    equal_to(c, fromMat(C), want, tol(mag(full, b, alpha, beta, c0)), mc::str("symm/", kind, side, uplo, "/", TN));
    equal_to(c, fromMat(A), a, 0, "symm-input/" + TN);
    equal_to(c, fromMat(B), b, 0, "symm-input/" + TN);
    oA.intact(c, "symm"); oB.intact(c, "symm"); oC.intact(c, "symm");
    c.outcome(hash(want));
}
static void gemv(mc::Run &c) {
    auto D = dims1(c);
    int m = c.of(D, "M"), n = c.of(D, "N");
    char t = c.ch("NTC", "trans"), kind = c.ch("NSH", "sym"), uplo = kind == 'N' ? 'N' : c.ch("LU", "uplo");
    if (kind != 'N' && (m != n || t != 'N')) c.skip();
    if (!c.mine()) return;
    T alpha = c.of(scalars<T>(c.thorough), "alpha"), beta = c.of(scalars<T>(c.thorough), "beta");
    Matrix<T> A = mat(m, n, 7);
    if (kind == 'H') for (int i = 0; i < n; i++) A(i, i) = std::real(A(i, i));
    M a = fromMat(A);
    M full = kind == 'N' ? op(t, a) : mirror(a, uplo, kind);
    std::vector<T> x(full.n), y(full.m + 1); // guarded
    for (int i = 0; i < full.n; i++) x[i] = val<T>(8, i, 0);
    for (int i = 0; i <= full.m; i++) y[i] = val<T>(9, i, 0);
    M x0 = from(x.data(), full.n, 1), y0 = from(y.data(), full.m, 1); T guard = y[full.m];
    c.stage("add_matrix_vector_product");
    if (kind == 'N') htool::add_matrix_vector_product(t, alpha, A, x.data(), beta, y.data());
    else if (kind == 'S') htool::add_symmetric_matrix_vector_product(uplo, alpha, A, x.data(), beta, y.data());
    else htool::add_hermitian_matrix_vector_product(uplo, alpha, A, x.data(), beta, y.data());
    c.step();
    M want = axpby(alpha, mul(full, x0), beta, y0);
    equal_to(c, from(y.data(), full.m, 1), want, tol(mag(full, x0, alpha, beta, y0)), mc::str("gemv/", kind, t, "/", TN));
    c.check(y[full.m] == guard, "gemv-bounds/" + TN);
    equal_to(c, from(x), x0, 0, "gemv-input/" + TN); equal_to(c, fromMat(A), a, 0, "gemv-input/" + TN);
}
static void rowmajor(mc::Run &c) {
    auto D = dims1(c);
    int m = c.of(D, "M"), n = c.of(D, "N"), mu = c.of(D, "mu");
    char kind = c.ch("NSH", "sym");
    char side = kind == 'N' ? 'L' : c.ch("LR", "side");
    char ta = kind == 'N' ? c.ch("NTC", "transa") : 'N', uplo = kind == 'N' ? 'N' : c.ch("LU", "uplo");
    char tb = kind == 'N' ? c.ch("NTC", "transb") : 'N';
    if (kind != 'N' && m != n) c.skip();
    if (!c.mine()) return;
    T alpha = c.of(scalars<T>(c.thorough), "alpha"), beta = c.of(scalars<T>(c.thorough), "beta");
    Matrix<T> A = mat(m, n, 10);
    if (kind == 'H') for (int i = 0; i < n; i++) A(i, i) = std::real(A(i, i));
    M a = fromMat(A), full = kind == 'N' ? op(ta, a) : mirror(a, uplo, kind);
    int K = full.n, R = full.m;
    // op(in) is K x mu; for transb != N, `in` is the row-major mu x K matrix
    int inr = tb == 'N' && side == 'L' ? K : mu, inc = tb == 'N' && side == 'L' ? mu : K, onr = side == 'L' ? R : mu, onc = side == 'L' ? mu : R;
    std::vector<T> x((size_t)inr * inc), y((size_t)R * mu + 1);
    for (size_t i = 0; i < x.size(); i++) x[i] = val<T>(11, (int)i, 0);
    for (size_t i = 0; i < y.size(); i++) y[i] = val<T>(12, (int)i, 0);
    M x0 = from_rm(x.data(), inr, inc), y0 = from_rm(y.data(), onr, onc); T guard = y.back(); std::vector<T> xc = x;
    c.stage("add_matrix_matrix_product_row_major");
    if (kind == 'N') htool::add_matrix_matrix_product_row_major(ta, tb, alpha, A, x.data(), beta, y.data(), mu);
    else if (kind == 'S') htool::add_symmetric_matrix_matrix_product_row_major(side, uplo, alpha, A, x.data(), beta, y.data(), mu);
    else htool::add_hermitian_matrix_matrix_product_row_major(side, uplo, alpha, A, x.data(), beta, y.data(), mu);
    c.step();
    M want = axpby(alpha, side == 'L' ? mul(full, op(tb, x0)) : mul(x0, full), beta, y0);
    equal_to(c, from_rm(y.data(), onr, onc), want, tol(mag(full, x0, alpha, beta, y0)), mc::str("rowmajor/", kind, side, ta, tb, "/", TN));
    c.check(y.back() == guard, "rowmajor-bounds/" + TN);
    c.check(x == xc, "rowmajor-input/" + TN); equal_to(c, fromMat(A), a, 0, "rowmajor-input/" + TN);
}
static void scale_transpose(mc::Run &c) {
    auto D = dims(c);
    int m = c.of(D, "M"), n = c.of(D, "N");
    T alpha = c.of(scalars<T>(true), "alpha");
    if (!c.mine()) return;
    Matrix<T> A = mat(m, n, 13), B(n, m);
    M a = fromMat(A);
    c.stage("transpose");
    htool::transpose(A, B); c.step();
    equal_to(c, fromMat(B), op('T', a), 0, "transpose/" + TN);
    c.stage("scale");
    htool::scale(alpha, A); c.step();
    equal_to(c, fromMat(A), scal(alpha, a), tol(maxabs(a) * 4), "scale/" + TN);
    // operators
    bool view = c.pick(2, "views");
    Op oP(mat(m, n, 14), view), oQ(mat(n, m, 15), view), oR(mat(m, n, 16), view);
    Matrix<T> &P = oP.X, &Q = oQ.X, &R = oR.X;
    M p = fromMat(P), q = fromMat(Q), r = fromMat(R);
    equal_to(c, fromMat(P + R), add(p, r), tol(2), "operator+/" + TN);
    equal_to(c, fromMat(P - R), sub(p, r), tol(2), "operator-/" + TN);
    equal_to(c, fromMat(P * Q), mul(p, q), tol(4 * n + 1), "operator*/" + TN);
    equal_to(c, fromMat(P * alpha), scal(alpha, p), tol(8), "operator*scalar/" + TN);
    equal_to(c, fromMat(alpha * P), scal(alpha, p), tol(8), "scalar*operator/" + TN);
    oP.intact(c, "operators"); oQ.intact(c, "operators"); oR.intact(c, "operators");
    equal_to(c, fromMat(P), p, 0, "operators-input/" + TN); equal_to(c, fromMat(Q), q, 0, "operators-input/" + TN); equal_to(c, fromMat(R), r, 0, "operators-input/" + TN);
    if (m > 0 && n > 0) {
        auto am = argmax(P);
        c.check(am.first >= 0 && am.first < m && am.second >= 0 && am.second < n && std::abs(Z(P(am.first, am.second))) >= maxabs(p) * (1 - 4 * EPS), "argmax/" + TN, mc::str(am.first, ",", am.second));
        for (int start = 0; start < std::min(m * n, 6); start++) for (int stride = 1; stride <= m + 1; stride += m) for (int len = 0; start + (len - 1) * stride < m * n && len < 6; len++) {
            auto sl = P.get_stridedslice(start, len, stride);
            bool ok = (int)sl.size() == len; for (int i = 0; ok && i < len; i++) ok = sl[i] == P.data()[start + i * stride];
            c.check(ok, "get_stridedslice/" + TN);
            Matrix<T> X = P; std::vector<T> v(len); M w = p; for (int i = 0; i < len; i++) { v[i] = val<T>(41, i, start); w.a[start + i * stride] = v[i]; }
            X.set_stridedslice(start, len, stride, v); equal_to(c, fromMat(X), w, 0, "set_stridedslice/" + TN);
        }
    }
    std::vector<T> x(n); for (int i = 0; i < n; i++) x[i] = val<T>(17, i, 0);
    equal_to(c, from(P * x), mul(p, from(x)), tol(4 * n + 1), "operator*vec/" + TN);
    double f = 0; for (auto &v : p.a) f += std::norm(v);
    c.check(std::abs(htool::normFrob(P) - std::sqrt(f)) <= tol(4 * std::sqrt(f)), "normFrob/" + TN);
    for (int i = 0; i < m; i++) equal_to(c, from(P.get_row(i)), op('T', block(p, i, 0, 1, n)), 0, "get_row/" + TN);
    for (int j = 0; j < n; j++) equal_to(c, from(P.get_col(j)), block(p, 0, j, m, 1), 0, "get_col/" + TN);
    for (int i = 0; i < m; i++) { Matrix<T> X = P; std::vector<T> row(n); for (int j = 0; j < n; j++) row[j] = val<T>(18, i, j); X.set_row(i, row); M w = p; for (int j = 0; j < n; j++) w(i, j) = row[j]; equal_to(c, fromMat(X), w, 0, "set_row/" + TN); }
    for (int j = 0; j < n; j++) { Matrix<T> X = P; std::vector<T> col(m); for (int i = 0; i < m; i++) col[i] = val<T>(19, i, j); X.set_col(j, col); M w = p; for (int i = 0; i < m; i++) w(i, j) = col[i]; equal_to(c, fromMat(X), w, 0, "set_col/" + TN); }
}
// rectangular factorizations: P L U = A with unit lower trapezoidal L and upper trapezoidal U
static void lu_rect(mc::Run &c) {
    int m = c.of(c.thorough ? std::vector<int>{1, 2, 3, 4, 5, 6} : std::vector<int>{1, 2, 3, 5}, "m"), n = c.of(c.thorough ? std::vector<int>{1, 2, 3, 4, 5, 6} : std::vector<int>{1, 2, 4}, "n"), r = std::min(m, n);
    int seed = c.pick(c.thorough ? 24 : 6, "entries");
    if (!c.mine()) return;
    Matrix<T> A = mat(m, n, 30 + seed), F = A;
    c.stage("lu_factorization"); htool::lu_factorization(F); c.step();
    M f = fromMat(F), L(m, r), U(r, n);
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { if (j < r && i >= j) L(i, j) = i == j ? Z(1) : f(i, j); if (i <= j && i < r) U(i, j) = f(i, j); }
    auto piv = F.get_pivots();
    if (!c.check((int)piv.size() == r, "lu-pivots/" + TN, mc::str(m, "x", n))) return;
    M PL = L;
    for (int i = r - 1; i >= 0; i--) { int q = piv[i] - 1; if (!c.check(q >= i && q < m, "lu-pivots/" + TN)) return; if (q != i) for (int j = 0; j < r; j++) std::swap(PL(i, j), PL(q, j)); }
    equal_to(c, mul(PL, U), fromMat(A), tol(40 * (m + n)), "lu-factors-rectangular/" + TN);
    c.outcome(hash(f));
}
// nonsingular matrices whose partial pivoting realises every pivot order: a permutation times a graded matrix
static std::vector<std::vector<int>> perms(int n) { std::vector<int> p(n); for (int i = 0; i < n; i++) p[i] = i; std::vector<std::vector<int>> r; do r.push_back(p); while (std::next_permutation(p.begin(), p.end())); return r; }
static void lu(mc::Run &c) {
    int n = c.of(c.thorough ? std::vector<int>{1, 2, 3, 4, 5, 6} : std::vector<int>{1, 2, 3, 4, 5}, "n");
    auto P = c.of(perms(n), "row order");
    int nrhs = c.of(std::vector<int>{1, 2, 3}, "nrhs");
    if (!c.mine()) return;
    Matrix<T> A(n, n);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) A(P[i], j) = (i == j ? Ty<T>::mk(Z(3 + i, 1)) : val<T>(20, i, j));
    M a = fromMat(A); T alpha = c.of(scalars<T>(false), "alpha");
    bool view = c.pick(2, "views");
    Op oF(A, view); Matrix<T> &F = oF.X;
    c.stage("lu_factorization");
    htool::lu_factorization(F); c.step();
    oF.intact(c, "lu_factorization");
    M f = fromMat(F), L = tri(f, 'L', 'U'), U = tri(f, 'U', 'N');
    auto piv = F.get_pivots();
    if (!c.check((int)piv.size() == n, "lu-pivots/" + TN)) return;
    M PL = L; // P^T L
    for (int i = n - 1; i >= 0; i--) { int q = piv[i] - 1; if (!c.check(q >= i && q < n, "lu-pivots/" + TN)) return; if (q != i) for (int j = 0; j < n; j++) std::swap(PL(i, j), PL(q, j)); }
    equal_to(c, mul(PL, U), a, tol(40 * n), "lu-factors/" + TN);
    for (char t : {'N', 'T', 'C'}) {
        Op oB(mat(n, nrhs, 21), view); Matrix<T> &B = oB.X; M b = fromMat(B);
        c.stage("lu_solve");
        htool::lu_solve(t, F, B); c.step();
        oB.intact(c, "lu_solve");
        equal_to(c, mul(op(t, a), fromMat(B)), b, tol(400 * n), mc::str("lu_solve/", t, "/", TN));
    }
    // triangular solves through the pivots
    for (char side : {'L', 'R'}) for (char uplo : {'L', 'U'}) for (char t : {'N', 'T', 'C'}) {
        Op oB(side == 'L' ? mat(n, nrhs, 22) : mat(nrhs, n, 22), view); Matrix<T> &B = oB.X; M b = fromMat(B);
        M tr = op(t, uplo == 'L' ? PL : U);
        c.stage("triangular_matrix_matrix_solve");
        htool::triangular_matrix_matrix_solve(side, uplo, t, uplo == 'L' ? 'U' : 'N', alpha, F, B); c.step();
        M x = fromMat(B);
        equal_to(c, side == 'L' ? mul(tr, x) : mul(x, tr), scal(alpha, b), tol(400 * n * 3), mc::str("lu-trsm/", side, uplo, t, "/", TN));
        oB.intact(c, "lu-trsm");
    }
    equal_to(c, fromMat(F), f, 0, "lu-solves-input/" + TN); oF.intact(c, "lu-solves");
    c.check(F.get_pivots() == piv, "lu-solves-input/" + TN);
    c.outcome(mc::hash_bytes(piv.data(), piv.size() * sizeof(int)));
}
static void trsm(mc::Run &c) {
    int m = c.of(dims1(c), "m"), n = c.of(dims1(c), "n");
    char side = c.ch("LR", "side"), uplo = c.ch("LU", "uplo"), t = c.ch("NTC", "trans"), diag = c.ch("NU", "diag");
    if (!c.mine()) return;
    T alpha = c.of(scalars<T>(c.thorough), "alpha");
    int na = side == 'L' ? m : n;
    bool view = c.pick(2, "views");
    Op oA(mat(na, na, 23), view), oB(mat(m, n, 24), view); Matrix<T> &A = oA.X, &B = oB.X;
    for (int j = 0; j < na; j++) for (int i = 0; i < na; i++) A(i, j) = i == j ? A(i, j) + Ty<T>::mk(Z(3)) : A(i, j) / (na > 6 ? Ty<T>::mk(Z(na)) : Ty<T>::mk(Z(1)));
    M a = fromMat(A), b = fromMat(B), tr = op(t, tri(a, uplo, diag));
    c.stage("triangular_matrix_matrix_solve");
    htool::triangular_matrix_matrix_solve(side, uplo, t, diag, alpha, A, B); c.step();
    M x = fromMat(B);
    equal_to(c, side == 'L' ? mul(tr, x) : mul(x, tr), scal(alpha, b), tol(200 * (1 + maxabs(x)) * na), mc::str("trsm/", side, uplo, t, diag, "/", TN));
    equal_to(c, fromMat(A), a, 0, "trsm-input/" + TN);
    oA.intact(c, "trsm"); oB.intact(c, "trsm");
}
static void chol(mc::Run &c) {
    int n = c.of(c.thorough ? std::vector<int>{1, 2, 3, 4, 5, 6, 7, 12, 40} : std::vector<int>{1, 2, 3, 4, 5, 9, 33}, "n");
    char uplo = c.ch("LU", "uplo"); int nrhs = c.of(std::vector<int>{1, 2, 3}, "nrhs"); int garbage = c.pick(2, "other triangle");
    if (!c.mine()) return;
    Matrix<T> A(n, n); M g(n, n);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) g(i, j) = Z(val<T>(25, i, j));
    M spd = add(mul(g, op('C', g)), scal(2., eye(n)));
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { bool st = uplo == 'L' ? i >= j : i <= j; A(i, j) = Ty<T>::mk(st || !garbage ? spd(i, j) : Z(17)); }
    M a = mirror(fromMat(A), uplo, 'H');
    bool view = c.pick(2, "views");
    Op oF(A, view); Matrix<T> &F = oF.X;
    c.stage("cholesky_factorization");
    htool::cholesky_factorization(uplo, F); c.step();
    oF.intact(c, "cholesky_factorization");
    if (garbage) { bool ok = true; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (uplo == 'L' ? i < j : i > j) ok = ok && F(i, j) == Ty<T>::mk(Z(17)); c.check(ok, "cholesky-other-triangle/" + TN); }
    M l = tri(fromMat(F), uplo, 'N');
    equal_to(c, uplo == 'L' ? mul(l, op('C', l)) : mul(op('C', l), l), a, tol(100 * n * maxabs(a)), mc::str("cholesky/", uplo, "/", TN));
    Op oB(mat(n, nrhs, 26), view); Matrix<T> &B = oB.X; M b = fromMat(B), f0 = fromMat(F);
    c.stage("cholesky_solve");
    htool::cholesky_solve(uplo, F, B); c.step();
    equal_to(c, fromMat(F), f0, 0, "cholesky_solve-input/" + TN); oB.intact(c, "cholesky_solve");
    equal_to(c, mul(a, fromMat(B)), b, tol(400 * n * maxabs(a)), mc::str("cholesky_solve/", uplo, "/", TN));
}
// a unitary matrix: the product of two reflections
static M unitary(int n, uint64_t seed) {
    M q = eye(n);
    for (int r = 0; r < 2; r++) { M v(n, 1); for (int i = 0; i < n; i++) v(i, 0) = Z(val<T>(seed + r, i, 1)); double f = fro(v); q = sub(q, scal(2 / (f * f), mul(mul(q, v), op('C', v)))); }
    return q;
}
static void svd(mc::Run &c) {
    int m = c.of(dims1(c), "m"), n = c.of(dims1(c), "n"), k = std::min(m, n);
    // generic, geometric, rank deficient, zero; leading values and a flat tail around the tolerance; the same with the leading value repeated
    int decay = c.pick(6, "spectrum");
    double eps = c.of(std::vector<double>{1e-1, 1e-3, 1e-14, 0.9, 10}, "epsilon");
    int rank = decay == 2 ? c.pick(std::min(k, 5), "exact rank") : 0;
    double tail0 = decay >= 4 ? c.of(std::vector<double>{0.95, 0.6, 0.3, 0.1, 1.05}, "flat tail over epsilon") : 0;
    if (!c.mine()) return;
    Matrix<T> A(m, n);
    if (decay == 0) A = mat(m, n, 27);
    else if (decay < 3) for (int r = 0; r < (decay == 2 ? rank : k); r++) for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) A(i, j) += Ty<T>::mk((decay == 1 ? std::pow(10., -1.5 * r) : 1.)) * val<T>(28, i, r) * val<T>(29, r, j);
    else if (decay >= 4) {
        M d(m, n);
        for (int i = 0; i < k; i++) d(i, i) = i < decay - 3 ? 1. : tail0 * std::min(eps, 0.9) * std::sqrt(double(decay - 3));
        M x = mul(mul(unitary(m, 60), d), unitary(n, 70));
        for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) A(i, j) = Ty<T>::mk(x(i, j));
    }
    M a = fromMat(A);
    Matrix<T> W = A, u, vt; std::vector<htool::underlying_type<T>> sv;
    c.stage("SVD_truncation");
    int tr = htool::SVD_truncation(W, (htool::underlying_type<T>)eps, u, vt, sv); c.step();
    c.check(tr >= 0 && tr <= k, "svd-rank/" + TN);
    if (!c.check((int)sv.size() == k && u.nb_rows() == m && u.nb_cols() >= k && vt.nb_rows() >= k && vt.nb_cols() == n, "svd-shape/" + TN)) return;
    M uu = fromMat(u), vv = fromMat(vt), s(uu.n, vv.m), st(uu.n, vv.m);
    for (int i = 0; i < k; i++) { s(i, i) = sv[i]; if (i < tr) st(i, i) = sv[i]; c.check(sv[i] >= 0 && (i == 0 || sv[i] <= sv[i - 1] * (1 + 10 * EPS)), "svd-order/" + TN); }
    equal_to(c, mul(mul(uu, s), vv), a, tol(30 * (fro(a) + 1e-300)), "svd-product/" + TN);
    double fa = fro(a), ft = fro(sub(mul(mul(uu, st), vv), a));
    c.check(ft <= eps * fa * (1 + 1e-6) + tol(30 * fa), "svd-tolerance/" + TN, mc::str("rank ", tr, " error ", ft, " norm ", fa, " epsilon ", eps));
    // no larger than needed (one more than the smallest sufficient rank is impossible), except that rank >= 1 always
    auto svr = singular_values(a); double tail = 0; int need = k;
    for (int j = k - 1; j >= 0; j--) { tail += svr[j] * svr[j]; if (std::sqrt(tail) < eps * fa * (1 - 1e-4) - tol(60 * fa)) need = j; else break; }
    if (fa > 0 && eps > 50 * EPS) c.check(tr <= std::max(need, 1), "svd-minimal/" + TN, mc::str("rank ", tr, " but ", need, " suffices"));
    c.outcome(tr * 100 + k);
}
// the vector algebra of basic_types/vector.hpp
static void vec(mc::Run &c) {
    int n = c.pick(c.thorough ? 9 : 6, "n") + 1, seed = c.pick(c.thorough ? 20 : 5, "entries");
    T v = c.of(std::vector<T>{Ty<T>::mk(Z(1)), Ty<T>::mk(Z(-2.5, 1.25)), Ty<T>::mk(Z(0.5, -3))}, "scalar");
    if (!c.mine()) return;
    std::vector<T> a(n), b(n);
    for (int i = 0; i < n; i++) { a[i] = val<T>(80 + seed, i, 0); b[i] = val<T>(180 + seed, i, 0); }
    M x = from(a), y = from(b);
    using namespace htool;
    equal_to(c, from(a + b), add(x, y), tol(2), "vector+/" + TN); equal_to(c, from(plus(a, b)), add(x, y), tol(2), "vector-plus/" + TN);
    equal_to(c, from(a - b), sub(x, y), tol(2), "vector-/" + TN); equal_to(c, from(minus(a, b)), sub(x, y), tol(2), "vector-minus/" + TN);
    equal_to(c, from(mult(v, a)), scal(Z(v), x), tol(8), "vector-mult/" + TN);
    equal_to(c, from(a / v), scal(1. / Z(v), x), tol(8), "vector-div/" + TN);
    { auto t = a; t *= v; equal_to(c, from(t), scal(Z(v), x), tol(8), "vector*=/" + TN); }
    { auto t = a; t /= v; equal_to(c, from(t), scal(1. / Z(v), x), tol(8), "vector/=/" + TN); }
    Z d = 0, me = 0; double lo = INFINITY, hi = 0;
    for (int i = 0; i < n; i++) { d += x.a[i] * std::conj(y.a[i]); me += x.a[i] / double(n); lo = std::min(lo, std::abs(x.a[i])); hi = std::max(hi, std::abs(x.a[i])); }
    c.check(std::abs(Z(dprod(a, b)) - d) <= tol(4 * n), "dprod/" + TN);
    c.check(std::abs(norm2(a) - fro(x)) <= tol(4 * n), "norm2/" + TN);
    c.check(std::abs(Z(mean(a)) - me) <= tol(4), "mean/" + TN);
    c.check(std::abs(Z(htool::max(a))) >= hi * (1 - 4 * EPS) && std::abs(Z(htool::min(a))) <= lo * (1 + 4 * EPS), "vector-max-min/" + TN);
    int am = htool::argmax(a); c.check(am >= 0 && am < n && std::abs(x.a[am]) >= hi * (1 - 4 * EPS), "vector-argmax/" + TN);
    c.step(); c.outcome(n * 100 + am);
}
namespace { struct Reg { Reg() {
#define R(f) static std::string f##_n = std::string(#f) + "<" + TN + ">"; new mc::Registrar(f##_n.c_str(), f);
    R(gemm) R(symm) R(gemv) R(rowmajor) R(scale_transpose) R(lu) R(lu_rect) R(trsm) R(chol) R(svd) R(vec)
} };
static Reg reg; }

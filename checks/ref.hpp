// Independent dense reference (complex double) against which the library is compared, and helpers to
// produce deterministic data and to compare with a rounding-level tolerance.
#ifndef VERIF_REF_HPP
#define VERIF_REF_HPP
#include "mc.hpp"
#include <algorithm>
#include <cmath>
#include <complex>
#include <limits>
#include <vector>
namespace ref {
typedef std::complex<double> Z;
struct M {
    int m = 0, n = 0;
    std::vector<Z> a;
    M() {}
    M(int m_, int n_) : m(m_), n(n_), a((size_t)m_ * n_) {}
    Z &operator()(int i, int j) { return a[i + (size_t)j * m]; }
    const Z &operator()(int i, int j) const { return a[i + (size_t)j * m]; }
};
inline M op(char t, const M &A) {
    if (t == 'N') return A;
    M B(A.n, A.m);
    for (int i = 0; i < A.m; i++) for (int j = 0; j < A.n; j++) B(j, i) = t == 'C' ? std::conj(A(i, j)) : A(i, j);
    return B;
}
inline M mul(const M &A, const M &B) {
    M C(A.m, B.n);
    for (int j = 0; j < B.n; j++) for (int k = 0; k < A.n; k++) { Z b = B(k, j); for (int i = 0; i < A.m; i++) C(i, j) += A(i, k) * b; }
    return C;
}
inline M scal(Z s, M A) { for (auto &x : A.a) x *= s; return A; }
inline M add(M A, const M &B) { for (size_t i = 0; i < A.a.size(); i++) A.a[i] += B.a[i]; return A; }
inline M sub(M A, const M &B) { for (size_t i = 0; i < A.a.size(); i++) A.a[i] -= B.a[i]; return A; }
// alpha*A*B + beta*C
inline M axpby(Z alpha, const M &AB, Z beta, const M &C) { M R(AB.m, AB.n); for (size_t i = 0; i < R.a.size(); i++) R.a[i] = alpha * AB.a[i] + beta * C.a[i]; return R; }
inline double maxabs(const M &A) { double r = 0; for (auto &x : A.a) { double v = std::abs(x); if (!(v <= r)) r = v; } return r; }
inline double fro(const M &A) { double r = 0; for (auto &x : A.a) r += std::norm(x); return std::sqrt(r); }
inline M eye(int n) { M I(n, n); for (int i = 0; i < n; i++) I(i, i) = 1; return I; }
// the full matrix represented by one triangle
inline M mirror(const M &A, char uplo, char sym) { // sym 'S' or 'H'
    M B(A.m, A.n);
    for (int i = 0; i < A.m; i++) for (int j = 0; j < A.n; j++) {
        bool stored = uplo == 'L' ? i >= j : i <= j;
        Z v = stored ? A(i, j) : A(j, i);
        if (!stored && sym == 'H') v = std::conj(v);
        if (i == j && sym == 'H') v = v.real();
        B(i, j) = v;
    }
    return B;
}
inline M tri(const M &A, char uplo, char diag) {
    M B(A.m, A.n);
    for (int i = 0; i < A.m; i++) for (int j = 0; j < A.n; j++) {
        if (i == j) B(i, j) = diag == 'U' ? Z(1) : A(i, j);
        else if (uplo == 'L' ? i > j : i < j) B(i, j) = A(i, j);
    }
    return B;
}
inline M block(const M &A, int i0, int j0, int m, int n) { M B(m, n); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) B(i, j) = A(i0 + i, j0 + j); return B; }
// Gaussian elimination with full row pivoting; returns X with A X = B
inline M solve(M A, M B) {
    int n = A.m;
    for (int k = 0; k < n; k++) {
        int p = k;
        for (int i = k; i < n; i++) if (std::abs(A(i, k)) > std::abs(A(p, k))) p = i;
        if (p != k) { for (int j = 0; j < n; j++) std::swap(A(k, j), A(p, j)); for (int j = 0; j < B.n; j++) std::swap(B(k, j), B(p, j)); }
        for (int i = k + 1; i < n; i++) {
            Z f = A(i, k) / A(k, k);
            if (f == Z(0)) continue;
            for (int j = k; j < n; j++) A(i, j) -= f * A(k, j);
            for (int j = 0; j < B.n; j++) B(i, j) -= f * B(k, j);
        }
    }
    for (int k = n - 1; k >= 0; k--) for (int j = 0; j < B.n; j++) {
        for (int i = k + 1; i < n; i++) B(k, j) -= A(k, i) * B(i, j);
        B(k, j) /= A(k, k);
    }
    return B;
}
// singular values by one-sided Jacobi
inline std::vector<double> singular_values(M A) {
    if (A.m < A.n) A = op('C', A);
    int m = A.m, n = A.n;
    for (int sweep = 0; sweep < 60; sweep++) {
        double off = 0;
        for (int p = 0; p < n; p++) for (int q = p + 1; q < n; q++) {
            double a = 0, b = 0; Z g = 0;
            for (int i = 0; i < m; i++) { a += std::norm(A(i, p)); b += std::norm(A(i, q)); g += std::conj(A(i, p)) * A(i, q); }
            double ag = std::abs(g);
            if (ag <= 1e-16 * std::sqrt(a * b) || ag == 0) continue;
            off = std::max(off, ag / std::sqrt(a * b));
            Z ph = g / ag;
            double zeta = (b - a) / (2 * ag), t = (zeta >= 0 ? 1. : -1.) / (std::abs(zeta) + std::sqrt(1 + zeta * zeta));
            double c = 1 / std::sqrt(1 + t * t), s = c * t;
            for (int i = 0; i < m; i++) { Z x = A(i, p), y = A(i, q) * std::conj(ph); A(i, p) = c * x - s * y; A(i, q) = s * x + c * y; }
        }
        if (off < 1e-15) break;
    }
    std::vector<double> sv(n);
    for (int j = 0; j < n; j++) { double a = 0; for (int i = 0; i < m; i++) a += std::norm(A(i, j)); sv[j] = std::sqrt(a); }
    std::sort(sv.rbegin(), sv.rend());
    return sv;
}

// ---- scalar types
template <class T> struct Ty;
template <> struct Ty<float> { static constexpr double eps = 1.2e-7; static constexpr bool cplx = false; static const char *name() { return "float"; } static float mk(Z z) { return (float)z.real(); } };
template <> struct Ty<double> { static constexpr double eps = 2.3e-16; static constexpr bool cplx = false; static const char *name() { return "double"; } static double mk(Z z) { return z.real(); } };
template <> struct Ty<std::complex<float>> { static constexpr double eps = 1.2e-7; static constexpr bool cplx = true; static const char *name() { return "cfloat"; } static std::complex<float> mk(Z z) { return std::complex<float>((float)z.real(), (float)z.imag()); } };
template <> struct Ty<std::complex<double>> { static constexpr double eps = 2.3e-16; static constexpr bool cplx = true; static const char *name() { return "cdouble"; } static std::complex<double> mk(Z z) { return z; } };

// deterministic generic values in [-1,1]
inline double rnd(uint64_t s) {
    s += 0x9E3779B97F4A7C15ull; s = (s ^ (s >> 30)) * 0xBF58476D1CE4E5B9ull; s = (s ^ (s >> 27)) * 0x94D049BB133111EBull; s ^= s >> 31;
    return ((double)(s >> 11) / 9007199254740992.0) * 2 - 1;
}
template <class T> T val(uint64_t seed, int i, int j) { return Ty<T>::mk(Z(rnd(seed * 1000003 + i * 1009 + j * 2), rnd(seed * 1000003 + i * 1009 + j * 2 + 1))); }
// scalar choices
template <class T> std::vector<T> scalars(bool wide) {
    std::vector<T> v;
    v.push_back(Ty<T>::mk(Z(1)));
    v.push_back(Ty<T>::mk(Z(0)));
    v.push_back(Ty<T>::mk(Z(-2.5, 1.25)));
    if (wide) v.push_back(Ty<T>::mk(Z(-1)));
    return v;
}
template <class T> M from(const T *p, int m, int n) { M A(m, n); for (size_t i = 0; i < A.a.size(); i++) A.a[i] = Z(p[i]); return A; }
template <class T> M from_rm(const T *p, int m, int n) { M A(m, n); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) A(i, j) = Z(p[(size_t)i * n + j]); return A; }
template <class T> M from(const std::vector<T> &v) { return from(v.data(), (int)v.size(), 1); }
template <class Mat> M fromMat(const Mat &A) { M B(A.nb_rows(), A.nb_cols()); for (size_t i = 0; i < B.a.size(); i++) B.a[i] = Z(A.data()[i]); return B; }

inline std::string show(const M &A) {
    std::string s = mc::str(A.m, "x", A.n, " [");
    for (int i = 0; i < std::min(A.m, 8); i++) { for (int j = 0; j < std::min(A.n, 8); j++) s += mc::str(j ? " " : "", A(i, j).imag() == 0 ? mc::str(A(i, j).real()) : mc::str(A(i, j))); s += "; "; }
    return s + "]";
}
// largest difference; infinite if a value is not finite
inline double diff(const M &A, const M &B) {
    if (A.m != B.m || A.n != B.n) return INFINITY;
    double d = 0;
    for (size_t i = 0; i < A.a.size(); i++) { double v = std::abs(A.a[i] - B.a[i]); if (!std::isfinite(v)) return INFINITY; d = std::max(d, v); }
    return d;
}
inline bool equal_to(mc::Run &c, const M &got, const M &want, double tol, const std::string &sig, const std::string &ctx = "") {
    double d = diff(got, want);
    return c.check(d <= tol, sig, [&] { return mc::str(ctx, " difference ", d, " > ", tol, "\n      got ", show(got), "\n      want ", show(want)); });
}
inline uint64_t hash(const M &A) { uint64_t h = 77; for (auto &x : A.a) { long long q = (long long)std::llround(x.real() * 1e4); h = mc::hash_mix(h, q); } return h; }
} // namespace ref
#endif

// C21: the GenEO coarse space: every size, overlap, symmetry, way of giving the matrices, number of vectors and threshold
// around every eigenvalue, against the spectrum of the pencil reduced to the interior.
#include <HPDDM.hpp>
#include <htool/hmatrix/hmatrix.hpp>
#include <htool/matrix/matrix.hpp>
#include <htool/solvers/geneo/coarse_space_builder.hpp>
#include "ops.inc"
extern "C" void zgeev_(const char *, const char *, const int *, std::complex<double> *, const int *, std::complex<double> *, std::complex<double> *, const int *, std::complex<double> *, const int *, std::complex<double> *, const int *, double *, int *);
typedef htool::GeneoCoarseSpaceDenseBuilder<T, P> G;
std::vector<Z> eigenvalues(M A) {
    int n = A.m, lw = 8 * n + 8, one = 1, info = 0; std::vector<Z> w(n), work(lw); Z d; std::vector<double> rw(2 * n + 2);
    if (n) zgeev_("N", "N", &n, A.a.data(), &n, w.data(), &d, &one, &d, &one, work.data(), &lw, rw.data(), &info);
    std::sort(w.begin(), w.end(), [](Z a, Z b) { return std::abs(a) < std::abs(b); });
    return w;
}
void geneo(mc::Run &c) {
    quiet(); ompmc::set_threads(1); bool th = c.thorough;
    int in = c.of(th ? std::vector<int>{1, 2, 3, 4, 6, 9, 12, 34} : std::vector<int>{1, 2, 3, 5, 8, 30}, "interior"), ov = c.of(in > 20 ? std::vector<int>{0, 11} : th ? std::vector<int>{0, 1, 2, 3, 5} : std::vector<int>{0, 1, 3}, "overlap"), n = in + ov;
    int kind = c.pick(Ty<T>::cplx ? 4 : 3, "symmetry: none, lower, upper, real symmetric in complex"); char sym = kind == 0 ? 'N' : kind == 3 ? 'S' : Ty<T>::cplx ? 'H' : 'S', uplo = kind == 0 ? 'N' : kind == 2 ? 'U' : 'L';
    int singular = kind == 0 ? c.pick(3, "kernel of the local matrix") : 0; if (singular >= in && singular) c.skip();
    int seed = c.pick(in > 20 ? (th ? 4 : 2) : th ? 24 : 6, "coefficients"), way = c.pick(4, "matrix given"); // dense with / without overlap, hierarchical with / without overlap
    double sB = c.of(std::vector<double>{1, 1e-17}, "scale of the local matrix"); if (sB != 1 && (in > 20 || seed > 3)) c.skip();
    if (!c.mine()) return;
    bool herm = kind != 0, real = !Ty<T>::cplx || kind == 3;
    auto entry = [&](int s, int i, int j) { if (herm && i < j) std::swap(i, j); Z v = Z(Ty<T>::mk(Z(rnd(s * 7919 + i * 53 + j), real ? 0 : rnd(s * 7919 + 40000 + i * 53 + j)))); if (herm && i == j) v = v.real(); return v; };
    M A(n, n), B(n, n);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
        Z a = entry(100 + seed, i, j), b = entry(200 + seed, i, j); if (herm && i < j) { a = std::conj(a); b = std::conj(b); }
        if (i == j) { a += herm || seed % 2 == 0 ? (herm && (seed % 3 == 1 ? i % 2 : seed % 3 == 2) ? -1 : 1) * (1.5 * n + 0.7 * i) : 0; /* definite, indefinite, negative */ b += herm || seed % 3 != 1 ? n + 1.0 + i : 0.3; } A(i, j) = Z(Ty<T>::mk(a)); B(i, j) = Z(Ty<T>::mk(b));
    }
    for (int k = 0; k < singular; k++) for (int i = 0; i < n; i++) B(i, k) = B(k, i) = 0; // constants of the interior in the kernel
    for (auto &z : B.a) z *= sB;
    // oracle: B_schur z = mu A_II z, mu = 1/lambda
    M AI = block(A, 0, 0, in, in), S = block(B, 0, 0, in, in); if (ov) S = sub(S, mul(block(B, 0, in, in, ov), solve(block(B, in, in, ov, ov), block(B, in, 0, ov, in))));
    M Mu = solve(AI, S); auto mu = eigenvalues(Mu); double scale = fro(Mu) + 1e-30;
    if (fro(solve(AI, ref::eye(in))) * fro(AI) > 1e4) c.skip();
    // the matrices as the user gives them: outside the interior the first one must not matter
    std::unique_ptr<Cluster<P>> cl; std::unique_ptr<H> hm; Matrix<T> Am, Bm(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) Bm(i, j) = Ty<T>::mk(B(i, j));
    int m = way % 2 ? in : n; if ((way >= 2 && m < 2) || (way == 3 && !ov)) c.skip(); /* without overlap, the hierarchical matrix is read in the numbering of the user */ Geo g = geometry(RANDOM, m, 2);
    struct FromM : htool::VirtualGenerator<T> { const M *A; const int *p; void copy_submatrix(int Mm, int N, const int *r, const int *s, T *ptr) const override { for (int j = 0; j < N; j++) for (int i = 0; i < Mm; i++) ptr[i + (size_t)Mm * j] = Ty<T>::mk((*A)(p ? p[r[i]] : r[i], p ? p[s[j]] : s[j])); } } gen;
    std::vector<int> pos; gen.A = &A; gen.p = nullptr;
    if (way < 2) { Am.resize(m, m); for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) Am(i, j) = i < in && j < in ? Ty<T>::mk(A(i, j)) : Ty<T>::mk(Z(1e5 + i, 3)); }
    else {
        ClusterOpt o; o.minsize = 1; cl = make_cluster<P>(g, o);
        if (way == 3) { pos.assign(m, 0); for (int i = 0; i < m; i++) pos[cl->get_permutation()[i]] = i; gen.p = pos.data(); } // without overlap: cluster numbering
        HMatrixTreeBuilder<T, P> b(*cl, *cl, (P)1e-14, 0, sym, uplo, -1, -1, -1); hm.reset(new H(b.build(gen)));
    }
    std::string sig = mc::str(sym, uplo, singular ? "/kernel" : "", "/", TN), ctx = mc::str("interior ", in, " overlap ", ov, " ", sym, uplo, " kernel ", singular, " seed ", seed, " scale ", sB, " matrix ", way, " eigenvalues 1/"); for (auto z : mu) ctx += mc::str(" ", z);
    bool by_nu = c.pick(2, "number or threshold") == 0; int nu = c.pick(in + 1, by_nu ? "number" : "eigenvalues above the threshold");
    // a cut between equal moduli (conjugate pairs) is not determined
    if (nu > 0 && nu < in && std::abs(mu[nu]) - std::abs(mu[nu - 1]) < 1e-6 * scale) c.skip();
    double thr = nu == 0 ? (std::abs(mu[0]) < 1e-12 * scale ? -1 : 2 / std::abs(mu[0])) : nu == in ? 0.5 / std::abs(mu[in - 1]) : 2 / (std::abs(mu[nu - 1]) + std::abs(mu[nu]));
    if (!by_nu && thr < 0) c.skip(); // infinite eigenvalues are above every threshold
    c.stage(by_nu ? "GeneoWithNu" : "GeneoWithThreshold");
    Matrix<T> Zm = way < 2 ? (by_nu ? G::GeneoWithNu(in, n, Am, Bm, sym, uplo, nu) : G::GeneoWithThreshold(in, n, Am, Bm, sym, uplo, thr)).build_coarse_space()
                           : (by_nu ? G::GeneoWithNu(in, n, *hm, Bm, sym, uplo, nu) : G::GeneoWithThreshold(in, n, *hm, Bm, sym, uplo, thr)).build_coarse_space();
    if (!by_nu) ctx += mc::str(" threshold ", thr);
    c.step();
    if (!c.check(Zm.nb_rows() == n && Zm.nb_cols() == nu, "size/" + sig, [&] { return mc::str(ctx, ": ", Zm.nb_cols(), " vectors of size ", Zm.nb_rows(), " instead of ", nu, " of size ", n); })) return;
    if (!nu) return;
    M z = fromMat(Zm); bool outside = true; for (int i = in; i < n; i++) for (int j = 0; j < nu; j++) outside = outside && z(i, j) == Z(0);
    c.check(outside, "partition-of-unity/" + sig, ctx);
    M zi = block(z, 0, 0, in, nu); for (int j = 0; j < nu; j++) { double s = 0; for (int i = 0; i < in; i++) s += std::norm(zi(i, j)); s = std::sqrt(s); if (s > 0) for (int i = 0; i < in; i++) zi(i, j) /= s; }
    auto sv = singular_values(zi); double smin = sv.back();
    if (!c.check(smin > 1e-9, "independent/" + sig, [&] { return mc::str(ctx, ": the vectors are dependent (", smin, ")"); })) return;
    M zh = op('C', zi), X = solve(mul(zh, zi), mul(zh, mul(Mu, zi))), res = sub(mul(Mu, zi), mul(zi, X));
    double tol = 1e-9 * scale * (1 + fro(solve(AI, ref::eye(in))) * fro(AI));
    c.check(fro(res) <= tol, "eigenvectors/" + sig, [&] { return mc::str(ctx, ": residual ", fro(res), " > ", tol); });
    auto x = eigenvalues(X); double worst = 0; for (int k = 0; k < nu; k++) worst = std::max(worst, std::abs(std::abs(x[k]) - std::abs(mu[k])));
    c.check(worst <= 1e-6 * scale / smin, "largest/" + sig, [&] { std::string s = ctx + ": selected"; for (auto v : x) s += mc::str(" ", v); return s; });
    if (!herm && !real) c.outcome(nu); c.outcome(mc::hash_mix(hash(Mu), nu)); c.check(logged().errors == 0, "logged/" + TN, logged().last);
}
struct Reg { Reg() {
#define R(f) { static std::string n = std::string(#f) + "<" + TN + ">"; new mc::Registrar(n.c_str(), f); }
    R(geneo)
} } reg;
} // namespace

// C05: every low-rank compressor on every small block over a finite alphabet and on structured families.
#include "hx.hpp"
using namespace hx;
#ifndef TS
#define TS double
#endif
namespace {
typedef TS T;
typedef Re<T> P;
const std::string TN = Ty<T>::name();
const double EPS = Ty<T>::eps;
const char *const comp_name[] = {"SVD", "fullACA", "partialACA", "sympartialACA"};
struct BlockGen : htool::VirtualInternalGenerator<T> {
    const M &a; int ro, co; mutable bool outside = false; mutable long asked = 0;
    BlockGen(const M &a_, int r, int c) : a(a_), ro(r), co(c) {}
    void copy_submatrix(int m, int n, int r, int cc, T *p) const override {
        for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) {
            int x = r + i - ro, y = cc + j - co;
            asked++;
            if (x < 0 || x >= a.m || y < 0 || y >= a.n) { outside = true; p[i + (size_t)j * m] = T(0); } else p[i + (size_t)j * m] = Ty<T>::mk(a(x, y));
        }
    }
};
int zero_rows(const M &R, double tol) { int k = 0; for (int i = 0; i < R.m; i++) { bool z = true; for (int j = 0; j < R.n; j++) if (std::abs(R(i, j)) > tol) z = false; k += z; } return k; }
// comp: 0 SVD 1 full 2 partial 3 sympartial; exact: small integer data, so that residuals vanish exactly when the rank is reached
void run(mc::Run &c, const M &A, int comp, double eps, int reqrank, bool target_first, int exact_rank, const std::string &what) {
    int m = A.m, n = A.n, to = target_first ? 3 : 40, so = target_first ? 50 : 5;
    std::vector<P> ctr(2, 0);
    Cluster<P> t(0, ctr, 0, to, m), s(0, ctr, 0, so, n);
    BlockGen g(A, to, so);
    quiet();
    auto name = std::string(comp_name[comp]) + "/" + TN;
    auto msg = [&](const std::string &x) { return [&, x] { return mc::str(x, " -- ", comp_name[comp], " eps ", eps, " reqrank ", reqrank, target_first ? " target first " : " source first ", what, " ", show(A)); }; };
    c.stage(comp_name[comp]);
    LowRankMatrix<T, P> L(g, *compressor<T>(comp), t, s, reqrank, (P)eps);
    c.step();
    c.check(!g.outside, "outside-block/" + name, msg("asks for coefficients outside the block"));
    M U = fromMat(L.get_U()), V = fromMat(L.get_V());
    double norm = fro(A);
    std::vector<double> sv = singular_values(A);
    int full = 0; for (double v : sv) if (v > 64 * EPS * std::max(1e-300, sv[0]) * std::max(m, n)) full++;
    if (U.m != m || V.n != n) { // failure: nothing that could be used
        c.check(U.a.empty() && V.a.empty(), "failure-factors/" + name, msg(mc::str("failure with factors of size ", U.m, "x", U.n, " and ", V.m, "x", V.n)));
        if (norm > 1e-9) { // when must it succeed?
            int r = exact_rank >= 0 ? exact_rank : full, adv = m * n / (m + n); // largest advantageous rank
            if (reqrank == 0) c.fail("failure/" + name, msg("fails with required rank 0")());
            if (comp == 0) {
                int k = (int)sv.size(); double tail = 0; bool tie = false;
                while (k > 0) { double e = std::sqrt(tail + sv[k - 1] * sv[k - 1]); if (std::fabs(e - eps * norm) <= 1e-3 * eps * norm + 64 * EPS * norm) tie = true; if (e >= eps * norm) break; tail += sv[k - 1] * sv[k - 1]; k--; }
                c.check(reqrank < 0 && (tie || k > adv), "failure/" + name, msg(mc::str("fails although rank ", k, " is accurate and advantageous")));
            } else {
                int need = comp == 1 ? (reqrank > 0 ? std::min(reqrank, r) : r) : (reqrank > 0 ? std::min(reqrank, r) : r + 1);
                bool row0 = true; // the first row (column when the source comes first in the symmetric variant) decides a failure of partial pivoting
                if (comp >= 2) { row0 = false; if (comp == 3 && target_first) { for (int i = 0; i < m; i++) if (A(i, 0) != Z(0)) row0 = true; } else for (int j = 0; j < n; j++) if (A(0, j) != Z(0)) row0 = true; }
                if (row0 && exact_rank >= 0) if (reqrank <= r || what == "alphabet") c.check(need > adv || (reqrank > r && r + 1 > adv), "failure/" + name, msg(mc::str("fails although rank ", r, " is exact and advantageous")));
            }
        }
        c.outcome(comp);
        return;
    }
    int k = U.n;
    c.check(V.m == k && L.rank_of() == k, "shape/" + name, msg(mc::str("factors ", U.m, "x", U.n, " and ", V.m, "x", V.n)));
    c.check(k <= std::min(m, n), "rank-bound/" + name, msg(mc::str("rank ", k, " exceeds the size")));
    for (auto &z : U.a) c.check(std::isfinite(z.real()) && std::isfinite(z.imag()), "finite/" + name, msg("non-finite factor"));
    for (auto &z : V.a) c.check(std::isfinite(z.real()) && std::isfinite(z.imag()), "finite/" + name, msg("non-finite factor"));
    M R = sub(A, mul(U, V));
    double err = fro(R), round = 64 * EPS * norm * (k + 1) * std::sqrt((double)std::max(m, n));
    if (reqrank == 0) { c.check(k == 0, "required-rank/" + name, msg(mc::str("rank ", k))); return; }
    if (reqrank < 0) c.check(k * (m + n) <= m * n, "advantageous/" + name, msg(mc::str("rank ", k, " is not advantageous")));
    if (comp == 0) {
        double tail = 0; for (size_t j = k; j < sv.size(); j++) tail += sv[j] * sv[j];
        if (reqrank > 0) c.check(k == std::min(reqrank, std::min(m, n)), "required-rank/" + name, msg(mc::str("rank ", k)));
        else {
            c.check(err <= eps * norm * 1.001 + round, "tolerance/" + name, msg(mc::str("relative error ", err / norm)));
            double tm = tail + (k > 0 ? sv[k - 1] * sv[k - 1] : 0);
            c.check(k <= 1 || std::sqrt(tm) >= eps * norm * 0.999 - round, "minimal-rank/" + name, msg(mc::str("rank ", k, " is larger than necessary")));
        }
        c.check(err <= std::sqrt(tail) + round, "best-approximation/" + name, msg(mc::str("error ", err, " instead of ", std::sqrt(tail))));
    } else {
        double amp = 1; for (auto &z : U.a) amp = std::max(amp, std::abs(z)); // growth of the crosses
        double small = round * std::min(amp, 1e6) * 8;
        if (comp == 1) amp = 1;
        // interpolation: the k crosses are reproduced
        c.check(zero_rows(R, small) >= k && zero_rows(op('T', R), small) >= k, "interpolation/" + name, msg(mc::str("rank ", k, " but the residual vanishes on fewer rows or columns")));
        if (reqrank > 0) c.check(k <= reqrank, "required-rank/" + name, msg(mc::str("rank ", k)));
        bool exhausted = comp == 1 ? err <= small : zero_rows(R, small) > k || zero_rows(op('T', R), small) > k || k == std::min(m, n);
        if (reqrank > 0 && k < std::min(reqrank, std::min(m, n))) c.check(exhausted, "required-rank/" + name, msg(mc::str("only rank ", k, " although the block is not exhausted")));
        if (reqrank < 0) {
            if (comp == 1) {
                c.check(err <= eps * norm * 1.001 + small, "tolerance/" + name, msg(mc::str("relative error ", err / norm)));
                M Rk = sub(A, mul(block(U, 0, 0, m, k - 1), block(V, 0, 0, k - 1, n)));
                c.check(k <= 1 || fro(Rk) >= eps * norm * 0.999 - small, "minimal-rank/" + name, msg(mc::str("rank ", k, " is larger than necessary")));
            } else { // its own estimate: last cross relative to the approximation
                for (int q = 1; q <= k; q++) {
                    double uu = 0, vv = 0; for (int i = 0; i < m; i++) uu += std::norm(U(i, q - 1)); for (int j = 0; j < n; j++) vv += std::norm(V(q - 1, j));
                    double est = std::sqrt(uu * vv) / std::max(1e-300, fro(mul(block(U, 0, 0, m, q), block(V, 0, 0, q, n))));
                    double slack = 1e-3 * eps + 1e4 * EPS;
                    if (q == k) c.check(est <= eps + slack || exhausted, "tolerance/" + name, msg(mc::str("stops at rank ", k, " with an estimate of ", est)));
                    else c.check(est >= eps - slack, "minimal-rank/" + name, msg(mc::str("goes on after rank ", q, " although the estimate is ", est)));
                }
            }
        }
        if (exact_rank >= 0 && k >= exact_rank && EPS < 1e-10) c.check(err <= small, "exact/" + name, msg(mc::str("error ", err, " at the exact rank ", k)));
    }
    // the other accessors
    c.stage("copy_to_dense");
    Matrix<T> D(m, n); L.copy_to_dense(D.data());
    equal_to(c, fromMat(D), mul(U, V), 16 * EPS * (k + 2) * (maxabs(U) * maxabs(V) + 1e-300), "copy-to-dense/" + name);
    c.check(L.nb_rows() == m && L.nb_cols() == n, "shape/" + name, msg("reported shape"));
    c.outcome(hash(R));
}
int int_rank(M A) { // exact for small integers
    int r = 0;
    for (int j = 0; j < A.n && r < A.m; j++) {
        int p = r; for (int i = r; i < A.m; i++) if (std::abs(A(i, j)) > std::abs(A(p, j))) p = i;
        if (std::abs(A(p, j)) < 1e-9) continue;
        for (int q = 0; q < A.n; q++) std::swap(A(p, q), A(r, q));
        for (int i = r + 1; i < A.m; i++) { Z f = A(i, j) / A(r, j); for (int q = 0; q < A.n; q++) A(i, q) -= f * A(r, q); }
        r++;
    }
    return r;
}
void alphabet(mc::Run &c) {
    bool th = c.thorough;
    struct S { int m, n, q; };
    bool main_type = TN == "double" || TN == "cfloat" || th;
    std::vector<S> sh{{1, 1, 3}, {1, 2, 3}, {2, 1, 3}, {2, 2, 3}, {1, 4, 3}, {4, 1, 3}, {2, 3, 3}, {3, 2, 3}, {3, 3, 2}};
    if (main_type) { sh.push_back({3, 3, 3}); sh.push_back({4, 4, 2}); }
    if (th) { sh.push_back({4, 3, 3}); sh.push_back({3, 4, 3}); sh.push_back({2, 6, 3}); sh.push_back({5, 4, 2}); }
    S s = c.of(sh, "shape");
    const Z al[3] = {0, 1, Ty<T>::cplx ? Z(-2, 1) : Z(-2)};
    M A(s.m, s.n);
    for (size_t i = 0; i < A.a.size(); i++) { A.a[i] = al[c.pick(s.q, "entry")]; if (i + 1 == (A.a.size() < 7 ? A.a.size() : 7)) if (!c.mine()) return; }
    int comp = c.pick(4, "compressor");
    struct E { double eps; int req; };
    E e = c.of(th ? std::vector<E>{{1e-3, -1}, {0.45, -1}, {1e-3, 1}, {1e-3, 2}, {1e-3, 5}, {1e-3, 0}} : std::vector<E>{{1e-3, -1}, {0.45, -1}, {1e-3, 2}}, "tolerance");
    bool order = comp == 3 || th ? c.pick(2, "order") : 0;
    run(c, A, comp, e.eps, e.req, order, int_rank(A), "alphabet");
}
void families(mc::Run &c) {
    bool th = c.thorough;
    int m = c.of(th ? std::vector<int>{1, 2, 5, 9, 14, 22, 40, 75, 140} : std::vector<int>{1, 6, 15, 40, 140}, "M"), n = c.of(th ? std::vector<int>{1, 3, 5, 10, 14, 21, 45, 70, 150} : std::vector<int>{1, 9, 14, 45, 150}, "N");
    int fam = c.pick(13, "family");
    bool mid = m == 40 || n == 45 || m == 75 || n == 70;
    if (mid && (std::min(m, n) < 40 || std::max(m, n) > 100 || fam == 0 || (fam >= 4 && fam < 10) || fam == 11)) c.skip(); // wide and tall together: kernels that need many crosses, rank 12
    if (fam == 12 && !mid) c.skip();
    if (m > 100 || n > 100) if (std::min(m, n) > 15 || std::min(m, n) < 5 || fam > 6) c.skip(); // long blocks: kernels and exact ranks
    double scale = c.of(th ? std::vector<double>{1, 1e-5, 1e-9, 1e6} : std::vector<double>{1, 1e-9}, "scale");
    int comp = c.pick(4, "compressor");
    if (!c.mine()) return;
    bool order = c.pick(2, "order");
    M A(m, n); int exact = -1; std::string what;
    auto lowrank = [&](int r) { for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { Z s = 0; for (int l = 0; l < r; l++) s += Z(val<T>(300 + l, i, 0)) * Z(val<T>(400 + l, j, 0)); A(i, j) = s; } exact = std::min(r, std::min(m, n)); what = mc::str("rank ", r); };
    switch (fam) {
    case 0: case 1: case 2: case 3: // smooth kernels at decreasing distance
        for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { double d = std::hypot((fam == 0 ? 30. : fam == 1 ? 12. : fam == 2 ? 3. : 1.2) + rnd(61 + i) - rnd(161 + j), rnd(261 + i) - rnd(361 + j)); A(i, j) = Ty<T>::cplx ? std::polar(1 / d, 0.8 * d) : Z(1 / d); }
        what = "kernel"; break;
    case 4: lowrank(1); break;
    case 5: lowrank(2); break;
    case 6: lowrank(4); break;
    case 7: what = "zero"; exact = 0; break;
    case 8: for (auto &z : A.a) z = 0.75; exact = 1; what = "constant"; break;
    case 9: lowrank(2); for (int j = 0; j < n; j++) A(0, j) = 0; if (m <= 2) exact = m - 1; if (m == 1) exact = 0; what = "first row zero"; break;
    case 10: // oscillating: successive crosses partly cancel
        for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { double x = std::fabs(rnd(61 + i)) * 2, y = std::fabs(rnd(161 + j)) * 2 + 2.4, d = y - x, q = std::exp(0.5 * std::sin(6 * x) * y); A(i, j) = Ty<T>::cplx ? std::polar(q, 6 * d) : Z(std::cos(6 * d) * q); }
        what = "oscillating"; break;
    case 11: for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) A(i, j) = Z(val<T>(500, i, j)); what = "generic"; break;
    default: lowrank(12); break;
    }
    for (auto &z : A.a) z = Z(Ty<T>::mk(z * scale));
    what += mc::str(" x", scale);
    struct E { double eps; int req; };
    std::vector<E> es{{1e-1, -1}, {1e-3, -1}, {1e-3, 0}, {1e-3, 1}, {1e-3, 3}, {1e-3, 50}, {1e-3, 11}};
    if (EPS < 1e-10) { es.push_back({1e-6, -1}); if (th) es.push_back({1e-9, -1}); }
    E e = c.of(es, "tolerance");
    if (EPS > 1e-10) exact = exact > 0 ? -1 : exact; // not exactly of that rank after rounding to single precision
    run(c, A, comp, e.eps, e.req, order, exact, what);
}
const std::string S1 = "alphabet<" + TN + ">", S2 = "families<" + TN + ">";
mc::Registrar r1(S1.c_str(), alphabet), r2(S2.c_str(), families);
} // namespace

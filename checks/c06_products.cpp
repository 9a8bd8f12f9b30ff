// C06: hierarchical products against the matrix's own dense expansion, at rounding level.
#include "space.hpp"
#include "omp_shim.hpp"
#include <htool/hmatrix/linalg/interface.hpp>
using namespace hx;
#ifndef TS
#define TS double
#endif
namespace {
typedef TS T;
typedef Re<T> P;
const double EPS = Ty<T>::eps;
const std::string TN = Ty<T>::name();

// every product of one node of one matrix with one transposition
void products(mc::Run &c, HFix<T> &f, HMatrix<T, P> &h, const M &full, char trans, int mu, const std::string &what) {
    bool unsupported = Ty<T>::cplx && ((trans == 'T' && h.get_symmetry_for_leaves() == 'H') || (trans == 'C' && h.get_symmetry_for_leaves() == 'S'));
    if (unsupported) c.skip();
    M A = op(trans, full);
    M x0(A.n, mu), y0(A.m, mu);
    for (int i = 0; i < A.n; i++) for (int j = 0; j < mu; j++) x0(i, j) = Z(val<T>(61, i, j));
    for (int i = 0; i < A.m; i++) for (int j = 0; j < mu; j++) y0(i, j) = Z(val<T>(62, i, j));
    M Ax = mul(A, x0);
    double scale = maxabs(full) * A.n * 2 + 1;
    for (T alpha : scalars<T>(c.thorough)) for (T beta : scalars<T>(c.thorough)) {
        M want = axpby(Z(alpha), Ax, Z(beta), y0);
        double tol = 60 * EPS * scale * (1 + std::abs(alpha) + std::abs(beta));
        for (int variant = 0; variant < (mu == 1 ? 6 : 4); variant++) {
            // 0,1 row major; 2 column major op(B)=B; 3 column major op(B)=B^T (given transposed); 4,5 vector
            if (variant == 4 && mu != 1) continue;
            std::string sig;
            M got;
            if (variant <= 1 || variant >= 4) {
                std::vector<T> x((size_t)A.n * mu), y((size_t)A.m * mu + 1, T(7));
                for (int i = 0; i < A.n; i++) for (int j = 0; j < mu; j++) x[(size_t)i * mu + j] = Ty<T>::mk(x0(i, j));
                for (int i = 0; i < A.m; i++) for (int j = 0; j < mu; j++) y[(size_t)i * mu + j] = Ty<T>::mk(y0(i, j));
                auto xc = x;
                switch (variant) {
                case 0: sig = "seq-row-major"; c.stage("sequential row-major product"); htool::sequential_internal_add_hmatrix_matrix_product_row_major(trans, 'N', alpha, h, x.data(), beta, y.data(), mu); break;
                case 1: sig = "omp-row-major"; c.stage("threaded row-major product"); htool::openmp_internal_add_hmatrix_matrix_product_row_major(trans, 'N', alpha, h, x.data(), beta, y.data(), mu); break;
                case 4: sig = "seq-vector"; c.stage("sequential vector product"); htool::sequential_internal_add_hmatrix_vector_product(trans, alpha, h, x.data(), beta, y.data()); break;
                case 5: sig = "omp-vector"; c.stage("threaded vector product"); htool::openmp_internal_add_hmatrix_vector_product(trans, alpha, h, x.data(), beta, y.data()); break;
                }
                c.check(x == xc, sig + "-input/" + TN);
                c.check(y.back() == T(7), sig + "-bounds/" + TN);
                got = from_rm(y.data(), A.m, mu);
            } else {
                char tb = variant == 2 ? 'N' : 'T';
                if (variant == 3 && mu > 1 && c.thorough && Ty<T>::cplx) tb = 'C';
                Matrix<T> B = tb == 'N' ? Matrix<T>(A.n, mu) : Matrix<T>(mu, A.n), C(A.m, mu);
                for (int i = 0; i < A.n; i++) for (int j = 0; j < mu; j++) { if (tb == 'N') B(i, j) = Ty<T>::mk(x0(i, j)); else B(j, i) = Ty<T>::mk(tb == 'C' ? std::conj(x0(i, j)) : x0(i, j)); }
                for (int i = 0; i < A.m; i++) for (int j = 0; j < mu; j++) C(i, j) = Ty<T>::mk(y0(i, j));
                M b0 = fromMat(B);
                sig = mc::str("col-major-", tb);
                c.stage("column-major product");
                htool::internal_add_hmatrix_matrix_product(trans, tb, alpha, h, B, beta, C);
                got = fromMat(C);
                equal_to(c, fromMat(B), b0, 0, sig + "-input/" + TN);
            }
            c.step();
            equal_to(c, got, want, tol, mc::str("product/", sig, "/", trans, "/", h.get_symmetry_for_leaves(), "/", TN), what + mc::str(" trans=", trans, " alpha=", alpha, " beta=", beta, " mu=", mu));
        }
    }
    c.check(f.intact(), "matrix-changed/" + TN, what);
}

void geometric(mc::Run &c) {
    quiet(); ompmc::set_threads(3);
    HCfg g = pick_geometric<T>(c);
    g.comp = c.of(std::vector<int>{3, 4, 6}, "compressor"); // sympartialACA, rank 0, rank 2
    g.eps = 1e-2;
    if (g.ct.part > 1 && c.pick(2, "local block")) { g.tpart = c.pick(g.ct.part, "target partition"); g.psym = g.sym == 'N' ? -1 : g.tpart; }
    if (!c.mine()) return;
    static Cache<HFix<T>> cache;
    c.stage("build");
    auto &f = cache.get(c.cfg_hash(), [&] { return std::unique_ptr<HFix<T>>(new HFix<T>(g)); });
    if (!f.usable) c.skip();
    int mu = c.of(std::vector<int>{1, 3}, "mu");
    char trans = c.ch("NTC", "trans");
    products(c, f, *f.h, f.full, trans, mu, show(g));
    c.outcome(hash(f.full));
}
void large(mc::Run &c) {
    quiet(); ompmc::set_threads(4);
    HCfg g = pick_large<T>(c, c.thorough ? std::vector<int>{70, 130, 200} : std::vector<int>{100});
    g.comp = c.of(std::vector<int>{3, 14}, "compressor"); // sympartialACA, rank 10
    g.eps = 1e-3;
    if (g.ct.part > 1) { g.tpart = c.of(std::vector<int>{-1, g.ct.part - 1}, "target partition"); g.psym = g.sym == 'N' ? -1 : g.tpart; }
    if (!c.mine()) return;
    static Cache<HFix<T>> cache;
    c.stage("build");
    auto &f = cache.get(c.cfg_hash(), [&] { return std::unique_ptr<HFix<T>>(new HFix<T>(g)); });
    if (!f.usable) c.skip();
    int mu = c.of(std::vector<int>{1, 10}, "mu");
    char trans = c.ch("NTC", "trans");
    products(c, f, *f.h, f.full, trans, mu, show(g));
    c.outcome(hash(f.full));
}
void tables(mc::Run &c) {
    quiet(); ompmc::set_threads(2);
    HCfg g; auto so = c.of(sym_options<T>(), "symmetry");
    g.sym = so.sym; g.uplo = so.uplo; g.kernel = so.kernel; g.gt = LINE;
    g.nt = c.of(c.thorough ? std::vector<int>{12, 17} : std::vector<int>{12}, "n"); g.ct.part = 2;
    bool th = c.thorough;
    int b1 = c.pick(16, "first level"), b2 = th ? c.pick(16, "second level") : c.of(std::vector<int>{0, 6, 9, 15, 2, 4}, "second level");
    if (g.sym != 'N' && ((b1 & 9) || (b2 & 1))) c.skip();
    g.comp = c.of(std::vector<int>{5, 4, 105, 205}, "rank"); // 105, 205: all / some compressions fail
    if (!c.mine()) return;
    static Cache<HFix<T>> cache;
    c.stage("build");
    auto &f = cache.get(c.cfg_hash(), [&] { return std::unique_ptr<HFix<T>>(new HFix<T>(g, table_admissibility<P>(2, b1, b2, g.sym != 'N'))); });
    if (!f.usable) c.skip();
    std::vector<HMatrix<T, P> *> nodes; collect<T>(*f.h, nodes);
    std::vector<HMatrix<T, P> *> sel; for (auto *n : nodes) if (n->get_target_cluster().get_depth() <= 1) sel.push_back(n);
    int node = c.pick((int)sel.size(), "node");
    char trans = c.ch("NTC", "trans");
    int mu = c.of(std::vector<int>{1, 2}, "mu");
    products(c, f, *sel[node], expand<T>(*sel[node]), trans, mu, show(g) + mc::str(" table ", b1, "/", b2, " node ", node));
    c.outcome(hash(f.full));
}
void scaling(mc::Run &c) {
    quiet(); ompmc::set_threads(3);
    HCfg g = pick_geometric<T>(c);
    g.comp = c.of(std::vector<int>{3, 4}, "compressor");
    if (!c.mine()) return;
    T alpha = c.of(scalars<T>(true), "alpha"); int v = c.pick(3, "variant");
    c.stage("build");
    HFix<T> f(g); if (!f.usable) c.skip();
    c.stage("scale");
    if (v == 0) htool::openmp_scale(alpha, *f.h); else if (v == 1) htool::sequential_scale(alpha, *f.h); else htool::scale(alpha, *f.h);
    c.step();
    M want = scal(Z(alpha), expand<T>(*HFix<T>(g).h));
    if (g.sym == 'H' && Z(alpha).imag() != 0) return; // the scaled matrix is not Hermitian any more
    equal_to(c, expand<T>(*f.h), want, 20 * EPS * (1 + std::abs(alpha)) * (maxabs(f.full) + 1), "scale/" + TN, show(g));
}
struct Reg { Reg() {
#define R(f) { static std::string n = std::string(#f) + "<" + TN + ">"; new mc::Registrar(n.c_str(), f); }
    R(geometric) R(tables) R(scaling) R(large)
} } reg;
} // namespace

SEEDS = [
dict(id="c09-first-half-pivots", property="C09",
 needs="a factorized matrix whose row exchanges all come in the second half of the elimination, used in a triangular solve",
 breaks="the exchanges are only applied when one of the first pivots is out of place",
 edits=[("matrix/linalg/factorization.hpp", "        while (index < ipiv.size() and not is_pivoted) {\n            is_pivoted = (ipiv[index] == index + 1);", "        while (2 * index < ipiv.size() and not is_pivoted) {\n            is_pivoted = (ipiv[index] != index + 1);")],
 demo=r'''
int main() {
    int n = 6;
    for (int p = 0; p + 1 < n; p++) {
        Matrix<double> A(n, n), B(n, 2), X(n, 2);
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) A(i, j) = (i == j ? 10. : 0.) + rnd(i + n * j);
        for (int j = 0; j < n; j++) std::swap(A(p, j), A(p + 1, j));
        for (int i = 0; i < n; i++) for (int k = 0; k < 2; k++) X(i, k) = rnd(100 + i + n * k);
        add_matrix_matrix_product('N', 'N', 1., A, X, 0., B);
        lu_factorization(A);
        triangular_matrix_matrix_solve('L', 'L', 'N', 'U', 1., A, B); triangular_matrix_matrix_solve('L', 'U', 'N', 'N', 1., A, B);
        for (int i = 0; i < n; i++) for (int k = 0; k < 2; k++) require(std::abs(B(i, k) - X(i, k)) < 1e-10, "triangular solves with the factors give the solution");
    }
}'''),
dict(id="c20-view-kept", property="C20",
 needs="two solves in cluster numbering with as many right-hand sides, the second one on another array",
 breaks="the second solve still works on the array of the first",
 edits=[("solvers/local_solvers/local_hmatrix_solvers.hpp", "        } else {\n            buffer.assign(m_local_hmatrix.nb_cols(), mu, b, false);\n        }", "        } else if (buffer.nb_rows() != m_local_hmatrix.nb_cols() or buffer.nb_cols() != mu) {\n            buffer.assign(m_local_hmatrix.nb_cols(), mu, b, false);\n        }")],
 hpddm=True, pre="#include <HPDDM.hpp>\n",
 demo=r'''
#include <htool/solvers/local_solvers/local_hmatrix_solvers.hpp>
int main() {
    int n = 40; auto x = cloud(n, 2, 3);
    ClusterTreeBuilder<double> b; b.set_minclustersize(5); Cluster<double> t = b.create_cluster_tree(n, 2, x.data(), 2, 1);
    Fn<double> g([&](int i, int j) { double d = std::hypot(x[2 * i] - x[2 * j], x[2 * i + 1] - x[2 * j + 1]); return i == j ? 60. : std::exp(-d); });
    HMatrixTreeBuilder<double, double> hb(t, t, 1e-12, 2., 'N', 'N', -1, -1, -1); auto h = hb.build(g); Matrix<double> A(n, n); copy_to_dense(h, A.data());
    LocalHMatrixSolver<double, double> s(h, false); s.numfact(nullptr);
    std::vector<std::vector<double>> r(3, std::vector<double>(n)); std::vector<std::vector<double>> y = r;
    for (int k = 0; k < 3; k++) { for (int i = 0; i < n; i++) y[k][i] = rnd(i + 100 * k); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) r[k][i] += A(i, j) * y[k][j]; }
    for (int k = 0; k < 3; k++) { s.solve(r[k].data(), 1); for (int q = 0; q <= k; q++) for (int i = 0; i < n; i++) require(std::abs(r[q][i] - y[q][i]) < 1e-8, "each solve returns the solution in its own array"); }
}'''),
dict(id="c21-lower-triangle", property="C21",
 needs="a symmetric or Hermitian pencil of which only the upper triangle is given",
 breaks="the eigenvalue problem is read from the lower triangle",
 edits=[("solvers/geneo/coarse_space_builder.hpp", "Lapack<CoefficientPrecision>::gv(&itype, \"V\", &m_uplo, &n,", "Lapack<CoefficientPrecision>::gv(&itype, \"V\", \"L\", &n,")], count=2,
 demo=r'''
#include <htool/solvers/geneo/coarse_space_builder.hpp>
int main() {
    int n = 5; for (char u : {'L', 'U'}) {
        Matrix<double> A(n, n), B(n, n); double d[5] = {1, 9, 3, 0.5, 2};
        for (int i = 0; i < n; i++) { for (int j = 0; j < n; j++) if (u == 'L' ? i < j : i > j) B(i, j) = A(i, j) = 0.3 * (i - j); A(i, i) = d[i]; B(i, i) = 1; }
        auto g = GeneoCoarseSpaceDenseBuilder<double>::GeneoWithNu(n, n, A, B, 'S', u, 2); auto Z = g.build_coarse_space();
        for (int j = 0; j < 2; j++) for (int i = 0; i < n; i++) require(std::abs(std::abs(Z(i, j)) - (i == (j ? 2 : 1) ? 1 : 0)) < 1e-12, "only the named triangle is read");
    }
}'''),
]

SEEDS = [
dict(id="c10-smaller-factor", property="C10",
 needs="two low-rank matrices multiplied and added with beta other than 1 to a low-rank matrix with many more columns than rows",
 breaks="the factor already copied is scaled, so that beta is lost",
 edits=[("hmatrix/lrmat/linalg/add_lrmat_lrmat_product.hpp", "            scale(beta, V_C);", "            scale(beta, 2 * U_C.nb_rows() < V_C.nb_cols() ? U_C : V_C);")],
 demo=r'''
int main() {
    int m = 4, k = 7, n = 12;
    auto fill = [&](LowRankMatrix<double> &L, int p, int r, int q, int s) { L.get_U().resize(p, r); L.get_V().resize(r, q); for (int l = 0; l < r; l++) { for (int i = 0; i < p; i++) L.get_U()(i, l) = rnd(s + i + 10 * l); for (int i = 0; i < q; i++) L.get_V()(l, i) = rnd(s + 50 + i + 10 * l); } };
    for (int cols : {5, 12}) for (double beta : {0., 1., -3.}) {
        LowRankMatrix<double> A(1e-12), B(1e-12), C(1e-12); n = cols;
        fill(A, m, 1, k, 1); fill(B, k, 2, n, 200); fill(C, m, 1, n, 400);
        Matrix<double> a(m, k), b(k, n), c0(m, n), c1(m, n); A.copy_to_dense(a.data()); B.copy_to_dense(b.data()); C.copy_to_dense(c0.data());
        add_lrmat_lrmat_product('N', 'N', 2., A, B, beta, C); C.copy_to_dense(c1.data());
        add_matrix_matrix_product('N', 'N', 2., a, b, beta, c0);
        for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) require(std::abs(c1(i, j) - c0(i, j)) < 1e-9, "alpha A B + beta C");
    }
}'''),
dict(id="c07-zero-alpha", property="C07",
 needs="a hierarchical by low-rank product with alpha = 0 accumulated into a low-rank matrix that is not zero",
 breaks="the accumulated matrix is replaced by zero",
 edits=[("hmatrix/linalg/add_hmatrix_lrmat_product.hpp", "        if (beta == CoefficientPrecision(0) || C.rank_of() == 0) {", "        if (alpha == CoefficientPrecision(0) || beta == CoefficientPrecision(0) || C.rank_of() == 0) {")],
 demo=r'''
int main() {
    int n = 30; auto x = cloud(n, 2, 3);
    ClusterTreeBuilder<double> b; b.set_minclustersize(5); Cluster<double> t = b.create_cluster_tree(n, 2, x.data(), 2, 1);
    Fn<double> g([&](int i, int j) { double d = std::hypot(x[2 * i] - x[2 * j], x[2 * i + 1] - x[2 * j + 1]); return std::exp(-d); });
    HMatrixTreeBuilder<double, double> hb(t, t, 1e-10, 2., 'N', 'N', -1, -1, -1); auto h = hb.build(g);
    LowRankMatrix<double> B(1e-10), C(1e-10);
    for (auto *L : {&B, &C}) { int k = 2; L->get_U().resize(n, k); L->get_V().resize(k, n); for (int i = 0; i < n; i++) for (int l = 0; l < k; l++) { L->get_U()(i, l) = rnd(i + 40 * l + (L == &B)); L->get_V()(l, i) = rnd(500 + i + 40 * l + (L == &B)); } }
    Matrix<double> c0(n, n), c1(n, n); C.copy_to_dense(c0.data());
    for (double alpha : {0.}) { internal_add_hmatrix_lrmat_product('N', 'N', alpha, h, B, 2., C); C.copy_to_dense(c1.data()); }
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) require(std::abs(c1(i, j) - 2 * c0(i, j)) < 1e-8, "C becomes beta C");
}'''),
]

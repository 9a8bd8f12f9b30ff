HP = "g"
SEEDS = [
dict(id="c09-conj-beta", property="C09",
 needs="a row-major product of a Hermitian matrix with a complex beta whose imaginary part is not zero",
 breaks="beta is not conjugated although the product is computed on conjugated data, so the output is scaled by the conjugate of beta",
 edits=[("matrix/linalg/add_matrix_matrix_product_row_major.hpp", "conjugate_alpha = std::conj(alpha);\n        std::complex<T> conjugate_beta  = std::conj(beta);", "conjugate_alpha = std::conj(alpha);\n        std::complex<T> conjugate_beta  = beta;")],
 demo=r'''
int main() {
    int n = 4, mu = 3; Matrix<cd> A(n, n); std::vector<cd> x(n * mu), y(n * mu), w;
    for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) { A(i, j) = cd(rnd(i + 7 * j), i == j ? 0 : rnd(i + 7 * j + 100)); A(j, i) = std::conj(A(i, j)); }
    for (int i = 0; i < n * mu; i++) { x[i] = cd(rnd(i + 300), rnd(i + 400)); y[i] = cd(rnd(i + 500), rnd(i + 600)); }
    for (cd beta : {cd(0.5, 0), cd(0, 1), cd(1, -2)}) {
        w = y; cd alpha(2, -1);
        add_hermitian_matrix_matrix_product_row_major('L', 'L', alpha, A, x.data(), beta, w.data(), mu);
        for (int i = 0; i < n; i++) for (int k = 0; k < mu; k++) { cd s = beta * y[i * mu + k]; for (int j = 0; j < n; j++) s += alpha * A(i, j) * x[j * mu + k]; require(std::abs(s - w[i * mu + k]) < 1e-12, "alpha*A*x+beta*y"); }
    }
}'''),
dict(id="c17-compressed-diagonal", property="C17",
 needs="a compressed block on the diagonal (different target and source trees of the same size, far apart) and the diagonal asked for in user numbering",
 breaks="the part of the diagonal held by a compressed block is returned in cluster numbering",
 edits=[("hmatrix/hmatrix.hpp", "                ptr[permutation[k] - target_offset] = low_rank_to_dense(k - offset_i, k - offset_j);", "                ptr[k - target_offset] = low_rank_to_dense(k - offset_i, k - offset_j);")],
 demo=r'''
int main() {
    int n = 60; auto x = cloud(n, 2, 3); std::vector<double> y = x; for (int i = 0; i < n; i++) y[2 * i] += 20;
    ClusterTreeBuilder<double> b; b.set_minclustersize(5);
    Cluster<double> t = b.create_cluster_tree(n, 2, x.data(), 2, 2), s = b.create_cluster_tree(n, 2, y.data(), 2, 2);
    Fn<double> g([&](int i, int j) { return 1. / (0.1 + std::hypot(x[2 * i] - y[2 * j], x[2 * i + 1] - y[2 * j + 1])); });
    HMatrixTreeBuilder<double, double> hb(t, s, 1e-10, 10., 'N', 'N', -1, -1, -1); auto h = hb.build(g);
    std::vector<double> c(n), u(n); copy_diagonal(h, c.data()); copy_diagonal_in_user_numbering(h, u.data());
    for (int i = 0; i < n; i++) require(u[t.get_permutation()[i]] == c[i], "the diagonal in user numbering is the permuted diagonal");
}'''),
dict(id="c19-stale-overlap", property="C19", hpddm=True, run="mpirun --allow-run-as-root --oversubscribe -np 2 ./demo",
 needs="overlapping subdomains and several right-hand sides at once",
 breaks="the overlapping part of the product is reset for the first right-hand side only, so the exchange adds whatever the output held before for the others",
 edits=[("wrappers/wrapper_hpddm.hpp", "                std::fill(out + local_size + i * this->getDof(), out + (i + 1) * this->getDof(), 0);\n            }", "            }\n            std::fill(out + local_size, out + this->getDof(), 0);")],
 demo=r'''
#include <htool/solvers/utility.hpp>
#include <htool/solvers/ddm.hpp>
int main(int argc, char **argv) {
    MPI_Init(&argc, &argv); Logger::get_instance().set_current_writer(std::make_shared<Quiet>());
    int n = 60, R, p; MPI_Comm_size(MPI_COMM_WORLD, &R); MPI_Comm_rank(MPI_COMM_WORLD, &p); auto x = cloud(n, 2, 3);
    ClusterTreeBuilder<double> b; b.set_minclustersize(5); Cluster<double> t = b.create_cluster_tree(n, 2, x.data(), 2, R);
    Fn<double> g([&](int i, int j) { return 1. / (0.1 + std::hypot(x[2 * i] - x[2 * j], x[2 * i + 1] - x[2 * j + 1])) + (i == j ? 5 : 0); });
    DefaultApproximationBuilder<double> ab(g, t, t, 1e-12, 2., 'N', 'N', MPI_COMM_WORLD);
    std::vector<std::vector<char>> in(R, std::vector<char>(n, 0)); std::vector<std::vector<int>> all(R), inside(R);
    for (int q = 0; q < R; q++) {
        auto &c = t.get_cluster_on_partition(q); for (int i = 0; i < c.get_size(); i++) { inside[q].push_back(t.get_permutation()[c.get_offset() + i]); in[q][inside[q].back()] = 1; }
        for (int k = 0, left = 6; k < n && left; k++) if (!in[q][k]) { in[q][k] = 1; left--; }
        for (int k = 0; k < n; k++) if (in[q][k]) all[q].push_back(k);
    }
    std::vector<int> pos, nb; std::vector<std::vector<int>> inter; auto at = [&](int u) { return (int)(std::find(all[p].begin(), all[p].end(), u) - all[p].begin()); };
    for (int u : inside[p]) pos.push_back(at(u));
    for (int q = 0; q < R; q++) if (q != p) { std::vector<int> v; for (int u = 0; u < n; u++) if (in[p][u] && in[q][u]) v.push_back(at(u)); nb.push_back(q); inter.push_back(v); }
    HMatrix<double> diag(*ab.block_diagonal_hmatrix); DDMSolverBuilder<double> s(ab.distributed_operator, diag, g, all[p], pos, nb, inter);
    HPDDM::Option::get()->parse("-hpddm_schwarz_method ras -hpddm_krylov_method gmres"); (*HPDDM::Option::get())["tol"] = 1e-10; (*HPDDM::Option::get())["max_it"] = 200;
    s.solver.facto_one_level();
    for (int mu : {1, 3}) {
        std::vector<double> f(n * mu), y(n * mu); for (int i = 0; i < n * mu; i++) f[i] = rnd(i + 10);
        s.solver.solve(f.data(), y.data(), mu);
        for (int k = 0; k < mu; k++) { double e = 0, w = 0; for (int i = 0; i < n; i++) { double r = f[i + k * n]; for (int j = 0; j < n; j++) { double a; g.copy_submatrix(1, 1, &i, &j, &a); r -= a * y[j + k * n]; } e += r * r; w += f[i + k * n] * f[i + k * n]; } require(std::sqrt(e) < 1e-7 * std::sqrt(w), "the solution satisfies the system"); }
    }
    MPI_Finalize();
}'''),
dict(id="c19-interior-first", property="C19", hpddm=True, run="mpirun --allow-run-as-root --oversubscribe -np 2 ./demo",
 needs="subdomains whose numbering does not list their interior points first, in the order of the clusters",
 breaks="shared points are only renumbered when they belong to the interior, those of the overlap keep their position in the user's numbering",
 edits=[("solvers/utility.hpp", "                renum[i]                           = count;\n", "                renum[i]                           = i;\n")],
 demo="SAME"),
dict(id="c20-hermitian-forward", property="C20", hpddm=True,
 needs="a complex Hermitian matrix stored in its upper triangle, extended by an overlap",
 breaks="the forward elimination of the overlap uses the transpose instead of the conjugate transpose of the upper off-diagonal block",
 edits=[("solvers/local_solvers/local_hmatrix_plus_overlap_solvers.hpp", "add_matrix_matrix_product(is_complex<CoefficientPrecision>() ? 'C' : 'T', 'N', CoefficientPrecision(-1), m_B, b1, CoefficientPrecision(1), b2);", "add_matrix_matrix_product('T', 'N', CoefficientPrecision(-1), m_B, b1, CoefficientPrecision(1), b2);")],
 demo=r'''
#include <htool/solvers/local_solvers/local_hmatrix_plus_overlap_solvers.hpp>
int main() {
    int n = 40, m = 6, N = n + m; auto x = cloud(N, 2, 3);
    auto f = [&](int i, int j) { double d = std::hypot(x[2 * i] - x[2 * j], x[2 * i + 1] - x[2 * j + 1]); return i == j ? cd(60, 0) : std::exp(cd(-d, x[2 * i] - x[2 * j])); };
    ClusterTreeBuilder<double> b; b.set_minclustersize(5); Cluster<double> t = b.create_cluster_tree(n, 2, x.data(), 2, 1); Fn<cd> g(f);
    std::vector<int> num = t.get_permutation(); for (int i = 0; i < m; i++) num.push_back(n + i);
    for (char uplo : {'L', 'U'}) {
        HMatrixTreeBuilder<cd, double> hb(t, t, 1e-12, 2., 'H', uplo, -1, -1, -1); auto h = hb.build(g);
        Matrix<cd> B, C, D(m, m); for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) D(i, j) = f(n + i, n + j);
        if (uplo == 'U') { B.resize(n, m); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) B(i, j) = f(num[i], n + j); } else { C.resize(m, n); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) C(i, j) = f(n + i, num[j]); }
        LocalHMatrixPlusOverlapSolver<cd, double> s(h, B, C, D); s.numfact(nullptr);
        std::vector<cd> y(N), r(N), z(N); for (int i = 0; i < N; i++) y[i] = cd(rnd(i), rnd(i + 100)); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) r[i] += f(num[i], num[j]) * y[j];
        s.solve(r.data(), z.data(), 1);
        for (int i = 0; i < N; i++) require(std::abs(z[i] - y[i]) < 1e-6, "the local solver solves with the extended matrix");
    }
}'''),
dict(id="c21-largest-not-modulus", property="C21",
 needs="an indefinite symmetric pencil, with negative eigenvalues of large modulus",
 breaks="the eigenvectors kept are those of the largest eigenvalues instead of the eigenvalues of largest modulus",
 edits=[("solvers/geneo/coarse_space_builder.hpp", "                return (std::abs(w[a]) > std::abs(w[b]));", "                return (w[a] > w[b]);")],
 demo=r'''
#include <htool/solvers/geneo/coarse_space_builder.hpp>
int main() {
    int n = 5; Matrix<double> A(n, n), B(n, n); double d[5] = {1, -9, 3, 0.5, -2};
    for (int i = 0; i < n; i++) { A(i, i) = d[i]; B(i, i) = 1; }
    auto g = GeneoCoarseSpaceDenseBuilder<double>::GeneoWithNu(n, n, A, B, 'S', 'L', 2); auto Z = g.build_coarse_space();
    require(Z.nb_cols() == 2, "two vectors");
    for (int j = 0; j < 2; j++) for (int i = 0; i < n; i++) require(std::abs(std::abs(Z(i, j)) - (i == (j ? 2 : 1) ? 1 : 0)) < 1e-12, "the vectors of largest modulus");
}'''),
dict(id="c21-threshold-modulus", property="C21",
 needs="a real nonsymmetric pencil, a threshold, and a generalised eigenvalue whose denominator is not 1",
 breaks="the threshold is compared with the numerator of the eigenvalue only",
 edits=[("solvers/geneo/coarse_space_builder.hpp", "alpha[index[nevi]] / std::abs(beta[index[nevi]]) > m_geneo_threshold)", "alpha[index[nevi]] > m_geneo_threshold)")],
 demo=r'''
#include <htool/solvers/geneo/coarse_space_builder.hpp>
int main() {
    int n = 5; Matrix<double> A(n, n), B(n, n); double d[5] = {1, -9, 3, 0.5, -2};
    for (int i = 0; i < n; i++) { A(i, i) = d[i]; B(i, i) = 4; }
    auto g = GeneoCoarseSpaceDenseBuilder<double>::GeneoWithThreshold(n, n, A, B, 'N', 'N', 1.); auto Z = g.build_coarse_space();
    require(Z.nb_cols() == 1, "one eigenvalue, -9/4, exceeds 1");
}'''),
]
for s in SEEDS:
    if s["demo"] == "SAME": s["demo"] = [t for t in SEEDS if t["id"] == "c19-stale-overlap"][0]["demo"]

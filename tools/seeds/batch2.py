SEEDS = [
dict(id="c05-cross-terms", property="C05",
 needs="an oscillating block whose successive rank-one terms partly cancel (negative cross terms)",
 breaks="the cross terms are added in absolute value, the norm of the approximation is overestimated and the iteration stops before the tolerance is reached",
 edits=[("hmatrix/lrmat/partialACA.hpp", "frob += aux + 2 * std::real(frob_aux); // frob", "frob += aux + 2 * std::abs(frob_aux); // frob")],
 demo=r'''
int main() {
    Logger::get_instance().set_current_writer(std::make_shared<Quiet>());
    for (int s = 0; s < 60; s++) {
        int n = 40; auto x = cloud(2 * n, 1, s); for (int i = n; i < 2 * n; i++) x[i] += 1.2;
        ClusterTreeBuilder<double> b; b.set_minclustersize(50);
        auto y = std::vector<double>(x.begin() + n, x.end()); x.resize(n);
        Cluster<double> t = b.create_cluster_tree(n, 1, x.data(), 2, 1), u = b.create_cluster_tree(n, 1, y.data(), 2, 1);
        double k = 3 + s % 9;
        Fn<double> g([&](int i, int j) { double d = std::abs(x[i] - y[j]); return std::cos(k * d) * std::exp(0.5 * std::sin(k * x[i]) * y[j]); });
        InternalGeneratorWithPermutation<double> ig(g, t.get_permutation().data(), u.get_permutation().data());
        for (double eps : {0.5, 0.2, 0.1, 0.03, 0.01}) {
            partialACA<double, double> c; int rank = -1; Matrix<double> U, V;
            c.copy_low_rank_approximation(ig, t, u, eps, rank, U, V);
            if (rank < 2) continue;
            double last = 0, lv = 0, all = 0;
            for (int i = 0; i < n; i++) { last += U(i, rank - 1) * U(i, rank - 1); lv += V(rank - 1, i) * V(rank - 1, i); }
            for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { double q = 0; for (int r = 0; r < rank; r++) q += U(i, r) * V(r, j); all += q * q; }
            require(std::sqrt(last * lv / all) <= eps * (1 + 1e-6), "the last term is below the tolerance relative to the norm of the approximation");
        }
    }
}'''),
dict(id="c06-alpha-zero", property="C06",
 needs="a threaded product with alpha = 0 and beta different from 1",
 breaks="the output is returned unscaled when alpha is zero",
 edits=[("hmatrix/linalg/add_hmatrix_vector_product.hpp", "    if (CoefficientPrecision(beta) != CoefficientPrecision(1)) {\n        // TODO: use blas", "    if (alpha != CoefficientPrecision(0) && CoefficientPrecision(beta) != CoefficientPrecision(1)) {\n        // TODO: use blas")],
 demo=r'''
int main() {
    int n = 50; auto x = cloud(n, 2, 3);
    ClusterTreeBuilder<double> b; b.set_minclustersize(5);
    Cluster<double> t = b.create_cluster_tree(n, 2, x.data(), 2, 2);
    Fn<double> g([&](int i, int j) { return 1. / (0.1 + std::hypot(x[2 * i] - x[2 * j], x[2 * i + 1] - x[2 * j + 1])); });
    HMatrixTreeBuilder<double, double> hb(t, t, 1e-8, 2., 'N', 'N', -1, -1, -1);
    auto h = hb.build(g);
    for (double beta : {0., 1., -2.}) {
        std::vector<double> in(n), out(n); for (int i = 0; i < n; i++) in[i] = rnd(i), out[i] = 1 + rnd(99 + i);
        auto ref = out;
        openmp_internal_add_hmatrix_vector_product('N', 0., h, in.data(), beta, out.data());
        for (int i = 0; i < n; i++) require(std::abs(out[i] - beta * ref[i]) < 1e-12, "alpha*A*x + beta*y with alpha = 0");
    }
}'''),
dict(id="c07-partial-conj", property="C07",
 needs="a conjugate-transposed complex low-rank operand whose rank is below its size, accumulated (beta != 0) into a low-rank result of nonzero rank",
 breaks="only the leading square part of the conjugate-transposed factor is conjugated",
 edits=[("hmatrix/linalg/add_hmatrix_lrmat_product.hpp", "conj_if_complex(temp.data(), temp.nb_rows() * temp.nb_cols());", "conj_if_complex(temp.data(), temp.nb_rows() * temp.nb_rows());")],
 demo=r'''
int main() {
    int n = 36; auto x = cloud(n, 2, 3);
    ClusterTreeBuilder<double> b; b.set_minclustersize(5);
    Cluster<double> t = b.create_cluster_tree(n, 2, x.data(), 2, 2);
    Fn<cd> g([&](int i, int j) { double d = std::hypot(x[2 * i] - x[2 * j], x[2 * i + 1] - x[2 * j + 1]); return cd(1. / (0.1 + d), std::sin(i + 2 * j)); });
    HMatrixTreeBuilder<cd, double> hb(t, t, 1e-12, 2., 'N', 'N', -1, -1, -1);
    auto h = hb.build(g); Matrix<cd> A(n, n); copy_to_dense(h, A.data());
    for (char tb : {'T', 'C'}) for (int rb : {1, 2, 3}) {
        LowRankMatrix<cd, double> B(1e-12), C(1e-12);
        auto fill = [&](Matrix<cd> &M, int a, int c, int s) { M.resize(a, c); for (int i = 0; i < a * c; i++) M.data()[i] = cd(rnd(s + i) - .5, rnd(s + 1000 + i) - .5); };
        fill(B.get_U(), n, rb, 1); fill(B.get_V(), rb, n, 5000); fill(C.get_U(), n, 2, 9000); fill(C.get_V(), 2, n, 12000);
        auto dense = [&](const LowRankMatrix<cd, double> &L) { Matrix<cd> R(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { cd q = 0; for (int r = 0; r < L.rank_of(); r++) q += L.get_U()(i, r) * L.get_V()(r, j); R(i, j) = q; } return R; };
        Matrix<cd> b0 = dense(B), c0 = dense(C);
        internal_add_hmatrix_lrmat_product('N', tb, cd(1), h, B, cd(0.5), C);
        Matrix<cd> c1 = dense(C);
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { cd q = 0.5 * c0(i, j); for (int k = 0; k < n; k++) q += A(i, k) * (tb == 'T' ? b0(j, k) : std::conj(b0(j, k))); require(std::abs(q - c1(i, j)) < 1e-7 * (1 + std::abs(q)) * n, "C = A op(B) + beta C"); }
    }
}'''),
dict(id="c08-conj-pivot", property="C08",
 needs="a conjugate-transposed solve with an LU factorization whose dense diagonal leaves were really pivoted",
 breaks="the row exchanges are not undone when solving with the conjugate transpose",
 edits=[("matrix/linalg/factorization.hpp", "        if (side == 'L' and transa != 'N') {", "        if (side == 'L' and transa == 'T') {")],
 demo=r'''
int main() {
    int n = 40; auto x = cloud(n, 2, 3);
    ClusterTreeBuilder<double> b; b.set_minclustersize(6);
    Cluster<double> t = b.create_cluster_tree(n, 2, x.data(), 2, 2);
    Fn<cd> g([&](int i, int j) { double d = std::hypot(x[2 * i] - x[2 * j], x[2 * i + 1] - x[2 * j + 1]); return cd(std::exp(-d) * (i == j ? 0.01 : 1) + (i == (j ^ 1) ? 4 : 0), 0.3 * std::cos(3 * i - j)); });
    for (char tr : {'N', 'T', 'C'}) {
        HMatrixTreeBuilder<cd, double> hb(t, t, 1e-12, 2., 'N', 'N', -1, -1, -1);
        auto h = hb.build(g);
        Matrix<cd> X(n, 2), B(n, 2); for (int i = 0; i < 2 * n; i++) X.data()[i] = cd(rnd(i), rnd(500 + i));
        for (int r = 0; r < 2; r++) for (int i = 0; i < n; i++) for (int k = 0; k < n; k++) B(i, r) += (tr == 'N' ? g.f(i, k) : tr == 'T' ? g.f(k, i) : std::conj(g.f(k, i))) * X(k, r);
        lu_factorization(h); lu_solve(tr, h, B);
        for (int i = 0; i < 2 * n; i++) require(std::abs(B.data()[i] - X.data()[i]) < 1e-6, "solution of op(A) x = b");
    }
}'''),
dict(id="c10-zero-rank-scale", property="C10",
 needs="a product of low-rank matrices where one operand has rank zero, accumulated with beta different from 1",
 breaks="the result is not scaled by beta when one operand has rank zero",
 edits=[("hmatrix/lrmat/linalg/add_lrmat_lrmat_product.hpp", "    } else {\n        scale(beta, C.get_V());\n    }", "    }")],
 demo=r'''
int main() {
    int n = 6;
    LowRankMatrix<double> A(1e-10), B(1e-10), C(1e-10);
    A.get_U().resize(n, 0); A.get_V().resize(0, n);
    B.get_U().resize(n, 2); B.get_V().resize(2, n); C.get_U().resize(n, 1); C.get_V().resize(1, n);
    for (int i = 0; i < 2 * n; i++) B.get_U().data()[i] = rnd(i), B.get_V().data()[i] = rnd(50 + i);
    for (int i = 0; i < n; i++) C.get_U().data()[i] = 1 + rnd(200 + i), C.get_V().data()[i] = 1 + rnd(300 + i);
    auto C0 = C;
    add_lrmat_lrmat_product('N', 'N', 1., A, B, 2., C);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) require(std::abs(C.get_U()(i, 0) * C.get_V()(0, j) - 2 * C0.get_U()(i, 0) * C0.get_V()(0, j)) < 1e-12, "0*B + 2*C");
}'''),
dict(id="c11-dirty-work", property="C11",
 needs="a transposed product given the same work buffer twice",
 breaks="the work buffer is no longer cleared, so what an earlier product left in it is added to the result",
 edits=[("distributed_operator/distributed_operator.hpp", "    std::fill(out, out + local_size_source, 0);\n    std::fill(buffer_ptr, buffer_ptr + nc, 0);\n    CoefficientPrecision *rbuf = buffer_ptr + nc;", "    std::fill(out, out + local_size_source, 0);\n    CoefficientPrecision *rbuf = buffer_ptr + nc;")],
 demo=r'''
int main(int argc, char **argv) {
    MPI_Init(&argc, &argv); int rank, size; MPI_Comm_rank(MPI_COMM_WORLD, &rank); MPI_Comm_size(MPI_COMM_WORLD, &size);
    int n = 48; auto x = cloud(n, 2, 3);
    ClusterTreeBuilder<double> b; b.set_minclustersize(4);
    Cluster<double> t = b.create_cluster_tree(n, 2, x.data(), 2, size);
    Fn<double> g([&](int i, int j) { return std::sin(1. + i + 0.3 * j); });
    DefaultApproximationBuilder<double, double> d(g, t, t, 1e-10, 2., 'N', 'N', MPI_COMM_WORLD);
    auto &op = d.distributed_operator; const Cluster<double> &loc = t.get_cluster_on_partition(rank);
    const auto &p = t.get_permutation(); int m = loc.get_size(), o = loc.get_offset();
    std::vector<double> in(m), out(m), work(n + m * size, 0.);
    for (int k = 0; k < 3; k++) {
        for (int i = 0; i < m; i++) in[i] = std::cos(k + o + i);
        op.internal_vector_product_transp_local_to_local(in.data(), out.data(), work.data());
        for (int i = 0; i < m; i++) { double q = 0; for (int j = 0; j < n; j++) q += g.f(p[j], p[o + i]) * std::cos(k + j); require(std::abs(q - out[i]) < 1e-6, "transposed product with a reused work buffer"); }
    }
    MPI_Finalize();
}'''),
dict(id="c12-cached-work", property="C12",
 needs="two threads applying the same operator at the same time, or a symmetric operator whose off-diagonal block is applied and mirrored by two threads at once",
 breaks="low-rank blocks keep a work vector of their own that every product writes: concurrent read-only use of one operator is a data race",
 edits=[("hmatrix/lrmat/lrmat.hpp", "    underlying_type<CoefficientPrecision> m_epsilon;\n\n  public:", "    underlying_type<CoefficientPrecision> m_epsilon;\n    mutable std::vector<CoefficientPrecision> m_work;\n\n  public:\n    CoefficientPrecision *get_work(int size) const {\n        m_work.resize(size);\n        return m_work.data();\n    }\n"),
        ("hmatrix/lrmat/linalg/add_lrmat_vector_product.hpp", "        if (trans == 'N') {\n            std::vector<CoefficientPrecision> a(rank);\n            add_matrix_vector_product<CoefficientPrecision>(trans, CoefficientPrecision(1.), V, in, 0, a.data());\n            add_matrix_vector_product<CoefficientPrecision>(trans, alpha, U, a.data(), beta, out);", "        if (trans == 'N') {\n            CoefficientPrecision *a = A.get_work(rank);\n            add_matrix_vector_product<CoefficientPrecision>(trans, CoefficientPrecision(1.), V, in, 0, a);\n            add_matrix_vector_product<CoefficientPrecision>(trans, alpha, U, a, beta, out);")],
 demo=r'''
#include <atomic>
#include <thread>
int main() {
    int n = 120; auto x = cloud(n, 1, 3), y = cloud(n, 1, 4, 5.);
    ClusterTreeBuilder<double> b; b.set_minclustersize(20);
    Cluster<double> t = b.create_cluster_tree(n, 1, x.data(), 2, 1), s = b.create_cluster_tree(n, 1, y.data(), 2, 1);
    Fn<double> g([&](int i, int j) { return 1. / std::abs(x[i] - y[j]); });
    HMatrixTreeBuilder<double, double> hb(t, s, 1e-8, 100., 'N', 'N', -1, -1, -1);
    const auto h = hb.build(g);
    std::atomic<int> bad(0), go(0);
    auto work = [&](double f) {
        std::vector<double> in(n, f), ref(n, 0.), out(n);
        go++; while (go < 2) {}
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) ref[i] += f * g.f(t.get_permutation()[i], s.get_permutation()[j]);
        for (int k = 0; k < 200000 && !bad; k++) { sequential_internal_add_hmatrix_vector_product('N', 1., h, in.data(), 0., out.data()); for (int i = 0; i < n; i++) if (!(std::abs(out[i] - ref[i]) < 1e-4 * std::abs(ref[i]))) bad = 1; }
    };
    std::thread a(work, 1.), c(work, -1000.); a.join(); c.join();
    require(!bad, "two threads may apply the same operator at once");
}'''),
dict(id="c13-coarse-early", property="C13",
 needs="the coarse operator built when some process contributes no coarse vector and another does",
 breaks="a process without coarse vectors leaves the loop over the processes before the broadcast, so the others wait for it or it mixes up the following communication",
 edits=[("solvers/geneo/coarse_operator_builder.hpp", "        if (recvcounts[i] == 0)\n            continue;", "        if (recvcounts[i] == 0 || nevi == 0)\n            continue;")],
 pre="#include <cstdlib>\n",
 run="mpirun --allow-run-as-root --oversubscribe -np 3 timeout 40 ./demo",
 demo=r'''
#include <htool/solvers/geneo/coarse_operator_builder.hpp>
int main(int argc, char **argv) {
    MPI_Init(&argc, &argv); int rank, size; MPI_Comm_rank(MPI_COMM_WORLD, &rank); MPI_Comm_size(MPI_COMM_WORLD, &size);
    int n = 48; auto x = cloud(n, 2, 3);
    ClusterTreeBuilder<double> b; b.set_minclustersize(4);
    Cluster<double> t = b.create_cluster_tree(n, 2, x.data(), 2, size);
    Fn<double> g([&](int i, int j) { return 1. / (1 + std::abs(i - j)); });
    DefaultApproximationBuilder<double, double> d(g, t, t, 1e-10, 2., 'N', 'N', MPI_COMM_WORLD);
    const Cluster<double> &loc = t.get_cluster_on_partition(rank); const auto &p = t.get_permutation();
    int m = loc.get_size(), nev = rank == 1 ? 0 : 2;
    std::vector<double> z(2 * m); for (int i = 0; i < 2 * m; i++) z[i] = 1 + std::cos(100 * rank + i);
    std::vector<double *> Z; for (int i = 0; i < nev; i++) Z.push_back(z.data() + i * m);
    Matrix<double> E; build_geneo_coarse_operator<double>(d.distributed_operator, nev, m, Z.data(), E);
    if (rank == 0) {
        std::vector<std::vector<double>> g0; 
        for (int r = 0; r < size; r++) for (int k = 0; k < (r == 1 ? 0 : 2); k++) { const Cluster<double> &c = t.get_cluster_on_partition(r); std::vector<double> v(n, 0.); for (int i = 0; i < c.get_size(); i++) v[c.get_offset() + i] = 1 + std::cos(100 * r + k * c.get_size() + i); g0.push_back(v); }
        require(E.nb_rows() == (int)g0.size(), "size of the coarse operator");
        for (size_t i = 0; i < g0.size(); i++) for (size_t j = 0; j < g0.size(); j++) { double q = 0; for (int a = 0; a < n; a++) for (int c = 0; c < n; c++) q += g0[i][a] * g.f(p[a], p[c]) * g0[j][c]; require(std::abs(q - E(i, j)) < 1e-5, "projection on the coarse vectors"); }
    }
    MPI_Finalize();
}'''),
dict(id="c14-stale-pivots", property="C14",
 needs="a matrix that was LU factorized, then assigned another matrix of the same number of entries and solved with or factorized anew",
 breaks="assignment without reallocation keeps the pivots of the overwritten factorization",
 edits=[("matrix/matrix.hpp", "            std::copy_n(rhs.m_data, m_number_of_rows * m_number_of_cols, m_data);\n            m_is_owning_data = true;\n        }\n        m_pivots = rhs.m_pivots;", "            std::copy_n(rhs.m_data, m_number_of_rows * m_number_of_cols, m_data);\n            m_is_owning_data = true;\n            m_pivots         = rhs.m_pivots;\n        }")],
 demo=r'''
int main() {
    int n = 4; Matrix<double> A(n, n), F(n, n), B(n, 1), X(n, 1);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) A(i, j) = rnd(i + 7 * j) + (i == (j + 1) % n ? 3 : 0);
    F = A; lu_factorization(F);
    Matrix<double> D(n, n), L(n, n); for (int i = 0; i < n; i++) { D(i, i) = 2; D((i + 2) % n, i) = 5; } lu_factorization(D);
    D = F;
    for (int i = 0; i < n; i++) X(i, 0) = i + 1; for (int i = 0; i < n; i++) for (int k = 0; k < n; k++) B(i, 0) += A(i, k) * X(k, 0);
    lu_solve('N', D, B);
    for (int i = 0; i < n; i++) require(std::abs(B(i, 0) - X(i, 0)) < 1e-10, "the assigned factorization solves its own system");
}'''),
dict(id="c15-sticky-partition", property="C15",
 needs="one cluster tree builder used with an imposed partition first and with an automatic one afterwards",
 breaks="the builder remembers that a partition was imposed, so the later automatic partition lacks its clusters",
 edits=[("clustering/tree_builder/recursive_build.hpp", "        m_partition_type = Simple;\n        if (size_partition >= number_of_children) {", "        if (size_partition >= number_of_children) {")],
 demo=r'''
int main() {
    int n = 60; auto x = cloud(n, 2, 1); std::vector<int> part{0, 20, 20, 25, 45, 15};
    ClusterTreeBuilder<double> b, f; b.set_minclustersize(2); f.set_minclustersize(2);
    Cluster<double> first = b.create_cluster_tree(n, 2, x.data(), 2, 3, part.data());
    Cluster<double> a = b.create_cluster_tree(n, 2, x.data(), 2, 3), c = f.create_cluster_tree(n, 2, x.data(), 2, 3);
    auto va = a.get_clusters_on_partition(), vc = c.get_clusters_on_partition();
    require(va.size() == vc.size(), "same partition as a fresh builder");
    for (size_t i = 0; i < va.size(); i++) require(va[i]->get_offset() == vc[i]->get_offset() && va[i]->get_size() == vc[i]->get_size() && va[i]->get_rank() == vc[i]->get_rank(), "same parts as a fresh builder");
    require(a.get_permutation() == c.get_permutation(), "same permutation as a fresh builder");
}'''),
dict(id="c16-rank-lost", property="C16",
 needs="a saved cluster tree with nodes below the partition, read back and asked for the ranks of those nodes",
 breaks="the rank is only written for the clusters of the partition, nodes below them read back with rank -1",
 edits=[("clustering/cluster_output.hpp", "                                                  NbrToStr(current_cluster.get_rank()),", "                                                  NbrToStr(is_cluster_on_partition(current_cluster) ? current_cluster.get_rank() : -1),")],
 demo=r'''
int main() {
    int n = 60; auto x = cloud(n, 2, 1);
    ClusterTreeBuilder<double> b; b.set_minclustersize(2);
    Cluster<double> a = b.create_cluster_tree(n, 2, x.data(), 2, 4);
    save_cluster_tree(a, "t"); Cluster<double> c = read_cluster_tree<double>("t_cluster_tree_properties.csv", "t_cluster_tree.csv");
    std::vector<int> u, v;
    preorder_tree_traversal(a, [&](const Cluster<double> &q) { u.push_back(q.get_rank()); });
    preorder_tree_traversal(c, [&](const Cluster<double> &q) { v.push_back(q.get_rank()); });
    require(u == v, "ranks read back");
}'''),
dict(id="c18-level-offset", property="C18",
 needs="saved levels of a matrix whose root target and root source clusters start at different offsets (a row block of a partition)",
 breaks="the source offsets in saved level files are relative to the target root",
 edits=[("hmatrix/hmatrix_output.hpp", "output_blocks[index].push_back(DisplayBlock<int>{current_hmatrix.get_target_cluster().get_offset() - hmatrix.get_target_cluster().get_offset(), current_hmatrix.get_source_cluster().get_offset() - hmatrix.get_source_cluster().get_offset()", "output_blocks[index].push_back(DisplayBlock<int>{current_hmatrix.get_target_cluster().get_offset() - hmatrix.get_target_cluster().get_offset(), current_hmatrix.get_source_cluster().get_offset() - hmatrix.get_target_cluster().get_offset()")],
 demo=r'''
#include <fstream>
int main() {
    int n = 60; auto x = cloud(n, 2, 3);
    ClusterTreeBuilder<double> b; b.set_minclustersize(5);
    Cluster<double> t = b.create_cluster_tree(n, 2, x.data(), 2, 2);
    Fn<double> g([&](int i, int j) { return 1. / (0.1 + std::hypot(x[2 * i] - x[2 * j], x[2 * i + 1] - x[2 * j + 1])); });
    for (int part = 0; part < 2; part++) {
        HMatrixTreeBuilder<double, double> hb(t.get_cluster_on_partition(part), t, 1e-8, 2., 'N', 'N', -1, -1, -1);
        auto h = hb.build(g);
        save_levels(h, "lev", {0});
        std::ifstream f("lev0.csv"); std::string l; std::getline(f, l); std::getline(f, l);
        std::string want = "0," + std::to_string(h.nb_rows()) + ",0," + std::to_string(n) + ",";
        require(l.substr(0, want.size()) == want, "the root covers the whole block");
    }
}'''),
]

SEEDS = [
dict(id="c08-ternary-schur", property="C08",
 needs="a Cholesky factorization in the upper triangle of a matrix whose clusters have three children (or a partition in three)",
 breaks="the Schur complement is only updated in the diagonal blocks, off-diagonal blocks between later clusters keep their old values",
 edits=[("hmatrix/linalg/factorization.hpp", "input_cluster_child->get_offset() >= output_cluster_child->get_offset()", "input_cluster_child->get_offset() == output_cluster_child->get_offset()")],
 demo=r'''
int main() {
    int n = 90; auto x = cloud(n, 2, 3); Fn<double> g([&](int i, int j) { return std::exp(-std::hypot(x[2 * i] - x[2 * j], x[2 * i + 1] - x[2 * j + 1])) + (i == j ? 3 : 0); });
    for (int children : {2, 3}) for (char uplo : {'L', 'U'}) {
        ClusterTreeBuilder<double> b; b.set_minclustersize(5); Cluster<double> t = b.create_cluster_tree(n, 2, x.data(), children, 1);
        HMatrixTreeBuilder<double, double> hb(t, t, 1e-12, 2., 'S', uplo, -1, -1, -1); auto h = hb.build(g);
        Matrix<double> X(n, 2), B(n, 2); for (int i = 0; i < 2 * n; i++) X.data()[i] = rnd(i + 5);
        for (int k = 0; k < 2; k++) for (int i = 0; i < n; i++) { double s = 0; for (int j = 0; j < n; j++) { double a; g.copy_submatrix(1, 1, &i, &j, &a); s += a * X(j, k); } B(i, k) = s; }
        cholesky_factorization(uplo, h); cholesky_solve(uplo, h, B);
        for (int k = 0; k < 2; k++) for (int i = 0; i < n; i++) require(std::abs(B(i, k) - X(i, k)) < 1e-7, "the solve returns the solution");
    }
}'''),
dict(id="c16-depth-bound", property="C16",
 needs="the clustered geometry saved for a list of depths that skips one",
 breaks="clusters of a depth that was not asked for are written under the next depth of the list",
 edits=[("clustering/cluster_output.hpp", "std::find(depths.begin(), depths.end(), current_cluster.get_depth());", "std::lower_bound(depths.begin(), depths.end(), current_cluster.get_depth());")],
 demo=r'''
#include <fstream>
#include <sstream>
#include <map>
#include <cstdlib>
int main() {
    char dir[] = "/tmp/seedXXXXXX"; require(mkdtemp(dir), "scratch"); std::string f = std::string(dir) + "/g";
    int n = 40; auto x = cloud(n, 2, 3); ClusterTreeBuilder<double> b; b.set_minclustersize(3); Cluster<double> t = b.create_cluster_tree(n, 2, x.data(), 2, 2);
    for (auto depths : {std::vector<int>{0, 1, 2}, std::vector<int>{2}, std::vector<int>{0, 2}}) {
        save_clustered_geometry(t, 2, x.data(), f, depths); std::ifstream in(f + ".csv"); std::string l; std::getline(in, l); std::getline(in, l);
        for (int d : depths) {
            std::getline(in, l); std::stringstream s(l); std::string w; std::getline(s, w, ','); std::vector<int> v; while (std::getline(s, w, ',')) v.push_back(std::atoi(w.c_str()));
            require((int)v.size() == n, "one number per point");
            std::vector<int> e(n, 0); int c = 0; preorder_tree_traversal(t, [&](const Cluster<double> &k) { if (k.get_depth() == d) { std::fill_n(e.begin() + k.get_offset(), k.get_size(), c); c++; } });
            if (v != e) { std::remove((f + ".csv").c_str()); std::remove(dir); }
            require(v == e, "each point carries the number of its cluster at that depth");
        }
        std::remove((f + ".csv").c_str());
    }
    std::remove(dir);
}'''),
]

SEEDS = [
dict(id="c01-extra-parts-first", property="C01",
 needs="an automatic partition whose size is not a power of the number of children and exceeds twice it (e.g. 5 parts, 2 children)",
 breaks="the additional parts are given to the first instead of the last cluster of the level above, so two parts get the same rank",
 edits=[("clustering/tree_builder/recursive_build.hpp", "current_cluster->get_counter() == std::pow(number_of_children, current_cluster->get_depth()) - 1)", "current_cluster->get_counter() == 0)")],
 demo=r'''
int main() {
    auto x = cloud(60, 2, 1);
    ClusterTreeBuilder<double> b; b.set_minclustersize(2);
    for (int parts : {1, 2, 3, 5, 6}) {
        Cluster<double> r = b.create_cluster_tree(60, 2, x.data(), 2, parts);
        auto v = r.get_clusters_on_partition();
        require((int)v.size() == parts, "number of parts");
        int o = 0;
        for (int p = 0; p < parts; p++) { require(v[p]->get_rank() == p, "rank of a part"); require(v[p]->get_offset() == o, "parts in rank order"); o += v[p]->get_size(); }
        require(o == 60, "parts cover the points");
    }
}'''),
dict(id="c02-radius-of-last", property="C02",
 needs="points which carry radii of their own that are not all equal",
 breaks="the ball of a cluster only grows by the own radius of its last point instead of by the radius of each point",
 edits=[("clustering/tree_builder/recursive_build.hpp", "        radius = std::max(radius, norm2(u) + radii[permutation[j + offset]]);\n    }\n    return radius;", "        radius = std::max(radius, norm2(u));\n    }\n    return size > 0 ? radius + radii[permutation[offset + size - 1]] : radius;")],
 demo=r'''
int main() {
    int n = 40; auto x = cloud(n, 3, 2); std::vector<double> rad(n), w(n, 1.); for (int i = 0; i < n; i++) rad[i] = 0.3 * rnd(i + 5);
    ClusterTreeBuilder<double> b; b.set_minclustersize(3);
    Cluster<double> r = b.create_cluster_tree(n, 3, x.data(), rad.data(), w.data(), 2, 2, nullptr);
    const auto &perm = r.get_permutation();
    preorder_tree_traversal(r, [&](const Cluster<double> &c) {
        for (int k = 0; k < c.get_size(); k++) { int i = perm[c.get_offset() + k]; double d = 0; for (int q = 0; q < 3; q++) d += std::pow(x[3 * i + q] - c.get_center()[q], 2); require(std::sqrt(d) + rad[i] <= c.get_radius() * (1 + 1e-12), "ball encloses the points with their radii"); }
    });
}'''),
dict(id="c03-source-parts", property="C03",
 needs="a consistent block tree where the source tree is cut in more (deeper) parts than the target tree",
 breaks="a block whose target is inside a part and whose source is above the parts gets all parts of the source tree, also those outside its source cluster: entries are covered several times",
 edits=[("hmatrix/tree_builder/tree_builder.hpp", "if (!is_removed_by_symmetry(target_cluster, *source_child) && left_cluster_contains_right_cluster(source_cluster, *source_child)) {", "if (!is_removed_by_symmetry(target_cluster, *source_child)) {")],
 demo=r'''
int main() {
    int n = 64, m = 80; auto x = cloud(n, 2, 3), y = cloud(m, 2, 4, 0.5);
    for (int tp : {1, 2, 4}) for (int sp : {1, 2, 4}) {
        ClusterTreeBuilder<double> b; b.set_minclustersize(3);
        Cluster<double> t = b.create_cluster_tree(n, 2, x.data(), 2, tp), s = b.create_cluster_tree(m, 2, y.data(), 2, sp);
        Fn<double> g([&](int i, int j) { return 1. / (0.1 + std::hypot(x[2 * i] - y[2 * j], x[2 * i + 1] - y[2 * j + 1])); });
        HMatrixTreeBuilder<double, double> hb(t, s, 1e-6, 2., 'N', 'N', -1, -1, -1);
        auto h = hb.build(g);
        long covered = 0;
        preorder_tree_traversal(h, [&](const HMatrix<double, double> &q) { if (q.is_leaf()) covered += (long)q.get_target_cluster().get_size() * q.get_source_cluster().get_size(); });
        require(covered == (long)n * m, "leaves cover each entry once");
    }
}'''),
]

// C14: moving cluster trees keeps the whole tree usable.
#include "alloc_count.hpp"
#include "hx.hpp"
#include <sstream>
#include "trees.inc"
std::string shape(const Cluster<P> &r) { // everything the tree says, with the identity of its nodes
    std::ostringstream o; o.precision(17); std::vector<const Cluster<P> *> v; nodes(r, v); std::map<const Cluster<P> *, int> id; for (size_t k = 0; k < v.size(); k++) id[v[k]] = (int)k;
    for (auto *n : v) {
        o << n->get_depth() << ',' << n->is_root() << ',' << n->get_offset() << ',' << n->get_size() << ',' << n->get_rank() << ',' << n->get_counter() << ',' << n->get_radius() << ',' << n->get_children().size();
        for (P x : n->get_center()) o << ',' << x;
        o << ",root" << (id.count(&n->get_root_cluster()) ? id[&n->get_root_cluster()] : -1) << (*n == *v[0] ? "=" : "!") << (htool::is_cluster_on_partition(*n) ? "p" : "") << ';';
    }
    for (auto *p : r.get_clusters_on_partition()) o << " part" << (id.count(p) ? id[p] : -1);
    for (int q : r.get_permutation()) o << ' ' << q;
    o << ' ' << r.is_permutation_local() << r.get_minclustersize() << ' ' << r.get_minimal_depth() << ' ' << r.get_maximal_depth();
    return o.str();
}
Cluster<P> fresh(int k) {
    Case q; q.dim = 2; Geo g = geometry(k == 0 ? LINE : RANDOM, k == 2 ? 4 : 9, 2); q.n = g.n; for (double x : g.x) q.x.push_back((P)x);
    q.minsize = k == 0 ? 1 : 3; q.parts = k == 1 ? 3 : k == 2 ? 1 : 2; if (k == 1) { q.imposed = 1; q.partition = imposed_partition(q.n, 3, 2); }
    ClusterTreeBuilder<P> b; b.set_minclustersize(q.minsize);
    return b.create_cluster_tree(q.n, q.dim, q.x.data(), nullptr, nullptr, k == 1 ? 3 : 2, q.parts, q.imposed ? q.partition.data() : nullptr);
}
void moves(mc::Run &c) {
    const int nops = 3 * 2 + 2 + 2 + 2 + 1; int depth = c.thorough ? 5 : 4;
    std::vector<int> ops; for (int k = 0; k < 2; k++) ops.push_back(c.pick(nops, "operation"));
    if (!c.mine()) return;
    while ((int)ops.size() < depth) ops.push_back(c.pick(nops, "operation"));
    quiet(); c.stage("cluster moves");
    static std::string want[3]; if (want[0].empty()) for (int k = 0; k < 3; k++) { std::unique_ptr<Cluster<P>> t(new Cluster<P>(fresh(k))); want[k] = shape(*t); }
    long before = mc::live_blocks(); int at = -1, k; std::string got; int which = 0; bool legal = true;
    {
        std::unique_ptr<Cluster<P>> o[2]; int md[2] = {0, 1}; for (int i = 0; i < 2; i++) o[i].reset(new Cluster<P>(fresh(i)));
        for (k = 0; k < depth && at < 0 && legal; k++) {
            int q = ops[k];
            if (q < 6) { int i = q / 3, w = q % 3; o[i].reset(new Cluster<P>(fresh(w))); md[i] = w; }
            else if (q < 8) { int i = q - 6, j = 1 - i; if (md[j] < 0) { legal = false; break; } o[i].reset(new Cluster<P>(std::move(*o[j]))); md[i] = md[j]; md[j] = -1; }
            else if (q < 10) { int i = q - 8, j = 1 - i; if (md[j] < 0) { legal = false; break; } *o[i] = std::move(*o[j]); md[i] = md[j]; md[j] = -1; }
            else if (q < 12) { int i = q - 10; if (md[i] < 0) { legal = false; break; } std::vector<Cluster<P>> v; v.push_back(std::move(*o[i])); v.push_back(fresh(2)); v.push_back(fresh(0)); if (shape(v[0]) != want[md[i]]) at = k, got = shape(v[0]), which = md[i]; o[i].reset(new Cluster<P>(std::move(v[0]))); }
            else { if (md[0] < 0 || md[1] < 0) { legal = false; break; } std::swap(*o[0], *o[1]); std::swap(md[0], md[1]); }
            for (int i = 0; i < 2 && at < 0; i++) if (md[i] >= 0) { std::string s = shape(*o[i]); if (s != want[md[i]]) { at = k; got = s; which = md[i]; } }
        }
        if (at < 0 && legal) for (int i = 0; i < 2; i++) if (md[i] >= 0) { // and still serves to number data and to build on
            const Cluster<P> &r = *o[i]; std::vector<P> x(r.get_size()), y(r.get_size()), z(r.get_size()); for (int q = 0; q < r.get_size(); q++) x[q] = (P)q;
            htool::global_to_root_cluster(r, x.data(), y.data()); htool::root_cluster_to_global(r, y.data(), z.data()); if (z != x) { at = depth; got = "numbering"; }
            if (r.get_root_cluster().get_size() != r.get_size()) { at = depth; got = "root"; }
        }
    }
    bool leak = mc::live_blocks() - before != 0 && at < 0; long diff = mc::live_blocks() - before; c.step(depth);
    if (!legal) c.skip();
    auto ctx = [&] { std::string s = "operations"; for (int q : ops) s += mc::str(" ", q); return mc::str("after operation ", at + 1, " of ", s, "\n got  ", got.substr(0, 400), "\n want ", want[which].substr(0, 400)); };
    c.check(at < 0, "cluster-move/" + TN, ctx);
    static bool warm = false; if (warm) c.check(!leak, "cluster-move-leak/" + TN, [&] { return mc::str(diff, " blocks ", ctx()); }); warm = true;
    c.outcome(mc::hash_bytes(ops.data(), ops.size() * sizeof(int)));
}
const std::string S1 = "cluster-moves<" + TN + ">";
mc::Registrar q1(S1.c_str(), moves);
} // namespace

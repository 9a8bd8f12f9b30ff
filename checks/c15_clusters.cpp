// C15: one cluster tree builder used again and again.
#include <sstream>
#include "trees.inc"
std::string shape(const Cluster<P> &r) {
    std::ostringstream o; o.precision(17); std::vector<const Cluster<P> *> v; nodes(r, v); std::map<const Cluster<P> *, int> id; for (size_t k = 0; k < v.size(); k++) id[v[k]] = (int)k;
    for (auto *n : v) { o << n->get_depth() << ',' << n->get_offset() << ',' << n->get_size() << ',' << n->get_rank() << ',' << n->get_counter() << ',' << n->get_radius() << ',' << n->get_children().size(); for (P x : n->get_center()) o << ',' << x; o << ';'; }
    for (auto *p : r.get_clusters_on_partition()) o << " part" << (id.count(p) ? id[p] : -1);
    for (int q : r.get_permutation()) o << ' ' << q;
    o << ' ' << r.is_permutation_local() << r.get_minclustersize() << ' ' << r.get_minimal_depth() << ' ' << r.get_maximal_depth();
    return o.str();
}
struct Input { Geo g; std::vector<P> x, radii, weights; int nchild, parts; std::vector<int> partition; };
const std::vector<Input> &inputs() {
    static std::vector<Input> v;
    if (v.empty()) for (int k = 0; k < 6; k++) {
        Input i; i.g = geometry(k == 0 ? LINE : k == 1 ? RANDOM : k == 2 ? GRID : k == 3 ? TWO : k == 4 ? DUPL : NEG, k == 1 ? 17 : k == 4 ? 8 : 12, k == 2 ? 3 : 2); for (double d : i.g.x) i.x.push_back((P)d);
        i.nchild = k == 1 || k == 5 ? 3 : 2; i.parts = k == 0 ? 1 : k == 1 ? 4 : k == 2 ? 3 : k == 3 ? 2 : k == 4 ? 3 : 2; if (k == 2 || k == 4) i.partition = imposed_partition(i.g.n, i.parts, 2);
        if (k == 3) for (int q = 0; q < i.g.n; q++) { i.radii.push_back((P)(0.1 * (q % 3))); i.weights.push_back((P)(1 + q % 4)); }
        v.push_back(i);
    }
    return v;
}
struct Opt { int min = 10, dir = 0, split = 0; int key() const { return (min * 2 + dir) * 2 + split; } };
Cluster<P> run(ClusterTreeBuilder<P> &b, const Input &i) { return b.create_cluster_tree(i.g.n, i.g.dim, i.x.data(), i.radii.empty() ? nullptr : i.radii.data(), i.weights.empty() ? nullptr : i.weights.data(), i.nchild, i.parts, i.partition.empty() ? nullptr : i.partition.data()); }
std::shared_ptr<htool::VirtualDirectionComputationStrategy<P>> direction(int k) { if (k) return std::make_shared<htool::ComputeBoundingBox<P>>(); return std::make_shared<htool::ComputeLargestExtent<P>>(); }
std::shared_ptr<htool::VirtualSplittingStrategy<P>> split(int k) { if (k) return std::make_shared<htool::GeometricSplitting<P>>(); return std::make_shared<htool::RegularSplitting<P>>(); }
void trees(mc::Run &c) {
    const int NB = 6, NS = 3 + 2 + 2, N = NS + NB + 3; int depth = c.thorough ? 5 : 4; std::vector<int> ops;
    auto next = [&](int k) { ops.push_back(k == depth - 1 ? NS + c.pick(NB, "operation") : c.pick(N, "operation")); };
    next(0); next(1); if (!c.mine()) return; for (int k = 2; k < depth; k++) next(k);
    quiet(); c.stage("create_cluster_tree"); static std::map<int, std::string> want; Opt q; bool bad = false; std::string fail; const std::vector<Input> &in = inputs(); static const std::vector<Input> before = in; static const int mins[3] = {1, 3, 10};
    {
        std::unique_ptr<ClusterTreeBuilder<P>> b(new ClusterTreeBuilder<P>()); std::shared_ptr<htool::VirtualDirectionComputationStrategy<P>> ds[2] = {direction(0), direction(1)}; std::shared_ptr<htool::VirtualSplittingStrategy<P>> ss[2] = {split(0), split(1)};
        std::vector<std::pair<std::unique_ptr<Cluster<P>>, std::string>> live;
        for (int k = 0; k < depth && !bad; k++) {
            int o = ops[k];
            if (o < 3) { q.min = mins[o]; b->set_minclustersize(q.min); }
            else if (o < 5) { q.dir = o - 3; b->set_direction_computation_strategy(ds[q.dir]); }
            else if (o < 7) { q.split = o - 5; b->set_splitting_strategy(ss[q.split]); }
            else if (o < NS + NB) {
                int w = o - NS, key = q.key() * NB + w;
                if (!want.count(key)) { ClusterTreeBuilder<P> f; f.set_minclustersize(q.min); f.set_direction_computation_strategy(direction(q.dir)); f.set_splitting_strategy(split(q.split)); Cluster<P> t = run(f, in[w]); want[key] = shape(t); }
                std::unique_ptr<Cluster<P>> t(new Cluster<P>(run(*b, in[w]))); std::string s = shape(*t); if (s != want[key]) { bad = true; fail = mc::str("operation ", k + 1, " differs from a fresh builder: ", s.substr(0, 300), "\n want ", want[key].substr(0, 300)); }
                live.emplace_back(std::move(t), s);
            }
            else if (o == NS + NB) { if (!live.empty()) live.erase(live.begin()); }
            else if (o == NS + NB + 1) b.reset(new ClusterTreeBuilder<P>(*b));
            else b.reset(new ClusterTreeBuilder<P>(std::move(*b)));
            for (auto &l : live) if (!bad && shape(*l.first) != l.second) { bad = true; fail = mc::str("operation ", k + 1, " altered an earlier tree"); }
            c.state(mc::hash_mix(q.key(), live.empty() ? 0 : mc::hash_bytes(live.back().second.data(), live.back().second.size())));
        }
        b.reset(); for (auto &l : live) if (!bad && shape(*l.first) != l.second) { bad = true; fail = "a tree changed when its builder was destroyed"; }
        for (size_t k = 0; k < in.size() && !bad; k++) if (in[k].x != before[k].x || in[k].radii != before[k].radii || in[k].weights != before[k].weights || in[k].partition != before[k].partition) { bad = true; fail = "inputs modified"; }
    }
    c.step(depth); c.check(!bad, "cluster-builder-reuse/" + TN, [&] { std::string s = "operations"; for (int o : ops) s += mc::str(" ", o); return s + " " + fail; }); c.outcome(mc::hash_bytes(ops.data(), ops.size() * sizeof(int)));
}
const std::string S1 = "cluster-builders<" + TN + ">";
mc::Registrar r1(S1.c_str(), trees);
} // namespace

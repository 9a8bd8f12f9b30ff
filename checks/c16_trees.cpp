// C16: cluster trees saved and read, geometry exports.
#include "hx.hpp"
#include <fstream>
#include <htool/clustering/cluster_output.hpp>
#include <sstream>
#include <unistd.h>
#include "trees.inc"
std::string slurp(const std::string &f) { std::ifstream i(f, std::ios::binary); std::ostringstream o; o << i.rdbuf(); return o.str(); }
std::string fname(const char *s) { return mc::str("c16t_", (int)getpid(), "_", TN, "_", s); }
bool close(P a, P b) { return std::fabs((double)a - (double)b) <= 6e-6 * std::fabs((double)b) || a == b; }
const char *diff(const Cluster<P> &a, const Cluster<P> &b, bool exact) { // what differs between two trees
    if (a.get_offset() != b.get_offset() || a.get_size() != b.get_size()) return "index range";
    if (a.get_rank() != b.get_rank()) return "rank";
    if (a.get_depth() != b.get_depth()) return "depth";
    if (a.get_counter() != b.get_counter()) return "counter";
    if (a.is_root() != b.is_root()) return "root flag";
    if (exact ? a.get_radius() != b.get_radius() : !close(a.get_radius(), b.get_radius())) return "radius";
    if (a.get_center().size() != b.get_center().size()) return "dimension";
    for (size_t k = 0; k < a.get_center().size(); k++) if (exact ? a.get_center()[k] != b.get_center()[k] : !close(a.get_center()[k], b.get_center()[k])) return "centre";
    if (a.get_children().size() != b.get_children().size()) return "number of children";
    for (size_t k = 0; k < a.get_children().size(); k++) if (const char *d = diff(*a.get_children()[k], *b.get_children()[k], exact)) return d;
    return nullptr;
}
const char *diff_tree(const Cluster<P> &a, const Cluster<P> &b, bool exact = false) {
    if (const char *d = diff(a, b, exact)) return d;
    if (a.get_permutation() != b.get_permutation()) return "permutation";
    if (a.is_permutation_local() != b.is_permutation_local()) return "local flag";
    if (a.get_minclustersize() != b.get_minclustersize()) return "minimal cluster size";
    if (a.get_maximal_depth() != b.get_maximal_depth() || a.get_minimal_depth() != b.get_minimal_depth()) return "tree depths";
    auto &p = a.get_clusters_on_partition(), &q = b.get_clusters_on_partition();
    if (p.size() != q.size()) return "partition size";
    for (size_t k = 0; k < p.size(); k++) if (diff(*p[k], *q[k], exact)) return "partition";
    std::vector<const Cluster<P> *> n; nodes(a, n); std::set<const Cluster<P> *> mine(n.begin(), n.end());
    for (auto *k : p) if (!mine.count(k)) return "partition points outside the tree";
    for (auto *k : n) if (&k->get_root_cluster() != &a) return "root cluster";
    return nullptr;
}
void drop(const std::string &f) { unlink((f + "_cluster_tree.csv").c_str()); unlink((f + "_cluster_tree_properties.csv").c_str()); }
Cluster<P> load(const std::string &f) { return htool::read_cluster_tree<P>(f + "_cluster_tree_properties.csv", f + "_cluster_tree.csv"); }
void exports(mc::Run &c, const Case &k, const Cluster<P> &r, const std::string &ctx) {
    int n = k.n; const auto &perm = r.get_permutation();
    std::vector<const Cluster<P> *> v; nodes(r, v); int maxd = 0; for (auto *q : v) maxd = std::max(maxd, (int)q->get_depth());
    for (int order = 0; order < 2; order++) {
        std::vector<int> depths; for (int d = 0; d <= maxd; d++) depths.push_back(order ? maxd - d : d);
        if (order && maxd > 1) depths.erase(depths.begin() + 1);
        std::string f = fname("g"); c.stage("save_clustered_geometry"); htool::save_clustered_geometry(r, k.dim, k.x.data(), f, depths); c.step();
        std::istringstream in(slurp(f + ".csv")); unlink((f + ".csv").c_str());
        std::string l; bool ok = true, okd = true;
        auto next = [&](std::vector<std::string> &t) { t.clear(); if (!std::getline(in, l)) return false; std::istringstream s(l); std::string w; while (std::getline(s, w, ',')) t.push_back(w); return true; };
        std::vector<std::string> t;
        for (int d = 0; d < k.dim; d++) { ok = ok && next(t) && (int)t.size() == n + 1 && t[0] == mc::str("x_", d); for (int i = 0; ok && i < n; i++) { std::ostringstream o; o << k.x[perm[i] * k.dim + d]; ok = t[i + 1] == o.str(); } }
        for (int d : depths) {
            okd = okd && next(t) && (int)t.size() == n + 1 && t[0] == std::to_string(d);
            if (!okd) break;
            std::map<int, const Cluster<P> *> of; std::map<const Cluster<P> *, std::string> lab; std::set<std::string> labs; size_t cnt = 0;
            for (auto *q : v) if ((int)q->get_depth() == d) { cnt++; for (int i = q->get_offset(); i < q->get_offset() + q->get_size(); i++) of[i] = q; }
            for (int i = 0; i < n; i++) if (of.count(i)) { auto *q = of[i]; if (!lab.count(q)) { lab[q] = t[i + 1]; labs.insert(t[i + 1]); } else if (lab[q] != t[i + 1]) okd = false; }
            okd = okd && labs.size() == cnt; // one label per cluster
        }
        c.check(ok, "geometry-points/" + TN, ctx); c.check(okd && !std::getline(in, l), "geometry-levels/" + TN, ctx);
    }
    std::ostringstream cap; std::streambuf *old = std::cout.rdbuf(cap.rdbuf()); c.stage("print"); htool::print(r); std::cout.rdbuf(old); c.step();
    std::string want; std::function<void(const Cluster<P> &)> rec = [&](const Cluster<P> &q) { want += "["; for (int i = 0; i < q.get_size(); i++) want += std::to_string(perm[q.get_offset() + i]) + ","; want += "\b]\n"; for (auto &h : q.get_children()) rec(*h); };
    rec(r); c.check(cap.str() == want, "print/" + TN, ctx);
}
void roundtrip(mc::Run &c, const Case &k) {
    Built b = build(k);
    if (b.errors || !enough_points_for_partition(*b.root, k.parts)) c.skip();
    if (!c.thorough) { // quick: one representative of every tree structure (coordinates apart)
        static std::set<uint64_t> seen; std::ostringstream o; o << k.dim;
        std::vector<const Cluster<P> *> v; nodes(*b.root, v);
        for (auto *q : v) o << ' ' << q->get_depth() << ',' << q->get_offset() << ',' << q->get_size() << ',' << q->get_rank() << ',' << q->get_counter() << ',' << (q->get_radius() == 0) << ',' << (q->get_radius() > 100);
        for (int q : b.root->get_permutation()) o << ' ' << q;
        o << b.root->is_permutation_local() << b.root->get_minclustersize(); std::string t = o.str();
        if (!seen.insert(mc::hash_bytes(t.data(), t.size())).second) { c.outcome(mc::hash_bytes(t.data(), t.size())); return; }
    }
    std::string ctx = show(k), f = fname("a"), g = fname("b");
    quiet();
    c.stage("save_cluster_tree"); htool::save_cluster_tree(*b.root, f); c.step();
    c.stage("read_cluster_tree"); Cluster<P> r = load(f); c.step();
    const char *d = diff_tree(r, *b.root); c.check(!d, "tree/" + TN, [&] { return std::string(d) + " differs -- " + ctx; });
    htool::save_cluster_tree(r, g); c.step();
    c.check(slurp(f + "_cluster_tree.csv") == slurp(g + "_cluster_tree.csv") && slurp(f + "_cluster_tree_properties.csv") == slurp(g + "_cluster_tree_properties.csv"), "save-again/" + TN, ctx);
    Cluster<P> s = load(g); d = diff_tree(s, r, true); c.check(!d, "read-again/" + TN, [&] { return std::string(d) + " differs -- " + ctx; });
    std::string t = slurp(f + "_cluster_tree.csv"); c.outcome(mc::hash_bytes(t.data(), t.size()));
    drop(f); drop(g);
    exports(c, k, *b.root, ctx);
    c.check(logged().errors == 0, "error/" + TN, [&] { return logged().last + " -- " + ctx; });
}
void lattice(mc::Run &c) { Case k; pick_lattice(c, k); if (!c.mine()) return; roundtrip(c, k); }
void named(mc::Run &c) { Case k; pick_named(c, k); if (!c.mine()) return; roundtrip(c, k); }
void big(mc::Run &c) { Case k; pick_big(c, k); if (!c.mine()) return; roundtrip(c, k); }
// histories of saves and reads of different trees over the same file names, and use of what was read
void history(mc::Run &c) {
    int depth = c.thorough ? 5 : 4; std::vector<int> ops; for (int i = 0; i < depth; i++) ops.push_back(c.pick(8, "operation"));
    if (!c.mine()) return;
    quiet();
    std::unique_ptr<Cluster<P>> t[2], o[2]; Geo geo[2] = {geometry(GRID, 23, 2), geometry(RANDOM, 11, 3)}; // t: live objects; o: what they should be
    ClusterOpt co[2]; co[0].nchild = 2; co[0].minsize = 2; co[0].part = 2; co[1].nchild = 3; co[1].minsize = 1; co[1].part = 3; co[1].imposed = 2;
    int what[2] = {0, 1}, file[2] = {-1, -1}; bool rd[2] = {false, false};
    for (int k = 0; k < 2; k++) { t[k] = make_cluster<P>(geo[k], co[k]); o[k] = make_cluster<P>(geo[k], co[k]); }
    std::string fs[2] = {fname("h0"), fname("h1")}; drop(fs[0]); drop(fs[1]);
    auto ctx = [&] { std::string s; for (int q : ops) s += mc::str(" ", q & 4 ? "read" : "save", "(object ", q & 1, ", file ", (q >> 1) & 1, ")"); return s; };
    for (int op : ops) {
        int a = op & 1, f = (op >> 1) & 1; c.step();
        if (op & 4) { if (file[f] < 0) continue; t[a].reset(new Cluster<P>(load(fs[f]))); what[a] = file[f]; }
        else { htool::save_cluster_tree(*t[a], fs[f]); file[f] = what[a]; }
        for (int k = 0; k < 2; k++) { const char *d = diff_tree(*t[k], *o[what[k]]); c.check(!d, "history/" + TN, [&] { return std::string(d) + " differs -- " + ctx(); }); }
        c.state(what[0] * 8 + what[1] * 4 + (file[0] + 1) * 20 + (file[1] + 1) * 60);
    }
    // a matrix built on what was read is the matrix built on the original
    for (int k = 0; k < 2; k++) {
        const Geo &g = geo[what[k]]; Gen<P> gen(g, g, K_NONSYM); std::unique_ptr<HMatrix<P, P>> h[2];
        for (int w = 0; w < 2; w++) {
            const Cluster<P> &cl = w ? *o[what[k]] : *t[k];
            HMatrixTreeBuilder<P, P> b(cl, cl, (P)1e-3, (P)10, 'N', 'N', -1, -1, -1);
            b.set_low_rank_generator(std::make_shared<ScriptedLR<P>>(1)); b.set_admissibility_condition(std::make_shared<ScriptedAdm<P>>([](const Cluster<P> &x, const Cluster<P> &y) { return x.get_depth() > 1 && x.get_offset() != y.get_offset(); }));
            h[w].reset(new HMatrix<P, P>(b.build(gen)));
        }
        c.check(raw_hash<P>(*h[0]) == raw_hash<P>(*h[1]), "matrix-on-read-tree/" + TN, ctx);
    }
    c.check(logged().errors == 0, "error/" + TN, [&] { return logged().last + " -- " + ctx(); });
    drop(fs[0]); drop(fs[1]); c.outcome(file[0] * 4 + file[1]);
}
const std::string S1 = "lattice<" + TN + ">", S2 = "named<" + TN + ">", S3 = "tree-history<" + TN + ">", S4 = "big<" + TN + ">";
mc::Registrar q1(S1.c_str(), lattice), q2(S2.c_str(), named), q3(S3.c_str(), history), q4(S4.c_str(), big);
} // namespace

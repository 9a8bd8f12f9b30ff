// C01: well-formedness of every cluster tree within the bounds.
#include "trees.inc"
// can the requested partition be formed (regular splitting)? sizes of the nodes above the partition level
bool feasible(const Case &k, std::vector<int> *out = nullptr) {
    if (k.imposed) return true;
    int depth = 1, pw = k.nchild;
    while ((long)pw * k.nchild <= k.parts) { pw *= k.nchild; depth++; }
    if (k.parts < k.nchild) { pw = k.parts; depth = 1; }
    std::vector<int> level(1, k.n);
    for (int d = 0; d < depth; d++) {
        std::vector<int> next;
        for (size_t i = 0; i < level.size(); i++) {
            int nc = d == depth - 1 && k.parts < k.nchild ? k.parts : k.nchild;
            if (d == depth - 1 && i + 1 == level.size()) nc += k.parts - pw;
            int s = level[i] / nc;
            if (s <= k.minsize) return false;
            for (int p = 0; p + 1 < nc; p++) next.push_back(s);
            next.push_back(level[i] - s * (nc - 1));
        }
        level = next;
    }
    return true;
}
void run(mc::Run &c, const Case &k) {
    c.stage("create_cluster_tree");
    Built b = build(k);
    const Cluster<P> &r = *b.root;
    c.step();
    auto msg = [&](const std::string &m) { return [&k, m] { return m + " -- " + show(k); }; };
    bool formed = b.errors == 0;
    if (!k.split) c.check(formed == feasible(k), "partition-formed/" + TN, msg(formed ? "no error for a partition that cannot be formed" : "error: " + logged().last));
    std::vector<const Cluster<P> *> all;
    nodes(r, all);
    // root, permutation
    c.check(r.is_root() && r.get_offset() == 0 && r.get_size() == k.n && r.get_depth() == 0, "root/" + TN, msg("root does not cover the points"));
    const auto &perm = r.get_permutation();
    c.check((int)perm.size() == k.n, "permutation-size/" + TN, msg("permutation size"));
    std::vector<char> seen(k.n, 0);
    for (int v : perm) { c.check(v >= 0 && v < k.n && !seen[v], "permutation/" + TN, msg("permutation is not a bijection")); seen[v] = 1; }
    // partition
    const auto &parts = r.get_clusters_on_partition();
    std::set<const Cluster<P> *> nodeset(all.begin(), all.end());
    unsigned pdepth = 0;
    if (formed) {
        c.check((int)parts.size() == k.parts, "partition-count/" + TN, msg(mc::str(parts.size(), " clusters on partition")));
        int off = 0;
        for (int p = 0; p < k.parts; p++) {
            c.check(parts[p] && nodeset.count(parts[p]), "partition-node/" + TN, msg(mc::str("part ", p, " is not a node of the tree")));
            c.check(parts[p]->get_rank() == p, "partition-rank/" + TN, msg(mc::str("part ", p, " has rank ", parts[p]->get_rank())));
            c.check(parts[p]->get_offset() == off && parts[p]->get_size() > 0, "partition-tiling/" + TN, msg(mc::str("part ", p, " starts at ", parts[p]->get_offset(), " instead of ", off)));
            off += parts[p]->get_size();
            if (p == 0) pdepth = parts[p]->get_depth();
            c.check(parts[p]->get_depth() == pdepth && htool::is_cluster_on_partition(*parts[p]), "partition-depth/" + TN, msg("clusters of the partition at different depths"));
            c.check(&r.get_cluster_on_partition(p) == parts[p], "partition-getter/" + TN, msg("get_cluster_on_partition"));
            if (k.imposed) {
                int o = k.partition[2 * p], s = k.partition[2 * p + 1];
                c.check(parts[p]->get_offset() == o && parts[p]->get_size() == s, "imposed-partition/" + TN, msg(mc::str("part ", p)));
                for (int i = o; i < o + s; i++) c.check(perm[i] >= o && perm[i] < o + s, "imposed-local/" + TN, msg(mc::str("point ", perm[i], " leaves part ", p)));
            }
        }
        c.check(off == k.n, "partition-tiling/" + TN, msg("partition does not cover the root"));
        c.check(r.is_permutation_local() == (k.imposed != 0), "permutation-local-flag/" + TN, msg("flag"));
    }
    // nodes
    std::set<std::pair<unsigned, int>> ids;
    unsigned mind = 1u << 30, maxd = 0;
    size_t leaves = 0;
    for (auto *t : all) {
        c.check(t->get_size() >= 1, "empty/" + TN, msg("empty cluster"));
        c.check(ids.insert({t->get_depth(), t->get_counter()}).second, "counter/" + TN, msg(mc::str("two clusters with depth ", t->get_depth(), " and counter ", t->get_counter())));
        c.check(&t->get_permutation() == &perm, "shared-permutation/" + TN, msg("nodes with different permutations"));
        if (t->is_leaf()) {
            leaves++;
            mind = std::min(mind, t->get_depth()); maxd = std::max(maxd, t->get_depth());
            if (formed && (!k.split || t->get_size() > k.nchild)) c.check(t->get_size() / k.nchild <= k.minsize, "leaf-size/" + TN, msg(mc::str("leaf of size ", t->get_size(), " could be split")));
        } else {
            int nc = (int)t->get_children().size(), o = t->get_offset();
            bool imposed_root = k.imposed && t->is_root();
            for (auto &ch : t->get_children()) {
                c.check(ch->get_offset() == o, "children-tiling/" + TN, msg(mc::str("child starts at ", ch->get_offset(), " instead of ", o)));
                o += ch->get_size();
                c.check(ch->get_depth() == t->get_depth() + 1 && !ch->is_root(), "child-depth/" + TN, msg("depth"));
                if (!imposed_root) c.check(ch->get_size() >= k.minsize, "min-size/" + TN, msg(mc::str("cluster of size ", ch->get_size())));
            }
            c.check(o == t->get_offset() + t->get_size(), "children-tiling/" + TN, msg("children do not cover their parent"));
            if (formed && !imposed_root && t->get_depth() + 1 != pdepth) c.check(nc == k.nchild, "children-count/" + TN, msg(mc::str(nc, " children")));
        }
        if (formed) {
            if (t->get_depth() < pdepth) c.check(t->get_rank() < 0, "rank-above/" + TN, msg("rank above the partition"));
            else c.check(t->get_rank() >= 0 && t->get_rank() < k.parts && parts[t->get_rank()]->get_offset() <= t->get_offset() && t->get_offset() + t->get_size() <= parts[t->get_rank()]->get_offset() + parts[t->get_rank()]->get_size(), "rank-inside/" + TN, msg(mc::str("rank ", t->get_rank(), " at offset ", t->get_offset())));
        }
    }
    if (formed) {
        bool pw = false; for (long q = 1; q <= k.parts; q *= k.nchild) pw |= q == k.parts;
        if (!k.imposed && pw) for (auto *t : all) if (t->get_depth() + 1 == pdepth) c.check((int)t->get_children().size() == std::min(k.nchild, k.parts), "partition-shape/" + TN, msg("unbalanced partition"));
        c.check(r.get_minimal_depth() == mind && r.get_maximal_depth() == maxd, "depths/" + TN, msg(mc::str("depths ", r.get_minimal_depth(), "..", r.get_maximal_depth(), " instead of ", mind, "..", maxd)));
        c.check((int)r.get_minclustersize() == k.minsize, "minclustersize/" + TN, msg(mc::str("reports a minimal cluster size of ", r.get_minclustersize())));
    }
    uint64_t h = leaves; for (auto *t : all) h = mc::hash_mix(h, t->get_offset() * 100000ull + t->get_size() * 100 + t->get_depth());
    c.outcome(h);
}
void lattice(mc::Run &c) { Case k; pick_lattice(c, k); if (!c.mine()) return; run(c, k); }
void named(mc::Run &c) { Case k; pick_named(c, k); if (!c.mine()) return; run(c, k); }
void big(mc::Run &c) { Case k; pick_big(c, k); if (!c.mine()) return; run(c, k); }
const std::string S1 = "lattice<" + TN + ">", S2 = "named<" + TN + ">", S3 = "big<" + TN + ">";
mc::Registrar r1(S1.c_str(), lattice), r2(S2.c_str(), named), r3(S3.c_str(), big);
} // namespace

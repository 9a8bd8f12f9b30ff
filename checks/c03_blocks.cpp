// C03: structure of every block tree within the bounds.
#include "space.hpp"
#include <set>
using namespace hx;
#ifndef TS
#define TS double
#endif
namespace {
typedef TS T;
typedef Re<T> P;
const std::string TN = Ty<T>::name();
typedef HMatrix<T, P> H;
// a compressor that returns rank 1, or fails on a chosen class of blocks
struct MaybeLR : htool::VirtualLowRankGenerator<T, P> {
    int fail; // 0 never 1 always 2 on some blocks
    MaybeLR(int f) : fail(f) {}
    bool fails(const Cluster<P> &t, const Cluster<P> &s) const { return fail == 1 || (fail == 2 && (t.get_offset() + 2 * s.get_offset() + t.get_size()) % 3 == 0); }
    void copy_low_rank_approximation(const htool::VirtualInternalGenerator<T> &, const Cluster<P> &t, const Cluster<P> &s, P, int &rank, Matrix<T> &U, Matrix<T> &V) const override {
        if (fails(t, s)) { rank = -1; return; }
        U.resize(t.get_size(), 1); V.resize(1, s.get_size()); rank = 1;
    }
};
struct Blk {
    bool rectangular = false, consistent = true, symmetric = false; char uplo = 'N', sym = 'N';
    int view = 0, tp = 0, sp = 0, tpart = -1, psym = -1, mint = 0, mins = 0, fail = 0;
    double eta = 10; bool rs = true; std::string what;
    std::function<bool(const Cluster<P> &, const Cluster<P> &)> adm;
};
double dist(const Cluster<P> &a, const Cluster<P> &b) { double s = 0; for (size_t i = 0; i < a.get_center().size(); i++) { double d = (double)a.get_center()[i] - b.get_center()[i]; s += d * d; } return std::sqrt(s); }
bool inside(const Cluster<P> &in, const Cluster<P> &out) { return out.get_offset() <= in.get_offset() && in.get_offset() + in.get_size() <= out.get_offset() + out.get_size(); }
void run(mc::Run &c, const Blk &k, const Cluster<P> &ct, const Cluster<P> &cs, const Geo &gt, const Geo &gs, std::shared_ptr<htool::VirtualAdmissibilityCondition<P>> adm) {
    quiet();
    auto msg = [&](const std::string &m) { return [&k, m] { return m + " -- " + k.what; }; };
    // roots of the two trees
    const Cluster<P> &tr = k.view == 1 || k.view == 2 ? ct.get_cluster_on_partition(k.tp) : ct;
    const Cluster<P> &sr = k.view == 1 || k.view == 3 ? cs.get_cluster_on_partition(k.sp) : cs;
    Gen<T> gen(gt, gs, K_SYM);
    HMatrixTreeBuilder<T, P> b(tr, sr, (P)1e-3, (P)k.eta, k.sym, k.uplo, -1, k.tpart, k.psym);
    auto lr = std::make_shared<MaybeLR>(k.fail);
    b.set_low_rank_generator(lr);
    if (adm) b.set_admissibility_condition(adm);
    if (!k.consistent) b.set_block_tree_consistency(false);
    b.set_minimal_target_depth(k.mint); b.set_minimal_source_depth(k.mins);
    c.stage("build");
    H h = b.build(gen);
    c.step();
    c.stage("structure");
    c.check(logged().errors == 0, "error/" + TN, msg("logged: " + logged().last));
    c.check(!gen.bad, "generator-range/" + TN, msg("the generator was asked for an entry outside the matrix"));
    const Cluster<P> &trow = k.tpart >= 0 ? ct.get_cluster_on_partition(k.tpart) : tr;
    c.check(h.get_target_cluster() == trow && h.get_source_cluster() == sr, "root/" + TN, msg("clusters of the root"));
    c.check(h.is_root(), "root-flag/" + TN, msg("is_root"));
    int R = trow.get_offset(), NR = trow.get_size(), C = sr.get_offset(), NC = sr.get_size();
    bool sym = k.sym != 'N';
    // rows and columns of the symmetric part
    int s0 = R, s1 = R + NR;
    std::vector<int> cnt((size_t)NR * NC, 0);
    std::vector<H *> all;
    collect<T>(h, all);
    int nd = 0, nl = 0, nfp = 0;
    auto admissible = [&](const Cluster<P> &t, const Cluster<P> &s, int &sure) { // sure: 0 near the limit
        sure = 1;
        if (k.adm) return k.adm(t, s);
        double lhs = 2 * std::min((double)t.get_radius(), (double)s.get_radius()), rhs = k.eta * std::max(dist(t, s) - t.get_radius() - s.get_radius(), 0.);
        double scale = std::max(std::fabs(lhs), k.eta * (dist(t, s) + t.get_radius() + s.get_radius()));
        if (std::fabs(lhs - rhs) <= 64 * Ty<T>::eps * scale) sure = 0;
        return lhs < rhs;
    };
    auto allowed = [&](const Cluster<P> &t, const Cluster<P> &s) {
        return (int)t.get_depth() >= k.mint && (int)s.get_depth() >= k.mins && t.get_rank() >= 0 && (!k.consistent || s.get_rank() >= 0) && (k.tpart < 0 || t.get_rank() == k.tpart);
    };
    for (auto *n : all) {
        const Cluster<P> &t = n->get_target_cluster(), &s = n->get_source_cluster();
        c.check(inside(t, trow) && inside(s, sr), "block-range/" + TN, msg("block outside the matrix"));
        std::string where = mc::str("block [", t.get_offset(), ",", t.get_offset() + t.get_size(), ")x[", s.get_offset(), ",", s.get_offset() + s.get_size(), ")");
        bool same = t.get_offset() == s.get_offset() && t.get_size() == s.get_size();
        if (k.consistent || n != &h) c.check(n->get_symmetry() == (sym && same ? k.sym : 'N') && n->get_UPLO() == (sym && same ? k.uplo : 'N'), "symmetry-flag/" + TN, msg("symmetry of " + where));
        int sure; bool ad = admissible(t, s, sure);
        if (n->is_leaf()) {
            c.check(n->is_dense() != n->is_low_rank() && (n->is_dense() ? n->get_dense_data() != nullptr && !n->get_low_rank_data() : n->get_low_rank_data() != nullptr && !n->get_dense_data()), "leaf-data/" + TN, msg("storage of " + where));
            if (n->is_low_rank()) {
                nl++;
                c.check(n->get_low_rank_data()->nb_rows() == t.get_size() && n->get_low_rank_data()->nb_cols() == s.get_size(), "leaf-shape/" + TN, msg(where));
                if (sure) c.check(ad, "inadmissible-compressed/" + TN, msg(where + " is compressed but not admissible"));
                c.check(allowed(t, s), "compressed-depth/" + TN, msg(where + " is compressed above the allowed depth or across the partition"));
                c.check(!lr->fails(t, s), "compressed-failed/" + TN, msg(where));
            } else {
                nd++;
                c.check(n->get_dense_data()->nb_rows() == t.get_size() && n->get_dense_data()->nb_cols() == s.get_size(), "leaf-shape/" + TN, msg(where));
                bool comp = ad && allowed(t, s);
                if (comp && sure) { c.check(lr->fails(t, s), "admissible-dense/" + TN, msg(where + " is admissible but stored dense")); nfp++; }
                if (!comp && sure) c.check(t.is_leaf() && s.is_leaf(), "dense-above-leaf/" + TN, msg(where + " is stored dense but is neither admissible nor a pair of leaves"));
            }
            for (int i = t.get_offset(); i < t.get_offset() + t.get_size(); i++) for (int j = s.get_offset(); j < s.get_offset() + s.get_size(); j++) cnt[(size_t)(i - R) * NC + j - C]++;
        } else {
            c.check(!n->get_dense_data() && !n->get_low_rank_data() && n->is_hierarchical(), "node-data/" + TN, msg("data on the inner node " + where));
            bool reset = k.tpart >= 0 && n == &h;
            if (sure && !reset) c.check(!(ad && allowed(t, s)), "admissible-split/" + TN, msg(where + " is admissible but was split"));
            for (auto &ch : n->get_children()) {
                c.check(inside(ch->get_target_cluster(), t) && inside(ch->get_source_cluster(), s), "child-inside/" + TN, msg("child of " + where));
                c.check(!ch->is_root(), "child-root/" + TN, msg("child of " + where));
                if (!reset) c.check(ch->get_depth() == n->get_depth() + 1, "child-depth/" + TN, msg("child of " + where));
                if (!reset) c.check(!(ch->get_target_cluster() == t && ch->get_source_cluster() == s), "child-same/" + TN, msg("child of " + where));
            }
        }
    }
    // coverage
    std::vector<char> diagleaf((size_t)NR * NC, 0);
    if (sym) for (auto *n : all) if (n->is_leaf() && n->get_target_cluster().get_offset() == n->get_source_cluster().get_offset() && n->get_target_cluster().get_size() == n->get_source_cluster().get_size()) {
        int o = n->get_target_cluster().get_offset(), z = n->get_target_cluster().get_size();
        for (int i = o; i < o + z; i++) for (int j = o; j < o + z; j++) diagleaf[(size_t)(i - R) * NC + j - C] = 1;
    }
    for (int i = R; i < R + NR; i++) for (int j = C; j < C + NC; j++) {
        int want = 1;
        if (sym && j >= s0 && j < s1 && (k.uplo == 'L' ? j > i : j < i) && !diagleaf[(size_t)(i - R) * NC + j - C]) want = 0;
        int got = cnt[(size_t)(i - R) * NC + j - C];
        c.check(got == want, got < want ? "uncovered/" + TN : "overlap/" + TN, [&] { return mc::str("entry (", i, ",", j, ") of the clusters' numbering is stored ", got, " times instead of ", want, " -- ", k.what); });
    }
    // what the tree says about itself
    c.check(h.is_block_tree_consistent() == k.consistent && (double)h.get_epsilon() > 9e-4, "tree-data/" + TN, msg("parameters kept with the tree"));
    auto leaves = htool::get_leaves_from(h);
    c.check((int)leaves.first.size() == nd + nl, "leaves/" + TN, msg("number of leaves"));
    c.outcome(mc::hash_mix(mc::hash_mix(nd * 1000 + nl, all.size()), NR * 100 + NC));
}
std::vector<Blk> views(const Cluster<P> &ct, const Cluster<P> &cs, bool same, int parts_t, int parts_s) {
    std::vector<Blk> v;
    Blk b; v.push_back(b);
    for (int p = 0; p < parts_t; p++) {
        Blk a; a.tpart = p; if (parts_t > 1 || true) v.push_back(a);
        if (parts_t > 1) { Blk d; d.view = 2; d.tp = p; v.push_back(d); }
        if (parts_t > 1 && p < parts_s) for (int q = 0; q < parts_s; q++) { Blk d; d.view = 1; d.tp = p; d.sp = q; v.push_back(d); }
    }
    if (parts_s > 1) { Blk d; d.view = 3; d.sp = parts_s - 1; v.push_back(d); }
    return v;
}
void finish(mc::Run &c, Blk k, const Cluster<P> &ct, const Cluster<P> &cs, bool same, const Geo &gt, const Geo &gs, int nt_parts, int ns_parts, std::shared_ptr<htool::VirtualAdmissibilityCondition<P>> adm, const std::string &what) {
    auto vs = views(ct, cs, same, nt_parts, ns_parts);
    Blk w = vs[c.pick((int)vs.size(), "view")];
    k.view = w.view; k.tp = w.tp; k.sp = w.sp; k.tpart = w.tpart;
    k.psym = -1;
    if (k.sym != 'N') { // symmetric matrices: the whole of it, a diagonal block, or the rows of one part
        if (!(k.view == 0 || (k.view == 1 && k.tp == k.sp))) c.skip();
        if (k.tpart >= 0) k.psym = k.tpart;
    }
    k.what = mc::str(what, " view", k.view, " ", k.tp, ",", k.sp, " target-part", k.tpart, " ", k.sym, k.uplo, k.consistent ? "" : " inconsistent", " mindepths ", k.mint, ",", k.mins, " eta", k.eta, " failing", k.fail);
    run(c, k, ct, cs, gt, gs, adm);
}
struct Fix { HCfg g; Geo gt, gs; std::unique_ptr<Cluster<P>> ct, cs; bool ok; };
Cache<Fix> cache;
Fix &fix(const HCfg &g, uint64_t key) {
    return cache.get(key, [&] {
        std::unique_ptr<Fix> f(new Fix); f->g = g;
        f->gt = geometry(g.gt, g.nt, g.dim); f->ct = make_cluster<P>(f->gt, g.ct); f->ok = enough_points_for_partition(*f->ct, g.ct.part);
        if (g.gs >= 0) { f->gs = geometry(g.gs, g.ns, g.dim, 1); f->cs = make_cluster<P>(f->gs, g.cs); f->ok = f->ok && enough_points_for_partition(*f->cs, g.cs.part); }
        return f;
    });
}
// geometric admissibility
void geometric(mc::Run &c) {
    bool th = c.thorough;
    HCfg g; Blk k;
    g.dim = th ? c.of(std::vector<int>{2, 3}, "dim") : 2;
    g.gt = c.of(th ? std::vector<int>{LINE, GRID, TWO, DUPL, NEG, CIRCLE, RANDOM} : std::vector<int>{LINE, GRID, TWO}, "geometry");
    g.nt = c.of(th ? std::vector<int>{4, 9, 16, 23, 40} : std::vector<int>{9, 22}, "n");
    g.ct.nchild = c.of(th ? std::vector<int>{2, 3, 4} : std::vector<int>{2, 3}, "children");
    g.ct.minsize = c.of(th ? std::vector<int>{1, 3, 5} : std::vector<int>{1, 3}, "minclustersize");
    struct PP { int t, it, s, is; };
    PP pp = c.of(std::vector<PP>{{1, 0, 1, 0}, {2, 0, 2, 0}, {3, 2, 3, 2}, {3, 0, 1, 0}, {1, 0, 3, 0}, {4, 0, 2, 0}, {2, 0, 4, 0}, {4, 3, 4, 3}}, "partition");
    bool rect = c.pick(2, "rectangular");
    if (!rect && (pp.t != pp.s || pp.it != pp.is)) c.skip();
    if (rect) { g.gs = RANDOM; g.ns = g.nt > 10 ? g.nt - 7 : g.nt + 5; g.cs = g.ct; g.cs.minsize = pp.t == 4 && c.pick(2, "columns: parts are leaves") ? 40 : 1; }
    g.ct.part = pp.t; g.ct.imposed = pp.it; g.cs.part = pp.s; g.cs.imposed = pp.is;
    k.consistent = !c.pick(2, "inconsistent");
    if (!c.mine()) return;
    Fix &f = fix(g, c.cfg_hash());
    if (!f.ok) c.skip();
    auto so = !rect && k.consistent ? c.of(sym_options<T>(), "symmetry") : SymOpt{'N', 'N', K_NONSYM};
    k.sym = so.sym; k.uplo = so.uplo;
    k.eta = c.of(th ? std::vector<double>{10, 1, 0.3, 100} : std::vector<double>{10, 0.8}, "eta");
    struct MD { int t, s; };
    MD md = c.of(th ? std::vector<MD>{{0, 0}, {1, 0}, {0, 2}, {2, 1}, {3, 3}, {2, 0}, {0, 1}} : std::vector<MD>{{0, 0}, {2, 1}, {0, 3}}, "mindepths");
    k.mint = md.t; k.mins = md.s;
    k.fail = c.of(th ? std::vector<int>{0, 1, 2} : std::vector<int>{0, 2}, "failing");
    finish(c, k, *f.ct, rect ? *f.cs : *f.ct, !rect, f.gt, rect ? f.gs : f.gt, pp.t, pp.s, nullptr, show(g));
}
// larger matrices
void large(mc::Run &c) {
    Blk k; HCfg g = pick_large<T>(c, c.thorough ? std::vector<int>{70, 130, 260} : std::vector<int>{90});
    k.sym = g.sym; k.uplo = g.uplo; k.eta = g.eta;
    k.consistent = g.sym != 'N' || !c.pick(2, "inconsistent");
    if (!c.mine()) return;
    Fix &f = fix(g, c.cfg_hash());
    if (!f.ok) c.skip();
    struct MD { int t, s; };
    MD md = c.of(std::vector<MD>{{0, 0}, {3, 2}}, "mindepths");
    k.mint = md.t; k.mins = md.s;
    k.fail = c.of(std::vector<int>{0, 2}, "failing");
    finish(c, k, *f.ct, g.gs >= 0 ? *f.cs : *f.ct, g.gs < 0, f.gt, g.gs >= 0 ? f.gs : f.gt, g.ct.part, g.cs.part, nullptr, show(g));
}
// every table of decisions on the first two levels
void tables(mc::Run &c) {
    bool th = c.thorough;
    HCfg g; Blk k;
    g.gt = LINE; g.nt = th ? c.of(std::vector<int>{8, 12}, "n") : 8;
    g.ct.nchild = 2; g.ct.minsize = 1;
    g.ct.part = c.of(std::vector<int>{1, 2}, "partition"); g.ct.imposed = g.ct.part > 1 ? c.pick(2, "imposed") * 2 : 0;
    bool rect = c.pick(2, "rectangular");
    if (rect) { g.gs = RANDOM; g.ns = 10; g.cs = g.ct; }
    k.consistent = !c.pick(2, "inconsistent");
    int b1 = c.pick(16, "level1");
    if (!c.mine()) return;
    Fix &f = fix(g, mc::hash_mix(mc::hash_mix(g.nt, g.ct.part), g.ct.imposed * 2 + rect));
    if (!f.ok) c.skip();
    auto so = !rect && k.consistent ? c.of(sym_options<T>(), "symmetry") : SymOpt{'N', 'N', K_NONSYM};
    k.sym = so.sym; k.uplo = so.uplo;
    int b2 = c.pick(16, "level2"), diag = so.sym != 'N' ? 1 : !c.pick(2, "diagonal");
    struct MD { int t, s; };
    MD md = c.of(std::vector<MD>{{0, 0}, {2, 0}, {0, 2}}, "mindepths");
    k.mint = md.t; k.mins = md.s;
    // decided by the clusters' own level, even when the two levels differ
    std::function<bool(const Cluster<P> &, const Cluster<P> &)> adm = [=](const Cluster<P> &t, const Cluster<P> &s) {
        if (diag && t.get_offset() == s.get_offset()) return false;
        int lv = (int)std::max(t.get_depth(), s.get_depth()) - (g.ct.part == 1 ? 1 : 0), bit = (t.get_counter() % 2) * 2 + s.get_counter() % 2;
        return lv == 1 ? ((b1 >> bit) & 1) != 0 : lv == 2 ? ((b2 >> bit) & 1) != 0 : false;
    };
    k.adm = adm;
    finish(c, k, *f.ct, rect ? *f.cs : *f.ct, !rect, f.gt, rect ? f.gs : f.gt, g.ct.part, g.ct.part, std::make_shared<ScriptedAdm<P>>(adm), mc::str(show(g), " tables ", b1, ",", b2));
}
const std::string S1 = "geometric<" + TN + ">", S2 = "tables<" + TN + ">", S3 = "large<" + TN + ">";
mc::Registrar r1(S1.c_str(), geometric), r2(S2.c_str(), tables), r3(S3.c_str(), large);
} // namespace

// C18: reported information and structure against the actual leaves.
#include "space.hpp"
#include <htool/hmatrix/hmatrix_output.hpp>
#include <fstream>
#include <set>
#include <sstream>
#include <unistd.h>
#ifndef TS
#define TS double
#endif
using namespace hx;
namespace {
typedef TS T; typedef Re<T> P;
const std::string TY = Ty<T>::name();
typedef HMatrix<T, P> H;
// a compressor which fails on a scripted subset of the blocks, and counts its failures
struct Counting : htool::VirtualLowRankGenerator<T, P> {
    std::shared_ptr<htool::VirtualLowRankGenerator<T, P>> in; int every; mutable int failures = 0, calls = 0;
    Counting(std::shared_ptr<htool::VirtualLowRankGenerator<T, P>> i, int e) : in(i), every(e) {}
    void copy_low_rank_approximation(const htool::VirtualInternalGenerator<T> &A, const Cluster<P> &t, const Cluster<P> &s, P eps, int &rank, Matrix<T> &U, Matrix<T> &V) const override {
        calls++;
        if (every && (t.get_offset() + 3 * s.get_offset()) % every == 0) { rank = -1; failures++; return; }
        in->copy_low_rank_approximation(A, t, s, eps, rank, U, V);
        if (U.nb_rows() != t.get_size() || V.nb_cols() != s.get_size()) failures++;
    }
};
struct Leaf { int to, ts, so, ss, rank, depth; bool sym; };
void gather(const H &h, std::vector<const H *> &all) { all.push_back(&h); for (auto &k : h.get_children()) gather(*k, all); }
double num(const std::string &s) { return std::strtod(s.c_str(), nullptr); }
typedef std::map<std::string, std::string> Info;
// what the library should report for this (sub)matrix
void check_info(mc::Run &c, const H &h, int failures, const std::function<std::string()> &ctx) {
    std::vector<const H *> all; gather(h, all);
    double cnt[2] = {0, 0}, mx[3] = {0, 0, 0}, mn[3] = {0, 0, 0}, sum[3] = {0, 0, 0}, stored = 0;
    auto add = [&](int w, double v, bool first) { mx[w] = std::max(mx[w], v); mn[w] = first ? v : std::min(mn[w], v); sum[w] += v; };
    for (auto *l : all) if (l->is_leaf()) {
        double r = l->get_target_cluster().get_size(), q = l->get_source_cluster().get_size();
        if (l->is_dense()) { add(0, r * q, cnt[0] == 0); cnt[0]++; stored += l->get_symmetry() != 'N' ? r * (q + 1) / 2 : r * q; }
        else { double k = l->get_low_rank_data()->get_U().nb_cols(); add(1, r * q, cnt[1] == 0); add(2, k, cnt[1] == 0); cnt[1]++; stored += k * (r + q); }
    }
    c.stage("get_hmatrix_information");
    Info i = htool::get_hmatrix_information(h);
    c.step();
    auto is = [&](const char *k, double want) {
        bool have = i.count(k) == 1; double got = have ? num(i[k]) : 0;
        c.check(have && std::fabs(got - want) <= 1e-6 * (1 + std::fabs(want)), std::string("info-") + k + "/" + TY, [&] { return mc::str(k, " reported ", have ? i[k] : "nothing", " actual ", want, " -- ", ctx()); });
    };
    double nr = h.get_target_cluster().get_size(), nc = h.get_source_cluster().get_size();
    is("Target_size", nr); is("Source_size", nc);
    is("Number_of_dense_blocks", cnt[0]); is("Number_of_low_rank_blocks", cnt[1]);
    static const char *const nm[3] = {"Dense_block_size", "Low_rank_block_size", "Rank"};
    for (int w = 0; w < 3; w++) {
        double n = cnt[w ? 1 : 0];
        is((std::string(nm[w]) + "_max").c_str(), mx[w]); is((std::string(nm[w]) + "_min").c_str(), mn[w]); is((std::string(nm[w]) + "_mean").c_str(), n ? sum[w] / n : 0);
    }
    if (stored > 0) { is("Compression_ratio", nr * nc / stored); is("Space_saving", 1 - stored / (nr * nc)); }
    if (failures >= 0) is("Number_of_false_positive", failures);
    c.outcome(mc::hash_mix(mc::hash_mix((uint64_t)(cnt[0] * 1000 + cnt[1]), (uint64_t)stored), (uint64_t)sum[2]));
}
std::vector<std::string> lines(const std::string &f) { std::ifstream in(f); std::vector<std::string> v; std::string l; while (std::getline(in, l)) v.push_back(l); return v; }
std::string line(std::initializer_list<long> v) { std::string s; for (long x : v) s += (s.empty() ? "" : ",") + std::to_string(x); return s; }
std::string block(const H &h, const H &l) { return line({(long)l.get_target_cluster().get_offset() - h.get_target_cluster().get_offset(), (long)l.get_target_cluster().get_size(), (long)l.get_source_cluster().get_offset() - h.get_source_cluster().get_offset(), (long)l.get_source_cluster().get_size(), l.is_low_rank() ? (long)l.get_low_rank_data()->get_U().nb_cols() : -1L}); }
// figures of one low-rank block: stored size, and distance to the generator, of the approximation or of its first terms
void check_blocks(mc::Run &c, const H &h, const Gen<T> *gen, const Cluster<P> &ct, const Cluster<P> &cs, const std::function<std::string()> &ctx) {
    std::vector<const H *> all; gather(h, all);
    for (auto *l : all) if (l->is_leaf() && l->is_low_rank()) {
        auto &A = *l->get_low_rank_data(); double m = A.get_U().nb_rows(), n = A.get_V().nb_cols(); int k = A.get_U().nb_cols();
        if (!c.check(A.nb_rows() == l->get_target_cluster().get_size() && A.nb_cols() == l->get_source_cluster().get_size() && A.rank_of() == k && A.get_V().nb_rows() == k, "block-shape/" + TY, ctx)) continue;
        if (k) c.check(std::fabs(A.compression_ratio() - m * n / (k * (m + n))) <= 1e-9 * (1 + m * n / (k * (m + n))), "block-compression/" + TY, [&] { return mc::str("block of ", m, " x ", n, " rank ", k, " reports ", A.compression_ratio(), " -- ", ctx()); });
        c.check(std::fabs(A.space_saving() - (1 - k * (m + n) / (m * n))) <= 1e-9 * (1 + k * (m + n) / (m * n)), "block-saving/" + TY, ctx);
        if (!gen) continue;
        htool::InternalGeneratorWithPermutation<T> ref(*gen, ct.get_permutation().data(), cs.get_permutation().data());
        std::vector<T> a((size_t)m * n); ref.copy_submatrix((int)m, (int)n, l->get_target_cluster().get_offset(), l->get_source_cluster().get_offset(), a.data());
        double norm = 0; for (auto &x : a) norm += std::norm(std::complex<double>(x)); norm = std::sqrt(norm);
        for (int q = -1; q <= k; q++) {
            double e = 0; for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) { std::complex<double> x = a[i + (size_t)j * m]; for (int r = 0; r < (q < 0 ? k : q); r++) x -= std::complex<double>(A.get_U(i, r)) * std::complex<double>(A.get_V(r, j)); e += std::norm(x); }
            e = std::sqrt(e); c.stage("Frobenius_error"); double ab = htool::Frobenius_absolute_error(l->get_target_cluster(), l->get_source_cluster(), A, ref, q); c.step();
            double tol = 100 * std::numeric_limits<P>::epsilon() * norm * (k + 2);
            c.check(std::fabs(ab - e) <= tol, "block-error/" + TY, [&] { return mc::str("absolute error of ", q, " terms of rank ", k, " reported ", ab, " actual ", e, " -- ", ctx()); });
        }
    }
}
void check_files(mc::Run &c, const H &h, const std::function<std::string()> &ctx) {
    std::vector<const H *> all; gather(h, all);
    std::string f = mc::str("c18_", (int)getpid());
    c.stage("save_leaves_with_rank");
    htool::save_leaves_with_rank(h, f);
    c.step();
    std::multiset<std::string> want, got; std::vector<std::string> v = lines(f + ".csv");
    for (auto *l : all) if (l->is_leaf()) want.insert(block(h, *l));
    c.check(!v.empty() && v[0] == line({h.get_target_cluster().get_size(), h.get_source_cluster().get_size()}), "leaves-header/" + TY, ctx);
    for (size_t k = 1; k < v.size(); k++) if (!v[k].empty()) got.insert(v[k]);
    c.check(got == want, "leaves-file/" + TY, [&] { return mc::str(got.size(), " lines for ", want.size(), " leaves -- ", ctx()); });
    int maxd = 0; for (auto *l : all) maxd = std::max(maxd, (int)l->get_depth());
    for (int order = 0; order < 2; order++) {
        std::vector<int> depths; for (int d = 0; d <= maxd + 1; d++) depths.push_back(order ? maxd + 1 - d : d);
        if (order) depths.erase(depths.begin());
        c.stage("save_levels");
        htool::save_levels(h, f + "_l", depths);
        c.step();
        for (size_t p = 0; p < depths.size(); p++) {
            std::multiset<std::string> w, g; auto u = lines(f + "_l" + std::to_string(p) + ".csv");
            for (auto *l : all) if ((int)l->get_depth() == depths[p]) w.insert(block(h, *l));
            c.check(!u.empty() && u[0] == line({h.get_target_cluster().get_size(), h.get_source_cluster().get_size()}), "levels-header/" + TY, ctx);
            for (size_t k = 1; k < u.size(); k++) if (!u[k].empty()) g.insert(u[k]);
            c.check(g == w, "levels-file/" + TY, [&] { return mc::str("level ", depths[p], ": ", g.size(), " lines for ", w.size(), " blocks -- ", ctx()); });
            unlink((f + "_l" + std::to_string(p) + ".csv").c_str());
        }
    }
    unlink((f + ".csv").c_str());
    // leaves by kind
    std::vector<const H *> d, l; c.stage("get_leaves"); htool::get_leaves(h, d, l); c.step();
    std::multiset<const H *> gd(d.begin(), d.end()), gl(l.begin(), l.end()), wd, wl;
    for (auto *q : all) if (q->is_leaf()) (q->is_dense() ? wd : wl).insert(q);
    c.check(gd == wd && gl == wl, "get-leaves/" + TY, ctx);
    // printed form: same values, stream left as it was
    std::ostringstream os; os << std::hex; auto fl = os.flags(); char fill = os.fill();
    c.stage("print_hmatrix_information"); htool::print_hmatrix_information(h, os); htool::print_tree_parameters(h, os); c.step(2);
    c.check(os.flags() == fl && os.fill() == fill, "print-format/" + TY, ctx);
    Info i = htool::get_hmatrix_information(h), tp = htool::get_tree_parameters(h);
    std::map<std::string, std::string> seen; std::istringstream is(os.str()); std::string s;
    while (std::getline(is, s)) for (auto *m : {&i, &tp}) for (auto &e : *m) if (s.compare(0, e.first.size(), e.first) == 0 && s.size() > e.first.size() && s.compare(s.size() - std::min(s.size(), e.second.size()), e.second.size(), e.second) == 0) {
        std::string mid = s.substr(e.first.size(), s.size() - e.first.size() - e.second.size());
        if (mid.find_first_not_of('_') == std::string::npos) seen[e.first] = e.second;
    }
    size_t missing = 0; std::string which;
    for (auto *m : {&i, &tp}) for (auto &e : *m) if (!seen.count(e.first) && e.first.find("walltime") == std::string::npos) { missing++; which = e.first; }
    c.check(missing == 0, "print/" + TY, [&] { return which + " not printed with its value -- " + ctx(); });
}
void check_params(mc::Run &c, const H &h, const HCfg &g, const std::function<std::string()> &ctx) {
    Info p = htool::get_tree_parameters(h);
    auto is = [&](const char *k, double want, double tol) { c.check(p.count(k) && std::fabs(num(p[k]) - want) <= tol, std::string("parameter-") + k + "/" + TY, [&] { return mc::str(k, " reported ", p[k], " actual ", want, " -- ", ctx()); }); };
    is("Eta", (P)g.eta, 1e-6); is("Epsilon", (P)g.eps, 1e-6); is("MinTargetDepth", g.mint, 0); is("MinSourceDepth", g.mins, 0);
    auto tree = [&](const Cluster<P> &r, const char *side, int minsize) {
        int lo = 1 << 30, hi = 0; // depths of the leaves of the whole cluster tree
        std::function<void(const Cluster<P> &)> rec = [&](const Cluster<P> &q) { if (q.is_leaf()) { lo = std::min(lo, (int)q.get_depth()); hi = std::max(hi, (int)q.get_depth()); } for (auto &k : q.get_children()) rec(*k); };
        rec(r.get_root_cluster());
        is((std::string("MinClusterSize") + side).c_str(), minsize, 0); is((std::string("MaxClusterDepth") + side).c_str(), hi, 0); is((std::string("MinClusterDepth") + side).c_str(), lo, 0);
    };
    tree(h.get_target_cluster(), "Target", g.ct.minsize); tree(h.get_source_cluster(), "Source", g.gs >= 0 ? g.cs.minsize : g.ct.minsize);
}
void clusters(const Cluster<P> &t, std::vector<const Cluster<P> *> &v) { v.push_back(&t); for (auto &k : t.get_children()) clusters(*k, v); }
void check_lookup(mc::Run &c, H &h, const Cluster<P> &tr, const Cluster<P> &sr, const Cluster<P> &foreign, const std::function<std::string()> &ctx) {
    std::vector<const H *> all; gather(h, all);
    std::map<std::pair<const void *, const void *>, const H *> by; bool twice = false;
    for (auto *q : all) { auto k = std::make_pair((const void *)&q->get_target_cluster(), (const void *)&q->get_source_cluster()); if (by.count(k)) twice = true; by[k] = q; }
    c.check(!twice, "two-nodes-per-pair/" + TY, ctx);
    std::vector<const Cluster<P> *> vt, vs; clusters(tr, vt); clusters(sr, vs);
    const H &hc = h;
    c.stage("get_sub_hmatrix");
    uint64_t found = 0; bool bad = false, badc = false; const Cluster<P> *bt = nullptr, *bs = nullptr;
    for (auto *t : vt) for (auto *s : vs) {
        auto it = by.find(std::make_pair((const void *)t, (const void *)s)); const H *want = it == by.end() ? nullptr : it->second;
        if (hc.get_sub_hmatrix(*t, *s) != want || h.get_sub_hmatrix(*t, *s) != want) { bad = true; bt = t; bs = s; }
        const H *wc = want && (want == &h || std::any_of(h.get_children().begin(), h.get_children().end(), [&](const std::unique_ptr<H> &k) { return k.get() == want; })) ? want : nullptr;
        if (hc.get_child_or_this(*t, *s) != wc || h.get_child_or_this(*t, *s) != wc) { badc = true; bt = t; bs = s; }
        found += want != nullptr; c.step(4);
    }
    auto pair = [&] { return mc::str("clusters (", bt->get_offset(), "+", bt->get_size(), ",", bs->get_offset(), "+", bs->get_size(), ") -- ", ctx()); };
    c.check(!bad, "get_sub_hmatrix/" + TY, pair); c.check(!badc, "get_child_or_this/" + TY, pair);
    c.check(found == all.size(), "every-node-found/" + TY, ctx);
    std::vector<const Cluster<P> *> vf; clusters(foreign, vf);
    bool alien = false; for (auto *t : vf) if (h.get_sub_hmatrix(*t, *vs[0]) || hc.get_sub_hmatrix(*t, *t) || h.get_child_or_this(*t, *t)) alien = true;
    c.check(!alien, "foreign-cluster/" + TY, ctx);
    // the same question asked to a block of the matrix
    for (auto &k : h.get_children()) {
        bool b = false; std::vector<const H *> sub; gather(*k, sub); std::set<const H *> in(sub.begin(), sub.end());
        for (auto *q : all) { const H *w = in.count(q) ? q : nullptr; if (k->get_sub_hmatrix(q->get_target_cluster(), q->get_source_cluster()) != w) b = true; }
        c.check(!b, "get_sub_hmatrix-of-block/" + TY, ctx);
    }
}
void run(mc::Run &c, HCfg g, std::shared_ptr<htool::VirtualAdmissibilityCondition<P>> adm, int every) {
    quiet();
    Geo gt = geometry(g.gt, g.nt, g.dim), gs = g.gs >= 0 ? geometry(g.gs, g.ns, g.dim, 1) : gt;
    auto ct = make_cluster<P>(gt, g.ct); std::unique_ptr<Cluster<P>> own; if (g.gs >= 0) own = make_cluster<P>(gs, g.cs);
    auto foreign = make_cluster<P>(gt, g.ct);
    const Cluster<P> &cs = own ? *own : *ct;
    if (!enough_points_for_partition(*ct, g.ct.part) || !enough_points_for_partition(cs, own ? g.cs.part : g.ct.part)) c.skip();
    if (g.sym == 'N' && g.ct.part > 1) { int q = c.pick(1 + (c.thorough ? g.ct.part : 1), "target-partition"); g.tpart = q == 0 ? -1 : c.thorough ? q - 1 : g.ct.part - 1; }
    auto lr = std::make_shared<Counting>(compressor<T>(g.comp), every);
    Gen<T> gen(gt, own ? gs : gt, g.kernel);
    HMatrixTreeBuilder<T, P> b(*ct, cs, (P)g.eps, (P)g.eta, g.sym, g.uplo, g.reqrank, g.tpart, -1);
    b.set_low_rank_generator(lr); if (adm) b.set_admissibility_condition(adm);
    b.set_minimal_target_depth(g.mint); b.set_minimal_source_depth(g.mins);
    c.stage("build");
    H h = b.build(gen);
    auto ctx = [&] { return show(g) + mc::str(" failing every ", every, " mint", g.mint, " mins", g.mins); };
    check_info(c, h, lr->failures, ctx);
    if (c.thorough || (!g.mint && !g.mins)) check_blocks(c, h, &gen, *ct, cs, ctx);
    if (c.thorough || (!g.mint && !g.mins)) check_files(c, h, ctx);
    if (g.tpart < 0) check_params(c, h, g, ctx);
    check_lookup(c, h, *ct, cs, *foreign, ctx);
    for (auto &k : h.get_children()) { check_info(c, *k, -1, ctx); if (c.thorough || (k == h.get_children().back() && !g.mint)) check_files(c, *k, ctx); }
    c.check(logged().errors == 0, "error/" + TY, [&] { return logged().last + " -- " + ctx(); });
}
void geometric(mc::Run &c) {
    HCfg g = pick_geometric<T>(c);
    g.comp = c.of(c.thorough ? std::vector<int>{0, 1, 2, 3, 4, 5} : std::vector<int>{0, 5}, "compressor");
    int every = c.of(c.thorough ? std::vector<int>{0, 2, 3} : std::vector<int>{0, 2}, "failures");
    struct D { int t, s; }; D d = c.of(c.thorough ? std::vector<D>{{0, 0}, {2, 0}, {1, 3}} : std::vector<D>{{0, 0}, {1, 3}}, "minimal depths"); g.mint = d.t; g.mins = d.s;
    if (!c.mine()) return;
    run(c, g, nullptr, every);
}
void bigger(mc::Run &c) {
    HCfg g = pick_large<T>(c, c.thorough ? std::vector<int>{70, 130} : std::vector<int>{60});
    g.comp = c.of(std::vector<int>{3, 0}, "compressor");
    if (!c.mine()) return;
    run(c, g, nullptr, c.pick(2, "failures") * 5);
}
// every table of block decisions on a two-level tree with scripted ranks
void tables(mc::Run &c) {
    HCfg g; g.nt = 21; g.gt = GRID; g.ct.minsize = 3; g.ct.nchild = 2;
    auto so = c.of(sym_options<T>(), "symmetry"); g.sym = so.sym; g.uplo = so.uplo; g.kernel = so.kernel;
    g.ct.part = c.of(std::vector<int>{1, 2}, "partition");
    int b1 = c.pick(16, "first level"), b2 = c.pick(16, "second level");
    g.comp = 4 + c.of(c.thorough ? std::vector<int>{0, 1, 2} : std::vector<int>{0, 2}, "rank");
    if (!c.mine()) return;
    run(c, g, table_admissibility<P>(2, b1, b2, g.sym != 'N'), c.pick(2, "failures") * 2);
}
// matrices with more entries than an int can count: two leaves, nothing assembled
struct Nothing : htool::VirtualGenerator<T> { void copy_submatrix(int m, int n, const int *, const int *, T *p) const override { for (size_t i = 0; i < (size_t)m * n; i++) p[i] = T(0); } };
struct Deep : htool::VirtualAdmissibilityCondition<P> { bool ComputeAdmissibility(const Cluster<P> &t, const Cluster<P> &s, double) const override { return t.get_depth() == 1 && s.get_depth() == 1; } };
struct Rank1 : htool::VirtualLowRankGenerator<T, P> { void copy_low_rank_approximation(const htool::VirtualInternalGenerator<T> &, const Cluster<P> &t, const Cluster<P> &s, P, int &rank, Matrix<T> &U, Matrix<T> &V) const override { rank = 1; U.resize(t.get_size(), 1); V.resize(1, s.get_size()); } };
void large(mc::Run &c) {
    int n = c.of(std::vector<int>{1000, 40000, 50000, 65536, 70000, 100000}, "rows"), m = c.of(std::vector<int>{1000, 50000, 65536, 100000}, "columns"), parts = c.of(std::vector<int>{1, 2}, "parts");
    if (!c.mine()) return;
    quiet();
    auto line = [&](int k) { std::vector<P> x(2 * k); for (int i = 0; i < k; i++) x[2 * i] = (P)i; return x; };
    auto x = line(n), y = line(m);
    ClusterTreeBuilder<P> b; b.set_minclustersize(200000);
    std::vector<int> pt{0, n / 3, n / 3, n - n / 3}, ps{0, m / 2, m / 2, m - m / 2}; if (parts == 1) { pt = {0, n}; ps = {0, m}; }
    Cluster<P> t = b.create_cluster_tree(n, 2, x.data(), 2, parts, pt.data()), s = b.create_cluster_tree(m, 2, y.data(), 2, parts, ps.data());
    HMatrixTreeBuilder<T, P> hb(t, s, (P)1e-3, (P)10, 'N', 'N', -1, -1, -1);
    hb.set_low_rank_generator(std::make_shared<Rank1>()); hb.set_admissibility_condition(std::make_shared<Deep>());
    Nothing g; H h = hb.build(g);
    auto ctx = [&] { return mc::str(n, " x ", m, " in ", parts, " parts"); };
    check_info(c, h, 0, ctx); check_files(c, h, ctx); check_blocks(c, h, nullptr, t, s, ctx);
}
const std::string S1 = "geometric<" + TY + ">", S2 = "tables<" + TY + ">", S3 = "large<" + TY + ">", S4 = "bigger<" + TY + ">";
mc::Registrar r1(S1.c_str(), geometric), r2(S2.c_str(), tables), r3(S3.c_str(), large), r4(S4.c_str(), bigger);
} // namespace

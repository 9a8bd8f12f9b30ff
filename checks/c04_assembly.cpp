// C04: coefficients of assembled hierarchical matrices and of their exports.
#include "space.hpp"
#include <htool/hmatrix/interfaces/virtual_dense_blocks_generator.hpp>
#include <set>
using namespace hx;
#ifndef TS
#define TS double
#endif
namespace {
typedef TS T;
typedef Re<T> P;
typedef HMatrix<T, P> H;
const std::string TN = Ty<T>::name();
const double EPS = Ty<T>::eps;
bool fails_on(const Cluster<P> &t, const Cluster<P> &s) { return (t.get_offset() + 2 * s.get_offset() + t.get_size()) % 3 == 0; }
// an inner compressor that gives up on some blocks
struct Sometimes : htool::VirtualLowRankGenerator<T, P> {
    std::shared_ptr<htool::VirtualLowRankGenerator<T, P>> in; int kind; // 0 leaves the factors empty, 1 leaves U sized
    Sometimes(std::shared_ptr<htool::VirtualLowRankGenerator<T, P>> g, int k) : in(g), kind(k) {}
    void copy_low_rank_approximation(const htool::VirtualInternalGenerator<T> &A, const Cluster<P> &t, const Cluster<P> &s, P eps, int &rank, Matrix<T> &U, Matrix<T> &V) const override {
        if (fails_on(t, s)) { rank = -1; if (kind) U.resize(t.get_size(), 2); return; }
        in->copy_low_rank_approximation(A, t, s, eps, rank, U, V);
    }
};
struct Internal : htool::VirtualInternalGenerator<T> { // coefficients in the clusters' numbering
    const Gen<T> &g; const std::vector<int> &pt, &ps;
    Internal(const Gen<T> &g_, const std::vector<int> &a, const std::vector<int> &b) : g(g_), pt(a), ps(b) {}
    void copy_submatrix(int m, int n, int r, int c, T *p) const override { for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) p[i + (size_t)j * m] = Ty<T>::mk(g.k(pt[r + i], ps[c + j])); }
};
struct DenseGen : htool::VirtualDenseBlocksGenerator<T> { // other values than the generator's
    const Gen<T> &g; const std::vector<int> &pt, &ps; mutable int calls = 0; mutable std::vector<std::vector<int>> seen; mutable bool ok = true;
    DenseGen(const Gen<T> &g_, const std::vector<int> &a, const std::vector<int> &b) : g(g_), pt(a), ps(b) {}
    Z at(int i, int j) const { return Z(Ty<T>::mk(g.k(pt[i], ps[j]) * 3.0)); }
    void copy_dense_blocks(const std::vector<int> &m, const std::vector<int> &n, const std::vector<int> &r, const std::vector<int> &c, std::vector<T *> &p) const override {
        calls++;
        if (m.size() != n.size() || m.size() != r.size() || m.size() != c.size() || m.size() != p.size()) { ok = false; return; }
        for (size_t b = 0; b < m.size(); b++) {
            seen.push_back({r[b], m[b], c[b], n[b]});
            for (int j = 0; j < n[b]; j++) for (int i = 0; i < m[b]; i++) p[b][i + (size_t)j * m[b]] = Ty<T>::mk(at(r[b] + i, c[b] + j));
        }
    }
};
double worst_aca = 0;
struct Cfg { int view = 0, tp = 0, sp = 0, tpart = -1, psym = -1, comp = 0, reqrank = -1, gen = 0, fail = 0; bool densegen = false, consistent = true; double eps = 1e-3, eta = 10; char sym = 'N', uplo = 'N'; std::string what; };
void run(mc::Run &c, const Cfg &k, const Cluster<P> &ct, const Cluster<P> &cs, const Gen<T> &gen, std::shared_ptr<htool::VirtualAdmissibilityCondition<P>> adm) {
    quiet();
    auto msg = [&](const std::string &m) { return [&k, m] { return m + " -- " + k.what; }; };
    const Cluster<P> &tr = k.view == 1 || k.view == 2 ? ct.get_cluster_on_partition(k.tp) : ct;
    const Cluster<P> &sr = k.view == 1 || k.view == 3 ? cs.get_cluster_on_partition(k.sp) : cs;
    const auto &pt = ct.get_permutation(), &ps = cs.get_permutation();
    HMatrixTreeBuilder<T, P> b(tr, sr, (P)k.eps, (P)k.eta, k.sym, k.uplo, k.reqrank, k.tpart, k.psym);
    std::shared_ptr<htool::VirtualLowRankGenerator<T, P>> lr = compressor<T>(k.comp < 4 ? k.comp : 3);
    if (k.fail) lr = std::make_shared<Sometimes>(lr, k.fail - 1);
    if (k.comp < 4 || k.fail) b.set_low_rank_generator(lr); // 4: the default
    if (adm) b.set_admissibility_condition(adm);
    if (!k.consistent) b.set_block_tree_consistency(false);
    auto dg = std::make_shared<DenseGen>(gen, pt, ps);
    if (k.densegen) b.set_dense_blocks_generator(dg);
    Internal in(gen, pt, ps);
    gen.bad = false;
    c.stage("build");
    H h = k.gen ? b.build(in) : b.build(gen);
    c.step();
    c.check(logged().errors == 0 && !gen.bad, "build/" + TN, msg("error or range " + logged().last));
    const Cluster<P> &t0 = h.get_target_cluster(), &s0 = h.get_source_cluster();
    int R = t0.get_offset(), C = s0.get_offset(), NR = t0.get_size(), NC = s0.get_size();
    // leaves, and the represented matrix in the clusters' numbering
    std::vector<H *> all; collect<T>(h, all);
    std::multiset<std::vector<int>> dense_leaves;
    M full(NR, NC), stored(NR, NC); std::vector<char> has((size_t)NR * NC, 0);
    int nlr = 0, nfp = 0;
    for (auto *n : all) if (n->is_leaf()) {
        const Cluster<P> &t = n->get_target_cluster(), &s = n->get_source_cluster();
        int to = t.get_offset(), so = s.get_offset(), m = t.get_size(), q = s.get_size();
        std::string where = mc::str("block [", to, ",", to + m, ")x[", so, ",", so + q, ")");
        M A(m, q); for (int i = 0; i < m; i++) for (int j = 0; j < q; j++) A(i, j) = gen.k(pt[to + i], ps[so + j]);
        M B = leaf_dense<T>(*n);
        if (n->is_low_rank()) {
            nlr++;
            // exactly what the compressor gives for this block
            LowRankMatrix<T, P> L(in, *lr, t, s, k.reqrank, (P)k.eps);
            const auto &l = *n->get_low_rank_data();
            c.check(diff(fromMat(L.get_U()), fromMat(l.get_U())) == 0 && diff(fromMat(L.get_V()), fromMat(l.get_V())) == 0, "compressed-leaf/" + TN, msg("factors of " + where + " are not the compressor's"));
            double err = fro(sub(A, B)), norm = fro(A);
            if (k.reqrank < 0) {
                double f = k.comp <= 1 ? 1.001 : 20;
                if (k.comp > 1) worst_aca = std::max(worst_aca, (err - 200 * EPS * norm * n->get_rank()) / (k.eps * norm));
                c.check(err <= f * k.eps * norm + 200 * EPS * norm * (n->get_rank() + 1), "compressed-accuracy/" + TN, msg(mc::str(where, " relative error ", err / norm)));
            } else c.check(n->get_rank() <= k.reqrank && n->get_rank() <= std::min(m, q), "required-rank/" + TN, msg(mc::str(where, " rank ", n->get_rank())));
        } else {
            bool special = false;
            if (k.densegen) {
                special = dg->seen.end() != std::find(dg->seen.begin(), dg->seen.end(), std::vector<int>{to, m, so, q});
                if (!special) nfp++; // only a failed compression may be left to the ordinary generator
                else { dense_leaves.insert({to, m, so, q}); for (auto &z : A.a) z = Z(Ty<T>::mk(z * 3.0)); }
            }
            c.check(diff(A, B) == 0, "dense-leaf/" + TN, [&] { return mc::str(where, " difference ", diff(A, B), " -- ", k.what); });
            if (!special && k.densegen) {
                LowRankMatrix<T, P> L(in, *lr, t, s, k.reqrank, (P)k.eps);
                c.check(L.get_U().nb_rows() != m || L.get_V().nb_cols() != q, "dense-generator-omits/" + TN, msg(where + " was not given to the dense-block generator"));
            }
        }
        bool diag = k.sym != 'N' && to == so;
        for (int i = 0; i < m; i++) for (int j = 0; j < q; j++) {
            stored(to - R + i, so - C + j) = B(i, j); has[(to - R + i) + (size_t)(so - C + j) * NR] = 1;
            full(to - R + i, so - C + j) = B(i, j);
        }
        // mirrored half: only rows and columns of the symmetric part
        bool in_sym = k.sym != 'N' && !diag && so >= R && so + q <= R + NR;
        if (in_sym) for (int i = 0; i < m; i++) for (int j = 0; j < q; j++) full(so - R + j, to - C + i) = k.sym == 'H' ? std::conj(B(i, j)) : B(i, j);
    }
    if (k.densegen) {
        c.check(dg->ok && dg->calls <= 1, "dense-generator-calls/" + TN, msg(mc::str(dg->calls, " calls")));
        c.check(std::multiset<std::vector<int>>(dg->seen.begin(), dg->seen.end()) == dense_leaves, "dense-generator-blocks/" + TN, msg("blocks asked from the dense-block generator are not the dense leaves"));
    }
    (void)nfp;
    // exports
    double tol = 64 * EPS * (maxabs(full) + 1e-300) * 8;
    const T mark = Ty<T>::mk(Z(-7777, 31));
    c.stage("copy_to_dense");
    std::vector<T> D((size_t)NR * NC, mark);
    htool::copy_to_dense(h, D.data());
    M want = stored; for (size_t i = 0; i < has.size(); i++) if (!has[i]) want.a[i] = Z(mark);
    equal_to(c, from(D.data(), NR, NC), want, tol, "copy-to-dense/" + TN, k.what);
    bool tok = (t0.is_root() || ct.is_permutation_local()) , sok = (s0.is_root() || cs.is_permutation_local());
    if (tok && sok) {
        c.stage("copy_to_dense_in_user_numbering");
        M U(NR, NC);
        for (int i = 0; i < NR; i++) for (int j = 0; j < NC; j++) U(pt[R + i] - R, ps[C + j] - C) = full(i, j);
        std::vector<T> E((size_t)NR * NC, mark);
        htool::copy_to_dense_in_user_numbering(h, E.data());
        equal_to(c, from(E.data(), NR, NC), U, tol, "copy-to-dense-user/" + TN, k.what);
    }
    if (&ct == &cs && R == C && NR == NC) {
        M d(NR, 1), du(NR, 1);
        for (int i = 0; i < NR; i++) { d(i, 0) = full(i, i); if (tok) du(pt[R + i] - R, 0) = full(i, i); }
        c.stage("copy_diagonal");
        std::vector<T> v(NR, mark); htool::copy_diagonal(h, v.data());
        equal_to(c, from(v), d, tol, "copy-diagonal/" + TN, k.what);
        if (tok) { c.stage("copy_diagonal_in_user_numbering"); std::vector<T> w(NR, mark); htool::copy_diagonal_in_user_numbering(h, w.data()); equal_to(c, from(w), du, tol, "copy-diagonal-user/" + TN, k.what); }
    }
    c.check(logged().errors == 0, "export/" + TN, msg("error " + logged().last));
    c.outcome(hash(full)); c.state(nlr);
}
struct V { int view, tp, sp, tpart; };
std::vector<V> views(int parts, bool same, bool th) {
    std::vector<V> v{{0, 0, 0, -1}};
    for (int p = 0; p < parts; p++) {
        v.push_back({0, 0, 0, p});
        if (parts > 1) { v.push_back({1, p, p, -1}); v.push_back({2, p, 0, -1}); v.push_back({1, p, (p + 1) % parts, -1}); if (th) v.push_back({3, 0, p, -1}); }
        if (!th && p >= 1) break;
    }
    return v;
}
void finish(mc::Run &c, Cfg k, const Cluster<P> &ct, const Cluster<P> &cs, const Gen<T> &gen, int parts, std::shared_ptr<htool::VirtualAdmissibilityCondition<P>> adm, const std::string &what) {
    V v = c.of(views(parts, &ct == &cs, c.thorough), "view");
    k.view = v.view; k.tp = v.tp; k.sp = v.sp; k.tpart = v.tpart;
    if (k.sym != 'N') { if (!(k.view == 0 || (k.view == 1 && k.tp == k.sp))) c.skip(); if (k.tpart >= 0) k.psym = k.tpart; }
    k.what = mc::str(what, " view", k.view, " ", k.tp, ",", k.sp, " target-part", k.tpart, " ", k.sym, k.uplo, k.consistent ? "" : " inconsistent", " compressor", k.comp, " eps", k.eps, " eta", k.eta, " reqrank", k.reqrank, k.densegen ? " dense-block generator" : "", " failing", k.fail, k.gen ? " internal generator" : "");
    run(c, k, ct, cs, gen, adm);
}
Cache<HFix<T>> cache;
struct Fix { Geo gt, gs; std::unique_ptr<Cluster<P>> ct, cs; bool ok; };
Cache<Fix> fcache;
Fix &fix(const HCfg &g, uint64_t key) {
    return fcache.get(key, [&] {
        std::unique_ptr<Fix> f(new Fix);
        f->gt = geometry(g.gt, g.nt, g.dim); f->ct = make_cluster<P>(f->gt, g.ct); f->ok = enough_points_for_partition(*f->ct, g.ct.part);
        if (g.gs >= 0) { f->gs = geometry(g.gs, g.ns, g.dim, 1); f->cs = make_cluster<P>(f->gs, g.cs); f->ok = f->ok && enough_points_for_partition(*f->cs, g.cs.part); }
        return f;
    });
}
void geometric(mc::Run &c) {
    bool th = c.thorough;
    HCfg g; Cfg k;
    g.dim = th ? c.of(std::vector<int>{2, 3}, "dim") : 2;
    g.gt = c.of(th ? std::vector<int>{LINE, GRID, TWO, DUPL, NEG, CIRCLE, RANDOM} : std::vector<int>{LINE, TWO, CIRCLE}, "geometry");
    g.nt = c.of(th ? std::vector<int>{1, 6, 13, 24, 48, 90} : std::vector<int>{6, 26, 48}, "n");
    g.ct.nchild = c.of(th ? std::vector<int>{2, 3, 4} : std::vector<int>{2, 3}, "children");
    g.ct.minsize = c.of(th ? std::vector<int>{1, 4, 10} : std::vector<int>{1, 4}, "minclustersize");
    struct PP { int p, i; };
    PP pp = c.of(th ? std::vector<PP>{{1, 0}, {2, 0}, {3, 2}, {4, 3}, {2, 1}} : std::vector<PP>{{1, 0}, {2, 0}, {3, 2}}, "partition");
    if (pp.p > 1 && g.nt < 6) c.skip();
    bool rect = c.pick(2, "rectangular");
    if (rect) { g.gs = RANDOM; g.ns = g.nt > 10 ? g.nt - 7 : g.nt + 5; g.cs = g.ct; g.cs.part = pp.p; g.cs.imposed = pp.i; }
    g.ct.part = pp.p; g.ct.imposed = pp.i;
    if (!c.mine()) return;
    Fix &f = fix(g, c.cfg_hash());
    if (!f.ok) c.skip();
    auto so = !rect ? c.of(sym_options<T>(), "symmetry") : SymOpt{'N', 'N', K_NONSYM};
    k.sym = so.sym; k.uplo = so.uplo;
    k.eta = c.of(th ? std::vector<double>{10, 1} : std::vector<double>{10}, "eta");
    struct CO { int comp; double eps; int req, fail; bool dg; int gen; };
    std::vector<CO> co{{3, 1e-3, -1, 0, false, 0}, {2, 1e-2, -1, 2, true, 0}, {0, 1e-1, -1, 0, false, 1}, {1, 1e-2, -1, 1, true, 1}, {4, 1e-2, -1, 0, true, 0}, {3, 1e-3, 2, 0, false, 0}, {0, 1e-3, 0, 0, false, 0}};
    if (th) { double e = EPS < 1e-10 ? 1e-7 : 1e-4; for (int cp = 0; cp < 4; cp++) { co.push_back({cp, e, -1, 0, false, 0}); co.push_back({cp, 1e-2, 3, 1, true, 0}); co.push_back({cp, 3e-1, -1, 2, false, 1}); } }
    CO o = c.of(co, "compression");
    k.comp = o.comp; k.eps = o.eps; k.reqrank = o.req; k.fail = o.fail; k.densegen = o.dg; k.gen = o.gen;
    Gen<T> gen(f.gt, rect ? f.gs : f.gt, so.kernel);
    finish(c, k, *f.ct, rect ? *f.cs : *f.ct, gen, pp.p, nullptr, show(g));
}
void large(mc::Run &c) {
    Cfg k; HCfg g = pick_large<T>(c, c.thorough ? std::vector<int>{70, 130, 200} : std::vector<int>{80, 130});
    k.sym = g.sym; k.uplo = g.uplo; k.eta = g.eta;
    struct CO { int comp; double eps; int req, fail; bool dg; int gen; };
    CO o = c.of(c.thorough ? std::vector<CO>{{3, 1e-3, -1, 0, false, 0}, {2, 1e-2, -1, 2, true, 0}, {0, 1e-1, -1, 0, false, 1}, {1, 1e-2, -1, 1, true, 1}, {3, 1e-3, 12, 0, false, 0}, {1, 1e-3, 9, 0, true, 0}} : std::vector<CO>{{3, 1e-3, -1, 0, true, 0}, {2, 1e-2, -1, 2, false, 0}, {1, 1e-3, 9, 0, false, 0}}, "compression");
    k.comp = o.comp; k.eps = o.eps; k.reqrank = o.req; k.fail = o.fail; k.densegen = o.dg; k.gen = o.gen;
    if (!c.mine()) return;
    Fix &f = fix(g, c.cfg_hash());
    if (!f.ok) c.skip();
    Gen<T> gen(f.gt, g.gs >= 0 ? f.gs : f.gt, g.kernel);
    finish(c, k, *f.ct, g.gs >= 0 ? *f.cs : *f.ct, gen, g.ct.part, nullptr, show(g));
}
// every table of decisions on the two first levels, small blocks
void tables(mc::Run &c) {
    bool th = c.thorough;
    HCfg g; Cfg k;
    g.gt = c.of(th ? std::vector<int>{LINE, RANDOM} : std::vector<int>{RANDOM}, "geometry"); g.nt = 11; g.ct.nchild = 2; g.ct.minsize = 1;
    g.ct.part = c.of(std::vector<int>{1, 2}, "partition"); g.ct.imposed = g.ct.part > 1 ? c.pick(2, "imposed") * 2 : 0;
    bool rect = c.pick(2, "rectangular");
    if (rect) { g.gs = RANDOM; g.ns = 8; g.cs = g.ct; }
    k.consistent = !c.pick(2, "inconsistent");
    int b1 = c.pick(16, "level1");
    if (!c.mine()) return;
    Fix &f = fix(g, mc::hash_mix(mc::hash_mix(g.gt, g.ct.part), g.ct.imposed * 2 + rect));
    if (!f.ok) c.skip();
    auto so = !rect && k.consistent ? c.of(sym_options<T>(), "symmetry") : SymOpt{'N', 'N', K_NONSYM};
    k.sym = so.sym; k.uplo = so.uplo;
    int b2 = c.pick(16, "level2"); bool diag = so.sym != 'N';
    int vc = c.pick(th ? 6 : 3, "variant");
    k.comp = vc == 2 ? 0 : vc % 4; k.reqrank = vc == 0 ? -1 : vc == 1 ? 1 : 2; k.eps = vc == 0 ? 0.5 : 1e-2; k.fail = vc == 1 ? 1 : vc == 4 ? 2 : 0; k.densegen = vc >= 1; k.gen = vc & 1;
    auto adm = std::make_shared<ScriptedAdm<P>>([=](const Cluster<P> &t, const Cluster<P> &s) {
        if (diag && t.get_offset() == s.get_offset()) return false;
        int lv = (int)std::max(t.get_depth(), s.get_depth()) - (g.ct.part == 1 ? 1 : 0), bit = (t.get_counter() % 2) * 2 + s.get_counter() % 2;
        return lv == 1 ? ((b1 >> bit) & 1) != 0 : lv == 2 ? ((b2 >> bit) & 1) != 0 : false;
    });
    Gen<T> gen(f.gt, rect ? f.gs : f.gt, so.kernel);
    finish(c, k, *f.ct, rect ? *f.cs : *f.ct, gen, g.ct.part, adm, mc::str(show(g), " tables ", b1, ",", b2));
}
const std::string S1 = "geometric<" + TN + ">", S2 = "tables<" + TN + ">", S3 = "large<" + TN + ">";
mc::Registrar r1(S1.c_str(), geometric), r2(S2.c_str(), tables), r3(S3.c_str(), large);
struct Out { ~Out() { if (getenv("VERIF_VERBOSE")) fprintf(stderr, "worst aca %s %g\n", TN.c_str(), worst_aca); } } out_;
} // namespace

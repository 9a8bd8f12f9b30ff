// C15: a builder used again and again gives what a fresh builder with the same options would, and leaves what it built
// before alone.  Every history of builds, option changes, destructions and moves of the builder up to a depth.
#include "alloc_count.hpp"
#include "space.hpp"
#include <htool/hmatrix/hmatrix_output.hpp>
#include <htool/hmatrix/linalg/add_hmatrix_vector_product.hpp>
#ifndef TS
#define TS double
#endif
using namespace hx;
namespace {
typedef TS T; typedef Re<T> P;
const std::string TY = Ty<T>::name();
typedef HMatrix<T, P> H;
struct FailSome : htool::VirtualLowRankGenerator<T, P> { // fails on some blocks, gives a rank-1 factorization of the others
    void copy_low_rank_approximation(const htool::VirtualInternalGenerator<T> &A, const Cluster<P> &t, const Cluster<P> &s, P eps, int &rank, Matrix<T> &U, Matrix<T> &V) const override {
        if ((t.get_offset() + 2 * s.get_offset()) % 3 == 0) { rank = -1; return; }
        ScriptedLR<T>(1).copy_low_rank_approximation(A, t, s, eps, rank, U, V);
    }
};
struct Blocks : htool::VirtualDenseBlocksGenerator<T> {
    void copy_dense_blocks(const std::vector<int> &m, const std::vector<int> &n, const std::vector<int> &r, const std::vector<int> &q, std::vector<T *> &p) const override {
        for (size_t k = 0; k < p.size(); k++) for (int j = 0; j < n[k]; j++) for (int i = 0; i < m[k]; i++) p[k][i + (size_t)m[k] * j] += val<T>(77, r[k] + i, q[k] + j);
    }
};
struct Internal : htool::VirtualInternalGenerator<T> {
    void copy_submatrix(int m, int n, int r, int q, T *p) const override { for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) p[i + (size_t)m * j] = val<T>(5, r + i, q + j) + T(1. / (1 + std::abs(r + i - q - j))); }
};
uint64_t mixs(uint64_t h, const std::string &s) { return mc::hash_bytes(s.data(), s.size(), h); }
uint64_t shape(const H &h) {
    uint64_t r = mc::hash_mix(h.get_target_cluster().get_offset() * 1000 + h.get_target_cluster().get_size(), h.get_source_cluster().get_offset() * 1000 + h.get_source_cluster().get_size());
    r = mc::hash_mix(r, h.get_symmetry() * 256 + h.get_UPLO() + 65536 * (int)h.get_depth()); r = mc::hash_mix(r, (uint64_t)(uintptr_t)&h.get_target_cluster()); r = mc::hash_mix(r, (uint64_t)(uintptr_t)&h.get_source_cluster());
    for (auto &k : h.get_children()) r = mc::hash_mix(r, shape(*k));
    return r;
}
struct Seen { uint64_t data, shape, info; bool operator==(const Seen &o) const { return data == o.data && shape == o.shape && info == o.info; } };
Seen see(const H &h) {
    Seen s{raw_hash<T>(h), shape(h), 3};
    for (auto &kv : htool::get_hmatrix_information(h)) { if (kv.first.find("time") != std::string::npos) continue; s.info = mixs(mixs(s.info, kv.first), kv.second); }
    s.info = mixs(s.info, mc::str(h.get_hmatrix_tree_data()->m_eta, ' ', h.get_epsilon(), ' ', h.get_hmatrix_tree_data()->m_minimal_target_depth, ' ', h.get_hmatrix_tree_data()->m_minimal_source_depth));
    return s;
}
struct Opt { int lr = 0, adm = 0, mint = 0, mins = 0, blocks = 0, cons = 1; long key() const { return ((((lr * 2L + adm) * 4 + mint) * 4 + mins) * 2 + blocks) * 2 + cons; } };
struct Conf { char sym, uplo; int part, tpart, psym, kernel; bool rect; };
const Conf confs[] = {{'N', 'N', 2, -1, -1, K_NONSYM, false}, {'S', 'L', 2, -1, -1, K_SYM, false}, {'N', 'N', 3, 1, -1, K_NONSYM, true}, {'S', 'U', 3, 1, 1, K_SYM, false}};
std::unique_ptr<HMatrixTreeBuilder<T, P>> new_builder(const Cluster<P> &t, const Cluster<P> &s, const Conf &f) { return std::unique_ptr<HMatrixTreeBuilder<T, P>>(new HMatrixTreeBuilder<T, P>(t, s, (P)1e-3, (P)10, f.sym, f.uplo, -1, f.tpart, f.psym)); }
std::shared_ptr<htool::VirtualLowRankGenerator<T, P>> lrgen(int k) { return k == 2 ? std::shared_ptr<htool::VirtualLowRankGenerator<T, P>>(std::make_shared<FailSome>()) : compressor<T>(k == 1 ? 0 : 3); }
std::shared_ptr<htool::VirtualAdmissibilityCondition<P>> adm(int k) {
    if (!k) return std::make_shared<htool::RjasanowSteinbach<P>>();
    return std::make_shared<ScriptedAdm<P>>([](const Cluster<P> &t, const Cluster<P> &s) { return t.get_offset() != s.get_offset() && t.get_depth() == s.get_depth() && t.get_depth() >= 2; });
}
struct Fix { // inputs shared by every case of a worker: building must not modify them
    Conf f; Geo gt, gs; std::unique_ptr<Cluster<P>> t, so; const Cluster<P> *s; std::unique_ptr<Gen<T>> a, b; Internal in; std::map<long, Seen> want; std::string trees0;
    static void node(const Cluster<P> &c, std::ostringstream &o) { o << c.get_offset() << ',' << c.get_size() << ',' << c.get_rank() << ',' << c.get_counter() << ',' << c.get_radius() << ',' << c.get_depth() << ';'; for (P x : c.get_center()) o << x << ' '; for (auto &k : c.get_children()) node(*k, o); }
    std::string trees() const { std::ostringstream o; o.precision(17); for (auto *r : {(const Cluster<P> *)t.get(), s}) { node(*r, o); for (int p : r->get_permutation()) o << p << ' '; for (auto *p : r->get_clusters_on_partition()) o << (const void *)p; } return o.str(); }
    Fix(const Conf &c) : f(c) {
        gt = geometry(LINE, 13, 2); if (f.rect) gs = geometry(GRID, 10, 2, 1); ClusterOpt o; o.part = f.part; o.minsize = 2;
        t = make_cluster<P>(gt, o); s = t.get(); if (f.rect) { ClusterOpt q; q.part = 2; so = make_cluster<P>(gs, q); s = so.get(); }
        a.reset(f.rect ? new Gen<T>(gt, gs, f.kernel) : new Gen<T>(gt, gt, f.kernel)); b.reset(f.rect ? new Gen<T>(gt, gs, K_DOMINANT) : new Gen<T>(gt, gt, f.sym == 'N' ? K_DOMINANT : K_SPD)); trees0 = trees();
    }
    H run(HMatrixTreeBuilder<T, P> &w, int g) const { return g == 0 ? w.build(*a) : g == 1 ? w.build(*b) : w.build(in); }
    const Seen &fresh(const Opt &q, int g) {
        auto it = want.find(q.key() * 3 + g); if (it != want.end()) return it->second;
        auto w = new_builder(*t, *s, f); w->set_low_rank_generator(lrgen(q.lr)); w->set_admissibility_condition(adm(q.adm)); w->set_minimal_target_depth(q.mint); w->set_minimal_source_depth(q.mins); if (q.blocks) w->set_dense_blocks_generator(std::make_shared<Blocks>()); w->set_block_tree_consistency(q.cons);
        H h = run(*w, g); return want[q.key() * 3 + g] = see(h);
    }
};
enum { OP_LR = 0, OP_ADM = 3, OP_MINT = 5, OP_MINS = 7, OP_BLOCKS = 9, OP_CONS = 11, OP_BUILD = 13, OP_DROP = 16, OP_MOVE = 17, OP_N = 18 };
static const char *const opn[OP_N] = {"lr sympartial", "lr SVD", "lr failing", "adm RS", "adm table", "mint 0", "mint 2", "mins 0", "mins 2", "blocks off", "blocks on", "cons 0", "cons 1", "build A", "build B", "build internal", "destroy oldest", "move builder"};
void builders(mc::Run &c) {
    int cf = c.pick(4, "configuration"), depth = c.thorough ? 5 : 4; std::vector<int> ops;
    const int legal_n = OP_N; 
    auto legal = [&](int o) { return !((o == OP_CONS || o == OP_CONS + 1) && confs[cf].sym != 'N'); };
    auto next = [&](int k) { int o = k == depth - 1 ? OP_BUILD + c.pick(3, "operation") : c.pick(legal_n, "operation"); if (!legal(o)) c.skip(); ops.push_back(o); };
    next(0); next(1); if (!c.mine()) return; for (int k = 2; k < depth; k++) next(k);
    static Cache<Fix> cache; Fix &x = cache.get(cf + 1, [&] { return std::unique_ptr<Fix>(new Fix(confs[cf])); });
    quiet(); c.stage("HMatrixTreeBuilder::build"); Opt q; std::string fail; bool bad = false;
    auto ctx = [&] { std::string s; for (int o : ops) s += mc::str(" ", opn[o], ";"); return mc::str(confs[cf].sym, confs[cf].uplo, " parts ", confs[cf].part, " target partition ", confs[cf].tpart, s, " ", fail); };
    {
        auto b = new_builder(*x.t, *x.s, x.f); std::vector<std::pair<std::unique_ptr<H>, Seen>> live;
        std::shared_ptr<htool::VirtualLowRankGenerator<T, P>> lrs[3]; for (int k = 0; k < 3; k++) lrs[k] = lrgen(k); // the same strategy objects serve every build
        auto blk = std::make_shared<Blocks>(); std::shared_ptr<htool::VirtualAdmissibilityCondition<P>> adms[2] = {adm(0), adm(1)};
        for (int k = 0; k < depth && !bad; k++) {
            int o = ops[k];
            if (o < OP_ADM) { q.lr = o; b->set_low_rank_generator(lrs[o]); }
            else if (o < OP_MINT) { q.adm = o - OP_ADM; b->set_admissibility_condition(adms[q.adm]); }
            else if (o < OP_MINS) { q.mint = 2 * (o - OP_MINT); b->set_minimal_target_depth(q.mint); }
            else if (o < OP_BLOCKS) { q.mins = 2 * (o - OP_MINS); b->set_minimal_source_depth(q.mins); }
            else if (o < OP_CONS) { q.blocks = o - OP_BLOCKS; b->set_dense_blocks_generator(q.blocks ? blk : nullptr); }
            else if (o < OP_BUILD) { q.cons = o - OP_CONS; b->set_block_tree_consistency(q.cons); }
            else if (o < OP_DROP) {
                const Seen &w = x.fresh(q, o - OP_BUILD); std::unique_ptr<H> h(new H(x.run(*b, o - OP_BUILD))); Seen g = see(*h);
                bool d = g.data == w.data, s = g.shape == w.shape, i = g.info == w.info; if (!d || !s || !i) { bad = true; fail = mc::str("operation ", k + 1, ": differs from a fresh builder in", d ? "" : " coefficients", s ? "" : " structure", i ? "" : " information"); }
                live.emplace_back(std::move(h), g);
            } else if (o == OP_DROP) { if (!live.empty()) live.erase(live.begin()); }
            else b.reset(new HMatrixTreeBuilder<T, P>(std::move(*b)));
            for (auto &l : live) if (!bad && !(see(*l.first) == l.second)) { bad = true; fail = mc::str("operation ", k + 1, " altered an earlier result"); }
            c.state(mc::hash_mix(q.key(), live.size() * 7 + (live.empty() ? 0 : live.back().second.data)));
        }
        if (!bad && !(x.trees() == x.trees0)) { bad = true; fail = "the cluster trees were modified"; }
        b.reset(); // and every result outlives its builder
        for (auto &l : live) if (!bad) {
            int n = l.first->get_source_cluster().get_size(), m = l.first->get_target_cluster().get_size(); std::vector<T> v = vec<T>(n, 9), y(m, T(0));
            if (l.first->get_symmetry() == 'N' && confs[cf].sym == 'N') { htool::sequential_internal_add_hmatrix_vector_product('N', T(1), *l.first, v.data(), T(0), y.data()); M A = expand<T>(*l.first, false); double e = 0, sc = 0; for (int i = 0; i < m; i++) { Z r = 0; for (int j = 0; j < n; j++) { r += A(i, j) * Z(v[j]); sc = std::max(sc, std::abs(A(i, j))); } e = std::max(e, std::abs(r - Z(y[i]))); } if (!(e <= 200 * Ty<T>::eps * (sc + 1) * n)) { bad = true; fail = "product of a result after its builder is gone"; } }
            if (!bad && !(see(*l.first) == l.second)) { bad = true; fail = "a result changed when its builder was destroyed"; }
        }
    }
    c.step(depth); c.check(!bad, "builder-reuse/" + TY, ctx); c.outcome(mc::hash_bytes(ops.data(), ops.size() * sizeof(int), cf + 1));
}
const std::string S1 = "hmatrix-builders<" + TY + ">";
mc::Registrar r1(S1.c_str(), builders);
} // namespace

// Enumerated spaces of hierarchical matrices shared by several checks.
#ifndef VERIF_SPACE_HPP
#define VERIF_SPACE_HPP
#include "hx.hpp"
namespace hx {
struct SymOpt { char sym, uplo; int kernel; };
template <class T> std::vector<SymOpt> sym_options(bool with_n = true) {
    std::vector<SymOpt> v;
    if (with_n) v.push_back({'N', 'N', K_NONSYM});
    v.push_back({'S', 'L', K_SYM}); v.push_back({'S', 'U', K_SYM});
    if (Ty<T>::cplx) { v.push_back({'H', 'L', K_HERM}); v.push_back({'H', 'U', K_HERM}); }
    return v;
}
struct PartOpt { int part, imposed; };
// geometry-driven block trees
template <class T> HCfg pick_geometric(mc::Run &c, bool square_only = false) {
    HCfg g;
    bool th = c.thorough;
    g.dim = th ? c.of(std::vector<int>{2, 3}, "dim") : 2;
    g.gt = c.of(th ? std::vector<int>{LINE, GRID, TWO, DUPL, NEG, CIRCLE, RANDOM} : std::vector<int>{LINE, GRID, TWO, NEG}, "geometry");
    g.nt = c.of(th ? std::vector<int>{1, 5, 12, 17, 26} : std::vector<int>{5, 12, 19}, "n");
    auto so = c.of(sym_options<T>(), "symmetry");
    g.sym = so.sym; g.uplo = so.uplo; g.kernel = so.kernel;
    if (!square_only && g.sym == 'N' && c.pick(2, "rectangular")) { g.gs = RANDOM; g.ns = g.nt > 6 ? g.nt - 5 : g.nt + 3; }
    g.ct.nchild = g.cs.nchild = c.of(th ? std::vector<int>{2, 3, 4} : std::vector<int>{2, 3}, "children");
    g.ct.minsize = g.cs.minsize = c.of(th ? std::vector<int>{1, 3, 40} : std::vector<int>{1, 3}, "minclustersize");
    auto po = c.of(std::vector<PartOpt>{{1, 0}, {2, 0}, {3, 2}}, "partition");
    g.ct.part = g.cs.part = po.part; g.ct.imposed = g.cs.imposed = po.imposed;
    if (po.part > 1 && g.nt < 8) c.skip();
    if (g.gs >= 0 && g.ns < 8 && po.part > 1) c.skip();
    g.eta = c.of(std::vector<double>{10, 0.8}, "eta");
    return g;
}
// a few larger configurations (deep trees, blocks and ranks beyond the small spaces, many parts and children, default leaf size)
template <class T> HCfg pick_large(mc::Run &c, std::vector<int> sizes, bool square_only = false) {
    HCfg g;
    struct L { int nchild, minsize, part, imposed; };
    g.nt = c.of(sizes, "n");
    g.dim = c.of(std::vector<int>{2, 3}, "dim");
    g.gt = c.of(c.thorough ? std::vector<int>{RANDOM, CIRCLE, TWO, GRID} : std::vector<int>{RANDOM, TWO}, "geometry");
    L l = c.of(c.thorough ? std::vector<L>{{2, 10, 1, 0}, {3, 5, 1, 0}, {2, 5, 4, 0}, {4, 6, 5, 2}, {8, 2, 1, 0}, {2, 1, 8, 0}, {2, 3, 3, 4}} : std::vector<L>{{2, 10, 1, 0}, {3, 5, 5, 0}, {8, 1, 1, 0}, {2, 4, 3, 2}}, "clusters");
    g.ct.nchild = l.nchild; g.ct.minsize = l.minsize; g.ct.part = l.part; g.ct.imposed = l.imposed; g.cs = g.ct;
    auto so = c.of(sym_options<T>(), "symmetry");
    g.sym = so.sym; g.uplo = so.uplo; g.kernel = so.kernel;
    if (!square_only && g.sym == 'N' && c.pick(2, "rectangular")) { g.gs = CIRCLE; g.ns = g.nt - 17; g.cs.minsize = l.minsize + 1; }
    g.eta = c.of(std::vector<double>{10, 1.2}, "eta");
    return g;
}
// block structures given by an exhaustive table of decisions: b1 = one bit per pair of first-level clusters,
// b2 = one bit per pair of second-level clusters (same table in each first-level block)
template <class P> std::shared_ptr<htool::VirtualAdmissibilityCondition<P>> table_admissibility(int nc, int b1, int b2, bool offdiag_only) {
    return std::make_shared<ScriptedAdm<P>>([=](const Cluster<P> &t, const Cluster<P> &s) {
        if (t.get_depth() != s.get_depth() || t.get_depth() == 0) return false;
        bool diag = t.get_offset() == s.get_offset();
        if (offdiag_only && diag) return false;
        int bit = (t.get_counter() % nc) * nc + (s.get_counter() % nc);
        if (t.get_depth() == 1) return ((b1 >> bit) & 1) != 0;
        if (t.get_depth() == 2) return ((b2 >> bit) & 1) != 0;
        return false;
    });
}
// nodes of the block tree in preorder
template <class T> void collect(HMatrix<T, Re<T>> &h, std::vector<HMatrix<T, Re<T>> *> &v) { v.push_back(&h); for (auto &c : h.get_children()) collect<T>(*c, v); }
} // namespace hx
#endif

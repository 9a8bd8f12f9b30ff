// Point sets and clustering options enumerated for the cluster-tree checks. Opens an anonymous namespace that the
// including file closes.
#include "hx.hpp"
#include <set>
using namespace hx;
#ifndef TS
#define TS double
#endif
namespace {
typedef TS P;
const std::string TN = Ty<P>::name();
struct Case { // one construction
    int n = 0, dim = 2, nchild = 2, minsize = 1, parts = 1, imposed = 0, dir = 0, split = 0;
    std::vector<P> x, radii, weights; // empty: defaults
    std::vector<int> partition;
};
std::string show(const Case &k) {
    std::string s = mc::str("n", k.n, " dim", k.dim, " children", k.nchild, " min", k.minsize, " parts", k.parts, k.imposed ? " imposed" : "", k.dir ? " box" : " principal", k.split ? " geometric" : " regular", k.radii.empty() ? "" : " radii", k.weights.empty() ? "" : " weights", " points");
    for (int i = 0; i < std::min(k.n, 12); i++) { s += " ("; for (int d = 0; d < k.dim; d++) s += mc::str(d ? "," : "", (double)k.x[i * k.dim + d]); s += ")"; }
    return s;
}
void pick_extras(mc::Run &c, Case &k) {
    int e = c.pick(c.thorough ? 4 : 2, "extras"); // neither, both, radii, weights
    if (e == 1 || e == 2) for (int i = 0; i < k.n; i++) k.radii.push_back((P)(0.05 + 0.4 * std::fabs(rnd(900 + i))));
    if (e == 1 || e == 3) for (int i = 0; i < k.n; i++) k.weights.push_back((P)(0.25 + 0.25 * (i % 5)));
}
void pick_strategies(mc::Run &c, Case &k) { k.dir = c.pick(2, "direction"); k.split = c.pick(2, "splitting"); }
// every multiset arrangement of n points over a small lattice
void pick_lattice(mc::Run &c, Case &k) {
    bool th = c.thorough;
    k.dim = c.of(std::vector<int>{2, 3}, "dim");
    k.n = c.of(th ? std::vector<int>{1, 2, 3, 4, 5, 6} : std::vector<int>{2, 4, 5}, "n");
    static const double l2[6][3] = {{0, 0, 0}, {1, 0, 0}, {-2, -1, 0}, {0.5, 3, 0}, {-1, 2, 0}, {2, 1, 0}}, l3[6][3] = {{0, 0, 0}, {1, 0, 2}, {-2, -1, 0.5}, {-1, 2, -3}, {0, 0, 1}, {1, 1, 1}};
    int q = th ? (k.n >= 6 ? 4 : 5) : (k.n >= 5 ? 3 : 4);
    for (int i = 0; i < k.n; i++) { int v = c.pick(q, "point"); const double *p = k.dim == 2 ? l2[v] : l3[v]; for (int d = 0; d < k.dim; d++) k.x.push_back((P)p[d]); }
    k.nchild = c.of(std::vector<int>{2, 3}, "children");
    k.minsize = c.of(std::vector<int>{0, 1}, "minclustersize");
    k.parts = c.of(std::vector<int>{1, 2, 3}, "parts");
    pick_strategies(c, k);
    if (k.parts > k.n) c.skip();
    if (k.parts > 1 && c.pick(2, "imposed")) { k.imposed = 1; k.partition = imposed_partition(k.n, k.parts, 2); }
}
// named geometries, larger sizes, every option
void pick_named(mc::Run &c, Case &k) {
    bool th = c.thorough;
    k.dim = c.of(std::vector<int>{2, 3}, "dim");
    int kind = c.of(std::vector<int>{LINE, LINEY, GRID, TWO, DUPL, NEG, CIRCLE, RANDOM, 100 /* square lattice */, 101 /* tilted plane */, 102 /* ring */, 103, 104 /* square lattices in the other coordinate planes */, 105 /* refined towards a point: deep trees */}, "geometry");
    k.n = c.of(th ? std::vector<int>{9, 16, 25, 36, 64, 100, 129} : std::vector<int>{9, 25, 49}, "n");
    double scale = c.of(th ? std::vector<double>{1, 1e-4, 1e4} : std::vector<double>{1, 1e-4}, "scale");
    if ((kind == 103 || kind == 104) && k.dim == 2) c.skip();
    if (kind < 100) { Geo g = geometry(kind, k.n, k.dim); for (double v : g.x) k.x.push_back((P)(v * scale)); }
    else for (int i = 0; i < k.n; i++) {
        int s = (int)std::ceil(std::sqrt((double)k.n) - 1e-9);
        double a = (i * 4) % s, b = i / s, p[3];
        if (kind == 105) { p[0] = -std::ldexp(1. + 0.125 * (i % 2), -i / 2); p[1] = p[2] = 0; }
        else if (kind > 102) { p[kind == 103 ? 0 : 1] = 0; p[kind == 103 ? 1 : 0] = a; p[2] = b; }
        else if (kind == 100) { p[0] = a; p[1] = b; p[2] = 0; }
        else if (kind == 101) { p[0] = (a - b) / std::sqrt(2.); p[1] = (a + b) / std::sqrt(3.); p[2] = (a + b) / std::sqrt(6.); }
        else { double t = 6.283185307179586 * i / k.n; p[0] = -7 + std::cos(t); p[1] = 4 + std::sin(t); p[2] = -1; }
        for (int d = 0; d < k.dim; d++) k.x.push_back((P)(p[d] * scale));
    }
    k.nchild = c.of(th ? std::vector<int>{2, 3, 4, 5} : std::vector<int>{2, 3, 5}, "children");
    k.minsize = c.of(th ? std::vector<int>{0, 1, 2, 5, 10} : std::vector<int>{1, 5}, "minclustersize");
    k.parts = c.of(th ? std::vector<int>{1, 2, 3, 4, 5, 6, 7, 8, 9, 12} : std::vector<int>{1, 2, 3, 4, 7}, "parts");
    pick_strategies(c, k);
    if (k.parts > 1) { int im = c.pick(3, "imposed"); if (im) { k.imposed = 1; k.partition = imposed_partition(k.n, k.parts, im + 1); } }
    pick_extras(c, k);
}
// larger point sets, default sizes of leaves, many children and many parts
void pick_big(mc::Run &c, Case &k) {
    bool th = c.thorough;
    k.dim = c.of(std::vector<int>{2, 3}, "dim");
    k.n = c.of(th ? std::vector<int>{200, 513, 1500} : std::vector<int>{200, 600}, "n");
    int kind = c.of(th ? std::vector<int>{LINE, GRID, TWO, DUPL, NEG, CIRCLE, RANDOM, 105 /* refined towards a point: deep trees */} : std::vector<int>{RANDOM, TWO, GRID, 105}, "geometry");
    if (kind == 105) for (int i = 0; i < k.n; i++) for (int d = 0; d < k.dim; d++) k.x.push_back(d ? P(0) : (P)-std::exp2(-100. * i / k.n));
    else { Geo g = geometry(kind, k.n, k.dim); for (double v : g.x) k.x.push_back((P)v); }
    struct L { int nchild, minsize, parts; };
    L l = c.of(th ? std::vector<L>{{2, 10, 1}, {2, 1, 16}, {3, 4, 27}, {3, 4, 10}, {8, 2, 8}, {8, 2, 5}, {12, 3, 1}, {2, 30, 4}, {16, 1, 20}, {5, 10, 5}, {3, 1, 243}, {10, 0, 1000}} : std::vector<L>{{2, 10, 1}, {2, 1, 16}, {3, 4, 10}, {8, 2, 8}, {10, 1, 12}, {5, 10, 4}, {3, 1, 243}}, "clusters");
    k.nchild = l.nchild; k.minsize = l.minsize; k.parts = l.parts;
    if (k.parts > k.n) c.skip();
    pick_strategies(c, k);
    if (k.parts > 1) { int im = c.pick(2, "imposed"); if (im) { k.imposed = 1; k.partition = imposed_partition(k.n, k.parts, im + 1); } }
    pick_extras(c, k);
}
struct Built { std::unique_ptr<Cluster<P>> root; int errors; };
Built build(const Case &k) {
    quiet();
    ClusterTreeBuilder<P> b;
    b.set_minclustersize(k.minsize);
    if (k.dir) b.set_direction_computation_strategy(std::make_shared<htool::ComputeBoundingBox<P>>());
    if (k.split) b.set_splitting_strategy(std::make_shared<htool::GeometricSplitting<P>>());
    Built r;
    r.root.reset(new Cluster<P>(b.create_cluster_tree(k.n, k.dim, k.x.data(), k.radii.empty() ? nullptr : k.radii.data(), k.weights.empty() ? nullptr : k.weights.data(), k.nchild, k.parts, k.imposed ? k.partition.data() : nullptr)));
    r.errors = logged().errors;
    return r;
}
void nodes(const Cluster<P> &t, std::vector<const Cluster<P> *> &v) { v.push_back(&t); for (auto &ch : t.get_children()) nodes(*ch, v); }

// Typed fixtures shared by the checks of hierarchical arithmetic (included inside each typed unit).
#include "space.hpp"
#include "omp_shim.hpp"
#include <htool/hmatrix/linalg/interface.hpp>
using namespace hx;
#ifndef TS
#define TS double
#endif
namespace {
typedef TS T;
typedef Re<T> P;
typedef HMatrix<T, P> H;
typedef LowRankMatrix<T> LR;
const double EPS = Ty<T>::eps;
const std::string TN = Ty<T>::name();
double fine() { return EPS > 1e-10 ? 1e-5 : 1e-9; }

Matrix<T> mat(int m, int n, uint64_t seed) { Matrix<T> A(m, n); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) A(i, j) = val<T>(seed, i, j); return A; }
LR lrm(int m, int k, int n, uint64_t seed, double eps) {
    LR L((P)eps);
    L.get_U().resize(m, k); L.get_V().resize(k, n);
    for (int l = 0; l < k; l++) {
        for (int i = 0; i < m; i++) L.get_U()(i, l) = val<T>(seed, i, l);
        for (int i = 0; i < n; i++) L.get_V()(l, i) = T(std::pow(0.2, l)) * val<T>(seed + 50, l, i); }
    return L;
}
M dense(const LR &L) { return mul(fromMat(L.get_U()), fromMat(L.get_V())); }

// three cluster trees; a view of each is the root or the cluster of one partition
struct Trees {
    Geo g[3]; std::unique_ptr<Cluster<P>> root[3];
    Trees(int part, int nchild, int minsize, bool same01) {
        int n[3] = {12, 9, 7};
        if (part % 10 > 1) { n[0] = 13; n[1] = 11; n[2] = 10; }
        for (int i = 0; i < 3; i++) {
            g[i] = geometry(i == 1 ? RANDOM : LINE, n[i], 2, i);
            ClusterOpt o; o.nchild = nchild; o.minsize = minsize; o.part = part % 10; o.imposed = part / 10; // 12: two imposed parts
            if (i == 1 && same01) { continue; }
            root[i] = make_cluster<P>(g[i], o);
        }
    }
    const Cluster<P> &at(int i, int view) const { return view < 0 ? *root[i] : root[i]->get_cluster_on_partition(view); }
};
Trees &trees(int part, int nchild, int minsize) {
    static std::map<int, std::unique_ptr<Trees>> m;
    auto &p = m[part * 100 + nchild * 10 + minsize];
    if (!p) p.reset(new Trees(part, nchild, minsize, false));
    return *p;
}
// a block structure: b0 = the whole matrix is one low-rank block, b1/b2 = tables of the two next levels
struct Pat { bool b0; int b1, b2; };
std::shared_ptr<htool::VirtualAdmissibilityCondition<P>> admissibility(Pat p, const Cluster<P> &t0, const Cluster<P> &s0, bool offdiag) {
    int dt = t0.get_depth(), ds = s0.get_depth();
    return std::make_shared<ScriptedAdm<P>>([=](const Cluster<P> &t, const Cluster<P> &s) {
        int l = t.get_depth() - dt, k = s.get_depth() - ds;
        if (offdiag && t.get_offset() == s.get_offset()) return false;
        if (l == 0 && k == 0) return p.b0;
        if (l != k) return false;
        int bit = (t.get_counter() % 2) * 2 + (s.get_counter() % 2);
        if (l == 1) return ((p.b1 >> bit) & 1) != 0;
        if (l == 2) return ((p.b2 >> bit) & 1) != 0;
        return false;
    });
}
struct Op { // a hierarchical operand between two cluster views
    std::unique_ptr<Gen<T>> gen; std::unique_ptr<H> h; M full; uint64_t raw = 0;
    Op(const Geo &gt, const Cluster<P> &t, const Geo &gs, const Cluster<P> &s, Pat p, int rank, double eps, char sym = 'N', char uplo = 'N', int kernel = K_NONSYM) {
        gen.reset(new Gen<T>(gt, gs, kernel));
        HMatrixTreeBuilder<T, P> b(t, s, (P)eps, 10, sym, uplo, -1, -1, -1);
        b.set_low_rank_generator(std::make_shared<ScriptedLR<T>>(rank));
        b.set_admissibility_condition(admissibility(p, t, s, sym != 'N'));
        h.reset(new H(b.build(*gen)));
        full = expand<T>(*h); raw = raw_hash<T>(*h);
    }
    // geometry-driven block structure and a real compressor (0..3, default options)
    Op(const Geo &gt, const Cluster<P> &t, const Geo &gs, const Cluster<P> &s, double eta, int comp, double eps, char sym, char uplo, int kernel, int) {
        gen.reset(new Gen<T>(gt, gs, kernel));
        HMatrixTreeBuilder<T, P> b(t, s, (P)eps, (P)eta, sym, uplo, -1, -1, -1);
        b.set_low_rank_generator(compressor<T>(comp));
        h.reset(new H(b.build(*gen)));
        full = expand<T>(*h); raw = raw_hash<T>(*h);
    }
    bool intact() const { return raw_hash<T>(*h) == raw; }
};
struct Sc { T a, b; };
std::vector<Sc> coefs(bool th) {
    T g = Ty<T>::mk(Z(-1.5, 0.75)), h = Ty<T>::mk(Z(0.5, -0.25));
    std::vector<Sc> v = {{T(1), T(1)}, {g, T(0)}, {h, g}, {T(0), h}};
    if (th) { v.push_back({T(-1), T(1)}); }
    return v;
}
double tolerance(double eps, const M &ab, const M &c, double mag) { return 12 * eps * (fro(ab) + fro(c) + mag) + 3e3 * EPS * (mag + 1); }
void verdict(mc::Run &c, const M &got, const M &want, double tol, const std::string &sig, const std::string &ctx) {
    double d = got.m == want.m && got.n == want.n ? fro(sub(got, want)) : INFINITY;
    c.check(d <= tol, sig, [&] { return mc::str(ctx, " error ", d, " > ", tol, "\n      got ", show(got), "\n      want ", show(want)); });
    c.outcome(hash(want)); c.step();
}

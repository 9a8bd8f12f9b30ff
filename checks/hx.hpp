// Shared fixtures: geometries, clusters, generators, hierarchical matrices, and the reference expansion of a
// hierarchical matrix (written independently of the library's own traversals).
#ifndef VERIF_HX_HPP
#define VERIF_HX_HPP
#include "ref.hpp"
#include <htool/clustering/cluster_node.hpp>
#include <htool/clustering/tree_builder/tree_builder.hpp>
#include <htool/hmatrix/hmatrix.hpp>
#include <htool/hmatrix/lrmat/SVD.hpp>
#include <htool/hmatrix/lrmat/fullACA.hpp>
#include <htool/hmatrix/lrmat/partialACA.hpp>
#include <htool/hmatrix/lrmat/sympartialACA.hpp>
#include <htool/hmatrix/tree_builder/tree_builder.hpp>
#include <map>
#include <memory>
namespace hx {
using namespace ref;
using htool::Cluster;
using htool::ClusterTreeBuilder;
using htool::HMatrix;
using htool::HMatrixTreeBuilder;
using htool::LowRankMatrix;
using htool::Matrix;
template <class T> using Re = htool::underlying_type<T>;

// errors logged by the library are turned into an exception (the library itself only logs them)
struct Err { std::string msg; };

// ---------------------------------------------------------------- geometry
enum { LINE = 0, GRID, TWO, DUPL, NEG, CIRCLE, RANDOM, LINEY, NGEO };
static const char *const geo_name[] = {"line", "grid", "two-clusters", "duplicates", "negative", "circle", "random", "line-y"};
struct Geo { int kind = 0, n = 0, dim = 2; std::vector<double> x; const double *at(int i) const { return &x[(size_t)i * dim]; } };
inline Geo geometry(int kind, int n, int dim, int shift = 0) {
    Geo g; g.kind = kind; g.n = n; g.dim = dim; g.x.resize((size_t)n * dim);
    for (int i0 = 0; i0 < n; i0++) {
        int i = n > 1 ? (int)(((long)i0 * 7 + 3) % n) : 0; // scrambled user numbering
        if (n % 7 == 0) i = (int)(((long)i0 * 5 + 3) % n);
        if (n % 35 == 0) i = i0;
        double *p = &g.x[(size_t)i0 * dim];
        int s = std::max(1, (int)std::ceil(std::sqrt((double)n) - 1e-9));
        switch (kind) {
        case LINE: p[0] = i; for (int d = 1; d < dim; d++) p[d] = 0; break;
        case LINEY: p[0] = 2; for (int d = 1; d < dim; d++) p[d] = d == 1 ? i * 0.5 : 0; break;
        case GRID: p[0] = i % s + 0.01 * (i / s); p[1] = (i / s) * 0.75; if (dim == 3) p[2] = 0.1 * ((i * 3) % 4); break;
        case TWO: p[0] = (i < n / 2 ? 0 : 40) + rnd(31 + i); p[1] = rnd(131 + i); if (dim == 3) p[2] = rnd(231 + i); break;
        case DUPL: p[0] = (i / 2) * 1.5; p[1] = (i / 4) * 0.25; if (dim == 3) p[2] = 0; break;
        case NEG: p[0] = -10 + 3 * rnd(41 + i); p[1] = -20 + 6 * rnd(141 + i); if (dim == 3) p[2] = -5 + rnd(241 + i); break;
        case CIRCLE: p[0] = 3 * std::cos(6.283185307179586 * i / n); p[1] = 2 * std::sin(6.283185307179586 * i / n); if (dim == 3) p[2] = 0.3 * std::cos(2.1 * i); break;
        default: p[0] = 5 * rnd(51 + i); p[1] = 4 * rnd(151 + i); if (dim == 3) p[2] = 3 * rnd(251 + i); break;
        }
        for (int d = 0; d < dim; d++) p[d] += shift * (d == 0 ? 6.5 : 0.75);
    }
    return g;
}

// ---------------------------------------------------------------- clusters
struct ClusterOpt { int nchild = 2, minsize = 1, part = 1; int imposed = 0; int dir = 0, split = 0; };
// imposed partitions: contiguous in user numbering, of uneven sizes
inline std::vector<int> imposed_partition(int n, int parts, int kind) {
    std::vector<int> sizes(parts, n / parts), v;
    sizes[parts - 1] += n - (n / parts) * parts;
    if (kind == 2 && parts > 1) for (int p = 0; p + 1 < parts; p++) { int d = std::min(sizes[p] - 1, 1 + p); if (d > 0) { sizes[p] -= d; sizes[p + 1] += d; } }
    if (kind == 3 && parts > 1) for (int p = parts - 1; p > 0; p--) { int d = std::min(sizes[p] - 1, 2); if (d > 0) { sizes[p] -= d; sizes[p - 1] += d; } }
    if (kind == 4) for (int p = 0; p < parts; p++) sizes[p] = p ? 1 + (p + 1 == parts ? n - parts : 0) : 1; // single points and the rest
    int o = 0;
    for (int p = 0; p < parts; p++) { v.push_back(o); v.push_back(sizes[p]); o += sizes[p]; }
    return v;
}
template <class P> struct Pts { std::vector<P> x; Pts(const Geo &g) { for (double v : g.x) x.push_back((P)v); } };
template <class P>
std::unique_ptr<Cluster<P>> make_cluster(const Geo &g, const ClusterOpt &o) {
    Pts<P> pts(g);
    ClusterTreeBuilder<P> b;
    b.set_minclustersize(o.minsize);
    if (o.dir == 1) b.set_direction_computation_strategy(std::make_shared<htool::ComputeBoundingBox<P>>());
    if (o.split == 1) b.set_splitting_strategy(std::make_shared<htool::GeometricSplitting<P>>());
    if (o.imposed) {
        auto part = imposed_partition(g.n, o.part, o.imposed);
        return std::unique_ptr<Cluster<P>>(new Cluster<P>(b.create_cluster_tree(g.n, g.dim, pts.x.data(), o.nchild, o.part, part.data())));
    }
    return std::unique_ptr<Cluster<P>>(new Cluster<P>(b.create_cluster_tree(g.n, g.dim, pts.x.data(), o.nchild, o.part)));
}
template <class P> bool enough_points_for_partition(const Cluster<P> &c, int parts) {
    if ((int)c.get_clusters_on_partition().size() != parts) return false;
    for (auto *p : c.get_clusters_on_partition()) if (!p) return false;
    return true;
}

// ---------------------------------------------------------------- generators
// coefficient of the matrix represented in user numbering
enum { K_SYM = 0, K_HERM, K_NONSYM, K_DOMINANT, K_DOMINANT_HERM, K_SPD };
template <class T>
struct Kernel {
    const Geo *t, *s; int kind; bool same;
    Z operator()(int i, int j) const {
        double d2 = 0;
        int dim = t->dim;
        for (int d = 0; d < dim; d++) { double v = t->at(i)[d] - s->at(j)[d]; d2 += v * v; }
        double d = std::sqrt(d2), base = 1. / (0.5 + d);
        double sgn = t->at(i)[0] - s->at(j)[0] + 0.37 * (t->at(i)[1] - s->at(j)[1]);
        Z v;
        switch (kind) {
        case K_SYM: v = Z(base, Ty<T>::cplx ? std::cos(0.7 * d) * base : 0); break;
        case K_HERM: v = Ty<T>::cplx ? Z(base, base * sgn * 0.2) : Z(base); break;
        case K_NONSYM: v = Z(base * (1 + 0.3 * std::tanh(sgn)), Ty<T>::cplx ? 0.3 * base * std::tanh(0.5 * sgn + 0.2) : 0); break;
        case K_DOMINANT: v = Z(base * (1 + 0.3 * std::tanh(sgn)), Ty<T>::cplx ? 0.3 * base * std::tanh(0.5 * sgn + 0.2) : 0); break;
        case K_DOMINANT_HERM: v = Ty<T>::cplx ? Z(base, base * std::tanh(sgn) * 0.2) : Z(base); break;
        default: v = Z(base); break;
        }
        if (same && i == j && kind >= K_DOMINANT) v += (kind == K_DOMINANT ? 1.0 : 1.2) * t->n * 0.4 + 1.0;
        if (same && i == j && (kind == K_HERM || kind == K_DOMINANT_HERM)) v = Z(v.real(), 0);
        return Z(Ty<T>::mk(v));
    }
};
template <class T>
struct Gen : htool::VirtualGenerator<T> {
    Kernel<T> k; int nt, ns; mutable bool bad = false;
    Gen(const Geo &t, const Geo &s, int kind) : k{&t, &s, kind, &t == &s}, nt(t.n), ns(s.n) {}
    void copy_submatrix(int M, int N, const int *rows, const int *cols, T *ptr) const override {
        for (int j = 0; j < N; j++) for (int i = 0; i < M; i++) {
            if (rows[i] < 0 || rows[i] >= nt || cols[j] < 0 || cols[j] >= ns) { bad = true; ptr[i + M * j] = T(0); continue; }
            ptr[i + (size_t)M * j] = Ty<T>::mk(k(rows[i], cols[j]));
        }
    }
    M dense_user() const { M A(nt, ns); for (int i = 0; i < nt; i++) for (int j = 0; j < ns; j++) A(i, j) = k(i, j); return A; }
    template <class P> M dense_cluster(const Cluster<P> &t, const Cluster<P> &s) const {
        M A(t.get_size(), s.get_size());
        for (int i = 0; i < A.m; i++) for (int j = 0; j < A.n; j++) A(i, j) = k(t.get_permutation()[t.get_offset() + i], s.get_permutation()[s.get_offset() + j]);
        return A;
    }
};
// arbitrary factors of a chosen rank (also rank 0), or a failure, independent of the generator: lets the
// explorer enumerate leaf kinds the compressors rarely produce.  rank+100: gives up on every block (stored dense
// although its clusters are not leaves), rank+200: on the blocks of even counter sum
template <class T>
struct ScriptedLR : htool::VirtualLowRankGenerator<T, Re<T>> {
    int r; double scale;
    ScriptedLR(int rank, double sc = 0.5) : r(rank), scale(sc) {}
    void copy_low_rank_approximation(const htool::VirtualInternalGenerator<T> &, const Cluster<Re<T>> &t, const Cluster<Re<T>> &s, Re<T>, int &rank, Matrix<T> &U, Matrix<T> &V) const override {
        if (r / 100 == 1 || (r / 100 == 2 && (t.get_counter() + s.get_counter()) % 2 == 0)) { rank = -1; return; }
        int k = std::min(r % 100, std::min(t.get_size(), s.get_size()));
        U.resize(t.get_size(), k); V.resize(k, s.get_size());
        for (int i = 0; i < t.get_size(); i++) for (int l = 0; l < k; l++) U(i, l) = val<T>(700 + l, t.get_offset() + i, s.get_offset());
        for (int i = 0; i < s.get_size(); i++) for (int l = 0; l < k; l++) V(l, i) = T(scale) * val<T>(800 + l, s.get_offset() + i, t.get_offset());
        rank = k;
    }
};
// decisions by table: (depth of target, depth of source, counters) -> admissible
template <class P>
struct ScriptedAdm : htool::VirtualAdmissibilityCondition<P> {
    std::function<bool(const Cluster<P> &, const Cluster<P> &)> f;
    ScriptedAdm(std::function<bool(const Cluster<P> &, const Cluster<P> &)> f_) : f(f_) {}
    bool ComputeAdmissibility(const Cluster<P> &t, const Cluster<P> &s, double) const override { return f(t, s); }
};

// ---------------------------------------------------------------- reference expansion
template <class T> M leaf_dense(const HMatrix<T, Re<T>> &h) {
    if (h.is_dense()) return fromMat(*h.get_dense_data());
    const auto &lr = *h.get_low_rank_data();
    M u = fromMat(lr.get_U()), v = fromMat(lr.get_V());
    return mul(u, v);
}
template <class T> void expand_rec(const HMatrix<T, Re<T>> &h, char anc, bool mir, M &out, int ro, int co) {
    char here = h.get_symmetry() != 'N' ? h.get_symmetry() : anc;
    int to = h.get_target_cluster().get_offset(), so = h.get_source_cluster().get_offset();
    if (h.is_leaf()) {
        M b = leaf_dense(h);
        if (mir && h.get_symmetry() != 'N' && h.is_dense()) b = mirror(b, h.get_UPLO(), h.get_symmetry());
        for (int i = 0; i < b.m; i++) for (int j = 0; j < b.n; j++) out(to - ro + i, so - co + j) = b(i, j);
        if (mir && here != 'N' && to != so)
            for (int i = 0; i < b.m; i++) for (int j = 0; j < b.n; j++) out(so + j - ro, to + i - co) = here == 'H' ? std::conj(b(i, j)) : b(i, j);
        return;
    }
    for (auto &ch : h.get_children()) expand_rec(*ch, here, mir, out, ro, co);
}
// mirrored: the full matrix of a symmetric/Hermitian one; otherwise only what is stored
template <class T> M expand(const HMatrix<T, Re<T>> &h, bool mirrored = true) {
    M out(h.nb_rows(), h.nb_cols());
    expand_rec(h, 'N', mirrored, out, h.get_target_cluster().get_offset(), h.get_source_cluster().get_offset());
    return out;
}
// rows/cols from cluster numbering (of the given clusters) to user numbering
template <class P> M to_user(const M &A, const Cluster<P> &t, const Cluster<P> &s) {
    M B(A.m, A.n);
    for (int i = 0; i < A.m; i++) for (int j = 0; j < A.n; j++) B(t.get_permutation()[t.get_offset() + i] - t.get_offset(), s.get_permutation()[s.get_offset() + j] - s.get_offset()) = A(i, j);
    return B;
}
template <class T> uint64_t raw_hash(const HMatrix<T, Re<T>> &h) {
    uint64_t r = mc::hash_mix(h.get_symmetry() * 256 + h.get_UPLO(), h.get_children().size());
    if (h.get_dense_data()) { r = mc::hash_mix(r, 1 + h.get_dense_data()->nb_rows() * 1000 + h.get_dense_data()->nb_cols()); r = mc::hash_bytes(h.get_dense_data()->data(), sizeof(T) * h.get_dense_data()->nb_rows() * h.get_dense_data()->nb_cols(), r); }
    if (h.get_low_rank_data()) {
        auto &l = *h.get_low_rank_data();
        r = mc::hash_mix(r, 2 + l.get_U().nb_rows() * 1000 + l.get_U().nb_cols());
        r = mc::hash_bytes(l.get_U().data(), sizeof(T) * l.get_U().nb_rows() * l.get_U().nb_cols(), r);
        r = mc::hash_bytes(l.get_V().data(), sizeof(T) * l.get_V().nb_rows() * l.get_V().nb_cols(), r);
    }
    for (auto &c : h.get_children()) r = mc::hash_mix(r, raw_hash<T>(*c));
    return r;
}
template <class T> void leaf_kinds(const HMatrix<T, Re<T>> &h, int &dense, int &lr) {
    if (h.is_leaf()) { if (h.is_dense()) dense++; else if (h.is_low_rank()) lr++; return; }
    for (auto &c : h.get_children()) leaf_kinds<T>(*c, dense, lr);
}
template <class T> bool complete(const HMatrix<T, Re<T>> &h) { // every leaf holds data
    if (h.is_leaf()) return (h.is_dense() && h.get_dense_data()) || (h.is_low_rank() && h.get_low_rank_data());
    for (auto &c : h.get_children()) if (!complete<T>(*c)) return false;
    return true;
}

// ---------------------------------------------------------------- one-entry cache keyed by the configuration
template <class F> struct Cache {
    uint64_t key = 0; std::unique_ptr<F> f;
    template <class B> F &get(uint64_t k, B build) { if (!f || key != k) { f.reset(); f = build(); key = k; } return *f; }
};
template <class T> std::vector<T> vec(int n, uint64_t seed) { std::vector<T> v(n); for (int i = 0; i < n; i++) v[i] = val<T>(seed, i, 0); return v; }

// the library only logs its errors: count them
struct LogCount { int errors = 0; std::string last; };
inline LogCount &logged() { static LogCount l; return l; }
struct RecordingWriter : htool::IObjectWriter {
    void write(htool::LogLevel l, const std::string &m) override { if (l == htool::LogLevel::ERROR || l == htool::LogLevel::CRITICAL) { logged().errors++; logged().last = m; } }
    void set_log_level(htool::LogLevel) override {}
};
inline void quiet() { static bool done = false; if (!done) { htool::Logger::get_instance().set_current_writer(std::make_shared<RecordingWriter>()); done = true; } logged() = LogCount(); }

// ---------------------------------------------------------------- hierarchical matrices
struct HCfg {
    int dim = 2, gt = 0, gs = -1 /* -1: source is the target cluster */, nt = 12, ns = 9;
    ClusterOpt ct, cs;
    double eta = 10, eps = 1e-3;
    char sym = 'N', uplo = 'N';
    int kernel = K_NONSYM, comp = 3 /* 0 SVD 1 full 2 partial 3 sympartial 4.. scripted rank comp-4 */, reqrank = -1;
    int tpart = -1, psym = -1; bool consistent = true; int mint = 0, mins = 0;
};
template <class T> std::shared_ptr<htool::VirtualLowRankGenerator<T, Re<T>>> compressor(int k) {
    typedef Re<T> P;
    switch (k) {
    case 0: return std::make_shared<htool::SVD<T, P>>();
    case 1: return std::make_shared<htool::fullACA<T, P>>();
    case 2: return std::make_shared<htool::partialACA<T, P>>();
    case 3: return std::make_shared<htool::sympartialACA<T, P>>();
    default: return std::make_shared<ScriptedLR<T>>(k - 4);
    }
}
template <class T> struct HFix {
    typedef Re<T> P;
    HCfg g; Geo geot, geos;
    std::unique_ptr<Cluster<P>> ct, cs_own; const Cluster<P> *cs = nullptr;
    std::unique_ptr<Gen<T>> gen;
    std::unique_ptr<HMatrix<T, P>> h;
    bool usable = false;
    M full;          // represented matrix, cluster numbering of h
    uint64_t raw0 = 0;
    HFix(const HCfg &c, std::shared_ptr<htool::VirtualAdmissibilityCondition<P>> adm = nullptr) : g(c) {
        geot = geometry(c.gt, c.nt, c.dim);
        if (c.gs >= 0) geos = geometry(c.gs, c.ns, c.dim, 1);
        ct = make_cluster<P>(geot, c.ct);
        if (c.gs >= 0) { cs_own = make_cluster<P>(geos, c.cs); cs = cs_own.get(); } else cs = ct.get();
        if (!enough_points_for_partition(*ct, c.ct.part) || (c.gs >= 0 && !enough_points_for_partition(*cs, c.cs.part))) return;
        gen.reset(c.gs >= 0 ? new Gen<T>(geot, geos, c.kernel) : new Gen<T>(geot, geot, c.kernel));
        HMatrixTreeBuilder<T, P> b(*ct, *cs, (P)c.eps, (P)c.eta, c.sym, c.uplo, c.reqrank, c.tpart, c.psym);
        b.set_low_rank_generator(compressor<T>(c.comp));
        if (adm) b.set_admissibility_condition(adm);
        if (!c.consistent) b.set_block_tree_consistency(false);
        b.set_minimal_target_depth(c.mint); b.set_minimal_source_depth(c.mins);
        h.reset(new HMatrix<T, P>(b.build(*gen)));
        usable = true;
        full = expand<T>(*h); raw0 = raw_hash<T>(*h);
    }
    bool intact() const { return raw_hash<T>(*h) == raw0; }
};
inline std::string show(const HCfg &c) {
    return mc::str("dim", c.dim, " t:", geo_name[c.gt], c.nt, "(", c.ct.nchild, ",", c.ct.minsize, ",", c.ct.part, c.ct.imposed ? "i" : "", ") s:", c.gs < 0 ? "same" : geo_name[c.gs], c.gs < 0 ? 0 : c.ns, " eta", c.eta, " eps", c.eps, " ", c.sym, c.uplo, " kernel", c.kernel, " comp", c.comp, " tpart", c.tpart, " psym", c.psym, c.consistent ? "" : " inconsistent");
}
} // namespace hx
#endif

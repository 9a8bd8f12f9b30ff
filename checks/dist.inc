// Distributed operators under the controlled MPI runtime: configurations, the global matrix each represents, and every
// product. Include inside the harness translation unit, after the library's headers.
namespace {
typedef TS T;
typedef Re<T> P;
const double EPS = Ty<T>::eps;
const std::string TN = Ty<T>::name();

enum BlockKind { B_NONE = 0, B_DENSE, B_HMAT, B_TWICE, B_DENSE_SPERM, B_HMAT_SPERM, B_DENSE_TPERM, B_SYM_L, B_SYM_U, B_HERM_L, B_HERM_U, B_HSYM_L, B_HSYM_U, B_HHERM_L, B_HHERM_U };
struct DCfg {
    int R = 2, nt = 12, gt = LINE, gs = -1, ns = 12, imposed_t = 0, imposed_s = 0, nchild = 2, minsize = 1;
    char sym = 'N', uplo = 'N'; int kernel = K_NONSYM; double eps = 1e-3, eta = 10;
    int layout = 0;                              // 0 default builder, 1 default local builder + off-diagonal operators, 2 row block given by the user, 3 table of local operators
    std::vector<int> off;                        // kind of operator for the block (p,q), R*R
    int comm = 0;                                // 0 world, 1 the world renumbered, 2 part of a bigger world
};
inline std::string show(const DCfg &d) {
    std::string s = mc::str("R", d.R, " target ", geo_name[d.gt], d.nt, "/", d.imposed_t, " source ", d.gs < 0 ? "same" : geo_name[d.gs], d.gs < 0 ? 0 : d.ns, "/", d.imposed_s, " ", d.sym, d.uplo, " layout", d.layout, " comm", d.comm, " blocks");
    for (int k : d.off) s += mc::str(" ", k);
    return s;
}
typedef htool::VirtualLocalOperator<T> VLO;
struct RankData { // what one process owns
    std::vector<std::unique_ptr<Matrix<T>>> mats;
    std::vector<std::unique_ptr<HMatrix<T, P>>> hms;
    std::vector<std::unique_ptr<VLO>> ops;
    std::unique_ptr<htool::DefaultApproximationBuilder<T, P>> full;
    std::unique_ptr<htool::DefaultLocalApproximationBuilder<T, P>> local;
    std::unique_ptr<htool::CustomApproximationBuilder<T, P>> custom;
    std::unique_ptr<htool::PartitionFromCluster<T, P>> pt, ps;
    std::unique_ptr<htool::DistributedOperator<T>> own;
    htool::DistributedOperator<T> *op = nullptr;
    const HMatrix<T, P> *hm = nullptr, *diag = nullptr;
    M A; // rows of this process, columns of the whole source, cluster numbering
};
struct DFix {
    DCfg g; Geo geot, geos; std::unique_ptr<Cluster<P>> ct, cs_own, aux_s, aux_t; const Cluster<P> *cs = nullptr; Geo gaux_s, gaux_t;
    std::unique_ptr<Gen<T>> gen; std::vector<RankData> r; M A; bool usable = false; int world = 0, nr = 0, nc = 0; MPI_Comm comm = nullptr; std::vector<int> ranks; bool local_t = false, local_s = false, exact = true;
    std::string problem;
    static std::vector<int> cuts(const Cluster<P> &c) { std::vector<int> v; for (auto *p : c.get_clusters_on_partition()) { v.push_back(p->get_offset()); v.push_back(p->get_size()); } return v; }
    static void renumbered(const Cluster<P> &c, const Geo &g, Geo &o, std::unique_ptr<Cluster<P>> &t, int nchild, int minsize) { // a tree over the points in the numbering of c, with the same parts
        o = g; for (int i = 0; i < g.n; i++) for (int d = 0; d < g.dim; d++) o.x[(size_t)i * g.dim + d] = g.at(c.get_permutation()[i])[d];
        Pts<P> pts(o); ClusterTreeBuilder<P> b; b.set_minclustersize(minsize); auto part = cuts(c);
        t.reset(new Cluster<P>(b.create_cluster_tree(o.n, o.dim, pts.x.data(), nchild, (int)part.size() / 2, part.data())));
    }
    const Cluster<P> &T_(int p) const { return ct->get_cluster_on_partition(p); }
    const Cluster<P> &S_(int p) const { return cs->get_cluster_on_partition(p); }
    Matrix<T> *block(RankData &d, const Cluster<P> &t, const Cluster<P> &s) { // coefficients of the kernel
        d.mats.emplace_back(new Matrix<T>(t.get_size(), s.get_size()));
        for (int i = 0; i < t.get_size(); i++) for (int j = 0; j < s.get_size(); j++) (*d.mats.back())(i, j) = Ty<T>::mk(gen->k(ct->get_permutation()[t.get_offset() + i], cs->get_permutation()[s.get_offset() + j]));
        return d.mats.back().get();
    }
    HMatrix<T, P> *hblock(RankData &d, const Cluster<P> &t, const Cluster<P> &s, const htool::VirtualGenerator<T> &gg, char sym, char uplo) {
        HMatrixTreeBuilder<T, P> b(t, s, (P)g.eps, (P)g.eta, sym, uplo, -1, -1, -1);
        d.hms.emplace_back(new HMatrix<T, P>(b.build(gg)));
        return d.hms.back().get();
    }
    void put(RankData &d, const M &b, int c0) { for (int i = 0; i < b.m; i++) for (int j = 0; j < b.n; j++) d.A(i, c0 + j) += b(i, j); }
    void add(RankData &d, int p, int q, int kind) {
        typedef htool::LocalDenseMatrix<T, P> LD; typedef htool::LocalHMatrix<T, P> LH;
        const Cluster<P> &t = T_(p), &s = S_(q); int c0 = s.get_offset();
        auto done = [&](VLO *o) { d.ops.emplace_back(o); d.op->add_local_operator(o); };
        switch (kind) {
        case B_NONE: break;
        case B_TWICE: { auto *m = block(d, t, s), *m2 = block(d, t, s); for (int i = 0; i < m2->nb_rows(); i++) for (int j = 0; j < m2->nb_cols(); j++) (*m2)(i, j) = val<T>(900 + p * 7 + q, i, j); put(d, fromMat(*m), c0); put(d, fromMat(*m2), c0); done(new LD(*m, t, s)); done(new LD(*m2, t, s)); exact = false; } break;
        case B_DENSE: { auto *m = block(d, t, s); put(d, fromMat(*m), c0); done(new LD(*m, t, s)); } break;
        case B_HMAT: { auto *h = hblock(d, t, s, *gen, 'N', 'N'); put(d, expand<T>(*h), c0); done(new LH(*h, t, s)); } break;
        case B_DENSE_SPERM: case B_HMAT_SPERM: { // the columns are numbered by another tree over the renumbered points
            const Cluster<P> &a = aux_s->get_cluster_on_partition(q); M e;
            if (kind == B_DENSE_SPERM) { d.mats.emplace_back(new Matrix<T>(t.get_size(), a.get_size())); for (int i = 0; i < t.get_size(); i++) for (int j = 0; j < a.get_size(); j++) (*d.mats.back())(i, j) = Ty<T>::mk(gen->k(ct->get_permutation()[t.get_offset() + i], cs->get_permutation()[a.get_permutation()[a.get_offset() + j]])); e = fromMat(*d.mats.back()); done(new LD(*d.mats.back(), t, a, 'N', 'N', false, true)); }
            else { Gen<T> ga(geot, gaux_s, g.kernel); HMatrix<T, P> *h = hblock(d, t, a, ga, 'N', 'N'); e = expand<T>(*h); done(new LH(*h, t, a, 'N', 'N', false, true)); }
            for (int i = 0; i < e.m; i++) for (int j = 0; j < e.n; j++) d.A(i, a.get_permutation()[a.get_offset() + j]) += e(i, j);
        } break;
        case B_DENSE_TPERM: { const Cluster<P> &a = aux_t->get_cluster_on_partition(p); d.mats.emplace_back(new Matrix<T>(a.get_size(), s.get_size())); for (int i = 0; i < a.get_size(); i++) for (int j = 0; j < s.get_size(); j++) { T v = Ty<T>::mk(gen->k(ct->get_permutation()[a.get_permutation()[a.get_offset() + i]], cs->get_permutation()[s.get_offset() + j])); (*d.mats.back())(i, j) = v; d.A(a.get_permutation()[a.get_offset() + i] - a.get_offset(), c0 + j) += Z(v); } done(new LD(*d.mats.back(), a, s, 'N', 'N', true, false)); } break;
        default: {
            bool herm = kind == B_HERM_L || kind == B_HERM_U || kind == B_HHERM_L || kind == B_HHERM_U, lower = kind == B_SYM_L || kind == B_HERM_L || kind == B_HSYM_L || kind == B_HHERM_L, hier = kind >= B_HSYM_L; char sy = herm ? 'H' : 'S', up = lower ? 'L' : 'U';
            if (hier) { auto *h = hblock(d, t, s, *gen, sy, up); put(d, expand<T>(*h), c0); done(new LH(*h, t, s, sy, up)); }
            else { auto *m = block(d, t, s); M full = mirror(fromMat(*m), up, sy); for (int i = 0; i < m->nb_rows(); i++) for (int j = 0; j < m->nb_cols(); j++) if (lower ? j > i : j < i) (*m)(i, j) = Ty<T>::mk(Z(1e3, 7)); put(d, full, c0); done(new LD(*m, t, s, sy, up)); }
        }
        }
    }
    DFix(const DCfg &d) : g(d) {
        geot = geometry(d.gt, d.nt, 2); if (d.gs >= 0) geos = geometry(d.gs, d.ns, 2, 1);
        ClusterOpt o; o.nchild = d.nchild; o.minsize = d.minsize; o.part = d.R; o.imposed = d.imposed_t; ct = make_cluster<P>(geot, o);
        o.imposed = d.imposed_s; if (d.gs >= 0) { cs_own = make_cluster<P>(geos, o); cs = cs_own.get(); } else cs = ct.get();
        if (!enough_points_for_partition(*ct, d.R) || !enough_points_for_partition(*cs, d.R)) return;
        nr = d.nt; nc = d.gs >= 0 ? d.ns : d.nt; local_t = ct->is_permutation_local(); local_s = cs->is_permutation_local();
        gen.reset(new Gen<T>(geot, d.gs >= 0 ? geos : geot, d.kernel));
        renumbered(*cs, d.gs >= 0 ? geos : geot, gaux_s, aux_s, d.nchild, d.minsize); renumbered(*ct, geot, gaux_t, aux_t, d.nchild, d.minsize);
        world = d.comm == 2 ? d.R + 1 : d.R;
        for (int p = 0; p < d.R; p++) ranks.push_back(d.comm == 0 ? p : d.comm == 1 ? d.R - 1 - p : (p + 1) % world);
        r.resize(d.R);
        mpimc::drop_comms(); if (d.comm) comm = mpimc::make_comm(ranks);
        auto body = [&](int) {
            int p = part(); if (p < 0) return; MPI_Comm cm = communicator(); RankData &D = r[p]; D.A = M(T_(p).get_size(), nc);
            switch (d.layout) {
            case 0: D.full.reset(new htool::DefaultApproximationBuilder<T, P>(*gen, *ct, *cs, (P)d.eps, (P)d.eta, d.sym, d.uplo, cm)); D.op = &D.full->distributed_operator; D.hm = &D.full->hmatrix; D.diag = D.full->block_diagonal_hmatrix; put(D, expand<T>(*D.hm), 0); break;
            case 1: D.local.reset(new htool::DefaultLocalApproximationBuilder<T, P>(*gen, *ct, *cs, (P)d.eps, (P)d.eta, d.sym, d.uplo, cm)); D.op = &D.local->distributed_operator; D.hm = &D.local->hmatrix; D.diag = D.local->block_diagonal_hmatrix; put(D, expand<T>(*D.hm), S_(p).get_offset()); break;
            case 2: {
                auto *m = block(D, T_(p), *cs); put(D, fromMat(*m), 0); D.ops.emplace_back(new htool::LocalDenseMatrix<T, P>(*m, T_(p), *cs)); D.custom.reset(new htool::CustomApproximationBuilder<T, P>(*ct, *cs, d.sym, d.uplo, cm, *D.ops.back())); D.op = &D.custom->distributed_operator;
            } break;
            default: D.pt.reset(new htool::PartitionFromCluster<T, P>(*ct)); D.ps.reset(new htool::PartitionFromCluster<T, P>(*cs)); D.own.reset(new htool::DistributedOperator<T>(*D.pt, *D.ps, d.sym, d.uplo, cm)); D.op = D.own.get();
            }
            if (d.off.size()) for (int q = 0; q < d.R; q++) add(D, p, q, d.off[p * d.R + q]);
        };
        mpimc::Options o2; o2.world = world; auto res = mpimc::run(o2, body);
        if (!res.ok) { problem = res.what; return; }
        A = M(nr, nc); for (int p = 0; p < d.R; p++) for (int i = 0; i < r[p].A.m; i++) for (int j = 0; j < nc; j++) A(T_(p).get_offset() + i, j) = r[p].A(i, j);
        usable = true;
    }
    bool covers(int p, int q) const { return g.layout == 0 || g.layout == 2 || (g.layout == 1 && p == q) || (g.off.size() && g.off[p * g.R + q] != B_NONE); }
    MPI_Comm communicator() const { return g.comm ? comm : MPI_COMM_WORLD; }
    int part() const { for (int p = 0; p < g.R; p++) if (ranks[p] == mpimc::self()) return p; return -1; }
    std::vector<int> perm(bool target) const { auto &v = (target ? *ct : *cs).get_permutation(); return std::vector<int>(v.begin(), v.end()); }
};

// ---------------------------------------------------------------- operations
enum Op { V_GG = 0, M_GG, VT_GG, MT_GG, V_LL, M_LL, VT_LL, MT_LL, IV_GL, IM_GL, IVT_LG, IMT_LG, IV_LL, IM_LL, IVT_LL, IMT_LL, SUB, LG_SRC, LG_TGT, NOPS };
const char *const op_name[] = {"vector_product_global_to_global", "matrix_product_global_to_global", "vector_product_transp_global_to_global", "matrix_product_transp_global_to_global", "vector_product_local_to_local", "matrix_product_local_to_local", "vector_product_transp_local_to_local", "matrix_product_transp_local_to_local", "internal_vector_product_global_to_local", "internal_matrix_product_global_to_local", "internal_vector_product_transp_local_to_global", "internal_matrix_product_transp_local_to_global", "internal_vector_product_local_to_local", "internal_matrix_product_local_to_local", "internal_vector_product_transp_local_to_local", "internal_matrix_product_transp_local_to_local", "internal_sub_matrix_product_to_local", "local_to_global_source", "local_to_global_target"};
inline bool uses_matrix(int o) { return o == M_GG || o == MT_GG || o == M_LL || o == MT_LL || o == IM_GL || o == IMT_LG || o == IM_LL || o == IMT_LL || o >= SUB; }
inline bool user_numbering(int o) { return o <= MT_LL; }
inline bool transposed(int o) { return o == VT_GG || o == MT_GG || o == VT_LL || o == MT_LL || o == IVT_LG || o == IMT_LG || o == IVT_LL || o == IMT_LL; }
inline bool has_work(int o) { return (o >= V_LL && o <= MT_LL) || (o >= IV_LL && o <= IMT_LL); }
inline bool local_in(int o) { return (o >= V_LL && o <= MT_LL) || (o >= IVT_LG && o <= IMT_LL) || o >= LG_SRC; }
inline bool local_out(int o) { return (o >= V_LL && o <= IM_GL) || (o >= IV_LL && o <= SUB); }
struct Call { int o = 0, mu = 1; bool perm = true, work = false; int off = 0, size = 0, seed = 0; };
inline std::string show(const Call &k) { return mc::str(op_name[k.o], " mu=", k.mu, k.perm ? " user numbering" : "", k.work ? " work buffer" : "", k.o == SUB ? mc::str(" columns ", k.off, "+", k.size) : ""); }

struct Buffers { std::vector<T> in, in0, out, work; };
inline T junk() { return Ty<T>::mk(Z(std::nan(""), std::nan(""))); }
// input of process p and the result it must get
struct Expect { M in, out; double tol = 0; };
inline Expect expectation(const DFix &f, const Call &k) { // global, in cluster numbering
    Expect e; int mu = k.mu; const M &A = f.A;
    if (k.o == LG_SRC || k.o == LG_TGT) { int n = k.o == LG_SRC ? f.nc : f.nr; e.in = M(n, mu); for (int i = 0; i < n; i++) for (int j = 0; j < mu; j++) e.in(i, j) = Z(val<T>(300 + k.seed, i, j)); e.out = e.in; return e; }
    bool tr = transposed(k.o); int n = k.o == SUB ? k.size : tr ? f.nr : f.nc;
    e.in = M(n, mu); for (int i = 0; i < n; i++) for (int j = 0; j < mu; j++) e.in(i, j) = Z(val<T>(300 + k.seed, i, j));
    if (k.o == SUB) e.out = mul(block(A, 0, k.off, f.nr, k.size), e.in); else e.out = mul(tr ? op('T', A) : A, e.in);
    double s = 0; for (int i = 0; i < A.m; i++) { double row = 0; for (int j = 0; j < A.n; j++) row += std::abs(A(i, j)); s = std::max(s, row); }
    for (int j = 0; j < A.n; j++) { double col = 0; for (int i = 0; i < A.m; i++) col += std::abs(A(i, j)); s = std::max(s, col); }
    e.tol = 40 * EPS * (2 * s + 1) * 2;
    if (tr && f.g.sym != 'N') { // the product with the represented matrix or with its mirror: equal up to the approximation
        double a = 0; for (int i = 0; i < A.m; i++) { double row = 0; for (int j = 0; j < A.n; j++) row += std::abs(A(i, j) - (f.g.sym == 'H' ? std::conj(A(j, i)) : A(j, i))); a = std::max(a, row); }
        e.tol += 2 * a;
    }
    return e;
}
// exact data of process p: sizes are exactly those the operation needs, so that any access beyond them is found
inline Buffers buffers(const DFix &f, const Call &k, const Expect &e, int p) {
    Buffers b; int mu = k.mu; bool tr = transposed(k.o);
    const Cluster<P> &ci = k.o == LG_TGT || (k.o != LG_SRC && tr) ? *f.ct : *f.cs; auto *pi = ci.get_clusters_on_partition()[p];
    int n = (int)e.in.m, i0 = 0; if (local_in(k.o)) { i0 = pi->get_offset(); n = pi->get_size(); }
    b.in.assign((size_t)n * mu, T(0));
    for (int i = 0; i < n; i++) for (int j = 0; j < mu; j++) {
        T v = Ty<T>::mk(e.in(i0 + i, j));
        if (user_numbering(k.o)) { int u = k.perm ? ci.get_permutation()[i0 + i] - i0 : i; b.in[(size_t)j * n + u] = v; }
        else b.in[(size_t)i * mu + j] = v;
    }
    b.in0 = b.in;
    const Cluster<P> &co = k.o == LG_TGT ? *f.ct : k.o == LG_SRC ? *f.cs : tr ? *f.cs : *f.ct; int m = local_out(k.o) ? co.get_clusters_on_partition()[p]->get_size() : co.get_size();
    b.out.assign((size_t)m * mu, junk());
    if (k.work) { size_t w = (size_t)f.nc * mu; if (tr) w += (size_t)f.cs->get_clusters_on_partition()[p]->get_size() * f.g.R * mu; b.work.assign(w, junk()); }
    b.in.shrink_to_fit(); b.out.shrink_to_fit(); b.work.shrink_to_fit();
    return b;
}
inline void perform(const DFix &f, const Call &k, Buffers &b, int p) {
    auto &A = *f.r[p].op; A.use_permutation() = k.perm; T *w = k.work ? b.work.data() : nullptr; const T *x = b.in.data(); T *y = b.out.data(); int mu = k.mu;
    switch (k.o) {
    case V_GG: A.vector_product_global_to_global(x, y); break;
    case M_GG: A.matrix_product_global_to_global(x, y, mu); break;
    case VT_GG: A.vector_product_transp_global_to_global(x, y); break;
    case MT_GG: A.matrix_product_transp_global_to_global(x, y, mu); break;
    case V_LL: A.vector_product_local_to_local(x, y, w); break;
    case M_LL: A.matrix_product_local_to_local(x, y, mu, w); break;
    case VT_LL: A.vector_product_transp_local_to_local(x, y, w); break;
    case MT_LL: A.matrix_product_transp_local_to_local(x, y, mu, w); break;
    case IV_GL: A.internal_vector_product_global_to_local(x, y); break;
    case IM_GL: A.internal_matrix_product_global_to_local(x, y, mu); break;
    case IVT_LG: A.internal_vector_product_transp_local_to_global(x, y); break;
    case IMT_LG: A.internal_matrix_product_transp_local_to_global(x, y, mu); break;
    case IV_LL: A.internal_vector_product_local_to_local(x, y, w); break;
    case IM_LL: A.internal_matrix_product_local_to_local(x, y, mu, w); break;
    case IVT_LL: A.internal_vector_product_transp_local_to_local(x, y, w); break;
    case IMT_LL: A.internal_matrix_product_transp_local_to_local(x, y, mu, w); break;
    case SUB: A.internal_sub_matrix_product_to_local(x, y, mu, k.off, k.size); break;
    case LG_SRC: A.local_to_global_source(x, y, mu); break;
    case LG_TGT: A.local_to_global_target(x, y, mu); break;
    }
}
inline void judge(mc::Run &c, const DFix &f, const Call &k, const Expect &e, const Buffers &b, int p, const std::string &pre) {
    int mu = k.mu; bool tr = transposed(k.o); const Cluster<P> &co = k.o == LG_TGT ? *f.ct : k.o == LG_SRC ? *f.cs : tr ? *f.cs : *f.ct; auto *pc = co.get_clusters_on_partition()[p];
    int m = local_out(k.o) ? pc->get_size() : co.get_size(), o0 = local_out(k.o) ? pc->get_offset() : 0; M got(m, mu), want(m, mu);
    for (int i = 0; i < m; i++) for (int j = 0; j < mu; j++) {
        size_t at = user_numbering(k.o) ? (size_t)j * m + (k.perm ? co.get_permutation()[o0 + i] - o0 : i) : (size_t)i * mu + j;
        got(i, j) = Z(b.out[at]); want(i, j) = e.out(o0 + i, j);
    }
    std::string sig = mc::str(pre, op_name[k.o], "/", f.g.sym, "/", TN);
    equal_to(c, got, want, e.tol, sig, mc::str(show(f.g), "; ", show(k), "; process ", p));
    c.check(b.in == b.in0, sig + "/input", show(f.g) + "; " + show(k));
}
inline std::vector<int> legal_ops(const DFix &f, bool perm) {
    std::vector<int> v; for (int o = 0; o < NOPS; o++) { if (o >= V_LL && o <= MT_LL && perm && !(f.local_s && f.local_t)) continue; v.push_back(o); } return v;
}
} // namespace

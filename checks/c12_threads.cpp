// C12: threaded assembly, products and scaling under every schedule of a controlled OpenMP runtime, with a
// happens-before race detector on every execution.
#include "race.hpp"
#include <htool/hmatrix/hmatrix.hpp>
#include <htool/hmatrix/hmatrix_output.hpp>
#include <htool/hmatrix/linalg/interface.hpp>
#include <htool/local_operators/local_hmatrix.hpp>
#include "ops.inc"
struct Scope { // controlled runtime on for one operation
    mc::Run &c; uint64_t before; int budget;
    // full: every order; otherwise at most `deviations` departures from the base order (0: stay, 1: round robin)
    Scope(mc::Run &c_, int threads, bool full, int deviations, int base) : c(c_), budget(deviations) {
        ompmc::set_threads(threads); ompmc::reset_stats(); ompmc::set_reduction(true);
        race::install(); race::reset(); race::enable(true);
        ompmc::set_policy([=](int n, bool, const char *) -> int {
            race::Pause pause;
            int def = base ? n - 1 : 0;
            if (full) return c.pick(n, "next");
            if (budget <= 0) return def;
            int k = c.pick(n, "next");
            int r = (def + k) % n; // alternative 0 is the base order
            if (k) budget--;
            return r;
        });
    }
    void done(const std::string &what, const std::string &ctx) {
        off();
        auto s = ompmc::stats();
        c.step(s.points); c.state(s.schedule);
        c.check(!race::found(), what + "/race", [&] { return ctx + " " + race::report(); });
    }
    void off() { race::enable(false); ompmc::set_policy(nullptr); ompmc::set_reduction(false); ompmc::set_threads(1); }
    ~Scope() { off(); }
};
struct Mode { bool full; int dev; int base; };
// exploration mode for a region whose loops have n iterations in total
Mode pick_mode(mc::Run &c, int n, int threads) {
    double lim = c.thorough ? 300000 : n > 8 ? 450 : 3000;
    if (std::pow(threads, n) * (threads == 2 ? 2 : 6) <= lim) return {true, 0, 0};
    int base = c.pick(2, "base order");
    int dev = 1; double cost = n * (threads - 1);
    while (dev < 4 && cost * n * (threads - 1) / (dev + 1) <= lim) { cost *= double(n) * (threads - 1) / (dev + 1); dev++; }
    return {false, dev, base};
}
std::map<std::string, std::string> infos(const H &h) {
    auto m = get_hmatrix_information(h);
    m.erase("Number_of_threads");
    for (auto it = m.begin(); it != m.end();) it = it->first.find("alltime") != std::string::npos || it->first.find("time") != std::string::npos ? m.erase(it) : std::next(it);
    return m;
}
// compressor whose outcome is an exhaustive table over the blocks: bit set -> fails (zero rows)
template <class S> struct TableLR : htool::VirtualLowRankGenerator<S, Re<S>> {
    unsigned fails; int rank;
    TableLR(unsigned f, int r) : fails(f), rank(r) {}
    void copy_low_rank_approximation(const htool::VirtualInternalGenerator<S> &A, const Cluster<Re<S>> &t, const Cluster<Re<S>> &s, Re<S> eps, int &r, Matrix<S> &U, Matrix<S> &V) const override {
        int bit = (t.get_counter() * 3 + s.get_counter() + t.get_depth()) & 3;
        if ((fails >> bit) & 1) { r = -1; return; }
        ScriptedLR<S>(rank).copy_low_rank_approximation(A, t, s, eps, r, U, V);
    }
};
struct DenseGen : htool::VirtualDenseBlocksGenerator<T> {
    const Gen<T> &g; const Cluster<P> &t, &s;
    DenseGen(const Gen<T> &g_, const Cluster<P> &t_, const Cluster<P> &s_) : g(g_), t(t_), s(s_) {}
    void copy_dense_blocks(const std::vector<int> &M_, const std::vector<int> &N_, const std::vector<int> &r, const std::vector<int> &c, std::vector<T *> &p) const override {
        for (size_t i = 0; i < M_.size(); i++) g.copy_submatrix(M_[i], N_[i], t.get_permutation().data() + r[i], s.get_permutation().data() + c[i], p[i]);
    }
};
struct Conf { int nchild, b1, b2; SymOpt so; bool rect; int n; };
Conf pick_conf(mc::Run &c) {
    Conf f;
    f.so = c.of(sym_options<T>(), "symmetry");
    f.rect = f.so.sym == 'N' && c.pick(2, "rectangular");
    f.nchild = 2;
    // tables of admissible pairs on the first two levels
    f.b1 = c.of(c.thorough ? std::vector<int>{0, 15, 6, 9, 2, 8, 7} : std::vector<int>{0, 15, 6, 2}, "level 1");
    f.b2 = c.of(c.thorough ? std::vector<int>{0, 15, 6, 1, 11} : std::vector<int>{0, 6}, "level 2");
    f.n = c.of(std::vector<int>{8, 17}, "points"); // 17: deep trees, bounded departures from the base orders
    if (f.n == 17 && !c.thorough && !(f.b2 == 6 && f.b1 != 15)) c.skip();
    return f;
}
struct Built { std::unique_ptr<Cluster<P>> t, s; const Cluster<P> *sp; Geo gt, gs; std::unique_ptr<Gen<T>> gen; Conf f;
    Built(Conf f_, int n) : f(f_) {
        ClusterOpt o; o.nchild = f.nchild; o.minsize = 2;
        gt = geometry(LINE, n, 2); t = make_cluster<P>(gt, o); sp = t.get();
        if (f.rect) { gs = geometry(RANDOM, n + 1, 2, 1); s = make_cluster<P>(gs, o); sp = s.get(); }
        gen.reset(f.rect ? new Gen<T>(gt, gs, f.so.kernel) : new Gen<T>(gt, gt, f.so.kernel));
    }
    std::unique_ptr<HMatrixTreeBuilder<T, P>> builder() const {
        std::unique_ptr<HMatrixTreeBuilder<T, P>> b(new HMatrixTreeBuilder<T, P>(*t, *sp, (P)1e-3, 10, f.so.sym, f.so.uplo, -1, -1, -1));
        b->set_admissibility_condition(table_admissibility<P>(f.nchild, f.b1, f.b2, f.so.sym != 'N'));
        return b;
    }
};
int leaves_of(const H &h) { int d = 0, l = 0; leaf_kinds<T>(h, d, l); return d + l; }
std::string show(const Conf &f, int threads) { return mc::str(TN, " ", f.so.sym, f.so.uplo, f.rect ? " rectangular" : "", " n ", f.n, " tables ", f.b1, "/", f.b2, " threads ", threads); }


// iterations shared by the threads in one call of f
template <class F> int iterations(F f) {
    ompmc::set_threads(2); ompmc::reset_stats(); ompmc::set_policy(nullptr); ompmc::set_reduction(true);
    f();
    int n = (int)ompmc::stats().grabs;
    ompmc::set_threads(1); ompmc::set_reduction(false);
    return n;
}

// ---------------------------------------------------------------- assembly
struct BuildFix { Built b; uint64_t raw; std::map<std::string, std::string> info; int n; M full; BuildFix(Conf f, int np) : b(f, np), raw(0), n(0) {} };
void assembly(mc::Run &c) {
    quiet();
    Conf f = pick_conf(c);
    int comp = c.of(c.thorough ? std::vector<int>{0, 1, 2, 3, 4, 5, 6, 7} : std::vector<int>{0, 3, 4, 5, 6, 1, 2}, "compressor"); // 4..7: tables of failures
    bool dense_gen = comp == 5 && c.pick(2, "dense blocks generator");
    int threads = c.of(std::vector<int>{2, 3}, "threads");
    if (!c.thorough && (comp == 1 || comp == 2) && (threads == 3 || f.b2 != 6 || f.b1 == 15)) c.skip();
    if (!c.mine()) return;
    static Cache<BuildFix> cache;
    c.stage("assembly");
    auto prepare = [&](Built &b) {
        auto bu = b.builder();
        if (comp < 4) bu->set_low_rank_generator(compressor<T>(comp));
        else bu->set_low_rank_generator(std::make_shared<TableLR<T>>(comp == 4 ? 0 : comp == 5 ? 5 : comp == 6 ? 15 : 10, 1));
        if (dense_gen) bu->set_dense_blocks_generator(std::make_shared<DenseGen>(*b.gen, *b.t, *b.sp));
        return bu;
    };
    auto &x = cache.get(c.cfg_hash(), [&] {
        std::unique_ptr<BuildFix> r(new BuildFix(f, f.n));
        ompmc::set_threads(1);
        { H h = prepare(r->b)->build(*r->b.gen); r->raw = raw_hash<T>(h); r->info = infos(h); r->full = expand<T>(h); }
        r->n = iterations([&] { H h = prepare(r->b)->build(*r->b.gen); });
        return r;
    });
    Mode m = pick_mode(c, x.n, threads);
    std::string ctx = show(f, threads) + mc::str(" compressor ", comp, " dense generator ", dense_gen);
    auto bu = prepare(x.b);
    Scope s(c, threads, m.full, m.dev, m.base);
    std::unique_ptr<H> h(new H(bu->build(*x.b.gen)));
    s.done("assembly", ctx);
    c.check(raw_hash<T>(*h) == x.raw, "assembly/result/" + TN, [&] { return ctx + mc::str(" error ", fro(sub(expand<T>(*h), x.full))); });
    auto i = infos(*h);
    c.check(i == x.info, "assembly/information/" + TN, [&] { std::string d; for (auto &p : i) if (x.info[p.first] != p.second) d += " " + p.first + "=" + p.second + " instead of " + x.info[p.first]; return ctx + d; });
    c.outcome(x.raw);
}

// ---------------------------------------------------------------- products and scaling
struct ProdFix { Built b; std::unique_ptr<H> h, fact; M full; uint64_t raw; int n; ProdFix(Conf f, int np) : b(f, np), raw(0), n(0) {} };
void products(mc::Run &c) {
    quiet();
    Conf f = pick_conf(c);
    int rank = c.of(std::vector<int>{1, 0}, "rank");
    int what = c.pick(3, "operation"); // vector, row major matrix, scale
    char trans = what == 2 ? 'N' : c.ch("NTC", "trans");
    if (Ty<T>::cplx && ((trans == 'T' && f.so.sym == 'H') || (trans == 'C' && f.so.sym == 'S'))) c.skip();
    int threads = c.of(std::vector<int>{2, 3}, "threads");
    if (!c.mine()) return;
    static Cache<ProdFix> cache;
    c.stage("build");
    auto in = [](int n, int mu, int seed) { std::vector<T> v((size_t)n * mu); for (size_t i = 0; i < v.size(); i++) v[i] = val<T>(seed, i, 3); return v; };
    int mu = what == 1 ? 2 : 1;
    T alpha = Ty<T>::mk(Z(0.75, -0.5)), beta = Ty<T>::mk(Z(-1.25, 0.25));
    auto run = [&](H &h, std::vector<T> &y, const std::vector<T> &v) {
        if (what == 0) htool::openmp_internal_add_hmatrix_vector_product(trans, alpha, h, v.data(), beta, y.data());
        else if (what == 1) htool::openmp_internal_add_hmatrix_matrix_product_row_major(trans, 'N', alpha, h, v.data(), beta, y.data(), mu);
        else htool::scale(alpha, h);
    };
    auto &x = cache.get(c.cfg_hash(), [&] {
        std::unique_ptr<ProdFix> r(new ProdFix(f, f.n));
        ompmc::set_threads(1);
        auto bu = r->b.builder();
        bu->set_low_rank_generator(std::make_shared<ScriptedLR<T>>(rank));
        r->h.reset(new H(bu->build(*r->b.gen)));
        r->full = expand<T>(*r->h); r->raw = raw_hash<T>(*r->h);
        H copy = *r->h;
        std::vector<T> v = in(r->full.n + r->full.m, mu, 1), y = v;
        r->n = iterations([&] { run(copy, y, v); });
        return r;
    });
    Mode m = pick_mode(c, x.n, threads);
    c.stage(what == 0 ? "vector product" : what == 1 ? "matrix product" : "scale");
    std::string ctx = show(f, threads) + mc::str(" trans ", trans, " operation ", what);
    M A = op(trans, x.full);
    double mag = maxabs(x.full) * A.n * 4 + 4;
    if (what == 2) {
        H h = *x.h;
        std::vector<T> none;
        { Scope s(c, threads, m.full, m.dev, m.base); run(h, none, none); s.done("scale", ctx); }
        M got = expand<T>(h, false), want = expand<T>(*x.h, false);
        for (auto &z : want.a) z *= Z(alpha);
        verdict(c, got, want, 60 * EPS * mag, "scale/result/" + TN, ctx);
        return;
    }
    auto v = in(A.n, mu, 1), y = in(A.m, mu, 2), y0 = y;
    { Scope s(c, threads, m.full, m.dev, m.base); run(*x.h, y, v); s.done("product", ctx); }
    M X(A.n, mu), want(A.m, mu), got(A.m, mu);
    for (int i = 0; i < A.n; i++) for (int j = 0; j < mu; j++) X(i, j) = Z(v[(size_t)i * mu + j]);
    M ax = mul(A, X);
    for (int i = 0; i < A.m; i++) for (int j = 0; j < mu; j++) { want(i, j) = Z(alpha) * ax(i, j) + Z(beta) * Z(y0[(size_t)i * mu + j]); got(i, j) = Z(y[(size_t)i * mu + j]); }
    verdict(c, got, want, 60 * EPS * mag * 4, mc::str("product/result/", what, "/", TN), ctx);
    c.check(raw_hash<T>(*x.h) == x.raw, "product/operand/" + TN, ctx);
}

// ---------------------------------------------------------------- shared use of an operator by several threads
void readers(mc::Run &c) {
    quiet();
    Conf f = pick_conf(c);
    const int NOPS = 20;
    int a = c.pick(NOPS, "first"), b = c.pick(NOPS, "second");
    if (b < a) c.skip();
    if (!c.mine()) return;
    static Cache<ProdFix> cache;
    c.stage("build");
    auto &x = cache.get(c.cfg_hash(), [&] {
        std::unique_ptr<ProdFix> r(new ProdFix(f, f.n));
        ompmc::set_threads(1);
        auto bu = r->b.builder();
        bu->set_low_rank_generator(std::make_shared<ScriptedLR<T>>(1));
        r->h.reset(new H(bu->build(*r->b.gen)));
        r->full = expand<T>(*r->h); r->raw = raw_hash<T>(*r->h);
        bool lu = f.so.sym == 'N' && !f.rect, ch = f.so.sym == 'H' || (f.so.sym == 'S' && !Ty<T>::cplx);
        if (lu || ch) {
            r->fact.reset(new H(*r->h)); // made dominant so that it can be factorized
            preorder_tree_traversal(*r->fact, [&](H &q) { if (q.is_dense() && q.get_target_cluster() == q.get_source_cluster()) for (int i = 0; i < q.get_dense_data()->nb_rows(); i++) (*q.get_dense_data())(i, i) = T(50); });
            if (lu) htool::lu_factorization(*r->fact); else htool::cholesky_factorization(f.so.uplo, *r->fact);
            if (logged().errors) r->fact.reset();
        }
        return r;
    });
    const H &h = *x.h; const H *fact = x.fact.get(); char uplo = f.so.uplo; bool square = !f.rect, plain = f.so.sym == 'N';
    auto possible = [&](int k) { return k == 8 || k == 9 || k == 16 ? !(Ty<T>::cplx && f.so.sym == 'H') : k == 11 ? square : k == 14 || k == 15 ? fact != nullptr : k == 17 ? square && plain : k == 18 ? plain : true; };
    if (!possible(a) || !possible(b)) c.skip();
    c.stage("concurrent readers");
    std::string ctx = show(f, 2) + mc::str(" operations ", a, " and ", b);
    M got[2], want[2];
    auto work = [&](int k, M &out) {
        int n = x.full.n, m = x.full.m;
        out = M(m, 1);
        std::vector<T> v(n), y(m, T(0));
        for (int i = 0; i < n; i++) v[i] = val<T>(5, i, 0);
        switch (k) {
        case 0: htool::openmp_internal_add_hmatrix_vector_product('N', T(1), h, v.data(), T(0), y.data()); break;
        case 1: htool::sequential_internal_add_hmatrix_vector_product('N', T(1), h, v.data(), T(0), y.data()); break;
        case 2: htool::openmp_internal_add_hmatrix_matrix_product_row_major('N', 'N', T(1), h, v.data(), T(0), y.data(), 1); break;
        case 3: { Matrix<T> D(m, n); htool::copy_to_dense(h, D.data()); M d = fromMat(D); for (int i = 0; i < m; i++) { Z z = 0; for (int j = 0; j < n; j++) z += d(i, j) * Z(v[j]); out(i, 0) = z; } return; }
        case 4: { H copy = h; M d = expand<T>(copy); for (int i = 0; i < m; i++) { Z z = 0; for (int j = 0; j < n; j++) z += d(i, j) * Z(v[j]); out(i, 0) = z; } return; }
        case 5: { auto i = infos(h); out(0, 0) = (double)i.size(); return; }
        case 6: htool::internal_add_hmatrix_vector_product('N', T(1), h, v.data(), T(0), y.data()); break;
        case 8: case 9: { std::vector<T> u(m), w(n, T(0)); for (int i = 0; i < m; i++) u[i] = val<T>(5, i, 1);
            if (k == 8) htool::openmp_internal_add_hmatrix_vector_product('T', T(1), h, u.data(), T(0), w.data()); else htool::internal_add_hmatrix_matrix_product_row_major('T', 'N', T(1), h, u.data(), T(0), w.data(), 1);
            out = M(n, 1); for (int i = 0; i < n; i++) out(i, 0) = Z(w[i]); return; }
        case 10: { Matrix<T> D(m, n); htool::copy_to_dense_in_user_numbering(h, D.data()); M d = fromMat(D); for (int i = 0; i < m; i++) { Z z = 0; for (int j = 0; j < n; j++) z += d(i, j) * Z(v[j]); out(i, 0) = z; } return; }
        case 11: htool::copy_diagonal(h, y.data()); break;
        case 12: { Matrix<T> B(n, 2), C(m, 2); for (int i = 0; i < n; i++) for (int j = 0; j < 2; j++) B(i, j) = v[i]; htool::internal_add_hmatrix_matrix_product('N', 'N', T(1), h, B, T(0), C); for (int i = 0; i < m; i++) out(i, 0) = Z(C(i, 1)); return; }
        case 13: { htool::LocalHMatrix<T, P> op(h, *x.b.t, *x.b.sp, f.so.sym, f.so.uplo, true, true); op.add_vector_product_global_to_local(T(1), v.data(), T(0), y.data()); break; }
        case 14: case 15: { Matrix<T> B(m, 2); for (int i = 0; i < m; i++) for (int j = 0; j < 2; j++) B(i, j) = val<T>(6, i, j);
            if (k == 14) { if (plain) htool::internal_lu_solve('N', *fact, B); else htool::internal_cholesky_solve(uplo, *fact, B); } else { if (plain) htool::lu_solve('T', *fact, B); else htool::cholesky_solve(uplo, *fact, B); }
            for (int i = 0; i < m; i++) out(i, 0) = Z(B(i, 1)); return; }
        case 16: { htool::LocalHMatrix<T, P> op(h, *x.b.t, *x.b.sp, f.so.sym, f.so.uplo, k & 1, true); std::vector<T> u(m), w(n, T(0)); for (int i = 0; i < m; i++) u[i] = val<T>(5, i, 1); op.add_vector_product_transp_local_to_global(T(1), u.data(), T(0), w.data()); out = M(n, 1); for (int i = 0; i < n; i++) out(i, 0) = Z(w[i]); return; }
        case 17: { H r(h.get_target_cluster(), h.get_source_cluster()); auto bu = x.b.builder(); bu->set_low_rank_generator(std::make_shared<ScriptedLR<T>>(0)); r = bu->build(*x.b.gen); htool::internal_add_hmatrix_hmatrix_product('N', 'N', T(1), h, h, T(0), r); M d = expand<T>(r); for (int i = 0; i < m; i++) { Z z = 0; for (int j = 0; j < n; j++) z += d(i, j) * Z(v[j]); out(i, 0) = z; } return; }
        case 18: { Matrix<T> B(2, m), C(2, n); for (int i = 0; i < m; i++) for (int j = 0; j < 2; j++) B(j, i) = val<T>(5, i, 1); htool::internal_add_matrix_hmatrix_product('N', 'N', T(1), B, h, T(0), C); out = M(n, 1); for (int i = 0; i < n; i++) out(i, 0) = Z(C(1, i)); return; }
        case 19: { auto l = htool::get_leaves_from(h); for (auto *q : l.first) { M d = leaf_dense<T>(*q); int o = q->get_target_cluster().get_offset(); for (int i = 0; i < d.m; i++) for (int j = 0; j < d.n; j++) out(o + i, 0) += d(i, j); } return; }
        default: { auto bu = x.b.builder(); bu->set_low_rank_generator(std::make_shared<ScriptedLR<T>>(1)); H other = bu->build(*x.b.gen); M d = expand<T>(other); for (int i = 0; i < m; i++) { Z z = 0; for (int j = 0; j < n; j++) z += d(i, j) * Z(v[j]); out(i, 0) = z; } return; }
        }
        for (int i = 0; i < m; i++) out(i, 0) = Z(y[i]);
    };
    work(a, want[0]); work(b, want[1]);
    Scope s(c, 2, true, 0, 0);
#pragma omp parallel
    { int t = omp_get_thread_num(); work(t == 0 ? a : b, got[t]); }
    s.done("readers", ctx);
    for (int t = 0; t < 2; t++) verdict(c, got[t], want[t], 60 * EPS * (maxabs(x.full) * x.full.n + 1), "readers/result/" + TN, ctx);
    c.check(raw_hash<T>(h) == x.raw, "readers/operand/" + TN, ctx);
}
mc::Registrar r1(("assembly<" + TN + ">").c_str(), assembly), r2(("products<" + TN + ">").c_str(), products), r3(("readers<" + TN + ">").c_str(), readers);
} // namespace

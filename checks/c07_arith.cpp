// C07: arithmetic mixing hierarchical, low-rank and dense operands against the dense computation on the
// operands' own entries.  Block structures are enumerated as tables of admissibility decisions.
#include "ops.inc"
struct View { int part, out, mid, in; };
// consistent views: all roots of unpartitioned trees, all local, or the distributed row block O local x M root x I root
std::vector<View> views(bool th) { std::vector<View> v = {{1, -1, -1, -1}, {2, 0, 0, 0}, {2, 1, -1, -1}}; if (th) { v.push_back({2, 1, 0, 1}); v.push_back({2, -1, -1, -1}); v.push_back({3, 2, 1, 0}); v.push_back({3, 1, -1, -1}); } return v; }
M dense_of(const H &h) { return expand<T>(h); }

int structure(mc::Run &c, std::vector<int> values, const char *l) { return c.of(values, l); }
const std::vector<int> ALL16 = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15};

// hierarchical * hierarchical -> dense, low-rank, hierarchical
void hh(mc::Run &c) {
    quiet(); ompmc::set_threads(1); bool th = c.thorough;
    View v = c.of(views(th), "view");
    int nchild = th ? c.of(std::vector<int>{2, 3}, "children") : 2, minsize = c.of(std::vector<int>{1, 3}, "minclustersize");
    bool local = v.out >= 0 && v.mid >= 0;
    Pat pa{false, structure(c, th ? ALL16 : std::vector<int>{0, 6, 9, 15, 2, 13}, "A level 1"), c.of(std::vector<int>{6, 0}, "A level 2")}, pb{false, structure(c, th ? ALL16 : std::vector<int>{0, 9, 15, 4, 11}, "B level 1"), 9};
    if (local) { pa.b0 = c.pick(2, "A is one low-rank block"); pb.b0 = c.pick(2, "B is one low-rank block"); if ((pa.b0 && (pa.b1 || pa.b2 != 6)) || (pb.b0 && pb.b1)) c.skip(); }
    char ta = c.ch("NTC", "transa"), tb = c.ch("NTC", "transb");
    double eps = c.of(std::vector<double>{fine(), 1e-2}, "epsilon");
    if (eps > 1e-3 && !(pa.b1 == 6 && pa.b2 == 6)) c.skip();
    int ra = c.of(std::vector<int>{1, 2, 0, 101, 201}, "rank of compressed leaves of A"); // above 100: compression fails
    if (ra != 1 && !(pa.b1 == 6 || pa.b1 == 15 || pa.b0)) c.skip();
    int rb = c.of(std::vector<int>{1, 101}, "rank of compressed leaves of B");
    if (rb != 1 && (!(pb.b1 == 9 || pb.b1 == 15 || pb.b0) || ra == 2 || ra == 201 || eps > 1e-3)) c.skip();
    if (!c.mine()) return;
    Trees &t = trees(v.part, nchild, minsize);
    const Cluster<P> &O = t.at(0, v.out), &Mi = t.at(1, v.mid), &I = t.at(2, v.in);
    static Cache<std::pair<std::unique_ptr<Op>, std::unique_ptr<Op>>> cache;
    c.stage("build operands");
    auto &ops = cache.get(c.cfg_hash(), [&] {
        std::unique_ptr<std::pair<std::unique_ptr<Op>, std::unique_ptr<Op>>> p(new std::pair<std::unique_ptr<Op>, std::unique_ptr<Op>>);
        p->first.reset(ta == 'N' ? new Op(t.g[0], O, t.g[1], Mi, pa, ra, eps) : new Op(t.g[1], Mi, t.g[0], O, pa, ra, eps));
        p->second.reset(tb == 'N' ? new Op(t.g[1], Mi, t.g[2], I, pb, rb, eps) : new Op(t.g[2], I, t.g[1], Mi, pb, rb, eps));
        return p;
    });
    Op &A = *ops.first, &B = *ops.second;
    int target = c.pick(3, "result: dense, low-rank, hierarchical");
    Sc k = c.of(coefs(th), "alpha, beta");
    M ab = scal(Z(k.a), mul(op(ta, A.full), op(tb, B.full)));
    double mag = std::abs(k.a) * maxabs(A.full) * maxabs(B.full) * A.full.n;
    std::string ctx = mc::str(ta, tb, " view ", v.part, "/", v.out, v.mid, v.in, " A ", pa.b0, "/", pa.b1, "/", pa.b2, " B ", pb.b0, "/", pb.b1, " alpha ", k.a, " beta ", k.b, " eps ", eps);
    std::string z = ra == 0 ? "-rank0/" : "/";
    if (target == 0) {
        Matrix<T> C = mat(O.get_size(), I.get_size(), 71); M c0 = fromMat(C);
        c.stage("H*H=dense");
        htool::internal_add_hmatrix_hmatrix_product(ta, tb, k.a, *A.h, *B.h, k.b, C);
        verdict(c, fromMat(C), axpby(1, ab, Z(k.b), c0), tolerance(0, ab, c0, mag), mc::str("H*H=dense", z, ta, tb, "/", TN), ctx);
    } else if (target == 1) {
        LR C = lrm(O.get_size(), c.of(std::vector<int>{2, 0}, "rank of C"), I.get_size(), 72, eps); M c0 = dense(C);
        c.stage("H*H=low-rank");
        htool::internal_add_hmatrix_hmatrix_product(ta, tb, k.a, *A.h, *B.h, k.b, C);
        c.check(C.get_U().nb_cols() == C.get_V().nb_rows(), "H*H=low-rank-shape/" + TN, ctx);
        verdict(c, dense(C), axpby(1, ab, Z(k.b), c0), tolerance(eps, ab, c0, mag), mc::str("H*H=low-rank", z, ta, tb, "/", TN), ctx);
    } else {
        Pat pc{false, c.of(th ? ALL16 : std::vector<int>{0, 6, 15, 9, 7}, "C level 1"), 6};
        if (local) { pc.b0 = c.pick(2, "C is one low-rank block"); if (pc.b0 && pc.b1) c.skip(); }
        int rc = c.of(std::vector<int>{2, 102}, "rank of compressed leaves of C"); if (rc != 2 && (pc.b1 == 0 || pc.b1 == 9 || (pa.b1 != 0 && pa.b1 != 15 && pa.b1 != 6))) c.skip();
        c.stage("build C");
        Op C(t.g[0], O, t.g[2], I, pc, rc, eps);
        c.stage("H*H=hierarchical");
        htool::internal_add_hmatrix_hmatrix_product(ta, tb, k.a, *A.h, *B.h, k.b, *C.h);
        std::string q = C.h->is_hierarchical() && !(A.h->is_hierarchical() && B.h->is_hierarchical()) ? "H*H=hierarchical-from-leaf" : "H*H=hierarchical";
        verdict(c, dense_of(*C.h), axpby(1, ab, Z(k.b), C.full), tolerance(eps, ab, C.full, mag), mc::str(q, z, ta, tb, "/", TN), ctx + mc::str(" C ", pc.b0, "/", pc.b1));
    }
    c.check(A.intact() && B.intact(), "H*H-operand-changed/" + TN, ctx);
}
// products with a dense or low-rank operand on either side
void mixed(mc::Run &c) {
    quiet(); ompmc::set_threads(1); bool th = c.thorough;
    View v = c.of(views(th), "view");
    int nchild = th ? c.of(std::vector<int>{2, 3}, "children") : 2;
    auto so = c.of(sym_options<T>(), "symmetry");
    bool hleft = c.pick(2, "hierarchical operand on the left") == 0, lowrank = c.pick(2, "other operand low-rank");
    Pat p{false, c.of(th ? ALL16 : std::vector<int>{0, 6, 9, 15, 2, 4}, "level 1"), c.of(std::vector<int>{6, 15}, "level 2")};
    if (so.sym != 'N' && ((p.b1 & 9) || v.out != v.mid)) c.skip(); // a symmetric operand is square, on one tree
    if (so.sym == 'N' && v.out >= 0 && v.mid >= 0) { p.b0 = c.pick(2, "one low-rank block"); if (p.b0 && p.b1) c.skip(); }
    char ta = c.ch("NTC", "transa"), tb = c.ch("NTC", "transb");
    char tH = hleft ? ta : tb;
    if (hleft && Ty<T>::cplx && ((so.sym == 'H' && tH == 'T') || (so.sym == 'S' && tH == 'C'))) c.skip(); // reported as unsupported by the library
    double eps = c.of(std::vector<double>{fine(), 1e-2}, "epsilon");
    if (eps > 1e-3 && p.b1 != 6) c.skip();
    int rh = c.of(std::vector<int>{1, 0, 101}, "rank of compressed leaves");
    if (!c.mine()) return;
    Trees &t = trees(v.part, nchild, 1);
    int gi[3] = {0, 1, 2}; // geometry of output, middle, input
    bool sym = so.sym != 'N';
    // hierarchical op(H): left: O x M, right: M x I.  Symmetric: O==M resp. M==I on tree 0
    int ro = hleft ? v.out : v.mid, co = hleft ? v.mid : v.in, gr = hleft ? 0 : 1, gc = hleft ? 1 : 2;
    if (!hleft && (v.out >= 0) != (v.mid >= 0)) { ro = v.out; co = v.mid; gr = 0; gc = 1; } // local x global operand on the right
    if (sym) gr = gc = 0, co = ro;
    const Cluster<P> &R = t.at(gr, ro), &K = t.at(gc, co);
    static Cache<Op> cache;
    c.stage("build operand");
    Op &A = cache.get(c.cfg_hash(), [&] { return std::unique_ptr<Op>(tH == 'N' ? new Op(t.g[gr], R, t.g[gc], K, p, rh, eps, so.sym, so.uplo, so.kernel) : new Op(t.g[gc], K, t.g[gr], R, p, rh, eps, so.sym, so.uplo, so.kernel)); });
    M hA = op(tH, A.full);
    int rk = lowrank ? c.of(std::vector<int>{2, 0}, "rank of operand") : 0;
    int target = c.pick(lowrank ? 3 : 2, "result: dense, low-rank, hierarchical");
    // the third dimension: free for dense/low-rank results, a cluster for hierarchical results
    const Cluster<P> *F = target == 2 ? &t.at(2, v.in) : nullptr;
    int other = F ? F->get_size() : c.of(std::vector<int>{3, 1}, "free dimension");
    Sc k = c.of(coefs(th), "alpha, beta");
    int m = hleft ? R.get_size() : other, kk = hleft ? K.get_size() : R.get_size(), n = hleft ? other : K.get_size();
    char tO = hleft ? tb : ta;
    int om = hleft ? kk : m, on = hleft ? n : kk; // op(other) dims
    Matrix<T> D = tO == 'N' ? mat(om, on, 81) : mat(on, om, 81);
    LR L = tO == 'N' ? lrm(om, rk, on, 82, eps) : lrm(on, rk, om, 82, eps);
    M x = lowrank ? dense(L) : fromMat(D), ox = op(tO, x);
    M ab = scal(Z(k.a), hleft ? mul(hA, ox) : mul(ox, hA));
    double mag = std::abs(k.a) * (maxabs(A.full) * maxabs(x) * kk + 1e-3);
    std::string nm = mc::str(hleft ? (lowrank ? "H*low-rank" : "H*dense") : (lowrank ? "low-rank*H" : "dense*H"), target == 0 ? "=dense" : target == 1 ? "=low-rank" : "=hierarchical");
    std::string sig = mc::str(nm, lowrank && rk == 0 ? "-rank0" : "", "/", so.sym, "/", ta, tb, "/", TN), ctx = mc::str(ta, tb, " ", so.sym, so.uplo, " view ", v.part, "/", v.out, v.mid, v.in, " pattern ", p.b0, "/", p.b1, "/", p.b2, " alpha ", k.a, " beta ", k.b, " eps ", eps, " dims ", m, ",", kk, ",", n);
    if (target == 0) {
        Matrix<T> C = mat(m, n, 83); M c0 = fromMat(C);
        c.stage(nm.c_str());
        if (hleft) { if (lowrank) htool::internal_add_hmatrix_lrmat_product(ta, tb, k.a, *A.h, L, k.b, C); else htool::internal_add_hmatrix_matrix_product(ta, tb, k.a, *A.h, D, k.b, C); }
        else { if (lowrank) htool::internal_add_lrmat_hmatrix_product(ta, tb, k.a, L, *A.h, k.b, C); else htool::internal_add_matrix_hmatrix_product(ta, tb, k.a, D, *A.h, k.b, C); }
        verdict(c, fromMat(C), axpby(1, ab, Z(k.b), c0), tolerance(0, ab, c0, mag), sig, ctx);
    } else if (target == 1) {
        LR C = lrm(m, c.of(std::vector<int>{2, 0}, "rank of C"), n, 84, eps); M c0 = dense(C);
        c.stage(nm.c_str());
        if (hleft) { if (lowrank) htool::internal_add_hmatrix_lrmat_product(ta, tb, k.a, *A.h, L, k.b, C); else htool::internal_add_hmatrix_matrix_product(ta, tb, k.a, *A.h, D, k.b, C); }
        else { if (lowrank) htool::internal_add_lrmat_hmatrix_product(ta, tb, k.a, L, *A.h, k.b, C); else htool::internal_add_matrix_hmatrix_product(ta, tb, k.a, D, *A.h, k.b, C); }
        c.check(C.get_U().nb_cols() == C.get_V().nb_rows(), "shape/" + sig, ctx);
        verdict(c, dense(C), axpby(1, ab, Z(k.b), c0), tolerance(eps, ab, c0, mag), sig, ctx);
    } else {
        Pat pc{false, c.of(std::vector<int>{0, 6, 15}, "C level 1"), 6};
        if (v.out >= 0 && v.in >= 0) { pc.b0 = c.pick(2, "C is one low-rank block"); if (pc.b0 && pc.b1) c.skip(); }
        int rc = c.of(std::vector<int>{2, 102}, "rank of compressed leaves of C"); if (rc != 2 && (pc.b1 == 0 || rh == 0)) c.skip();
        c.stage("build C");
        const Cluster<P> &ct = hleft ? R : *F, &cs = hleft ? *F : K;
        Op C(t.g[hleft ? gr : 2], ct, t.g[hleft ? 2 : gc], cs, pc, rc, eps);
        c.stage(nm.c_str());
        if (hleft) htool::internal_add_hmatrix_lrmat_product(ta, tb, k.a, *A.h, L, k.b, *C.h); else htool::internal_add_lrmat_hmatrix_product(ta, tb, k.a, L, *A.h, k.b, *C.h);
        verdict(c, dense_of(*C.h), axpby(1, ab, Z(k.b), C.full), tolerance(eps, ab, C.full, mag), sig, ctx);
    }
    c.check(A.intact(), "operand-changed/" + nm + "/" + TN, ctx);
    equal_to(c, lowrank ? dense(L) : fromMat(D), x, 0, "other-operand-changed/" + nm + "/" + TN);
    if (!(hleft && so.sym == 'S' && tH == 'C')) c.check(logged().errors == 0, "logged/" + sig, logged().last);
}
// histories of accumulations into one hierarchical matrix
void histories(mc::Run &c) {
    quiet(); ompmc::set_threads(1); bool th = c.thorough;
    View v = c.of(std::vector<View>{{1, -1, -1, -1}, {2, 0, 0, 0}}, "view");
    Pat pc{false, c.of(th ? ALL16 : std::vector<int>{0, 6, 15, 9}, "C level 1"), c.of(std::vector<int>{6, 15}, "C level 2")};
    double eps = c.of(std::vector<double>{fine(), 1e-2}, "epsilon");
    int depth = th ? 4 : 3; std::vector<int> ops;
    for (int i = 0; i < depth; i++) ops.push_back(c.pick(6, "operation"));
    if (!c.mine()) return;
    Trees &t = trees(v.part, 2, 1);
    const Cluster<P> &O = t.at(0, v.out), &Mi = t.at(1, v.mid), &I = t.at(2, v.in);
    c.stage("build");
    Op C(t.g[0], O, t.g[2], I, pc, 2, eps);
    static std::map<int, std::unique_ptr<Op>> as, bs, bts;
    int key = v.part * 2 + (eps > 1e-3);
    auto &A = as[key]; auto &B = bs[key]; auto &Bt = bts[key];
    if (!A) { A.reset(new Op(t.g[0], O, t.g[1], Mi, Pat{false, 6, 9}, 1, eps)); B.reset(new Op(t.g[1], Mi, t.g[2], I, Pat{false, 9, 6}, 2, eps)); Bt.reset(new Op(t.g[2], I, t.g[1], Mi, Pat{false, 2, 15}, 1, eps)); }
    M want = C.full; double budget = 0, scale = 1;
    auto acc = [&](const M &ab, double beta) { want = axpby(1, ab, beta, want); budget = std::abs(beta) * budget + 12 * eps * (2 * fro(ab) + fro(want) + maxabs(A->full) * maxabs(B->full) * Mi.get_size()); scale = std::max(scale, maxabs(want) + maxabs(ab)); };
    for (int i = 0; i < depth; i++) {
        LR X = lrm(O.get_size(), 1 + i, I.get_size(), 101 + i, eps), L = lrm(O.get_size(), 2, Mi.get_size(), 111 + i, eps), R = lrm(Mi.get_size(), 1, I.get_size(), 121 + i, eps);
        c.stage(mc::str("operation ", ops[i]).c_str());
        switch (ops[i]) {
        case 0: htool::internal_add_hmatrix_hmatrix_product('N', 'N', T(0.5), *A->h, *B->h, T(1), *C.h); acc(scal(0.5, mul(A->full, B->full)), 1); break;
        case 1: htool::internal_add_hmatrix_hmatrix_product('N', 'C', T(-1), *A->h, *Bt->h, T(-0.5), *C.h); acc(scal(-1, mul(A->full, op('C', Bt->full))), -0.5); break;
        case 2: htool::internal_add_lrmat_hmatrix(X, *C.h); acc(dense(X), 1); break;
        case 3: htool::internal_add_lrmat_hmatrix_product('N', 'N', T(1), L, *B->h, T(1), *C.h); acc(mul(dense(L), B->full), 1); break;
        case 4: htool::internal_add_hmatrix_lrmat_product('N', 'N', T(2), *A->h, R, T(0.5), *C.h); acc(scal(2, mul(A->full, dense(R))), 0.5); break;
        case 5: htool::sequential_scale(T(-2), *C.h); want = scal(-2, want); budget *= 2; scale = std::max(scale, maxabs(want)); break;
        }
        c.step();
        double d = fro(sub(dense_of(*C.h), want)), tol = budget + 1e4 * EPS * scale;
        c.check(d <= tol, "history/" + TN, [&] { return mc::str("after operation ", i, " (", ops[i], ") error ", d, " > ", tol); });
        c.state(hash(want));
    }
    c.check(A->intact() && B->intact() && Bt->intact(), "history-operand-changed/" + TN);
}
// larger operands: geometry-driven block structures, real compressors, deeper and wider trees
void large(mc::Run &c) {
    quiet(); ompmc::set_threads(1); bool th = c.thorough;
    struct L { int nchild, minsize, part; }; struct V { int out, mid, in; };
    L l = c.of(th ? std::vector<L>{{2, 3, 1}, {4, 2, 1}, {2, 10, 1}, {3, 4, 4}, {2, 1, 5}} : std::vector<L>{{2, 3, 1}, {4, 2, 1}, {3, 3, 4}}, "clusters");
    int base = c.of(th ? std::vector<int>{40, 75, 130} : std::vector<int>{70}, "n");
    V v = l.part == 1 ? V{-1, -1, -1} : c.of(std::vector<V>{{3, 2, 1}, {2, -1, -1}}, "view");
    if (v.mid >= 0) base *= 2; // local views
    int geo = c.of(th ? std::vector<int>{RANDOM, TWO, GRID} : std::vector<int>{RANDOM}, "geometry");
    struct E { double eps; int comp; };
    E e = c.of(th ? std::vector<E>{{1e-3, 3}, {fine(), 0}, {1e-2, 2}} : std::vector<E>{{1e-3, 3}, {fine(), 0}}, "compressor");
    double eta = c.of(std::vector<double>{10, 1}, "eta");
    int kind = c.pick(3, "product: hierarchical, with the hierarchical operand left, right");
    char ta = c.ch("NTC", "transa"), tb = c.ch("NTC", "transb");
    if (!c.mine()) return;
    struct Set { Geo g[3]; std::unique_ptr<Cluster<P>> r[3]; };
    static Cache<Set> sets; static Cache<std::pair<std::unique_ptr<Op>, std::unique_ptr<Op>>> cache;
    c.stage("build operands");
    Set &s = sets.get(mc::hash_mix(mc::hash_mix(l.nchild * 100 + l.minsize, l.part), base * 10 + geo), [&] {
        std::unique_ptr<Set> p(new Set); int n[3] = {base, base - 7, base - 12};
        for (int i = 0; i < 3; i++) { p->g[i] = geometry(i == 1 ? RANDOM : geo, n[i], 2, i); ClusterOpt o; o.nchild = l.nchild; o.minsize = l.minsize; o.part = l.part; p->r[i] = make_cluster<P>(p->g[i], o); }
        return p; });
    for (int i = 0; i < 3; i++) if (!enough_points_for_partition(*s.r[i], l.part)) c.skip();
    auto at = [&](int i, int view) -> const Cluster<P> & { return view < 0 ? *s.r[i] : s.r[i]->get_cluster_on_partition(view); };
    const Cluster<P> &O = at(0, v.out), &Mi = at(1, v.mid), &I = at(2, v.in);
    auto &ops = cache.get(c.cfg_hash(), [&] {
        std::unique_ptr<std::pair<std::unique_ptr<Op>, std::unique_ptr<Op>>> p(new std::pair<std::unique_ptr<Op>, std::unique_ptr<Op>>);
        if (kind != 2) p->first.reset(ta == 'N' ? new Op(s.g[0], O, s.g[1], Mi, eta, e.comp, e.eps, 'N', 'N', K_NONSYM, 0) : new Op(s.g[1], Mi, s.g[0], O, eta, e.comp, e.eps, 'N', 'N', K_NONSYM, 0));
        if (kind != 1) p->second.reset(tb == 'N' ? new Op(s.g[1], Mi, s.g[2], I, eta, e.comp, e.eps, 'N', 'N', K_NONSYM, 0) : new Op(s.g[2], I, s.g[1], Mi, eta, e.comp, e.eps, 'N', 'N', K_NONSYM, 0));
        return p; });
    int other = kind == 0 ? 0 : c.pick(2, "other operand low-rank"), target = kind && !other ? c.pick(2, "result: dense, low-rank, hierarchical") : c.pick(3, "result: dense, low-rank, hierarchical");
    Sc k = c.of(std::vector<Sc>{{T(1), T(1)}, {Ty<T>::mk(Z(0.5, -0.25)), Ty<T>::mk(Z(-1.5, 0.75))}}, "alpha, beta");
    int m = O.get_size(), q = Mi.get_size(), n = I.get_size();
    if (kind == 1 && target != 2) n = 17;
    if (kind == 2 && target != 2) m = 17;
    int am = ta == 'N' ? m : q, an = ta == 'N' ? q : m, bm = tb == 'N' ? q : n, bn = tb == 'N' ? n : q, rk = 6;
    Matrix<T> DA, DB; LR LA((P)e.eps), LB((P)e.eps); M a, b;
    if (kind == 2) { if (other) { LA = lrm(am, rk, an, 82, e.eps); a = dense(LA); } else { DA = mat(am, an, 81); a = fromMat(DA); } } else a = ops.first->full;
    if (kind == 1) { if (other) { LB = lrm(bm, rk, bn, 82, e.eps); b = dense(LB); } else { DB = mat(bm, bn, 81); b = fromMat(DB); } } else b = ops.second->full;
    M ab = scal(Z(k.a), mul(op(ta, a), op(tb, b)));
    double mag = std::abs(k.a) * (maxabs(a) * maxabs(b) * q + 1e-3);
    std::string nm = mc::str("large/", kind == 0 ? "H*H" : kind == 1 ? (other ? "H*low-rank" : "H*dense") : other ? "low-rank*H" : "dense*H", target == 0 ? "=dense" : target == 1 ? "=low-rank" : "=hierarchical");
    std::string sig = mc::str(nm, "/", ta, tb, "/", TN), ctx = mc::str(ta, tb, " children ", l.nchild, " min ", l.minsize, " parts ", l.part, " view ", v.out, v.mid, v.in, " n ", base, " eta ", eta, " eps ", e.eps, " alpha ", k.a, " beta ", k.b);
    c.stage(nm.c_str());
    auto into = [&](auto &C) {
        if (kind == 0) htool::internal_add_hmatrix_hmatrix_product(ta, tb, k.a, *ops.first->h, *ops.second->h, k.b, C);
        else if (kind == 1) { if (other) htool::internal_add_hmatrix_lrmat_product(ta, tb, k.a, *ops.first->h, LB, k.b, C); }
        else if (other) htool::internal_add_lrmat_hmatrix_product(ta, tb, k.a, LA, *ops.second->h, k.b, C);
    };
    auto flat = [&](auto &C) { if (kind == 1 && !other) htool::internal_add_hmatrix_matrix_product(ta, tb, k.a, *ops.first->h, DB, k.b, C); else if (kind == 2 && !other) htool::internal_add_matrix_hmatrix_product(ta, tb, k.a, DA, *ops.second->h, k.b, C); else into(C); };
    if (target == 0) { Matrix<T> C = mat(m, n, 71); M c0 = fromMat(C); flat(C); verdict(c, fromMat(C), axpby(1, ab, Z(k.b), c0), tolerance(0, ab, c0, mag), sig, ctx); }
    else if (target == 1) { LR C = lrm(m, 5, n, 72, e.eps); M c0 = dense(C); flat(C); c.check(C.get_U().nb_cols() == C.get_V().nb_rows(), "shape/" + sig, ctx); verdict(c, dense(C), axpby(1, ab, Z(k.b), c0), tolerance(e.eps, ab, c0, mag), sig, ctx); }
    else { Op C(s.g[0], O, s.g[2], I, eta, 3, e.eps, 'N', 'N', K_NONSYM, 0); into(C.h.operator*()); verdict(c, dense_of(*C.h), axpby(1, ab, Z(k.b), C.full), tolerance(e.eps, ab, C.full, mag), sig, ctx); }
    c.check((!ops.first || ops.first->intact()) && (!ops.second || ops.second->intact()), "operand-changed/" + nm + "/" + TN, ctx);
    c.check(logged().errors == 0, "logged/" + sig, logged().last);
}
struct Reg { Reg() {
#define R(f) { static std::string n = std::string(#f) + "<" + TN + ">"; new mc::Registrar(n.c_str(), f); }
    R(hh) R(mixed) R(histories) R(large)
} } reg;
} // namespace

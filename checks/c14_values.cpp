// C14: histories of construction, copy, move, assignment, resize and writes; the model holds plain values.
#include "alloc_count.hpp"
#include "ops.inc" // opens the typed anonymous namespace
// ---------------------------------------------------------------- dense matrices
T tagv(int t) { return val<T>(900, t, 3); }
struct MM { // what a matrix should be
    int m = 0, n = 0; T v[12]; int buf = -1; int piv = -1; int st = 0; // st: 0 usable, 1 moved from, 2 released
    MM() { for (auto &x : v) x = T(0); }
};
struct World {
    static const int NO = 3;
    int no; std::unique_ptr<Matrix<T>> o[NO]; MM md[NO]; T ext[2][6], mext[2][6]; int tag = 0; const char *bad = nullptr; int bad_at = -1;
    World(int n_) : no(n_) {
        for (int b = 0; b < 2; b++) for (int k = 0; k < 6; k++) ext[b][k] = mext[b][k] = tagv(100 + 10 * b + k);
        for (int i = 0; i < no; i++) o[i].reset(new Matrix<T>());
        *o[0] = Matrix<T>(2, 3); md[0].m = 2; md[0].n = 3; write(0);
    }
    T *mdata(int i) { return md[i].buf >= 0 ? mext[md[i].buf] : md[i].v; }
    void write(int i) { int c = md[i].m * md[i].n; if (!c) return; T a = tagv(tag++), b = tagv(tag++); o[i]->data()[0] = a; mdata(i)[0] = a; (*o[i])(md[i].m - 1, md[i].n - 1) = b; mdata(i)[c - 1] = b; }
    void own(int i, int m, int n, const T *p) { T t[12]; for (int k = 0; k < m * n; k++) t[k] = p ? p[k] : T(0); MM &x = md[i]; x.m = m; x.n = n; x.buf = -1; x.st = 0; for (int k = 0; k < m * n; k++) x.v[k] = t[k]; }
    void verify(int at) {
        for (int i = 0; i < no && !bad; i++) {
            if (md[i].st) continue;
            if (o[i]->nb_rows() != md[i].m || o[i]->nb_cols() != md[i].n) { bad = "shape"; break; }
            int c = md[i].m * md[i].n;
            if (c && (!o[i]->data() || std::memcmp(o[i]->data(), mdata(i), c * sizeof(T)))) { bad = "value"; break; }
            if (c && md[i].buf >= 0 && o[i]->data() != ext[md[i].buf]) bad = "view";
            if (c && md[i].buf < 0) { for (int b = 0; b < 2; b++) if (o[i]->data() == ext[b]) bad = "view"; for (int j = 0; j < i; j++) if (!md[j].st && o[j]->data() == o[i]->data()) bad = "shared buffer"; }
            if (o[i]->get_pivots().size() != (md[i].piv >= 0 ? 1u : 0u) || (md[i].piv >= 0 && o[i]->get_pivots()[0] != md[i].piv)) bad = "pivots";
        }
        if (!bad && std::memcmp(ext, mext, sizeof ext)) bad = "data outside";
        if (bad) bad_at = at;
    }
    static int nops(int no) { return 3 * no * no + no * (no - 1) + no * 13; }
    std::string name(int op) {
        int q = no * no; const char *n3[] = {"copy-construct", "copy-assign", "move-assign"};
        for (int g = 0; g < 3; g++) { if (op < q) return mc::str(n3[g], "(", op / no, "<-", op % no, ")"); op -= q; }
        q = no * (no - 1); if (op < q) { int i = op / (no - 1), j = op % (no - 1); if (j >= i) j++; return mc::str("move-construct(", i, "<-", j, ")"); } op -= q;
        const char *u[] = {"resize2x3", "resize3x2", "resize1x2", "resize0x2", "view0", "view1", "take2x2", "take0x3", "write", "fill", "release", "reset", "pivots"};
        return mc::str(u[op / no], "(", op % no, ")");
    }
    bool apply(int op) { // false: not a legal operation here
        int q = no * no;
        if (op < 3 * q) {
            int g = op / q, i = op % q / no, j = op % no;
            if (md[j].st) return false;
            if (g == 0) { MM x = md[j]; T t[12]; for (int k = 0; k < x.m * x.n; k++) t[k] = mdata(j)[k]; o[i].reset(new Matrix<T>(*o[j])); own(i, x.m, x.n, t); md[i].piv = x.piv; }
            else if (g == 1) {
                MM x = md[j]; *o[i] = *o[j]; if (i == j) return true;
                const T *src = mdata(j);
                if (md[i].st == 0 && md[i].m * md[i].n == x.m * x.n) { T t[12]; for (int k = 0; k < x.m * x.n; k++) t[k] = src[k]; for (int k = 0; k < x.m * x.n; k++) mdata(i)[k] = t[k]; md[i].m = x.m; md[i].n = x.n; }
                else own(i, x.m, x.n, src);
                md[i].piv = x.piv;
            } else { Matrix<T> &r = *o[j]; *o[i] = std::move(r); if (i == j) return true; md[i] = md[j]; md[j].st = 1; }
            return true;
        }
        op -= 3 * q; q = no * (no - 1);
        if (op < q) { int i = op / (no - 1), j = op % (no - 1); if (j >= i) j++; if (md[j].st) return false; o[i].reset(new Matrix<T>(std::move(*o[j]))); md[i] = md[j]; md[j].st = 1; return true; }
        op -= q; int i = op % no, w = op / no;
        if (w < 4) {
            const int S[4][2] = {{2, 3}, {3, 2}, {1, 2}, {0, 2}}; T fillv = w == 1 ? tagv(tag++) : T(0);
            if (w == 1) o[i]->resize(S[w][0], S[w][1], fillv); else o[i]->resize(S[w][0], S[w][1]);
            int c = S[w][0] * S[w][1];
            if (md[i].st || md[i].m * md[i].n != c) { if (md[i].st) md[i].piv = o[i]->get_pivots().empty() ? -1 : o[i]->get_pivots()[0]; own(i, S[w][0], S[w][1], nullptr); }
            md[i].m = S[w][0]; md[i].n = S[w][1]; for (int k = 0; k < c; k++) mdata(i)[k] = fillv;
            return true;
        }
        if (md[i].st && w < 8) md[i].piv = o[i]->get_pivots().empty() ? -1 : o[i]->get_pivots()[0]; // unspecified until set again
        switch (w) {
        case 4: o[i]->assign(2, 3, ext[0], false); md[i].m = 2; md[i].n = 3; md[i].buf = 0; md[i].st = 0; return true;
        case 5: o[i]->assign(1, 4, ext[1], false); md[i].m = 1; md[i].n = 4; md[i].buf = 1; md[i].st = 0; return true;
        case 6: { T *p = new T[4]; T t[4]; for (int k = 0; k < 4; k++) p[k] = t[k] = tagv(tag++); o[i]->assign(2, 2, p, true); own(i, 2, 2, t); return true; }
        case 7: o[i]->assign(0, 3, new T[0], true); own(i, 0, 3, nullptr); return true;
        case 8: if (md[i].st) return false; write(i); return true;
        case 9: { if (md[i].st) return false; T a = tagv(tag++); *o[i] = a; for (int k = 0; k < md[i].m * md[i].n; k++) mdata(i)[k] = a; return true; }
        case 10: { if (md[i].st) return false; T *p = o[i]->release(); int c = md[i].m * md[i].n; if (c && std::memcmp(p, mdata(i), c * sizeof(T))) bad = "released value"; if (md[i].buf < 0) delete[] p; md[i].st = 2; return true; }
        case 11: o[i].reset(new Matrix<T>()); md[i] = MM(); return true;
        default: if (md[i].st) return false; o[i]->get_pivots() = std::vector<int>{++tag}; md[i].piv = tag; return true;
        }
    }
};
void matrices(mc::Run &c, int no, int depth) {
    std::vector<int> ops; ops.push_back(c.pick(World::nops(no), "operation")); if (depth > 1) ops.push_back(c.pick(World::nops(no), "operation"));
    if (!c.mine()) return;
    while ((int)ops.size() < depth) ops.push_back(c.pick(World::nops(no), "operation"));
    c.stage("matrix history"); long before = mc::live_blocks(); const char *bad; int at; bool legal = true; uint64_t st[8]; int ns = 0;
    {
        World w(no);
        for (int k = 0; k < depth && !w.bad; k++) {
            if (!w.apply(ops[k])) { legal = false; break; }
            w.verify(k); uint64_t h = 0; for (int i = 0; i < no; i++) h = mc::hash_mix(h, w.md[i].m * 100 + w.md[i].n * 10 + w.md[i].st + (w.md[i].buf + 2) * 1000 + (w.md[i].piv >= 0) * 7777); st[ns++] = h;
        }
        bad = w.bad; at = w.bad_at;
    }
    long after = mc::live_blocks();
    for (int i = 0; i < ns; i++) { c.state(st[i]); c.step(); }
    if (!legal) c.skip();
    auto ctx = [&] { World w(no); std::string s = mc::str(bad ? bad : "", " wrong after operation ", at + 1, " of:"); for (int q : ops) s += " " + w.name(q); return s; };
    c.check(!bad, "matrix-history/" + TN, ctx); c.check(after == before, "matrix-history-leak/" + TN, [&] { return mc::str(after - before, " blocks --", ctx()); });
    c.outcome(ns ? st[ns - 1] : 0);
}
void matrix2(mc::Run &c) { matrices(c, 2, c.thorough ? (Ty<T>::cplx ? 4 : 5) : (Ty<T>::cplx ? 3 : 4)); }
void matrix3(mc::Run &c) { matrices(c, 3, c.thorough ? 4 : 3); }
// ---------------------------------------------------------------- low-rank matrices
struct LM { int m = 0, k = 0, n = 0; std::vector<T> u, v; double eps = 1e-3; int st = 0; };
void lowrank(mc::Run &c) {
    const int no = 2, nops = 3 * no * no + 2 + 2 * 4; int depth = c.thorough ? 5 : (sizeof(T) == 8 && !Ty<T>::cplx ? 4 : 3);
    std::vector<int> ops; for (int k = 0; k < 2; k++) ops.push_back(c.pick(nops, "operation"));
    if (!c.mine()) return;
    while ((int)ops.size() < depth) ops.push_back(c.pick(nops, "operation"));
    c.stage("low-rank history"); long before = mc::live_blocks(); const char *bad = nullptr; int at = -1, tag = 0; bool legal = true;
    {
        std::unique_ptr<LR> o[2]; LM md[2]; for (int i = 0; i < 2; i++) o[i].reset(new LR((P)1e-3));
        auto set = [&](int i, int m, int k, int n) { md[i].m = m; md[i].k = k; md[i].n = n; md[i].st = 0; o[i]->get_U().resize(m, k); o[i]->get_V().resize(k, n); md[i].u.assign(m * k, T(0)); md[i].v.assign(k * n, T(0));
            for (int q = 0; q < m * k; q++) o[i]->get_U().data()[q] = md[i].u[q] = tagv(tag++); for (int q = 0; q < k * n; q++) o[i]->get_V().data()[q] = md[i].v[q] = tagv(tag++); };
        set(0, 3, 1, 2);
        for (int q = 0; q < depth && !bad && legal; q++) {
            int op = ops[q];
            if (op < 12) { int g = op / 4, i = op % 4 / 2, j = op % 2; if (md[j].st) { legal = false; break; }
                if (g == 0) { std::unique_ptr<LR> t(new LR(*o[j])); o[i] = std::move(t); md[i] = md[j]; } else if (g == 1) { *o[i] = *o[j]; if (i != j) md[i] = md[j]; } else { LR &r = *o[j]; *o[i] = std::move(r); if (i != j) { md[i] = md[j]; md[j].st = 1; } } }
            else if (op < 14) { int i = op - 12, j = 1 - i; if (md[j].st) { legal = false; break; } o[i].reset(new LR(std::move(*o[j]))); md[i] = md[j]; md[j].st = 1; }
            else { int i = (op - 14) % 2, w = (op - 14) / 2; if (w == 0) set(i, 3, 1, 2); else if (w == 1) set(i, 2, 0, 3); else if (w == 2) set(i, 2, 2, 2); else { if (md[i].st) { legal = false; break; } for (auto &x : md[i].v) x *= T(2); for (int z = 0; z < md[i].k * md[i].n; z++) o[i]->get_V().data()[z] *= T(2); } }
            for (int i = 0; i < 2 && !bad; i++) if (!md[i].st) {
                auto &L = *o[i]; const LM &x = md[i];
                if (L.get_U().nb_rows() != x.m || L.get_U().nb_cols() != x.k || L.get_V().nb_rows() != x.k || L.get_V().nb_cols() != x.n || L.rank_of() != x.k || L.nb_rows() != x.m || L.nb_cols() != x.n) bad = "shape";
                else if ((x.u.size() && std::memcmp(L.get_U().data(), x.u.data(), x.u.size() * sizeof(T))) || (x.v.size() && std::memcmp(L.get_V().data(), x.v.data(), x.v.size() * sizeof(T)))) bad = "value";
            }
            if (bad) at = q;
        }
    }
    long after = mc::live_blocks(); c.step(depth);
    if (!legal) c.skip();
    auto ctx = [&] { std::string s = mc::str(bad ? bad : "", " wrong after operation ", at + 1, " of:"); for (int q : ops) s += mc::str(" ", q); return s; };
    c.check(!bad, "lowrank-history/" + TN, ctx); c.check(after == before, "lowrank-history-leak/" + TN, ctx);
    c.outcome(mc::hash_bytes(ops.data(), ops.size() * sizeof(int)));
}
// ---------------------------------------------------------------- hierarchical matrices
struct Node { int depth, root, kids; char sym, uplo, sl, ul; int kind, to, tn, so, sn; double eps, eta; int mt, ms, cons; M a, b; std::string info; };
void shot(const H &h, std::vector<Node> &v) {
    Node n; n.depth = h.get_depth(); n.root = h.is_root(); n.kids = h.get_children().size(); n.sym = h.get_symmetry(); n.uplo = h.get_UPLO(); n.sl = h.get_symmetry_for_leaves(); n.ul = h.get_UPLO_for_leaves();
    n.kind = (int)h.get_storage_type() * 4 + (h.get_dense_data() ? 2 : 0) + (h.get_low_rank_data() ? 1 : 0);
    n.to = h.get_target_cluster().get_offset(); n.tn = h.get_target_cluster().get_size(); n.so = h.get_source_cluster().get_offset(); n.sn = h.get_source_cluster().get_size();
    n.eps = h.get_epsilon(); auto *d = h.get_hmatrix_tree_data(); n.eta = d->m_eta; n.mt = d->m_minimal_target_depth; n.ms = d->m_minimal_source_depth; n.cons = d->m_is_block_tree_consistent;
    for (auto &p : d->m_information) n.info += p.first + "=" + p.second + ";";
    if (h.get_dense_data()) n.a = fromMat(*h.get_dense_data());
    if (h.get_low_rank_data()) { n.a = fromMat(h.get_low_rank_data()->get_U()); n.b = fromMat(h.get_low_rank_data()->get_V()); }
    v.push_back(n); for (auto &k : h.get_children()) shot(*k, v);
}
const char *cmp(const std::vector<Node> &x, const std::vector<Node> &y) {
    if (x.size() != y.size()) return "block tree";
    for (size_t i = 0; i < x.size(); i++) {
        const Node &a = x[i], &b = y[i];
        if (a.depth != b.depth || a.root != b.root || a.kids != b.kids || a.to != b.to || a.tn != b.tn || a.so != b.so || a.sn != b.sn) return "block tree";
        if (a.sym != b.sym || a.uplo != b.uplo) return "symmetry";
        if (a.sl != b.sl || a.ul != b.ul) return "symmetry of the leaves";
        if (a.kind != b.kind) return "storage";
        if (a.eps != b.eps || a.eta != b.eta || a.mt != b.mt || a.ms != b.ms || a.cons != b.cons || a.info != b.info) return "parameters";
        if (a.a.m != b.a.m || a.a.n != b.a.n || a.b.m != b.b.m || a.b.n != b.b.n || a.a.a != b.a.a || a.b.a != b.b.a) return "coefficients";
    }
    return nullptr;
}
struct Kinds { // sources of hierarchical matrices
    Geo g; std::unique_ptr<Cluster<P>> cl; std::unique_ptr<Gen<T>> gen[3];
    Kinds() { g = geometry(LINE, 6, 2); ClusterOpt o; o.nchild = 2; o.minsize = 1; o.part = 1; cl = make_cluster<P>(g, o); gen[0].reset(new Gen<T>(g, g, K_SYM)); gen[1].reset(new Gen<T>(g, g, K_NONSYM)); gen[2].reset(new Gen<T>(g, g, K_HERM)); }
    H build(int k) const { // 0 symmetric, 1 general, 2 one dense leaf, 3 one low-rank leaf, 4 Hermitian or upper symmetric
        char s = k == 0 ? 'S' : k == 4 ? (Ty<T>::cplx ? 'H' : 'S') : 'N', u = k == 0 ? 'L' : k == 4 ? 'U' : 'N';
        const Cluster<P> &c = k == 2 || k == 3 ? *cl->get_children()[0]->get_children()[0] : *cl;
        HMatrixTreeBuilder<T, P> b(c, c, (P)1e-3, 10, s, u, -1, -1, -1);
        b.set_low_rank_generator(std::make_shared<ScriptedLR<T>>(k == 3 ? 1 : 2));
        b.set_admissibility_condition(std::make_shared<ScriptedAdm<P>>([k](const Cluster<P> &t, const Cluster<P> &q) { return k == 3 || (k != 2 && t.get_depth() >= 2 && q.get_depth() >= 2 && t.get_offset() != q.get_offset()); }));
        return b.build(*gen[k == 0 ? 0 : k == 4 ? (Ty<T>::cplx ? 2 : 0) : 1]);
    }
};
const Kinds &kinds() { static Kinds k; return k; }
const char *const hop_name[] = {"copy-construct", "copy-assign", "move-assign", "move-construct", "build0", "build1", "build2", "build3", "build4", "scale", "copy-of-child", "assign-own-child", "assign-other-child", "epsilon", "write"};
struct HWorld {
    std::unique_ptr<H> o[2]; std::vector<Node> md[2]; int st[2] = {0, 0}; int tag = 0; const char *bad = nullptr; int at = -1; int where = 0;
    HWorld() { make(0, 0); make(1, 1); }
    void make(int i, int k) { o[i].reset(new H(kinds().build(k))); md[i].clear(); shot(*o[i], md[i]); st[i] = 0; }
    static std::vector<Node> sub(const std::vector<Node> &v, int child) { // nodes of one child in preorder
        size_t p = 1; for (int k = 0; k < child; k++) p = skip(v, p); size_t e = skip(v, p); return std::vector<Node>(v.begin() + p, v.begin() + e);
    }
    static size_t skip(const std::vector<Node> &v, size_t p) { int k = v[p].kids; p++; while (k--) p = skip(v, p); return p; }
    static int nops() { return 15 * 2 + 4; }
    static void decode(int op, int &w, int &i, int &j) { if (op < 12) { w = op / 4; i = op % 4 / 2; j = op % 2; } else if (op < 14) { w = 3; i = op - 12; j = 1 - i; } else { w = 4 + (op - 14) / 2; i = op % 2; j = 1 - i; } }
    static int count() { return 14 + 2 * 11; }
    bool apply(int op) {
        int w, i, j; decode(op, w, i, j);
        if (w <= 3 && st[j]) return false;
        switch (w) {
        case 0: { std::unique_ptr<H> t(new H(*o[j])); o[i] = std::move(t); md[i] = md[j]; st[i] = 0; return true; }
        case 1: { const H &r = *o[j]; *o[i] = r; md[i] = md[j]; st[i] = 0; return true; }
        case 2: { if (i == j) return false; *o[i] = std::move(*o[j]); md[i] = md[j]; st[i] = 0; st[j] = 1; return true; }
        case 3: { o[i].reset(new H(std::move(*o[j]))); md[i] = md[j]; st[i] = 0; st[j] = 1; return true; }
        case 4: case 5: case 6: case 7: case 8: make(i, w - 4); return true;
        case 9: if (st[i]) return false; htool::sequential_scale(T(2), *o[i]); for (auto &n : md[i]) { bool lr = n.b.m || n.b.n || (n.kind & 1); if (n.kids == 0) for (auto &x : n.a.a) if (!lr || !where_v) x *= 2.; if (n.kids == 0 && lr && where_v) for (auto &x : n.b.a) x *= 2.; } return true;
        case 10: { if (st[j] || md[j][0].kids == 0) return false; int k = tag++ % md[j][0].kids; std::unique_ptr<H> t(new H(*o[j]->get_children()[k])); o[i] = std::move(t); md[i] = sub(md[j], k); st[i] = 0; return true; }
        case 11: { if (st[i] || md[i][0].kids == 0) return false; int k = tag++ % md[i][0].kids; const H &r = *o[i]->get_children()[k]; *o[i] = r; std::vector<Node> t = sub(md[i], k); md[i] = t; return true; }
        case 12: { if (st[j] || md[j][0].kids == 0) return false; int k = tag++ % md[j][0].kids; const H &r = *o[j]->get_children()[k]; *o[i] = r; std::vector<Node> t = sub(md[j], k); md[i] = t; st[i] = 0; return true; }
        case 13: { if (st[i]) return false; P e = (P)(0.5 / (1 << (tag++ % 8))); o[i]->set_epsilon(e); for (auto &n : md[i]) n.eps = e; return true; }
        default: { if (st[i]) return false; T a = tagv(tag++); std::vector<H *> v; collect<T>(*o[i], v); for (size_t k = 0; k < v.size(); k++) if (v[k]->is_leaf()) { if (v[k]->is_dense()) (*v[k]->get_dense_data())(0, 0) = a; else if (v[k]->get_low_rank_data()->rank_of() == 0) continue; else v[k]->get_low_rank_data()->get_U()(0, 0) = a; md[i][k].a(0, 0) = Z(a); break; } return true; }
        }
    }
    bool where_v = false;
    void verify(int k) { for (int i = 0; i < 2 && !bad; i++) if (!st[i]) { std::vector<Node> v; shot(*o[i], v); bad = cmp(v, md[i]); where = i; } if (bad) at = k; }
};
void hmatrices(mc::Run &c) {
    int depth = c.thorough ? 4 : 3; const int nops = HWorld::count();
    std::vector<int> ops; for (int k = 0; k < 2; k++) ops.push_back(c.pick(nops, "operation"));
    if (!c.mine()) return;
    while ((int)ops.size() < depth) ops.push_back(c.pick(nops, "operation"));
    quiet(); c.stage("hierarchical history");
    static bool scale_v = [] { H h = kinds().build(3); T u = h.get_low_rank_data()->get_U()(0, 0); htool::sequential_scale(T(2), h); return h.get_low_rank_data()->get_U()(0, 0) == u; }();
    auto ctx = [&](const HWorld &w) { std::string s = mc::str(w.bad ? w.bad : "", " of matrix ", w.where, " wrong after operation ", w.at + 1, " of:"); for (int q : ops) { int a, i, j; HWorld::decode(q, a, i, j); s += mc::str(" ", hop_name[a], "(", i, a < 4 || a == 10 || a == 12 ? mc::str("<-", j) : std::string(), ")"); } return s; };
    long before = mc::live_blocks(), after; std::string sig, text; bool legal = true;
    {
        HWorld w; w.where_v = scale_v;
        for (int k = 0; k < depth && !w.bad; k++) { if (!w.apply(ops[k])) { legal = false; break; } w.verify(k); }
        if (w.bad) { sig = "hmatrix-history/" + TN; text = ctx(w); }
        for (int i = 0; i < 2 && sig.empty() && legal; i++) if (!w.st[i]) { // behaviour: products and exports are those of the value
            H &h = *w.o[i]; M full = expand<T>(h); int m = h.nb_rows(), n = h.nb_cols();
            for (char tr : {'N', 'T'}) {
                if (tr == 'T' && h.get_symmetry() == 'H') continue;
                std::vector<T> x = vec<T>(tr == 'N' ? n : m, 5), y = vec<T>(tr == 'N' ? m : n, 6), y0 = y;
                htool::sequential_internal_add_hmatrix_vector_product(tr, T(2), h, x.data(), T(1), y.data());
                for (int r = 0; r < (int)y.size() && sig.empty(); r++) { Z e = Z(y0[r]); double mag = std::abs(e); for (int q = 0; q < (int)x.size(); q++) { Z t = 2. * (tr == 'N' ? full(r, q) : full(q, r)) * Z(x[q]); e += t; mag += std::abs(t); } if (!(std::abs(e - Z(y[r])) <= 200 * EPS * mag)) { sig = mc::str("hmatrix-product/", TN); text = mc::str("product of matrix ", i, " with ", tr, " after", ctx(w)); } }
            }
            Matrix<T> d(m, n); htool::copy_to_dense(h, d.data()); M st = expand<T>(h, false);
            for (int r = 0; r < m && sig.empty(); r++) for (int q = 0; q < n; q++) if (!(std::abs(Z(d(r, q)) - st(r, q)) <= 100 * EPS * (1 + std::abs(st(r, q)))) ) { sig = "hmatrix-export/" + TN; text = ctx(w); }
            if (h.is_block_tree_consistent() != (bool)w.md[i][0].cons) { sig = "hmatrix-history/" + TN; text = "consistency"; }
        }
    }
    after = mc::live_blocks(); c.step(depth);
    if (!legal) c.skip();
    c.check(sig.empty(), sig.empty() ? "hmatrix-history/" + TN : sig, text);
    std::string names; for (int q : ops) { int a, i, j; HWorld::decode(q, a, i, j); names += mc::str(" ", hop_name[a], i, j); }
    static bool warm = false; // one-time allocations of the library on first use
    if (warm) c.check(after - before == 0 || !text.empty(), "hmatrix-history-leak/" + TN, [&] { return mc::str(after - before, " blocks --", names); });
    warm = true;
    c.outcome(mc::hash_bytes(ops.data(), ops.size() * sizeof(int)));
}
// ---------------------------------------------------------------- containers of them
template <class X, class Make, class Val> void container(mc::Run &c, const std::string &what, Make make, Val value) {
    const int nops = 8; int depth = c.thorough ? 6 : 5; std::vector<int> ops; for (int k = 0; k < 2; k++) ops.push_back(c.pick(nops, "operation"));
    if (!c.mine()) return;
    while ((int)ops.size() < depth) ops.push_back(c.pick(nops, "operation"));
    quiet(); c.stage("container"); long before = mc::live_blocks(); bool ok = true;
    {
        std::vector<X> v; std::vector<int> m; int id = 0;
        for (int q : ops) {
            switch (q) {
            case 0: v.push_back(make(id)); m.push_back(id); id++; break;
            case 1: if (!v.empty()) { v.push_back(v.front()); m.push_back(m.front()); } break;
            case 2: v.insert(v.begin(), make(id)); m.insert(m.begin(), id); id++; break;
            case 3: if (!v.empty()) { v.erase(v.begin()); m.erase(m.begin()); } break;
            case 4: if (v.size() > 1) { std::swap(v.front(), v.back()); std::swap(m.front(), m.back()); } break;
            case 5: { std::vector<X> w(v); v.swap(w); } break;
            case 6: { std::vector<X> w; w = v; v.clear(); v.shrink_to_fit(); v = std::move(w); } break;
            default: if (v.size() > 1) { v[0] = v[v.size() - 1]; m[0] = m[m.size() - 1]; } break;
            }
            for (size_t k = 0; k < v.size(); k++) ok = ok && value(v[k]) == m[k];
        }
    }
    long after = mc::live_blocks(); c.step(depth);
    auto ctx = [&] { std::string s; for (int q : ops) s += mc::str(" ", q); return what + " operations" + s; };
    c.check(ok, what + "-container/" + TN, ctx);
    static bool warm = false; if (warm) c.check(after == before, what + "-container-leak/" + TN, ctx); warm = true;
    c.outcome(mc::hash_bytes(ops.data(), ops.size() * sizeof(int)));
}
void vec_matrix(mc::Run &c) { container<Matrix<T>>(c, "matrix", [](int id) { return Matrix<T>(1 + id % 2, 2, T(id + 1)); }, [](const Matrix<T> &A) { int id = (int)std::real(A(0, 1)) - 1; return A.nb_rows() == 1 + id % 2 && A.nb_cols() == 2 && A(A.nb_rows() - 1, 0) == T(id + 1) ? id : -1; }); }
void vec_hmatrix(mc::Run &c) {
    static std::vector<std::vector<Node>> want; if (want.empty()) for (int k = 0; k < 5; k++) { std::vector<Node> v; H h = kinds().build(k); shot(h, v); want.push_back(v); }
    container<H>(c, "hmatrix", [](int id) { H h = kinds().build(id % 5); h.set_epsilon((P)(id + 1)); return h; }, [](const H &h) { int id = (int)h.get_epsilon() - 1; std::vector<Node> v, w = want[(id + 500) % 5]; shot(h, v); for (auto &n : w) n.eps = id + 1; return cmp(v, w) ? -1 : id; });
}
const std::string S1 = "matrix2<" + TN + ">", S2 = "matrix3<" + TN + ">", S3 = "lowrank<" + TN + ">", S4 = "hmatrix<" + TN + ">", S5 = "vector-matrix<" + TN + ">", S6 = "vector-hmatrix<" + TN + ">";
mc::Registrar r1(S1.c_str(), matrix2), r2(S2.c_str(), matrix3), r3(S3.c_str(), lowrank), r4(S4.c_str(), hmatrices), r5(S5.c_str(), vec_matrix), r6(S6.c_str(), vec_hmatrix);
} // namespace

// Information gathered from the hierarchical matrices of all processes, against their leaves. Include inside the harness's
// anonymous namespace, with T, P, H and TN defined.
typedef std::map<std::string, std::string> Info;
double num(const std::string &s) { return std::strtod(s.c_str(), nullptr); }
void leaves_of(const H &h, std::vector<const H *> &v) { if (h.is_leaf()) v.push_back(&h); for (auto &k : h.get_children()) leaves_of(*k, v); }
// the figures the root must report for the matrices of all processes
std::map<std::string, double> figures(const std::vector<const H *> &hs) {
    std::map<std::string, double> f; double R = (double)hs.size(), cnt[2] = {0, 0}, total = 0, stored = 0; struct St { double mx = 0, mn = 0, sum = 0, n = 0; void add(double v) { mx = n ? std::max(mx, v) : v; mn = n ? std::min(mn, v) : v; sum += v; n++; } } st[5], tm[2];
    double failures = 0; bool has_failures = true; const char *tn[2] = {"Block_tree_walltime", "Blocks_computation_walltime"};
    for (auto *h : hs) {
        st[3].add(h->get_target_cluster().get_size()); st[4].add(h->get_source_cluster().get_size()); total += (double)h->get_target_cluster().get_size() * h->get_source_cluster().get_size();
        std::vector<const H *> ls; leaves_of(*h, ls);
        for (auto *l : ls) { double r = l->get_target_cluster().get_size(), q = l->get_source_cluster().get_size(); if (l->is_dense()) { st[0].add(r * q); cnt[0]++; stored += l->get_symmetry() != 'N' ? r * (q + 1) / 2 : r * q; } else { double k = l->get_low_rank_data()->get_U().nb_cols(); st[1].add(r * q); st[2].add(k); cnt[1]++; stored += k * (r + q); } }
        auto &inf = h->get_hmatrix_tree_data()->m_information; auto it = inf.find("Number_of_false_positive"); if (it == inf.end()) has_failures = false; else failures += num(it->second);
        for (int w = 0; w < 2; w++) { auto &t = h->get_hmatrix_tree_data()->m_timings; auto i = t.find(tn[w]); if (i != t.end()) tm[w].add(i->second.count()); }
    }
    const char *nm[5] = {"Dense_block_size", "Low_rank_block_size", "Rank", "Target_size", "Source_size"};
    for (int w = 0; w < 5; w++) { f[nm[w] + std::string("_max")] = st[w].mx; f[nm[w] + std::string("_min")] = st[w].mn; f[nm[w] + std::string("_mean")] = st[w].n ? st[w].sum / st[w].n : 0; }
    for (int w = 0; w < 2; w++) if (tm[w].n == R) { f[tn[w] + std::string("_max")] = tm[w].mx; f[tn[w] + std::string("_min")] = tm[w].mn; f[tn[w] + std::string("_mean")] = tm[w].sum / R; }
    f["Number_of_dense_blocks"] = cnt[0]; f["Number_of_low_rank_blocks"] = cnt[1]; f["Number_of_MPI_tasks"] = R;
    if (stored > 0) { f["Compression_ratio"] = total / stored; f["Space_saving"] = 1 - stored / total; }
    if (has_failures) f["Number_of_false_positive"] = failures;
    return f;
}
void judge_info(mc::Run &c, const std::map<std::string, double> &want, const Info &got, bool root, const std::function<std::string()> &ctx) {
    if (!root) { c.check(got.empty(), "information/not-root/" + TN, ctx); return; }
    for (auto &w : want) {
        auto it = got.find(w.first); double tol = w.first.find("walltime") == std::string::npos ? 1e-6 * (1 + std::fabs(w.second)) : 2e-6;
        c.check(it != got.end() && std::fabs(num(it->second) - w.second) <= tol, "information/" + w.first + "/" + TN, [&] { return mc::str(w.first, " reported ", it == got.end() ? "nothing" : it->second, " actual ", w.second, " -- ", ctx()); });
    }
}
void judge_print(mc::Run &c, const std::map<std::string, double> &want, const std::string &text, bool root, const std::function<std::string()> &ctx) {
    if (!root) { c.check(text.empty(), "print/not-root/" + TN, ctx); return; }
    for (auto &w : want) { // a line starts with the name, padding and the value
        bool ok = false; std::istringstream is(text); std::string s; double tol = w.first.find("walltime") == std::string::npos ? 1e-6 * (1 + std::fabs(w.second)) : 2e-6;
        while (std::getline(is, s)) if (s.compare(0, w.first.size(), w.first) == 0) { size_t at = s.find_first_not_of('_', w.first.size()); if (at != std::string::npos && std::fabs(num(s.substr(at)) - w.second) <= tol) ok = true; }
        c.check(ok, "print/" + w.first + "/" + TN, [&] { return w.first + " not printed with its value -- " + ctx(); });
    }
}
// information gathered from hierarchical matrices which differ from process to process
struct Scripted : htool::VirtualLowRankGenerator<T, P> {
    std::shared_ptr<htool::VirtualLowRankGenerator<T, P>> in; int every; mutable int failures = 0;
    Scripted(std::shared_ptr<htool::VirtualLowRankGenerator<T, P>> i, int e) : in(i), every(e) {}
    void copy_low_rank_approximation(const htool::VirtualInternalGenerator<T> &A, const Cluster<P> &t, const Cluster<P> &s, P eps, int &rank, Matrix<T> &U, Matrix<T> &V) const override {
        if (every && (t.get_offset() + 3 * s.get_offset()) % every == 0) { rank = -1; failures++; return; }
        in->copy_low_rank_approximation(A, t, s, eps, rank, U, V);
    }
};
struct Rank1 : htool::VirtualLowRankGenerator<T, P> {
    void copy_low_rank_approximation(const htool::VirtualInternalGenerator<T> &, const Cluster<P> &t, const Cluster<P> &s, P, int &rank, Matrix<T> &U, Matrix<T> &V) const override { U.resize(t.get_size(), 1); V.resize(1, s.get_size()); rank = 1; }
};
struct IFix { Geo g; std::unique_ptr<Cluster<P>> ct; std::unique_ptr<Gen<T>> gen; std::vector<std::unique_ptr<H>> h; bool usable = false; };
void information(mc::Run &c) {
    bool th = c.thorough; int R = c.of(th ? std::vector<int>{1, 2, 3, 4} : std::vector<int>{1, 2, 3}, "processes"), gi = c.of(std::vector<int>{GRID, LINE}, "geometry"), n = c.of(th ? std::vector<int>{13, 22} : std::vector<int>{16}, "n"), imposed = c.of(th ? std::vector<int>{0, 3, 4} : std::vector<int>{0, 4}, "partition"); if (R == 1 && imposed) c.skip(); bool main_type = Ty<T>::cplx == (sizeof(P) == 4); if (!th && !main_type && (gi != GRID || R > 2)) c.skip();
#ifdef INFO_LIGHT
    if (!th && (!main_type || R > 2)) c.skip();
#endif
    auto so = c.of(sym_options<T>(), "symmetry"); int mode = c.pick(4, "kind"); // of each process: admissibility / failures
    std::vector<int> v; for (int p = 0; p < R; p++) v.push_back(c.pick((p == 2 && !th ? 2 : 3) + (mode == 0), "variant")); // the last one of kind 0: no dense block at all
    int minsize = c.of(th ? std::vector<int>{1, 3} : std::vector<int>{1}, "minclustersize");
    if (!c.mine()) return;
    static Cache<IFix> cache; quiet();
    IFix &f = cache.get(c.cfg_hash(), [&] {
        std::unique_ptr<IFix> q(new IFix); q->g = geometry(gi, n, 2); ClusterOpt o; o.nchild = 2; o.minsize = minsize; o.part = R; o.imposed = imposed; q->ct = make_cluster<P>(q->g, o); if (!enough_points_for_partition(*q->ct, R)) return q;
        q->gen.reset(new Gen<T>(q->g, q->g, so.kernel)); q->usable = true;
        for (int p = 0; p < R; p++) {
            double eta = mode == 0 ? (v[p] == 0 ? 10 : v[p] == 1 ? 1e-6 : 0.8) : 10; double eps = mode == 3 ? (v[p] == 0 ? 1e-1 : v[p] == 1 ? 1e-3 : 1e-6) : 1e-3;
            bool rows = mode != 2; // the rows of the process, or its diagonal block
            const Cluster<P> &t = rows ? *q->ct : q->ct->get_cluster_on_partition(p), &s = rows ? *q->ct : q->ct->get_cluster_on_partition(p);
            HMatrixTreeBuilder<T, P> b(t, s, (P)eps, (P)eta, so.sym, so.uplo, -1, rows ? p : -1, rows ? p : -1);
            int every = mode == 1 || mode == 2 ? v[p] : 0; bool none = mode == 0 && v[p] == (p == 2 && !th ? 2 : 3);
            if (none) { b.set_admissibility_condition(std::make_shared<ScriptedAdm<P>>([](const Cluster<P> &, const Cluster<P> &) { return true; })); b.set_low_rank_generator(std::make_shared<Rank1>()); }
            else b.set_low_rank_generator(std::make_shared<Scripted>(std::make_shared<htool::sympartialACA<T, P>>(), every));
            q->h.emplace_back(new H(b.build(*q->gen)));
        }
        return q;
    });
    if (!f.usable) c.skip();
    std::vector<const H *> hs; for (auto &h : f.h) hs.push_back(h.get()); auto fig = figures(hs);
    bool print = c.pick(2, "print") == 1; std::vector<Info> got(R); std::vector<std::string> text(R);
    mpimc::Options o; o.world = R; o.synchronizing = !print && c.pick(2, "rooted collectives wait") == 1; int left = print && !th ? 0 : 1;
    o.choose = [&](int n) { int k = std::min(n, left + 1); int v = k > 1 ? c.pick(k, "next process") : 0; left -= v; return v; };
    c.stage("information");
    auto res = mpimc::run(o, [&](int p) {
        if (!print) { got[p] = htool::get_distributed_hmatrix_information(*f.h[p], MPI_COMM_WORLD); return; }
        std::ostringstream os; os << std::hex; auto fl = os.flags(); char fill = os.fill(); htool::print_distributed_hmatrix_information(*f.h[p], os, MPI_COMM_WORLD); c.check(os.flags() == fl && os.fill() == fill, "print/format/" + TN, "stream format changed"); text[p] = os.str();
    });
    c.step(res.points + 1);
    auto ctx = [&] { std::string s = mc::str("R", R, " ", geo_name[gi], n, "/", imposed, " ", so.sym, so.uplo, " kind ", mode, " variants"); for (int x : v) s += mc::str(" ", x); return s; };
    c.check(res.ok, "communication/information/" + TN, ctx() + ": " + res.what); if (!res.ok) return;
    for (int p = 0; p < R; p++) { if (print) judge_print(c, fig, text[p], p == 0, ctx); else judge_info(c, fig, got[p], p == 0, ctx); }
    uint64_t h = 3; for (auto &x : fig) if (x.first.find("walltime") == std::string::npos) h = mc::hash_mix(h, (uint64_t)(x.second * 1e6)); c.outcome(h);
}

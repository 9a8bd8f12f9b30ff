// C02: centres, radii and geometric order of every cluster tree within the bounds.
#include "trees.inc"
const double EPS = Ty<P>::eps;
double proj(const Case &k, int i, const double *d) { double s = 0; for (int p = 0; p < k.dim; p++) s += d[p] * (double)k.x[i * k.dim + p]; return s; }
// eigen-decomposition of a symmetric matrix by Jacobi rotations: values descending, vectors in rows
void eigen(int n, double A[3][3], double w[3], double V[3][3]) {
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) V[i][j] = i == j;
    for (int s = 0; s < 60; s++) for (int p = 0; p < n; p++) for (int q = p + 1; q < n; q++) {
        if (A[p][q] == 0) continue;
        double th = (A[q][q] - A[p][p]) / (2 * A[p][q]), t = (th >= 0 ? 1 : -1) / (std::fabs(th) + std::sqrt(1 + th * th)), cs = 1 / std::sqrt(1 + t * t), sn = t * cs;
        for (int i = 0; i < n; i++) { double a = A[i][p], b = A[i][q]; A[i][p] = cs * a - sn * b; A[i][q] = sn * a + cs * b; }
        for (int i = 0; i < n; i++) { double a = A[p][i], b = A[q][i]; A[p][i] = cs * a - sn * b; A[q][i] = sn * a + cs * b; }
        for (int i = 0; i < n; i++) { double a = V[p][i], b = V[q][i]; V[p][i] = cs * a - sn * b; V[q][i] = sn * a + cs * b; }
    }
    int id[3] = {0, 1, 2};
    std::sort(id, id + n, [&](int a, int b) { return A[a][a] > A[b][b]; });
    double V2[3][3];
    for (int i = 0; i < n; i++) { w[i] = A[id[i]][id[i]]; for (int j = 0; j < n; j++) V2[i][j] = V[id[i]][j]; }
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) V[i][j] = V2[i][j];
}
void run(mc::Run &c, const Case &k) {
    c.stage("create_cluster_tree");
    Built b = build(k);
    const Cluster<P> &r = *b.root;
    c.step();
    auto msg = [&](const std::string &m) { return [&k, m] { return m + " -- " + show(k); }; };
    const auto &perm = r.get_permutation();
    std::vector<const Cluster<P> *> all;
    nodes(r, all);
    double span = 0; for (P v : k.x) span = std::max(span, std::fabs((double)v));
    auto W = [&](int i) { return k.weights.empty() ? 1. : (double)k.weights[i]; };
    std::vector<P> dr(k.n, 0), dw(k.n, 1);
    const P *radii = k.radii.empty() ? dr.data() : k.radii.data(), *weights = k.weights.empty() ? dw.data() : k.weights.data();
    for (auto *t : all) {
        int o = t->get_offset(), s = t->get_size();
        // centre: weighted barycentre
        double ctr[3] = {0, 0, 0}, tw = 0;
        for (int i = o; i < o + s; i++) { tw += W(perm[i]); for (int d = 0; d < k.dim; d++) ctr[d] += W(perm[i]) * k.x[perm[i] * k.dim + d]; }
        c.check((int)t->get_center().size() == k.dim, "centre-dimension/" + TN, msg("dimension of the centre"));
        double ctol = 8 * (s + 4) * EPS * span;
        for (int d = 0; d < k.dim; d++) { ctr[d] /= tw; c.check(std::fabs(ctr[d] - (double)t->get_center()[d]) <= ctol, "centre/" + TN, msg(mc::str("centre ", d, " of [", o, ",", o + s, ") is ", (double)t->get_center()[d], " instead of ", ctr[d]))); }
        // radius: smallest around the centre enclosing the balls of its points
        double rad = 0;
        for (int i = o; i < o + s; i++) { double e = 0; for (int d = 0; d < k.dim; d++) { double u = k.x[perm[i] * k.dim + d] - (double)t->get_center()[d]; e += u * u; } rad = std::max(rad, std::sqrt(e) + (k.radii.empty() ? 0. : (double)k.radii[perm[i]])); }
        c.check(std::fabs(rad - (double)t->get_radius()) <= ctol + 8 * EPS * rad, "radius/" + TN, msg(mc::str("radius of [", o, ",", o + s, ") is ", (double)t->get_radius(), " instead of ", rad)));
        // directions
        double cov[3][3] = {{0}}, w[3] = {0}, V[3][3], lo[3], hi[3];
        for (int d = 0; d < k.dim; d++) { lo[d] = 1e300; hi[d] = -1e300; }
        for (int i = o; i < o + s; i++) for (int d = 0; d < k.dim; d++) {
            double v = k.x[perm[i] * k.dim + d]; lo[d] = std::min(lo[d], v); hi[d] = std::max(hi[d], v);
            for (int e = 0; e < k.dim; e++) cov[d][e] += W(perm[i]) * (v - ctr[d]) * ((double)k.x[perm[i] * k.dim + e] - ctr[e]);
        }
        double cov0[3][3]; memcpy(cov0, cov, sizeof cov);
        eigen(k.dim, cov, w, V);
        double ext = 0; for (int d = 0; d < k.dim; d++) ext = std::max(ext, hi[d] - lo[d]);
        bool distinct = ext > 64 * EPS * span && w[0] > 0;
        c.stage("compute_direction");
        if (distinct) {
            std::vector<P> dl = htool::ComputeLargestExtent<P>().compute_direction(t, perm, k.dim, k.x.data(), radii, weights);
            double nn = 0, ray = 0;
            for (int d = 0; d < k.dim; d++) nn += (double)dl[d] * dl[d];
            for (int d = 0; d < k.dim; d++) for (int e = 0; e < k.dim; e++) ray += (double)dl[d] * dl[e] * cov0[d][e];
            c.check(std::fabs(nn - 1) < 1e-3 && ray >= w[0] * (1 - 2e-2) * nn, "principal-axis/" + TN, msg(mc::str("direction (", (double)dl[0], ",", (double)dl[1], k.dim == 3 ? mc::str(",", (double)dl[2]) : "", ") of [", o, ",", o + s, ") has variance ", ray, " of the largest ", w[0])));
            std::vector<P> db = htool::ComputeBoundingBox<P>().compute_direction(t, perm, k.dim, k.x.data(), radii, weights);
            int nz = 0; bool good = false;
            for (int d = 0; d < k.dim; d++) if (db[d] != 0) { nz++; good = std::fabs(std::fabs((double)db[d]) - 1) < 1e-6 && hi[d] - lo[d] >= ext * (1 - 16 * EPS) - 16 * EPS * span; }
            c.check(nz == 1 && good, "bounding-box-axis/" + TN, msg(mc::str("direction (", (double)db[0], ",", (double)db[1], ") of [", o, ",", o + s, ") is not the longest side")));
        }
        if (t->is_leaf() || (k.imposed && t->is_root())) continue;
        // order of the children
        c.stage("children");
        size_t nc = t->get_children().size();
        std::vector<std::vector<double>> dirs;
        if (k.dir == 0) { if (distinct && (w[0] - w[1]) > 2e-2 * w[0]) dirs.push_back({V[0][0], V[0][1], k.dim == 3 ? V[0][2] : 0.}); }
        else for (int d = 0; d < k.dim; d++) if (hi[d] - lo[d] >= ext * (1 - 16 * EPS) - 16 * EPS * span) { std::vector<double> e(3, 0.); e[d] = 1; dirs.push_back(e); }
        double stol = k.dir == 0 ? (EPS > 1e-10 ? 3e-3 : 1e-6) * ext + 64 * EPS * span : 0;
        bool ordered = dirs.empty(); std::string why; std::vector<double> used;
        for (auto &d0 : dirs) for (int sg = 0; sg < 2 && !ordered; sg++) {
            std::vector<double> d = d0; if (sg) for (auto &v : d) v = -v;
            bool ok = true; double before = -1e300;
            for (auto &ch : t->get_children()) {
                double a = 1e300, z = -1e300;
                for (int i = ch->get_offset(); i < ch->get_offset() + ch->get_size(); i++) { double p = proj(k, perm[i], d.data()); a = std::min(a, p); z = std::max(z, p); }
                if (a < before - stol) ok = false;
                before = std::max(before, z);
            }
            if (ok) { ordered = true; used = d; }
        }
        c.check(ordered, k.dir ? "order-bounding-box/" + TN : "order-principal-axis/" + TN, msg(mc::str("children of [", o, ",", o + s, ") are not ordered along the direction")));
        // sizes
        auto balanced = [&] { for (auto &ch : t->get_children()) if (ch->get_size() < s / (int)nc || ch->get_size() > s / (int)nc + (int)nc - 1) return false; return true; };
        if (!k.split) c.check(balanced(), "balanced/" + TN, msg(mc::str("sizes of the children of [", o, ",", o + s, ")")));
        else if (!used.empty() && dirs.size() == 1 && ext > 1e3 * EPS * span) {
            // equal-width slabs (unless one of them would be too small): each child starts at the first point beyond the width of the previous one
            std::vector<double> p;
            for (int i = o; i < o + s; i++) p.push_back(proj(k, perm[i], used.data()));
            std::sort(p.begin(), p.end());
            double width = (p.back() - p.front()) / nc;
            std::vector<int> sz[3];
            for (int v = 0; v < 3; v++) { // ties within tolerance are ambiguous
                double wd = width + (v - 1) * (stol + 1e-9 * width + 64 * EPS * span); size_t at = 0;
                for (size_t q = 0; q + 1 < nc; q++) { size_t e = at; while (e < p.size() && p[e] - p[std::min(at, p.size() - 1)] <= wd) e++; sz[v].push_back((int)(e - at)); at = e; }
                sz[v].push_back((int)(p.size() - at));
            }
            if (sz[0] == sz[1] && sz[1] == sz[2]) {
                bool enough = s > (int)nc, edge = false;
                for (int v : sz[1]) { if (v < k.minsize) enough = false; if (v == k.minsize) edge = true; }
                std::vector<int> got; for (auto &ch : t->get_children()) got.push_back(ch->get_size());
                if (enough && !(edge && balanced())) c.check(got == sz[1], "geometric-slabs/" + TN, [&] { std::string m = "slabs of"; for (int v : sz[1]) m += mc::str(" ", v); m += " points but children of"; for (int v : got) m += mc::str(" ", v); return m + " -- " + show(k); });
                else if (!enough) c.check(balanced(), "geometric-fallback/" + TN, msg("neither slabs nor a balanced splitting"));
            }
        }
    }
    c.outcome(mc::hash_bytes(perm.data(), perm.size() * sizeof(int)));
}
void lattice(mc::Run &c) { Case k; pick_lattice(c, k); if (!c.mine()) return; run(c, k); }
void named(mc::Run &c) { Case k; pick_named(c, k); if (!c.mine()) return; run(c, k); }
void big(mc::Run &c) { Case k; pick_big(c, k); if (!c.mine()) return; run(c, k); }
const std::string S1 = "lattice<" + TN + ">", S2 = "named<" + TN + ">", S3 = "big<" + TN + ">";
mc::Registrar r1(S1.c_str(), lattice), r2(S2.c_str(), named), r3(S3.c_str(), big);
} // namespace

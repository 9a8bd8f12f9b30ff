// The same sequence of calls with OpenMPI and with the controlled runtime: what every process ends up with must be the same.
#include <mpi.h>
#include <complex>
#include <cstdio>
#include <fstream>
#include <functional>
#include <string>
#include <vector>
typedef std::complex<double> Z;
template <class T> struct MT; template <> struct MT<int> { static MPI_Datatype t() { return MPI_INT; } }; template <> struct MT<double> { static MPI_Datatype t() { return MPI_DOUBLE; } };
template <> struct MT<float> { static MPI_Datatype t() { return MPI_FLOAT; } }; template <> struct MT<Z> { static MPI_Datatype t() { return MPI_DOUBLE_COMPLEX; } };
static double re(double x) { return x; } static double re(Z x) { return x.real() * 1000 + x.imag(); }
template <class T> static T value(int p, int i) { return T(100 * (p + 1) + i); }
template <> Z value<Z>(int p, int i) { return Z(p + 1, i); }
struct Out { std::string s; template <class V> void put(const char *what, const V &v) { s += what; char b[40]; for (auto &x : v) { snprintf(b, 40, " %.17g", re(x)); s += b; } s += "\n"; } };
template <class T> static void calls(Out &o, MPI_Comm cm, bool maxmin) {
    int r, n; MPI_Comm_rank(cm, &r); MPI_Comm_size(cm, &n); MPI_Datatype t = MT<T>::t();
    int tables = 1; for (int i = 0; i < n; i++) tables *= 3;
    auto data = [&](int k, int s) { std::vector<T> v(k); for (int i = 0; i < k; i++) v[i] = value<T>(r, s + i); return v; };
    for (int tab = 0; tab < tables; tab++) {
        std::vector<int> c(n), d(n), g(n); int x = tab, tot = 0, gap = 0; for (int i = 0; i < n; i++) { c[i] = x % 3; x /= 3; d[i] = tot; tot += c[i]; g[i] = gap; gap += c[i] + 1; }
        { auto in = data(c[r], 0); std::vector<T> out(gap, T(-1)); MPI_Allgatherv(in.data(), c[r], t, out.data(), c.data(), g.data(), t, cm); o.put("allgatherv", out); }
        { std::vector<T> out(tot, T(-1)); for (int i = 0; i < c[r]; i++) out[d[r] + i] = value<T>(r, i); MPI_Allgatherv(MPI_IN_PLACE, 0, t, out.data(), c.data(), d.data(), t, cm); o.put("allgatherv in place", out); }
        for (int root = 0; root < n; root++) {
            { auto in = data(c[r], 0); std::vector<T> out(gap, T(-1)); MPI_Gatherv(in.data(), c[r], t, out.data(), c.data(), g.data(), t, root, cm); o.put("gatherv", out); }
            { auto in = data(gap, 0); std::vector<T> out(c[r] + 1, T(-1)); MPI_Scatterv(in.data(), c.data(), g.data(), t, out.data(), c[r], t, root, cm); o.put("scatterv", out); }
        }
        { // process i sends c[(i+j)%n] to process j
            std::vector<int> sc(n), sd(n), rc(n), rd(n); int a = 0, b = 0; for (int j = 0; j < n; j++) { sc[j] = c[(r + j) % n]; sd[j] = a; a += sc[j] + 1; rc[j] = c[(j + r) % n]; rd[j] = b; b += rc[j] + 1; }
            auto in = data(a, 3); std::vector<T> out(b, T(-1)); MPI_Alltoallv(in.data(), sc.data(), sd.data(), t, out.data(), rc.data(), rd.data(), t, cm); o.put("alltoallv", out);
        }
    }
    for (int k = 0; k <= 2; k++) {
        { auto in = data(k * n, 1); std::vector<T> out(k * n, T(-1)); MPI_Alltoall(in.data(), k, t, out.data(), k, t, cm); o.put("alltoall", out); }
        { auto in = data(k, 1); std::vector<T> out(k * n, T(-1)); MPI_Allgather(in.data(), k, t, out.data(), k, t, cm); o.put("allgather", out); }
        { std::vector<T> out(k * n, T(-1)); for (int i = 0; i < k; i++) out[r * k + i] = value<T>(r, i); MPI_Allgather(MPI_IN_PLACE, 0, t, out.data(), k, t, cm); o.put("allgather in place", out); }
        std::vector<MPI_Op> ops = {MPI_SUM}; if (maxmin) { ops.push_back(MPI_MAX); ops.push_back(MPI_MIN); }
        for (auto op : ops) {
            { auto in = data(k, 1); std::vector<T> out(k, T(-1)); MPI_Allreduce(in.data(), out.data(), k, t, op, cm); o.put("allreduce", out); }
            { auto io = data(k, 2); MPI_Allreduce(MPI_IN_PLACE, io.data(), k, t, op, cm); o.put("allreduce in place", io); }
            { auto in = data(k, 1); std::vector<T> out(k, T(-1)); MPI_Scan(in.data(), out.data(), k, t, op, cm); o.put("scan", out); }
            { auto in = data(k, 1); std::vector<T> out(k, T(-1)); MPI_Exscan(in.data(), out.data(), k, t, op, cm); if (r) o.put("exscan", out); }
            { auto in = data(k * n, 1); std::vector<T> out(k, T(-1)); MPI_Reduce_scatter_block(in.data(), out.data(), k, t, op, cm); o.put("reduce_scatter_block", out); }
            for (int root = 0; root < n; root++) {
                { auto in = data(k, 1); std::vector<T> out(k, T(-1)); MPI_Reduce(in.data(), out.data(), k, t, op, root, cm); o.put("reduce", out); }
                { auto io = data(k, 1); if (r == root) MPI_Reduce(MPI_IN_PLACE, io.data(), k, t, op, root, cm); else MPI_Reduce(io.data(), nullptr, k, t, op, root, cm); if (r == root) o.put("reduce in place", io); }
            }
        }
        for (int root = 0; root < n; root++) {
            { auto io = data(k, 1); MPI_Bcast(io.data(), k, t, root, cm); o.put("bcast", io); }
            { auto in = data(k, 1); std::vector<T> out(k * n, T(-1)); MPI_Gather(in.data(), k, t, out.data(), k, t, root, cm); o.put("gather", out); }
            { auto in = data(k * n, 1); std::vector<T> out(k, T(-1)); MPI_Scatter(in.data(), k, t, out.data(), k, t, root, cm); o.put("scatter", out); }
        }
        // messages: a ring, both blocking and not, received in another order than sent
        if (n > 1) {
            int to = (r + 1) % n, from = (r + n - 1) % n;
            { auto a = data(k, 5), b = data(k, 7); std::vector<T> x(k, T(-1)), y(k, T(-1)); MPI_Request q[4]; MPI_Irecv(y.data(), k, t, from, 8, cm, q); MPI_Irecv(x.data(), k, t, from, 7, cm, q + 1); MPI_Isend(a.data(), k, t, to, 7, cm, q + 2); MPI_Isend(b.data(), k, t, to, 8, cm, q + 3); MPI_Waitall(4, q, MPI_STATUSES_IGNORE); o.put("ring", x); o.put("ring", y); }
            { auto a = data(k, 5); std::vector<T> x(k + 1, T(-1)); MPI_Status st; MPI_Sendrecv(a.data(), k, t, to, 1, x.data(), k + 1, t, from, 1, cm, &st); int got; MPI_Get_count(&st, t, &got); o.put("sendrecv", x); o.put("count", std::vector<int>{got}); }
            { auto a = data(k, 5); std::vector<T> x(k, T(-1)); if (r % 2 == 0) MPI_Send(a.data(), k, t, to, 1, cm); if (from % 2 == 0) MPI_Recv(x.data(), k, t, from, 1, cm, MPI_STATUS_IGNORE); o.put("send", x); }
        }
    }
    MPI_Barrier(cm);
}
static std::string body() {
    Out o; int r, n; MPI_Comm_rank(MPI_COMM_WORLD, &r); MPI_Comm_size(MPI_COMM_WORLD, &n);
    calls<double>(o, MPI_COMM_WORLD, true); calls<Z>(o, MPI_COMM_WORLD, false); calls<int>(o, MPI_COMM_WORLD, true); calls<float>(o, MPI_COMM_WORLD, true);
    MPI_Comm s; MPI_Comm_split(MPI_COMM_WORLD, r % 2, -r, &s); calls<double>(o, s, true); MPI_Comm_free(&s);
    MPI_Comm_split(MPI_COMM_WORLD, 0, n - r, &s); calls<int>(o, s, true); MPI_Comm d; MPI_Comm_dup(s, &d); calls<double>(o, d, true); MPI_Comm_free(&d); MPI_Comm_free(&s);
    MPI_Comm_split(MPI_COMM_WORLD, r == 0 ? MPI_UNDEFINED : 0, r, &s); if (s != MPI_COMM_NULL) { calls<double>(o, s, true); MPI_Comm_free(&s); }
    return o.s;
}
#ifdef SHIM
#include "mpi_shim.hpp"
int main(int, char **v) { // all processes in turn with several orders
    int n = atoi(v[1]); long bad = 0; std::vector<std::string> first(n);
    for (int order = 0; order < 6; order++) for (int sync = 0; sync < 2; sync++) {
        std::vector<std::string> out(n); unsigned st = 1; mpimc::Options o; o.world = n; o.synchronizing = sync;
        o.choose = [&](int k) { return order == 0 ? 0 : order == 1 ? k - 1 : order == 2 ? k / 2 : (int)((st = st * 1103515245u + 12345u * order) >> 16) % k; };
        auto r = mpimc::run(o, [&](int p) { out[p] = body(); }); if (!r.ok) { printf("%s\n", r.what.c_str()); return 1; }
        for (int p = 0; p < n; p++) { if (first[p].empty()) first[p] = out[p]; else if (first[p] != out[p]) bad++; }
    }
    for (int p = 0; p < n; p++) std::ofstream(std::string(v[2]) + "." + std::to_string(p)) << first[p];
    return bad != 0;
}
#else
int main(int c, char **v) { MPI_Init(&c, &v); int r; MPI_Comm_rank(MPI_COMM_WORLD, &r); std::string s = body(); std::ofstream(std::string(v[1]) + "." + std::to_string(r)) << s; MPI_Finalize(); }
#endif

// C16: what is written reads back.
#include "alloc_count.hpp"
#include "space.hpp"
#include <fstream>
#include <limits>
#include <signal.h>
#include <sstream>
#include <sys/resource.h>
#include <unistd.h>
#ifndef TS
#define TS double
#endif
using namespace hx;
namespace {
typedef TS T;
const std::string TY = Ty<T>::name();
std::string slurp(const std::string &f) { std::ifstream i(f, std::ios::binary); std::ostringstream o; o << i.rdbuf(); return o.str(); }
void spit(const std::string &f, const std::string &s) { std::ofstream o(f, std::ios::binary | std::ios::trunc); o << s; }
std::string name(const char *s) { return mc::str("c16_", (int)getpid(), "_", s); }
typedef Re<T> P;
template <class X> struct Mk { static X mk(P a, P) { return X(a); } };
template <class Q> struct Mk<std::complex<Q>> { static std::complex<Q> mk(Q a, Q b) { return std::complex<Q>(a, b); } };
T value(int kind, int i) {
    if (kind == 0) return val<T>(5, i, 1);
    const P inf = std::numeric_limits<P>::infinity(), nan = std::numeric_limits<P>::quiet_NaN(), dn = std::numeric_limits<P>::denorm_min(), big = std::numeric_limits<P>::max();
    const P v[] = {P(0), -P(0), P(1) / P(3), inf, -inf, nan, dn, -big, P(10), P(13), P(26), P(2.5e-38)};
    return Mk<T>::mk(v[(i + kind) % 12], v[(3 * i + 5 * kind) % 12]);
}
void fill(T *p, int n, int kind) { for (int i = 0; i < n; i++) p[i] = value(kind, i); }
bool same_bits(const T *a, const T *b, size_t n) { return n == 0 || std::memcmp(a, b, n * sizeof(T)) == 0; }
// every point at which writing can fail: the file may not grow beyond k bytes
template <class F> int write_with_room(size_t k, F f) {
    static bool once = (signal(SIGXFSZ, SIG_IGN), true); (void)once;
    std::ostringstream cap; std::streambuf *o = std::cout.rdbuf(cap.rdbuf());
    struct rlimit old; getrlimit(RLIMIT_FSIZE, &old); struct rlimit l = old; l.rlim_cur = k; setrlimit(RLIMIT_FSIZE, &l);
    int r = f();
    setrlimit(RLIMIT_FSIZE, &old); std::cout.rdbuf(o);
    return r;
}
// one matrix saved and read into an object in every state
void matrix_roundtrip(mc::Run &c) {
    int top = c.thorough ? 5 : 4;
    int m = c.pick(top + 1, "rows"), n = c.pick(top + 1, "columns"), kind = c.pick(c.thorough ? 4 : 2, "values"), into = c.pick(7, "object read into");
    if (!c.mine()) return;
    std::string f = name("m"); unlink(f.c_str());
    static bool warm = false; if (!warm) { warm = true; Matrix<T> W(1, 1); W.matrix_to_bytes(f); W.bytes_to_matrix(f); W.bytes_to_matrix(name("missing")); unlink(f.c_str()); } // one-time allocations of the C++ library
    long before = mc::live_blocks();
    bool ok = true, unchanged = true; int rc1, rc2, rc3;
    {
        Matrix<T> A(m, n); fill(A.data(), m * n, kind); std::vector<T> keep(A.data(), A.data() + m * n);
        std::vector<T> buf(m * n + 4, T(7));
        Matrix<T> B;
        if (into == 1) B = Matrix<T>(m, n, T(3)); else if (into == 2) B = Matrix<T>(n + 1, m + 2, T(3)); else if (into == 3) B = Matrix<T>(0, 3); else if (into == 4) B.assign(m, n, buf.data(), false); else if (into == 5) B.assign(2, 2, buf.data(), false); else if (into == 6) B = Matrix<T>(2, 0);
        c.stage("bytes_to_matrix"); rc3 = B.bytes_to_matrix(name("missing")); c.step();
        if (into == 1) unchanged = B.nb_rows() == m && B.nb_cols() == n && (m * n == 0 || B(0, 0) == T(3));
        c.stage("matrix_to_bytes"); rc1 = A.matrix_to_bytes(f); c.step();
        c.stage("bytes_to_matrix"); rc2 = B.bytes_to_matrix(f); c.step();
        ok = B.nb_rows() == m && B.nb_cols() == n && same_bits(B.data(), keep.data(), keep.size()) && same_bits(A.data(), keep.data(), keep.size());
        for (auto &x : buf) if (x != T(7)) unchanged = false;
        if (m * n && ok) { B(0, 0) = T(9); ok = same_bits(A.data(), keep.data(), keep.size()); } // independent of what was saved
        Matrix<T> C2(B); ok = ok && C2.nb_rows() == m;
    }
    long after = mc::live_blocks();
    auto ctx = [&] { return mc::str(m, "x", n, " values ", kind, " into ", into); };
    c.check(rc1 == 0 && rc2 == 0, "matrix-status/" + TY, ctx); c.check(rc3 != 0, "missing-file/" + TY, ctx);
    c.check(ok, "matrix/" + TY, ctx); c.check(unchanged, "matrix-other-data/" + TY, ctx);
    c.check(after == before, "matrix-leak/" + TY, ctx);
    std::string s = slurp(f);
    c.check(s.size() == 2 * sizeof(int) + (size_t)m * n * sizeof(T), "matrix-file-size/" + TY, ctx);
    Matrix<T> A(m, n); fill(A.data(), m * n, kind);
    for (size_t k = 0; k < s.size(); k++) {
        std::string g = name("w"); c.stage("interrupted write"); int rc = write_with_room(k, [&] { return A.matrix_to_bytes(g); }); c.step();
        c.check(rc != 0, "matrix-write-failure/" + TY, [&] { return mc::str("room for ", k, " of ", s.size(), " bytes -- ", ctx()); });
        unlink(g.c_str());
    }
    // every torn file
    for (size_t k = 0; k < s.size(); k++) {
        std::string g = name("t"); spit(g, s.substr(0, k)); Matrix<T> B(1, 2, T(4));
        c.stage("torn file"); int rc = B.bytes_to_matrix(g); c.step();
        c.check(rc != 0, "matrix-torn/" + TY, [&] { return mc::str("first ", k, " of ", s.size(), " bytes -- ", ctx()); });
        unlink(g.c_str());
    }
    unlink(f.c_str()); c.outcome(mc::hash_bytes(s.data(), s.size()));
}
// histories of saves and loads over two files and two objects
void matrix_history(mc::Run &c) {
    int depth = c.thorough ? 5 : 4;
    std::vector<int> ops; for (int i = 0; i < depth; i++) ops.push_back(c.pick(8, "operation"));
    if (!c.mine()) return;
    std::string fs[2] = {name("h0"), name("h1")}; unlink(fs[0].c_str()); unlink(fs[1].c_str());
    struct Model { int m, n; std::vector<T> v; };
    static bool warm = false; if (!warm) { warm = true; Matrix<T> W(1, 1); W.matrix_to_bytes(fs[0]); W.bytes_to_matrix(fs[0]); W.bytes_to_matrix(name("missing")); unlink(fs[0].c_str()); }
    long before = mc::live_blocks();
    bool ok = true; int at = -1; uint64_t states[8]; int ns = 0;
    {
        Matrix<T> M[2] = {Matrix<T>(2, 3), Matrix<T>(1, 4)}; Model mod[2], file[2]; bool exists[2] = {false, false};
        for (int k = 0; k < 2; k++) { fill(M[k].data(), M[k].nb_rows() * M[k].nb_cols(), 2 * k); mod[k] = {M[k].nb_rows(), M[k].nb_cols(), std::vector<T>(M[k].data(), M[k].data() + M[k].nb_rows() * M[k].nb_cols())}; }
        for (int i = 0; i < depth && ok; i++) {
            int o = ops[i] & 1, f = (ops[i] >> 1) & 1; c.step();
            if (ops[i] & 4) { int rc = M[o].bytes_to_matrix(fs[f]); if (exists[f]) { mod[o] = file[f]; ok = rc == 0; } else ok = rc != 0; }
            else { ok = M[o].matrix_to_bytes(fs[f]) == 0; file[f] = mod[o]; exists[f] = true; for (int k = 0; k < M[o].nb_rows() * M[o].nb_cols(); k++) { M[o].data()[k] = val<T>(40 + i, k, o); mod[o].v[k] = val<T>(40 + i, k, o); } }
            for (int k = 0; k < 2; k++) ok = ok && M[k].nb_rows() == mod[k].m && M[k].nb_cols() == mod[k].n && same_bits(M[k].data(), mod[k].v.data(), mod[k].v.size());
            at = i; states[ns++] = mc::hash_mix(mod[0].v.size() * 10 + mod[1].v.size(), exists[0] * 2 + exists[1]);
        }
    }
    auto ctx = [&] { std::string s = mc::str("after operation ", at, " of:"); for (int o : ops) s += mc::str(" ", o & 4 ? "load" : "save", "(object ", o & 1, ", file ", (o >> 1) & 1, ")"); return s; };
    long after = mc::live_blocks(); for (int i = 0; i < ns; i++) c.state(states[i]);
    c.check(ok, "matrix-history/" + TY, ctx); c.check(after == before, "matrix-history-leak/" + TY, ctx);
    unlink(fs[0].c_str()); unlink(fs[1].c_str()); c.outcome(ok);
}
template <class X> void vector_of(mc::Run &c, const std::vector<X> &v, int into, const std::string &ty) {
    std::string f = name("v"); unlink(f.c_str());
    std::vector<X> w; if (into == 1) w.assign(v.size() + 3, X(5)); else if (into == 2) w.assign(1, X(5));
    std::vector<X> w0 = w;
    auto ctx = [&] { return mc::str("size ", v.size(), " into ", w0.size()); };
    c.stage("bytes_to_vector"); c.check(htool::bytes_to_vector(w, name("missing")) != 0 && w == w0, "vector-missing/" + ty, ctx);
    c.stage("vector_to_bytes"); int rc = htool::vector_to_bytes(v, f); c.step();
    c.stage("bytes_to_vector"); int rd = htool::bytes_to_vector(w, f); c.step();
    c.check(rc == 0 && rd == 0, "vector-status/" + ty, ctx);
    c.check(w.size() == v.size() && (v.empty() || std::memcmp(w.data(), v.data(), v.size() * sizeof(X)) == 0), "vector/" + ty, ctx);
    std::string s = slurp(f);
    for (size_t k = 0; k < s.size(); k++) { std::string g = name("t"); spit(g, s.substr(0, k)); std::vector<X> u(2); int r = htool::bytes_to_vector(u, g); c.step(); c.check(r != 0, "vector-torn/" + ty, [&] { return mc::str("first ", k, " of ", s.size(), " bytes -- ", ctx()); }); unlink(g.c_str()); }
    for (size_t k = 0; k < s.size(); k++) { std::string g = name("w"); int r = write_with_room(k, [&] { return htool::vector_to_bytes(v, g); }); c.step(); c.check(r != 0, "vector-write-failure/" + ty, [&] { return mc::str("room for ", k, " of ", s.size(), " bytes -- ", ctx()); }); unlink(g.c_str()); }
    unlink(f.c_str()); c.outcome(mc::hash_bytes(s.data(), s.size()));
}
void vectors(mc::Run &c) {
    int n = c.pick(c.thorough ? 12 : 7, "size"), kind = c.pick(c.thorough ? 4 : 2, "values"), into = c.pick(3, "object");
    if (!c.mine()) return;
    std::vector<T> v(n); fill(v.data(), n, kind); vector_of<T>(c, v, into, TY);
    std::vector<int> w(n); for (int i = 0; i < n; i++) w[i] = kind ? 256 * i - 10 : i; vector_of<int>(c, w, into, "int");
}
// text forms
std::string one(T v) { std::ostringstream o; o << v; return o.str(); }
void text(mc::Run &c) {
    int top = c.thorough ? 5 : 4;
    int m = c.pick(top + 1, "rows"), n = c.pick(top + 1, "columns"), kind = c.pick(2, "values"); std::string del = c.of(std::vector<std::string>{",", ";", " | "}, "delimiter");
    if (!c.mine()) return;
    auto ctx = [&] { return mc::str(m, "x", n, " delimiter '", del, "'"); };
    Matrix<T> A(m, n); fill(A.data(), m * n, kind);
    std::string want; if (n) for (int i = 0; i < m; i++) { for (int j = 0; j < n; j++) want += (j ? del : "") + one(A(i, j)); want += "\n"; }
    std::ostringstream os; c.stage("print"); int rp = A.print(os, del); c.step(); c.check(rp == 0, "print-result/" + TY, ctx);
    c.check(os.str() == want, "print/" + TY, ctx);
    std::string f = name("c"); spit(f, "old content which is longer than anything written now\n\n\n\n\n\n\n\n\n\n\n\n\n\n");
    c.stage("csv_save"); int rv = A.csv_save(f, del); c.step(); c.check(rv == 0, "csv-result/" + TY, ctx); c.check(slurp(f) == want, "csv/" + TY, ctx);
    std::vector<T> v(A.data(), A.data() + m * n);
    c.stage("matlab_save"); int rs = htool::matlab_save(v, f); c.step(); c.check(rs == 0 && htool::matlab_save(v, name("none") + "/x") != 0, "matlab-result/" + TY, ctx);
    std::istringstream in(slurp(f)); std::string l; size_t k = 0; bool ok = true;
    while (std::getline(in, l)) {
        if (k >= v.size()) { ok = false; break; }
        const char *p = l.c_str(); char *e; double re = std::strtod(p, &e); double im = std::strtod(e, &e);
        ok = ok && *e == 'i' && e[1] == '\t' && e[2] == 0;
        double wr = std::real(v[k]), wi = std::imag(v[k]);
        auto eq = [](double a, double b) { return a == b || (a != a && b != b); };
        ok = ok && eq(re, wr) && eq(im, wi); k++;
    }
    c.check(ok && k == v.size(), "matlab/" + TY, ctx);
    unlink(f.c_str());
    // vectors to a stream: the values go to that stream, each once, in order
    std::ostringstream captured, target; std::streambuf *old = std::cout.rdbuf(captured.rdbuf());
    { using htool::operator<<; c.stage("vector <<"); target << v; } c.step(); std::cout.rdbuf(old);
    std::string body; for (auto &x : v) body += one(x) + ",";
    std::string got = target.str();
    c.check(captured.str().empty(), "vector-stream-elsewhere/" + TY, ctx);
    c.check(v.empty() ? got.empty() : got.compare(0, 1 + body.size(), "[" + body) == 0 && got.find_first_not_of("\b]", 1 + body.size()) == std::string::npos, "vector-stream/" + TY, ctx);
    c.outcome(mc::hash_bytes(want.data(), want.size()));
}
const std::string N1 = "matrix<" + TY + ">", N2 = "matrix-history<" + TY + ">", N3 = "vector<" + TY + ">", N4 = "text<" + TY + ">";
mc::Registrar r1(N1.c_str(), matrix_roundtrip), r2(N2.c_str(), matrix_history), r3(N3.c_str(), vectors), r4(N4.c_str(), text);
} // namespace

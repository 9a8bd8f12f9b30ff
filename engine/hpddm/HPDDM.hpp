// Stand-in for HPDDM (which is not installed here): the part of its interface the library uses, on top of the controlled
// MPI runtime.  It follows HPDDM's documented semantics: one- and two-level Schwarz preconditioners given by local solves,
// a partition of unity and exchanges between neighbours, right-preconditioned Krylov iterations, options.
#ifndef VERIF_HPDDM_HPP
#define VERIF_HPDDM_HPP
#include <algorithm>
#include <cmath>
#include <complex>
#include <cstdlib>
#include <map>
#include <mpi.h>
#include <sstream>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#include "../mpi_shim.hpp"
#ifndef HPDDM_NUMBERING
#define HPDDM_NUMBERING 'F'
#endif
#define HPDDM_KRYLOV_METHOD_GMRES 0
#define HPDDM_KRYLOV_METHOD_BGMRES 1
#define HPDDM_KRYLOV_METHOD_CG 2
#define HPDDM_KRYLOV_METHOD_BCG 3
#define HPDDM_KRYLOV_METHOD_GCRODR 4
#define HPDDM_KRYLOV_METHOD_BGCRODR 5
#define HPDDM_KRYLOV_METHOD_BFBCG 6
#define HPDDM_KRYLOV_METHOD_RICHARDSON 7
#define HPDDM_KRYLOV_METHOD_NONE 8
#define HPDDM_SCHWARZ_METHOD_RAS 0
#define HPDDM_SCHWARZ_METHOD_ORAS 1
#define HPDDM_SCHWARZ_METHOD_SORAS 2
#define HPDDM_SCHWARZ_METHOD_ASM 3
#define HPDDM_SCHWARZ_METHOD_OSM 4
#define HPDDM_SCHWARZ_METHOD_NONE 5
#define HPDDM_SCHWARZ_COARSE_CORRECTION_DEFLATED 0
#define HPDDM_SCHWARZ_COARSE_CORRECTION_ADDITIVE 1
#define HPDDM_SCHWARZ_COARSE_CORRECTION_BALANCED 2
namespace HPDDM {
template <class K> struct real_of { typedef K type; };
template <class R> struct real_of<std::complex<R>> { typedef R type; };
template <class K> using underlying_type = typename real_of<K>::type;
inline float cj(float x) { return x; }
inline double cj(double x) { return x; }
template <class R> std::complex<R> cj(std::complex<R> x) { return std::conj(x); }
template <class K> MPI_Datatype mpi_of() { return std::is_same<K, float>::value ? MPI_FLOAT : std::is_same<K, double>::value ? MPI_DOUBLE : std::is_same<K, std::complex<float>>::value ? MPI_C_COMPLEX : MPI_C_DOUBLE_COMPLEX; }

class Option { // one per process
    std::map<std::string, double> v_;
  public:
    static Option *get() { static std::map<int, Option> all; return &all[mpimc::self()]; }
    double &operator[](const std::string &k) { return v_[k]; }
    template <class T = double> T val(const std::string &k, T d = T()) const { auto i = v_.find(k); return i == v_.end() ? d : static_cast<T>(i->second); }
    bool set(const std::string &k) const { return v_.count(k) > 0; }
    void remove(const std::string &k) { v_.erase(k); }
    void clear() { v_.clear(); }
    void parse(const std::string &s) {
        std::istringstream is(s); std::string t;
        static const std::map<std::string, int> words = {{"gmres", 0}, {"bgmres", 1}, {"cg", 2}, {"bcg", 3}, {"gcrodr", 4}, {"bgcrodr", 5}, {"bfbcg", 6}, {"richardson", 7}, {"ras", 0}, {"oras", 1}, {"soras", 2}, {"asm", 3}, {"osm", 4}, {"deflated", 0}, {"additive", 1}, {"balanced", 2}};
        while (is >> t) if (t.compare(0, 7, "-hpddm_") == 0) { std::string k = t.substr(7), w; is >> w; auto i = words.find(w); v_[k] = w == "none" ? (k == "krylov_method" ? 8 : 5) : i != words.end() ? i->second : std::atof(w.c_str()); }
    }
    void parse(int argc, char **argv, bool = false) { std::string s; for (int i = 1; i < argc; i++) s += std::string(argv[i]) + " "; parse(s); }
};

template <class K> struct MatrixCSR { int n_, m_; bool sym_; };

template <class K> struct DenseLU { // Gaussian elimination with row exchanges, column-major
    int n = 0; std::vector<K> a; std::vector<int> p;
    void factor(int n_, std::vector<K> A) {
        n = n_; a.swap(A); p.resize(n);
        for (int k = 0; k < n; k++) {
            int q = k; for (int i = k; i < n; i++) if (std::abs(a[i + (size_t)k * n]) > std::abs(a[q + (size_t)k * n])) q = i;
            p[k] = q; if (q != k) for (int j = 0; j < n; j++) std::swap(a[k + (size_t)j * n], a[q + (size_t)j * n]);
            for (int i = k + 1; i < n; i++) { a[i + (size_t)k * n] /= a[k + (size_t)k * n]; for (int j = k + 1; j < n; j++) a[i + (size_t)j * n] -= a[i + (size_t)k * n] * a[k + (size_t)j * n]; }
        }
    }
    void solve(K *b) const {
        for (int k = 0; k < n; k++) if (p[k] != k) std::swap(b[k], b[p[k]]);
        for (int k = 0; k < n; k++) for (int i = k + 1; i < n; i++) b[i] -= a[i + (size_t)k * n] * b[k];
        for (int k = n - 1; k >= 0; k--) { b[k] /= a[k + (size_t)k * n]; for (int i = 0; i < k; i++) b[i] -= a[i + (size_t)k * n] * b[k]; }
    }
};
template <class K> class LapackTRSub { // dense local solver: reads the lower triangle of symmetric/Hermitian matrices
    DenseLU<K> lu_; int n_ = 0;
  public:
    static constexpr char numbering_ = 'F';
    void dtor() {}
    template <char N = HPDDM_NUMBERING> void numfact(MatrixCSR<K> *const &A, bool = false, K *const &ptr = nullptr) {
        n_ = A->n_; std::vector<K> a((size_t)n_ * n_);
        for (int j = 0; j < n_; j++) for (int i = 0; i < n_; i++) a[i + (size_t)j * n_] = !A->sym_ || i >= j ? ptr[i + (size_t)j * n_] : cj(ptr[j + (size_t)i * n_]);
        if (A->sym_) for (int i = 0; i < n_; i++) a[i + (size_t)i * n_] = K(std::real(a[i + (size_t)i * n_]));
        lu_.factor(n_, a);
    }
    void solve(K *const x, const unsigned short &mu = 1) const { for (int i = 0; i < mu; i++) lu_.solve(x + (size_t)i * n_); }
    void solve(const K *const b, K *const x, const unsigned short &mu = 1) const { std::copy_n(b, (size_t)n_ * mu, x); solve(x, mu); }
};
template <class K> class LapackTR {};

template <template <class> class Solver, class K> class Schwarz {
  public:
    enum class Prcndtnr { NO, SY, GE, OS, OG };
  protected:
    int dof_ = 0; const underlying_type<K> *d_ = nullptr; MatrixCSR<K> *a_ = nullptr; K *ptr_ = nullptr; mutable Solver<K> s_;
    std::vector<std::pair<unsigned short, std::vector<int>>> map_; mutable std::vector<K *> buff_{nullptr}; Prcndtnr type_ = Prcndtnr::NO; MPI_Comm comm_ = nullptr;
    K **ev_ = nullptr; int nu_ = 0; bool two_ = false; std::vector<int> counts_, displs_; DenseLU<K> coarse_;
  public:
    Schwarz() {}
    Schwarz(const Schwarz &) = delete;
    virtual ~Schwarz() { delete a_; if (ev_) { if (nu_) delete[] ev_[0]; delete[] ev_; } }
    void initialize(underlying_type<K> *const &d) { d_ = d; }
    int getDof() const { return dof_; }
    const std::vector<std::pair<unsigned short, std::vector<int>>> &getMap() const { return map_; }
    K **getBuffer() const { return buff_.data(); }
    bool setBuffer(K * = nullptr, const int & = 0) const { size_t n = 0; for (auto &m : map_) n += 2 * m.second.size(); buff_[0] = new K[n]; return true; }
    void clearBuffer(bool free = true) const { if (free) { delete[] buff_[0]; buff_[0] = nullptr; } }
    Solver<K> &getSolver() { return s_; }
    void callNumfact() { s_.numfact(a_, false, ptr_); }
    void setVectors(K **ev) { ev_ = ev; nu_ = Option::get()->template val<int>("geneo_nu", 0); }
    virtual int GMV(const K *const, K *const, const int & = 1) const = 0;
    // sum of the values neighbours hold for the shared unknowns, after multiplication by the partition of unity if asked
    template <bool scaled = false> void exchange(K *const x, const int &mu = 1) const {
        if (scaled) for (int j = 0; j < mu; j++) for (int i = 0; i < dof_; i++) x[i + (size_t)j * dof_] *= d_[i];
        std::vector<std::vector<K>> in(map_.size()), out(map_.size()); std::vector<MPI_Request> rq;
        for (size_t k = 0; k < map_.size(); k++) {
            auto &idx = map_[k].second; in[k].resize(idx.size() * mu); out[k].resize(idx.size() * mu);
            for (int j = 0; j < mu; j++) for (size_t i = 0; i < idx.size(); i++) out[k][i + j * idx.size()] = x[idx[i] + (size_t)j * dof_];
            MPI_Request r; MPI_Irecv(in[k].data(), (int)in[k].size(), mpi_of<K>(), map_[k].first, 77, comm_, &r); rq.push_back(r);
            MPI_Isend(out[k].data(), (int)out[k].size(), mpi_of<K>(), map_[k].first, 77, comm_, &r); rq.push_back(r);
        }
        MPI_Waitall((int)rq.size(), rq.data(), MPI_STATUSES_IGNORE);
        for (size_t k = 0; k < map_.size(); k++) { auto &idx = map_[k].second; for (int j = 0; j < mu; j++) for (size_t i = 0; i < idx.size(); i++) x[idx[i] + (size_t)j * dof_] += in[k][i + j * idx.size()]; }
    }
    void buildTwo(const MPI_Comm &comm, const K *const E) { // E on the first process, of the size of the sum of the numbers of vectors
        int R, r; MPI_Comm_size(comm, &R); MPI_Comm_rank(comm, &r); counts_.assign(R, 0); displs_.assign(R, 0);
        MPI_Allgather(&nu_, 1, MPI_INT, counts_.data(), 1, MPI_INT, comm); int n = 0; for (int i = 0; i < R; i++) { displs_[i] = n; n += counts_[i]; }
        std::vector<K> e((size_t)n * n); if (r == 0) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) e[i + (size_t)j * n] = E[(size_t)i * n + j];
        MPI_Bcast(e.data(), n * n, mpi_of<K>(), 0, comm); coarse_.factor(n, e); two_ = true;
    }
    void deflation(const K *in, K *out, int mu) const { // Z E^{-1} Z^H
        int n = coarse_.n; std::vector<K> mine(std::max(nu_, 1)), all(std::max(n, 1));
        for (int c = 0; c < mu; c++) {
            for (int j = 0; j < nu_; j++) { K s = 0; for (int i = 0; i < dof_; i++) s += cj(ev_[j][i]) * in[i + (size_t)c * dof_] * d_[i]; mine[j] = s; }
            MPI_Allgatherv(mine.data(), nu_, mpi_of<K>(), all.data(), counts_.data(), displs_.data(), mpi_of<K>(), comm_);
            coarse_.solve(all.data()); int r; MPI_Comm_rank(comm_, &r);
            for (int i = 0; i < dof_; i++) { K s = 0; for (int j = 0; j < nu_; j++) s += ev_[j][i] * all[displs_[r] + j]; out[i + (size_t)c * dof_] = s; }
        }
        exchange<true>(out, mu);
    }
    void one_level(const K *in, K *out, int mu) const {
        if (type_ == Prcndtnr::NO) { std::copy_n(in, (size_t)dof_ * mu, out); return; }
        s_.solve(in, out, (unsigned short)mu);
        if (type_ == Prcndtnr::GE) exchange<true>(out, mu); else exchange<false>(out, mu);
    }
    void apply(const K *in, K *out, int mu) const {
        int corr = Option::get()->template val<int>("schwarz_coarse_correction", -1);
        if (!two_ || corr < 0 || type_ == Prcndtnr::NO) { one_level(in, out, mu); return; }
        size_t n = (size_t)dof_ * mu; std::vector<K> w(n), z(n);
        deflation(in, out, mu);
        if (corr == HPDDM_SCHWARZ_COARSE_CORRECTION_ADDITIVE) { one_level(in, w.data(), mu); for (size_t i = 0; i < n; i++) out[i] += w[i]; return; }
        GMV(out, z.data(), mu); for (size_t i = 0; i < n; i++) z[i] = in[i] - z[i];
        std::vector<K> copy(z); s_.solve(copy.data(), (unsigned short)mu); w = copy; // in place, as HPDDM does for these corrections
        if (type_ == Prcndtnr::GE) exchange<true>(w.data(), mu); else exchange<false>(w.data(), mu);
        if (corr == HPDDM_SCHWARZ_COARSE_CORRECTION_BALANCED) { GMV(w.data(), z.data(), mu); std::vector<K> q(n); deflation(z.data(), q.data(), mu); for (size_t i = 0; i < n; i++) w[i] -= q[i]; }
        for (size_t i = 0; i < n; i++) out[i] += w[i];
    }
    const underlying_type<K> *getScaling() const { return d_; }
};
template <template <class> class Solver, template <class> class CoarseSolver, char S, class K> class Dense : public Schwarz<Solver, K> {
  public:
    typedef Schwarz<Solver, K> super;
    typedef typename super::Prcndtnr Prcndtnr;
    using super::initialize;
    void initialize(int n, bool sym, K *const &p, const std::vector<int> &neighbors, const std::vector<std::vector<int>> &mapping) {
        this->dof_ = n; this->a_ = new MatrixCSR<K>{n, n, sym}; this->ptr_ = p; this->comm_ = MPI_COMM_WORLD;
        for (size_t i = 0; i < neighbors.size(); i++) this->map_.push_back({(unsigned short)neighbors[i], mapping[i]});
    }
};
template <class O> struct hpddm_method_id { static constexpr char value = 0; };
template <template <class> class Solver, template <class> class CoarseSolver, char S, class K> struct hpddm_method_id<Dense<Solver, CoarseSolver, S, K>> { static constexpr char value = 1; };

struct IterativeMethod {
    template <class O, class K> static int solve(const O &A, const K *const b, K *const x, const int &mu, const MPI_Comm &comm) {
        Option &opt = *Option::get(); int n = A.getDof(), method = opt.val<int>("krylov_method", 0); size_t N = (size_t)n * mu;
        if (method == HPDDM_KRYLOV_METHOD_NONE) { A.apply(b, x, mu); return 1; }
        // right-preconditioned GMRES without restart, one recurrence per right-hand side, in step
        double tol = opt.val<double>("tol", 1e-6); int maxit = opt.val<int>("max_it", 100); auto *d = A.getScaling();
        auto dots = [&](const K *u, const K *v) { std::vector<K> s(mu, K(0)); for (int c = 0; c < mu; c++) for (int i = 0; i < n; i++) s[c] += cj(u[i + (size_t)c * n]) * v[i + (size_t)c * n] * d[i]; MPI_Allreduce(MPI_IN_PLACE, s.data(), mu, mpi_of<K>(), MPI_SUM, comm); return s; };
        std::vector<std::vector<K>> V, W; std::vector<K> r(b, b + N), w(N), z(N); // x starts from zero, as the library gives it
        { bool zero = true; for (size_t i = 0; i < N; i++) zero = zero && x[i] == K(0); int nz = zero ? 0 : 1; MPI_Allreduce(MPI_IN_PLACE, &nz, 1, MPI_INT, MPI_MAX, comm); if (nz) { A.GMV(x, w.data(), mu); for (size_t i = 0; i < N; i++) r[i] -= w[i]; } }
        std::vector<K> rr = dots(r.data(), r.data()); std::vector<double> beta(mu); std::vector<bool> done(mu, false); std::vector<int> steps(mu, 0);
        for (int c = 0; c < mu; c++) { beta[c] = std::sqrt(std::abs(rr[c])); if (beta[c] == 0) done[c] = true; }
        auto scale = [&](std::vector<K> &v, const std::vector<double> &nrm) { for (int c = 0; c < mu; c++) for (int i = 0; i < n; i++) v[i + (size_t)c * n] = done[c] || nrm[c] == 0 ? K(0) : v[i + (size_t)c * n] / K(nrm[c]); };
        V.push_back(r); scale(V[0], beta);
        std::vector<std::vector<std::vector<K>>> H(mu); std::vector<std::vector<K>> g(mu), cs(mu), sn(mu); for (int c = 0; c < mu; c++) g[c].push_back(K(beta[c]));
        int it = 0;
        for (; it < maxit; it++) {
            bool all = true; for (int c = 0; c < mu; c++) all = all && done[c]; if (all) break;
            A.apply(V[it].data(), z.data(), mu); W.push_back(z); A.GMV(z.data(), w.data(), mu);
            std::vector<std::vector<K>> h(mu, std::vector<K>(it + 2, K(0)));
            for (int pass = 0; pass < 2; pass++) { // orthogonalization, one reduction for all the products
                std::vector<K> s((size_t)mu * (it + 1), K(0)); for (int k = 0; k <= it; k++) for (int c = 0; c < mu; c++) for (int i = 0; i < n; i++) s[c + (size_t)k * mu] += cj(V[k][i + (size_t)c * n]) * w[i + (size_t)c * n] * d[i];
                MPI_Allreduce(MPI_IN_PLACE, s.data(), (int)s.size(), mpi_of<K>(), MPI_SUM, comm);
                for (int k = 0; k <= it; k++) for (int c = 0; c < mu; c++) { h[c][k] += s[c + (size_t)k * mu]; for (int i = 0; i < n; i++) w[i + (size_t)c * n] -= s[c + (size_t)k * mu] * V[k][i + (size_t)c * n]; }
            }
            auto s = dots(w.data(), w.data()); std::vector<double> nw(mu); for (int c = 0; c < mu; c++) { nw[c] = std::sqrt(std::abs(s[c])); h[c][it + 1] = K(nw[c]); }
            for (int c = 0; c < mu; c++) if (!done[c]) {
                for (int k = 0; k < it; k++) { K a = h[c][k], e = h[c][k + 1]; h[c][k] = cj(cs[c][k]) * a + cj(sn[c][k]) * e; h[c][k + 1] = -sn[c][k] * a + cs[c][k] * e; }
                K a = h[c][it], e = h[c][it + 1]; double m = std::sqrt(std::norm(std::complex<double>(a)) + std::norm(std::complex<double>(e)));
                K C = m == 0 ? K(1) : a / K(m), S = m == 0 ? K(0) : e / K(m); cs[c].push_back(C); sn[c].push_back(S); h[c][it] = cj(C) * a + cj(S) * e; h[c][it + 1] = 0;
                g[c].push_back(-S * g[c][it]); g[c][it] = cj(C) * g[c][it]; H[c].push_back(h[c]); steps[c] = it + 1;
                if (std::abs(g[c][it + 1]) <= tol * beta[c] || nw[c] <= 1e-14 * beta[c]) done[c] = true;
            }
            V.push_back(w); scale(V.back(), nw);
        }
        for (int c = 0; c < mu; c++) {
            int m = steps[c]; std::vector<K> y(g[c].begin(), g[c].begin() + m);
            for (int k = m - 1; k >= 0; k--) { for (int j = k + 1; j < m; j++) y[k] -= H[c][j][k] * y[j]; y[k] /= H[c][k][k]; }
            for (int k = 0; k < m; k++) for (int i = 0; i < n; i++) x[i + (size_t)c * n] += y[k] * W[k][i + (size_t)c * n];
        }
        return it;
    }
};
} // namespace HPDDM
#endif

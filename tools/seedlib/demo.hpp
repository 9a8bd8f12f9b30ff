// helpers shared by the demonstrations
#include <htool/htool.hpp>
#include <cmath>
#include <complex>
#include <cstdio>
#include <cstdlib>
#include <memory>
#include <vector>
using namespace htool;
typedef std::complex<double> cd;
static double rnd(int k) { unsigned x = 2654435761u * (unsigned)(k + 1); x ^= x >> 15; x *= 2246822519u; x ^= x >> 13; x *= 3266489917u; x ^= x >> 16; return x / 4294967296.0; }
static std::vector<double> cloud(int n, int dim, int seed, double shift = 0) { std::vector<double> v(n * dim); for (int i = 0; i < n * dim; i++) v[i] = rnd(seed * 7919 + i) + shift; return v; }
static void require(bool ok, const char *what) { if (!ok) { std::printf("BROKEN: %s\n", what); std::exit(1); } }
template <class T> struct Fn : VirtualGenerator<T> {
    std::function<T(int, int)> f; Fn(std::function<T(int, int)> g) : f(g) {}
    void copy_submatrix(int M, int N, const int *r, const int *c, T *p) const override { for (int j = 0; j < N; j++) for (int i = 0; i < M; i++) p[i + (size_t)j * M] = f(r[i], c[j]); }
};
struct Quiet : IObjectWriter { void write(LogLevel, const std::string &) override {} void set_log_level(LogLevel) override {} };

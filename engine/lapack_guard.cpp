// BLAS and LAPACK are not instrumented: what they would read or write beyond an object is invisible to AddressSanitizer.
// Every call of the program goes through here first, and each operand is checked, over the extent its own dimensions and
// leading dimension define, against AddressSanitizer's knowledge of the heap; a bad byte is then touched by instrumented
// code, so that it is reported like any other overrun.
#include <algorithm>
#include <complex>
#include <cstddef>
#include <sanitizer/asan_interface.h>
typedef std::complex<float> CF;
typedef std::complex<double> CD;
namespace {
volatile char g_sink;
__attribute__((noinline)) void blas_operand_outside_its_object(char *p, bool w) { if (w) { volatile char *q = p; *q = *q; } else g_sink = *p; }
void span(const void *p, size_t bytes, bool w) {
    if (bytes == 0) return;
    if (!p) { blas_operand_outside_its_object((char *)p, w); return; }
    if (void *bad = __asan_region_is_poisoned((void *)p, bytes)) blas_operand_outside_its_object((char *)bad, w);
}
template <class T> void mat(const T *p, int m, int n, int ld, bool w) { if (m <= 0 || n <= 0) return; for (int j = 0; j < n; j++) span(p + (size_t)j * ld, (size_t)m * sizeof(T), w); }
template <class T> void vec(const T *p, int n, int inc, bool w) { if (n <= 0) return; int a = inc < 0 ? -inc : inc; for (int i = 0; i < (a == 1 ? 1 : n); i++) span(p + (size_t)i * a, a == 1 ? (size_t)n * sizeof(T) : sizeof(T), w); }
bool is(const char *c, char a) { return (*c & ~32) == a; }
}
#define REAL(f, ...) void __real_##f(__VA_ARGS__)
#define WRAP(f, params, args, ...) void __real_##f params; void __wrap_##f params { __VA_ARGS__; __real_##f args; }
extern "C" {
#define COMMON(c, T) \
    WRAP(c##axpy_, (int *n, T *a, T *x, int *ix, T *y, int *iy), (n, a, x, ix, y, iy), vec(x, *n, *ix, false); vec(y, *n, *iy, true)) \
    WRAP(c##scal_, (int *n, T *a, T *x, int *ix), (n, a, x, ix), vec(x, *n, *ix, true)) \
    WRAP(c##gemv_, (char *t, int *m, int *n, T *al, T *A, int *lda, T *x, int *ix, T *be, T *y, int *iy), (t, m, n, al, A, lda, x, ix, be, y, iy), \
         bool N = is(t, 'N'); if (*m > 0 && *n > 0) { if (*al != T(0)) { mat(A, *m, *n, *lda, false); vec(x, N ? *n : *m, *ix, false); } vec(y, N ? *m : *n, *iy, true); }) \
    WRAP(c##gemm_, (char *ta, char *tb, int *m, int *n, int *k, T *al, T *A, int *lda, T *B, int *ldb, T *be, T *C, int *ldc), (ta, tb, m, n, k, al, A, lda, B, ldb, be, C, ldc), \
         if (*m > 0 && *n > 0) { if (*al != T(0) && *k > 0) { mat(A, is(ta, 'N') ? *m : *k, is(ta, 'N') ? *k : *m, *lda, false); mat(B, is(tb, 'N') ? *k : *n, is(tb, 'N') ? *n : *k, *ldb, false); } mat(C, *m, *n, *ldc, true); }) \
    WRAP(c##syrk_, (char *u, char *t, int *n, int *k, T *al, T *A, int *lda, T *be, T *C, int *ldc), (u, t, n, k, al, A, lda, be, C, ldc), \
         mat(A, is(t, 'N') ? *n : *k, is(t, 'N') ? *k : *n, *lda, false); mat(C, *n, *n, *ldc, true)) \
    WRAP(c##trsm_, (char *s, char *u, char *t, char *d, int *m, int *n, T *al, T *A, int *lda, T *B, int *ldb), (s, u, t, d, m, n, al, A, lda, B, ldb), \
         if (*m > 0 && *n > 0) { int na = is(s, 'L') ? *m : *n; mat(A, na, na, *lda, false); mat(B, *m, *n, *ldb, true); }) \
    WRAP(c##laswp_, (int *n, T *A, int *lda, int *k1, int *k2, int *ipiv, int *inc), (n, A, lda, k1, k2, ipiv, inc), \
         vec(ipiv, *k2, *inc, false); mat(A, *k2, *n, *lda, true)) \
    WRAP(c##getrf_, (int *m, int *n, T *A, int *lda, int *ipiv, int *info), (m, n, A, lda, ipiv, info), mat(A, *m, *n, *lda, true); vec(ipiv, std::min(*m, *n), 1, true)) \
    WRAP(c##getrs_, (char *t, int *n, int *r, T *A, int *lda, int *ipiv, T *B, int *ldb, int *info), (t, n, r, A, lda, ipiv, B, ldb, info), \
         if (*r > 0) { mat(A, *n, *n, *lda, false); vec(ipiv, *n, 1, false); mat(B, *n, *r, *ldb, true); }) \
    WRAP(c##potrf_, (char *u, int *n, T *A, int *lda, int *info), (u, n, A, lda, info), mat(A, *n, *n, *lda, true)) \
    WRAP(c##potrs_, (char *u, int *n, int *r, T *A, int *lda, T *B, int *ldb, int *info), (u, n, r, A, lda, B, ldb, info), if (*r > 0) { mat(A, *n, *n, *lda, false); mat(B, *n, *r, *ldb, true); }) \
    WRAP(c##geqrf_, (int *m, int *n, T *A, int *lda, T *tau, T *work, int *lwork, int *info), (m, n, A, lda, tau, work, lwork, info), \
         if (*lwork == -1) vec(work, 1, 1, true); else { mat(A, *m, *n, *lda, true); vec(tau, std::min(*m, *n), 1, true); vec(work, *lwork, 1, true); }) \
    WRAP(c##gelqf_, (int *m, int *n, T *A, int *lda, T *tau, T *work, int *lwork, int *info), (m, n, A, lda, tau, work, lwork, info), \
         if (*lwork == -1) vec(work, 1, 1, true); else { mat(A, *m, *n, *lda, true); vec(tau, std::min(*m, *n), 1, true); vec(work, *lwork, 1, true); })
#define SYM(c, name, T) \
    WRAP(c##name##mm_, (char *s, char *u, int *m, int *n, T *al, T *A, int *lda, T *B, int *ldb, T *be, T *C, int *ldc), (s, u, m, n, al, A, lda, B, ldb, be, C, ldc), \
         if (*m > 0 && *n > 0) { int na = is(s, 'L') ? *m : *n; if (*al != T(0)) { mat(A, na, na, *lda, false); mat(B, *m, *n, *ldb, false); } mat(C, *m, *n, *ldc, true); }) \
    WRAP(c##name##mv_, (char *u, int *n, T *al, T *A, int *lda, T *x, int *ix, T *be, T *y, int *iy), (u, n, al, A, lda, x, ix, be, y, iy), \
         if (*al != T(0)) { mat(A, *n, *n, *lda, false); vec(x, *n, *ix, false); } vec(y, *n, *iy, true))
#define ORM(f, T) \
    WRAP(f, (char *s, char *t, int *m, int *n, int *k, T *A, int *lda, T *tau, T *C, int *ldc, T *work, int *lwork, int *info), (s, t, m, n, k, A, lda, tau, C, ldc, work, lwork, info), \
         if (*lwork == -1) vec(work, 1, 1, true); else { vec(tau, *k, 1, false); mat(C, *m, *n, *ldc, true); vec(work, *lwork, 1, true); })
#define SVDOPS int k = std::min(*m, *n); mat(A, *m, *n, *lda, true); vec(s, k, 1, true); \
    if (is(ju, 'A')) mat(u, *m, *m, *ldu, true); else if (is(ju, 'S')) mat(u, *m, k, *ldu, true); \
    if (is(jv, 'A')) mat(vt, *n, *n, *ldvt, true); else if (is(jv, 'S')) mat(vt, k, *n, *ldvt, true)
#define REALS(c, U) \
    WRAP(c##gesvd_, (char *ju, char *jv, int *m, int *n, U *A, int *lda, U *s, U *u, int *ldu, U *vt, int *ldvt, U *work, int *lwork, int *info), (ju, jv, m, n, A, lda, s, u, ldu, vt, ldvt, work, lwork, info), \
         if (*lwork == -1) vec(work, 1, 1, true); else { SVDOPS; vec(work, *lwork, 1, true); }) \
    WRAP(c##ggev_, (char *jl, char *jr, int *n, U *A, int *lda, U *B, int *ldb, U *ar, U *ai, U *be, U *vl, int *ldvl, U *vr, int *ldvr, U *work, int *lwork, int *info), (jl, jr, n, A, lda, B, ldb, ar, ai, be, vl, ldvl, vr, ldvr, work, lwork, info), \
         if (*lwork == -1) vec(work, 1, 1, true); else { mat(A, *n, *n, *lda, true); mat(B, *n, *n, *ldb, true); vec(ar, *n, 1, true); vec(ai, *n, 1, true); vec(be, *n, 1, true); if (is(jl, 'V')) mat(vl, *n, *n, *ldvl, true); if (is(jr, 'V')) mat(vr, *n, *n, *ldvr, true); vec(work, *lwork, 1, true); }) \
    WRAP(c##sygv_, (int *it, char *j, char *u, int *n, U *A, int *lda, U *B, int *ldb, U *w, U *work, int *lwork, int *info), (it, j, u, n, A, lda, B, ldb, w, work, lwork, info), \
         if (*lwork == -1) vec(work, 1, 1, true); else { mat(A, *n, *n, *lda, true); mat(B, *n, *n, *ldb, true); vec(w, *n, 1, true); vec(work, *lwork, 1, true); })
#define COMPLEXES(c, T, U) \
    WRAP(c##gesvd_, (char *ju, char *jv, int *m, int *n, T *A, int *lda, U *s, T *u, int *ldu, T *vt, int *ldvt, T *work, int *lwork, U *rw, int *info), (ju, jv, m, n, A, lda, s, u, ldu, vt, ldvt, work, lwork, rw, info), \
         if (*lwork == -1) vec(work, 1, 1, true); else { SVDOPS; vec(work, *lwork, 1, true); vec(rw, 5 * k, 1, true); }) \
    WRAP(c##ggev_, (char *jl, char *jr, int *n, T *A, int *lda, T *B, int *ldb, T *al, T *be, T *vl, int *ldvl, T *vr, int *ldvr, T *work, int *lwork, U *rw, int *info), (jl, jr, n, A, lda, B, ldb, al, be, vl, ldvl, vr, ldvr, work, lwork, rw, info), \
         if (*lwork == -1) vec(work, 1, 1, true); else { mat(A, *n, *n, *lda, true); mat(B, *n, *n, *ldb, true); vec(al, *n, 1, true); vec(be, *n, 1, true); if (is(jl, 'V')) mat(vl, *n, *n, *ldvl, true); if (is(jr, 'V')) mat(vr, *n, *n, *ldvr, true); vec(work, *lwork, 1, true); vec(rw, 8 * *n, 1, true); }) \
    WRAP(c##hegv_, (int *it, char *j, char *u, int *n, T *A, int *lda, T *B, int *ldb, U *w, T *work, int *lwork, U *rw, int *info), (it, j, u, n, A, lda, B, ldb, w, work, lwork, rw, info), \
         if (*lwork == -1) vec(work, 1, 1, true); else { mat(A, *n, *n, *lda, true); mat(B, *n, *n, *ldb, true); vec(w, *n, 1, true); vec(work, *lwork, 1, true); vec(rw, 3 * *n - 2, 1, true); }) \
    WRAP(c##herk_, (char *u, char *t, int *n, int *k, U *al, T *A, int *lda, U *be, T *C, int *ldc), (u, t, n, k, al, A, lda, be, C, ldc), \
         mat(A, is(t, 'N') ? *n : *k, is(t, 'N') ? *k : *n, *lda, false); mat(C, *n, *n, *ldc, true))
COMMON(s, float) COMMON(d, double) COMMON(c, CF) COMMON(z, CD)
SYM(s, sy, float) SYM(d, sy, double) SYM(c, sy, CF) SYM(z, sy, CD) SYM(c, he, CF) SYM(z, he, CD)
ORM(sormlq_, float) ORM(dormlq_, double) ORM(cunmlq_, CF) ORM(zunmlq_, CD) ORM(sormqr_, float) ORM(dormqr_, double) ORM(cunmqr_, CF) ORM(zunmqr_, CD)
REALS(s, float) REALS(d, double) COMPLEXES(c, CF, float) COMPLEXES(z, CD, double)
}

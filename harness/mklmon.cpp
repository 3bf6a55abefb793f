/*
 * Range monitor for the numerical libraries.  MKL is not instrumented, so the
 * sanitizer cannot see what it touches; the library under test is linked with
 * --wrap for every routine below, and each call's operand ranges are checked
 * against the sanitizer's shadow memory before the call is passed on.
 */
#include <sanitizer/asan_interface.h>
#include <complex>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <mkl_dfti.h>

typedef std::complex<float> cf;
typedef std::complex<double> cd;
static long calls;
extern "C" long mklmon_calls() { return calls; }

static void range(const char* fn, const void* p, size_t bytes)
{
    if (!bytes) return;
    if (!p) { fprintf(stderr, "MKLMON %s: null operand of %zu bytes\n", fn, bytes); abort(); }
    if (void* q = __asan_region_is_poisoned(const_cast<void*>(p), bytes)) {
        fprintf(stderr, "MKLMON %s: operand of %zu bytes leaves its storage\n", fn, bytes);
        volatile char* c = (volatile char*)q;
        (void)*c;              // let the sanitizer report it, with the stack
        abort();
    }
}
static size_t I(const void* n) { int v = *(const int*)n; return v < 0 ? 0 : size_t(v); }
static size_t span(size_t n, const void* inc, size_t el) {
    long s = labs(long(*(const int*)inc));
    return n ? ((n - 1) * s + 1) * el : 0;
}

extern "C" {
#define XY(name, T) \
    int __real_##name(void* n, T* x, void* ix, T* y, void* iy); \
    int __wrap_##name(void* n, T* x, void* ix, T* y, void* iy) { \
        calls++; range(#name, x, span(I(n), ix, sizeof(T))); range(#name, y, span(I(n), iy, sizeof(T))); \
        return __real_##name(n, x, ix, y, iy); }
XY(sswap_, float) XY(dswap_, double) XY(cswap_, cf) XY(zswap_, cd)
XY(scopy_, float) XY(dcopy_, double) XY(ccopy_, cf) XY(zcopy_, cd)

#define AXPY(name, T) \
    int __real_##name(void* n, T* a, T* x, void* ix, T* y, void* iy); \
    int __wrap_##name(void* n, T* a, T* x, void* ix, T* y, void* iy) { \
        calls++; range(#name, x, span(I(n), ix, sizeof(T))); range(#name, y, span(I(n), iy, sizeof(T))); \
        return __real_##name(n, a, x, ix, y, iy); }
AXPY(saxpy_, float) AXPY(daxpy_, double) AXPY(caxpy_, cf) AXPY(zaxpy_, cd)

#define SCAL(name, A, T) \
    int __real_##name(void* n, A* a, T* x, void* ix); \
    int __wrap_##name(void* n, A* a, T* x, void* ix) { \
        calls++; range(#name, x, span(I(n), ix, sizeof(T))); return __real_##name(n, a, x, ix); }
SCAL(sscal_, float, float) SCAL(dscal_, double, double) SCAL(cscal_, cf, cf) SCAL(zscal_, cd, cd)

#define RDOT(name, T) \
    T __real_##name(void* n, T* x, void* ix, T* y, void* iy); \
    T __wrap_##name(void* n, T* x, void* ix, T* y, void* iy) { \
        calls++; range(#name, x, span(I(n), ix, sizeof(T))); range(#name, y, span(I(n), iy, sizeof(T))); \
        return __real_##name(n, x, ix, y, iy); }
RDOT(sdot_, float) RDOT(ddot_, double)
#define CDOT(name, T) \
    void __real_##name(T* r, void* n, T* x, void* ix, T* y, void* iy); \
    void __wrap_##name(T* r, void* n, T* x, void* ix, T* y, void* iy) { \
        calls++; range(#name, x, span(I(n), ix, sizeof(T))); range(#name, y, span(I(n), iy, sizeof(T))); \
        __real_##name(r, n, x, ix, y, iy); }
CDOT(cdotc_, cf) CDOT(zdotc_, cd)

#define X1(R, name, T) \
    R __real_##name(void* n, T* x, void* ix); \
    R __wrap_##name(void* n, T* x, void* ix) { \
        calls++; range(#name, x, span(I(n), ix, sizeof(T))); return __real_##name(n, x, ix); }
X1(long, isamax_, float) X1(long, idamax_, double) X1(long, icamax_, cf) X1(long, izamax_, cd)
X1(float, sasum_, float) X1(double, dasum_, double)

#define TBMV(name, T) \
    int __real_##name(char* u, char* t, char* d, void* n, void* k, T* a, void* lda, T* x, void* ix); \
    int __wrap_##name(char* u, char* t, char* d, void* n, void* k, T* a, void* lda, T* x, void* ix) { \
        calls++; range(#name, a, I(n) * I(lda) * sizeof(T)); range(#name, x, span(I(n), ix, sizeof(T))); \
        return __real_##name(u, t, d, n, k, a, lda, x, ix); }
TBMV(stbmv_, float) TBMV(dtbmv_, double)

#define SBMV(name, T) \
    int __real_##name(char* u, void* n, void* k, T* al, T* a, void* lda, T* x, void* ix, T* be, T* y, void* iy); \
    int __wrap_##name(char* u, void* n, void* k, T* al, T* a, void* lda, T* x, void* ix, T* be, T* y, void* iy) { \
        calls++; range(#name, a, I(n) * I(lda) * sizeof(T)); range(#name, x, span(I(n), ix, sizeof(T))); \
        range(#name, y, span(I(n), iy, sizeof(T))); \
        return __real_##name(u, n, k, al, a, lda, x, ix, be, y, iy); }
SBMV(ssbmv_, float) SBMV(dsbmv_, double)

#define GEMM(name, T) \
    int __real_##name(char* ta, char* tb, void* m, void* n, void* k, T* al, T* a, void* lda, T* b, void* ldb, T* be, T* c, void* ldc); \
    int __wrap_##name(char* ta, char* tb, void* m, void* n, void* k, T* al, T* a, void* lda, T* b, void* ldb, T* be, T* c, void* ldc) { \
        calls++; \
        bool na = *ta == 'N' || *ta == 'n', nb = *tb == 'N' || *tb == 'n'; \
        size_t ca = na ? I(k) : I(m), ra = na ? I(m) : I(k), cb = nb ? I(n) : I(k), rb = nb ? I(k) : I(n); \
        if (ca && ra) range(#name, a, ((ca - 1) * I(lda) + ra) * sizeof(T)); \
        if (cb && rb) range(#name, b, ((cb - 1) * I(ldb) + rb) * sizeof(T)); \
        if (I(m) && I(n)) range(#name, c, ((I(n) - 1) * I(ldc) + I(m)) * sizeof(T)); \
        return __real_##name(ta, tb, m, n, k, al, a, lda, b, ldb, be, c, ldc); }
GEMM(sgemm_, float) GEMM(dgemm_, double)

#define GEEV(name, T) \
    int __real_##name(char* jl, char* jr, void* n, T* a, void* lda, T* wr, T* wi, T* vl, void* ldvl, T* vr, void* ldvr, T* work, void* lwork, void* info); \
    int __wrap_##name(char* jl, char* jr, void* n, T* a, void* lda, T* wr, T* wi, T* vl, void* ldvl, T* vr, void* ldvr, T* work, void* lwork, void* info) { \
        calls++; size_t k = I(n); \
        if (k) { range(#name, a, ((k - 1) * I(lda) + k) * sizeof(T)); range(#name, wr, k * sizeof(T)); range(#name, wi, k * sizeof(T)); \
        if (*jl == 'V') range(#name, vl, k * I(ldvl) * sizeof(T)); \
        if (*jr == 'V') range(#name, vr, k * I(ldvr) * sizeof(T)); } \
        range(#name, work, I(lwork) * sizeof(T)); \
        return __real_##name(jl, jr, n, a, lda, wr, wi, vl, ldvl, vr, ldvr, work, lwork, info); }
GEEV(sgeev_, float) GEEV(dgeev_, double)

int __real_sgees_(char* jv, char* so, void* sel, void* n, float* a, void* lda, void* sdim, float* wr, float* wi, float* vs, void* ldvs, float* work, void* lwork, void* bwork, void* info);
int __wrap_sgees_(char* jv, char* so, void* sel, void* n, float* a, void* lda, void* sdim, float* wr, float* wi, float* vs, void* ldvs, float* work, void* lwork, void* bwork, void* info)
{
    calls++; size_t k = I(n);
    if (k) { range("sgees_", a, ((k - 1) * I(lda) + k) * 4); range("sgees_", wr, k * 4); range("sgees_", wi, k * 4);
        if (*jv == 'V') range("sgees_", vs, k * I(ldvs) * 4); }
    range("sgees_", work, I(lwork) * 4);
    return __real_sgees_(jv, so, sel, n, a, lda, sdim, wr, wi, vs, ldvs, work, lwork, bwork, info);
}

#define IMAT(f, T) \
    void __real_mkl_##f(char o, char t, size_t r, size_t c, T al, T* ab, size_t lda, size_t ldb); \
    void __wrap_mkl_##f(char o, char t, size_t r, size_t c, T al, T* ab, size_t lda, size_t ldb) { \
        calls++; bool row = (o == 'r' || o == 'R'); size_t A = row ? r : c, B = row ? c : r; \
        bool tr = (t == 't' || t == 'T'); size_t C = tr ? B : A, D = tr ? A : B; \
        if (A && B) { range("mkl_" #f, ab, ((A - 1) * lda + B) * sizeof(T)); range("mkl_" #f, ab, ((C - 1) * ldb + D) * sizeof(T)); } \
        __real_mkl_##f(o, t, r, c, al, ab, lda, ldb); }
IMAT(simatcopy, float) IMAT(dimatcopy, double)
#define OMAT(f, T) \
    void __real_mkl_##f(char o, char t, size_t r, size_t c, T al, const T* a, size_t lda, T* b, size_t ldb); \
    void __wrap_mkl_##f(char o, char t, size_t r, size_t c, T al, const T* a, size_t lda, T* b, size_t ldb) { \
        calls++; bool row = (o == 'r' || o == 'R'); size_t A = row ? r : c, B = row ? c : r; \
        bool tr = (t == 't' || t == 'T'); size_t C = tr ? B : A, D = tr ? A : B; \
        if (A && B) { range("mkl_" #f, a, ((A - 1) * lda + B) * sizeof(T)); range("mkl_" #f, b, ((C - 1) * ldb + D) * sizeof(T)); } \
        __real_mkl_##f(o, t, r, c, al, a, lda, b, ldb); }
OMAT(somatcopy, float) OMAT(domatcopy, double)

static void dft(const char* fn, DFTI_DESCRIPTOR_HANDLE h, void* in, void* out, bool fwd)
{
    calls++;
    MKL_LONG len = 0, dom = 0, prec = 0;
    DftiGetValue(h, DFTI_LENGTHS, &len);
    DftiGetValue(h, DFTI_FORWARD_DOMAIN, &dom);
    DftiGetValue(h, DFTI_PRECISION, &prec);
    MKL_LONG plc = 0;
    DftiGetValue(h, DFTI_PLACEMENT, &plc);
    if (*(int*)&plc == DFTI_INPLACE) out = 0;
    // enum values come back as 32 bit in some versions
    int d = *(int*)&dom, p = *(int*)&prec;
    size_t el = (p == DFTI_DOUBLE) ? 8 : 4;
    size_t time = (d == DFTI_REAL) ? len * el : len * 2 * el;
    size_t freq = (d == DFTI_REAL) ? (len / 2 + 1) * 2 * el : len * 2 * el;
    range(fn, in, fwd ? time : freq);
    if (out) range(fn, out, fwd ? freq : time);
}
// the DFTI entry points are variadic: (handle, in [, out])
MKL_LONG __real_DftiComputeForward(DFTI_DESCRIPTOR_HANDLE h, void* in, ...);
MKL_LONG __wrap_DftiComputeForward(DFTI_DESCRIPTOR_HANDLE h, void* in, void* out) {
    dft("DftiComputeForward", h, in, out, true);
    return __real_DftiComputeForward(h, in, out);
}
MKL_LONG __real_DftiComputeBackward(DFTI_DESCRIPTOR_HANDLE h, void* in, ...);
MKL_LONG __wrap_DftiComputeBackward(DFTI_DESCRIPTOR_HANDLE h, void* in, void* out) {
    dft("DftiComputeBackward", h, in, out, false);
    return __real_DftiComputeBackward(h, in, out);
}
}

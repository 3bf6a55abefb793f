// A stand-in for KissFFT: the sums written out.  Misuse that KissFFT does not
// survive aborts.
#include "kiss_fftr.h"
#include <cmath>
#include <complex>
#include <cstdio>
#include <vector>
typedef std::complex<double> cd;
struct kiss_fft_state { int magic, n, inverse; };
struct kiss_fftr_state { int magic, n, inverse; };
static const int CPLX = 0x6b697373, REAL = 0x7265616c;

static void misuse(const char* what) { fprintf(stderr, "KissFFT stand-in: %s\n", what); abort(); }
static std::vector<cd> sums(const std::vector<cd>& x, bool inverse)
{
    int n = x.size();
    std::vector<cd> y(n), w;
    for (int i = 0; i < n; i++) w.push_back(std::polar(1.0, (inverse ? 2 : -2) * M_PI * i / n));
    for (int k = 0; k < n; k++)
        for (int i = 0; i < n; i++) y[k] += x[i] * w[(long)i * k % n];
    return y;
}
template<class S> static S* make(int magic, int n, int inverse, void* mem, size_t* len)
{
    if (n < 1) misuse("transform without length");
    S* s = (S*)mem;
    if (!len) s = (S*)malloc(sizeof(S));
    else { if (*len < sizeof(S)) s = 0; *len = sizeof(S); }
    if (s) *s = {magic, n, inverse};
    return s;
}

kiss_fft_cfg kiss_fft_alloc(int n, int inverse, void* mem, size_t* len) { return make<kiss_fft_state>(CPLX, n, inverse, mem, len); }
kiss_fftr_cfg kiss_fftr_alloc(int n, int inverse, void* mem, size_t* len)
{
    if (n & 1) return 0;       // as KissFFT does, with a message
    return make<kiss_fftr_state>(REAL, n, inverse, mem, len);
}
void kiss_fft_cleanup(void) {}

void kiss_fft(kiss_fft_cfg c, const kiss_fft_cpx* in, kiss_fft_cpx* out)
{
    if (!c || c->magic != CPLX) misuse("not a complex transform");
    std::vector<cd> x;
    for (int i = 0; i < c->n; i++) x.push_back(cd(in[i].r, in[i].i));
    x = sums(x, c->inverse);
    for (int i = 0; i < c->n; i++) out[i] = {float(x[i].real()), float(x[i].imag())};
}
void kiss_fftr(kiss_fftr_cfg c, const float* in, kiss_fft_cpx* out)
{
    if (!c || c->magic != REAL || c->inverse) misuse("not a real transform");
    std::vector<cd> x;
    for (int i = 0; i < c->n; i++) x.push_back(in[i]);
    x = sums(x, false);
    for (int i = 0; i <= c->n / 2; i++) out[i] = {float(x[i].real()), float(x[i].imag())};
}
void kiss_fftri(kiss_fftr_cfg c, const kiss_fft_cpx* in, float* out)
{
    if (!c || c->magic != REAL || !c->inverse) misuse("not an inverse real transform");
    std::vector<cd> x(c->n);
    for (int i = 0; i <= c->n / 2; i++) x[i] = cd(in[i].r, in[i].i);
    x[0] = x[0].real();
    x[c->n / 2] = x[c->n / 2].real();
    for (int i = c->n / 2 + 1; i < c->n; i++) x[i] = std::conj(x[c->n - i]);
    x = sums(x, true);
    for (int i = 0; i < c->n; i++) out[i] = float(x[i].real());
}

// A stand-in for KissFFT 1.3.0, which is not on this machine, with its
// interface and restrictions.  It is slow and instrumented.
#ifndef KISS_FFT_H
#define KISS_FFT_H
#include <stddef.h>
#include <stdlib.h>
#ifdef __cplusplus
extern "C" {
#endif
#define kiss_fft_scalar float
typedef struct { kiss_fft_scalar r, i; } kiss_fft_cpx;
typedef struct kiss_fft_state* kiss_fft_cfg;
kiss_fft_cfg kiss_fft_alloc(int nfft, int inverse_fft, void* mem, size_t* lenmem);
void kiss_fft(kiss_fft_cfg cfg, const kiss_fft_cpx* fin, kiss_fft_cpx* fout);
#define kiss_fft_free free
void kiss_fft_cleanup(void);
#ifdef __cplusplus
}
#endif
#endif

/*
 * Range monitor for libsndfile, which is not instrumented: the audio module
 * under test is linked with --wrap for these routines, and the buffer of each
 * transfer is checked against the sanitizer's shadow memory first.
 */
#include <sanitizer/asan_interface.h>
#include <sndfile.h>
#include <cstdio>
#include <cstdlib>

static struct { SNDFILE* f; int channels; } open_[64];

static void range(const char* fn, const void* p, long items)
{
    if (items <= 0) return;
    size_t bytes = size_t(items) * sizeof(float);
    if (!p) { fprintf(stderr, "SNDMON %s: null buffer for %ld samples\n", fn, items); abort(); }
    if (void* q = __asan_region_is_poisoned(const_cast<void*>(p), bytes)) {
        fprintf(stderr, "SNDMON %s: buffer of %ld samples leaves its storage\n", fn, items);
        volatile char* c = (volatile char*)q;
        (void)*c;
        abort();
    }
}
static int channels(const char* fn, SNDFILE* f)
{
    for (auto& o : open_) if (o.f && o.f == f) return o.channels;
    fprintf(stderr, "SNDMON %s: handle is not open\n", fn);
    abort();
}

extern "C" {
SNDFILE* __real_sf_open(const char* path, int mode, SF_INFO* info);
SNDFILE* __wrap_sf_open(const char* path, int mode, SF_INFO* info)
{
    SNDFILE* f = __real_sf_open(path, mode, info);
    if (f) for (auto& o : open_) if (!o.f) { o.f = f; o.channels = info->channels; break; }
    return f;
}
int __real_sf_close(SNDFILE* f);
int __wrap_sf_close(SNDFILE* f)
{
    channels("sf_close", f);
    for (auto& o : open_) if (o.f == f) o.f = 0;
    return __real_sf_close(f);
}
#define XFER(name, ptr, per) \
    sf_count_t __real_##name(SNDFILE* f, ptr p, sf_count_t n); \
    sf_count_t __wrap_##name(SNDFILE* f, ptr p, sf_count_t n) { int c = channels(#name, f); (void)c; range(#name, p, n * (per)); return __real_##name(f, p, n); }
XFER(sf_readf_float, float*, c)
XFER(sf_writef_float, const float*, c)
XFER(sf_read_float, float*, 1)
XFER(sf_write_float, const float*, 1)
}

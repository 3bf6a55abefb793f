/*
 * Common harness runtime: deterministic case generation, monitors on storage
 * and memory balance, canonical observation of a value through the public
 * interface, and the event/violation recorder read by bin/check.
 */
#ifndef VH_H
#define VH_H

#include <csignal>
#include <sys/resource.h>
#include <unistd.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <complex>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

#include <lube/var.h>
#include <lube/regex.h>
#include <lube/module.h>
#include <lube/data.h>

namespace lu = libube;
using lu::var;
using lu::ind;
using lu::cfloat;
using lu::cdouble;
typedef std::string str;
typedef std::vector<std::string> strs;

namespace vh
{
    // ---- deterministic random numbers -----------------------------------
    struct Rng
    {
        uint64_t s;
        explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 77) {
            next(); next();
        }
        uint64_t next() {
            uint64_t z = (s += 0x9E3779B97F4A7C15ull);
            z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
            z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
            return z ^ (z >> 31);
        }
        int upto(int n) { return n <= 1 ? 0 : int(next() % uint64_t(n)); }
        int in(int a, int b) { return a + upto(b - a + 1); }
        bool chance(int num, int den) { return upto(den) < num; }
        double uni() { return double(next() >> 11) / double(1ull << 53); }
        double sym() { return uni() * 2 - 1; }
        template<class T> const T& pick(const std::vector<T>& v) {
            return v[upto(int(v.size()))];
        }
    };

    struct CaseAbort {};   // thrown after a violation to give up on the case

    struct Opts { uint64_t seed; long first, count, stride; str tier; str dir; str only; };
    extern Opts opts;
    extern long caseIdx;
    extern Rng rng;

    // ---- recording --------------------------------------------------------
    /// Records a violation of the current case (key identifies the kind).
    void violate(const str& key, const str& msg);
    /// As violate(), then abandons the case.
    [[noreturn]] void fail(const str& key, const str& msg);
    /// Counts an observed event.
    void ev(const char* name, long n = 1);
    /// Records that a distinct non-trivial situation was observed.
    void distinct(const str& what);
    /// Shows what the case does (kept if the process dies; a few are kept as samples).
    void note(const str& s);
    void noteClear();
    const char* noteText();
    void sample(const str& s);
    bool thorough();
    /// scratch directory of this shard (exists, private)
    str scratch();
    /// While it lives, no file can be written beyond this many bytes: a disk that fills up
    struct FullDisk {
        FullDisk(long iBytes)
        {
            signal(SIGXFSZ, SIG_IGN);
            getrlimit(RLIMIT_FSIZE, &old);
            struct rlimit now = old;
            now.rlim_cur = iBytes;
            if (setrlimit(RLIMIT_FSIZE, &now)) _exit(98);
        }
        ~FullDisk() { setrlimit(RLIMIT_FSIZE, &old); }
        struct rlimit old;
    };

    // ---- to be provided by each harness -------------------------------------
    typedef void (*CaseFn)();
    struct Registrar {
        Registrar(const char* name, CaseFn fn, bool balance = true, int weight = 1);
    };
#define VH_CASE(name) \
    static void name(); \
    static vh::Registrar vh_reg_##name(#name, name); \
    static void name()
#define VH_CASE_W(name, weight) \
    static void name(); \
    static vh::Registrar vh_reg_##name(#name, name, true, weight); \
    static void name()
    // a workload whose memory balance is not judged (third party caches)
#define VH_CASE_NOBAL(name) \
    static void name(); \
    static vh::Registrar vh_reg_##name(#name, name, false); \
    static void name()

    // ---- expectations -------------------------------------------------------
    str fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
    // a macro, so that the message is only put together if it is needed
#define check(ok, key, ...) ((ok) ? (void)0 : vh::fail((key), (__VA_ARGS__)))
    /// Bytes shown printable.
    str show(const str& s, size_t max = 200);

    /// The call must throw a std::exception with a message; returns message.
    str mustThrow(const char* key, const str& what, std::function<void()> f);
    /// The call must not throw anything.
    void mustWork(const char* key, const str& what, std::function<void()> f);
    /// Runs; returns true if it threw a std::exception (anything else is a violation).
    bool throws(const char* key, const str& what, std::function<void()> f);

    // ---- observation of values through the public interface -------------------
    /// Exact canonical text of a value: kinds, types, lengths, every element bit.
    str canon(var v, int depth = 0);
    /// contents of a string var by size (embedded bytes included)
    str text(const var& v);
    inline var S(const str& s) { return var(int(s.size()), s.data()); }
    bool isString(const var& v);
    /// type name of a scalar or atype of array; "nil" for undefined
    str kind(const var& v);
    template<class T> inline T elem(var v, int i) {
        return v.at(i).get<T>();
    }

    // ---- memory monitors --------------------------------------------------------
    size_t liveBytes();                     // bytes currently allocated
    bool freed(const void* p);              // is that address released storage?
    bool valid(const void* p, size_t n);    // all bytes addressable?
    long mklCalls();                        // calls seen by the numerical-range monitor
    int openFds();
    size_t hash(const str& s);
}

#endif

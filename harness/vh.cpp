#include "vh.h"
#include <algorithm>
#include <cstdarg>
#include <csignal>
#include <dirent.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__)
# include <sanitizer/asan_interface.h>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
# define VH_ASAN 1
#endif

extern "C" __attribute__((weak)) long mklmon_calls();

namespace vh
{
    Opts opts;
    long caseIdx = -1;
    Rng rng;

    static const int NOTE = 1 << 16;
    struct Shared { volatile long idx; volatile long phase; volatile long len; char note[NOTE]; };
    static Shared* sh;
    static FILE* out;
    static std::map<str, long> events;
    static std::unordered_set<uint64_t> dist;
    static long nsamples;
    static std::map<str, long> vkeys;
    static long evals;
    static bool balanceRun;

    struct Work { const char* name; CaseFn fn; bool bal; int weight; };
    static std::vector<Work>& works() { static std::vector<Work> w; return w; }
    Registrar::Registrar(const char* n, CaseFn f, bool b, int w) { works().push_back({n, f, b, w}); }

    static str jesc(const str& s) {
        str r;
        for (unsigned char c : s) {
            if (c == '"' || c == '\\') { r += '\\'; r += c; }
            else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
            else r += c;
        }
        return r;
    }

    str fmt(const char* f, ...) {
        va_list ap; va_start(ap, f);
        va_list aq; va_copy(aq, ap);
        int n = vsnprintf(nullptr, 0, f, ap);
        va_end(ap);
        str s(n, 0);
        vsnprintf(&s[0], n + 1, f, aq);
        va_end(aq);
        return s;
    }

    str show(const str& s, size_t max) {
        str r = "\"";
        for (size_t i = 0; i < s.size() && i < max; i++) {
            unsigned char c = s[i];
            if (c == '\n') r += "\\n";
            else if (c < 32 || c > 126 || c == '"' || c == '\\') r += fmt("\\x%02x", c);
            else r += c;
        }
        r += "\"";
        if (s.size() > max) r += fmt("...(%zu)", s.size());
        return r;
    }

    void violate(const str& key, const str& msg) {
        events["violations"]++;
        if (vkeys[key]++ < 3) {
            fprintf(out, "{\"t\":\"v\",\"case\":%ld,\"key\":\"%s\",\"msg\":\"%s\",\"note\":\"%s\"}\n",
                    caseIdx, jesc(key).c_str(), jesc(msg).c_str(), jesc(noteText()).c_str());
            fflush(out);
        }
    }
    void fail(const str& key, const str& msg) { violate(key, msg); throw CaseAbort(); }
    void ev(const char* name, long n) { if (!balanceRun) events[name] += n; }
    size_t hash(const str& s) {
        uint64_t h = 1469598103934665603ull;
        for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
        return h;
    }
    void distinct(const str& what) { if (!balanceRun && dist.size() < 4000000) dist.insert(hash(what)); }
    void note(const str& s) {
        long n = s.size(), at = sh->len;
        if (at + n + 2 >= NOTE) return;
        memcpy(sh->note + at, s.data(), n);
        sh->note[at + n] = ';'; sh->note[at + n + 1] = 0;
        sh->len = at + n + 1;
    }
    void noteClear() { sh->len = 0; sh->note[0] = 0; }
    const char* noteText() { return sh->note; }
    void sample(const str& s) {
        if (balanceRun || nsamples >= 3) return;
        nsamples++;
        fprintf(out, "{\"t\":\"s\",\"case\":%ld,\"msg\":\"%s\"}\n", caseIdx, jesc(s.substr(0, 600)).c_str());
    }
    bool thorough() { return opts.tier == "thorough"; }
    str scratch() { return opts.dir; }

    str mustThrow(const char* key, const str& what, std::function<void()> f) {
        str m;
        bool threw = false;
        try { f(); }
        catch (CaseAbort&) { throw; }
        catch (std::exception& e) {
            threw = true;
            const char* w = e.what();
            if (!w || !*w) fail(str(key) + ".nomessage", what + ": exception without a message");
            m = w;
        }
        catch (...) { fail(str(key) + ".foreign", what + ": threw something that is no std::exception"); }
        if (!threw) fail(key, what + ": was not rejected");
        ev("rejections");
        return m;
    }
    void mustWork(const char* key, const str& what, std::function<void()> f) {
        str m;
        try { f(); return; }
        catch (CaseAbort&) { throw; }
        catch (std::exception& e) { m = e.what() ? e.what() : "?"; }
        catch (...) { m = "non-std exception"; }
        fail(key, what + ": threw " + m.substr(0, m.find('\n')));
    }
    bool throws(const char* key, const str& what, std::function<void()> f) {
        try { f(); }
        catch (CaseAbort&) { throw; }
        catch (std::exception& e) {
            const char* w = e.what();
            if (!w || !*w) fail(str(key) + ".nomessage", what + ": exception without a message");
            ev("rejections");
            return true;
        }
        catch (...) { fail(str(key) + ".foreign", what + ": threw something that is no std::exception"); }
        return false;
    }

    str text(const var& v) {
        if (!v.defined() || !v.heap()) return "";
        if (v.atype() != lu::TYPE_CHAR) return "<not a string>";
        str r;
        int n = v.size();
        r.assign(v.str(), n);
        return r;
    }
    bool isString(const var& v) {
        return v.defined() && v.heap() && v.atype() == lu::TYPE_CHAR;
    }
    str kind(const var& v) {
        if (!v.defined()) return "nil";
        str s = lu::typeStr(v.atype());
        if (v.type() == lu::TYPE_ARRAY) s = "[" + s + "]";
        return s;
    }
    static str bits(const void* p, int n) {
        str s;
        for (int i = 0; i < n; i++) s += fmt("%02x", ((const unsigned char*)p)[i]);
        return s;
    }
    static str scalarText(const var& v, int type) {
        switch (type) {
        case lu::TYPE_CHAR: return fmt("c%d", int(v.get<char>()));
        case lu::TYPE_INT: return fmt("i%d", v.get<int>());
        case lu::TYPE_LONG: return fmt("l%ld", v.get<long>());
        case lu::TYPE_FLOAT: return fmt("f%a", double(v.get<float>()));
        case lu::TYPE_DOUBLE: return fmt("d%a", v.get<double>());
        case lu::TYPE_CFLOAT: return fmt("cf%a,%a", double(v.get<cfloat>().real()), double(v.get<cfloat>().imag()));
        case lu::TYPE_CDOUBLE: return fmt("cd%a,%a", v.get<cdouble>().real(), v.get<cdouble>().imag());
        }
        return "?";
    }
    str canon(var v, int depth) {
        if (depth > 80) return "<deep>";
        if (!v.defined()) return "nil";
        if (v.type() != lu::TYPE_ARRAY) return scalarText(v, v.type());
        int t = v.atype(), n = v.size();
        str r;
        if (v.view()) {
            r = "view(";
            for (int i = 0; i < v.dim(); i++) r += fmt("%d/%d,", v.shape(i), v.stride(i));
            r += ")";
        }
        if (t == lu::TYPE_CHAR && !v.view()) return r + "\"" + show(text(v), 1 << 20) + "\"";
        r += str(lu::typeStr(t)) + fmt("[%d]{", n);
        for (int i = 0; i < n; i++) {
            if (t == lu::TYPE_PAIR) {
                r += canon(v.key(i), depth + 1) + ":";
                r += canon(v.at(i), depth + 1) + ";";
            }
            else if (t == lu::TYPE_VAR) r += canon(v.at(i), depth + 1) + ";";
            else r += scalarText(v.at(i), t) + ";";
        }
        return r + "}";
    }

    size_t liveBytes() {
#ifdef VH_ASAN
        return __sanitizer_get_current_allocated_bytes();
#else
        return 0;
#endif
    }
    bool freed(const void* p) {
#ifdef VH_ASAN
        return __asan_address_is_poisoned(p);
#else
        return false;
#endif
    }
    bool valid(const void* p, size_t n) {
#ifdef VH_ASAN
        return !n || !__asan_region_is_poisoned(const_cast<void*>(p), n);
#else
        return true;
#endif
    }
    long mklCalls() { return mklmon_calls ? mklmon_calls() : 0; }
    // not counting what is opened in /proc: ASan's own thread, which enforces the
    // memory limit, does that every now and then
    int openFds() {
        int n = 0;
        DIR* d = opendir("/proc/self/fd");
        if (!d) return -1;
        while (auto e = readdir(d)) {
            char to[64];
            str link = str("/proc/self/fd/") + e->d_name;
            int k = readlink(link.c_str(), to, sizeof(to) - 1);
            if (k <= 0) continue;
            to[k] = 0;
            if (strncmp(to, "/proc/", 6)) n++;
        }
        closedir(d);
        return n;
    }

    static const int CPU_LIMIT = getenv("VH_CPU") ? atoi(getenv("VH_CPU")) : 25;
    static void onTimer(int) { _exit(97); }
    static void armTimer() {
        struct itimerval t; memset(&t, 0, sizeof t);
        t.it_value.tv_sec = CPU_LIMIT;
        setitimer(ITIMER_PROF, &t, nullptr);
        struct itimerval w; memset(&w, 0, sizeof w);
        w.it_value.tv_sec = CPU_LIMIT * 8;      // blocked (not computing): wall clock backstop
        setitimer(ITIMER_REAL, &w, nullptr);
    }

    static void runOnce(Work& w, uint64_t seed) {
        rng = Rng(seed);
        noteClear();
        try { w.fn(); }
        catch (CaseAbort&) {}
        catch (std::exception& e) {
            str m = e.what() ? e.what() : "?";
            violate("unexpected_exception", "an operation that should succeed threw: " + m.substr(0, 300));
        }
        catch (...) { violate("foreign_exception", "an exception that is no std::exception escaped"); }
    }

    static void runCase(Work& w, uint64_t seed) {
        long before = events["violations"];
        runOnce(w, seed);
#ifdef VH_ASAN
        if (!w.bal || events["violations"] != before) return;
        // Memory balance: the case dropped everything it made.  Repeating the
        // identical case must not grow the live heap every time; growth that
        // does not persist is one-off caching and no leak.
        balanceRun = true;
        size_t b0 = liveBytes();
        runOnce(w, seed);
        size_t b1 = liveBytes();
        if (b1 > b0) {
            int grow = 1;
            for (int k = 0; k < 4; k++) {
                size_t c0 = liveBytes();
                runOnce(w, seed);
                if (liveBytes() > c0) grow++;
            }
            if (grow >= 5) violate("leak", fmt("%zu bytes stay allocated each time the case is run", b1 - b0));
        }
        balanceRun = false;
        events["balance_checks"]++;
#endif
    }
}

using namespace vh;

__attribute__((weak)) void vh_init() {}

// opts.only: comma separated workload names, a trailing * matching a prefix
static bool selected(const str& name) {
    if (opts.only.empty()) return true;
    std::stringstream ss(opts.only);
    str s;
    while (std::getline(ss, s, ','))
        if (s == name || (!s.empty() && s.back() == '*' && name.compare(0, s.size() - 1, s, 0, s.size() - 1) == 0)) return true;
    return false;
}

int main(int argc, char** argv)
{
    // args: seed first count stride tier dir [only-workload]
    if (argc < 7) { fprintf(stderr, "usage\n"); return 2; }
    opts.seed = strtoull(argv[1], 0, 10);
    opts.first = atol(argv[2]);
    opts.count = atol(argv[3]);
    opts.stride = atol(argv[4]);
    opts.tier = argv[5];
    opts.dir = argv[6];
    if (argc > 7) opts.only = argv[7];
    mkdir(opts.dir.c_str(), 0700);
    int fd = open((opts.dir + "/progress").c_str(), O_RDWR | O_CREAT, 0600);
    if (fd < 0 || ftruncate(fd, sizeof(Shared))) { perror("progress"); return 2; }
    sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    close(fd);
    if (sh == MAP_FAILED) return 2;
    out = fopen((opts.dir + "/out").c_str(), "a");
    if (!out) return 2;
    signal(SIGPROF, onTimer);
    signal(SIGALRM, onTimer);
    sh->idx = -1;
    vh_init();

    std::vector<int> wheel;
    std::vector<Work> all = works();
    std::sort(all.begin(), all.end(), [](const Work& a, const Work& b) { return strcmp(a.name, b.name) < 0; });
    for (size_t i = 0; i < all.size(); i++)
        if (selected(all[i].name))
            for (int k = 0; k < all[i].weight; k++) wheel.push_back(int(i));
    if (wheel.empty()) return 2;
    std::map<str, long> perWork;
    long end = opts.first + opts.count * opts.stride;
    for (long i = opts.first; i < end; i += opts.stride) {
        caseIdx = i;
        sh->idx = i;
        armTimer();
        Work& w = all[wheel[(uint64_t(i) * 0x9E3779B97F4A7C15ull >> 33) % wheel.size()]];
        runCase(w, opts.seed * 1000003ull + i);
        perWork[w.name]++;
        evals++;
    }
    struct itimerval t; memset(&t, 0, sizeof t);
    setitimer(ITIMER_PROF, &t, nullptr);
    setitimer(ITIMER_REAL, &t, nullptr);
    sh->idx = -2;
    fprintf(out, "{\"t\":\"end\",\"evals\":%ld,\"mkl\":%ld,\"events\":{", evals, mklCalls());
    bool first = true;
    for (auto& e : events) { fprintf(out, "%s\"%s\":%ld", first ? "" : ",", e.first.c_str(), e.second); first = false; }
    for (auto& e : perWork) { fprintf(out, "%s\"cases.%s\":%ld", first ? "" : ",", e.first.c_str(), e.second); first = false; }
    fprintf(out, "}}\n");
    fclose(out);
    FILE* df = fopen((opts.dir + "/distinct").c_str(), "ab");
    for (uint64_t h : dist) fwrite(&h, 8, 1, df);
    fclose(df);
    fflush(stdout);
    _exit(0);
}

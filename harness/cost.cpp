// What operations cost: storage allocated, as the size of what they work on grows.
#include "model.h"
#include "lube/dft.h"
#include "lube/module.h"
#include "lube/regex.h"
#include <cstdlib>
#include <ctime>
#include <fstream>
#include <new>
using namespace vh;
using namespace md;

// Every allocation of the library comes this way
static bool gCount;
static long gBytes, gAllocs;
static void* get(size_t n)
{
    if (gCount) gBytes += n, gAllocs++;
    void* p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void* operator new(size_t n) { return get(n); }
void* operator new[](size_t n) { return get(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }

namespace {

struct Counted {
    Counted() { gBytes = gAllocs = 0; gCount = true; }
    ~Counted() { gCount = false; }
};

typedef std::vector<var> Vars;
struct Kind {
    const char* name;
    std::function<void(Vars&, int)> make;      // operands of a size
    std::function<var(Vars&, int)> op;
};

Num number(int t) { return isInt(t) ? mkInt(t, rng.in(-100, 100)) : mkFlt(t, rng.in(-100, 100) * 0.25, isCplx(t) ? 1 : 0); }
var numbers(int t, int n) { var v; v = numVar(number(t)); v.array(); v.resize(n); for (int i = 1; i < n; i++) v[i] = i % 7; return v; }
var strings(int n) { var v, e; for (int i = 0; i < n; i++) { e = fmt("s%d", i).c_str(); v[i] = e.copy(); } return v; }
var map(int n) { var v; for (int i = 0; i < n; i++) v[fmt("key %06d", i).c_str()] = i; return v; }
var text(int n, const char* piece) { str s; for (int i = 0; i < n; i++) s += piece; return s.c_str(); }
var nested(int n) { var v, e; for (int i = 0; i < n; i++) { e = var(); e["name"] = "text"; e["list"][0] = i; e["list"][1] = 2.5; v[i] = e; } return v; }

int type() { return rng.in(TYPE_CHAR, TYPE_CDOUBLE); }
var pass(var v) { return v; }

#define MAKE [](Vars& v, int n)
#define DO [](Vars& v, int n) -> var

// Sharing: costs the same however large the array
const Kind fixed[] = {
    {"assignment", MAKE { v.push_back(numbers(type(), n)); }, DO { var r = v[0]; var q; q = r; return q; }},
    {"passing and returning", MAKE { v.push_back(strings(n)); }, DO { return pass(pass(v[0])); }},
    {"putting in to a list", MAKE { v.push_back(numbers(type(), n)); }, DO { var r; r[0] = v[0]; r.push(v[0]); return r; }},
    {"putting in to a map", MAKE { v.push_back(strings(n)); }, DO { var r; r["a"] = v[0]; return r; }},
    {"taking from a list", MAKE { var l; l[0] = numbers(type(), n); l[1] = strings(n); v.push_back(l); }, DO { var r; r = v[0][1]; return r; }},
    {"an element", MAKE { v.push_back(numbers(type(), n)); }, DO { var r; r = v[0][n / 2]; return r; }},
    {"setting an element", MAKE { v.push_back(numbers(type(), n)); }, DO { v[0][n / 2] = 3; return 0; }},
    {"size and types", MAKE { v.push_back(strings(n)); }, DO { return v[0].size() + v[0].type() + v[0].atype() + v[0].dim(); }},
    {"a view", MAKE { v.push_back(numbers(type(), 2 * n)); }, DO { return v[0].view({n, 2}); }},
    {"a view of a view", MAKE { v.push_back(numbers(type(), 2 * n)); v.push_back(v[0].view({2, n})); }, DO { return v[1].subview(1, n); }},
    {"an element of a view", MAKE { v.push_back(numbers(type(), 2 * n)); v.push_back(v[0].view({n, 2})); }, DO { var r; r = v[1](n / 2, 1); return r; }},
    {"pop", MAKE { v.push_back(strings(n)); }, DO { return v[0].pop(); }},
    {"shift", MAKE { v.push_back(strings(n)); }, DO { return v[0].shift(); }},
    {"shrinking", MAKE { v.push_back(numbers(type(), n)); }, DO { v[0].resize(n / 2); return 0; }},
    {"look up", MAKE { v.push_back(map(n)); v.push_back(fmt("key %06d", n / 3).c_str()); }, DO { return v[0][v[1]] + int(v[0].index(v[1])); }},
    {"absent key", MAKE { v.push_back(map(n)); v.push_back("key 1"); }, DO { return int(bool(v[0].index(v[1]))); }},
    {"arithmetic in place", MAKE { int t = rng.in(TYPE_FLOAT, TYPE_CFLOAT); v.push_back(numbers(t, n)); v.push_back(v[0].copy()); }, DO { v[0] += v[1]; v[0] -= 1; return 0; }},
    {"functions in place", MAKE { v.push_back(numbers(rng.in(TYPE_FLOAT, TYPE_DOUBLE), n)); }, DO { v[0].sin(); v[0].exp(); return 0; }},
    {"sum", MAKE { v.push_back(numbers(rng.in(TYPE_FLOAT, TYPE_DOUBLE), n)); }, DO { return lu::sum(v[0]); }},
    {"dot product", MAKE { v.push_back(numbers(TYPE_FLOAT, n)); v.push_back(v[0].copy()); }, DO { return lu::dot(v[0], v[1]); }},
    {"comparing text", MAKE { v.push_back(text(n, "abc")); v.push_back(v[0].copy()); }, DO { return int(v[0] == v[1]) + int(v[0] < v[1]); }},
    {"text in place", MAKE { v.push_back(text(n, "aBc")); }, DO { v[0].toupper(); v[0].tolower(); return 0; }},
};

// Growing: in proportion
const Kind linear[] = {
    {"push", MAKE {}, DO { var r, k = 3; for (int i = 0; i < n; i++) r.push(k); return r; }},
    {"push text on a list", MAKE {}, DO { var r; for (int i = 0; i < n; i++) r.push("ab"); return r; }},
    {"assignment beyond the end", MAKE {}, DO { var r; for (int i = 0; i < n; i++) r[i] = 2.5; return r; }},
    {"unshift", MAKE {}, DO { var r, k = 3.5f; for (int i = 0; i < n; i++) r.unshift(k); return r; }},
    {"append", MAKE {}, DO { var r = ""; for (int i = 0; i < n; i++) r.append("xyz"); return r; }},
    {"append numbers", MAKE {}, DO { var r; int x[3] = {1, 2, 3}; for (int i = 0; i < n; i++) r.append(3, x); return r; }},
    {"push and pop", MAKE {}, DO { var r; for (int i = 0; i < n; i++) { r.push(i); r.push(i); r.pop(); } return r; }},
    {"a queue", MAKE { v.push_back(numbers(TYPE_INT, 10)); }, DO { for (int i = 0; i < n; i++) { v[0].push(i); v[0].shift(); } return v[0]; }},
    {"map insertion", MAKE {}, DO { var r; for (int i = 0; i < n; i++) r[(i * 7919) % 100003] = 1; return r; }},
    {"copy", MAKE { v.push_back(numbers(type(), n)); }, DO { return v[0].copy(); }},
    {"copy of a list", MAKE { v.push_back(strings(n)); }, DO { return v[0].copy(); }},
    {"copy of a map", MAKE { v.push_back(map(n)); }, DO { return v[0].copy(); }},
    {"arithmetic", MAKE { v.push_back(numbers(rng.in(TYPE_FLOAT, TYPE_CDOUBLE), n)); v.push_back(v[0].copy()); }, DO { return v[0] + v[1]; }},
    {"functions", MAKE { v.push_back(numbers(rng.in(TYPE_FLOAT, TYPE_CDOUBLE), n)); }, DO { return lu::exp(v[0]); }},
    {"rows", MAKE { v.push_back(numbers(TYPE_DOUBLE, 3 * n).view({n, 3})); v.push_back(numbers(TYPE_DOUBLE, 3)); }, DO { return v[0] + v[1]; }},
    {"sums of rows", MAKE { v.push_back(numbers(TYPE_DOUBLE, 3 * n).view({n, 3})); }, DO { return lu::sum(v[0]); }},
    {"transpose", MAKE { v.push_back(numbers(TYPE_FLOAT, 3 * n).view({n, 3})); }, DO { return lu::transpose(v[0]); }},
    {"split", MAKE { v.push_back(text(n, "ab,")); }, DO { return v[0].split(","); }},
    {"split at white space", MAKE { v.push_back(text(n, "ab  ")); }, DO { return v[0].split(); }},
    {"join", MAKE { v.push_back(strings(n)); }, DO { return v[0].join("/"); }},
    {"toupper", MAKE { v.push_back(text(n, "ab,")); }, DO { return lu::toupper(v[0]); }},
    {"replace", MAKE { v.push_back(text(n, "ab,")); }, DO { return v[0].replace("b", "cc"); }},
    {"json read", MAKE { var w = nested(n); std::ostringstream s; s << w; v.push_back(s.str().c_str()); }, DO { lu::varstream s(v[0]); var r; s >> r; return r; }},
    {"json write", MAKE { v.push_back(nested(n)); }, DO { lu::varstream s; s << v[0]; return var(s); }},
    {"numbers read", MAKE { v.push_back((str("[0") + str(lu::var(text(n, ",12")).str()) + "]").c_str()); }, DO { lu::varstream s(v[0]); var r; s >> r; return r; }},
    {"numbers written", MAKE { v.push_back(numbers(TYPE_DOUBLE, n)); }, DO { lu::varstream s; s << v[0]; return var(s); }},
    {"stream of text", MAKE {}, DO { lu::varstream s; for (int i = 0; i < n; i++) s << "ab" << i; return var(s); }},
    {"lines", MAKE { v.push_back(text(n, "a line\n")); }, DO { lu::varstream s(v[0]); var l; int k = 0; while (l.getline(s)) k++; return k; }},
    {"a long line", MAKE { v.push_back(text(n, "a line")); }, DO { lu::varstream s(v[0]); var l; l.getline(s); return l; }},
    {"range", MAKE {}, DO { return lu::range(0, n); }},
    {"dft", MAKE { v.push_back(numbers(TYPE_CFLOAT, n)); }, DO { lu::DFT d(n, lu::cfloat(0)); return d(v[0]); }},
    {"text file", MAKE { str f = scratch() + "/cost.txt"; std::ofstream o(f); for (int i = 0; i < n; i++) o << "line " << i << "\n"; v.push_back(f.c_str()); }, DO { lu::filemodule m("txt"); return m.create().read(v[0]); }},
    {"ini file", MAKE { str f = scratch() + "/cost.ini"; std::ofstream o(f); for (int i = 0; i < n; i++) o << "key" << i << " = " << i << "\n"; v.push_back(f.c_str()); }, DO { lu::filemodule m("ini"); return m.create().read(v[0]); }},
    {"xml file", MAKE { str f = scratch() + "/cost.xml"; std::ofstream o(f); o << "<?xml version='1.0'?><a>\n"; for (int i = 0; i < n; i++) o << "<b c='d'>text</b>\n"; o << "</a>\n"; v.push_back(f.c_str()); }, DO { lu::filemodule m("xml"); return m.create().read(v[0]); }},
};

long bytes(const Kind& k, int n, uint64_t seed, long& allocs)
{
    rng = decltype(rng)(seed);
    Vars v;
    v.reserve(8);
    k.make(v, n);
    var r;
    mustWork("cost.work", k.name, [&] { Counted c; r = k.op(v, n); });
    allocs = gAllocs;
    return gBytes;
}

}

VH_CASE_W(cost_fixed, 2)
{
    const Kind& k = fixed[rng.upto(sizeof fixed / sizeof *fixed)];
    int n = rng.in(20, 200);
    uint64_t seed = rng.next();
    long a1, a2, b1 = bytes(k, n, seed, a1), b2 = bytes(k, 32 * n, seed, a2);
    str d = str(k.name) + fmt(": %ld bytes in %ld pieces for %d elements, %ld bytes in %ld pieces for %d", b1, a1, n, b2, a2, 32 * n);
    if (getenv("DUMPC")) fprintf(stderr, "%s\n", d.c_str());
    note(d);
    distinct(str(k.name) + fmt("%d", n));
    check(b2 <= 2 * b1 + 512, "cost.shared", d + ": should not depend on the size");
    ev("compared");
}

VH_CASE_W(cost_linear, 2)
{
    const Kind& k = linear[rng.upto(sizeof linear / sizeof *linear)];
    int n = rng.in(60, 200);
    uint64_t seed = rng.next();
    long a1, a2, b1 = bytes(k, n, seed, a1), b2 = bytes(k, 32 * n, seed, a2);
    str d = str(k.name) + fmt(": %ld bytes in %ld pieces for %d elements, %ld bytes in %ld pieces for %d", b1, a1, n, b2, a2, 32 * n);
    if (getenv("DUMPC")) fprintf(stderr, "%s ratio %.1f\n", d.c_str(), double(b2) / b1);
    note(d);
    distinct(str(k.name) + fmt("%d", n));
    check(b2 <= 130 * b1 + 4096, "cost.linear", d + ": should grow in proportion");
    ev("grown");
}

// The time to look things up: by bisection
static double timeOf(std::function<void()> f)
{
    double best = 1e9;
    for (int i = 0; i < 3; i++) {
        struct timespec a, b;
        clock_gettime(CLOCK_THREAD_CPUTIME_ID, &a);
        f();
        clock_gettime(CLOCK_THREAD_CPUTIME_ID, &b);
        best = std::min(best, (b.tv_sec - a.tv_sec) + (b.tv_nsec - a.tv_nsec) * 1e-9);
    }
    return best;
}

VH_CASE_W(cost_lookup, 1)
{
    int form = rng.upto(3), n = rng.in(8000, 16000), looks = 600;
    double t[2];
    uint64_t seed = rng.next();
    long found = 0, put = 0;
    for (int big = 0; big < 2; big++) {
        rng = decltype(rng)(seed);
        int size = big ? n : n / 100;
        std::vector<var> keys;
        var m;
        for (int i = 0; i < size; i++) {
            var k;
            if (form == 1) k = i; else k = fmt("key %07d", i).c_str();
            m[k] = i;
        }
        for (int i = 0; i < looks; i++) { var k; int j = rng.upto(size); if (form == 1) k = j; else k = fmt(rng.chance(1, 4) ? "key %07dx" : "key %07d", j).c_str(); keys.push_back(k); }
        t[big] = timeOf([&] {
            for (auto& k : keys) {
                if (form == 2) found += m[k].defined();   // a new key among those that are there
                else found += bool(m.index(k));
                put++;
            }
        });
    }
    str d = fmt("%d times looking up keys (form %d): %.6f s among %d, %.6f s among %d", looks, form, t[0], n / 100, t[1], n);
    if (getenv("DUMPC")) fprintf(stderr, "%s\n", d.c_str());
    note(d);
    distinct(fmt("%d %d", form, n));
    check(found > 0 && put, "cost.found", d);
    check(t[1] < 20 * t[0] + 0.005, "cost.lookup", d + ": a hundred times as many keys should hardly matter");
    ev("looked_up");
}

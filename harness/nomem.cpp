// Memory runs out: at each allocation in turn of an operation.
#include "model.h"
#include "lube/dft.h"
#include "lube/config.h"
#include "lube/module.h"
#include "lube/path.h"
#include "lube/regex.h"
#include "lube/graph.h"
#include <cstdlib>
#include <fstream>
#include <new>
using namespace vh;
using namespace md;

// Every allocation of the library comes this way
static thread_local long gLeft = -1;
static bool gEnough;                // there were no more allocations than that
static void* get(size_t n)
{
    if (gLeft >= 0 && gLeft-- == 0) throw std::bad_alloc();
    void* p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void* operator new(size_t n) { return get(n); }
void* operator new[](size_t n) { return get(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }

namespace {

struct Short {
    Short(long n) { gLeft = n; }
    ~Short() { gEnough = gLeft >= 0; gLeft = -1; }
};

var arr(int t, int n) { var v; v = numVar(randNum(t)); v.array(); for (int i = 1; i < n; i++) v.push(numVar(randNum(t))); return v; }
var strings(int n) { var v; v.array(); v.resize(0); var r; for (int i = 0; i < n; i++) r[i] = fmt("s%d", i).c_str(); return r; }
var map(int n) { var v; for (int i = 0; i < n; i++) v[fmt("key %d", i).c_str()] = i; return v; }


typedef std::vector<var> Vars;
struct Kind {
    const char* name;
    bool pure;                                  // leaves its operands as they are
    std::function<void(Vars&)> make;            // operands, from rng alone
    std::function<var(Vars&)> op;
};

var some() { MV m; do m = randVal(2); while (m.k == MV::NIL); return build(m); }
var list() { return rng.chance(1, 3) ? strings(rng.in(1, 9)) : [] { var v = strings(1); for (int i = rng.in(0, 9); i > 0; i--) v[v.size()] = some(); return v; }(); }
var numbers(int lo = 1, int hi = 20) { return arr(rng.in(TYPE_CHAR, TYPE_CDOUBLE), rng.in(lo, hi)); }
var real(int n) { var v = arr(rng.chance(1, 2) ? TYPE_FLOAT : TYPE_DOUBLE, n); for (int i = 0; i < n; i++) v[i] = rng.sym(); return v; }
var text() { return rng.pick(std::vector<const char*>{"", "a text, of several words, and some more of them", "one", " blanks at both ends  "}); }
var file(const char* ext, const char* content) { str f = scratch() + "/nomem." + ext; std::ofstream(f) << content; return f.c_str(); }
const char* jsonText() { return rng.pick(std::vector<const char*>{"[1, {\"a\": [2.5, \"text\"], \"b\": null}, [1, 2, 3]]", "{\"x\": {\"y\": {\"z\": [\"p\", \"q\", [], {}]}}}", "[\"\\u00e9 escaped \\n\", true, false, 1e10]"}); }

struct Half : lu::UnaryFunctor {
    Half() { mDim = 1; }
    void vector(var iVar, var& oVar) const override { for (int i = 0; i < iVar.size(); i++) oVar[i] = iVar[i] / 2; }
};

#define VARS [](Vars& v)
#define DO [](Vars& v) -> var
const Kind kinds[] = {
    {"copy()", true, VARS { v.push_back(some()); }, DO { return v[0].copy(); }},
    {"copy() of an array", true, VARS { v.push_back(numbers()); }, DO { return v[0].copy(); }},
    {"deep list copy()", true, VARS { v.push_back(list()); }, DO { return v[0].copy(); }},
    {"copy() of a view", true, VARS { v.push_back(real(12)); v.push_back(v[0].view({3, 4})); }, DO { return v[1].copy(); }},
    {"push", false, VARS { v.push_back(numbers()); v.push_back(numVar(randNum(TYPE_INT))); }, DO { return v[0].push(v[1]); }},
    {"push on a list", false, VARS { v.push_back(list()); v.push_back(some()); }, DO { return v[0].push(v[1]); }},
    {"push text", false, VARS { v.push_back(list()); }, DO { return v[0].push("some text that is long enough to be allocated"); }},
    {"push on nil", false, VARS { v.push_back(var()); v.push_back(some()); }, DO { return v[0].push(v[1]); }},
    {"push on a number", false, VARS { v.push_back(3.5); v.push_back(4); }, DO { return v[0].push(v[1]); }},
    {"unshift", false, VARS { v.push_back(list()); v.push_back(some()); }, DO { return v[0].unshift(v[1]); }},
    {"unshift numbers", false, VARS { v.push_back(numbers()); v.push_back(7); }, DO { return v[0].unshift(v[1]); }},
    {"insert", false, VARS { v.push_back(list()); v.push_back(some()); }, DO { return v[0].insert(v[1], 1); }},
    {"insert numbers", false, VARS { v.push_back(numbers(2)); v.push_back(numbers()); }, DO { return v[0].insert(v[1], 1); }},
    {"remove", false, VARS { v.push_back(list()); }, DO { return v[0].remove(0); }},
    {"remove a number", false, VARS { v.push_back(numbers(2)); }, DO { return v[0].remove(1); }},
    {"remove from a map", false, VARS { v.push_back(map(4)); }, DO { return v[0].remove(2); }},
    {"pop", false, VARS { v.push_back(list()); }, DO { return v[0].pop(); }},
    {"shift", false, VARS { v.push_back(list()); }, DO { return v[0].shift(); }},
    {"resize", false, VARS { v.push_back(numbers()); }, DO { return v[0].resize(40); }},
    {"resize a list", false, VARS { v.push_back(list()); }, DO { return v[0].resize(rng.chance(1, 2) ? 40 : 1); }},
    {"resize a number", false, VARS { v.push_back(2.5); }, DO { return v[0].resize(3); }},
    {"resize a map", false, VARS { v.push_back(map(3)); }, DO { return v[0].resize(2); }},
    {"append numbers", false, VARS { v.push_back(arr(TYPE_INT, 5)); }, DO { int x[9] = {1, 2, 3, 4, 5, 6, 7, 8, 9}; return v[0].append(9, x); }},
    {"map insert", false, VARS { v.push_back(map(rng.in(0, 12))); v.push_back(some()); }, DO { v[0]["another key"] = v[1]; return v[0]; }},
    {"map insert of a map", false, VARS { v.push_back(map(rng.in(0, 12))); v.push_back(map(3)); }, DO { v[0]["x"]["y"] = v[1]; return v[0]; }},
    {"map insert by variable", false, VARS { v.push_back(map(rng.in(0, 12))); v.push_back(some()); v.push_back(rng.chance(1, 2) ? some() : var("key")); }, DO { v[0][v[2]] = v[1]; return v[0]; }},
    {"map lookup", true, VARS { v.push_back(map(9)); }, DO { return v[0].at("key 3"); }},
    {"element assignment to nil", false, VARS { v.push_back(var()); v.push_back(some()); }, DO { v[0][3] = v[1]; return v[0]; }},
    {"element assignment", false, VARS { v.push_back(list()); v.push_back(some()); }, DO { v[0][int(v[0].size()) + 9] = v[1]; return v[0]; }},
    {"number assignment", false, VARS { v.push_back(numbers()); }, DO { v[0][int(v[0].size()) + 30] = 3; return v[0]; }},
    {"initialiser", false, VARS { v.push_back(some()); }, DO { v[0] = {1.0, 2.0, 3.0}; return v[0]; }},
    {"initialiser of strings", false, VARS { v.push_back(some()); }, DO { v[0] = {"a", "b", "c"}; return v[0]; }},
    {"nested initialiser", false, VARS { v.push_back(some()); }, DO { v[0] = {{1, 2}, {"a", "b"}}; return v[0]; }},
    {"array()", false, VARS { v.push_back(numVar(randNum(TYPE_DOUBLE))); }, DO { return v[0].array(); }},
    {"array() of anything", false, VARS { v.push_back(some()); }, DO { return v[0].array(); }},
    {"complex", true, VARS {}, DO { return lu::cdouble(1, 2); }},
    {"split", true, VARS { v.push_back(text()); }, DO { return v[0].split(rng.chance(1, 2) ? " " : ","); }},
    {"split at white space", true, VARS { v.push_back(text()); }, DO { return v[0].split(); }},
    {"join", true, VARS { v.push_back(strings(4)); }, DO { return v[0].join("/"); }},
    {"toupper", true, VARS { v.push_back(text()); }, DO { return lu::toupper(v[0]); }},
    {"tolower in place", false, VARS { v.push_back("UPPER Case Text"); }, DO { return v[0].tolower(); }},
    {"strip", true, VARS { v.push_back(text()); }, DO { return lu::strip(v[0]); }},
    {"strip in place", false, VARS { v.push_back(text()); }, DO { return v[0].strip(); }},
    {"append text", false, VARS { v.push_back(text()); }, DO { return v[0].append(" and more of them"); }},
    {"sort", true, VARS { v.push_back(list()); }, DO { return v[0].sort(); }},
    {"add", true, VARS { int n = rng.in(1, 9); v.push_back(real(n)); v.push_back(v[0].copy()); }, DO { return v[0] + v[1]; }},
    {"add rows", true, VARS { v.push_back(var({3, 4}, 1.0)); v.push_back(arr(TYPE_DOUBLE, 4)); }, DO { return v[0] + v[1]; }},
    {"add number", true, VARS { v.push_back(numbers()); v.push_back(2); }, DO { return v[0] - v[1]; }},
    {"add to a map", true, VARS { v.push_back(map(3)); v.push_back(2); }, DO { return v[0] + v[1]; }},
    {"add in place", false, VARS { int n = rng.in(1, 9); v.push_back(real(n)); v.push_back(v[0].copy()); }, DO { return v[0] += v[1]; }},
    {"pow", true, VARS { v.push_back(real(5)); }, DO { return lu::pow(v[0], 2.0); }},
    {"sin", true, VARS { v.push_back(real(5)); }, DO { return lu::sin(v[0]); }},
    {"sin in place", false, VARS { v.push_back(real(5)); }, DO { return v[0].sin(); }},
    {"abs of complex", true, VARS { v.push_back(arr(TYPE_CDOUBLE, 5)); }, DO { return lu::abs(v[0]); }},
    {"sum", true, VARS { v.push_back(real(5)); }, DO { return lu::sum(v[0]); }},
    {"sum of rows", true, VARS { v.push_back(var({3, 4}, 1.0)); }, DO { return lu::sum(v[0]); }},
    {"dot", true, VARS { v.push_back(arr(TYPE_DOUBLE, 5)); v.push_back(arr(TYPE_DOUBLE, 5)); }, DO { return lu::dot(v[0], v[1]); }},
    {"matrix product", true, VARS { v.push_back(var({3, 4}, 1.0)); v.push_back(var({4, 2}, 2.0)); }, DO { return lu::dot(v[0], v[1]); }},
    {"view", true, VARS { v.push_back(numbers(12, 12)); }, DO { return v[0].view({3, 4}); }},
    {"view of a shape", true, VARS { v.push_back(numbers(12, 12)); v.push_back(var()); v[1] = {2, 3, 2}; }, DO { return v[0].view(v[1]); }},
    {"subview", true, VARS { v.push_back(real(12)); }, DO { var r = v[0].view({3, 4}); return r.subview(1, 4); }},
    {"shape", true, VARS { v.push_back(real(12)); v.push_back(v[0].view({3, 4})); }, DO { return v[1].shape(); }},
    {"new view", true, VARS { v.push_back(1.0f); }, DO { return lu::view({3, 4}, v[0]); }},
    {"array constructor", true, VARS { v.push_back(1.0f); }, DO { return var({3, 4}, v[0]); }},
    {"write through a view", false, VARS { v.push_back(real(12)); v.push_back(v[0].view({3, 4})); v.push_back(real(12)); v.push_back(v[2].view({3, 4})); }, DO { return v[1] = v[3]; }},
    {"transpose", true, VARS { v.push_back(real(12)); v.push_back(v[0].view({3, 4})); }, DO { return lu::transpose(v[1]); }},
    {"transpose in place", false, VARS { v.push_back(real(12)); v.push_back(v[0].view({3, 4})); }, DO { return v[1].transpose(); }},
    {"concatenate", true, VARS { v.push_back(var()); v[0][0] = var({2, 2}, 1.0); v[0][1] = var({2, 2}, 2.0); }, DO { return lu::concatenate(v[0]); }},
    {"roots", true, VARS { v.push_back(var()); v[0] = {1.0, -3.0, 2.0}; }, DO { return lu::roots(v[0]); }},
    {"poly", true, VARS { v.push_back(var()); v[0] = {1.0, -3.0, 2.0}; }, DO { return lu::poly(v[0]); }},
    {"cast", true, VARS { v.push_back(real(5)); }, DO { return lu::castInt(v[0]); }},
    {"cast text", true, VARS { v.push_back("25"); }, DO { return lu::castDouble(v[0]); }},
    {"index", true, VARS { v.push_back(strings(5)); v.push_back("s3"); }, DO { return int(v[0].index(v[1])); }},
    {"compare", true, VARS { v.push_back(list()); v.push_back(list()); }, DO { return int(v[0] < v[1]) + int(v[0] == v[1]); }},
    {"range", true, VARS {}, DO { return lu::range(1, 10); }},
    {"swap", false, VARS { v.push_back(real(5)); v.push_back(real(5)); v[1] = v[0].copy(); }, DO { return lu::swap(v[0], v[1]); }},
    {"set", false, VARS { v.push_back(real(5)); v.push_back(v[0].copy()); }, DO { return lu::set(v[0], v[1]); }},
    {"json write", true, VARS { v.push_back(some()); }, DO { std::ostringstream s; s << v[0]; return 0; }},
    {"json read", true, VARS { v.push_back(jsonText()); }, DO { var r; lu::varstream s(v[0]); s >> r; return r; }},
    {"stream text", true, VARS { v.push_back(text()); v.push_back(some()); }, DO { lu::varstream s; s << v[0] << 5 << v[1] << 2.5; return var(s); }},
    {"getline", true, VARS { v.push_back("one line\nand another that is rather longer than it\nx"); }, DO { lu::varstream s(v[0]); var r, l; while (l.getline(s)) r[r.size()] = l.copy(); return r; }},
    {"replace", false, VARS { v.push_back(text()); }, DO { return v[0].replace("e", "EEE"); }},
    {"search", true, VARS { v.push_back("a text, of several words"); }, DO { return v[0].search("(t)(e)"); }},
    {"match", true, VARS { v.push_back("a text, of several words"); }, DO { return v[0].match("(a) (text), (.*)"); }},
    {"regex functor", true, VARS { v.push_back("a text, of several words"); }, DO { lu::Search r("s(e)"), q = r; return q(v[0]); }},
    {"error", true, VARS { v.push_back(text()); }, DO { lu::error e(v[0]); lu::error f = e; return int(str(f.what()).size() > 3); }},
    {"dft", true, VARS { v.push_back(arr(TYPE_CDOUBLE, 8)); }, DO { lu::DFT d(8, lu::cdouble(0)); return d(v[0]); }},
    {"real dft", true, VARS { v.push_back(arr(TYPE_FLOAT, 8)); }, DO { lu::DFT d(8), e = d; return e(v[0]); }},
    {"user functor", true, VARS { v.push_back(arr(TYPE_DOUBLE, 6).view({2, 3})); }, DO { return Half()(v[0]); }},
    {"options", true, VARS {}, DO {
        lu::Option o("a program"); o("with arguments"); o('a', "an option", 2); o('b', "another");
        const char* a[] = {"prog", "-b", "-a", "3", "rest", 0}; optind = 1;
        var r = o.parse(5, const_cast<char**>(a)); return r.copy(); }},
    {"config", true, VARS { v.push_back(file("cfg", "[s]\na = 1\nb = text\n[t]\nx = 2.5\n")); }, DO { lu::Config c("s"); c.configFile(v[0]); c.configSet("q", "v"); return c.config("b").copy(); }},
    {"txt file", true, VARS { v.push_back(file("txt", "some\nlines\nof text that is long enough to be allocated\n")); }, DO { lu::filemodule m("txt"); return m.create().read(v[0]); }},
    {"txt write", true, VARS { v.push_back((scratch() + "/nomem.out").c_str()); v.push_back(strings(4)); }, DO { lu::filemodule m("txt"); m.create().write(v[0], v[1]); return 0; }},
    {"ini file", true, VARS { v.push_back(file("ini", "a = b\n[s]\nc: d\nc = e\n")); }, DO { lu::filemodule m("ini"); return m.create().read(v[0]); }},
    {"xml file", true, VARS { v.push_back(file("xml", "<?xml version='1.0'?><a b='c'>text<d/><e f='g'>more &amp; more</e></a>")); }, DO { lu::filemodule m("xml"); return m.create().read(v[0]); }},
    {"xml write", true, VARS { v.push_back(file("xml", "<?xml version='1.0'?><a b='c'>text<d/><e f='g'>more &amp; more</e></a>")); lu::filemodule m("xml"); v.push_back(m.create().read(v[0])); v.push_back((scratch() + "/nomem.xo").c_str()); }, DO { lu::filemodule m("xml"); m.create().write(v[2], v[1]); return 0; }},
    {"ged file", true, VARS { v.push_back(file("ged", "0 HEAD\n1 CHAR UTF-8\n0 @I1@ INDI\n1 NAME A /B/\n0 TRLR\n")); }, DO { lu::filemodule m("ged"); return m.create().read(v[0]); }},
    {"graph", true, VARS { v.push_back((scratch() + "/nomem.dot").c_str()); }, DO { lu::graphmodule m; lu::graph& g = m.create(); g.addVertex(); g.addVertex(); g.addEdge(0, 1); g.writeGraphViz(v[0]); return 0; }},
};

}

VH_CASE(nomem_op)
{
    // The dynamic loader is no part of this: modules stay loaded
    static std::vector<lu::module*>& loaded = *[] {
        auto p = new std::vector<lu::module*>;
        for (auto m : {"txt", "ini", "xml", "ged", "graph"}) p->push_back(new lu::module(m));
        return p;
    }();
    check(loaded.size() == 5, "nomem.modules", "modules are not loaded");
    const Kind& k = kinds[rng.upto(sizeof kinds / sizeof *kinds)];
    uint64_t seed = rng.next();
    distinct(fmt("%s %d", k.name, int(seed % 1000)));
    long step = 1;
    str want, usual;
    auto judge = [&](const str& d, const var& r) {
        str got = vh::canon(r);
        if (want.empty()) want = got;
        // rounding may depend on where numbers are stored
        if (want.find("0x") == str::npos) { check(got == want, "nomem.result", d + ": gives " + got + ", was " + want); ev("results"); }
    };
    for (long n = 0; ; n += step) {
        // the same operands each time
        rng = decltype(rng)(seed);
        Vars v;
        v.reserve(8);
        k.make(v);
        auto here = rng;
        std::vector<str> before;
        str d = str(k.name) + fmt(" where allocation %ld fails, of ", n);
        for (auto& x : v) { before.push_back(vh::canon(x)); d += before.back() + "; "; }
        noteClear();
        note(d);
        if (k.pure && !n) {
            bool work = !throws("nomem.first", d, [&] { var r = k.op(v); judge(d + " (with memory)", r); });
            if (!work) want = "exception";
            rng = here;
        }
        // storing under a key can be repeated
        const bool store = str(k.name).substr(0, 10) == "map insert";
        if (store && !n) {
            if (throws("nomem.first", d, [&] { k.op(v); })) usual = "exception"; else usual = vh::canon(v[0]);
            v.clear();
            rng = decltype(rng)(seed);
            k.make(v);
            rng = here;
        }
        int fds = openFds();
        bool done = false, other = false;
        {
            // the result is not what is looked at, but it has to be sound
            var r;
            try { Short s(n); r = k.op(v); }
            catch (std::bad_alloc&) {}
            catch (std::exception&) { other = true; }
            done = gEnough;
            vh::canon(r);
        }
        ev(done ? "completed" : other ? "other_exception" : "ran_out");
        check(openFds() == fds, "nomem.fd", d + ": a file is left open");
        for (size_t i = 0; i < v.size(); i++) {
            str now = vh::canon(v[i]);
            if (k.pure) check(now == before[i], "nomem.operand", d + ": operand became " + now);
            // what could not grow is as it was
            else if (!done && !other && (str(k.name).substr(0, 6) == "resize" || str(k.name) == "push" || str(k.name) == "append numbers")) {
                check(now == before[i], "nomem.growth", d + ": became " + now);
                ev("not_grown");
            }
            std::ostringstream s;
            s << v[i];
        }
        if (done) break;
        // there is memory again
        rng = here;
        if (k.pure && !other) mustWork("nomem.retry", d + " (then with memory)", [&] { var r = k.op(v); judge(d + " (then with memory)", r); });
        else if (!throws("nomem.retry", d + " (then with memory)", [&] { var r = k.op(v); vh::canon(r); })) ev("retried");
        for (auto& x : v) vh::canon(x);
        if (store && usual != "exception") {
            str now = vh::canon(v[0]);
            check(now == usual, "nomem.stored", d + " (then with memory): the map became " + now + ", should be " + usual);
            ev("stored");
        }
        if (n >= 60) step = n / 15;
        check(n < 100000, "nomem.endless", d + ": never completes");
    }
}

// C37: threads that share no variables.  Each thread runs a program of its own
// over values of its own; what it gets is compared with what the same program
// gets alone, under the race detector in one build and ASan/UBSan in another.
#include "vh.h"
#include <lube/heap.h>
#include <lube/dft.h>
#include <lube/regex.h>
#include <lube/c++lapack.h>
#include <atomic>
#include <sstream>
#include <thread>
using namespace vh;

namespace {
typedef lu::cdouble cdouble;
typedef lu::cfloat cfloat;
typedef lu::varstream varstream;

// the value in full
void dump(std::ostream& o, var v, int depth = 0)
{
    if (depth > 20) { o << "deep"; return; }
    if (!v.defined()) { o << "nil"; return; }
    o << int(v.type()) << ':';
    if (!v.heap()) {
        if (v.type() == lu::TYPE_CHAR) o << int((unsigned char)v.get<char>());
        else if (v.type() == lu::TYPE_CFLOAT) o << v.get<cfloat>();
        else o << v.cast<double>();
        return;
    }
    if (v.view()) { o << '('; for (int i = 0; i < v.dim(); i++) o << v.shape(i) << ','; o << ')'; }
    if (v.atype<char>() && !v.view()) { o << '"' << std::string(v.str(), v.size()) << '"'; return; }
    o << '[';
    bool map = v.atype<lu::pair>();
    for (int i = 0; i < v.size(); i++) {
        if (i) o << ' ';
        if (map) { dump(o, v.key(i), depth + 1); o << '='; }
        if (v.atype<char>()) o << int((unsigned char)v.at(i).get<char>());
        else if (v.atype<int>()) o << v.at(i).get<int>();
        else if (v.atype<long>()) o << v.at(i).get<long>();
        else if (v.atype<float>()) o << v.at(i).get<float>();
        else if (v.atype<double>()) o << v.at(i).get<double>();
        else if (v.atype<cfloat>()) o << v.at(i).get<cfloat>();
        else if (v.atype<cdouble>()) o << v.at(i).get<cdouble>();
        else dump(o, v.at(i), depth + 1);
    }
    o << ']';
}

// one thread's program
struct Job {
    Rng r;
    std::ostringstream o;
    std::vector<int> ops;
    bool throwing;
    explicit Job(uint64_t seed, bool t) : r(seed), throwing(t) { o.precision(9); }

    str word(const char* a, int max) { str s; int l = strlen(a); for (int n = r.in(1, max); n > 0; n--) s += a[r.upto(l)]; return s; }
    var st(const str& s) { return var(int(s.size()), s.data()); }
    void show(const char* what, var v) { o << what << ' '; dump(o, v); o << '\n'; }
    double num() { return r.chance(1, 3) ? r.in(-9, 9) * 0.5 : r.sym() * 10; }
    template<class T> var vec(int n) { var v; v = T(0); v.array(); v.resize(n); for (int i = 0; i < n; i++) v.ptr<T>()[i] = T(num()); return v; }
    template<class T> var mat(int a, int b) { var v = lu::view({a, b}, T(0)); for (int i = 0; i < a * b; i++) v.ptr<T>()[i] = T(num()); return v; }

    void strings()
    {
        var s = st(word("ab, Cd\t", 40));
        var c = s.split(","), w = s.split(), l = s.split(",", 2);
        show("split", c); show("words", w); show("split2", l);
        show("join", c.join(";"));
        show("upper", lu::toupper(s)); show("lower", lu::tolower(s)); show("strip", lu::strip(s));
        s.push('x'); s.unshift('y'); s.append("more");
        o << s.pop().get<char>() << s.shift().get<char>() << int(intptr_t(s.index(','))) << int(intptr_t(s.len())) << '\n';
        show("string", s);
        s.toupper(); s.strip();
        show("string", s);
    }
    void regex()
    {
        var s = st(word("aab1 ", 30));
        lu::Search search("(a+)(b?)");
        lu::Replace rep("a+", "<$&>");
        lu::Match match("[ab1 ]*");
        show("search", search(s)); show("match", match(s));
        rep(s, s);
        show("replace", s);
    }
    void sequences()
    {
        var a, v;
        v.array(); v.resize(0);
        int t = r.upto(3);
        for (int n = r.in(1, 40); n > 0; n--) {
            if (t == 0) { a.push(r.in(-50, 50)); if (a.size() == 1) a.array(); }
            else if (t == 1) { a.push(num()); if (a.size() == 1) a.array(); }
            else a[a.defined() ? a.size() : 0] = st(word("xyz", 5));
            var e;
            e = a.at(a.size() - 1).copy();
            v.push(e);
        }
        a.insert(r.in(0, 9), r.upto(a.size()));
        a.remove(r.upto(a.size()));
        v.insert("in", 0); v.unshift(lu::nil);
        show("array", a); show("list", v);
        show("sorted", a.sort());
        v.clear();
        show("cleared", v);
        var b = a.copy();
        a.resize(a.size() / 2);
        o << (a < b) << (a == b) << a.size() << '\n';
    }
    void maps()
    {
        var m;
        for (int n = r.in(1, 12); n > 0; n--) {
            var k = st(word("abc", 3));
            if (r.chance(1, 3)) m[k]["in"] = num(); else m[k] = r.in(0, 99);
        }
        show("map", m);
        var k = st(word("abc", 3));
        o << bool(m.index(k)) << '\n';
        show("at", m.at(k));
        if (m.index(k)) m.remove(int(intptr_t(m.index(k))));
        show("map", m);
    }
    void json()
    {
        var v;
        v["n"] = num(); v["i"] = r.in(-1000, 1000); v["s"] = st(word("ab\"\\\n", 9));
        v["a"][0] = "x"; v["a"][1] = r.in(0, 9); v["a"][2]["k"] = "v";
        std::stringstream s;
        s << v;
        o << s.str() << '\n';
        var b;
        s >> b;
        show("read", b);
        varstream vs;
        vs << "[1, 2.5, \"\\u00e9\", {\"a\": [true, null]}] 7";
        vs >> b;
        show("read", b);
        vs >> b;
        show("read", b);
    }
    template<class T> void arithmetic()
    {
        int n = r.in(1, 8), m = r.in(1, 6);
        var a = mat<T>(m, n), b = mat<T>(m, n), row = vec<T>(n + 1).view({n}, 1);
        for (int i = 0; i < m * n; i++) if (b.ptr<T>()[i] == T(0)) b.ptr<T>()[i] = T(1.5);
        show("+", a + b); show("-", a - row); show("*", a * b); show("/", a / b); show("s", a * T(3));
        a += b; a *= row;
        show("a", a);
        show("dot", lu::dot(a, b)); show("sum", lu::sum(a)); show("asum", lu::asum(a)); show("iamax", lu::iamax(a));
        if (sizeof(T) <= 8) { var t = a.transpose(); show("mul", lu::mul(t, b)); }
        lu::swap(a, b);
        lu::set(a, T(2));
        show("a", a); show("b", b);
    }
    template<class T> void maths()
    {
        var v = mat<T>(r.in(1, 3), r.in(1, 9));
        show("sin", lu::sin(v)); show("exp", lu::exp(v)); show("abs", lu::abs(v)); show("floor", lu::floor(v)); show("sqrt", lu::sqrt(lu::abs(v)));
        var x;
        x = T(num());
        show("cos", lu::cos(x)); show("pow", lu::pow(lu::abs(v), T(1.5)));
        show("transpose", lu::transpose(v));
        var list;
        list[0] = v; list[1] = v;
        show("concatenate", lu::concatenate(list));
        lu::sort(v, v);
        show("sorted", v);
    }
    void casts()
    {
        var x;
        x = r.in(-300, 300);
        o << x.cast<float>() << int(x.cast<char>()) << x.cast<long>() << x.cast<double>() << x.cast<cdouble>() << '\n';
        x = num();
        o << x.cast<int>() << ' ' << x.cast<cfloat>() << '\n';
        var s = st(fmt("%d.5", r.in(-99, 99)));
        o << s.cast<double>() << ' ' << s.cast<int>() << '\n';
        show("castLong", lu::castLong(x)); show("castDouble", lu::castDouble(s));
        o << lu::typeStr(x.type()) << lu::typeStr(s.atype()) << '\n';
    }
    template<class T> void dft()
    {
        int n = r.in(1, 20);
        var v = mat<T>(r.in(1, 3), n);
        lu::DFT f(n, T(0));
        lu::IDFT b(n, T(0));
        var s = f(v), t = b(s);
        show("dft", s); show("idft", t);
    }
    template<class T> void poly()
    {
        int n = r.in(1, 6);
        var v = vec<T>(n).view({n});
        var p = lu::poly(v);
        show("poly", p);
        if (p.ptr<T>()[0] != T(0)) show("roots", lu::roots(p));
    }
    void errors()
    {
        auto first = [](const char* w) { str s = w; return s.substr(0, s.find('\n')); };
        var a = vec<int>(r.in(1, 5));
        try { a.at(-1); } catch (std::exception& e) { o << first(e.what()) << '\n'; }
        try { var x = st("word"); x.cast<int>(); } catch (std::exception& e) { o << "cast rejected\n"; }
        try { var b = mat<float>(2, 3); b += mat<float>(3, 2); } catch (std::exception& e) { o << first(e.what()) << '\n'; }
        try { std::stringstream s("{\"a\": [1, "); var v; s >> v; } catch (std::exception& e) { o << first(e.what()) << '\n'; }
        try { throw lu::error(fmt("mine %d", r.in(0, 99)).c_str()); } catch (std::exception& e) { o << first(e.what()) << '\n'; }
        show("after", a);
    }
    struct Twice : lu::UnaryFunctor {
        Twice() { mDim = 1; }
        void vector(var iVar, var& oVar) const { for (int i = 0; i < iVar.size(); i++) oVar(i) = iVar(i).get<double>() * 2; }
    };
    void functors()
    {
        Twice t;
        var v = mat<double>(r.in(1, 4), r.in(1, 4));
        show("twice", t(v));
        t(v, v);
        show("twice", v);
    }
    void streams()
    {
        varstream s;
        int a = r.in(-99, 99);
        double d = num();
        str w = word("qwe", 6);
        s << a << ' ' << w << ' ' << d << '\n' << "second line\n";
        int a2; str w2; double d2;
        s >> a2 >> w2 >> d2;
        var l;
        l.getline(s); l.getline(s);
        o << (a == a2) << w2 << std::fabs(d - d2) << '\n';
        show("line", l);
        show("text", var(s));
    }
    void making()
    {
        show("range", lu::range(1, r.in(2, 9))); show("irange", lu::irange(0.0, 2.0, 0.25));
        var v = {1, 2, 3}, w = {"a", "b", "c"};
        w.push(v);
        show("init", v); show("init", w);
        show("filled", var(r.in(1, 5), var("x"))); show("shaped", var({2, 2}, 1.5f));
        v = 1, 2, 3;
        show("comma", v);
        std::ostringstream s;
        s << w << mat<float>(2, 2) << var(cdouble(1, r.in(0, 5)));
        o << s.str() << '\n';
    }
    void op(int k)
    {
        switch (k) {
        case 0: strings(); break;
        case 1: regex(); break;
        case 2: sequences(); break;
        case 3: maps(); break;
        case 4: json(); break;
        case 5: if (r.chance(1, 2)) arithmetic<float>(); else arithmetic<double>(); break;
        case 6: if (r.chance(1, 2)) maths<float>(); else maths<double>(); break;
        case 7: casts(); break;
        case 8: if (r.chance(1, 2)) dft<float>(); else dft<double>(); break;
        case 9: if (r.chance(1, 2)) poly<float>(); else poly<double>(); break;
        case 10: functors(); break;
        case 11: streams(); break;
        case 12: making(); break;
        default: if (throwing) errors(); else casts();
        }
    }
    str run()
    {
        for (int k : ops) {
            o << "== " << k << '\n';
            try { op(k); } catch (std::exception& e) { str s = e.what(); o << "threw " << s.substr(0, s.find('\n')) << '\n'; }
        }
        return o.str();
    }
};
}

VH_CASE_NOBAL(threads_apart)
{
    int n = rng.in(2, 4), mode = rng.upto(3);
    std::vector<uint64_t> seeds;
    std::vector<std::vector<int>> ops(n);
    std::vector<int> together;
    bool throwing = rng.chance(1, 6);
    for (int k = rng.in(1, 8); k > 0; k--) together.push_back(rng.upto(14));
    str d = fmt("%d threads:", n);
    for (int i = 0; i < n; i++) {
        seeds.push_back(mode == 0 && i ? seeds[0] : rng.next());
        if (mode < 2) ops[i] = together;        // the same program in each, on the same values or others
        else for (int k = rng.in(1, 8); k > 0; k--) ops[i].push_back(rng.upto(14));
        d += " [";
        for (int k : ops[i]) d += fmt("%d ", k);
        d += "]";
    }
    note(d);
    distinct(d + fmt("%d", mode));
    if (rng.chance(1, 40)) sample(d);
    std::vector<str> got(n);
    std::atomic<int> ready{0};
    std::vector<std::thread> ts;
    for (int i = 0; i < n; i++) ts.emplace_back([&, i] {
        Job j(seeds[i], throwing);
        j.ops = ops[i];
        ready++;
        while (ready < n) std::this_thread::yield();
        got[i] = j.run();
    });
    for (auto& t : ts) t.join();
    for (int i = 0; i < n; i++) {
        Job j(seeds[i], throwing);
        j.ops = ops[i];
        str want = j.run();
        size_t at = 0;
        while (at < want.size() && at < got[i].size() && want[at] == got[i][at]) at++;
        check(want == got[i], "threads.result", d + fmt(": thread %d got ...\"", i) + vh::show(got[i].substr(at > 60 ? at - 60 : 0, 200)) + "\", alone \"" + vh::show(want.substr(at > 60 ? at - 60 : 0, 200)) + "\"");
        ev("bytes_compared", want.size());
        for (int k : ops[i]) ev(fmt("op%d", k).c_str());
    }
    ev("threads", n);
    if (throwing) ev("throwing");
}

// C17: streams on a variable behave as a standard string stream whose writes
// append and whose reads have a position of their own.
#include "vh.h"
#include <iomanip>
using namespace vh;

static str randBytes(int max)
{
    str s;
    int n = rng.chance(1, 400) ? (rng.chance(1, 2) ? (1 << rng.in(8, 16)) + rng.in(-2, 2) : rng.in(300, 70000)) : rng.upto(max + 1), mode = rng.upto(4);
    for (int i = 0; i < n; i++)
        switch (mode) {
        case 0: s += char(rng.upto(256)); break;
        case 1: s += "ab \n12"[rng.upto(6)]; break;
        case 2: s += "0123456789.e-+ "[rng.upto(15)]; break;
        default: s += char(rng.in(32, 126));
        }
    return s;
}

struct Pair {
    var v, copy;
    bool given;
    std::unique_ptr<lu::varstream> a;
    std::stringstream b;
    str log;
    Pair() : b(std::ios::in | std::ios::out | std::ios::app) {}
    str content() { return b.str(); }
    void same(const str& what) {
        log += what + "; ";
        note(log);
        check(a->rdstate() == b.rdstate(), "state", log + fmt("stream state is %d, a string stream's is %d", int(a->rdstate()), int(b.rdstate())));
        var now = *a;
        check(vh::text(now) == content(), "content", log + "content is " + show(vh::text(now)) + ", should be " + show(content()));
        if (given) check(vh::text(v) == content(), "given", log + "the variable given is " + show(vh::text(v)) + ", should be " + show(content()));
    }
    template<class T> void got(const str& what, const T& x, const T& y, const str& xs, const str& ys) {
        if (!(x == y)) { note(log + what); fail("read", log + what + " gives " + xs + ", a string stream gives " + ys); }
    }
};

template<class T> static void both(Pair& p, const str& what, std::function<T(std::iostream&)> f, std::function<str(const T&)> text)
{
    T x = f(*p.a), y = f(p.b);
    p.got(what, x, y, text(x), text(y));
    p.same(what + " -> " + text(y));
}

static void write(Pair& p)
{
    auto& a = *p.a;
    auto& b = p.b;
    auto go = [&](const str& w, std::function<void(std::iostream&)> f) { f(a); f(b); p.same(w); ev("writes"); };
    switch (rng.upto(12)) {
    case 0: { str s = randBytes(12); go("<< " + show(s), [&](std::iostream& o) { o << s; }); break; }
    case 1: { char c = char(rng.upto(256)); go(fmt("put %d", c), [&](std::iostream& o) { o.put(c); }); break; }
    case 2: { str s = randBytes(rng.chance(1, 10) ? 400 : 20); go("write " + show(s, 60), [&](std::iostream& o) { o.write(s.data(), s.size()); }); break; }
    case 3: { int i = int(rng.next()); go(fmt("<< %d", i), [&](std::iostream& o) { o << i; }); break; }
    case 4: { double x = rng.sym() * std::pow(10.0, rng.in(-12, 12)); go(fmt("<< %.17g", x), [&](std::iostream& o) { o << x; }); break; }
    case 5: { long l = rng.next(); go(fmt("<< %ld", l), [&](std::iostream& o) { o << l; }); break; }
    case 6: { int w = rng.upto(12), n = rng.in(-999, 999); char f = " 0*"[rng.upto(3)]; go(fmt("<< setw(%d) '%c' %d", w, f, n), [&](std::iostream& o) { o << std::setw(w) << std::setfill(f) << n; }); break; }
    case 7: { int n = rng.upto(4096); int k = rng.upto(3); go(fmt("<< base%d %d", k, n), [&](std::iostream& o) { (k == 0 ? o << std::hex : k == 1 ? o << std::oct : o << std::uppercase << std::hex << std::showbase) << n; o << std::dec << std::noshowbase << std::nouppercase; }); break; }
    case 8: { int q = rng.upto(12); double x = rng.sym() * 1000; int k = rng.upto(3); go(fmt("<< precision %d %g", q, x), [&](std::iostream& o) { o << std::setprecision(q) << (k == 0 ? std::fixed : k == 1 ? std::scientific : std::defaultfloat) << x << std::defaultfloat << std::setprecision(6); }); break; }
    case 9: { bool t = rng.chance(1, 2); go(fmt("<< bool %d", t), [&](std::iostream& o) { o << std::boolalpha << t << std::noboolalpha << ' ' << t; }); break; }
    case 10: go("endl flush", [&](std::iostream& o) { o << std::endl << std::flush; }); break;
    default: { str s = randBytes(6); go("<< const char*", [&](std::iostream& o) { o << s.c_str() << 'x' << "y"; }); }
    }
}

static void read(Pair& p)
{
    ev("reads");
    std::function<str(const str&)> ts = [](const str& s) { return show(s, 80); };
    std::function<str(const int&)> ti = [](const int& i) { return std::to_string(i); };
    std::function<str(const double&)> td = [](const double& x) { return fmt("%a", x); };
    switch (rng.upto(13)) {
    case 0: both<int>(p, "get", [](std::iostream& s) { return s.get(); }, ti); break;
    case 1: both<int>(p, "peek", [](std::iostream& s) { return s.peek(); }, ti); break;
    case 2: both<str>(p, ">> word", [](std::iostream& s) { str w; s >> w; return w; }, ts); break;
    case 3: both<int>(p, ">> int", [](std::iostream& s) { int i = 77; s >> i; return i; }, ti); break;
    case 4: both<double>(p, ">> double", [](std::iostream& s) { double x = 77; s >> x; return x; }, td); break;
    case 5: both<int>(p, ">> char", [](std::iostream& s) { char c = 77; s >> c; return int(c); }, ti); break;
    case 6: { char dl = rng.chance(1, 2) ? '\n' : 'a'; both<str>(p, fmt("getline %d", dl), [dl](std::iostream& s) { str l; std::getline(s, l, dl); return l; }, ts); break; }
    case 7: { int n = rng.upto(8); both<str>(p, fmt("read %d", n), [n](std::iostream& s) { char b[8] = {0}; s.read(b, n); return str(b, s.gcount()); }, ts); break; }
    case 8: { int n = rng.upto(5); both<int>(p, fmt("ignore %d", n), [n](std::iostream& s) { s.ignore(n); return int(s.gcount()); }, ti); break; }
    case 9: both<int>(p, "unget", [](std::iostream& s) { s.unget(); return int(s.good()); }, ti); ev("ungets"); break;
    case 10: { int n = p.content().size(), k = rng.chance(1, 6) ? n + rng.in(1, 3) : rng.upto(n + 1); both<int>(p, fmt("seekg %d", k), [k](std::iostream& s) { s.seekg(k); return int(s.good()); }, ti); ev("seeks"); break; }
    case 11: both<long>(p, ">> long", [](std::iostream& s) { long i = 77; s >> i; return i; }, [](const long& l) { return std::to_string(l); }); break;
    default:
        both<str>(p, "all the rest", [](std::iostream& s) { str r; int c; while ((c = s.get()) != EOF) r += char(c); return r; }, ts);
        ev("drained");
    }
    if (p.b.eof()) ev("end_of_file");
    if (!p.b.good() && rng.chance(4, 5)) {
        p.a->clear(); p.b.clear();
        p.log += "clear; ";
    }
}

VH_CASE_W(stream_ops, 4)
{
    Pair p;
    int start = rng.upto(3);
    str s = start ? randBytes(30) : "";
    p.given = start == 2 || (start == 1 && !s.empty());
    if (start) {
        p.v = S(s);
        if (start == 2) p.v.array();
        p.b << s;
        p.log = "given " + show(s) + "; ";
    }
    if (start) p.a.reset(new lu::varstream(p.v)); else p.a.reset(new lu::varstream);
    p.same("constructed");
    int n = rng.in(1, 25);
    str ops;
    for (int i = 0; i < n; i++) {
        if (p.given && rng.chance(1, 12)) {      // the variable itself grows
            char c = char(rng.upto(256));
            p.v.push(c);
            p.b.rdbuf()->sputc(c);
            p.same("push onto the variable");
            ev("outside_growth");
        }
        else if (rng.chance(1, 2)) write(p);
        else read(p);
    }
    distinct(p.log);
    if (rng.chance(1, 50)) sample(p.log.substr(0, 300));
    ev("programs");
}

VH_CASE(stream_bytes)
{
    // every byte in, and out again in all the ways
    str s;
    int rot = rng.upto(256);
    for (int i = 0; i < 256; i++) s += char(i + rot);
    lu::varstream vs;
    for (char c : s) if (rng.chance(1, 2)) vs << c; else vs.put(c);
    note(fmt("all bytes from %d", rot));
    distinct(fmt("%d", rot));
    var v = vs;
    check(vh::text(v) == s, "bytes.content", "after writing all the bytes the content is " + show(vh::text(v), 300));
    for (int i = 0; i < 256; i++) {
        int want = (unsigned char)s[i];
        check(vs.peek() == want, "bytes.peek", fmt("peek at byte %d", want));
        int g = vs.get();
        check(g == want, "bytes.get", fmt("byte %d read as %d", want, g));
        if (rng.chance(1, 4)) { vs.unget(); check(vs.get() == want, "bytes.unget", fmt("byte %d after unget", want)); }
        if (rng.chance(1, 4)) { vs.putback(char(want)); check(vs.get() == want, "bytes.putback", fmt("byte %d after putback", want)); }
    }
    check(vs.get() == EOF && vs.eof(), "bytes.end", "no end of file after the last byte");
    ev("bytes", 256);
}

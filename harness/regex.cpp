// C20: regular expression search, match and replace against a backtracking matcher of our own.
#include "model.h"
#include <lube/regex.h>
#include <memory>
#include <functional>
using namespace vh;
using namespace md;

namespace {
struct Node;
typedef std::shared_ptr<Node> NP;
enum Kind { LIT, ANY, SET, GROUP, NONCAP, BOL, EOL, WORDB, NWORDB, LOOK, NLOOK, ALT, SEQ, REP, BACKREF };
struct Node {
    Kind k;
    char c = 0;
    bool in[256] = {};
    str text;                       // of a set
    std::vector<NP> sub;
    int lo = 0, hi = -1, group = 0;
    bool lazy = false;
};
static int nGroups;
static std::vector<int> closed;     // groups complete and certain to have taken part, for back references
static bool wordc(unsigned char c) { return c < 128 && (isalnum(c) || c == '_'); }
static bool nullable(const NP& n)
{
    switch (n->k) {
    case LIT: case ANY: case SET: return false;
    case GROUP: case NONCAP: return nullable(n->sub[0]);
    case ALT: for (auto& s : n->sub) if (nullable(s)) return true; return false;
    case SEQ: for (auto& s : n->sub) if (!nullable(s)) return false; return true;
    case REP: return n->lo == 0 || nullable(n->sub[0]);
    default: return true;
    }
}
static NP mk(Kind k) { auto n = std::make_shared<Node>(); n->k = k; return n; }
static NP alt(int depth, bool certain);
static NP lit(char c) { NP n = mk(LIT); n->c = c; return n; }
static const char letters[] = "abcAB1_ .-\xe9";
static char letter() { return letters[rng.upto(sizeof(letters) - 1)]; }
static NP set()
{
    NP n = mk(SET);
    int how = rng.upto(6);
    auto all = [&](std::function<bool(unsigned char)> f, const char* t) { for (int i = 1; i < 256; i++) n->in[i] = f(i); n->text = t; };
    switch (how) {
    case 0: all([](unsigned char c) { return c >= '0' && c <= '9'; }, "\\d"); return n;
    case 1: all(wordc, "\\w"); return n;
    case 2: all([](unsigned char c) { return c == ' ' || (c >= 9 && c <= 13); }, "\\s"); return n;
    case 3:
        if (rng.chance(1, 2)) { all([](unsigned char c) { return !wordc(c); }, "\\W"); return n; }
        else { all([](unsigned char c) { return !(c >= '0' && c <= '9'); }, "\\D"); return n; }
    }
    bool neg = rng.chance(1, 3);
    n->text = neg ? "[^" : "[";
    for (int i = rng.in(1, 3); i > 0; i--) {
        if (rng.chance(1, 3)) {
            char a = "aA0"[rng.upto(3)], b = a + rng.upto(4);
            for (int c = a; c <= b; c++) n->in[c] = true;
            n->text += str(1, a) + "-" + b;
        }
        else if (rng.chance(1, 6)) { for (int c = '0'; c <= '9'; c++) n->in[c] = true; n->text += "[:digit:]"; }
        else {
            char c;
            do c = letter(); while (c == '-');
            n->in[(unsigned char)c] = true;
            n->text += c;
        }
    }
    if (neg) for (int i = 1; i < 256; i++) n->in[i] = !n->in[i];
    n->text += "]";
    return n;
}
static NP atom(int depth, bool certain)
{
    int k = rng.upto(depth > 0 ? 12 : 8);
    if (k < 5) return lit(letter());
    if (k < 6) return mk(ANY);
    if (k < 8) return set();
    if (k < 11) {
        NP n = mk(GROUP);
        n->group = ++nGroups;
        int g = n->group;
        n->sub.push_back(alt(depth - 1, certain));
        if (certain) closed.push_back(g);
        return n;
    }
    NP n = mk(NONCAP);
    n->sub.push_back(alt(depth - 1, certain));
    return n;
}
static NP piece(int depth, bool certain)
{
    int a = rng.upto(24);
    if (a == 0) return mk(BOL);
    if (a == 1) return mk(EOL);
    if (a == 2) return mk(rng.chance(1, 2) ? WORDB : NWORDB);
    if (a == 3 && depth > 0) {
        NP n = mk(rng.chance(1, 2) ? LOOK : NLOOK);
        int g = nGroups;
        do { nGroups = g; n->sub = {alt(0, false)}; } while (nGroups != g);
        return n;
    }
    if (a == 4 && closed.size()) { NP n = mk(BACKREF); n->group = closed[rng.upto(closed.size())]; return n; }
    bool rep = rng.chance(2, 5);
    int g0 = nGroups;
    NP n = atom(depth, certain && !rep);
    if (!rep || nullable(n)) return n;
    NP r = mk(REP);
    r->sub.push_back(n);
    switch (rng.upto(5)) {
    case 0: r->lo = 0; r->hi = -1; break;
    case 1: r->lo = 1; r->hi = -1; break;
    case 2: r->lo = 0; r->hi = 1; break;
    case 3: r->lo = r->hi = rng.in(1, 3); break;
    default: r->lo = rng.upto(3); r->hi = rng.chance(1, 2) ? -1 : r->lo + rng.in(1, 2);
    }
    // the engine loses matches of lazy repeats with an upper bound, and keeps groups
    // of abandoned ones (see DESIGN.md)
    r->lazy = nGroups == g0 && (r->hi < 0 || (r->lo == 0 && r->hi == 1)) && rng.chance(1, 3);
    return r;
}
static NP seq(int depth, bool certain)
{
    NP n = mk(SEQ);
    for (int i = rng.in(1, 3); i > 0; i--) n->sub.push_back(piece(depth, certain));
    return n;
}
static NP alt(int depth, bool certain)
{
    int k = rng.chance(1, 3) ? rng.in(2, 3) : 1;
    if (k == 1) return seq(depth, certain);
    NP n = mk(ALT);
    for (int i = 0; i < k; i++) n->sub.push_back(seq(depth, false));
    return n;
}
static str print(const NP& n)
{
    str r;
    switch (n->k) {
    case LIT: return (strchr(".-", n->c) && n->c == '.') ? "\\." : str(1, n->c);
    case ANY: return ".";
    case SET: return n->text;
    case GROUP: return "(" + print(n->sub[0]) + ")";
    case NONCAP: return "(?:" + print(n->sub[0]) + ")";
    case LOOK: return "(?=" + print(n->sub[0]) + ")";
    case NLOOK: return "(?!" + print(n->sub[0]) + ")";
    case BOL: return "^";
    case EOL: return "$";
    case WORDB: return "\\b";
    case NWORDB: return "\\B";
    case BACKREF: return fmt("\\%d", n->group);
    case ALT: for (size_t i = 0; i < n->sub.size(); i++) r += (i ? "|" : "") + print(n->sub[i]); return r;
    case SEQ:
        for (auto& s : n->sub) {
            str p = print(s);
            // a digit after a back reference would become part of it
            if (!r.empty() && isdigit(r.back()) && r.size() > 1 && r[r.size() - 2] == '\\' && isdigit(p[0])) p = "(?:" + p + ")";
            r += p;
        }
        return r;
    case REP:
        r = print(n->sub[0]);
        if (n->hi < 0 && n->lo < 2) r += n->lo ? "+" : "*";
        else if (n->lo == 0 && n->hi == 1) r += "?";
        else if (n->lo == n->hi) r += fmt("{%d}", n->lo);
        else if (n->hi < 0) r += fmt("{%d,}", n->lo);
        else r += fmt("{%d,%d}", n->lo, n->hi);
        return r + (n->lazy ? "?" : "");
    }
    return r;
}

typedef std::vector<std::pair<int, int>> Caps;
struct TooLong {};
struct Matcher {
    const str& s;
    Caps cap;
    long steps = 0;
    typedef std::function<bool(int)> Cont;
    Matcher(const str& s) : s(s) {}
    long limit() { return 30000 + 200L * s.size(); }
    void tick() { if (++steps > limit()) throw TooLong(); }
    bool boundary(int p) { return (p > 0 && wordc(s[p - 1])) != (p < int(s.size()) && wordc(s[p])); }
    bool run(const NP& n, int p, const Cont& k)
    {
        tick();
        int e = s.size();
        switch (n->k) {
        case LIT: return p < e && s[p] == n->c && k(p + 1);
        case ANY: return p < e && k(p + 1);
        case SET: return p < e && n->in[(unsigned char)s[p]] && k(p + 1);
        case BOL: return p == 0 && k(p);
        case EOL: return p == e && k(p);
        case WORDB: return boundary(p) && k(p);
        case NWORDB: return !boundary(p) && k(p);
        case NONCAP: return run(n->sub[0], p, k);
        case LOOK: { Caps c = cap; bool ok = run(n->sub[0], p, [](int) { return true; }); if (!ok) { cap = c; return false; } if (k(p)) return true; cap = c; return false; }
        case NLOOK: { Caps c = cap; bool ok = run(n->sub[0], p, [](int) { return true; }); cap = c; return !ok && k(p); }
        case GROUP:
            return run(n->sub[0], p, [&](int q) {
                auto old = cap[n->group];
                cap[n->group] = {p, q};
                if (k(q)) return true;
                cap[n->group] = old;
                return false;
            });
        case BACKREF: {
            auto c = cap[n->group];
            if (c.first < 0) return false;
            int l = c.second - c.first;
            return s.compare(p, l, s, c.first, l) == 0 && p + l <= e && k(p + l);
        }
        case ALT: for (auto& a : n->sub) if (run(a, p, k)) return true; return false;
        case SEQ: return seq(n, 0, p, k);
        case REP: return rep(n, 0, p, k);
        }
        return false;
    }
    bool seq(const NP& n, size_t i, int p, const Cont& k)
    {
        if (i == n->sub.size()) return k(p);
        return run(n->sub[i], p, [&, i](int q) { return seq(n, i + 1, q, k); });
    }
    bool rep(const NP& n, int done, int p, const Cont& k)
    {
        tick();
        auto more = [&] { return (n->hi < 0 || done < n->hi) && run(n->sub[0], p, [&, done](int q) { return rep(n, done + 1, q, k); }); };
        if (done < n->lo) return more();
        if (n->lazy) return k(p) || more();
        return more() || k(p);
    }
    // leftmost match at or after `from`
    bool search(const NP& re, int from, bool whole, int notEmptyAt)
    {
        for (int p = from; p <= int(s.size()); p++) {
            cap.assign(nGroups + 1, {-1, -1});
            int end = -1;
            if (run(re, p, [&](int q) { if (whole && q != int(s.size())) return false; if (q == notEmptyAt) return false; end = q; return true; })) {
                cap[0] = {p, end};
                return true;
            }
            if (whole) break;
        }
        return false;
    }
    str group(int g) { return g < int(cap.size()) && cap[g].first >= 0 ? s.substr(cap[g].first, cap[g].second - cap[g].first) : str(); }
};

struct Re { NP n; int groups; str text; };
static Re randRe()
{
    nGroups = 0;
    closed.clear();
    Re r;
    r.n = alt(rng.upto(4), true);
    r.groups = nGroups;
    r.text = print(r.n);
    return r;
}
// some string that the expression may well match
static str derive(const NP& n)
{
    str r;
    switch (n->k) {
    case LIT: return str(1, n->c);
    case ANY: return str(1, letter());
    case SET: { for (int i = 0; i < 40; i++) { char c = letter(); if (n->in[(unsigned char)c]) return str(1, c); } return "0"; }
    case GROUP: case NONCAP: return derive(n->sub[0]);
    case ALT: return derive(n->sub[rng.upto(n->sub.size())]);
    case SEQ: for (auto& s : n->sub) r += derive(s); return r;
    case REP: for (int i = rng.in(n->lo, n->hi < 0 ? n->lo + 3 : n->hi); i > 0; i--) r += derive(n->sub[0]); return r;
    default: return "";
    }
}
static str subject(const Re& re)
{
    str s;
    if (rng.chance(1, 100)) {
        int n = rng.chance(1, 4) ? rng.in(1000, 3000) : rng.in(100, 1000);
        while (int(s.size()) < n) { for (int k = rng.chance(1, 10) ? rng.upto(200) : rng.upto(4); k > 0; k--) s += letter(); if (rng.chance(1, 2)) s += derive(re.n); }
        ev("long_subjects");
        return s;
    }
    if (rng.chance(1, 2)) {
        for (int n = rng.in(1, 3); n > 0; n--) { if (rng.chance(1, 4)) s += letter(); s += derive(re.n); if (rng.chance(1, 4)) s += letter(); }
        return s.substr(0, 60);
    }
    bool few = rng.chance(1, 2);
    for (int n = rng.upto(rng.chance(1, 8) ? 40 : 12); n > 0; n--) s += few ? "ab1"[rng.upto(3)] : letter();
    return s;
}
// expected result of search or match: empty = nil
static strs expect(const Re& re, const str& s, bool whole)
{
    nGroups = re.groups;
    Matcher m(s);
    strs r;
    if (m.search(re.n, 0, whole, -1)) for (int g = 0; g <= re.groups; g++) r.push_back(m.group(g));
    return r;
}
struct Piece { int kind; int n; str text; };            // 0 literal, 1 $n, 2 ${n}, 3 $&, 4 $$
static str replaced(const Re& re, const str& s, const std::vector<Piece>& f)
{
    nGroups = re.groups;
    Matcher m(s);
    str out;
    int at = 0, avoid = -1;
    while (m.search(re.n, at, false, avoid)) {
        int b = m.cap[0].first, e = m.cap[0].second;
        out += s.substr(at, b - at);
        for (auto& p : f) out += p.kind == 0 ? p.text : p.kind == 4 ? str("$") : m.group(p.kind == 3 ? 0 : p.n);
        at = e;
        avoid = b == e ? e : -1;
    }
    return out + s.substr(at);
}
static std::vector<Piece> randFormat(const Re& re, str& text)
{
    std::vector<Piece> f;
    for (int n = rng.upto(4); n > 0; n--) {
        Piece p{int(rng.upto(5)), int(rng.in(0, re.groups + 1)), ""};
        if (p.kind == 0) { for (int k = rng.in(1, 4); k > 0; k--) p.text += "xyZ <>-1\xe9"[rng.upto(9)]; if (f.size() && f.back().kind == 1) p.text = "/" + p.text; }
        if (p.kind == 1 && p.n == 0) p.n = 1;
        f.push_back(p);
        text += p.kind == 0 ? p.text : p.kind == 1 ? fmt("$%d", p.n) : p.kind == 2 ? fmt("${%d}", p.n) : p.kind == 3 ? "$&" : "$$";
    }
    return f;
}
static str list(const strs& v) { str r = "["; for (auto& s : v) r += "\"" + show(s) + "\","; return r + "]"; }
static void same(const char* key, const str& d, var r, const strs& want)
{
    if (want.empty()) { check(!r.defined(), key, d + ": gives " + vh::canon(r).substr(0, 300) + " where nothing matches"); return; }
    check(r.defined(), key, d + ": gives nil, should be " + list(want));
    check(r.atype<var>() && r.size() == int(want.size()), key, d + ": gives " + vh::canon(r).substr(0, 300) + ", should be " + list(want));
    for (size_t i = 0; i < want.size(); i++) {
        var e = r[i];
        check(isString(e) && text(e) == want[i], key, d + fmt(": group %d is ", int(i)) + vh::canon(e).substr(0, 200) + ", should be \"" + show(want[i]) + "\"");
    }
}
}

VH_CASE_W(regex_find, 4)
{
    Re re = randRe();
    str s = subject(re);
    bool whole = rng.chance(1, 2);
    strs want;
    try { want = expect(re, s, whole); } catch (TooLong) { ev("skipped"); return; }
    str d = str(whole ? "match" : "search") + " of /" + show(re.text) + "/ in \"" + show(s) + "\"";
    note(d);
    distinct(d);
    if (rng.chance(1, 60)) sample(d);
    var pat = S(re.text), sub = S(s), home, r;
    int how = rng.upto(4);
    if (how == 1) { home.resize(2); home.at(1) = S(s); }
    if (how == 2) home["k"] = S(s);
    mustWork("find.work", d, [&] {
        if (how == 3) {
            if (whole) { lu::Match m(pat); r = m(sub); if (rng.chance(1, 2)) { var o = rng.chance(1, 2) ? var(5) : S("old"); r = m(sub, o); check(vh::canon(o) == vh::canon(r), "find.output", d + ": output differs from result"); } }
            else { lu::Search m(pat); r = m(sub); if (rng.chance(1, 2)) { var o; o[0] = 1; o[1] = "x"; m(sub, o); r = o; } }
        }
        else if (how == 0) r = whole ? sub.match(pat) : sub.search(pat);
        else { var x = how == 1 ? home[1] : home["k"]; r = whole ? x.match(pat) : x.search(pat); }
    });
    same("find.groups", d, r, want);
    check(text(sub) == s && text(pat) == re.text, "find.input", d + ": the subject or expression changed");
    if (how == 1) check(text(home[1]) == s, "find.input", d + ": the element changed");
    if (how == 2) check(text(home["k"]) == s, "find.input", d + ": the value changed");
    ev("finds");
    if (want.size()) ev("found");
    if (want.size() > 1) ev("groups", want.size() - 1);
    if (want.empty()) ev("absent");
}

VH_CASE_W(regex_replace, 4)
{
    Re re = randRe();
    str s = subject(re), ft;
    std::vector<Piece> f = randFormat(re, ft);
    str want;
    try { want = replaced(re, s, f); } catch (TooLong) { ev("skipped"); return; }
    str d = "replace /" + show(re.text) + "/ by \"" + show(ft) + "\" in \"" + show(s) + "\"";
    note(d);
    distinct(d);
    if (rng.chance(1, 60)) sample(d);
    var pat = S(re.text), to = S(ft), sub = S(s), r;
    int how = rng.upto(4);
    if (how == 0) {
        mustWork("replace.work", d, [&] { r = sub.replace(pat, to); });
        check(text(sub) == want, "replace.inplace", d + ": leaves \"" + show(text(sub)) + "\", should be \"" + show(want) + "\"");
        check(text(r) == want, "replace.returned", d + ": returned " + vh::canon(r).substr(0, 300));
    }
    else if (how == 1) {
        var a;
        a.resize(2);
        a.at(0) = S(s);
        var e = a[0];
        mustWork("replace.work", d, [&] { e.replace(pat, to); });
        check(text(a[0]) == want, "replace.element", d + ": the element is now " + vh::canon(a[0]).substr(0, 300) + ", should be \"" + show(want) + "\"");
    }
    else {
        lu::Replace fn(pat, to);
        var o;
        if (rng.chance(1, 2)) o = "old text";
        mustWork("replace.work", d, [&] { if (how == 2) o = fn(sub); else fn(sub, o); });
        check(isString(o) && text(o) == want, "replace.result", d + ": gives " + vh::canon(o).substr(0, 300) + ", should be \"" + show(want) + "\"");
        check(text(sub) == s, "replace.input", d + ": the subject changed");
    }
    check(text(pat) == re.text && text(to) == ft, "replace.arguments", d + ": the expression or format changed");
    ev("replaced");
    if (want != s) ev("substituted");
}

// one object, several subjects and arrays of them
// Take a copy of a functor, or assign it over another, and lose either one.
// (Copying needn't be possible)
template<class T, class M> static void recopy(std::unique_ptr<lu::StringFunctor>& fn, M make)
{
    if constexpr (std::is_copy_constructible_v<T> && std::is_copy_assignable_v<T>) {
        T* f = static_cast<T*>(fn.get());
        std::unique_ptr<lu::StringFunctor> c(rng.chance(1, 2) ? new T(*f) : make());
        static_cast<T&>(*c) = *f;
        ev("functors_copied");
        if (rng.chance(2, 3)) std::swap(c, fn);
    }
}

VH_CASE_W(regex_reuse, 2)
{
    Re re = randRe();
    int kind = rng.upto(3), n = rng.in(1, 4);
    str ft;
    std::vector<Piece> f = randFormat(re, ft);
    strs s;
    std::vector<strs> want;
    strs rep;
    bool map = rng.chance(1, 4), deep = rng.chance(1, 3);
    str d = fmt("reused object %d of /", kind) + show(re.text) + "/ \"" + show(ft) + "\"";
    try {
        for (int i = 0; i < n; i++) {
            s.push_back(subject(re));
            d += " \"" + show(s[i]) + "\"";
            if (kind < 2) want.push_back(expect(re, s[i], kind == 1));
            else rep.push_back(replaced(re, s[i], f));
        }
    } catch (TooLong) { ev("skipped"); return; }
    note(d);
    distinct(d);
    var pat = S(re.text), to = S(ft), a;
    for (int i = 0; i < n; i++)
        if (map) a[fmt("k%d", i).c_str()] = S(s[i]);
        else { if (!i) a.resize(n); a.at(i) = S(s[i]); }
    var in = a;
    if (deep) { in = var(); in.resize(2); in.at(0) = a; in.at(1) = S(s[0]); }
    str before = vh::canon(in);
    std::unique_ptr<lu::StringFunctor> fn;
    mustWork("reuse.work", d, [&] { if (kind == 0) fn.reset(new lu::Search(pat)); else if (kind == 1) fn.reset(new lu::Match(pat)); else fn.reset(new lu::Replace(pat, to)); });
    auto one = [&](const var& r, int i, const char* key) {
        if (kind < 2) same(key, d + fmt(", subject %d", i), r, want[i]);
        else check(isString(r) && text(r) == rep[i], key, d + fmt(", subject %d: gives ", i) + vh::canon(r).substr(0, 200) + ", should be \"" + show(rep[i]) + "\"");
    };
    auto all = [&](var r, const char* key) {
        check(r.size() == n && (map ? r.atype<lu::pair>() : r.atype<var>()), key, d + ": array result is " + vh::canon(r).substr(0, 300));
        for (int i = 0; i < n; i++) { if (map) check(text(r.key(i)) == fmt("k%d", i), key, d + ": keys are wrong"); one(r.at(i), i, key); }
    };
    for (int round = 0; round < 2; round++) {
        if (rng.chance(1, 4)) {
            if (kind == 0) recopy<lu::Search>(fn, [&] { return new lu::Search("other"); });
            else if (kind == 1) recopy<lu::Match>(fn, [&] { return new lu::Match("other"); });
            else recopy<lu::Replace>(fn, [&] { return new lu::Replace("other", to); });
        }
        for (int i = 0; i < n; i++) {
            var r, x = S(s[i]);
            mustWork("reuse.work", d, [&] { r = (*fn)(x); });
            one(r, i, "reuse.single");
        }
        var r;
        mustWork("reuse.work", d, [&] { r = (*fn)(in); });
        if (deep) { check(r.size() == 2, "reuse.shape", d + ": result is " + vh::canon(r).substr(0, 300)); all(r.at(0), "reuse.nested"); one(r.at(1), 0, "reuse.nested"); }
        else all(r, "reuse.array");
        check(vh::canon(in) == before, "reuse.input", d + ": the subjects became " + vh::canon(in).substr(0, 300));
    }
    // in place over the array
    if (kind == 2 && !deep && !map && rng.chance(1, 2)) {
        mustWork("reuse.work", d, [&] { (*fn)(a, a); });
        all(a, "reuse.inplace");
    }
    ev("reused", 2 * n);
    if (deep) ev("nested");
}

VH_CASE(regex_invalid)
{
    static const char* bad[] = {"(", "a(b", "a)", "[a", "[z-a]", "*a", "+", "?x", "a{3,1}", "[[:nosuch:]]", "a\\", "(?<x", "a|*", "(*a)", "(?", "((a)"};
    str p;
    int b = rng.upto(sizeof(bad) / sizeof(*bad));
    if (rng.chance(1, 2) && b < 4) { Re re = randRe(); if (re.text.find('|') == str::npos) p = re.text; }
    p += bad[b];
    str s = "subject (a) text", d = "expression /" + show(p) + "/";
    note(d);
    distinct(d);
    var sub = S(s), pat = S(p);
    int how = rng.upto(6);
    mustThrow("invalid.accepted", d, [&] {
        switch (how) {
        case 0: sub.search(pat); break;
        case 1: sub.match(pat); break;
        case 2: sub.replace(pat, "x"); break;
        case 3: { lu::Search f(pat); f(sub); } break;
        case 4: { lu::Match f(pat); f(sub); } break;
        default: { lu::Replace f(pat, "x"); f(sub); }
        }
    });
    check(text(sub) == s && text(pat) == p, "invalid.changed", d + ": the subject or expression changed");
    if (rng.chance(1, 3)) {
        var n = rng.chance(1, 2) ? var(3) : var(2.5);
        mustThrow("invalid.number", "search of a number", [&] { n.search("a"); });
    }
    ev("rejected");
}

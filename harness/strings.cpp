// C18: split and join.  C19: case, strip, code point length, reading lines.
#include "model.h"
using namespace vh;
using namespace md;

static str noNul(str s) { for (char& c : s) if (!c) c = 'z'; return s; }
static str soup(const str& alphabet, int max) { str s; for (int n = rng.upto(max + 1); n > 0; n--) s += alphabet[rng.upto(alphabet.size())]; return s; }
static str rawBytes(int max) { str s; for (int n = rng.upto(max + 1); n > 0; n--) s += char(rng.upto(256)); return s; }
static bool space(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
static str list(const strs& v) { str r = "["; for (auto& s : v) r += "\"" + show(s) + "\","; return r + "]"; }
/// what an array of strings holds, each element checked to be a string
static strs pieces(const char* key, const str& d, var r)
{
    strs v;
    check(r.defined() ? r.atype<var>() : true, key, d + ": result is not an array of strings but " + vh::canon(r).substr(0, 200));
    for (int i = 0; i < r.size(); i++) {
        var e = r[i];
        check(isString(e), key, d + fmt(": piece %d is ", i) + vh::canon(e).substr(0, 200));
        v.push_back(text(e));
    }
    return v;
}
/// the subject as a variable of its own, an element, a map value, or a shared copy
struct Subject {
    var home, v;
    int how;
    str was;
    Subject(const str& s) : was(s) {
        how = rng.upto(4);
        v = S(s);
        if (how == 1) { home.resize(2); home.at(0) = S(s); home.at(1) = 5; }
        if (how == 2) home["k"] = S(s);
        if (how == 3) { home = v; }
    }
    template<class F> void use(F f) {
        if (how == 1) { var r = home[0]; f(r); }
        else if (how == 2) { var r = home["k"]; f(r); }
        else f(v);
    }
    void unchanged(const char* key, const str& d) {
        use([&](var& x) { check(isString(x) && text(x) == was, key, d + ": the input became " + vh::canon(x).substr(0, 300)); });
    }
};

VH_CASE_W(split_separator, 3)
{
    str sep = noNul(rng.chance(1, 4) ? rawBytes(3) : soup("ab,", 3));
    bool empty = sep.empty();
    str alphabet = sep + (rng.chance(1, 2) ? sep : str()) + "ab,x";
    str s = rng.chance(1, 200) ? soup(alphabet, 20000) : rng.chance(1, 10) ? soup(alphabet, 300) : soup(alphabet, 14);
    if (rng.chance(1, 4)) { s = ""; for (int n = rng.upto(6); n >= 0; n--) s += soup("abx", 3) + (n && !empty ? sep : str()); }
    s = noNul(s);
    int max = rng.chance(1, 2) ? 0 : rng.chance(1, 6) ? rng.in(7, 300) : rng.in(1, 6);
    str d = "split \"" + show(s) + "\" on \"" + show(sep) + fmt("\" at most %d", max);
    note(d);
    distinct(d);
    if (rng.chance(1, 50)) sample(d);
    Subject q(s);
    var r;
    if (empty) {
        mustThrow("split.empty", d, [&] { q.use([&](var& x) { r = x.split("", max); }); });
        q.unchanged("split.input", d);
        ev("rejected");
        return;
    }
    bool dflt = max == 0 && rng.chance(1, 2);
    mustWork("split.work", d, [&] { q.use([&](var& x) { r = dflt ? x.split(sep.c_str()) : x.split(sep.c_str(), max); }); });
    strs want;
    size_t at = 0;
    while (max == 0 || int(want.size()) < max - 1) {
        size_t p = s.find(sep, at);
        if (p == str::npos) break;
        want.push_back(s.substr(at, p - at));
        at = p + sep.size();
    }
    want.push_back(s.substr(at));
    strs got = pieces("split.pieces", d, r);
    check(got == want, "split.pieces", d + ": gives " + list(got) + ", should be " + list(want));
    q.unchanged("split.input", d);
    var back;
    mustWork("split.join", d, [&] { back = r.join(sep.c_str()); });
    check(isString(back) && text(back) == s, "split.joined", d + ", joined again, gives " + vh::canon(back).substr(0, 300));
    check(pieces("split.pieces", d, r) == want, "join.input", d + ": joining changed the pieces");
    // the pieces are strings of their own
    if (r.size() && rng.chance(1, 3)) {
        int k = rng.upto(r.size());
        r[k].push('!');
        want[k] += "!";
        check(pieces("split.own", d, r) == want, "split.own", d + fmt(": growing piece %d disturbed another", k));
        q.unchanged("split.input", d);
    }
    ev("splits");
    if (want.size() > 1) ev("pieces", want.size());
    if (max && int(want.size()) == max) ev("limited");
}

VH_CASE_W(split_space, 1)
{
    str s = noNul(rng.chance(1, 4) ? rawBytes(30) : soup("ab  \t\n\v\f\rc\xff\xa0", rng.chance(1, 150) ? 10000 : rng.chance(1, 8) ? 200 : 16));
    int max = rng.chance(1, 2) ? 0 : rng.chance(1, 6) ? rng.in(7, 300) : rng.in(1, 6);
    str d = "split \"" + show(s) + "\" on white space" + fmt(" at most %d", max);
    note(d);
    distinct(d);
    Subject q(s);
    var r;
    mustWork("words.work", d, [&] { q.use([&](var& x) { r = max || rng.chance(1, 8) ? x.split(max) : x.split(); }); });
    strs want;
    str w;
    for (size_t i = 0; i <= s.size(); i++)
        if (max && int(want.size()) == max - 1 && w.empty() && i < s.size() && !space(s[i])) { want.push_back(s.substr(i)); ev("words_rest"); break; }
        else if (i == s.size() || space(s[i])) { if (!w.empty()) want.push_back(w); w = ""; }
        else w += s[i];
    strs got = r.defined() ? pieces("words.pieces", d, r) : strs();
    check(got == want, "words.pieces", d + ": gives " + list(got) + ", should be " + list(want));
    q.unchanged("words.input", d);
    ev("words", want.size());
}

VH_CASE_W(join_pieces, 1)
{
    int n = rng.in(1, rng.chance(1, 10) ? 60 : 6);
    strs p;
    var v;
    bool raw = rng.chance(1, 3);
    for (int i = 0; i < n; i++) { p.push_back(raw ? rawBytes(8) : soup("ab ,", 5)); v.push(S(p[i])); }
    str sep = noNul(rng.chance(1, 3) ? rawBytes(3) : soup(", -", 3));
    str d = "join " + list(p).substr(0, 600) + " with \"" + show(sep) + "\"";
    note(d);
    distinct(d);
    str before = vh::canon(v), want;
    for (int i = 0; i < n; i++) want += (i ? sep : str()) + p[i];
    var r;
    mustWork("join.work", d, [&] { r = v.join(sep.c_str()); });
    check(isString(r) && text(r) == want, "join.result", d + ": gives " + vh::canon(r).substr(0, 300));
    r.push('!');
    check(vh::canon(v) == before, "join.input", d + ": the pieces became " + vh::canon(v).substr(0, 300));
    ev("joins");
}

// ---- case and strip ------------------------------------------------------------
enum { UP, LOW, STRIP };
static str applied(int f, const str& s)
{
    str r = s;
    if (f == UP) { for (char& c : r) if (c >= 'a' && c <= 'z') c -= 32; }
    else if (f == LOW) { for (char& c : r) if (c >= 'A' && c <= 'Z') c += 32; }
    else {
        size_t a = 0, b = r.size();
        while (a < b && space(r[a])) a++;
        while (b > a && space(r[b - 1])) b--;
        r = r.substr(a, b - a);
    }
    return r;
}
static MV applied(int f, const MV& m)
{
    if (m.o->type == TYPE_CHAR) return MV(strObj(applied(f, bytes(m.o))));
    OP o = newObj(m.o->type);
    o->key = m.o->key;
    for (auto& e : m.o->v) o->v.push_back(applied(f, e));
    return MV(o);
}
static MV nested(int depth, bool& any)
{
    if (depth == 0 || rng.chance(1, 3)) {
        any = true;
        str s = rng.chance(1, 3) ? rawBytes(12) : rng.chance(1, 2) ? soup("aZ \t\n.\v", 8) : soup(" ", 3) + soup("abYZ{[@`\xe9", 8) + soup(" \r", 3);
        if (rng.chance(1, 30)) s = str(rng.in(60, 300), ' ') + s;
        if (rng.chance(1, 300)) s = soup(" \t\n", rng.chance(1, 2) ? 3000 : 2) + str(1 << rng.in(8, 16), 'q') + soup("abYZ{[@` \xe9", 70000) + soup(" \r", rng.chance(1, 2) ? 3000 : 2);
        return MV(strObj(s));
    }
    OP o = newObj(rng.chance(1, 4) ? TYPE_PAIR : TYPE_VAR);
    int n = rng.in(1, 4);
    for (int i = 0; i < n; i++) {
        if (o->type == TYPE_PAIR) o->key.push_back(MV(strObj(fmt("Key %d ", i))));
        o->v.push_back(nested(depth - 1, any));
    }
    return MV(o);
}

VH_CASE_W(text_case, 4)
{
    static const char* nm[] = {"toupper", "tolower", "strip"};
    int f = rng.upto(3);
    bool any = false;
    MV m = nested(rng.upto(4), any);
    var v = build(m);
    str d = str(nm[f]) + " of " + canon(m).substr(0, 600);
    note(d);
    distinct(d);
    if (rng.chance(1, 60)) sample(d.substr(0, 300));
    str before = canon(m), want = canon(applied(f, m));
    int mode = rng.upto(3);
    auto fn = [&](const var& x) { return f == UP ? lu::toupper(x) : f == LOW ? lu::tolower(x) : lu::strip(x); };
    if (mode == 0) {
        var r;
        mustWork("case.out", d, [&] { r = fn(v); });
        check(vh::canon(r) == want, "case.result", d + ": gives " + vh::canon(r).substr(0, 400) + ", should be " + want.substr(0, 400));
        check(vh::canon(v) == before, "case.input", d + ": the input became " + vh::canon(v).substr(0, 400));
        ev("out_of_place");
    }
    else {
        var alias = v;
        var r;
        if (mode == 1) mustWork("case.in", d, [&] { r = f == UP ? v.toupper() : f == LOW ? v.tolower() : v.strip(); });
        else mustWork("case.in", d, [&] { if (f == UP) lu::toupper(v, v); else if (f == LOW) lu::tolower(v, v); else lu::strip(v, v); });
        check(vh::canon(v) == want, "case.inplace", d + ": leaves " + vh::canon(v).substr(0, 400) + ", should be " + want.substr(0, 400));
        check(vh::canon(alias) == want, "case.alias", d + ": another name for it holds " + vh::canon(alias).substr(0, 400));
        if (mode == 1) check(vh::canon(r) == want, "case.returned", d + ": returned " + vh::canon(r).substr(0, 400));
        ev("in_place");
    }
    if (m.o->type != TYPE_CHAR) ev("nested");
}

// a window on part of an array of characters
VH_CASE(text_view)
{
    int f = rng.upto(3);
    str s = noNul(rng.chance(1, 2) ? soup("aZ \t.Qz", 16) : soup(" ", 3) + soup("abYZ{[@`\xe9", 8) + soup(" \r", 3)) + "x";
    int n = s.size(), len = rng.in(1, n), off = rng.upto(n - len + 1);
    var a = S(s);
    var v = a.view({len}, off);
    str part = s.substr(off, len), want = applied(f, part);
    str d = fmt("string function %d of the view of %d at %d of \"", f, len, off) + show(s) + "\"";
    note(d);
    distinct(d);
    auto whole = [&](const str& w) { return s.substr(0, off) + w + s.substr(off + len); };
    auto is = [&](const char* what, const str& w) {
        check(text(a) == whole(w), "caseview.array", d + ", " + what + ": the array holds \"" + show(text(a)) + "\", should be \"" + show(whole(w)) + "\"");
        check(v.view() && v.size() == len && v.offset() == off, "caseview.view", d + ", " + what + ": the view changed");
        for (int i = 0; i < len; i++) check(v.at(i).get<char>() == w[i], "caseview.view", d + ", " + what + fmt(": element %d of the view", i));
    };
    auto fn = [&](const var& x) { return f == UP ? lu::toupper(x) : f == LOW ? lu::tolower(x) : lu::strip(x); };
    if (rng.chance(1, 2)) {
        var r;
        mustWork("caseview.out", d, [&] { r = fn(v); });
        str got;
        for (int i = 0; i < r.size(); i++) got += r.at(i).get<char>();
        check(got == want, "caseview.result", d + ": gives \"" + show(got) + "\"");
        is("out of place", part);
        ev("view_out");
    }
    else if (want.size() != part.size()) {
        mustThrow("caseview.reject", d, [&] { if (rng.chance(1, 2)) v.strip(); else lu::strip(v, v); });
        is("rejected", part);
        ev("view_rejected");
    }
    else {
        mustWork("caseview.in", d, [&] { if (rng.chance(1, 2)) { if (f == UP) v.toupper(); else if (f == LOW) v.tolower(); else v.strip(); } else if (f == UP) lu::toupper(v, v); else if (f == LOW) lu::tolower(v, v); else lu::strip(v, v); });
        is("in place", want);
        ev("view_in");
    }
}

VH_CASE(text_reject)
{
    int f = rng.upto(3);
    MV m;
    do m = randVal(1); while (m.k == MV::NIL || (m.k == MV::NUM && m.n.t == TYPE_CHAR) || (m.k == MV::OBJ && (m.o->type == TYPE_CHAR || !m.o->dense())));
    var v = build(m);
    str d = fmt("string function %d of ", f) + canon(m).substr(0, 300), before = vh::canon(v);
    note(d);
    distinct(d);
    auto fn = [&](const var& x) { return f == UP ? lu::toupper(x) : f == LOW ? lu::tolower(x) : lu::strip(x); };
    mustThrow("case.reject", d, [&] { if (rng.chance(1, 2)) fn(v); else if (f == UP) v.toupper(); else if (f == LOW) v.tolower(); else v.strip(); });
    check(vh::canon(v) == before, "case.rejectchanged", d + ": became " + vh::canon(v).substr(0, 300));
    ev("rejected");
}

// the length of anything else is its number of elements
VH_CASE(text_lengthother)
{
    MV m;
    do m = randVal(2); while (m.k == MV::NIL || (m.k == MV::NUM && m.n.t == TYPE_CHAR) || (m.k == MV::OBJ && m.o->type == TYPE_CHAR));
    var v = build(m);
    str d = "length of " + canon(m).substr(0, 300), before = vh::canon(v);
    note(d);
    distinct(d);
    int want = m.k == MV::NUM ? 1 : m.o->size(), l = -2;
    mustWork("len.work", d, [&] { l = v.len(); });
    check(l == want, "len.other", d + fmt(" is %d, should be %d", l, want));
    check(vh::canon(v) == before, "len.input", d + ": the value changed");
    ev("other_lengths");
}

// ---- length ------------------------------------------------------------------------
VH_CASE_W(text_length, 3)
{
    str s;
    int n = rng.chance(1, 100) ? rng.in(100, 20000) : rng.upto(rng.chance(1, 8) ? 60 : 10);
    auto cont = [&] { return char(0x80 | rng.upto(64)); };
    for (int i = 0; i < n; i++) switch (rng.upto(4)) {
        case 0: s += char(rng.upto(128)); break;
        case 1: s += char(rng.in(0xc2, 0xdf)); s += cont(); break;
        case 2: { int a = rng.in(0xe0, 0xef); s += char(a); s += a == 0xe0 ? char(rng.in(0xa0, 0xbf)) : a == 0xed ? char(rng.in(0x80, 0x9f)) : cont(); s += cont(); break; }
        default: { int a = rng.in(0xf0, 0xf4); s += char(a); s += a == 0xf0 ? char(rng.in(0x90, 0xbf)) : a == 0xf4 ? char(rng.in(0x80, 0x8f)) : cont(); s += cont(); s += cont(); }
    }
    int want = n;
    bool bad = rng.chance(1, 3);
    if (bad) {
        // structurally broken: a stray continuation, an impossible lead, or a sequence cut short
        int k = rng.upto(6);
        std::vector<size_t> starts, conts;
        for (size_t i = 0; i < s.size(); i++) if ((s[i] & 0xc0) == 0x80) conts.push_back(i);
        for (size_t i = 0; i <= s.size(); i++) if (i == s.size() || (s[i] & 0xc0) != 0x80) starts.push_back(i);
        size_t at = starts[rng.upto(starts.size())];
        // one byte of a sequence replaced by one that is not of it, or left out
        if (k > 3 && conts.size()) {
            size_t c = conts[rng.upto(conts.size())];
            if (k == 4) s[c] = rng.chance(2, 3) ? char(rng.upto(128)) : char(rng.in(0xc0, 0xff));
            else s.erase(c, 1);
        }
        else if (k == 0) { if (at == s.size() || rng.chance(1, 2)) at = starts.back(); s.insert(at, 1, cont()); }
        else if (k == 1) { str w(1, char(rng.in(0xf8, 0xff))); for (int j = rng.upto(6); j > 0; j--) w += cont(); s.insert(at, w); }
        else if (k == 2) { s += char(rng.in(0xc2, 0xf4)); if ((s.back() & 0xf0) == 0xf0) { if (rng.chance(1, 2)) s += cont(); if (rng.chance(1, 2)) s += cont(); } else if ((s.back() & 0xe0) == 0xe0 && rng.chance(1, 2)) s += cont(); }
        else s.insert(at, str(1, char(rng.in(0xe1, 0xec))) + cont() + "A");
        want = -1;
        if (k == 0 && at && (s[at - 1] & 0x80)) { /* still one too many */ }
        ev("malformed");
    }
    str d = "length of \"" + show(s) + "\"";
    note(d);
    distinct(d);
    var v = S(s);
    if (!s.empty() && rng.chance(1, 5)) {
        // part of something longer: what follows is no part of it
        str lead, trail;
        for (int j = rng.upto(4); j > 0; j--) lead += rng.chance(1, 2) ? cont() : 'a';
        for (int j = rng.upto(4); j > 0; j--) trail += rng.chance(2, 3) ? cont() : 'z';
        var base = S(lead + s + trail), w = base.view({int(s.size())}, int(lead.size()));
        int l = -2;
        mustWork("len.work", d, [&] { l = w.len(); });
        check(l < 0 ? want < 0 : l == want, "len.view", d + fmt(" (in a view at %d) is %d, should be %d", int(lead.size()), l, want));
        check(text(base) == lead + s + trail, "len.input", d + ": the string changed");
        ev("lengths_of_views");
    }
    if (rng.chance(1, 3)) { v = var(); v.resize(1); v.at(0) = S(s); var r = v[0]; int l = -2; mustWork("len.work", d, [&] { l = r.len(); }); check(l < 0 ? want < 0 : l == want, "len.value", d + fmt(" is %d, should be %d", l, want)); }
    else { int l = -2; mustWork("len.work", d, [&] { l = v.len(); }); check(l < 0 ? want < 0 : l == want, "len.value", d + fmt(" is %d, should be %d", l, want)); check(text(v) == s, "len.input", d + ": the string changed"); }
    ev("lengths");
}

// ---- lines -------------------------------------------------------------------------
VH_CASE_W(text_lines, 3)
{
    int n = rng.chance(1, 150) ? rng.in(50, 3000) : rng.upto(8);
    strs lines;
    for (int i = 0; i < n; i++) {
        str l = rng.chance(1, 4) ? "" : rng.chance(1, 6) ? str(rng.in(60, 66), 'x') + rawBytes(4) : rng.chance(1, 12) ? str(rng.in(100, 5000), char(rng.in('a', 'z'))) : rng.chance(1, 3) ? rawBytes(20) : soup("ab \r\t", 10);
        if (rng.chance(1, 10)) l = str((1 << rng.in(5, 10)) - rng.in(-1, 2), 'y');
        if (rng.chance(1, 300)) l = str((1 << rng.in(11, rng.chance(1, 4) ? 20 : 17)) - rng.in(-2, 3), char(rng.in('a', 'z'))) + rawBytes(3);
        for (char& c : l) if (c == '\n') c = ' ';
        lines.push_back(l);
    }
    str all;
    for (int i = 0; i < n; i++) all += (i ? "\n" : "") + lines[i];
    bool final = rng.chance(1, 2) || (n && lines.back().empty());    // an empty last line only exists with its newline
    if (n && final) all += "\n";
    str d = fmt("%d lines, %s newline at the end: ", n, final ? "a" : "no") + show(all, 600);
    note(d);
    distinct(all + (final ? "1" : "0"));
    std::istringstream ss(all);
    lu::varstream vs(S(all));
    std::istream& is = rng.chance(1, 2) ? (std::istream&)ss : vs;
    var v;
    bool reuse = rng.chance(1, 2);
    int i = 0;
    if (rng.chance(1, 4)) v = 3.5;
    while (true) {
        var w;
        var& t = reuse ? v : w;
        bool more = false;
        mustWork("lines.read", d, [&] { more = t.getline(is).defined(); });
        if (!more) { check(!t.defined(), "lines.end", d + ": not nil at the end"); break; }
        check(i < n, "lines.extra", d + fmt(": line %d read after the end: ", i + 1) + vh::canon(t).substr(0, 200));
        check(isString(t) && text(t) == lines[i], "lines.text", d + fmt(": line %d read as ", i + 1) + vh::canon(t).substr(0, 300));
        check(t.str()[lines[i].size()] == 0, "lines.terminated", d + fmt(": line %d is not terminated", i + 1));
        i++;
    }
    check(i == n, "lines.count", d + fmt(": %d lines were read", i));
    ev("lines", n);
    if (n && !final) ev("no_final_newline");
}

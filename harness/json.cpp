// C15: values survive being written as text and read back.
// C16: the reader accepts every valid document with its meaning, rejects cut
// short ones, and survives anything.
#include "model.h"
#include <iomanip>
using namespace vh;
using namespace md;

/// an array as the reader builds it
static MV readArray(const std::vector<MV>& e)
{
    if (e.empty()) return MV();
    bool dense = true;
    for (auto& x : e) dense = dense && x.k == MV::NUM && x.n.t == e[0].n.t;
    if (dense && e.size() == 1) return e[0];
    OP o = newObj(dense ? e[0].n.t : int(TYPE_VAR));
    for (auto& x : e) if (dense) o->d.push_back(x.n); else o->v.push_back(x);
    return MV(o);
}
/// a number as the reader takes it
static MV readNumber(const str& s)
{
    char* end;
    errno = 0;
    long l = strtol(s.c_str(), &end, 10);
    if (!*end && !errno) return MV(mkInt(TYPE_LONG, l));
    return MV(mkFlt(TYPE_DOUBLE, strtod(s.c_str(), nullptr)));
}
/// what a value should read back as when written with this precision
static MV readBack(const MV& m, int prec)
{
    if (m.k == MV::NIL) return m;
    if (m.k == MV::NUM) {
        if (isInt(m.n.t)) return MV(mkInt(TYPE_LONG, m.n.l));
        std::ostringstream os;
        os << std::setprecision(prec);
        if (m.n.t == TYPE_FLOAT) os << float(m.n.re); else os << m.n.re;
        return readNumber(os.str());
    }
    if (m.o->type == TYPE_CHAR) return m;
    if (m.o->type == TYPE_PAIR) {
        OP o = newObj(TYPE_PAIR);
        for (int i = 0; i < m.o->size(); i++) { o->key.push_back(m.o->key[i]); o->v.push_back(readBack(m.o->v[i], prec)); }
        return MV(o);
    }
    std::vector<MV> e;
    for (int i = 0; i < m.o->size(); i++) e.push_back(readBack(elemVal(m.o, i), prec));
    return readArray(e);
}
static str randText()
{
    static const std::vector<str> sp = {"", "\"", "\\", "\\\"", "a\"b", "\\n", "\n", "{", "}]", ":", ",", "null", "true", "12", "'", "\t x ", "\xff", "\xc3\xa9", "/", "\\u0041"};
    int n = rng.upto(4);
    str s;
    for (int i = 0; i < n; i++)
        if (rng.chance(1, 2)) s += rng.pick(sp);
        else for (int k = rng.upto(6); k > 0; k--) s += rng.chance(1, 2) ? char(rng.in('a', 'f')) : char(rng.in(1, 255));
    if (rng.chance(1, 60)) s += str(rng.chance(1, 10) ? (1 << rng.in(12, 16)) + rng.in(-3, 3) : rng.in(100, 3000), char(rng.in(1, 255)));
    return s;
}
static Num randNumber(int t)
{
    if (isInt(t)) {
        static const std::vector<long> sp = {0, 1, -1, 10, 2147483647, -2147483648l, 9223372036854775807l, -9223372036854775807l - 1, 1000000};
        long x = rng.chance(1, 2) ? rng.pick(sp) : long(rng.next() >> rng.upto(64));
        return mkInt(t, t == TYPE_INT ? int(x) : x);
    }
    static const std::vector<double> sp = {0, 1, -1, 0.5, -2.25, 1e6, 1e15, 1e16, 123456, 1234567, 1e30, -1e-30, 0.1, 3};
    if (rng.chance(1, 2)) return mkFlt(t, rng.pick(sp));
    return mkFlt(t, rng.sym() * std::pow(10, rng.in(-30, 30)));
}
static const int numTypes[] = {TYPE_INT, TYPE_LONG, TYPE_FLOAT, TYPE_DOUBLE};
static MV randJson(int depth)
{
    int k = rng.upto(depth > 0 ? 11 : 7);
    if (k == 0) return MV();
    if (k <= 2) return MV(randNumber(numTypes[rng.upto(4)]));
    if (k <= 4) return MV(strObj(randText()));
    if (k <= 6) {
        OP o = newObj(numTypes[rng.upto(4)]);
        for (int n = rng.chance(1, 10) ? rng.in(5, 40) : rng.upto(5); n > 0; n--) o->d.push_back(randNumber(o->type));
        return MV(o);
    }
    if (k <= 8) {
        OP o = newObj(TYPE_VAR);
        for (int n = rng.upto(5); n > 0; n--) o->v.push_back(randJson(depth - 1));
        return MV(o);
    }
    OP o = newObj(TYPE_PAIR);
    for (int n = rng.upto(5); n > 0; n--) {
        MV key(strObj(rng.chance(1, 2) ? fmt("k%d", rng.upto(9)) : randText()));
        bool f;
        int p = find(o, key, f);
        if (f) continue;
        o->key.insert(o->key.begin() + p, key);
        o->v.insert(o->v.begin() + p, randJson(depth - 1));
    }
    return MV(o);
}
static MV chain(int depth)
{
    MV m = randJson(0);
    for (int i = 0; i < depth; i++) {
        OP o = newObj(rng.chance(1, 2) ? TYPE_VAR : TYPE_PAIR);
        if (o->type == TYPE_PAIR) o->key.push_back(MV(strObj("k")));
        o->v.push_back(m);
        if (o->type == TYPE_VAR && rng.chance(1, 4)) o->v.push_back(MV(mkInt(TYPE_INT, 1)));
        m = MV(o);
    }
    return m;
}

// many elements or entries
static MV wide()
{
    int kind = rng.upto(3), n = rng.chance(1, 4) ? rng.in(1000, 5000) : rng.in(50, 1000);
    OP o = newObj(kind == 0 ? TYPE_VAR : kind == 1 ? int(TYPE_PAIR) : rng.chance(1, 2) ? TYPE_LONG : TYPE_DOUBLE);
    for (int i = 0; i < n; i++) {
        if (kind == 2) o->d.push_back(randNumber(o->type));
        else if (kind == 0) o->v.push_back(randJson(rng.chance(1, 10) ? 2 : 0));
        else {
            MV k(strObj(fmt("%d", rng.upto(100000))));
            bool f;
            int p = find(o, k, f);
            if (f) continue;
            o->key.insert(o->key.begin() + p, k);
            o->v.insert(o->v.begin() + p, randJson(rng.chance(1, 10) ? 1 : 0));
        }
    }
    return MV(o);
}

VH_CASE_W(json_roundtrip, 3)
{
    MV m = rng.chance(1, 150) ? wide() : rng.chance(1, 12) ? chain(rng.in(5, 100)) : randJson(rng.in(0, 4));
    int prec = rng.chance(1, 2) ? 6 : rng.in(1, 17);
    var v = build(m);
    str d = fmt("precision %d, ", prec) + canon(m);
    note(d);
    distinct(d);
    if (rng.chance(1, 40)) sample(d.substr(0, 300));
    str want = canon(readBack(m, prec)), before = vh::canon(v);
    str t;
    var back;
    int how = rng.upto(3);
    if (how == 2) {
        lu::varstream vs;
        vs << std::setprecision(prec);
        mustWork("roundtrip.write", d, [&] { vs << v; });
        t = vh::text(var(vs));
        mustWork("roundtrip.read", d + " as " + show(t), [&] { vs >> back; });
    }
    else {
        std::ostringstream os;
        os << std::setprecision(prec);
        mustWork("roundtrip.write", d, [&] { os << v; });
        t = os.str();
        if (how) { std::istringstream is(t); mustWork("roundtrip.read", d + " as " + show(t), [&] { is >> back; }); }
        else { std::stringstream is; is << t << "\n\n"; mustWork("roundtrip.read", d + " as " + show(t), [&] { is >> back; }); }
    }
    str got = vh::canon(back);
    check(got == want, "roundtrip.value", d + " written as " + show(t, 400) + " read back as " + got.substr(0, 400) + ", should be " + want.substr(0, 400));
    check(vh::canon(v) == before, "roundtrip.source", d + ": writing changed the value");
    // once read, a value is stable
    if (rng.chance(1, 3)) {
        std::ostringstream o2;
        o2 << std::setprecision(17) << back;
        std::istringstream i2(o2.str());
        var again;
        mustWork("roundtrip.stable", d, [&] { i2 >> again; });
        MV rb = readBack(m, prec);
        check(vh::canon(again) == canon(readBack(rb, 17)), "roundtrip.stable", d + ": a second trip gives " + vh::canon(again).substr(0, 400));
    }
    ev("round_trips");
    if (depthOf(m) > 20) ev("deep");
}

// ---- documents ---------------------------------------------------------------
struct Doc { str t; MV m; };
static str ws(int style)
{
    if (style == 0) return "";
    if (style == 1) return rng.chance(1, 3) ? " " : "";
    str s;
    for (int n = rng.upto(4); n > 0; n--) s += " \n\t\r"[rng.upto(4)];
    return s;
}
static str utf8(unsigned c)
{
    str s;
    if (c < 0x80) s += char(c);
    else if (c < 0x800) { s += char(0xc0 | c >> 6); s += char(0x80 | (c & 63)); }
    else if (c < 0x10000) { s += char(0xe0 | c >> 12); s += char(0x80 | (c >> 6 & 63)); s += char(0x80 | (c & 63)); }
    else { s += char(0xf0 | c >> 18); s += char(0x80 | (c >> 12 & 63)); s += char(0x80 | (c >> 6 & 63)); s += char(0x80 | (c & 63)); }
    return s;
}
static str hex4(unsigned c) { str s; for (int i = 3; i >= 0; i--) { const char* h = rng.chance(1, 2) ? "0123456789abcdef" : "0123456789ABCDEF"; s += h[c >> 4 * i & 15]; } return s; }   // (indexing the conditional itself is miscompiled by gcc 13 with sanitizers)
static Doc stringDoc()
{
    Doc d;
    str val;
    d.t = "\"";
    for (int n = rng.upto(rng.chance(1, 8) ? 40 : 7); n > 0; n--) switch (rng.upto(4)) {
        case 0: { char c = rng.in(0x20, 0x7e); if (c == '"' || c == '\\') c = '.'; d.t += c; val += c; break; }
        case 1: {
            int k = rng.upto(8);
            d.t += '\\'; d.t += "\"\\/bfnrt"[k]; val += "\"\\/\b\f\n\r\t"[k];
            break;
        }
        case 2: {
            static const std::vector<unsigned> edge = {1, 0x1f, 0x7f, 0x80, 0xff, 0x100, 0x7ff, 0x800, 0x801, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xfeff, 0xfffe, 0xffff, 0x10000, 0x10001, 0x103ff, 0x10400, 0x1ffff, 0x20000, 0x2ffff, 0x30000, 0xfffff, 0x100000, 0x10ffff};
            unsigned c = rng.chance(1, 3) ? rng.pick(edge) : rng.chance(1, 3) ? rng.in(1, 0x7f) : rng.chance(1, 2) ? rng.in(0x80, 0x7ff) : rng.chance(1, 2) ? rng.in(0x800, 0xd7ff) : rng.in(0xe000, 0xffff);
            if (c >= 0x10000 || rng.chance(1, 4)) {
                if (c < 0x10000) c = rng.in(0x10000, 0x10ffff);
                d.t += "\\u" + hex4(0xd800 + ((c - 0x10000) >> 10)) + "\\u" + hex4(0xdc00 + ((c - 0x10000) & 1023));
            }
            else d.t += "\\u" + hex4(c);
            val += utf8(c);
            ev("unicode_escapes");
            break;
        }
        default: { str u = utf8(rng.chance(1, 2) ? rng.in(0x80, 0x7ff) : rng.in(0x10000, 0x10ffff)); d.t += u; val += u; }
    }
    d.t += "\"";
    d.m = MV(strObj(val));
    return d;
}
static Doc numberDoc()
{
    str t = rng.chance(1, 3) ? "-" : "";
    t += rng.chance(1, 3) ? "0" : std::to_string(rng.chance(1, 10) ? long(rng.next() >> 1) : long(rng.next() >> rng.in(1, 63)));
    if (rng.chance(1, 20)) t += "00000000";
    if (rng.chance(1, 3)) { t += "."; for (int n = rng.chance(1, 10) ? rng.in(15, 60) : rng.in(1, 6); n > 0; n--) t += char('0' + rng.upto(10)); }
    if (rng.chance(1, 4)) { t += rng.chance(1, 2) ? "e" : "E"; if (rng.chance(2, 3)) t += rng.chance(1, 2) ? "+" : "-"; t += std::to_string(rng.in(0, rng.chance(1, 4) ? 250 : 20)); }
    return {t, readNumber(t)};
}
static Doc randDoc(int depth, int style)
{
    switch (rng.upto(depth > 0 ? 8 : 5)) {
    case 0: return numberDoc();
    case 1: return stringDoc();
    case 2: return rng.chance(1, 2) ? Doc{"true", MV(mkInt(TYPE_INT, 1))} : Doc{"false", MV(mkInt(TYPE_INT, 0))};
    case 3: return {"null", MV()};
    case 4: return numberDoc();
    case 5: case 6: {
        Doc d;
        std::vector<MV> e;
        d.t = "[" + ws(style);
        for (int n = rng.upto(5), i = 0; i < n; i++) {
            Doc x = randDoc(depth - 1, style);
            if (i) d.t += "," + ws(style);
            d.t += x.t + ws(style);
            e.push_back(x.m);
        }
        d.t += "]";
        d.m = readArray(e);
        return d;
    }
    default: {
        Doc d;
        OP o = newObj(TYPE_PAIR);
        d.t = "{" + ws(style);
        for (int n = rng.upto(5), i = 0; i < n; i++) {
            Doc k = rng.chance(1, 2) ? stringDoc() : Doc{"\"k" + std::to_string(i) + "\"", MV(strObj("k" + std::to_string(i)))};
            Doc x = randDoc(depth - 1, style);
            if (i) d.t += "," + ws(style);
            d.t += k.t + ws(style) + ":" + ws(style) + x.t + ws(style);
            bool f;
            int p = find(o, k.m, f);
            if (f) o->v[p] = x.m;
            else { o->key.insert(o->key.begin() + p, k.m); o->v.insert(o->v.begin() + p, x.m); }
        }
        d.t += "}";
        d.m = MV(o);
        return d;
    }
    }
}
// many elements or entries, keys that come again
static Doc wideDoc(int style)
{
    int n = rng.chance(1, 4) ? rng.in(1000, 6000) : rng.in(50, 1500);
    bool obj = rng.chance(1, 3);
    int kind = rng.upto(3);
    Doc d;
    std::vector<MV> e;
    OP o = newObj(TYPE_PAIR);
    d.t = obj ? "{" : "[";
    for (int i = 0; i < n; i++) {
        Doc x = kind == 0 ? numberDoc() : kind == 1 ? stringDoc() : randDoc(rng.chance(1, 10), style);
        if (i) d.t += "," + ws(style);
        if (obj) {
            str k = fmt("%d", rng.upto(4000));
            MV km(strObj(k));
            bool f;
            int p = find(o, km, f);
            if (f) o->v[p] = x.m;
            else { o->key.insert(o->key.begin() + p, km); o->v.insert(o->v.begin() + p, x.m); }
            d.t += "\"" + k + "\":";
        }
        else e.push_back(x.m);
        d.t += x.t;
    }
    d.t += obj ? "}" : "]";
    d.m = obj ? MV(o) : readArray(e);
    ev("wide");
    return d;
}
static Doc someDoc()
{
    int style = rng.upto(3);
    if (rng.chance(1, 150)) return wideDoc(style);
    if (!rng.chance(1, 12)) return randDoc(rng.in(0, 4), style);
    // up to 64 levels
    int base = rng.upto(2);
    Doc d = randDoc(base, style);
    int n = rng.chance(1, 4) ? 64 - base : rng.in(5, 64 - base);
    for (int i = 0; i < n; i++) {
        if (rng.chance(1, 2)) { d.t = "[" + ws(style) + d.t + ws(style) + "]"; d.m = readArray({d.m}); }
        else { OP o = newObj(TYPE_PAIR); o->key.push_back(MV(strObj("k"))); o->v.push_back(d.m); d.t = "{" + ws(style) + "\"k\"" + ws(style) + ":" + ws(style) + d.t + ws(style) + "}"; d.m = MV(o); }
    }
    ev("deep");
    return d;
}

VH_CASE_W(jsonread_valid, 3)
{
    int n = rng.chance(2, 3) ? 1 : rng.chance(1, 60) ? rng.in(20, 150) : rng.in(2, 5);
    std::vector<Doc> docs;
    str all;
    for (int i = 0; i < n; i++) {
        docs.push_back(someDoc());
        char a = all.empty() ? ' ' : all.back(), b = docs[i].t[0];
        str gap = ws(2);
        bool closed = strchr("]}\"", a), open = strchr("[{\"", b);
        if (gap.empty() && i && !(closed && open)) gap = " ";
        if (gap.empty() && i) ev("adjacent");
        all += gap + docs[i].t;
    }
    all += ws(2);
    str d = "documents " + show(all, 500);
    note(d);
    distinct(all);
    if (rng.chance(1, 40)) sample(d.substr(0, 300));
    std::istringstream ss(all);
    lu::varstream vs(S(all));
    std::istream& is = rng.chance(1, 2) ? (std::istream&)ss : vs;
    for (int i = 0; i < n; i++) {
        var r;
        if (rng.chance(1, 3)) r = 5;
        mustWork("valid.read", d + fmt(" (number %d)", i + 1), [&] { is >> r; });
        str got = vh::canon(r), want = canon(docs[i].m);
        check(got == want, "valid.value", d + fmt(": document %d reads as ", i + 1) + got.substr(0, 400) + ", should be " + want.substr(0, 400));
        ev("documents");
        if (i) ev("consecutive");
    }
}

VH_CASE_W(jsonread_cut, 1)
{
    Doc x;
    do x = someDoc(); while (!strchr("[{\"", x.t[0]));
    str cut = ws(2) + x.t.substr(0, rng.chance(1, 3) ? x.t.size() - 1 : rng.in(1, x.t.size() - 1));
    if (rng.chance(1, 4)) cut += ws(2);
    str d = "cut short: " + show(cut, 500);
    note(d);
    distinct(cut);
    // a string that is cut may not close by chance: cuts never add a quote
    std::istringstream ss(cut);
    lu::varstream vs(S(cut));
    std::istream& is = rng.chance(1, 2) ? (std::istream&)ss : vs;
    var r = 7;
    mustThrow("cut.accepted", d, [&] { is >> r; });
    check(vh::canon(r) == "i7", "cut.changed", d + ": the variable became " + vh::canon(r));
    ev("cut_short");
}

VH_CASE_W(jsonread_garbage, 2)
{
    str s;
    int k = rng.upto(6);
    if (k == 0) for (int n = rng.upto(60); n > 0; n--) s += char(rng.upto(256));
    else if (k == 1) for (int n = rng.upto(60); n > 0; n--) s += "{}[],:\"\\ u0123eE+-.ntf"[rng.upto(23)];
    else if (k == 2 && rng.chance(1, 6)) { s = str(rng.in(100, 4000), "[{\""[rng.upto(2)]); if (s[0] == '{') { str t; for (size_t i = 0; i < s.size(); i++) t += "{\"a\":"; s = t; } ev("bottomless"); }
    else {
        s = someDoc().t;
        for (int n = rng.in(1, 4); n > 0 && !s.empty(); n--) {
            int p = rng.upto(s.size());
            switch (rng.upto(6)) {
            case 0: s[p] ^= 1 << rng.upto(8); break;
            case 1: s.erase(p, rng.in(1, 3)); break;
            case 2: s.insert(p, 1, "{}[],:\"\\"[rng.upto(8)]); break;
            case 3: s.insert(p, s.substr(rng.upto(s.size()), rng.upto(20))); break;
            case 4: s[p] = char(rng.upto(256)); break;
            default: s.resize(p);
            }
        }
    }
    str d = "text " + show(s, 500);
    note(d);
    distinct(s);
    std::istringstream ss(s);
    lu::varstream vs(S(s));
    std::istream& is = rng.chance(1, 2) ? (std::istream&)ss : vs;
    var r = 7;
    int ok = 0;
    // read until it is rejected or used up
    for (int i = 0; i < 5; i++) {
        var q = 7;
        if (throws("garbage.exception", d, [&] { is >> q; })) {
            check(vh::canon(q) == "i7", "garbage.changed", d + ": rejected, but the variable became " + vh::canon(q).substr(0, 200));
            ev("garbage_rejected");
            break;
        }
        ok++;
        ev("garbage_accepted");
        std::ostringstream os;
        mustWork("garbage.print", d, [&] { os << q; });
        if (is.peek() == EOF) break;
    }
}

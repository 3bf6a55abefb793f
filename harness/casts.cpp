// C05: the casting functors over arrays, views, lists and maps.
#include "tensor.h"
using namespace ts;

static var call(int t, const var& x)
{
    switch (t) {
    case TYPE_CHAR: return lu::castChar(x);
    case TYPE_INT: return lu::castInt(x);
    case TYPE_LONG: return lu::castLong(x);
    case TYPE_FLOAT: return lu::castFloat(x);
    case TYPE_DOUBLE: return lu::castDouble(x);
    case TYPE_CFLOAT: return lu::castCFloat(x);
    default: return lu::castCDouble(x);
    }
}
static void call(int t, const var& x, var& o)
{
    switch (t) {
    case TYPE_CHAR: lu::castChar(x, o); break;
    case TYPE_INT: lu::castInt(x, o); break;
    case TYPE_LONG: lu::castLong(x, o); break;
    case TYPE_FLOAT: lu::castFloat(x, o); break;
    case TYPE_DOUBLE: lu::castDouble(x, o); break;
    case TYPE_CFLOAT: lu::castCFloat(x, o); break;
    default: lu::castCDouble(x, o);
    }
}
static Num value(int t)
{
    if (isInt(t)) return mkInt(t, rng.in(-100, 100));
    auto r = [&] { return rng.chance(1, 3) ? rng.in(-9, 9) * 1.0 : rng.sym() * 100; };
    double a = r(), b = r();
    return mkFlt(t, a, isCplx(t) ? b : 0);
}
static Num filler(int t) { return mkNum(t, 77); }
static Num to(const Num& n, int t) { Num r = n; convNum(n, t, r); return r; }

// Each element is converted, then stored in the type of what it's put in
VH_CASE_W(casts_array, 3)
{
    int it = rng.in(TYPE_INT, TYPE_CDOUBLE), t = rng.in(TYPE_CHAR, TYPE_CDOUBLE);
    int dim = rng.in(1, 3);
    Shape s = randShape(dim, 5);
    bool arr = dim == 1 && s[0] > 1 && rng.chance(1, 2);
    Tensor a(it, s, arr ? ARRAY : VIEW, value);
    int mode = rng.upto(3);
    // complex arrays cast to their own type are just assigned
    if (it == TYPE_CDOUBLE && t == TYPE_CDOUBLE && mode == 1) mode = 0;
    std::vector<Num> cast;
    for (int i = 0; i < a.size(); i++) cast.push_back(to(a.at(i), t));
    str d = str("cast to ") + lu::typeStr(t) + (mode == 2 ? " in place" : "") + " of " + a.text();
    distinct(fmt("a%d %d %d %d ", it, t, mode, a.form) + shp(s));
    if (mode == 0) {
        note(d);
        std::vector<Num> want;
        for (auto& n : cast) want.push_back(to(n, it));
        var r;
        mustWork("cast.out", d, [&] { r = call(t, a.v); });
        result("cast.result", d, r, it, s, false, want, 0);
        ev("arrays_cast");
    }
    else if (mode == 1) {
        Shape os = s;
        bool bad = rng.chance(1, 8);
        if (bad) os.back() += rng.chance(1, 2) || os.back() == 1 ? 1 : -1;
        else if (rng.chance(1, 4)) os = {a.size()};
        int ot = rng.in(TYPE_INT, TYPE_CDOUBLE);
        Tensor o(ot, os, os.size() == 1 && os[0] > 1 && rng.chance(1, 2) ? ARRAY : VIEW, filler);
        d += " into " + o.text();
        note(d);
        if (bad) { mustThrow("cast.reject", d, [&] { call(t, a.v, o.v); }); ev("rejected"); }
        else {
            mustWork("cast.into", d, [&] { call(t, a.v, o.v); });
            for (int i = 0; i < o.size(); i++) o.at(i) = to(cast[i], ot);
            ev("cast_into");
        }
        o.verify("cast.output", d + ": output");
    }
    else {
        note(d);
        mustWork("cast.inplace", d, [&] { call(t, a.v, a.v); });
        for (int i = 0; i < a.size(); i++) a.at(i) = to(cast[i], it);
        ev("cast_inplace");
    }
    if (rng.chance(1, 60)) sample(d);
    a.verify("cast.input", d + ": operand");
}

// Lists and maps of numbers and numeric strings: each becomes a number
VH_CASE_W(casts_list, 2)
{
    int n = rng.in(2, 6), t = rng.in(TYPE_CHAR, TYPE_CDOUBLE);
    bool map = rng.chance(1, 4), inplace = rng.chance(1, 3), into = !inplace && rng.chance(1, 3);
    var a, o;
    std::vector<Num> want(n);
    std::vector<str> before(n);
    str d = str("cast to ") + lu::typeStr(t) + (inplace ? " in place" : "") + " of " + (map ? "map" : "list");
    if (!map) a.resize(n);
    for (int i = 0; i < n; i++) {
        var e;
        MV m;
        if (rng.chance(1, 3)) {
            str x = fmt("%d", rng.in(t == TYPE_CHAR ? 0 : -99, t == TYPE_CHAR ? 9 : 99));
            if (!isInt(t) && rng.chance(1, 2)) x += fmt(".%d", rng.in(0, 99));
            m = MV(strObj(x));
        }
        // a cdouble is an array of one, which keeps its type
        else m = MV(value(rng.chance(1, 3) ? t : rng.in(TYPE_CHAR, TYPE_CFLOAT)));
        if (conv(m, t, want[i]) != OK) { ev("skipped"); return; }
        e = build(m);
        d += " " + vh::canon(e);
        before[i] = vh::canon(e);
        if (map) a[fmt("k%d", i).c_str()] = e; else a.at(i) = e;
    }
    note(d);
    distinct(d);
    if (inplace) { mustWork("cast.list", d, [&] { call(t, a, a); }); o = a; }
    else if (into) {
        for (int i = 0; i < n; i++) if (map) o[fmt("k%d", i).c_str()] = i; else { if (!i) o.resize(n); if (rng.chance(1, 2)) o.at(i) = 3; else o.at(i) = "old"; }
        mustWork("cast.list", d, [&] { call(t, a, o); });
    }
    else mustWork("cast.list", d, [&] { o = call(t, a); });
    check(o.size() == n && (map ? o.atype<lu::pair>() : o.atype<var>()), "cast.list", d + ": gives " + vh::canon(o).substr(0, 300));
    for (int i = 0; i < n; i++) {
        if (map) check(text(o.key(i)) == fmt("k%d", i), "cast.keys", d + ": gives " + vh::canon(o).substr(0, 300));
        var e;
        e = o.at(i);
        result("cast.element", d + fmt(": element %d", i), e, t, {1}, true, {want[i]}, 0);
        if (!inplace) check(vh::canon(a.at(i)) == before[i], "cast.input", d + ": the operand became " + vh::canon(a).substr(0, 300));
    }
    ev(map ? "maps_cast" : "lists_cast");
    if (inplace) ev("lists_inplace");
}

VH_CASE(casts_scalar)
{
    int t = rng.in(TYPE_CHAR, TYPE_CDOUBLE);
    Num x = value(rng.chance(1, 2) ? t : rng.in(TYPE_CHAR, TYPE_CFLOAT));
    var a = numVar(x), o;
    switch (rng.upto(5)) {
    case 0: break;
    case 1: o = 5; break;
    case 2: o = "text"; break;
    case 3: o = numVar(value(t)); break;
    default: o[0] = 1; o[1] = "x";
    }
    var keep = o;
    str d = str("cast to ") + lu::typeStr(t) + " of " + numText(x) + " into " + vh::canon(o), ck = vh::canon(keep);
    note(d);
    distinct(d);
    mustWork("cast.scalar", d, [&] { call(t, a, o); });
    result("cast.scalar", d, o, t, {1}, true, {to(x, t)}, 0);
    result("cast.scalarin", d + ": operand", a, x.t, {1}, true, {x}, 0);
    check(vh::canon(keep) == ck, "cast.other", d + ": what the output was before became " + vh::canon(keep));
    mustWork("cast.scalar", d, [&] { call(t, a, a); });
    result("cast.scalarinplace", d + ", in place", a, t, {1}, true, {to(x, t)}, 0);
    ev("scalars_cast");
}

// C10: mathematical functions of scalars, arrays and views.
#include "tensor.h"
using namespace ts;

enum Fn { SIN, COS, TAN, ATAN, FLOOR, SQRT, LOG, EXP, REAL, IMAG, ABS, ARG, NORM, NFN };
static const char* name[] = {"sin", "cos", "tan", "atan", "floor", "sqrt", "log", "exp", "real", "imag", "abs", "arg", "norm"};

template<class T> static T realFn(Fn f, T x)
{
    switch (f) {
    case SIN: return std::sin(x);
    case COS: return std::cos(x);
    case TAN: return std::tan(x);
    case ATAN: return std::atan(x);
    case FLOOR: return std::floor(x);
    case SQRT: return std::sqrt(x);
    case LOG: return std::log(x);
    case EXP: return std::exp(x);
    case REAL: return x;
    case IMAG: return 0;
    case ABS: return std::fabs(x);
    case ARG: return std::arg(x);
    default: return x * x;
    }
}
template<class T> static std::complex<T> cplxFn(Fn f, std::complex<T> x)
{
    switch (f) {
    case SIN: return std::sin(x);
    case COS: return std::cos(x);
    case TAN: return std::tan(x);
    case ATAN: return std::atan(x);
    case SQRT: return std::sqrt(x);
    case LOG: return std::log(x);
    case EXP: return std::exp(x);
    case REAL: return x.real();
    case IMAG: return x.imag();
    case ABS: return std::hypot(x.real(), x.imag());
    case ARG: return std::atan2(x.imag(), x.real());
    default: return x.real() * x.real() + x.imag() * x.imag();
    }
}
static bool toReal(Fn f) { return f >= REAL; }
static Num apply(Fn f, const Num& a)
{
    int rt = toReal(f) ? realOf(a.t) : a.t;
    switch (a.t) {
    case TYPE_FLOAT: return {rt, 0, realFn(f, float(a.re)), 0};
    case TYPE_DOUBLE: return {rt, 0, realFn(f, a.re), 0};
    case TYPE_CFLOAT: { cfloat r = cplxFn(f, cfloat(a.re, a.im)); return {rt, 0, r.real(), toReal(f) ? 0 : r.imag()}; }
    default: { cdouble r = cplxFn(f, cdouble(a.re, a.im)); return {rt, 0, r.real(), toReal(f) ? 0 : r.imag()}; }
    }
}
static var call(Fn f, const var& a)
{
    switch (f) {
    case SIN: return lu::sin(a); case COS: return lu::cos(a); case TAN: return lu::tan(a); case ATAN: return lu::atan(a);
    case FLOOR: return lu::floor(a); case SQRT: return lu::sqrt(a); case LOG: return lu::log(a); case EXP: return lu::exp(a);
    case REAL: return lu::real(a); case IMAG: return lu::imag(a); case ABS: return lu::abs(a); case ARG: return lu::arg(a);
    default: return lu::norm(a);
    }
}
static var call(Fn f, const var& a, var& o)
{
    switch (f) {
    case SIN: return lu::sin(a, o); case COS: return lu::cos(a, o); case TAN: return lu::tan(a, o); case ATAN: return lu::atan(a, o);
    case FLOOR: return lu::floor(a, o); case SQRT: return lu::sqrt(a, o); case LOG: return lu::log(a, o); case EXP: return lu::exp(a, o);
    case REAL: return lu::real(a, o); case IMAG: return lu::imag(a, o); case ABS: return lu::abs(a, o); case ARG: return lu::arg(a, o);
    default: return lu::norm(a, o);
    }
}
static var method(Fn f, var& a)
{
    switch (f) {
    case SIN: return a.sin(); case COS: return a.cos(); case FLOOR: return a.floor(); case SQRT: return a.sqrt();
    case LOG: return a.log(); case EXP: return a.exp(); case REAL: return a.real(); case IMAG: return a.imag();
    case ABS: return a.abs(); case ARG: return a.arg(); case NORM: return a.norm();
    default: return call(f, a, a);
    }
}
static Fn theFn;
static Num value(int t)
{
    if (isInt(t)) return randNum(t);
    auto r = [&] { double x = rng.chance(1, 3) ? rng.in(-8, 8) * 0.5 : rng.chance(1, 6) ? rng.sym() * 1e3 : rng.sym() * 4; return x; };
    double a = r(), b = r();
    if (!isCplx(t)) {
        if (theFn == SQRT || theFn == LOG) a = std::fabs(a) + (theFn == LOG ? 1e-3 : 0);
        if (theFn == EXP) a = std::min(a, 80.0);
        return mkFlt(t, a);
    }
    a = std::max(-20.0, std::min(20.0, a)); b = std::max(-20.0, std::min(20.0, b));
    if (theFn == ATAN || theFn == LOG) { if (std::fabs(std::hypot(a, b) - 1) < 0.1 || std::hypot(a, b) < 0.1) { a = 2.5; b = -0.75; } }
    return mkFlt(t, a, b);
}

VH_CASE_W(unary_fn, 6)
{
    theFn = Fn(rng.upto(NFN));
    Fn f = theFn;
    int t = rng.chance(1, 10) ? rng.in(TYPE_CHAR, TYPE_LONG) : rng.in(TYPE_FLOAT, TYPE_CDOUBLE);
    bool ok = !isInt(t) && !(f == FLOOR && isCplx(t));
    Form form = Form(rng.upto(5));
    if (rng.chance(1, 2)) form = VIEW;
    Shape s = {1};
    if (form == ARRAY) s = {rng.chance(1, 150) ? bigSize() : rng.in(1, 12)};
    if (form == VIEW) {
        s = randShape(rng.in(1, 4), 4);
        if (rng.chance(1, 20)) s[rng.upto(s.size())] = 0;
        if (rng.chance(1, 300)) s = rng.chance(1, 2) ? Shape{rng.in(1, 3), bigSize()} : Shape{bigSize(), rng.in(1, 3)};
    }
    Tensor a(t, s, form, value);
    if (!ok && a.size() == 0) return;
    int rt = toReal(f) ? realOf(t) : t;
    std::vector<Num> want;
    if (ok) for (int i = 0; i < a.size(); i++) want.push_back(apply(f, a.at(i)));
    double tol = 4 * epsOf(t) * (isCplx(t) ? 8 : 1);
    int mode = rng.upto(4);
    bool scalar = a.form < ARRAY;
    str d = str(mode == 0 ? "" : mode == 1 ? "into output " : "in place ") + name[f] + " " + a.text();
    note(d);
    if (rng.chance(1, 50)) sample(d);
    distinct(fmt("%d %d %d %d ", f, mode, a.form, t) + shp(a.shape));
    if (mode == 0) {
        var r;
        if (!ok) {
            mustThrow("reject.out", d, [&] { a.use([&](var& x) { r = call(f, x); }); });
            ev("rejected");
        }
        else {
            mustWork("out", d, [&] { a.use([&](var& x) { r = call(f, x); }); });
            result("out.result", d, r, rt, a.shape, scalar, want, tol);
            if (!scalar && a.size()) {
                check(!r.is(a.v) && !r.is(a.base), "out.storage", d + ": the result shares storage with the input");
                r.at(0) = 1;
            }
            ev("out_of_place");
        }
        a.verify("out.input", d + ": input");
    }
    else if (mode == 1) {
        Shape os = a.shape;
        bool bad = !scalar && misfit(os);
        Tensor o(rt, os, scalar ? Form(rng.upto(2)) : a.form, value);
        if (bad) { d += " with output " + o.text(); note(d); ev("wrong_output"); }
        if (!ok || bad) {
            mustThrow("reject.into", d, [&] { a.use([&](var& x) { o.use([&](var& y) { call(f, x, y); }); }); });
            if (bad) o.verify("reject.output", d + ": output");
            ev("rejected");
        }
        else {
            mustWork("into", d, [&] { a.use([&](var& x) { o.use([&](var& y) { call(f, x, y); }); }); });
            for (int i = 0; i < a.size(); i++) o.at(i) = want[i];
            o.verify("into.result", d + ": output", tol);
            ev("into_output");
        }
        a.verify("into.input", d + ": input");
    }
    else {
        // in place the type of an array's elements stays, that of a scalar follows the result
        if (!ok) {
            mustThrow("reject.in", d, [&] { a.use([&](var& x) { method(f, x); }); });
            a.verify("reject.changed", d + ": input of the rejected function");
            ev("rejected");
            return;
        }
        bool keep = a.form >= ARRAY || a.form == AELEM;
        mustWork("in", d, [&] { a.use([&](var& x) { method(f, x); }); });
        for (int i = 0; i < a.size(); i++) {
            a.at(i) = want[i];
            if (keep) a.at(i).t = t;
        }
        if (!keep && rt != t) {      // a scalar: its type is that of the result
            var x;
            a.use([&](var& y) { x = y; });
            result("in.result", d, x, rt, {1}, true, want, tol);
        }
        else a.verify("in.result", d, tol);
        ev("in_place");
    }
}

// special values
VH_CASE_W(unary_special, 1)
{
    static const std::vector<double> sp = {0.0, -0.0, INFINITY, -INFINITY, NAN, 1, -1, 1e-310, -2.5, 1e300};
    Fn f = Fn(rng.upto(NFN));
    int t = rng.in(TYPE_FLOAT, TYPE_DOUBLE);
    Form form = Form(rng.upto(5));
    auto gen = [&](int ty) { return mkFlt(ty, rng.pick(sp)); };
    Tensor a(t, form >= ARRAY ? randShape(form == ARRAY ? 1 : rng.in(1, 3)) : Shape{1}, form, gen);
    std::vector<Num> want;
    for (int i = 0; i < a.size(); i++) want.push_back(apply(f, a.at(i)));
    str d = str("special ") + name[f] + " " + a.text();
    note(d);
    distinct(d);
    var r;
    a.use([&](var& x) { r = call(f, x); });
    result("special.result", d, r, t, a.shape, form < ARRAY, want, 4 * epsOf(t));
    a.verify("special.input", d + ": input");
    ev("special_values");
}

// arrays of var: in place at any depth; strings and undefined values are refused
VH_CASE_W(unary_nested, 1)
{
    theFn = Fn(rng.upto(SQRT));
    Fn f = theFn;
    int n = rng.in(1, 4);
    std::vector<std::vector<Num>> in(n), want(n);
    var a;
    a.resize(n);
    str d = str("nested ") + name[f];
    for (int i = 0; i < n; i++) {
        int t = rng.in(TYPE_FLOAT, TYPE_DOUBLE), m = rng.in(1, 4);
        for (int k = 0; k < m; k++) { in[i].push_back(value(t)); want[i].push_back(apply(f, in[i].back())); d += " " + numText(in[i].back()); }
        OP o = newObj(t);
        o->d = in[i];
        var e = build(MV(o));
        if (m == 1) e = numVar(in[i][0]);
        a.at(i) = e;
    }
    note(d);
    distinct(d);
    method(f, a);
    check(a.size() == n, "nested.size", d);
    for (int i = 0; i < n; i++) {
        var e = a.at(i);
        result("nested.result", d + fmt(" element %d", i), e, want[i][0].t, {int(want[i].size())}, want[i].size() == 1, want[i], 4 * epsOf(want[i][0].t));
    }
    ev("nested");
    // the values of a map, the keys of which stay
    if (rng.chance(1, 2)) {
        var m, q;
        std::vector<Num> x, y;
        for (int i = 0; i < n; i++) {
            x.push_back(in[i][0]);
            m[fmt("k%d", i).c_str()] = numVar(x[i]);
        }
        int op = rng.upto(4), t = x[0].t; // a product needs arrays
        Num k = value(t);
        if (op == 3 && std::fabs(k.re) < 1e-6) op = 1;
        for (auto& v : x) {
            if (op == 0) y.push_back(apply(f, v));
            else {
                // in the type of the value, the other converted to it
                auto calc = [&](auto a, auto b) { return op == 1 ? a + b : op == 2 ? a - b : a / b; };
                y.push_back(mkFlt(v.t, v.t == TYPE_FLOAT ? double(calc(float(v.re), float(k.re))) : calc(v.re, k.re)));
            }
        }
        str dm = str(op ? "arithmetic of" : name[f]) + fmt(" (%d) values of a map ", op) + vh::canon(m) + (op ? " and " + numText(k) : str());
        note(dm);
        var kv = numVar(k);
        str before = vh::canon(m);
        mustWork("map.work", dm, [&] { if (op == 0) q = call(f, m); else if (op == 1) q = m + kv; else if (op == 2) q = m - kv; else q = m / kv; });
        check(vh::canon(m) == before, "map.operand", dm + ": operand became " + vh::canon(m));
        check(q.atype<lu::pair>() && q.size() == n, "map.result", dm + ": gives " + vh::canon(q));
        for (int i = 0; i < n; i++) {
            check(isString(q.key(i)) && text(q.key(i)) == fmt("k%d", i), "map.keys", dm + ": gives " + vh::canon(q));
            var e;
            e = q.at(i);
            result("map.value", dm + fmt(" value %d", i), e, y[i].t, {1}, true, {y[i]}, 8 * epsOf(y[i].t));
            check(q[fmt("k%d", i).c_str()].defined(), "map.lookup", dm + ": the result has no such key");
        }
        check(q.size() == n, "map.lookup", dm + ": keys were added: " + vh::canon(q));
        ev("maps");
    }
    var s = "text", nil, r;
    mustThrow("reject.string", str(name[f]) + " of a string", [&] { r = call(f, s); });
    check(text(s) == "text", "reject.changed", "a string was changed");
    mustThrow("reject.stringin", str(name[f]) + " in place of a string", [&] { call(f, s, s); });
    check(text(s) == "text", "reject.changed", "a string was changed");
    mustThrow("reject.nil", str(name[f]) + " of nil", [&] { call(f, nil, nil); });
}

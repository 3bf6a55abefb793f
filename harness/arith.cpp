// C09: arithmetic, elementwise with broadcasting, in and out of place.
#include "tensor.h"
using namespace ts;

enum Op { ADD, SUB, MUL, DIV, POW };
static const char* opName[] = {"+", "-", "*", "/", "pow"};

template<class T> static T apply(Op op, T a, T b)
{
    switch (op) {
    case ADD: return a + b;
    case SUB: return a - b;
    case MUL: return a * b;
    case DIV: return a / b;
    default: return std::pow(a, b);
    }
}
static Num apply(Op op, const Num& a, const Num& b, double& mag)
{
    mag = op == ADD || op == SUB ? 0 : std::abs(cx(a)) * (op == MUL ? std::abs(cx(b)) : 0);
    switch (a.t) {
    case TYPE_CHAR: { int x = a.l, y = b.l; int r = op == ADD ? x + y : op == SUB ? x - y : op == MUL ? x * y : x / y; return mkInt(TYPE_CHAR, char(r)); }
    case TYPE_INT: case TYPE_LONG: { long x = a.l, y = b.l; return mkInt(a.t, op == ADD ? x + y : op == SUB ? x - y : op == MUL ? x * y : x / y); }
    case TYPE_FLOAT: return mkFlt(a.t, apply(op, float(a.re), float(b.re)));
    case TYPE_DOUBLE: return mkFlt(a.t, apply(op, a.re, b.re));
    case TYPE_CFLOAT: { cfloat r = apply(op, cfloat(a.re, a.im), cfloat(b.re, b.im)); return {a.t, 0, r.real(), r.imag()}; }
    default: { cdouble r = apply(op, cdouble(a.re, a.im), cdouble(b.re, b.im)); return {a.t, 0, r.real(), r.imag()}; }
    }
}
// operand values which keep every operation defined in every type
static Num value(int t)
{
    switch (t) {
    case TYPE_CHAR: return mkInt(t, rng.in(1, 100));
    case TYPE_INT: case TYPE_LONG: return mkInt(t, rng.chance(1, 4) ? rng.in(1, 3) : rng.in(1, 30000) * (rng.chance(1, 2) ? 1 : -1));
    default:
    {
        auto r = [&] { double x = rng.chance(1, 4) ? rng.in(-6, 6) * 0.5 : rng.sym() * 20; return x == 0 ? 1.5 : x; };
        return mkFlt(t, r(), isCplx(t) ? r() : 0);
    }
    }
}
static Num positive(int t) { Num n = value(t); if (isInt(t)) n.l = std::abs(n.l); else n.re = std::fabs(n.re); return n; }

static var call(Op op, const var& a, const var& b)
{
    bool f = rng.chance(1, 3);
    switch (op) {
    case ADD: return f ? lu::add(a, b) : a + b;
    case SUB: return f ? lu::sub(a, b) : a - b;
    case MUL: return f ? lu::mul(a, b) : a * b;
    case DIV: return f ? lu::div(a, b) : a / b;
    default: return lu::pow(a, b);
    }
}
static void callOut(Op op, const var& a, const var& b, var& o)
{
    switch (op) {
    case ADD: lu::add(a, b, o); break;
    case SUB: lu::sub(a, b, o); break;
    case MUL: lu::mul(a, b, o); break;
    case DIV: lu::div(a, b, o); break;
    default: lu::pow(a, b, o);
    }
}
static void callIn(Op op, var& a, const var& b)
{
    if (rng.chance(1, 4)) { callOut(op, a, b, a); return; }
    switch (op) {
    case ADD: a += b; break;
    case SUB: a -= b; break;
    case MUL: a *= b; break;
    case DIV: a /= b; break;
    default: a.pow(b);
    }
}

// which combinations exist
static bool supported(Op op, const Tensor& a, const Tensor& b, bool& shapes)
{
    shapes = true;
    bool scalar = b.form < ARRAY || (b.dim() == 1 && b.size() == 1);
    if (op == POW && isInt(a.type)) return a.form >= ARRAY && a.size() == 0;
    if (a.form < ARRAY) return scalar;
    if (scalar) return op == MUL ? isReal(a.type) : true;
    if (b.dim() > a.dim() || a.type != b.type) return false;
    if (op == DIV || op == POW) return false;
    for (int i = 1; i <= b.dim(); i++) if (a.shape[a.dim() - i] != b.shape[b.dim() - i]) { shapes = false; return false; }
    if (op == ADD) return isReal(a.type) || isCplx(a.type);
    return isReal(a.type);
}

static Tensor operandB(Op op, const Tensor& a)
{
    auto gen = [&](int t) { return op == POW ? positive(t) : value(t); };
    int what = rng.upto(10);
    int t = rng.chance(4, 5) ? a.type : rng.in(TYPE_CHAR, TYPE_CDOUBLE);
    if (a.form < ARRAY || what < 3) {       // a single number
        Form f = rng.chance(2, 3) ? SCALAR : rng.chance(1, 2) ? AELEM : rng.chance(1, 2) ? VELEM : ARRAY;
        if (rng.chance(1, 2)) t = rng.in(TYPE_INT, TYPE_DOUBLE);
        if (f == ARRAY && t == TYPE_CHAR) f = SCALAR;      // that would be a string
        return Tensor(t, {1}, f, gen);
    }
    Shape s;
    if (what < 8) {     // the trailing dimensions of a
        int d = rng.in(1, a.dim());
        s.assign(a.shape.end() - d, a.shape.end());
        if (what == 7) { int k = rng.upto(d); s[k] += rng.chance(1, 2) || s[k] <= 1 ? 1 : -1; }
        if (what == 6 && rng.chance(1, 3)) { std::reverse(s.begin(), s.end()); }
    }
    else s = randShape(rng.in(1, 4));
    if (what < 7 && rng.chance(9, 10)) t = a.type;
    Form f = s.size() == 1 && rng.chance(1, 2) ? ARRAY : VIEW;
    if (t == TYPE_CHAR && s.size() == 1 && s[0] == 1) return Tensor(t, s, SCALAR, gen);
    return Tensor(t, s, f, gen);
}

VH_CASE_W(arith_op, 8)
{
    Op op = Op(rng.chance(1, 2) ? rng.upto(5) : rng.upto(3));
    int t = rng.in(TYPE_CHAR, TYPE_CDOUBLE);
    if (op == POW || rng.chance(2, 3)) t = rng.in(TYPE_FLOAT, rng.chance(1, 2) ? TYPE_DOUBLE : TYPE_CDOUBLE);
    auto gen = [&](int ty) { return op == POW ? positive(ty) : value(ty); };
    Form f = Form(rng.upto(5));
    if (rng.chance(1, 2)) f = VIEW;
    Shape s = {1};
    if (f == ARRAY) s = {rng.chance(1, 150) ? bigSize() : rng.chance(1, 10) ? rng.in(60, 700) : rng.in(1, 12)};
    if (f == VIEW) {
        s = randShape(rng.in(1, 4));
        if (rng.chance(1, 15)) s[rng.upto(s.size())] = 0;
        if (rng.chance(1, 15)) s = {rng.in(1, 5), rng.in(20, 300)};
        if (rng.chance(1, 300)) s = rng.chance(1, 2) ? Shape{rng.in(1, 3), bigSize()} : Shape{bigSize(), rng.in(1, 3)};
    }
    Tensor a(t, s, f, gen);
    Tensor b = operandB(op, a);
    bool selfB = rng.chance(1, 12) && a.form >= ARRAY && a.size() > 1;
    bool shapes;
    Tensor& B = selfB ? a : b;
    bool ok = supported(op, a, B, shapes);
    if (!ok && a.size() == 0) return;       // nothing to compute, nothing to reject
    bool scalar = B.form < ARRAY || (B.dim() == 1 && B.size() == 1);
    // the value of the right operand in the type of the left
    std::vector<Num> want;
    std::vector<double> mag;
    if (ok)
        for (int i = 0; i < a.size(); i++) {
            Num y;
            const Num& x = scalar ? B.at(0) : B.at(i % B.size());
            if (convNum(x, a.type, y) != OK) return;
            if (isInt(a.type) && y.l == 0 && op == DIV) return;
            if (a.type == TYPE_INT && std::abs(y.l) > 60000) return;
            double m;
            want.push_back(apply(op, a.at(i), y, m));
            mag.push_back(m);
        }
    double tol = isInt(a.type) ? 0 : 8 * epsOf(a.type);
    if (!isCplx(a.type) && op != POW) tol = 2 * epsOf(a.type);
    int mode = rng.upto(3);
    str d = str(mode == 0 ? "" : mode == 1 ? "in place " : "into output ") + a.text() + " " + opName[op] + " " + (selfB ? "itself" : b.text());
    note(d);
    if (rng.chance(1, 50)) sample(d);
    distinct(fmt("%d %d %d %d ", op, mode, a.form, a.type) + shp(a.shape) + fmt(" %d %d ", b.form, b.type) + shp(b.shape));

    if (mode == 0) {
        var r;
        if (!ok) {
            mustThrow("reject.out", d, [&] { a.use([&](var& x) { B.use([&](var& y) { r = call(op, x, y); }); }); });
            ev("rejected");
        }
        else {
            mustWork("out", d, [&] { a.use([&](var& x) { B.use([&](var& y) { r = call(op, x, y); }); }); });
            bool sc = a.form < ARRAY;
            result("out.result", d, r, a.type, a.shape, sc, want, tol, &mag);
            if (!sc && a.size()) {
                check(!r.is(a.v) && !r.is(a.base), "out.storage", d + ": the result shares storage with its operand");
            }
            ev("out_of_place");
        }
        a.verify("out.left", d + ": left operand");
        B.verify("out.right", d + ": right operand");
        // the result is free of the operands
        if (ok && a.form >= ARRAY && a.size()) {
            r.at(0) = 1;
            a.verify("out.alias", d + ": writing the result changed the left operand");
            B.verify("out.alias", d + ": writing the result changed the right operand");
        }
    }
    else if (mode == 1) {
        if (!ok) {
            mustThrow("reject.in", d, [&] { a.use([&](var& x) { B.use([&](var& y) { callIn(op, x, y); }); }); });
            a.verify("reject.changed", d + ": left operand of the rejected operation");
            ev("rejected");
        }
        else {
            var alias = a.form >= ARRAY ? a.v : var();
            mustWork("in", d, [&] { a.use([&](var& x) { B.use([&](var& y) { callIn(op, x, y); }); }); });
            for (int i = 0; i < a.size(); i++) a.at(i) = want[i];
            if (tol == 0) a.verify("in.result", d, 0);
            else a.verify("in.result", d, tol, &mag);
            if (a.form >= ARRAY) check(alias.is(a.v) || a.v.size() == 0, "in.storage", d + ": in place operation moved the operand");
            ev("in_place");
        }
        if (!selfB) b.verify("in.right", d + ": right operand");
    }
    else {
        // an output of the same shape, holding other data
        Shape os = a.shape;
        bool bad = a.form >= ARRAY && misfit(os);
        Tensor o(a.type, os, a.form >= ARRAY ? a.form : SCALAR, value);
        if (bad) { d += " with output " + o.text(); note(d); ev("wrong_output"); }
        if (!ok || bad) {
            mustThrow("reject.into", d, [&] { a.use([&](var& x) { B.use([&](var& y) { callOut(op, x, y, o.v); }); }); });
            if (bad) o.verify("reject.output", d + ": output");
            ev("rejected");
        }
        else {
            mustWork("into", d, [&] { a.use([&](var& x) { B.use([&](var& y) { callOut(op, x, y, o.v); }); }); });
            for (int i = 0; i < a.size(); i++) o.at(i) = want[i];
            if (tol == 0) o.verify("into.result", d, 0); else o.verify("into.result", d, tol, &mag);
            ev("into_output");
        }
        a.verify("into.left", d + ": left operand");
        B.verify("into.right", d + ": right operand");
    }
    if (!shapes) ev("shape_mismatch");
    if (ok && !scalar && a.dim() > B.dim()) ev("broadcast");
}

// negation
VH_CASE_W(arith_neg, 1)
{
    int t = rng.in(TYPE_FLOAT, TYPE_DOUBLE);
    Form f = Form(rng.upto(5));
    Tensor a(t, f >= ARRAY ? (f == ARRAY ? randShape(1, 12) : randShape(rng.in(1, 4))) : Shape{1}, f, value);
    str d = "- " + a.text();
    note(d);
    distinct(d);
    std::vector<Num> want;
    for (int i = 0; i < a.size(); i++) want.push_back(mkFlt(t, -a.at(i).re));
    var r;
    a.use([&](var& x) { r = -x; });
    result("neg.result", d, r, t, a.shape, f < ARRAY, want, 1e-30);
    a.verify("neg.operand", d + ": operand");
    ev("negated");
}

// an array of var holding numbers takes a scalar on the right
VH_CASE_W(arith_vars, 1)
{
    Op op = Op(rng.upto(5));
    int n = rng.in(1, 6);
    OP o = newObj(TYPE_VAR);
    std::vector<int> types;
    for (int i = 0; i < n; i++) {
        int t = op == POW ? rng.in(TYPE_FLOAT, TYPE_CFLOAT) : rng.in(TYPE_CHAR, TYPE_CFLOAT);
        o->v.push_back(MV(op == POW ? positive(t) : value(t)));
    }
    Num y = mkInt(TYPE_INT, rng.in(1, 9));
    std::vector<Num> want;
    for (auto& e : o->v) { Num c; double m; convNum(y, e.n.t, c); want.push_back(apply(op, e.n, c, m)); }
    var a = build(MV(o)), b = numVar(y), r;
    str d = str("array of var ") + opName[op] + fmt(" %ld ", y.l) + md::canon(MV(o));
    note(d);
    distinct(d);
    bool in = rng.chance(1, 2);
    if (op == MUL) {
        // scaling is for float and double arrays only
        mustThrow("vars.reject", d, [&] { if (in) callIn(op, a, b); else r = call(op, a, b); });
        check(vh::canon(a) == md::canon(MV(o)), "vars.rejected_changed", d + " changed " + vh::canon(a));
        return;
    }
    if (in) { callIn(op, a, b); r = a; }
    else {
        r = call(op, a, b);
        check(vh::canon(a) == md::canon(MV(o)), "vars.operand", d + " changed its operand to " + vh::canon(a));
    }
    check(r.size() == n, "vars.size", d + " gives " + vh::canon(r));
    for (int i = 0; i < n; i++) {
        var e = r.at(i);
        check(e.type() == want[i].t, "vars.type", d + " gives " + vh::canon(r));
        OP one = newObj(want[i].t);
        Num g;
        var w; w[0] = e;
        cdouble c = e.cast<cdouble>();
        g = isInt(want[i].t) ? mkInt(want[i].t, e.cast<long>()) : Num{want[i].t, 0, c.real(), c.imag()};
        check(Tensor::close(g, want[i], 1e-6, 0) , "vars.value", d + fmt(" element %d is ", i) + numText(g) + " should be " + numText(want[i]));
    }
    ev("var_arrays");
}

// undefined operands and right operands which are no numbers
VH_CASE_W(arith_reject, 1)
{
    Op op = Op(rng.upto(5));
    MV mb = rng.chance(1, 2) ? MV(strObj(rng.chance(1, 2) ? "abc" : "")) : randVal(1);
    int t = rng.in(TYPE_FLOAT, TYPE_DOUBLE);
    Tensor a(t, {1}, rng.chance(1, 2) ? SCALAR : AELEM, positive);
    Num y;
    Conv c = conv(mb, t, y);
    if (c == SKIP || mb.k == MV::NIL) return;
    var b = build(mb), r;
    str d = a.text() + " " + opName[op] + " " + md::canon(mb);
    note(d);
    distinct(d);
    if (c == THROW) {
        mustThrow("reject.value", d, [&] { a.use([&](var& x) { r = call(op, x, b); }); });
        mustThrow("reject.valuein", d, [&] { a.use([&](var& x) { callIn(op, x, b); }); });
        ev("rejected");
    }
    else {
        if (op == POW && y.re < 0) return;
        double m;
        Num w = apply(op, a.at(0), y, m);
        a.use([&](var& x) { r = call(op, x, b); });
        result("value.result", d, r, t, {1}, true, {w}, 4 * epsOf(t));
        ev("converted");
    }
    a.verify("reject.left", d + ": left operand");
    check(vh::canon(b) == md::canon(mb), "reject.right", d + ": right operand changed to " + vh::canon(b));
    var nil, q = 1.0;
    mustThrow("reject.nil", "nil left operand", [&] { r = call(op, nil, q); });
    mustThrow("reject.nilin", "nil left operand in place", [&] { callIn(op, nil, q); });
    check(!nil, "reject.nilchanged", "a rejected operation changed an undefined operand");
}

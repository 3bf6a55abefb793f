// C35: user functors are applied to every block once, in order, in place.
#include "tensor.h"
using namespace ts;

namespace {
/// What a functor was shown of one operand
struct Seen {
    Shape shape;               // empty for a single value
    std::vector<Num> data;
    const void* addr = 0;
    str text() const {
        str r = shp(shape) + "{";
        for (size_t i = 0; i < data.size() && i < 12; i++) r += numText(data[i]) + ";";
        return r + "}";
    }
};
struct Call { std::vector<Seen> in; Seen out; };

const void* addrOf(var v, int t)
{
    switch (t) {
    case TYPE_CHAR: return v.ptr<char>(); case TYPE_INT: return v.ptr<int>();
    case TYPE_LONG: return v.ptr<long>(); case TYPE_FLOAT: return v.ptr<float>();
    case TYPE_DOUBLE: return v.ptr<double>(); case TYPE_CFLOAT: return v.ptr<cfloat>();
    default: return v.ptr<cdouble>();
    }
}
Seen look(var v, int t)
{
    Seen s;
    bool one = t == TYPE_CDOUBLE ? !v.view() && v.size() == 1 : v.type() != TYPE_ARRAY;
    if (one) {
        if (t == TYPE_CDOUBLE) { cdouble c = v.cast<cdouble>(); s.data.push_back({t, 0, c.real(), c.imag()}); }
        else {
            check(v.type() == t, "functor.type", "a single value of type " + kind(v) + " given to the functor, should be " + lu::typeStr(t));
            var a; a.push(v); a.array();
            s.data.push_back(get(a, 0, t));
        }
        return s;
    }
    check(v.atype() == t, "functor.type", "a block of type " + kind(v) + " given to the functor, should be " + lu::typeStr(t));
    for (int i = 0; i < v.dim(); i++) s.shape.push_back(v.shape(i));
    if (v.size()) s.addr = addrOf(v, t);
    for (int i = 0; i < v.size(); i++) s.data.push_back(get(v, i, t));
    return s;
}

/// Hash of what was read, so that the output depends on everything and on the order
int digest(const std::vector<Seen>& in)
{
    unsigned h = 17;
    for (auto& s : in) {
        h = h * 31 + s.data.size();
        for (auto& n : s.data) { for (char c : numText(n)) h = h * 33 + (unsigned char)c; }
    }
    return (h >> 3) % 91;
}
enum Rule { REVERSE, DIGEST, ALTERNATE, WHOLE, NRULES };

/// What the functor should leave in its output
std::vector<Num> effect(int rule, const std::vector<Seen>& in, const std::vector<Num>& was, int to, int call)
{
    std::vector<Num> r = was;
    int n = r.size();
    if (rule == REVERSE && in.size() && in[0].data.size() == r.size() && (n == 0 || in[0].data[0].t == to))
        for (int k = 0; k < n; k++) r[k] = in[0].data[n - 1 - k];
    else {
        int h = digest(in);
        for (int k = 0; k < n; k++)
            if (rule != ALTERNATE || k % 2 == 0) r[k] = mkNum(to, (h + 5 * k + call) % 120);
    }
    return r;
}
/// The user's part, shared by all sorts of functor
struct User {
    mutable std::vector<Call> calls;
    int type, outType, rule, style, failAt;
    User() : type(0), outType(0), rule(0), style(0), failAt(-1) {}
    void act(const std::vector<var*>& in, var& out) const {
        Call c;
        for (auto v : in) c.in.push_back(look(*v, type));
        c.out = look(out, outType);
        calls.push_back(c);
        int n = calls.size() - 1;
        if (n == failAt) throw std::runtime_error("the functor refuses");
        std::vector<Num> r = effect(rule, c.in, c.out.data, outType, n);
        if (rule == WHOLE && c.out.shape.size() && c.out.data.size() && outType >= TYPE_FLOAT) {
            var v = lu::view(shapeVar(c.out.shape), numVar(r[0]));
            for (size_t k = 0; k < r.size(); k++) v.at(k) = numVar(r[k]);
            out = v;
            return;
        }
        bool reversed = style & 1;
        for (size_t q = 0; q < r.size(); q++) {
            size_t k = reversed ? r.size() - 1 - q : q;
            if (c.out.shape.empty()) out = numVar(r[k]);
            else if ((style & 2) && c.out.shape.size() == 2) out(int(k) / c.out.shape[1], int(k) % c.out.shape[1]) = numVar(r[k]);
            else if (style & 4) out[int(k)] = numVar(r[k]);
            else out.at(k) = numVar(r[k]);
        }
    }
};
struct Unary : lu::UnaryFunctor, User {
    const lu::UnaryFunctor* inner = 0;
    Shape outShape; bool reshape = false; bool offsets = false;
    Unary(int d) { mDim = d; }
protected:
    var alloc(var iVar) const {
        if (!reshape) return lu::UnaryFunctor::alloc(iVar);
        return lu::view(shapeVar(outShape), numVar(mkNum(outType, 0)));
    }
    void vector(var iVar, ind iO, var& oVar, ind oO) const {
        if (!offsets) { lu::UnaryFunctor::vector(iVar, iO, oVar, oO); return; }
        // as efficient functors do it, straight into the storage
        int nI = 1, nO = 1;
        for (int k = 0; k < mDim; k++) { nI *= iVar.shape(iVar.dim() - 1 - k); nO *= oVar.shape(oVar.dim() - 1 - k); }
        var i = iVar.view({nI}, iO), o = oVar.view({nO}, oO);
        act({&i}, o);
    }
    void vector(var iVar, var& oVar) const {
        if (inner) (*inner)(iVar, oVar);
        else act({&iVar}, oVar);
    }
};
struct Scalar : lu::UnaryFunctor, User {
protected:
    void scalar(const var& iVar, var& oVar) const {
        var v = iVar;
        if (v.type() == TYPE_ARRAY && !(v.atype() == TYPE_CDOUBLE && !v.view() && v.size() == 1)) { broadcast(iVar, oVar); return; }
        Call c;
        c.in.push_back(look(v, type));
        calls.push_back(c);
        int n = calls.size() - 1;
        if (n == failAt) throw std::runtime_error("the functor refuses");
        oVar = numVar(mkNum(outType, digest(c.in)));
    }
};
struct Binary : lu::BinaryFunctor, User {
    Binary(int d) { mDim = d; }
protected:
    void vector(var a, var b, var& o) const { act({&a, &b}, o); }
};
struct Arith : lu::ArithmeticFunctor, User {
protected:
    void vector(var a, var b, var& o) const { act({&a, &b}, o); }
};
struct Nary : lu::NaryFunctor, User {
    bool mk = false; Shape outShape;
    Nary(int d) { mDim = d; }
protected:
    var alloc(var iVar) const {
        if (!mk) return lu::NaryFunctor::alloc(iVar);
        return lu::view(shapeVar(outShape), numVar(mkNum(outType, 0)));
    }
    void vector(var v, var& o) const {
        std::vector<var> e; e.reserve(v.size());
        std::vector<var*> in;
        for (int i = 0; i < v.size(); i++) e.push_back(v.at(i));
        for (auto& x : e) in.push_back(&x);
        act(in, o);
    }
};

/// the k'th of the blocks of an operand of this many dimensions
Seen block(const Tensor& t, int d, int k)
{
    Seen s;
    int n = 1;
    for (int i = t.dim() - d; i < t.dim(); i++) { s.shape.push_back(t.shape[i]); n *= t.shape[i]; }
    for (int i = 0; i < n; i++) s.data.push_back(t.at(k * n + i));
    return s;
}
int blockCount(const Tensor& t, int d) { int n = 1; for (int i = 0; i < t.dim() - d; i++) n *= t.shape[i]; return n; }
void sameSeen(const str& what, int call, const char* role, const Seen& got, const Seen& want, const Tensor* where, int d, bool flat = false)
{
    bool ok = got.data.size() == want.data.size();
    if (flat ? got.shape.size() != 1 : got.shape != want.shape) ok = false;
    for (size_t i = 0; ok && i < got.data.size(); i++)
        if (!bitSame(got.data[i], want.data[i]) && !(isInt(got.data[i].t) && got.data[i].t == want.data[i].t && got.data[i].l == want.data[i].l)) ok = false;
    check(ok, "functor.block", what + fmt(": call %d was given as ", call) + role + " " + got.text() + ", should be " + want.text());
    if (where && got.addr) {
        var b = where->base;
        int n = want.data.size();
        const char* p = (const char*)addrOf(b, where->type);
        size_t w = where->type == TYPE_CHAR ? 1 : where->type == TYPE_INT || where->type == TYPE_FLOAT ? 4 : where->type == TYPE_CDOUBLE ? 16 : 8;
        check(got.addr == p + w * (where->off + size_t(call) * n), "functor.place", what + fmt(": call %d was given as ", call) + role + " storage elsewhere");
    }
}
Shape blockyShape(int dim)
{
    Shape s = randShape(dim, dim > 2 ? 4 : 6);
    if (rng.chance(1, 14)) s[rng.upto(dim)] = 0;
    return s;
}
void sprinkle(User& u, int t, int to) { u.type = t; u.outType = to; u.rule = rng.upto(NRULES); u.style = rng.upto(8); }
Tensor operand(int t, const Shape& s)
{
    Form f = s.size() == 1 && rng.chance(1, 2) && !(t == TYPE_CDOUBLE && s[0] == 1) ? ARRAY : VIEW;
    return Tensor(t, s, f, randNum);
}
}

VH_CASE_W(functor_unary, 5)
{
    int d = rng.in(1, 3), dim = rng.chance(1, 12) ? rng.in(1, 2) : rng.in(d, 4);
    int t = rng.in(TYPE_CHAR, TYPE_CDOUBLE);
    Shape s = blockyShape(dim);
    Tensor a = operand(t, s);
    enum { ALLOC, OUTPUT, INPLACE, REFACTOR, NMODES };
    int mode = rng.upto(NMODES);
    Unary u(d);
    int to = mode == INPLACE ? t : rng.chance(2, 3) ? t : rng.in(TYPE_CHAR, TYPE_CDOUBLE);
    bool reject = d > dim;
    Shape os = s;
    if (mode == ALLOC && rng.chance(1, 2)) { u.reshape = true; u.offsets = rng.chance(1, 2); }
    else if (mode == ALLOC) to = t;
    if (!reject && (u.reshape || (mode == OUTPUT && rng.chance(1, 2))))
        for (int k = dim - d; k < dim; k++) os[k] = rng.in(1, 4);
    if (mode == REFACTOR && !reject) {
        // the same number of blocks, arranged otherwise
        int n = 1;
        for (int k = 0; k < dim - d; k++) n *= s[k];
        Shape lead;
        if (n > 0 && rng.chance(3, 4)) {
            int f = 1;
            for (int k = 2; k <= n; k++) if (n % k == 0) { f = k; break; }
            if (dim - d == 1) lead = {f, n / f};
            else lead = {n};
        }
        else for (int k = 0; k < dim - d; k++) lead.push_back(s[k]);
        for (int k = dim - d; k < dim; k++) lead.push_back(s[k]);
        os = lead;
    }
    sprinkle(u, t, to);
    if (rng.chance(1, 3)) u.offsets = true;
    int nb = reject ? 0 : blockCount(a, d);
    if (rng.chance(1, 10) && nb) u.failAt = rng.upto(nb);
    // one functor made of another of fewer dimensions
    int di = d;
    Unary inner(rng.in(1, d));
    if (!u.offsets && !u.reshape && os == s && u.failAt < 0 && rng.chance(1, 4)) {
        static_cast<User&>(inner) = u;
        di = d;
        u.inner = &inner;
    }
    bool wrong = false;
    if (mode == OUTPUT && !reject && rng.chance(1, 8)) {
        wrong = true;
        if (dim > d) { int& k = os[rng.upto(dim - d)]; k += k > 1 && rng.chance(1, 2) ? -1 : 1; }
        else { os.erase(os.begin()); if (os.empty()) os = {2, 2}; }
        if (total(os) == 0) { os = s; wrong = false; }
        int nbo = 1;
        for (int k = 0; k < int(os.size()) - d; k++) nbo *= os[k];
        wrong = int(os.size()) < d || nbo != nb;
    }
    if (u.inner && wrong) u.inner = 0;
    static const char* mn[] = {"", " into an output", " in place", " into an output of other dimensions"};
    str what = fmt("functor of dimension %d on ", d) + a.text() + mn[mode] + fmt(" rule %d", u.rule) + (u.inner ? " by way of another" : "") + (u.offsets ? " with offsets" : "");
    note(what);
    if (rng.chance(1, 40)) sample(what);
    distinct(fmt("u%d t%d,%d m%d r%d ", d, t, to, mode, u.rule) + shp(s) + shp(os));
    u.outShape = os;
    User& rec = u.inner ? static_cast<User&>(inner) : static_cast<User&>(u);
    struct Open : Unary { Open() : Unary(0) {} static int dim(const Unary& x) { return x.*(&Open::mDim); } };
    if (u.inner) di = Open::dim(inner);

    if (reject || wrong) {
        Tensor o;
        if (mode == OUTPUT || mode == REFACTOR) o = operand(to, wrong ? os : s);
        if (mode == INPLACE) mustThrow("functor.reject", what, [&] { u(a.v, a.v); });
        else if (o.type) mustThrow("functor.reject", what + " to " + o.text(), [&] { u(a.v, o.v); });
        else mustThrow("functor.reject", what, [&] { var r = u(a.v); });
        check(rec.calls.empty(), "functor.reject", what + fmt(": rejected after %d calls", int(rec.calls.size())));
        a.verify("functor.rejected", what);
        if (o.type) o.verify("functor.rejected", what);
        ev("rejected");
        return;
    }
    // what is expected
    Tensor o;
    if (mode == OUTPUT || mode == REFACTOR) o = operand(to, os);
    Tensor before = a;
    std::vector<Num> want;
    int bs = 1;
    for (size_t k = os.size() - di; k < os.size(); k++) bs *= os[k];
    int calls = u.inner ? blockCount(a, di) : nb;
    for (int k = 0; k < calls; k++) {
        std::vector<Num> was(bs, mkNum(to, 0));
        if (mode == INPLACE) was = block(a, di, k).data;
        else if (mode != ALLOC) was = block(o, di, k).data;
        std::vector<Num> r = k < rec.failAt || rec.failAt < 0 ? effect(rec.rule, {block(a, di, k)}, was, to, k) : was;
        want.insert(want.end(), r.begin(), r.end());
    }
    var r;
    auto run = [&] {
        if (mode == ALLOC) r = u(a.v);
        else if (mode == INPLACE) u(a.v, a.v);
        else u(a.v, o.v);
    };
    if (rec.failAt >= 0) {
        str m = mustThrow("functor.throw", what, run);
        check(m == "the functor refuses", "functor.throw", what + ": threw another message: " + m);
        ev("functor_threw");
        calls = rec.failAt + 1;
    }
    else mustWork("functor.apply", what, run);
    check(int(rec.calls.size()) == calls, "functor.count", what + fmt(": called %d times, should be %d", int(rec.calls.size()), calls));
    for (int k = 0; k < calls; k++) {
        Call& c = rec.calls[k];
        sameSeen(what, k, "input", c.in[0], block(before, di, k), &a, di, u.offsets);
        ev("blocks");
        if (mode == INPLACE) sameSeen(what, k, "output", c.out, block(before, di, k), &a, di, u.offsets);
        else if (mode != ALLOC) sameSeen(what, k, "output", c.out, block(o, di, k), &o, di, u.offsets);
        else if (!u.offsets) {
            Shape bsh(os.end() - di, os.end());
            check(c.out.shape == bsh, "functor.block", what + fmt(": call %d was given an output ", k) + c.out.text());
        }
    }
    if (mode == ALLOC && rec.failAt < 0) {
        // what was allocated and not written is not specified
        if (rec.rule == ALTERNATE && bs) {
            check(r.size() == int(want.size()), "functor.result", what + fmt(": size %d", r.size()));
            for (size_t i = 0; i < want.size(); i++) if (int(i) % bs % 2 == 0) {
                Num g = get(r, i, to);
                check(bitSame(g, want[i]), "functor.result", what + fmt(": element %d is ", int(i)) + numText(g) + ", should be " + numText(want[i]));
            }
        }
        else result("functor.result", what, r, to, os, false, want, 0);
        check(rec.calls.empty() || !r.size() || !rec.calls[0].out.addr || rec.calls[0].out.addr == addrOf(r, to), "functor.place", what + ": the result is not what was written");
        a.verify("functor.operand", what);
    }
    else if (mode == INPLACE) {
        for (size_t i = 0; i < want.size(); i++) a.at(i) = want[i];
        a.verify("functor.inplace", what);
    }
    else {
        a.verify("functor.operand", what);
        if (o.type) {
            for (size_t i = 0; i < want.size(); i++) o.at(i) = want[i];
            o.verify("functor.output", what);
        }
    }
    ev(u.inner ? "composed" : mode == ALLOC ? "allocated" : mode == INPLACE ? "in_place" : "into_output");
}

VH_CASE_W(functor_scalar, 2)
{
    int t = rng.in(TYPE_CHAR, TYPE_CDOUBLE), dim = rng.in(1, 3);
    Form f = Form(rng.in(SCALAR, VIEW));
    if (f == ARRAY) dim = 1;
    Shape s = f < ARRAY ? Shape{1} : blockyShape(dim);
    Tensor a(t, s, f, randNum);
    f = a.form;
    bool scalar = f < ARRAY;
    Scalar u;
    int mode = rng.upto(3);
    int to = mode ? t : t;
    sprinkle(u, t, to);
    str what = str("dimensionless functor on ") + a.text() + (mode == 1 ? " in place" : mode == 2 ? " into an output" : "");
    note(what);
    distinct(fmt("s%d f%d m%d ", t, f, mode) + shp(s));
    std::vector<Num> want;
    Tensor before = a;
    for (int i = 0; i < a.size(); i++) {
        Seen e; e.data.push_back(a.at(i));
        want.push_back(mkNum(to, digest({e})));
    }
    int n = a.size();
    if (n && rng.chance(1, 10)) u.failAt = rng.upto(n);
    Tensor o;
    bool wrong = false;
    if (mode == 2 && !scalar) {
        Shape os = s;
        if (rng.chance(1, 6)) { os[rng.upto(dim)]++; wrong = total(os) != n; }
        o = Tensor(to, os, os.size() == 1 && f == ARRAY && total(os) != 1 ? ARRAY : VIEW, randNum);
    }
    if (wrong) {
        mustThrow("functor.reject", what, [&] { u(a.v, o.v); });
        check(u.calls.empty(), "functor.reject", what + ": rejected after being called");
        a.verify("functor.rejected", what);
        o.verify("functor.rejected", what);
        ev("rejected");
        return;
    }
    var r;
    auto run = [&] {
        if (mode == 1) a.use([&](var& x) { u(x, x); });
        else if (mode == 2 && o.type) u(a.v, o.v);
        else if (mode == 2) a.use([&](var& x) { r = numVar(mkNum(to, 1)); u(x, r); });
        else a.use([&](var& x) { r = u(x); });
    };
    int calls = n;
    if (u.failAt >= 0) {
        str m = mustThrow("functor.throw", what, run);
        check(m == "the functor refuses", "functor.throw", what + ": threw another message: " + m);
        calls = u.failAt + 1;
        ev("functor_threw");
    }
    else mustWork("functor.apply", what, run);
    check(int(u.calls.size()) == calls, "functor.count", what + fmt(": called %d times, should be %d", int(u.calls.size()), calls));
    // In any order: which element each call was for
    std::vector<int> of(calls, -1);
    std::vector<bool> taken(n, false);
    auto was = [&](int k, int i) {
        const Seen& e = u.calls[k].in[0];
        if (e.data.size() != 1) return false;
        Num g = e.data[0], w = before.at(i);
        return bitSame(g, w) || (isInt(g.t) && g.t == w.t && g.l == w.l);
    };
    for (int k = 0; k < calls; k++) {
        for (int q = 0; q < n && of[k] < 0; q++) {
            int i = (k + q) % n;
            if (!taken[i] && was(k, i)) { of[k] = i; taken[i] = true; }
        }
        check(of[k] >= 0, "functor.block", what + fmt(": call %d was given ", k) + u.calls[k].in[0].text() + ", which is none of the elements that are left");
        ev("elements");
    }
    std::vector<int> done(of.begin(), of.begin() + (u.failAt >= 0 ? u.failAt : n));
    bool inOrder = true;
    for (int k = 0; k < calls; k++) inOrder = inOrder && of[k] == k;
    if (u.failAt >= 0 && !inOrder) {
        // Elements of the same value can not be told apart; each is either done or as it was
        Tensor& x = mode == 1 ? a : o;
        if (mode && x.type) for (int i = 0; i < n; i++) { Num g = get(x.base, x.off + i, to); if (bitSame(g, want[i]) || (isInt(to) && g.l == want[i].l)) x.at(i) = want[i]; }
        done.clear();
    }
    if (mode == 1) { for (int i : done) a.at(i) = want[i]; a.verify("functor.inplace", what); }
    else {
        a.verify("functor.operand", what);
        if (o.type) { for (int i : done) o.at(i) = want[i]; o.verify("functor.output", what); }
        else if (u.failAt < 0) result("functor.result", what, r, to, s, scalar, want, 0);
    }
}

VH_CASE_W(functor_binary, 3)
{
    int d = rng.in(1, 2), lead = rng.in(0, rng.chance(1, 3) ? 4 : 2), t = rng.in(TYPE_CHAR, TYPE_CDOUBLE);
    Shape L = randShape(lead, lead > 2 ? 3 : 4);
    auto tail = [&](int k) { Shape s = L; for (int i = 0; i < k; i++) s.push_back(rng.in(1, 4)); return s; };
    Shape s1 = tail(d), s2 = tail(rng.chance(2, 3) ? d : lead ? rng.in(0, 3) : rng.in(1, 3)), so = s1;
    Binary u(d);
    sprinkle(u, t, t);
    int mode = rng.upto(3);      // allocate, output, in place
    if (mode == 1 && rng.chance(1, 2)) { so = tail(lead ? rng.in(0, 2) : rng.in(1, 2)); }
    int t2 = t;
    bool wrong = false;
    if (rng.chance(1, 6)) {
        wrong = true;
        switch (rng.upto(3)) {
        case 0: while (t2 == t) t2 = rng.in(TYPE_CHAR, TYPE_CDOUBLE); break;
        case 1: if (!lead) { wrong = false; break; }
            s2[rng.upto(lead)] += rng.chance(1, 2) ? 1 : -1;
            if (!total(s2)) wrong = false, s2 = s1;
            break;
        default: if (mode != 1 || !lead) { wrong = false; break; }
            { int& k = so[rng.upto(lead)]; k += k > 1 && rng.chance(1, 2) ? -1 : 1; }
        }
    }
    int nb = total(L);
    Tensor a = operand(t, s1), b = operand(t2, s2), o;
    if (mode == 1) o = operand(t, so);
    str what = fmt("binary functor of dimension %d on ", d) + a.text() + " and " + b.text() + (mode == 1 ? " into " + o.text() : mode == 2 ? " in place" : "");
    note(what);
    distinct(fmt("b%d t%d m%d ", d, t, mode) + shp(s1) + shp(s2) + shp(so));
    if (wrong) {
        if (mode == 1) mustThrow("functor.reject", what, [&] { u(a.v, b.v, o.v); });
        else if (mode == 2) mustThrow("functor.reject", what, [&] { u(a.v, b.v, a.v); });
        else mustThrow("functor.reject", what, [&] { var r = u(a.v, b.v); });
        check(u.calls.empty(), "functor.reject", what + fmt(": rejected after %d calls", int(u.calls.size())));
        a.verify("functor.rejected", what); b.verify("functor.rejected", what);
        if (o.type) o.verify("functor.rejected", what);
        ev("rejected");
        return;
    }
    Tensor before = a;
    std::vector<Num> want;
    auto blk = [&](const Tensor& x, int k) { Seen s = block(x, x.dim() - lead, k); return s; };
    for (int k = 0; k < nb; k++) {
        std::vector<Num> was = mode == 1 ? blk(o, k).data : mode == 2 ? blk(a, k).data : std::vector<Num>(blk(a, k).data.size(), mkNum(t, 0));
        for (auto& n : effect(u.rule, {blk(a, k), blk(b, k)}, was, t, k)) want.push_back(n);
    }
    if (mode == 0 && u.rule == ALTERNATE) u.rule = DIGEST, want.clear();
    if (want.empty()) for (int k = 0; k < nb; k++)
        for (auto& n : effect(u.rule, {blk(a, k), blk(b, k)}, std::vector<Num>(blk(a, k).data.size(), mkNum(t, 0)), t, k)) want.push_back(n);
    var r;
    mustWork("functor.apply", what, [&] {
        if (mode == 1) u(a.v, b.v, o.v);
        else if (mode == 2) u(a.v, b.v, a.v);
        else r = u(a.v, b.v);
    });
    check(int(u.calls.size()) == nb, "functor.count", what + fmt(": called %d times, should be %d", int(u.calls.size()), nb));
    for (int k = 0; k < nb; k++) {
        sameSeen(what, k, "first input", u.calls[k].in[0], blk(before, k), &a, 0);
        sameSeen(what, k, "second input", u.calls[k].in[1], blk(b, k), b.dim() > lead ? &b : 0, 0);
        if (mode == 1) sameSeen(what, k, "output", u.calls[k].out, blk(o, k), o.dim() > lead ? &o : 0, 0);
        ev("binary_blocks");
    }
    b.verify("functor.operand", what);
    if (mode == 2) { for (size_t i = 0; i < want.size(); i++) a.at(i) = want[i]; a.verify("functor.inplace", what); return; }
    a.verify("functor.operand", what);
    if (mode == 1) { for (size_t i = 0; i < want.size(); i++) o.at(i) = want[i]; o.verify("functor.output", what); }
    else result("functor.result", what, r, t, s1, false, want, 0);
}

VH_CASE_W(functor_arith, 2)
{
    // the right operand is used whole, against every block of the left
    int dim = rng.in(1, 4), d = rng.in(1, dim), t = rng.in(TYPE_CHAR, TYPE_CDOUBLE);
    Shape s1 = blockyShape(dim), s2(s1.end() - d, s1.end());
    bool wrong = false, badOut = false;
    int t2 = t;
    if (rng.chance(1, 8)) {
        wrong = true;
        if (rng.chance(1, 3)) { while (t2 == t) t2 = rng.in(TYPE_CHAR, TYPE_CDOUBLE); }
        else if (rng.chance(1, 2)) { s2 = s1; s2.insert(s2.begin(), 2); }
        else badOut = true;
    }
    if (total(s2) == 1) s2.back() = 2, s1.back() = 2;
    Shape so = s1;
    if (badOut) {       // an output of more, of fewer, or of no whole blocks
        if (dim > d && rng.chance(2, 3)) { int& k = so[rng.upto(dim - d)]; k += k > 1 && rng.chance(1, 2) ? -1 : 1; }
        else if (dim > d && rng.chance(1, 2) && total(s1) > total(s2)) so = s2;
        else if (d > 1 && rng.chance(1, 2)) so.assign(s1.end() - rng.in(1, d - 1), s1.end());
        else so.insert(so.begin(), 2);
        if (!total(so) || total(so) == 1) { so = s1; so.insert(so.begin(), 2); }
        int k = 1, n = 1;
        for (int i = 0; i < int(so.size()) - d; i++) k *= so[i];
        for (int i = 0; i < dim - d; i++) n *= s1[i];
        wrong = int(so.size()) < d || k != n;
    }
    Tensor a = operand(t, s1), b = operand(t2, s2), o;
    int mode = badOut ? 1 : rng.upto(3);
    if (mode == 1) o = operand(t, so);
    if (badOut && !wrong) return;
    Arith u;
    sprinkle(u, t, t);
    if (mode == 0 && u.rule == ALTERNATE) u.rule = DIGEST;
    str what = str("arithmetic functor on ") + a.text() + " and " + b.text() + (mode == 1 ? " into an output" : mode == 2 ? " in place" : "");
    note(what);
    distinct(fmt("a%d t%d m%d ", d, t, mode) + shp(s1));
    var r;
    auto run = [&] { if (mode == 1) u(a.v, b.v, o.v); else if (mode == 2) u(a.v, b.v, a.v); else r = u(a.v, b.v); };
    if (wrong) {
        mustThrow("functor.reject", what, run);
        check(u.calls.empty(), "functor.reject", what + ": rejected after being called");
        a.verify("functor.rejected", what); b.verify("functor.rejected", what);
        if (o.type) o.verify("functor.rejected", what);
        ev("rejected");
        return;
    }
    int nb = blockCount(a, d);
    Tensor before = a;
    Seen whole = block(b, d, 0);
    std::vector<Num> want;
    for (int k = 0; k < nb; k++) {
        Seen x = block(a, d, k);
        std::vector<Num> was = mode == 1 ? block(o, d, k).data : mode == 2 ? x.data : std::vector<Num>(x.data.size(), mkNum(t, 0));
        for (auto& n : effect(u.rule, {x, whole}, was, t, k)) want.push_back(n);
    }
    mustWork("functor.apply", what, run);
    check(int(u.calls.size()) == nb, "functor.count", what + fmt(": called %d times, should be %d", int(u.calls.size()), nb));
    for (int k = 0; k < nb; k++) {
        sameSeen(what, k, "left operand", u.calls[k].in[0], block(before, d, k), &a, d);
        sameSeen(what, k, "right operand", u.calls[k].in[1], whole, 0, d);
        if (mode == 1) sameSeen(what, k, "output", u.calls[k].out, block(o, d, k), &o, d);
        ev("arith_blocks");
    }
    b.verify("functor.operand", what);
    if (mode == 2) { for (size_t i = 0; i < want.size(); i++) a.at(i) = want[i]; a.verify("functor.inplace", what); return; }
    a.verify("functor.operand", what);
    if (mode == 1) { for (size_t i = 0; i < want.size(); i++) o.at(i) = want[i]; o.verify("functor.output", what); }
    else result("functor.result", what, r, t, s1, false, want, 0);
}

VH_CASE_W(functor_nary, 4)
{
    int d = rng.in(1, 3), lead = rng.in(0, rng.chance(1, 3) ? 4 : 2), t = rng.in(TYPE_CHAR, TYPE_CDOUBLE);
    int N = rng.chance(1, 12) ? 0 : rng.in(1, 4);
    Shape L = randShape(lead, lead > 2 ? 3 : 4);
    if (lead && rng.chance(1, 14)) L[rng.upto(lead)] = 0;
    auto tail = [&](int k) { Shape s = L; for (int i = 0; i < k; i++) s.push_back(rng.in(1, 4)); return s; };
    Nary u(d);
    sprinkle(u, t, t);
    std::vector<Shape> ss;
    for (int j = 0; j < N; j++) ss.push_back(tail(rng.chance(1, 2) ? d : lead ? rng.in(0, 3) : rng.in(1, 3)));
    if (N) ss[0] = tail(d);
    int mode = rng.upto(4);   // allocate like the first, allocate anyhow, output, in place (first)
    if (!N && (mode == 0 || mode == 3)) mode = rng.in(1, 2);
    Shape so = mode == 0 || mode == 3 ? ss[0] : tail(d);
    if (mode == 1) { u.mk = true; u.outShape = so; }
    if (mode < 2 && u.rule == ALTERNATE) u.rule = DIGEST;
    int tj = t, jw = -1;
    bool wrong = false;
    if (N > 1 && rng.chance(1, 6)) {
        wrong = true;
        jw = rng.in(1, N - 1);
        switch (rng.upto(4)) {
        case 0: while (tj == t) tj = rng.in(TYPE_CHAR, TYPE_CDOUBLE); break;
        case 1: if (lead < 2) wrong = false; else ss[jw] = {rng.in(1, 4)}; break;       // too few dimensions
        case 2: if (!lead) wrong = false; else ss[jw][rng.upto(lead)] += 1; break;      // too many blocks
        default: if (!lead) { wrong = false; break; }
            { int k = rng.upto(lead); if (ss[jw][k] < 2) wrong = false; else ss[jw][k] -= 1; }
        }
        if (wrong && !total(L)) { wrong = false; ss[jw] = tail(d); tj = t; }
        if (!wrong) jw = -1;
    }
    else if (rng.chance(1, 20) && N) { // output of too few dimensions
        if (mode >= 1 && mode <= 2 && d > 1) { wrong = true; so = Shape(rng.in(1, d - 1), 2); u.outShape = so; }
    }
    std::vector<Tensor> in(N);
    var list;
    list = lu::nil;
    for (int j = 0; j < N; j++) in[j] = operand(j == jw ? tj : t, ss[j]);
    str what = fmt("%d-ary functor of dimension %d on", N, d);
    for (auto& x : in) { what += " " + x.text(); list[int(&x - &in[0])] = x.v; }
    Tensor o;
    if (mode == 2) o = operand(t, so);
    what += mode == 2 ? " into " + o.text() : mode == 3 ? " in place" : mode == 1 ? " allocating " + shp(so) : "";
    note(what);
    if (rng.chance(1, 40)) sample(what);
    distinct(fmt("n%d,%d t%d m%d ", N, d, t, mode) + shp(L) + shp(so));
    var r;
    auto run = [&] {
        if (mode == 2) u(list, o.v);
        else if (mode == 3) u(list, in[0].v);
        else if (!N && rng.chance(1, 2)) r = u();
        else r = u(list);
    };
    if (wrong) {
        mustThrow("functor.reject", what, run);
        check(u.calls.empty(), "functor.reject", what + fmt(": rejected after %d calls", int(u.calls.size())));
        for (auto& x : in) x.verify("functor.rejected", what);
        if (o.type) o.verify("functor.rejected", what);
        ev("rejected");
        return;
    }
    int nb = total(L);
    auto blk = [&](const Tensor& x, int k) { return block(x, x.dim() - lead, k); };
    std::vector<Seen> firsts;
    std::vector<Num> want;
    for (int k = 0; k < nb; k++) {
        std::vector<Seen> v;
        for (auto& x : in) v.push_back(blk(x, k));
        int n = 1;
        for (int q = lead; q < int(so.size()); q++) n *= so[q];
        std::vector<Num> was = mode == 2 ? blk(o, k).data : mode == 3 ? blk(in[0], k).data : std::vector<Num>(n, mkNum(t, 0));
        for (auto& x : effect(u.rule, v, was, t, k)) want.push_back(x);
    }
    std::vector<Tensor> before = in;
    mustWork("functor.apply", what, run);
    check(int(u.calls.size()) == nb, "functor.count", what + fmt(": called %d times, should be %d", int(u.calls.size()), nb));
    for (int k = 0; k < nb; k++) {
        Call& c = u.calls[k];
        check(int(c.in.size()) == N, "functor.block", what + fmt(": call %d was given %d inputs", k, int(c.in.size())));
        for (int j = 0; j < N; j++) {
            sameSeen(what, k, fmt("input %d", j).c_str(), c.in[j], blk(before[j], k), in[j].dim() > lead ? &in[j] : 0, 0);
            ev("nary_blocks");
        }
        if (mode == 2) sameSeen(what, k, "output", c.out, blk(o, k), &o, 0);
    }
    if (mode == 3) for (size_t i = 0; i < want.size(); i++) in[0].at(i) = want[i];
    for (auto& x : in) x.verify(mode == 3 && &x == &in[0] ? "functor.inplace" : "functor.operand", what);
    if (mode == 2) { for (size_t i = 0; i < want.size(); i++) o.at(i) = want[i]; o.verify("functor.output", what); }
    else if (mode < 2) result("functor.result", what, r, t, so, false, want, 0);
    if (!N) ev("generators");
}

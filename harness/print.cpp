// C34: printed text.
#include "model.h"
#include <iomanip>
using namespace vh;
using namespace md;

namespace {
std::map<const Obj*, int> offsets;      // of views into a longer array

double real()
{
    switch (rng.upto(7)) {
    case 0: return rng.in(-3, 3);
    case 1: return rng.sym() * std::pow(10.0, rng.in(-40, 40));
    case 2: return rng.in(-1000, 1000) * 0.1;
    case 3: return rng.chance(1, 4) ? (rng.chance(1, 2) ? INFINITY : -INFINITY) : rng.chance(1, 4) ? NAN : -0.0;
    case 4: return 1e6 + rng.in(-2, 2);
    default: return rng.sym() * 100;
    }
}
Num number(int t)
{
    if (t == TYPE_CHAR) return mkInt(t, char(rng.chance(1, 3) ? rng.upto(256) : rng.chance(1, 4) ? (rng.chance(1, 2) ? '"' : '\\') : rng.in(32, 126)));
    if (isInt(t)) { long x = rng.chance(1, 2) ? rng.in(-20, 20) : long(rng.next()) >> rng.upto(64); return mkInt(t, t == TYPE_INT ? int(x) : x); }
    return mkFlt(t, real(), isCplx(t) ? real() : 0);
}
int offsetOf(const OP& o) { auto i = offsets.find(o.get()); return i == offsets.end() ? 0 : i->second; }

MV tensor()
{
    OP o = newObj(randType());
    int size = 1, dims = rng.chance(1, 3) ? 1 : rng.in(2, 5);
    for (int i = 0; i < dims; i++) { o->shape.push_back(rng.chance(1, 10) ? rng.in(5, 9) : rng.in(1, 4)); size *= o->shape.back(); }
    for (int i = 0; i < size; i++) o->d.push_back(number(o->type));
    if (rng.chance(1, 3)) offsets[o.get()] = rng.in(1, 7);
    return MV(o);
}
MV value(int depth)
{
    int k = rng.upto(depth > 0 ? 13 : 9);
    if (k == 0) return MV();
    if (k <= 2) return MV(number(rng.in(TYPE_CHAR, TYPE_CFLOAT)));
    if (k <= 4) { str s; for (int n = rng.upto(9); n > 0; n--) s += char(rng.chance(1, 2) ? "\"\\\n \0'a,["[rng.upto(9)] : rng.upto(256)); return MV(strObj(s)); }
    if (k <= 6) return tensor();
    if (k <= 8) {
        OP o = newObj(randType());
        for (int n = rng.chance(1, 10) ? rng.in(5, 40) : rng.upto(5); n > 0; n--) o->d.push_back(number(o->type));
        return MV(o);
    }
    if (k <= 10) {
        OP o = newObj(TYPE_VAR);
        for (int n = rng.upto(5); n > 0; n--) o->v.push_back(value(depth - 1));
        return MV(o);
    }
    OP o = newObj(TYPE_PAIR);
    for (int n = rng.upto(5); n > 0; n--) {
        MV key = randKey();
        bool f;
        int p = find(o, key, f);
        if (f) continue;
        o->key.insert(o->key.begin() + p, key);
        o->v.insert(o->v.begin() + p, value(depth - 1));
    }
    return MV(o);
}

// The real value, made in one of several ways
var make(const MV& m)
{
    if (m.k != MV::OBJ) return md::build(m);
    const OP& o = m.o;
    var r;
    if (o->dense()) {
        int off = offsetOf(o), n = o->size();
        auto zero = [&] { return numVar(mkNum(o->type, 0)); };
        if (o->shape.size()) {
            r = zero();
            r.resize(off + n + (off ? 2 : 0));
            r.array();
            for (int i = 0; i < n; i++) r.at(off + i) = numVar(o->d[i]);
            var shape = 0;
            shape.array();
            shape.resize(o->shape.size());
            for (size_t i = 0; i < o->shape.size(); i++) shape[i] = o->shape[i];
            return r.view(shape, off);
        }
        switch (rng.upto(3)) {
        case 0: return md::build(m);
        case 1: r = zero(); r.array(); r.resize(0); for (auto& x : o->d) r.push(numVar(x)); return r;
        default:
            r = zero(); r.array(); r.resize(n + 3);
            for (int i = 0; i < n; i++) r.at(i + 1) = numVar(o->d[i]);
            r.shift();
            r.resize(n);
            if (rng.chance(1, 2)) return r.copy();
            return r;
        }
    }
    if (o->type == TYPE_PAIR) {
        r[lu::nil];
        std::vector<int> order;
        for (int i = 0; i < o->size(); i++) order.insert(order.begin() + rng.upto(i + 1), i);
        for (int i : order) { var k = md::build(o->key[i]); r[k] = make(o->v[i]); }
        return r;
    }
    if (rng.chance(1, 2) && o->size()) {
        r.resize(0);
        for (auto& e : o->v) { var x = make(e); r.push(x); }
        return r;
    }
    r.resize(o->size());
    for (int i = 0; i < o->size(); i++) { var e = make(o->v[i]); r.at(i) = e; }
    return r;
}

// The reference printer
void num(std::ostream& o, const Num& n, bool quote = true)
{
    switch (n.t) {
    case TYPE_CHAR: o << "'" << char(n.l) << "'"; break;
    case TYPE_INT: o << int(n.l); break;
    case TYPE_LONG: o << n.l; break;
    case TYPE_FLOAT: o << float(n.re); break;
    case TYPE_DOUBLE: o << n.re; break;
    case TYPE_CFLOAT: o << cfloat(n.re, n.im); break;
    default: o << cdouble(n.re, n.im);
    }
}
void print(std::ostream& o, const MV& m, int in)
{
    if (m.k == MV::NIL) { o << "null"; return; }
    if (m.k == MV::NUM) { num(o, m.n); return; }
    const Obj& x = *m.o;
    str pad(in, ' '), more(in + 2, ' ');
    int n = x.size();
    if (x.shape.size()) {
        int d = x.shape.size();
        if (d < 2) { o << "["; for (int i = 0; i < n; i++) { num(o, x.d[i]); if (i < n - 1) o << ", "; } o << "]"; return; }
        if (d > 2) { for (int i = 0; i < d; i++) { if (i) o << "x"; o << x.shape[i]; } o << " tensor:\n"; }
        int rows = x.shape[d - 2], cols = x.shape[d - 1], mats = n / (rows * cols), at = 0;
        for (int k = 0; k < mats; k++) {
            if (k) o << "\n";
            o << "[\n";
            for (int r = 0; r < rows; r++) {
                o << more;
                for (int c = 0; c < cols; c++, at++) { num(o, x.d[at]); if (c < cols - 1) o << ", "; else if (r < rows - 1) o << ","; }
                o << "\n";
            }
            o << pad << "]";
        }
        return;
    }
    if (x.type == TYPE_CHAR) { o << "\""; for (auto& c : x.d) { if (c.l == '"' || c.l == '\\') o << '\\'; o << char(c.l); } o << "\""; return; }
    if (x.type == TYPE_CDOUBLE) {
        if (n == 1) { num(o, x.d[0]); return; }
        o << "[\n";
        for (int i = 0; i < n; i++) { o << more; num(o, x.d[i]); o << (i < n - 1 ? ",\n" : "\n"); }
        o << pad << "]";
        return;
    }
    if (x.dense()) { o << "["; for (int i = 0; i < n; i++) { if (i) o << ", "; num(o, x.d[i]); } o << "]"; return; }
    if (x.type == TYPE_PAIR) {
        o << "{";
        for (int i = 0; i < n; i++) { o << (i ? ",\n" : "\n") << more; print(o, x.key[i], 0); o << ": "; print(o, x.v[i], in + 2); }
        if (n) o << "\n" << pad;
        o << "}";
        return;
    }
    o << "[\n";
    for (int i = 0; i < n; i++) { o << more; print(o, x.v[i], in + 2); o << (i < n - 1 ? ",\n" : "\n"); }
    o << pad << "]";
}

void format(std::ostream& a, std::ostream& b, str& d)
{
    std::ios_base::fmtflags f = a.flags();
    int p = rng.chance(1, 2) ? 6 : rng.upto(18);
    if (rng.chance(1, 5)) f |= rng.chance(1, 2) ? std::ios::scientific : std::ios::fixed;
    if (rng.chance(1, 10)) f |= std::ios::showpos;
    if (rng.chance(1, 20)) f |= std::ios::showpoint;
    if (rng.chance(1, 30)) f |= std::ios::uppercase;
    a.flags(f); b.flags(f);
    a.precision(p); b.precision(p);
    d = fmt("precision %d flags %x", p, unsigned(f));
}
void differ(const str& got, const str& want, const char* key, const str& what)
{
    if (got == want) return;
    size_t i = 0;
    while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
    size_t from = i > 60 ? i - 60 : 0;
    fail(key, what + fmt(": differs at %zu: printed ...", i) + show(got.substr(from, 120), 120) + " expected ..." + show(want.substr(from, 120), 120));
}
}

VH_CASE_W(print_values, 6)
{
    offsets.clear();
    MV m = rng.chance(1, 4) ? tensor() : value(rng.in(0, 4));
    if (rng.chance(1, 60)) for (int n = rng.in(5, 60); n > 0; n--) { OP o = newObj(rng.chance(1, 2) ? TYPE_VAR : TYPE_PAIR); if (o->type == TYPE_PAIR) o->key.push_back(MV(strObj("k"))); o->v.push_back(m); m = MV(o); }
    var v = make(m);
    std::ostringstream want, got;
    str fd;
    format(want, got, fd);
    print(want, m, 0);
    str w = want.str(), what = fd + " " + vh::canon(v).substr(0, 800), before = vh::canon(v);
    note(what);
    distinct(w + fd);
    if (rng.chance(1, 400)) sample(w.substr(0, 200));
    auto flags = got.flags();
    auto prec = got.precision();
    mustWork("print.works", what, [&] { got << v; });
    differ(got.str(), w, "print.text", what);
    check(got.good() && got.flags() == flags && got.precision() == prec, "print.stream", what + ": printing changed the state of the stream");
    check(vh::canon(v) == before, "print.value", what + ": printing changed the value to " + vh::canon(v).substr(0, 800));
    ev("prints");
    ev("characters", w.size());
    if (m.k == MV::OBJ) ev(m.o->shape.size() > 2 ? "tensors" : m.o->shape.size() == 2 ? "matrices" : m.o->type == TYPE_PAIR ? "maps" : m.o->type == TYPE_VAR ? "nested" : m.o->type == TYPE_CHAR ? "strings" : "arrays");
    // equal values print the same however they were built
    if (rng.chance(1, 3)) {
        var u = make(m);
        std::ostringstream o;
        o.flags(flags); o.precision(prec);
        o << u;
        differ(o.str(), w, "print.equal", what + " built another way");
        ev("rebuilt");
    }
    // one after another, to a variable, and by element
    if (rng.chance(1, 3)) {
        lu::varstream vs;
        vs.flags(flags); vs.precision(prec);
        vs << "<" << v << "|" << v << ">";
        differ(text(var(vs)), "<" + w + "|" + w + ">", "print.varstream", what + " to a variable");
        ev("varstreams");
    }
    if (m.k == MV::OBJ && m.o->size() && m.o->type != TYPE_CDOUBLE && rng.chance(1, 2)) {
        int i = rng.upto(m.o->size());
        std::ostringstream a, b;
        if (m.o->dense()) num(a, m.o->d[i]); else print(a, m.o->v[i], 0);
        b << v[i];
        differ(b.str(), a.str(), "print.element", what + fmt(" element %d", i));
        ev("element_prints");
    }
    check(vh::canon(v) == before, "print.value", what + ": printing changed the value to " + vh::canon(v).substr(0, 800));
}

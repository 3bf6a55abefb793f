/*
 * Reference model of values: what a variable should hold, written from the
 * documented behaviour and independent of the library's own containers.
 */
#ifndef MODEL_H
#define MODEL_H
#include "vh.h"
#include <lube/heap.h>

namespace md
{
    using namespace lu;
    struct Obj;
    typedef std::shared_ptr<Obj> OP;

    /// A number of a given type; l for the integer types, re/im otherwise
    struct Num { int t; long l; double re, im; };

    /// A value: nil, a number (not cdouble), or an array
    struct MV {
        enum { NIL, NUM, OBJ } k;
        Num n;
        OP o;
        MV() : k(NIL) { n = {0, 0, 0, 0}; }
        MV(Num x) : k(NUM), n(x) {}
        MV(OP x) : k(OBJ), o(x) { n = {0, 0, 0, 0}; }
    };

    struct Obj {
        int type;                 // element type
        std::vector<Num> d;       // dense elements
        std::vector<MV> v;        // var elements or map values
        std::vector<MV> key;      // map keys
        std::vector<int> shape;   // non-empty: matrix view of that shape
        bool dense() const { return type < TYPE_VAR; }
        int size() const { return dense() ? int(d.size()) : int(v.size()); }
    };

    inline bool isInt(int t) { return t == TYPE_CHAR || t == TYPE_INT || t == TYPE_LONG; }
    inline bool isReal(int t) { return t == TYPE_FLOAT || t == TYPE_DOUBLE; }
    inline bool isCplx(int t) { return t == TYPE_CFLOAT || t == TYPE_CDOUBLE; }
    inline Num mkInt(int t, long l) { return {t, l, 0, 0}; }
    inline Num mkFlt(int t, double r, double i = 0) {
        if (t == TYPE_FLOAT || t == TYPE_CFLOAT) { r = float(r); i = float(i); }
        return {t, 0, r, i};
    }
    inline Num mkNum(int t, double x) { return isInt(t) ? mkInt(t, long(x)) : mkFlt(t, x); }
    inline OP newObj(int type) { auto o = std::make_shared<Obj>(); o->type = type; return o; }
    inline OP strObj(const str& s) {
        auto o = newObj(TYPE_CHAR);
        for (char c : s) o->d.push_back(mkInt(TYPE_CHAR, c));
        return o;
    }
    inline str bytes(const OP& o) { str s; for (auto& n : o->d) s += char(n.l); return s; }
    inline bool isStr(const MV& m) { return m.k == MV::OBJ && m.o->type == TYPE_CHAR; }

    /// The number as a value (a double complex number is an array of one)
    inline MV numVal(const Num& n) {
        if (n.t != TYPE_CDOUBLE) return MV(n);
        auto o = newObj(TYPE_CDOUBLE);
        o->d.push_back(n);
        return MV(o);
    }
    inline MV elemVal(const OP& o, int i) { return o->dense() ? numVal(o->d[i]) : o->v[i]; }

    enum Conv { OK, THROW, SKIP };

    /// C++ conversion of a number to an element type; SKIP if C++ leaves it open
    inline Conv convNum(const Num& a, int t, Num& r) {
        if (isInt(a.t)) {
            switch (t) {
            case TYPE_CHAR: r = mkInt(t, static_cast<char>(a.l)); return OK;
            case TYPE_INT: r = mkInt(t, static_cast<int>(a.l)); return OK;
            case TYPE_LONG: r = mkInt(t, a.l); return OK;
            case TYPE_FLOAT: case TYPE_CFLOAT: r = {t, 0, double(static_cast<float>(a.l)), 0}; return OK;
            default: r = {t, 0, static_cast<double>(a.l), 0}; return OK;
            }
        }
        double lim = t == TYPE_CHAR ? 127 : t == TYPE_INT ? 2147483000.0 : 9.2e18;
        switch (t) {
        case TYPE_CHAR: case TYPE_INT: case TYPE_LONG:
            if (!(std::fabs(a.re) <= lim)) return SKIP;
            r = mkInt(t, long(a.re)); return OK;
        case TYPE_FLOAT: r = mkFlt(t, a.re); return OK;
        case TYPE_DOUBLE: r = mkFlt(t, a.re); return OK;
        default: r = mkFlt(t, a.re, a.im); return OK;
        }
    }

    template<class T> bool parse(const str& s, T& r) {
        std::istringstream is(s);
        is >> r;
        return !is.fail();
    }

    /// Conversion of any value to an element type, as storing it does
    inline Conv conv(const MV& v, int t, Num& r, const OP& self = nullptr) {
        if (v.k == MV::NIL) { r = mkNum(t, 0); return OK; }
        if (v.k == MV::NUM) return convNum(v.n, t, r);
        if (self && v.o == self) return SKIP;
        if (v.o->type == TYPE_CHAR) {
            str s = bytes(v.o);
            bool ok = false;
            switch (t) {
            case TYPE_CHAR: { char x = 0; ok = parse(s, x); r = mkInt(t, x); break; }
            case TYPE_INT: { int x = 0; ok = parse(s, x); r = mkInt(t, x); break; }
            case TYPE_LONG: { long x = 0; ok = parse(s, x); r = mkInt(t, x); break; }
            case TYPE_FLOAT: { float x = 0; ok = parse(s, x); r = mkFlt(t, x); break; }
            case TYPE_DOUBLE: { double x = 0; ok = parse(s, x); r = mkFlt(t, x); break; }
            case TYPE_CFLOAT: { cfloat x; ok = parse(s, x); r = mkFlt(t, x.real(), x.imag()); break; }
            case TYPE_CDOUBLE: { cdouble x; ok = parse(s, x); r = mkFlt(t, x.real(), x.imag()); break; }
            }
            return ok ? OK : THROW;
        }
        if (v.o->size() != 1 || v.o->type == TYPE_PAIR) return THROW;
        if (v.o->dense()) return convNum(v.o->d[0], t, r);
        return conv(v.o->v[0], t, r, self);
    }

    // ---- order and equality -----------------------------------------------
    inline int cmpd(double a, double b) { return a < b ? -1 : a > b ? 1 : 0; }
    inline int cmpCplx(const Num& a, const Num& b, bool f) {
        double x = f ? std::abs(cfloat(float(a.re), float(a.im))) : std::abs(cdouble(a.re, a.im));
        double y = f ? std::abs(cfloat(float(b.re), float(b.im))) : std::abs(cdouble(b.re, b.im));
        int c = cmpd(x, y);
        if (!c) c = cmpd(a.re, b.re);
        return c ? c : cmpd(a.im, b.im);
    }
    inline int cmp(const MV& a, const MV& b);
    inline int cmpNum(const Num& a, const Num& b) {
        if (a.t != b.t) return a.t < b.t ? -1 : 1;
        if (a.t == TYPE_CHAR) return (unsigned char)(a.l) < (unsigned char)(b.l) ? -1 : (unsigned char)(a.l) > (unsigned char)(b.l);
    if (isInt(a.t)) return a.l < b.l ? -1 : a.l > b.l ? 1 : 0;
        if (isReal(a.t)) return cmpd(a.re, b.re);
        return cmpCplx(a, b, a.t == TYPE_CFLOAT);
    }
    inline int cmpObj(const OP& a, const OP& b) {
        if (a == b) return 0;
        bool pa = a->type == TYPE_PAIR, pb = b->type == TYPE_PAIR;
        if (pa != pb) return pa ? 1 : -1;
        int n = std::min(a->size(), b->size());
        if (a->type == TYPE_CHAR && b->type == TYPE_CHAR) {
            for (int i = 0; i < n; i++) {
                unsigned char x = a->d[i].l, y = b->d[i].l;
                if (x != y) return x < y ? -1 : 1;
            }
        }
        else if (a->dense() && b->dense() && (a->type != b->type || a->type != TYPE_CDOUBLE)) {
            for (int i = 0; i < n; i++) {
                // a double complex element counts as an array, below any number
                int ta = a->type == TYPE_CDOUBLE, tb = b->type == TYPE_CDOUBLE;
                int c = ta != tb ? (ta ? -1 : 1) : cmpNum(a->d[i], b->d[i]);
                if (c) return c;
            }
        }
        else if (a->type == TYPE_CDOUBLE && b->type == TYPE_CDOUBLE) {
            for (int i = 0; i < n; i++)
                if (int c = cmpCplx(a->d[i], b->d[i], false)) return c;
        }
        else for (int i = 0; i < n; i++) {
            if (pa) if (int c = cmp(a->key[i], b->key[i])) return c;
            if (int c = cmp(elemVal(a, i), elemVal(b, i))) return c;
        }
        return a->size() < b->size() ? -1 : a->size() > b->size() ? 1 : 0;
    }
    inline int cmp(const MV& a, const MV& b) {
        int ta = a.k == MV::NUM ? a.n.t : TYPE_ARRAY, tb = b.k == MV::NUM ? b.n.t : TYPE_ARRAY;
        if (ta != tb) return ta < tb ? -1 : 1;
        if (a.k == MV::NUM) return cmpNum(a.n, b.n);
        if (a.k == MV::NIL || b.k == MV::NIL) return int(a.k != MV::NIL) - int(b.k != MV::NIL);
        return cmpObj(a.o, b.o);
    }

    // ---- canonical text, same form as vh::canon ------------------------------
    inline str numText(const Num& n) {
        switch (n.t) {
        case TYPE_CHAR: return vh::fmt("c%d", int(n.l));
        case TYPE_INT: return vh::fmt("i%d", int(n.l));
        case TYPE_LONG: return vh::fmt("l%ld", n.l);
        case TYPE_FLOAT: return vh::fmt("f%a", n.re);
        case TYPE_DOUBLE: return vh::fmt("d%a", n.re);
        case TYPE_CFLOAT: return vh::fmt("cf%a,%a", n.re, n.im);
        case TYPE_CDOUBLE: return vh::fmt("cd%a,%a", n.re, n.im);
        }
        return "?";
    }
    inline str canon(const MV& m, int depth = 0) {
        if (depth > 80) return "<deep>";
        if (m.k == MV::NIL) return "nil";
        if (m.k == MV::NUM) return numText(m.n);
        const Obj& o = *m.o;
        if (o.type == TYPE_CHAR) return "\"" + vh::show(bytes(m.o), 1 << 20) + "\"";
        str r = str(lu::typeStr(o.type)) + vh::fmt("[%d]{", o.size());
        for (int i = 0; i < o.size(); i++) {
            if (o.type == TYPE_PAIR) r += canon(o.key[i], depth + 1) + ":";
            if (o.dense()) r += numText(o.d[i]) + ";";
            else r += canon(o.v[i], depth + 1) + ";";
        }
        return r + "}";
    }

    // ---- generation -----------------------------------------------------------
    inline Num randNum(int t) {
        using namespace vh;
        static const std::vector<long> sp = {0, 1, -1, 2, 7, 9, 10, 63, 64, 65, 100, 127, -128};
        static const std::vector<double> fs = {0, 1, -1, 0.5, 2, -2.25, 3.75, 1e-3, 100, -64};
        switch (t) {
        case TYPE_CHAR: return mkInt(t, rng.chance(1, 4) ? char(rng.upto(256)) : 'a' + rng.upto(26));
        case TYPE_INT: return mkInt(t, rng.chance(3, 4) ? rng.pick(sp) : int(rng.next()));
        case TYPE_LONG: return mkInt(t, rng.chance(3, 4) ? rng.pick(sp) : long(rng.next()));
        default:
        {
            double a = rng.chance(1, 2) ? rng.pick(fs) : rng.sym() * 100;
            double b = rng.chance(1, 2) ? rng.pick(fs) : rng.sym() * 100;
            return mkFlt(t, a, isCplx(t) ? b : 0);
        }
        }
    }
    inline var numVar(const Num& n) {
        switch (n.t) {
        case TYPE_CHAR: return var(char(n.l));
        case TYPE_INT: return var(int(n.l));
        case TYPE_LONG: return var(n.l);
        case TYPE_FLOAT: return var(float(n.re));
        case TYPE_DOUBLE: return var(n.re);
        case TYPE_CFLOAT: return var(cfloat(n.re, n.im));
        default: return var(cdouble(n.re, n.im));
        }
    }
    inline str randStr(int max = 12) {
        using namespace vh;
        static const std::vector<str> sp = {"", "a", "b", "ab", "abc", "key", "12", "-7", "3.5", "(1,2)", "1e2", "0x10", " 5", "x y", "zz"};
        if (rng.chance(1, 3)) return rng.pick(sp);
        int n = rng.upto(max + 1);
        bool ascii = rng.chance(3, 4);
        str s;
        for (int i = 0; i < n; i++) s += ascii ? char('a' + rng.upto(6)) : char(rng.upto(256));
        return s;
    }
    /// the real value of a model value, built through pushes and stores
    inline var build(const MV& m) {
        if (m.k == MV::NIL) return var();
        if (m.k == MV::NUM) return numVar(m.n);
        const OP& o = m.o;
        var r;
        if (o->type == TYPE_CHAR) return vh::S(bytes(o));
        if (o->type == TYPE_CDOUBLE) {
            std::vector<cdouble> d;
            for (auto& n : o->d) d.push_back(cdouble(n.re, n.im));
            if (d.empty()) { r = var(cdouble(0, 0)); r.resize(0); }
            else r.append(int(d.size()), d.data());
            return r;
        }
        if (o->dense()) {
            r = numVar(mkNum(o->type, 0));
            r.array();
            r.resize(o->size());
            for (int i = 0; i < o->size(); i++) r.at(i) = numVar(o->d[i]);
            return r;
        }
        if (o->type == TYPE_PAIR) {
            r[lu::nil];       // an empty map
            for (int i = 0; i < o->size(); i++) {
                var k = build(o->key[i]);
                r[k] = build(o->v[i]);
            }
            return r;
        }
        r.resize(o->size());
        for (int i = 0; i < o->size(); i++) { var e = build(o->v[i]); r.at(i) = e; }
        return r;
    }
    inline int find(const OP& m, const MV& k, bool& found) {
        int i = 0;
        while (i < m->size() && cmp(m->key[i], k) < 0) i++;
        found = i < m->size() && cmp(m->key[i], k) == 0;
        return i;
    }
    inline int randType(bool cd = true) { return vh::rng.in(TYPE_CHAR, cd ? TYPE_CDOUBLE : TYPE_CFLOAT); }
    inline MV randKey() {
        using namespace vh;
        switch (rng.upto(8)) {
        case 0: return MV(mkInt(TYPE_INT, rng.in(-3, 6)));
        case 1: return MV(mkFlt(TYPE_DOUBLE, rng.in(-2, 3) * 0.5));
        default: return MV(strObj(rng.chance(1, 2) ? fmt("k%d", rng.upto(9)) : randStr(4)));
        }
    }
    inline MV randVal(int depth) {
        using namespace vh;
        int k = rng.upto(depth > 0 ? 10 : 6);
        if (k == 0) return MV();
        if (k <= 2) return numVal(randNum(randType(rng.chance(1, 6))));
        if (k <= 4) return MV(strObj(randStr()));
        if (k <= 6) {
            OP o = newObj(randType());
            int n = rng.chance(1, 8) ? rng.in(7, 20) : rng.upto(6);
            if (o->type == TYPE_CHAR) n = rng.upto(10);
            for (int i = 0; i < n; i++) o->d.push_back(randNum(o->type));
            return MV(o);
        }
        if (k <= 8) {
            OP o = newObj(TYPE_VAR);
            int n = rng.upto(5);
            for (int i = 0; i < n; i++) o->v.push_back(randVal(depth - 1));
            return MV(o);
        }
        OP o = newObj(TYPE_PAIR);
        int n = rng.upto(5);
        for (int i = 0; i < n; i++) {
            MV key = randKey();
            bool f;
            int p = find(o, key, f);
            if (f) continue;
            o->key.insert(o->key.begin() + p, key);
            o->v.insert(o->v.begin() + p, randVal(depth - 1));
        }
        return MV(o);
    }
    inline bool reaches(const MV& from, const OP& to, int depth = 0) {
        if (from.k != MV::OBJ) return false;
        if (from.o == to) return true;
        if (from.o->dense() || depth > 60) return false;
        for (auto& e : from.o->v) if (reaches(e, to, depth + 1)) return true;
        for (auto& e : from.o->key) if (reaches(e, to, depth + 1)) return true;
        return false;
    }
    inline int depthOf(const MV& m, int d = 0) {
        if (m.k != MV::OBJ || m.o->dense() || d > 60) return 0;
        int r = 0;
        for (auto& e : m.o->v) r = std::max(r, depthOf(e, d + 1));
        return r + 1;
    }
    inline long weight(const MV& m, int d = 0) {
        if (m.k != MV::OBJ) return 1;
        if (m.o->dense() || d > 30) return 1 + m.o->size() / 4;
        long r = 1;
        for (auto& e : m.o->v) r += weight(e, d + 1);
        return r;
    }
}
#endif

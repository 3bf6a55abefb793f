/*
 * Numeric operands for the mathematical harnesses: scalars, elements, arrays
 * and guarded views, with the contents known independently.
 */
#ifndef TENSOR_H
#define TENSOR_H
#include "model.h"
#include <numeric>

namespace ts
{
    using namespace vh;
    using namespace md;
    typedef std::vector<int> Shape;

    inline int total(const Shape& s) { int n = 1; for (int x : s) n *= x; return n; }
    inline str shp(const Shape& s) { str r = "("; for (int x : s) r += fmt("%d,", x); return r + ")"; }
    inline var shapeVar(const Shape& s) { var r; for (int x : s) r.push(x); if (s.size() == 1) r.array(); return r; }

    inline Num get(var v, int i, int t)
    {
        switch (t) {
        case TYPE_CHAR: return mkInt(t, v.at(i).get<char>());
        case TYPE_INT: return mkInt(t, v.at(i).get<int>());
        case TYPE_LONG: return mkInt(t, v.at(i).get<long>());
        case TYPE_FLOAT: return mkFlt(t, v.at(i).get<float>());
        case TYPE_DOUBLE: return mkFlt(t, v.at(i).get<double>());
        case TYPE_CFLOAT: { cfloat c = v.at(i).get<cfloat>(); return {t, 0, c.real(), c.imag()}; }
        default: { cdouble c = v.at(i).get<cdouble>(); return {t, 0, c.real(), c.imag()}; }
        }
    }
    inline bool bitSame(const Num& a, const Num& b) {
        return a.t == b.t && a.l == b.l && !memcmp(&a.re, &b.re, sizeof a.re) && !memcmp(&a.im, &b.im, sizeof a.im);
    }
    inline cdouble cx(const Num& n) { return isInt(n.t) ? cdouble(n.l) : cdouble(n.re, n.im); }
    inline double epsOf(int t) { return t == TYPE_FLOAT || t == TYPE_CFLOAT ? 1.2e-7 : 2.3e-16; }
    inline int realOf(int t) { return t == TYPE_CFLOAT ? TYPE_FLOAT : t == TYPE_CDOUBLE ? TYPE_DOUBLE : t; }
    inline str numStr(const Num& n) { return numText(n); }

    enum Form { SCALAR, AELEM, VELEM, ARRAY, VIEW };

    /// An operand: what it holds, how it is reached, and everything round it
    struct Tensor {
        int type;
        Shape shape;
        Form form;
        std::vector<Num> all;     // storage; the operand is size() from off
        int off;
        var base, v;

        int size() const { return total(shape); }
        int dim() const { return shape.size(); }
        const Num& at(int i) const { return all[off + i]; }
        Num& at(int i) { return all[off + i]; }
        str text() const {
            static const char* fn[] = {"scalar", "element", "var element", "array", "view"};
            str r = str(fn[form]) + " " + lu::typeStr(type) + (form >= ARRAY ? shp(shape) : str("")) + "{";
            for (int i = 0; i < std::min(size(), 8); i++) r += numText(at(i)) + ";";
            return r + "}";
        }

        Tensor() : type(0), form(SCALAR), off(0) {}
        template<class G> Tensor(int t, const Shape& s, Form f, G gen) : type(t), shape(s), form(f), off(0) {
            int n = total(s), pre = 0, post = 0;
            if (f == ARRAY && t == TYPE_CDOUBLE && n == 1) f = form = SCALAR;   // one and the same
            if (f == VIEW) { pre = rng.upto(4); post = rng.upto(4); }
            if (f == AELEM || f == VELEM) { pre = rng.upto(3); post = rng.upto(3); }
            if (f == VIEW && pre + n + post == 0) post = 1;
            off = pre;
            for (int i = 0; i < pre + n + post; i++) all.push_back(gen(t));
            make();
        }
        void make() {
            v = lu::nil; base = lu::nil;      // assigning to a view would copy into it
            if (form == SCALAR) { v = numVar(all[0]); return; }
            OP o = newObj(form == VELEM ? int(TYPE_VAR) : type);
            if (form == VELEM) for (auto& n : all) o->v.push_back(numVal(n));
            else o->d = all;
            base = build(MV(o));
            if (form == ARRAY) v = base;
            else if (form == VIEW) {
                v = base.view(shapeVar(shape), off);
                if (rng.chance(1, 4)) { keep = base.copy(); }
            }
        }
        var keep;
        /// applies f to the operand, which for an element must be done through a reference
        template<class F> auto use(F f) -> decltype(f(v)) {
            if (form == AELEM || form == VELEM) { var r = base.at(off); return f(r); }
            return f(v);
        }
        /// everything holds exactly what is expected, bit for bit or within rounding
        void verify(const char* key, const str& what, double tol = 0, const std::vector<double>* mag = nullptr) {
            if (form == SCALAR) {
                if (type == TYPE_CDOUBLE) check(v.atype<cdouble>() && v.size() == 1, key, what + ": scalar changed kind to " + vh::canon(v));
                else check(v.type() == type, key, what + ": scalar changed type to " + vh::canon(v));
                one(key, what, 0, v, tol, mag);
                return;
            }
            int n = all.size();
            check(base.size() == n && !base.view(), key, what + fmt(": storage size %d, should be %d", base.size(), n));
            if (form != VELEM) check(base.atype() == type, key, what + ": storage type changed to " + str(lu::typeStr(base.atype())));
            for (int i = 0; i < n; i++) {
                if (form == VELEM) { var e = base.at(i); one(key, what, i, e, i == off ? tol : 0, mag); continue; }
                Num g = get(base, i, type);
                bool in = i >= off && i < off + size();
                if (in && tol > 0 ? !close(g, all[i], tol, mag ? (*mag)[i - off] : 0) : !bitSame(g, all[i]) && !(isInt(type) && g.l == all[i].l))
                    fail(key, what + fmt(": element %d %sis ", i - off, in ? "" : "outside the operand ") + numText(g) + ", should be " + numText(all[i]));
            }
            if (form == VIEW) {
                check(v.view() && v.dim() == dim() && v.size() == size() && v.offset() == off, key, what + ": view changed extent");
                for (int i = 0; i < dim(); i++) check(v.shape(i) == shape[i], key, what + ": view changed shape");
            }
        }
        static bool close(const Num& g, const Num& w, double tol, double mag = 0) {
            if (isInt(w.t)) return g.t == w.t && g.l == w.l;
            cdouble a = cx(g), b = cx(w);
            auto sameSpecial = [](double x, double y) { return (std::isnan(x) && std::isnan(y)) || x == y; };
            if (sameSpecial(a.real(), b.real()) && sameSpecial(a.imag(), b.imag())) return true;
            double m = std::max(std::abs(b), mag);
            return std::abs(a - b) <= tol * m + (w.t == TYPE_FLOAT || w.t == TYPE_CFLOAT ? 1e-42 : 1e-320);
        }
        void one(const char* key, const str& what, int i, var e, double tol, const std::vector<double>* mag) {
            if (all[i].t != TYPE_CDOUBLE && e.type() != all[i].t) fail(key, what + ": type of " + vh::canon(e) + ", should be " + numText(all[i]));
            Num g;
            switch (all[i].t) {
            case TYPE_CHAR: g = mkInt(TYPE_CHAR, e.cast<char>()); break;
            case TYPE_INT: g = mkInt(TYPE_INT, e.cast<int>()); break;
            case TYPE_LONG: g = mkInt(TYPE_LONG, e.cast<long>()); break;
            case TYPE_FLOAT: g = mkFlt(TYPE_FLOAT, e.cast<float>()); break;
            case TYPE_DOUBLE: g = mkFlt(TYPE_DOUBLE, e.cast<double>()); break;
            case TYPE_CFLOAT: { cfloat c = e.cast<cfloat>(); g = {TYPE_CFLOAT, 0, c.real(), c.imag()}; break; }
            default: { cdouble c = e.cast<cdouble>(); g = {TYPE_CDOUBLE, 0, c.real(), c.imag()}; }
            }
            if (!close(g, all[i], tol, mag ? (*mag)[0] : 0)) fail(key, what + ": is " + numText(g) + ", should be " + numText(all[i]));
        }
    };

    /// a result has this type, shape and contents
    inline void result(const char* key, const str& what, var r, int type, const Shape& shape, bool scalar,
                       const std::vector<Num>& want, double tol, const std::vector<double>* mag = nullptr)
    {
        if (scalar) {
            check(type == TYPE_CDOUBLE ? r.atype<cdouble>() && r.size() == 1 : r.type() == type, key, what + ": result is " + vh::canon(r) + ", should be " + numText(want[0]));
        }
        else {
            check(r.defined() && r.atype() == type, key, what + ": result type is " + (r.defined() ? lu::typeStr(r.atype()) : "nil") + ", should be " + lu::typeStr(type));
            check(r.dim() == int(shape.size()), key, what + fmt(": result has %d dimensions, should be ", r.dim()) + shp(shape));
            for (size_t i = 0; i < shape.size(); i++)
                check(r.shape(i) == shape[i], key, what + fmt(": result dimension %d is %d, should be ", int(i), r.shape(i)) + shp(shape));
            check(r.size() == total(shape), key, what + ": result size");
        }
        for (size_t i = 0; i < want.size(); i++) {
            Num g = get(r, i, type);
            if (!(tol > 0 ? Tensor::close(g, want[i], tol, mag ? (*mag)[i] : 0) : bitSame(g, want[i])))
                fail(key, what + fmt(": element %d is ", int(i)) + numText(g) + ", should be " + numText(want[i]));
        }
    }
    /// sometimes a shape (or type) that an output should not have
    inline bool misfit(Shape& s, int* t = nullptr) {
        if (!total(s) || !rng.chance(1, 7)) return false;
        if (t && rng.chance(1, 3)) { int w = *t; while (*t == w) *t = rng.in(TYPE_CHAR, TYPE_CDOUBLE); return true; }
        int k = rng.upto(s.size());
        s[k] += rng.chance(1, 2) || s[k] == 1 ? rng.in(1, 2) : -1;
        return true;
    }
    /// A length about some power of two or ten, now and then
    inline int bigSize() { int k = rng.upto(4); return k == 0 ? (1 << rng.in(10, 15)) + rng.in(-1, 1) : k == 1 ? rng.in(1000, 10000) : k == 2 ? 1000 * rng.in(1, 8) : rng.in(200, 2000); }
    inline Shape randShape(int dim, int max = 5) { Shape s; for (int i = 0; i < dim; i++) s.push_back(rng.in(1, max)); return s; }
}
#endif

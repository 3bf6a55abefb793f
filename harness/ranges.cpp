// C33: ranges, initialisers and constructors.
#include "model.h"
#include <climits>
using namespace vh;
using namespace md;

namespace {
template<class T> struct Type;
template<> struct Type<char> { static const char* name() { return "char"; } };
template<> struct Type<int> { static const char* name() { return "int"; } };
template<> struct Type<long> { static const char* name() { return "long"; } };
template<> struct Type<float> { static const char* name() { return "float"; } };
template<> struct Type<double> { static const char* name() { return "double"; } };
template<> struct Type<cfloat> { static const char* name() { return "cfloat"; } };
template<> struct Type<cdouble> { static const char* name() { return "cdouble"; } };

template<class T> str shown(T x) { std::ostringstream o; o.precision(17); o << x; return o.str(); }
template<> str shown(char x) { return fmt("%d", int(x)); }
template<class T> str shown(const std::vector<T>& x) { str r = "["; for (size_t i = 0; i < x.size() && i < 30; i++) r += shown(x[i]) + ","; return r + fmt("](%zu)", x.size()); }
template<class T> bool same(T a, T b) { return !memcmp(&a, &b, sizeof a) || (a == b && a != T(0)); }

// v is exactly an array of these elements
template<class T> void isArray(var v, const std::vector<T>& x, const char* key, const str& what)
{
    check(v.defined() && v.heap(), key, what + ": no array but " + vh::canon(v).substr(0, 300));
    check(v.atype<T>(), key, what + ": elements are " + kind(v) + ", not " + Type<T>::name());
    check(v.size() == int(x.size()), key, what + fmt(": %d elements, not %zu: ", v.size(), x.size()) + vh::canon(v).substr(0, 300));
    for (size_t i = 0; i < x.size(); i++) { T g = v.at(i).get<T>(); check(same(g, x[i]), key, what + fmt(": element %zu is ", i) + shown(g) + ", not " + shown(x[i])); }
    ev("elements", x.size());
}
template<class T> void isScalar(var v, T x, const char* key, const str& what)
{
    check(v.defined() && !v.heap() && v.atype<T>(), key, what + ": no " + Type<T>::name() + " scalar but " + vh::canon(v).substr(0, 300));
    T g = v.get<T>();
    check(same(g, x), key, what + ": is " + shown(g) + ", not " + shown(x));
    ev("elements");
}

template<class T> T bound()
{
    if (std::is_same<T, char>::value) return T(rng.chance(1, 3) ? rng.in(0, 255) : rng.in('a', 'z'));
    if (std::is_integral<T>::value) {
        if (sizeof(T) == 8 && rng.chance(1, 5)) return T(long(rng.next() >> 4) - (1l << 59));
        return rng.chance(1, 5) ? rng.in(-1000000000, 1000000000) : rng.in(-30, 30);
    }
    switch (rng.upto(4)) {
    case 0: return T(rng.in(-20, 20));
    case 1: return T(rng.sym() * 1000);
    case 2: return T(rng.in(-40, 40) / 4.0);
    default: return T(rng.in(-100, 100) * 0.1);
    }
}

// a scalar, or an element of some array
struct Operand {
    var v, array;
    str before;
    bool ref = false;
    template<class T> void set(T x)
    {
        if (rng.chance(1, 4)) {
            array = x;
            array.push(x);
            array.push(x);
            v = array[1];
            // the variable that refers to the element, not a copy of it
            before = vh::canon(array);
            ref = true;
        }
        else { v = x; before = vh::canon(v); }
    }
    void verify(const str& what) { check(vh::canon(ref ? array : v) == before, "range.operand", what + ": changed an operand"); }
};

template<class T> void ranges()
{
    bool incl = rng.chance(1, 2), one = rng.chance(1, 4);
    const char* name = incl ? "range" : "irange";
    T lo = bound<T>(), step = 1, hi;
    bool def = rng.chance(1, 3) || one;
    if (one) { hi = std::is_same<T, char>::value ? T(rng.in(0, 255)) : T(rng.in(-5, 60) + (std::is_floating_point<T>::value && rng.chance(1, 2) ? rng.uni() : 0)); lo = incl ? T(1) : T(0); }
    else {
        if (!def) {
            if (std::is_integral<T>::value) step = T(rng.chance(1, 8) && sizeof(T) > 1 ? rng.in(1, 100000) : rng.in(1, 5));
            else step = T(rng.chance(1, 2) ? 0.1 : rng.chance(1, 2) ? rng.in(1, 12) / 4.0 : rng.uni() * 3 + 0.01);
        }
        int count = rng.chance(1, 60) ? rng.in(300, 3000) : rng.in(-2, 25);
        double extra = std::is_floating_point<T>::value && rng.chance(1, 3) ? rng.uni() * double(step) : std::is_integral<T>::value ? rng.upto(int(step)) : 0;
        if (std::is_same<T, char>::value) hi = T(std::max(0, std::min(255, int((unsigned char)(lo)) + int(count * double(step) + extra))));
        else if (std::is_integral<T>::value) {
            __int128 h = __int128(lo) + __int128(count) * __int128(step) + __int128(extra);
            __int128 top = std::is_same<T, int>::value ? INT_MAX - 200000 : LONG_MAX - 200000;
            hi = T(h > top ? top : h < -top ? -top : h);
        }
        else hi = T(lo + count * double(step) + extra);
    }
    std::vector<T> want;
    if (std::is_floating_point<T>::value) for (T x = lo; incl ? x <= hi : x < hi; x = T(x + step)) want.push_back(x);
    else if (sizeof(T) == 1) for (int x = (unsigned char)(lo), h = (unsigned char)(hi); incl ? x <= h : x < h; x += int(step)) want.push_back(T(x));   // characters are unsigned
    else for (long x = lo; incl ? x <= long(hi) : x < long(hi); x += long(step)) want.push_back(T(x));
    str what = str(name) + "<" + Type<T>::name() + ">(" + (one ? "" : shown(lo) + ", ") + shown(hi) + (def ? "" : ", " + shown(step)) + ")";
    note(what);
    distinct(what);
    if (rng.chance(1, 200)) sample(what);
    Operand l, h, s;
    l.set(lo); h.set(hi); s.set(step);
    var r;
    mustWork("range.works", what, [&] {
        if (one) r = incl ? lu::range(h.ref ? h.array[1] : h.v) : lu::irange(h.ref ? h.array[1] : h.v);
        else if (def) r = incl ? lu::range(l.ref ? l.array[1] : l.v, h.v) : lu::irange(l.ref ? l.array[1] : l.v, h.v);
        else r = incl ? lu::range(l.ref ? l.array[1] : l.v, h.v, s.ref ? s.array[1] : s.v) : lu::irange(l.v, h.ref ? h.array[1] : h.v, s.v);
    });
    if (want.empty()) { check(!r.defined() || r.size() == 0, "range.values", what + ": should be empty but is " + vh::canon(r).substr(0, 300)); ev("empty_ranges"); }
    else if (want.size() == 1) isScalar(r, want[0], "range.values", what);
    else isArray(r, want, "range.values", what);
    l.verify(what); h.verify(what); s.verify(what);
    // the values are not those of the operands
    if (r.size() > 1) { r[0] = T(7); l.verify(what + "[0] = 7"); }
    ev(incl ? "ranges" : "iranges");
    if (rng.chance(1, 40) && want.size() && !one) {
        var bad = sizeof(T) == 1 || rng.chance(1, 2) ? var(T(0)) : var(-1);
        mustThrow("range.endless", what + " with step " + vh::canon(bad), [&] { if (incl) lu::range(lo, hi, bad); else lu::irange(lo, hi, bad); });
        ev("endless");
    }
}

template<class T> T scalar()
{
    if (std::is_same<T, char>::value) return T(rng.in(-128, 127));
    if (std::is_integral<T>::value) return T(long(rng.next()));
    return T(rng.sym() * std::pow(10.0, rng.in(-5, 5)));
}
template<> cfloat scalar() { return cfloat(rng.sym(), rng.sym()); }
template<> cdouble scalar() { return cdouble(rng.sym(), rng.sym()); }

template<class T> var shaped(const std::vector<int>& d, T x)
{
    switch (d.size()) {
    case 1: return var({d[0]}, x);
    case 2: return var({d[0], d[1]}, x);
    case 3: return var({d[0], d[1], d[2]}, x);
    default: return var({d[0], d[1], d[2], d[3]}, x);
    }
}
template<class T> void fills(bool heapOnly)
{
    T x = scalar<T>();
    str what;
    if (!heapOnly && rng.chance(1, 2)) {
        int n = rng.chance(1, 20) ? rng.in(100, 2000) : rng.upto(8);
        what = fmt("var(%d, ", n) + Type<T>::name() + " " + shown(x) + ")";
        note(what);
        Operand o;
        o.set(x);
        var v;
        mustWork("fill.works", what, [&] { v = o.ref ? var(n, o.array[1]) : var(n, var(x)); });
        // (filling from an element of an array gives an array for one, too)
        if (n == 1 && !v.heap()) isScalar(v, x, "fill.values", what);
        else isArray(v, std::vector<T>(n, x), "fill.values", what);
        check(!v.view(), "fill.values", what + ": is a view");
        if (n > 1) { var w = v.copy(); v[0] = scalar<T>(); isArray(w, std::vector<T>(n, x), "fill.values", what + ", its copy after changing it,"); }
        o.verify(what);
        ev("fills");
    }
    else {
        std::vector<int> d;
        size_t size = 1;
        for (int n = rng.in(1, 4); n > 0; n--) { d.push_back(rng.in(1, 5)); size *= d.back(); }
        what = "var({";
        for (int k : d) what += fmt("%d,", k);
        what += str("}, ") + Type<T>::name() + " " + shown(x) + ")";
        note(what);
        var v;
        mustWork("shape.works", what, [&] { v = shaped(d, x); });
        isArray(v, std::vector<T>(size, x), "shape.values", what);
        check(v.view() && v.dim() == int(d.size()) && v.offset() == 0, "shape.shape", what + fmt(": dimension %d, offset %d", v.dim(), v.offset()));
        size_t st = size;
        for (size_t i = 0; i < d.size(); i++) { st /= d[i]; check(v.shape(i) == d[i] && v.stride(i) == int(st), "shape.shape", what + fmt(": shape(%zu) is %d, stride(%zu) %d", i, v.shape(i), i, v.stride(i))); }
        ev("shapes");
    }
    distinct(what);
    if (rng.chance(1, 300)) sample(what);
}

str bytes(int max) { str s; for (int n = rng.upto(max + 1); n > 0; n--) s += char(rng.chance(1, 8) ? 0 : rng.upto(256)); return s; }
void isText(var v, const str& s, const char* key, const str& what)
{
    check(isString(v), key, what + ": no string but " + vh::canon(v).substr(0, 200));
    check(text(v) == s, key, what + ": is '" + show(text(v)) + "'");
    check(v.str()[s.size()] == 0, key, what + ": str() is not terminated");
    ev("strings");
}
void isStrings(var v, const strs& s, const char* key, const str& what)
{
    if (s.empty()) { check(v.size() == 0, key, what + ": should be empty: " + vh::canon(v).substr(0, 300)); return; }
    check(v.atype<var>() && v.size() == int(s.size()), key, what + ": is " + vh::canon(v).substr(0, 300));
    for (size_t i = 0; i < s.size(); i++) isText(v.at(i), s[i], key, what + fmt("[%zu]", i));
}
// a variable from a list known when compiled
var listed(const std::vector<var>& x)
{
    switch (x.size()) {
    case 0: return std::initializer_list<var>{};
    case 1: return std::initializer_list<var>{x[0]};
    case 2: return {x[0], x[1]};
    case 3: return {x[0], x[1], x[2]};
    case 4: return {x[0], x[1], x[2], x[3]};
    case 5: return {x[0], x[1], x[2], x[3], x[4]};
    default: return {x[0], x[1], x[2], x[3], x[4], x[5], x[6]};
    }
}
}

VH_CASE_W(range_values, 5)
{
    switch (rng.upto(5)) {
    case 0: ranges<char>(); break;
    case 1: ranges<int>(); break;
    case 2: ranges<long>(); break;
    case 3: ranges<float>(); break;
    default: ranges<double>(); break;
    }
}

VH_CASE(range_rejected)
{
    var lo, hi, step = 1;
    str what = "range";
    switch (rng.upto(5)) {
    case 0: lo = rng.upto(5); hi = 5.5; break;
    case 1: lo = 1.5; hi = lu::range(1, 3); break;
    case 2: lo = S(randStr()); hi = S(randStr()); break;
    case 3: lo = rng.upto(5); hi = 5; step = 0.5; break;
    default: hi = 3; break;
    }
    str a = vh::canon(lo), b = vh::canon(hi);
    what += "(" + a + ", " + b + ", " + vh::canon(step) + ")";
    note(what);
    distinct(what);
    mustThrow("range.rejected", what, [&] { if (rng.chance(1, 2)) lu::range(lo, hi, step); else lu::irange(lo, hi, step); });
    check(vh::canon(lo) == a && vh::canon(hi) == b, "range.operand", what + ": changed an operand");
}

VH_CASE_W(constructed_filled, 4)
{
    switch (rng.upto(7)) {
    case 0: fills<char>(false); break;
    case 1: fills<int>(false); break;
    case 2: fills<long>(false); break;
    case 3: fills<float>(false); break;
    case 4: fills<double>(false); break;
    case 5: fills<cfloat>(false); break;
    default: fills<cdouble>(true); break;
    }
    if (rng.chance(1, 60)) {
        var x;
        switch (rng.upto(3)) { case 0: x = "text"; break; case 1: x = lu::range(1, 3); break; default: break; }
        str c = vh::canon(x);
        mustThrow("fill.array", "var(3, " + c + ")", [&] { var v(3, x); });
        check(vh::canon(x) == c, "fill.operand", "var(3, array) changed the array");
    }
}

VH_CASE_W(constructed_buffers, 3)
{
    int k = rng.upto(5);
    if (k == 0) {
        str s = bytes(rng.chance(1, 10) ? 3000 : 12);
        std::vector<char> b(s.begin(), s.end());          // not terminated
        char* p = new char[b.size() + 1];
        char* q = new char[std::max<size_t>(b.size(), 1)];
        std::copy(b.begin(), b.end(), q);
        str what = "string of '" + show(s) + "'";
        note(what); distinct(what);
        var v(int(s.size()), q);
        delete[] q;
        isText(v, s, "buffer.string", what + fmt(" by length %zu", s.size()));
        str z = s.c_str();
        memcpy(p, z.c_str(), z.size() + 1);
        var w(p);
        memset(p, 'X', b.size());
        delete[] p;
        isText(w, z, "buffer.string", what + " terminated");
        w.push('x');
        isText(v, s, "buffer.string", what + " after changing another");
        // appended from a buffer
        str t = bytes(10);
        char* r = new char[t.size() + 1];
        std::copy(t.begin(), t.end(), r);
        mustWork("buffer.append", what, [&] { v.append(int(t.size()), r); });
        delete[] r;
        isText(v, s + t, "buffer.append", what + " with '" + show(t) + "' appended");
    }
    else if (k == 1) {
        int n = rng.chance(1, 10) ? rng.in(100, 3000) : rng.upto(8);
        std::vector<int> x;
        for (int i = 0; i < n; i++) x.push_back(scalar<int>());
        int* b = new int[n];
        std::copy(x.begin(), x.end(), b);
        str what = fmt("var(%d, int*) of ", n) + shown(x);
        note(what); distinct(what);
        var v(n, b);
        for (int i = 0; i < n; i++) b[i] = -1;
        delete[] b;
        isArray(v, x, "buffer.int", what);
    }
    else if (k == 2) {
        // argument vectors
        strs s;
        for (int n = rng.upto(6); n > 0; n--) s.push_back(str(bytes(8).c_str()));
        std::vector<std::vector<char>> st;
        for (auto& x : s) st.push_back(std::vector<char>(x.c_str(), x.c_str() + x.size() + 1));
        const char** argv = new const char*[s.size() + 1];
        for (size_t i = 0; i < s.size(); i++) argv[i] = st[i].data();
        argv[s.size()] = 0;
        str what = "argument vector";
        for (auto& x : s) what += " '" + show(x) + "'";
        note(what); distinct(what);
        bool counted = rng.chance(1, 2);
        int n = counted && s.size() ? rng.upto(s.size() + 1) : int(s.size());
        var v;
        if (counted) { const char** part = new const char*[n]; std::copy(argv, argv + n, part); v = var(n, part); delete[] part; } else v = var(argv);
        for (auto& x : st) for (auto& c : x) c = 'X';
        delete[] argv;
        isStrings(v, strs(s.begin(), s.begin() + n), "buffer.argv", what + fmt(", %d of them", n));
        ev("argument_vectors");
    }
    else if (k == 3) {
        // a complex array from a buffer
        std::vector<cdouble> x, y;
        for (int n = rng.upto(7); n > 0; n--) x.push_back(scalar<cdouble>());
        var v = scalar<cdouble>();
        v.resize(0);
        cdouble* b = new cdouble[x.size()];
        for (int rep = rng.in(1, 3); rep > 0; rep--) {
            std::copy(x.begin(), x.end(), b);
            y.insert(y.end(), x.begin(), x.end());
            v.append(int(x.size()), b);
            for (size_t i = 0; i < x.size(); i++) b[i] = 0;
        }
        delete[] b;
        str what = "complex buffers appended " + shown(y);
        note(what); distinct(what);
        isArray(v, y, "buffer.complex", what);
    }
    else {
        str a = bytes(8).c_str(), b = bytes(8).c_str();
        char* p = new char[b.size() + 1];
        memcpy(p, b.c_str(), b.size() + 1);
        var v = S(a);
        str what = "'" + show(a) + "'.append('" + show(b) + "')";
        note(what); distinct(what);
        mustWork("buffer.append", what, [&] { v.append(p); });
        memset(p, 'X', b.size());
        delete[] p;
        isText(v, a + b, "buffer.append", what);
    }
    ev("buffers");
}

template<class T> static void lists()
{
    std::vector<T> x;
    std::vector<var> v;
    static const int lens[] = {0, 1, 2, 3, 4, 5, 7};
    for (int n = lens[rng.upto(7)]; n > 0; n--) { x.push_back(scalar<T>()); v.push_back(x.back()); }
    str what = str("list of ") + Type<T>::name() + " " + shown(x);
    note(what); distinct(what);
    var r;
    mustWork("list.works", what, [&] { r = listed(v); });
    if (x.empty()) check(!r.defined(), "list.values", what + ": is " + vh::canon(r));
    else if (std::is_same<T, cdouble>::value) {
        // arrays, of which a list makes an array
        check(r.atype<var>() && r.size() == int(x.size()), "list.values", what + ": is " + vh::canon(r).substr(0, 300));
        for (size_t i = 0; i < x.size(); i++) check(same(r.at(i).get<cdouble>(), cdouble(v[i].get<cdouble>())), "list.values", what + fmt(": element %zu", i));
    }
    else if (x.size() == 1) isScalar(r, x[0], "list.values", what);
    else isArray(r, x, "list.values", what);
    for (size_t i = 0; i < x.size(); i++) check(same(v[i].get<T>(), x[i]), "list.operand", what + ": changed an operand");
}

VH_CASE_W(constructed_lists, 4)
{
    int k = rng.upto(3);
    if (k == 0) switch (rng.upto(7)) {
    case 0: lists<char>(); break;
    case 1: lists<int>(); break;
    case 2: lists<long>(); break;
    case 3: lists<float>(); break;
    case 4: lists<double>(); break;
    case 5: lists<cfloat>(); break;
    default: lists<cdouble>(); break;
    }
    else if (k == 1) {
        // anything, after something that is no scalar
        std::vector<MV> m;
        std::vector<var> v;
        static const int lens[] = {1, 2, 3, 4, 5, 7};
        for (int n = lens[rng.upto(6)]; n > 0; n--) {
            MV x = randVal(2);
            if (m.empty()) while (x.k == MV::NUM) x = rng.chance(1, 3) ? MV() : randVal(2);
            m.push_back(x);
            v.push_back(md::build(x));
        }
        str what = "list of";
        for (auto& x : v) what += " " + vh::canon(x);
        what = what.substr(0, 1500);
        note(what); distinct(what);
        strs before;
        for (auto& x : v) before.push_back(vh::canon(x));
        var r;
        mustWork("list.works", what, [&] { r = listed(v); });
        check(r.defined() && r.size() == int(v.size()) && r.atype<var>(), "list.values", what + ": is " + vh::canon(r).substr(0, 500));
        for (size_t i = 0; i < v.size(); i++) {
            check(vh::canon(r.at(i)) == before[i], "list.values", what + fmt(": element %zu is ", i) + vh::canon(r.at(i)).substr(0, 500));
            check(vh::canon(v[i]) == before[i], "list.operand", what + fmt(": changed operand %zu", i));
        }
        // an element of its own: overwriting it leaves the operand
        int j = rng.upto(v.size());
        r[j] = 5;
        check(vh::canon(v[j]) == before[j], "list.operand", what + fmt(": overwriting element %d changed operand %d", j, j));
    }
    else {
        // lists of lists and the comma operator, as written in programs
        int a = scalar<int>(), b = scalar<int>(), c = scalar<int>(), d = scalar<int>();
        str what = fmt("lists of %d %d %d %d", a, b, c, d);
        note(what); distinct(what);
        var m = {{a, b, c}, {d, a}, {b}, "text", {"x", "y"}, {}};
        check(m.size() == 6 && m.atype<var>(), "list.nested", what + ": is " + vh::canon(m));
        isArray(m[0], std::vector<int>{a, b, c}, "list.nested", what + "[0]");
        isArray(m[1], std::vector<int>{d, a}, "list.nested", what + "[1]");
        check(m[2].get<int>() == b && m[2].size() == 1, "list.nested", what + "[2] is " + vh::canon(m[2]));
        isText(m[3], "text", "list.nested", what + "[3]");
        isStrings(m[4], {"x", "y"}, "list.nested", what + "[4]");
        check(!m[5].defined(), "list.nested", what + "[5] is " + vh::canon(m[5]));
        var l;
        l.push(a); l.push(b);
        var r = (l, c, d);
        isArray(r, std::vector<int>{a, b, c, d}, "comma.values", what + " (l, c, d)");
        isArray(l, std::vector<int>{a, b, c, d}, "comma.values", what + " l after (l, c, d)");
        var s = "ab";
        var t = (s, "cd", "e", 'f');
        isText(t, "abcdef", "comma.values", what + " strings");
        isText(s, "abcdef", "comma.values", what + " strings");
        var f = 1.5f;
        var g = (f, 2.5, 3);
        isArray(g, std::vector<float>{1.5f, 2.5f, 3.0f}, "comma.values", what + " (f, 2.5, 3)");
        var q;
        q.push("first"); q.push(1);
        var e = (q, 2, l);
        check(e.size() == 4 && e.atype<var>() && e[2].get<int>() == 2 && vh::canon(e[3]) == vh::canon(l), "comma.values", what + " (q, 2, l): " + vh::canon(e));
        ev("commas");
    }
    ev("lists");
}

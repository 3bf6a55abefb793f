// C07: the order and equality of values, sorting and searching.
#include "model.h"
#include <algorithm>
#include <cmath>
using namespace vh;
using namespace md;

// a number that differs from another as little as can be, or in one bit, or in sign
static Num nearNum(Num n)
{
    int k = rng.upto(4);
    if (isInt(n.t)) {
        unsigned long l = n.l, d = rng.chance(1, 3) ? 1ul << rng.upto(n.t == TYPE_CHAR ? 8 : n.t == TYPE_INT ? 32 : 64) : rng.in(1, 3);
        l = k == 0 ? l - d : k == 1 ? l ^ d : k == 2 ? l + d : l / 2;
        n.l = n.t == TYPE_CHAR ? long(char(l)) : n.t == TYPE_INT ? long(int(unsigned(l))) : long(l);
        return n;
    }
    auto step = [&](double x) {
        double to = rng.chance(1, 2) ? HUGE_VAL : -HUGE_VAL;
        return k == 3 ? -x : n.t == TYPE_FLOAT || n.t == TYPE_CFLOAT ? double(std::nextafter(float(x), float(to))) : k == 2 ? x * (1 + 1e-9) : std::nextafter(x, to);
    };
    if (isCplx(n.t)) { bool re = rng.chance(1, 2); return mkFlt(n.t, re ? step(n.re) : n.re, re ? n.im : step(n.im)); }
    return mkFlt(n.t, step(n.re));
}

// a value somewhat like another, so that close pairs are common
static MV near(const MV& m, int depth)
{
    if (rng.chance(1, 6)) return randVal(depth);
    if (m.k == MV::NIL) return m;
    if (m.k == MV::NUM) {
        Num n = m.n;
        switch (rng.upto(4)) {
        case 0: return m;
        case 1: return numVal(randNum(n.t));
        case 2: { Num r; int t = rng.in(TYPE_CHAR, TYPE_CFLOAT); return convNum(n, t, r) == OK ? numVal(r) : m; }
        default: return numVal(nearNum(n));
        }
    }
    OP o = newObj(m.o->type);
    o->d = m.o->d; o->v = m.o->v; o->key = m.o->key;
    int n = o->size();
    int what = rng.upto(6);
    if (what == 0 || n == 0) return MV(o);
    int i = rng.upto(n);
    if (o->dense()) {
        if (what == 1) o->d.pop_back();
        else if (what == 2) o->d.push_back(randNum(o->type));
        else if (what == 3) o->d.insert(o->d.begin() + i, randNum(o->type));
        else if (what == 4 && o->type == TYPE_CHAR) o->d[i].l = char(o->d[i].l ^ (1 << rng.upto(8)));
        else o->d[i] = rng.chance(1, 2) ? nearNum(o->d[i]) : randNum(o->type);
        return MV(o);
    }
    if (o->type == TYPE_PAIR) {
        if (what == 1) { o->v.erase(o->v.begin() + i); o->key.erase(o->key.begin() + i); }
        else if (what == 2) {
            MV k = randKey();
            bool f;
            int p = find(o, k, f);
            if (!f) { o->key.insert(o->key.begin() + p, k); o->v.insert(o->v.begin() + p, randVal(depth - 1)); }
        }
        else o->v[i] = near(o->v[i], depth - 1);
        return MV(o);
    }
    if (what == 1) o->v.pop_back();
    else if (what == 2) o->v.push_back(randVal(depth - 1));
    else o->v[i] = near(o->v[i], depth - 1);
    return MV(o);
}

static bool odd(const MV& m, int d = 0) { return false; }
static MV randGood(int depth)
{
    for (;;) { MV m = randVal(depth); if (!odd(m)) return m; }
}
static MV nearGood(const MV& a, int depth)
{
    for (int k = 0; k < 20; k++) { MV m = near(a, depth); if (!odd(m)) return m; }
    return a;
}

// the value reached in different ways: directly, as an element, a copy, a view
struct Handle {
    var holder, self;
    str how;
    Handle(const MV& m) {
        var v = build(m);
        int k = rng.upto(6);
        bool dense = m.k == MV::OBJ && m.o->dense() && m.o->size();
        if (k == 1) { holder.resize(3); holder.at(1) = v; how = "element"; }
        else if (k == 2) { holder[lu::nil]; holder["k"] = v; how = "map value"; }
        else if (k == 3) { self = v; how = "shared"; holder = v; }
        else if (k == 4 && m.k == MV::OBJ) { self = v.copy(); how = "copy"; }
        else if (k == 5 && dense && m.o->type != TYPE_CDOUBLE) {
            OP big = newObj(m.o->type);
            int pre = rng.upto(4), post = rng.upto(4);
            for (int i = 0; i < pre; i++) big->d.push_back(randNum(big->type));
            for (auto& n : m.o->d) big->d.push_back(n);
            for (int i = 0; i < post; i++) big->d.push_back(randNum(big->type));
            holder = build(MV(big));
            self = holder.view({m.o->size()}, pre);
            how = "view";
            ev("views_compared");
        }
        else { self = v; how = "plain"; }
    }
    template<class F> void use(F f) {
        if (how == "element") f(holder.at(1));
        else if (how == "map value") f(holder.at("k"));
        else f(self);
    }
};

static int sgn(int x) { return x < 0 ? -1 : x > 0; }

static void compare(Handle& a, const MV& ma, Handle& b, const MV& mb, const char* what)
{
    int c = sgn(cmp(ma, mb));
    a.use([&](var x) {
        b.use([&](var y) {
            str d = str(what) + " " + a.how + " " + md::canon(ma) + "  and  " + b.how + " " + md::canon(mb);
            note(d);
            bool eq = x == y, ne = x != y, lt = x < y, gt = x > y, le = x <= y, ge = x >= y;
            // model says which of the three it is; an empty string equals any empty array
            check(eq == (c == 0), "cmp.eq", d + fmt(": == is %d, should be %d", eq, c == 0));
            check(ne == !eq, "cmp.ne", d + fmt(": != is %d", ne));
            check(lt == (c < 0), "cmp.lt", d + fmt(": < is %d, should be %d", lt, c < 0));
            check(gt == (c > 0), "cmp.gt", d + fmt(": > is %d, should be %d", gt, c > 0));
            check(le == (c <= 0) && ge == (c >= 0), "cmp.le", d + fmt(": <= is %d, >= is %d", le, ge));
            ev(c == 0 ? "equal_pairs" : "unequal_pairs");
        });
    });
}

VH_CASE_W(cmp_triples, 5)
{
    MV m[4];
    m[0] = randGood(3);
    m[1] = nearGood(m[0], 3);
    m[2] = nearGood(rng.chance(1, 2) ? m[1] : m[0], 3);
    m[3] = randGood(2);
    str d;
    for (auto& x : m) d += md::canon(x) + " ";
    note(d);
    sample(d);
    distinct(d);
    Handle h[4] = {Handle(m[0]), Handle(m[1]), Handle(m[2]), Handle(m[3])};
    for (int i = 0; i < 4; i++)
        for (int j = 0; j < 4; j++)
            compare(h[i], m[i], h[j], m[j], "compare");
    // the laws, seen without the model
    auto lt = [&](int i, int j) { bool r = false; h[i].use([&](var x) { h[j].use([&](var y) { r = x < y; }); }); return r; };
    auto eq = [&](int i, int j) { bool r = false; h[i].use([&](var x) { h[j].use([&](var y) { r = x == y; }); }); return r; };
    for (int i = 0; i < 4; i++)
        for (int j = 0; j < 4; j++) {
            check(!(lt(i, j) && lt(j, i)), "law.asymmetric", d);
            for (int k = 0; k < 4; k++) {
                check(!(lt(i, j) && lt(j, k)) || lt(i, k), "law.transitive", d);
                check(!(eq(i, j) && eq(j, k)) || eq(i, k), "law.eqtransitive", d);
                check(!(eq(i, j) && lt(j, k)) || lt(i, k), "law.compatible", d);
            }
            ev("laws");
        }
    for (int i = 0; i < 4; i++)
        if (h[i].how != "view") h[i].use([&](var x) { check(vh::canon(x) == md::canon(m[i]), "cmp.changed", "comparison changed " + md::canon(m[i])); });
}

// sort() of an array of anything
VH_CASE_W(cmp_sort, 3)
{
    MV a;
    int mode = rng.upto(4);
    OP o;
    if (mode == 0) {
        o = newObj(rng.in(TYPE_CHAR, TYPE_CFLOAT));
        int n = rng.upto(30);
        for (int i = 0; i < n; i++) { o->d.push_back(randNum(o->type)); }
    }
    else {
        o = newObj(TYPE_VAR);
        int n = rng.upto(mode == 3 ? 60 : 20);
        MV last = randGood(2);
        for (int i = 0; i < n; i++) {
            MV e = mode == 1 ? MV(strObj(randStr())) : mode == 2 ? randGood(2) : nearGood(last, 2);
            if (odd(e, 1)) continue;
            o->v.push_back(e);
            if (rng.chance(1, 2)) last = e;
        }
    }
    str d = md::canon(MV(o));
    note("sort " + d);
    sample("sort " + d);
    distinct(d);
    var v = build(MV(o));
    var r = v.sort();
    check(vh::canon(v) == d, "sort.input", "sort() changed its input " + d + " to " + vh::canon(v));
    check(r.size() == o->size() && (o->size() == 0 || r.atype<var>() || true), "sort.size", d + " sorted to " + vh::canon(r));
    std::vector<MV> want;
    for (int i = 0; i < o->size(); i++) want.push_back(elemVal(o, i));
    std::stable_sort(want.begin(), want.end(), [](const MV& x, const MV& y) { return cmp(x, y) < 0; });
    std::multiset<str> s1, s2;
    for (int i = 0; i < r.size(); i++) {
        check(i == 0 || !(r.at(i) < r.at(i - 1)), "sort.order", d + fmt(" sorted is out of order at %d: ", i) + vh::canon(r));
        check(r.at(i) == build(want[i]), "sort.element", d + fmt(" sorted has the wrong element %d: ", i) + vh::canon(r));
        s1.insert(vh::canon(r.at(i)));
        s2.insert(md::canon(want[i]));
    }
    check(s1 == s2, "sort.permutation", d + " sorted is not a permutation: " + vh::canon(r));
    ev("sorted");
    // index of each element, and of something else
    for (int k = 0; k < 6; k++) {
        MV key = k < 4 && o->size() ? elemVal(o, rng.upto(o->size())) : randGood(2);
        if (odd(key, 1)) continue;
        int at = -1;
        for (int i = o->size() - 1; i >= 0; i--) if (cmp(elemVal(o, i), key) == 0) at = i;
        var kv = build(key);
        ind got = v.index(kv);
        check(at < 0 ? !got : intptr_t(got) == at, at < 0 ? "index.absent" : "index.found",
              "index of " + md::canon(key) + " in " + d + fmt(" is %ld, should be %d", long(intptr_t(got)), at));
        ev(at < 0 ? "index_absent" : "index_found");
    }
}

template<class T> static void inPlace(const char* tn)
{
    int dim = rng.in(1, 3);
    std::vector<int> sh;
    int n = 1;
    for (int i = 0; i < dim; i++) { sh.push_back(rng.chance(1, 10) && dim > 1 ? 1 : rng.in(1, i == dim - 1 ? (rng.chance(1, 40) ? 3000 : 24) : 4)); n *= sh.back(); }
    int pre = rng.upto(3), post = rng.upto(3);
    int row = sh.back();
    std::vector<T> d(n + pre + post);
    for (auto& x : d) x = sizeof(T) == 1 ? T(rng.upto(256)) : T(rng.chance(1, 3) ? rng.in(-3, 3) : rng.sym() * 1e5);
    if (sizeof(T) > 1 && rng.chance(1, 3))      // values far apart, and values that differ in the last place
        for (auto& x : d)
            switch (rng.upto(6)) {
            case 0: x = std::numeric_limits<T>::max(); break;
            case 1: x = std::numeric_limits<T>::lowest(); break;
            case 2: x = std::numeric_limits<T>::max() - T(rng.in(0, 5)); break;
            case 3: x = T(std::ldexp(rng.sym(), rng.upto(std::is_integral<T>::value ? int(sizeof(T)) * 8 - 1 : 120))); break;
            case 4: x = T(std::ldexp(1.0, std::is_integral<T>::value ? int(sizeof(T)) * 4 + 20 * (sizeof(T) > 4) : 60)) + T(rng.in(-9, 9)); break;
            default: break;
            }
    var a = T(0);
    a.array();
    a.resize(int(d.size()));
    std::copy(d.begin(), d.end(), a.template ptr<T>());
    var s;
    for (int x : sh) s.push(x);
    s.array();
    var v = dim == 1 && pre + post == 0 ? a : a.view(s, pre);
    str desc = fmt("sort %s dim %d n %d row %d pre %d post %d", tn, dim, n, row, pre, post);
    note(desc);
    distinct(desc);
    std::vector<T> w = d;
    auto below = [](T x, T y) { return sizeof(T) == 1 ? (unsigned char)(x) < (unsigned char)(y) : x < y; };
    for (int i = 0; i < n / row; i++) std::stable_sort(w.begin() + pre + i * row, w.begin() + pre + (i + 1) * row, below);
    lu::sort(v, v);
    for (size_t i = 0; i < w.size(); i++)
        check(a.at(int(i)).template get<T>() == w[i], "sortf.element", desc + fmt(": element %d is wrong", int(i)));
    ev("sorted_rows", n / row);
    var c;
    if (rng.chance(1, 3))
        mustThrow("sortf.outofplace", "sort functor into another array", [&] { lu::sort(v); });
}
VH_CASE_W(cmp_functor, 2)
{
    switch (rng.upto(5)) {
    case 0: inPlace<char>("char"); break;
    case 1: inPlace<int>("int"); break;
    case 2: inPlace<long>("long"); break;
    case 3: inPlace<float>("float"); break;
    default: inPlace<double>("double");
    }
}

// keys of a map come out in order, whatever the order they went in
VH_CASE_W(cmp_keys, 2)
{
    std::vector<MV> keys;
    int n = rng.in(1, 40);
    for (int i = 0; i < n; i++) {
        MV k = rng.chance(1, 3) && keys.size() ? nearGood(rng.pick(keys), 1) : rng.chance(1, 2) ? randKey() : randGood(2);
        if (k.k == MV::NIL || odd(k, 1)) continue;
        keys.push_back(k);
    }
    if (keys.empty()) return;
    var m;
    m[lu::nil];
    OP o = newObj(TYPE_PAIR);
    str d;
    for (size_t i = 0; i < keys.size(); i++) {
        bool f;
        int p = find(o, keys[i], f);
        MV val(mkInt(TYPE_INT, i));
        if (f) o->v[p] = val;
        else { o->key.insert(o->key.begin() + p, keys[i]); o->v.insert(o->v.begin() + p, val); }
        var k = build(keys[i]);
        m[k] = int(i);
        d += md::canon(keys[i]) + " ";
    }
    note("keys " + d);
    distinct(d);
    check(m.size() == o->size(), "keys.size", d + ": " + vh::canon(m) + " should be " + md::canon(MV(o)));
    for (int i = 0; i < m.size(); i++) {
        check(m.key(i) == build(o->key[i]), "keys.order", d + ": " + vh::canon(m) + " should be " + md::canon(MV(o)));
        check(m.at(i).get<int>() == o->v[i].n.l, "keys.value", d + ": " + vh::canon(m) + " should be " + md::canon(MV(o)));
        check(i == 0 || m.key(i - 1) < m.key(i), "keys.sorted", d);
    }
    ev("ordered_keys", m.size());
}

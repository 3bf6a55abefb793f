// C08: views of arrays, checked after every step against an address model.
#include "model.h"
using namespace vh;
using namespace md;

struct Base { int type; std::vector<Num> d; bool live; var v; };
typedef std::shared_ptr<Base> BP;
struct VW { BP b; int off; std::vector<int> shape; var v; bool used;
    int size() const { int n = 1; for (int s : shape) n *= s; return n; }
    int stride(int d) const { int n = 1; for (size_t i = d + 1; i < shape.size(); i++) n *= shape[i]; return n; } };

static std::vector<BP> bases;
static std::vector<std::shared_ptr<VW>> views;
static str trail;

static str shp(const std::vector<int>& s) { str r = "("; for (int x : s) r += fmt("%d,", x); return r + ")"; }
static void step(const str& s) { trail += s + ";"; note(s); ev("steps"); }
static bool same(const Num& a, const Num& b) { return isInt(a.t) ? a.l == b.l : a.re == b.re && a.im == b.im; }
static Num get(var v, int i, int t)
{
    switch (t) {
    case TYPE_CHAR: return mkInt(t, v.at(i).get<char>());
    case TYPE_INT: return mkInt(t, v.at(i).get<int>());
    case TYPE_LONG: return mkInt(t, v.at(i).get<long>());
    case TYPE_FLOAT: return mkFlt(t, v.at(i).get<float>());
    case TYPE_DOUBLE: return mkFlt(t, v.at(i).get<double>());
    case TYPE_CFLOAT: { cfloat c = v.at(i).get<cfloat>(); return mkFlt(t, c.real(), c.imag()); }
    default: { cdouble c = v.at(i).get<cdouble>(); return mkFlt(t, c.real(), c.imag()); }
    }
}
static Num at(var r, int t)
{
    switch (t) {
    case TYPE_CHAR: return mkInt(t, r.cast<char>());
    case TYPE_INT: return mkInt(t, r.cast<int>());
    case TYPE_LONG: return mkInt(t, r.cast<long>());
    case TYPE_FLOAT: return mkFlt(t, r.cast<float>());
    case TYPE_DOUBLE: return mkFlt(t, r.cast<double>());
    case TYPE_CFLOAT: { cfloat c = r.cast<cfloat>(); return mkFlt(t, c.real(), c.imag()); }
    default: { cdouble c = r.cast<cdouble>(); return mkFlt(t, c.real(), c.imag()); }
    }
}
static var multi(const var& v, const std::vector<int>& i)
{
    switch (i.size()) {
    case 1: return v(i[0]);
    case 2: return v(i[0], i[1]);
    case 3: return v(i[0], i[1], i[2]);
    case 4: return v(i[0], i[1], i[2], i[3]);
    default: return v(i[0], i[1], i[2], i[3], i[4]);
    }
}
static var shapeVar(const std::vector<int>& s)
{
    var r;
    for (int x : s) r.push(x);
    if (s.size() == 1) r.array();
    return r;
}
static std::vector<int> where(const VW& w, int k)
{
    std::vector<int> r;
    for (size_t d = 0; d < w.shape.size(); d++) { r.push_back(k / w.stride(d)); k %= w.stride(d); }
    return r;
}
static void store(var ref, const Num& n) { ref = numVar(n); }
static void rawStore(var& v, int i, const Num& n)
{
    switch (n.t) {
    case TYPE_CHAR: *v.ptr<char>(i) = n.l; break;
    case TYPE_INT: *v.ptr<int>(i) = n.l; break;
    case TYPE_LONG: *v.ptr<long>(i) = n.l; break;
    case TYPE_FLOAT: *v.ptr<float>(i) = n.re; break;
    case TYPE_DOUBLE: *v.ptr<double>(i) = n.re; break;
    case TYPE_CFLOAT: *v.ptr<cfloat>(i) = cfloat(n.re, n.im); break;
    default: *v.ptr<cdouble>(i) = cdouble(n.re, n.im);
    }
}

static void verify()
{
    for (auto& b : bases) {
        if (!b->live) continue;
        check(!b->v.view() && b->v.dim() == 1, "base.view", "the array became a view after " + trail);
        check(b->v.size() == int(b->d.size()), "base.size", fmt("array size %d, should be %d after ", b->v.size(), int(b->d.size())) + trail);
        for (size_t i = 0; i < b->d.size(); i++)
            check(same(get(b->v, i, b->type), b->d[i]), "base.element", fmt("array element %d wrong after ", int(i)) + trail);
    }
    for (auto& w : views) {
        str d = "view" + shp(w->shape) + fmt("@%d", w->off);
        int dim = w->shape.size(), n = w->size();
        check(w->v.view(), "view.isview", d + " is no view after " + trail);
        check(w->v.dim() == dim && w->v.size() == n && w->v.offset() == w->off, "view.extent",
              d + fmt(": dim %d size %d offset %d after ", w->v.dim(), w->v.size(), w->v.offset()) + trail);
        var s = w->v.shape();
        check(s.size() == dim, "view.shape", d + " shape() after " + trail);
        for (int i = 0; i < dim; i++) {
            check(s.at(i).cast<int>() == w->shape[i] && w->v.shape(i) == w->shape[i] && w->v.shape(i - dim) == w->shape[i], "view.shape", d + fmt(" shape(%d) after ", i) + trail);
            check(w->v.stride(i) == w->stride(i), "view.stride", d + fmt(" stride(%d) is %d, after ", i, w->v.stride(i)) + trail);
        }
        check(w->v.atype() == w->b->type, "view.type", d + " type after " + trail);
        for (int k = 0; k < n; k++) {
            Num want = w->b->d[w->off + k];
            check(same(get(w->v, k, w->b->type), want), "view.element", d + fmt(" element %d wrong after ", k) + trail);
            check(same(at(multi(w->v, where(*w, k)), w->b->type), want), "view.index", d + fmt(" element ") + shp(where(*w, k)) + " wrong after " + trail);
        }
        ev("view_elements", n);
    }
}

static std::vector<int> randShape(int max)
{
    int dim = rng.in(1, 5);
    std::vector<int> s;
    int n = 1;
    for (int i = 0; i < dim; i++) {
        int k = rng.chance(1, 12) ? 0 : rng.in(1, 4);
        if (n * k > max) k = n ? std::max(1, max / n) : k;
        if (n && n * k > max) k = 1;
        n *= k;
        s.push_back(k);
    }
    return s;
}
static void addBase()
{
    auto b = std::make_shared<Base>();
    b->type = rng.in(TYPE_CHAR, TYPE_CDOUBLE);
    int n = rng.in(1, 40);
    OP o = newObj(b->type);
    for (int i = 0; i < n; i++) { b->d.push_back(randNum(b->type)); o->d.push_back(b->d.back()); }
    b->v = build(MV(o));
    b->live = true;
    bases.push_back(b);
    step(fmt("array %s[%d]", lu::typeStr(b->type), n));
}
static void addView(BP b, int off, std::vector<int> shape, var v)
{
    auto w = std::make_shared<VW>();
    w->b = b; w->off = off; w->shape = shape;
    w->v = v;
    views.push_back(w);
    if (views.size() > 6) views.erase(views.begin() + rng.upto(6));
    distinct(fmt("%s[%d]", lu::typeStr(b->type), int(b->d.size())) + shp(shape) + fmt("@%d", off));
}
static BP liveBase()
{
    std::vector<BP> l;
    for (auto& b : bases) if (b->live) l.push_back(b);
    if (l.empty()) { addBase(); return bases.back(); }
    return rng.pick(l);
}

static void makeView(BP b, var& src, int base, const char* what)
{
    int n = b->d.size();
    if (rng.chance(1, 6)) {      // one that does not fit
        std::vector<int> s = randShape(n);
        int size = 1;
        for (int x : s) size *= x;
        int off = rng.chance(1, 3) ? -base - rng.in(1, 5) : n - size - base + rng.in(1, 5);
        if (off + base >= 0 && off + base + size <= n) return;
        if (rng.chance(1, 4)) { s[rng.upto(s.size())] = -rng.in(1, 3); }
        bool lst = rng.chance(1, 2);
        step(fmt("bad %s.view", what) + shp(s) + fmt("@%d", off));
        mustThrow("view.unfit", "view" + shp(s) + fmt(" offset %d of %s of %d", off, what, n), [&] {
            if (lst && s.size() == 1) src.view({s[0]}, off);
            else if (lst && s.size() == 2) src.view({s[0], s[1]}, off);
            else src.view(shapeVar(s), off);
        });
        ev("unfit");
        return;
    }
    std::vector<int> s = randShape(n - base);
    int size = 1;
    for (int x : s) size *= x;
    if (base + size > n) return;
    int off = rng.in(rng.chance(1, 4) ? -base : 0, n - base - size);
    step(fmt("%s.view", what) + shp(s) + fmt("@%d", off));
    bool lst = rng.chance(1, 2);
    if (lst && s.size() == 1) addView(b, base + off, s, src.view({s[0]}, off));
    else if (lst && s.size() == 2) addView(b, base + off, s, src.view({s[0], s[1]}, off));
    else if (lst && s.size() == 3) addView(b, base + off, s, src.view({s[0], s[1], s[2]}, off));
    else {
        var sv = shapeVar(s);
        str before = vh::canon(sv);
        addView(b, base + off, s, src.view(sv, off));
        check(vh::canon(sv) == before, "view.shapearg", "the shape argument changed");
    }
}

static void assign()
{
    // copying into a view: same shape and type, float kinds
    auto w = rng.pick(views);
    int t = w->b->type;
    if (t < TYPE_FLOAT || w->size() == 0) return;
    OP o = newObj(t);
    for (int i = 0; i < w->size(); i++) o->d.push_back(randNum(t));
    if (w->shape.size() == 1 && rng.chance(1, 2)) {
        var a = build(MV(o));
        step("view" + shp(w->shape) + fmt("@%d = array", w->off));
        w->v = a;
        check(vh::canon(a) == md::canon(MV(o)), "assign.source", "assignment to a view changed its source");
    }
    else {
        // a view of the same shape, of another array or of a separate part of this one
        int pre = rng.upto(3);
        OP big = newObj(t);
        for (int i = 0; i < pre; i++) big->d.push_back(randNum(t));
        for (auto& n : o->d) big->d.push_back(n);
        var a = build(MV(big));
        var x = a.view(shapeVar(w->shape), pre);
        if (rng.chance(1, 3)) { a = lu::nil; }
        step("view" + shp(w->shape) + fmt("@%d = view@%d", w->off, pre));
        w->v = x;
        check(x.offset() == pre && x.size() == w->size(), "assign.source", "assignment changed the source view");
        for (int i = 0; i < w->size(); i++) check(same(get(x, i, t), o->d[i]), "assign.source", "assignment changed the source of " + trail);
    }
    for (int i = 0; i < w->size(); i++) w->b->d[w->off + i] = o->d[i];
    ev("view_assignments");
}
static void assignWithin()
{
    // between two disjoint views of one array
    for (auto& a : views)
        for (auto& b : views) {
            if (a == b || a->b != b->b || a->shape != b->shape || a->b->type < TYPE_FLOAT || a->size() == 0) continue;
            if (a->off < b->off + b->size() && b->off < a->off + a->size()) continue;
            step("view" + shp(a->shape) + fmt("@%d = view@%d within", a->off, b->off));
            a->v = b->v;
            for (int i = 0; i < a->size(); i++) a->b->d[a->off + i] = b->b->d[b->off + i];
            ev("view_assignments");
            return;
        }
}

// what does not have the type and shape of a view is not copied in to it
VH_CASE_W(view_assignother, 1)
{
    int t = rng.in(TYPE_CHAR, TYPE_CDOUBLE), st = rng.chance(2, 3) ? t : rng.in(TYPE_CHAR, TYPE_CDOUBLE);
    std::vector<int> s, os;
    int size = 1, osize = 1;
    for (int k = rng.in(1, 5); k > 0; k--) { s.push_back(rng.in(1, 4)); size *= s.back(); }
    os = s;
    switch (rng.upto(7)) {
    case 5: case 6: { size_t from = rng.upto(os.size()); for (size_t i = os.size() - 1; i > from; i--) std::swap(os[i], os[from + rng.upto(i - from + 1)]); break; }
    case 0: if (os.size() > 1) { std::swap(os.front(), os.back()); break; }
    case 1: case 2: { int& d = os[rng.upto(os.size())]; d += d == 1 || rng.chance(1, 2) ? 1 : -1; break; }
    case 3: os.insert(os.begin() + rng.upto(os.size() + 1), rng.chance(2, 3) ? 1 : 2); break;
    default: if (os.size() > 1) { int k = rng.upto(os.size() - 1); os[k] *= os[k + 1]; os.erase(os.begin() + k + 1); }
    }
    for (int k : os) osize *= k;
    if (s == os && t == st) return;
    if (t == st && t < TYPE_FLOAT && s == os) return;
    auto mk = [&](int ty, int n) { OP o = newObj(ty); for (int i = 0; i < n; i++) o->d.push_back(randNum(ty)); return o; };
    int off = rng.upto(3), ooff = rng.upto(3);
    OP bo = mk(t, off + size + rng.upto(3)), so = mk(st, ooff + osize + rng.upto(3));
    var a = build(MV(bo)), b = build(MV(so));
    var v = a.view(shapeVar(s), off), y = b.view(shapeVar(os), ooff);
    str d = "view" + shp(s) + fmt(" type %d at %d = view", t, off) + shp(os) + fmt(" type %d at %d", st, ooff);
    note(d);
    distinct(d);
    bool threw = false;
    try { v = y; } catch (const std::exception&) { threw = true; }
    check(!threw, "assign.other", d + " threw");
    check(vh::canon(a) == md::canon(MV(bo)), "assign.otherarray", d + " changed the array below: " + vh::canon(a).substr(0, 300));
    check(vh::canon(b) == md::canon(MV(so)), "assign.othersource", d + " changed its source");
    for (auto* p : {&v, &y}) {
        check(p->view() && p->dim() == int(os.size()) && p->size() == osize && p->offset() == ooff, "assign.other", d + fmt(": has %d dimensions, %d elements", int(p->dim()), p->size()));
        for (size_t i = 0; i < os.size(); i++) check(p->shape(i) == os[i], "assign.other", d + fmt(": dimension %d is %d", int(i), p->shape(i)));
        for (int i = 0; i < osize; i++) check(same(get(*p, i, st), so->d[ooff + i]), "assign.other", d + fmt(": element %d differs", i));
    }
    ev("other_assignments");
}

VH_CASE_W(view_programs, 6)
{
    bases.clear(); views.clear(); trail.clear();
    addBase();
    int steps = rng.in(5, 25);
    for (int k = 0; k < steps; k++) {
        int op = rng.upto(20);
        if (views.empty() && op > 4) op = 2;
        switch (op) {
        case 0: if (bases.size() < 4) addBase(); break;
        case 1: case 2: case 3: { BP b = liveBase(); makeView(b, b->v, 0, "array"); break; }
        case 4: { auto w = views.empty() ? nullptr : rng.pick(views); if (w) makeView(w->b, w->v, w->off, "view"); break; }
        case 5: {       // sub-view
            auto w = rng.pick(views);
            int dim = w->shape.size();
            int d = rng.in(1, dim);
            std::vector<int> s(w->shape.end() - d, w->shape.end());
            int size = 1, blocks = 1;
            for (int x : s) size *= x;
            for (int i = 0; i < dim - d; i++) blocks *= w->shape[i];
            if (blocks == 0) break;
            int off = rng.upto(blocks) * size;
            step("view" + shp(w->shape) + fmt("@%d.subview(%d,%d)", w->off, d, off));
            addView(w->b, w->off + off, s, w->v.subview(d, off));
            ev("subviews");
            break;
        }
        case 6: case 7: {       // move
            auto w = rng.pick(views);
            int n = w->b->d.size() - w->size();
            int off = rng.chance(1, 5) ? (rng.chance(1, 2) ? -rng.in(1, 4) : n + rng.in(1, 4)) : rng.in(0, n);
            bool adv = rng.chance(1, 2);
            step(fmt("view@%d %s %d", w->off, adv ? "advance to" : "offset", off));
            auto f = [&] { var& r = adv ? w->v.advance(off - w->off) : w->v.offset(off);
                           check(&r == &w->v, "offset.result", "offset() returns another var"); };
            if (off < 0 || off > n) { mustThrow("offset.range", fmt("offset %d of view of %d in %d", off, w->size(), int(w->b->d.size())), f); ev("unfit"); }
            else { mustWork("offset", trail, f); w->off = off; ev("moves"); }
            break;
        }
        case 8: case 9: case 10: case 11: {       // write through the view
            auto w = rng.pick(views);
            if (!w->size()) break;
            int k = rng.upto(w->size());
            Num n = randNum(w->b->type);
            int how = rng.upto(4);
            step(fmt("view@%d[%d] = by %d", w->off, k, how));
            if (how == 0) store(multi(w->v, where(*w, k)), n);
            else if (how == 1) store(w->v.at(k), n);
            else if (how == 2) store(w->v[k], n);
            else rawStore(w->v, k, n);
            w->b->d[w->off + k] = n;
            ev("writes");
            break;
        }
        case 12: {      // write through the array
            BP b = liveBase();
            int k = rng.upto(b->d.size());
            Num n = randNum(b->type);
            step(fmt("array[%d] =", k));
            store(b->v.at(k), n);
            b->d[k] = n;
            ev("writes");
            break;
        }
        case 13: {      // the array grows, perhaps moving its storage
            BP b = liveBase();
            int n = rng.chance(1, 4) ? rng.in(1, 60) : rng.in(1, 3);
            step(fmt("array pushes %d", n));
            for (int i = 0; i < n && b->d.size() < 300; i++) { Num x = randNum(b->type); b->v.push(numVar(x)); b->d.push_back(x); }
            ev("growth");
            break;
        }
        case 14: {      // the array variable goes away
            BP b = liveBase();
            if (!rng.chance(1, 3)) break;
            step("array released");
            b->v = lu::nil;
            b->live = false;
            ev("orphaned");
            break;
        }
        case 15: assign(); break;
        case 16: assignWithin(); break;
        case 17: {      // a copy is of different storage
            auto w = rng.pick(views);
            step(fmt("view@%d.copy()", w->off));
            var c = w->v.copy();
            auto b = std::make_shared<Base>();
            b->type = w->b->type; b->d = w->b->d; b->live = false;
            bases.push_back(b);
            check(c.view() && c.size() == w->size(), "copy.view", "copy of a view");
            // only the viewed elements are promised
            for (int i = 0; i < w->size(); i++) check(same(get(c, i, b->type), w->b->d[w->off + i]), "copy.element", "copy of a view has other elements");
            if (w->size()) {
                Num n = randNum(b->type);
                store(c.at(0), n);
            }
            ev("copies");
            break;
        }
        case 18: {      // out of range accesses
            auto w = rng.pick(views);
            int n = w->size();
            int bad = rng.chance(1, 2) ? n + rng.upto(3) : -1 - rng.upto(3);
            std::vector<int> ix;
            for (int s : w->shape) ix.push_back(s ? rng.upto(s) : 0);
            int d = rng.upto(ix.size());
            step(fmt("view@%d bad index %d", w->off, bad));
            if (bad < 0) mustThrow("view.at", fmt("element %d of a view of %d", bad, n), [&] { w->v.at(bad); });
            ix[d] = rng.chance(1, 2) ? w->shape[d] + rng.upto(3) : -1 - rng.upto(3);
            mustThrow("view.bounds", fmt("bounds(%d,%d) of ", d, ix[d]) + shp(w->shape), [&] { w->v.bounds(d, ix[d]); });
            mustThrow("view.badshape", "shape of a dimension there is not", [&] { w->v.shape(w->shape.size()); });
            mustThrow("view.badshape", "shape of a dimension there is not", [&] { w->v.shape(-1 - int(w->shape.size())); });
            mustThrow("view.callbounds", "index " + shp(ix) + " of " + shp(w->shape), [&] { multi(w->v, ix); });
            if (w->shape[d]) mustWork("view.inbounds", "bounds() of an index in range", [&] { w->v.bounds(d, rng.upto(w->shape[d])); });
            ev("bad_indices");
            break;
        }
        case 19: {      // a second handle to the view, kept in an array
            auto w = rng.pick(views);
            var h, g;
            h[0] = w->v;
            g = w->v;
            if (w->size()) {
                Num n = randNum(w->b->type);
                int k = rng.upto(w->size());
                step(fmt("shared view@%d[%d] =", w->off, k));
                if (rng.chance(1, 2)) store(h.at(0).at(k), n);
                else store(g.at(k), n);
                w->b->d[w->off + k] = n;
            }
            break;
        }
        }
        if (rng.chance(1, 10) && !views.empty()) { views.erase(views.begin() + rng.upto(views.size())); }
        verify();
    }
    sample(trail.substr(0, 300));
    bases.clear(); views.clear();
}

// what cannot be a view, and operations a view cannot take
VH_CASE_W(view_reject, 1)
{
    auto n = rng.in(2, 12);
    int t = rng.in(TYPE_CHAR, TYPE_CDOUBLE);
    OP o = newObj(t);
    for (int i = 0; i < n; i++) o->d.push_back(randNum(t));
    var a = build(MV(o));
    int len = rng.in(1, n);
    int off = rng.upto(n - len + 1);
    var v = a.view({len}, off);
    str d = fmt("view of %d at %d of ", len, off) + md::canon(MV(o));
    note(d);
    distinct(d);
    str vb = vh::canon(v);
    auto same2 = [&](const char* what) {
        check(vh::canon(a) == md::canon(MV(o)), "reject.array", str(what) + " changed the array of " + d);
        check(v.view() && v.size() == len && v.offset() == off && vh::canon(v) == vb, "reject.view", str(what) + " changed " + d);
    };
    var x = numVar(randNum(t));
    struct { const char* n; std::function<void()> f; } ops[] = {
        {"offset of an array", [&] { a.offset(0); }},
        {"stride of a second dimension", [&] { a.stride(1); }},
        {"shape of a second dimension", [&] { a.shape(1); }},
        {"stride of a second dimension of a view", [&] { v.stride(rng.in(1, 9)); }},
        {"shape of a second dimension of a view", [&] { v.shape(rng.in(1, 9)); }},
        {"stride before the first dimension of a view", [&] { v.stride(rng.in(-9, -2)); }},
        {"shape before the first dimension of a view", [&] { v.shape(rng.in(-9, -2)); }},
        {"subview(0)", [&] { v.subview(0, 0); }},
        {"subview(-1)", [&] { v.subview(-1, 0); }},
        {"subview beyond", [&] { v.subview(1, n); }},
        {"view of no dimensions", [&] { var s; s = 1; s.array(); s.resize(0); a.view(s); }},
    };
    for (auto& op : ops) {
        mustThrow("view.reject", str(op.n) + " on " + d, op.f);
        same2(op.n);
    }
}

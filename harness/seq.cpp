// C02 C03 C04 C05 C06 C30 (and C01): random programs over several variables,
// run against the reference model in model.h.  After every step every variable
// and retained reference is compared with the model, storage identity is
// compared (two handles share storage exactly when the model says so), and
// storage the model dropped must have been released.
#include "model.h"
#include <algorithm>
#include <deque>
using namespace vh;
using namespace md;

namespace {

struct Step { bool byKey; int i; MV key; bool at; };
struct Place {
    int base;                  // variable, or -1 - retained reference
    std::vector<Step> path;
};
struct Ref { std::unique_ptr<var> v; OP o; int i; };
struct Val { MV m; int vt; int src; Place p; };   // src 0 fresh, 1 a place

const int NV = 5, NR = 3;
var vars[NV];
MV mod[NV];
Ref refs[NR];

struct Track { std::weak_ptr<Obj> o; const void* hp; const void* data; str what; };
std::map<const Obj*, Track> track;
str opName, profile;
int stepNo;

struct Loc { MV* slot; OP o; int i; };

Loc locate(const Place& p)
{
    Loc l;
    if (p.base >= 0) l = {&mod[p.base], nullptr, 0};
    else {
        Ref& r = refs[-1 - p.base];
        if (r.o->dense()) l = {nullptr, r.o, r.i};
        else l = {&r.o->v[r.i], r.o, r.i};
    }
    for (auto& s : p.path) {
        OP o = l.slot->o;
        int i = s.i;
        if (s.byKey) { bool f; i = find(o, s.key, f); }
        if (o->dense()) l = {nullptr, o, i};
        else l = {&o->v[i], o, i};
    }
    return l;
}
MV valueAt(const Place& p)
{
    Loc l = locate(p);
    return l.slot ? *l.slot : numVal(l.o->d[l.i]);
}
template<class F> void walkPath(var& v, const Place& p, size_t k, F f)
{
    if (k == p.path.size()) { f(v); return; }
    const Step& s = p.path[k];
    if (s.byKey) {
        var key = build(s.key);
        if (s.at) { var t = v.at(key); walkPath(t, p, k + 1, f); }
        else { var t = v[key]; walkPath(t, p, k + 1, f); }
    }
    else if (s.at) { var t = v.at(s.i); walkPath(t, p, k + 1, f); }
    else if (v.defined() && v.atype() != TYPE_PAIR && rng.chance(1, 4)) {
        // any number serves as an index
        var i = numVar(s.i < 128 ? mkNum(rng.in(TYPE_CHAR, TYPE_DOUBLE), s.i) : mkNum(TYPE_LONG, s.i));
        var t = v[i];
        walkPath(t, p, k + 1, f);
        ev("var_indices");
    }
    else { var t = v[s.i]; walkPath(t, p, k + 1, f); }
}
template<class F> void with(const Place& p, F f)
{
    walkPath(p.base >= 0 ? vars[p.base] : *refs[-1 - p.base].v, p, 0, f);
}
str show(const Place& p)
{
    str s = p.base >= 0 ? fmt("x%d", p.base) : fmt("r%d", -1 - p.base);
    for (auto& t : p.path)
        s += t.byKey ? str(t.at ? ".at(" : "[") + md::canon(t.key) + (t.at ? ")" : "]") : fmt(t.at ? ".at(%d)" : "[%d]", t.i);
    return s;
}

// ---- comparison with the model ------------------------------------------------
bool sameNum(const var& v, const Num& n)
{
    switch (n.t) {
    case TYPE_CHAR: return v.get<char>() == char(n.l);
    case TYPE_INT: return v.get<int>() == int(n.l);
    case TYPE_LONG: return v.get<long>() == n.l;
    case TYPE_FLOAT: return v.get<float>() == float(n.re);
    case TYPE_DOUBLE: return v.get<double>() == n.re;
    case TYPE_CFLOAT: return v.get<cfloat>() == cfloat(float(n.re), float(n.im));
    case TYPE_CDOUBLE: return v.get<cdouble>() == cdouble(n.re, n.im);
    }
    return false;
}
std::map<const void*, const Obj*> seenH;
std::map<const Obj*, const void*> seenO;

// empty if the value is as the model says
str diff(const var& v, const MV& m, int depth = 0)
{
    if (m.k == MV::NIL) return v.defined() ? "should be undefined" : v.size() ? "undefined has a size" : "";
    if (!v.defined()) return "is undefined";
    if (m.k == MV::NUM) {
        if (v.type() == TYPE_ARRAY || int(v.type()) != m.n.t) return str("has type ") + kind(v);
        if (v.heap()) return "scalar on the heap";
        if (v.size() != 1) return "scalar with a size";
        return sameNum(v, m.n) ? "" : "has another value";
    }
    const Obj& o = *m.o;
    const IHeap* h = v.heap();
    if (v.type() != TYPE_ARRAY || !h) return "is no array";
    if (int(v.atype()) != o.type) return "has element type " + kind(v);
    if (v.size() != o.size()) return fmt("has %d elements, not %d", v.size(), o.size());
    auto a = seenH.find(h);
    if (a != seenH.end()) return a->second == &o ? "" : "shares storage with another array";
    auto b = seenO.find(&o);
    if (b != seenO.end() && b->second != h) return "should share storage with another handle, and does not";
    seenH[h] = &o;
    seenO[&o] = h;
    Track& t = track[&o];
    if (t.o.expired()) t = {m.o, h, h->ptrchar(), ""};
    t.hp = h; t.data = h->ptrchar();
    for (int i = 0; i < o.size(); i++) {
        var e = v.at(i);
        if (o.type == TYPE_PAIR) {
            str d = diff(v.key(i), o.key[i], depth + 1);
            if (!d.empty()) return fmt("key %d ", i) + d;
        }
        if (o.dense()) {
            if (int(e.type()) != o.type) return fmt("element %d has the wrong type", i);
            if (!sameNum(e, o.d[i])) return fmt("element %d has another value", i);
        }
        else {
            str d = diff(e, o.v[i], depth + 1);
            if (!d.empty()) return fmt("element %d ", i) + d;
        }
    }
    if (o.type == TYPE_CHAR && v.str()[o.size()]) return "string is not terminated";
    return "";
}

void verify()
{
    seenH.clear(); seenO.clear();
    const char* key = opName.c_str();
    for (int i = 0; i < NV; i++) {
        str d = diff(vars[i], mod[i]);
        if (!d.empty())
            fail(str("state.") + key, fmt("after step %d, x%d ", stepNo, i) + d + ": it is " + vh::canon(vars[i]) + ", should be " + md::canon(mod[i]));
    }
    for (int i = 0; i < NR; i++) if (refs[i].v) {
        str d = diff(*refs[i].v, elemVal(refs[i].o, refs[i].i));
        // a double complex element becomes an array of its own when read
        if (refs[i].o->type == TYPE_CDOUBLE) d = sameNum(*refs[i].v, refs[i].o->d[refs[i].i]) ? "" : "has another value";
        if (!d.empty()) fail(str("ref.") + key, fmt("after step %d, reference r%d ", stepNo, i) + d);
    }
    ev("states_compared");
}

// whatever the model no longer holds must be gone, and only that
void verifyReleases()
{
    const char* key = opName.c_str();
    for (auto it = track.begin(); it != track.end();) {
        if (it->second.o.expired()) {
            if (!freed(it->second.hp))
                fail(str("retained.") + key, fmt("after step %d, storage nothing refers to any more is still allocated", stepNo));
            ev("releases_seen");
            it = track.erase(it);
        }
        else {
            if (freed(it->second.hp))
                fail(str("early.") + key, fmt("after step %d, storage still referred to was released", stepNo));
            ++it;
        }
    }
}

// ---- running one step -----------------------------------------------------------
bool step(const char* name, const str& desc, bool expectThrow, std::function<void()> real, std::function<void()> model)
{
    opName = name;
    note(desc);
    bool threw = false;
    str what;
    try { real(); }
    catch (CaseAbort&) { throw; }
    catch (std::exception& e) {
        threw = true;
        what = e.what() ? e.what() : "";
        if (what.empty()) fail(str("nomessage.") + name, desc + ": exception without a message");
    }
    if (threw != expectThrow)
        fail(str(threw ? "threw." : "accepted.") + name, fmt("step %d ", stepNo) + desc + (threw ? " threw " + what.substr(0, what.find('\n')) : " was accepted"));
    if (threw) ev("rejected"); else { ev("steps"); model(); }
    ev((str("op.") + name).c_str());
    verify();
    return !threw;
}

// ---- choosing --------------------------------------------------------------------
Step stepInto(const OP& o)
{
    Step s;
    s.i = rng.upto(o->size());
    s.byKey = o->type == TYPE_PAIR && rng.chance(3, 4);
    if (s.byKey) s.key = o->key[s.i];
    s.at = rng.chance(1, 2);
    return s;
}
// a slot; never a dense element unless asked for
Place pickPlace(bool dense = false, bool useRefs = true)
{
    Place p;
    p.base = rng.upto(NV);
    if (useRefs && rng.chance(1, 6)) {
        int r = rng.upto(NR);
        if (refs[r].v && (dense || !refs[r].o->dense())) p.base = -1 - r;
    }
    if (p.base < 0) return p;     // references are used as they are
    while (p.path.size() < 4 && rng.chance(2, 5)) {
        MV m = valueAt(p);
        if (m.k != MV::OBJ || !m.o->size()) break;
        if (m.o->dense() && !dense) break;
        p.path.push_back(stepInto(m.o));
        if (m.o->dense()) break;
    }
    return p;
}
bool denseElem(const Place& p) { return !locate(p).slot; }

Val pickVal(int depth = 2)
{
    Val v;
    v.src = rng.chance(1, 2);
    if (v.src) {
        v.p = pickPlace(true);
        v.m = valueAt(v.p);
        v.vt = v.m.k == MV::NUM ? v.m.n.t : denseElem(v.p) ? int(TYPE_CDOUBLE) : int(TYPE_ARRAY);
    }
    else {
        v.m = randVal(depth);
        v.vt = v.m.k == MV::NUM ? v.m.n.t : int(TYPE_ARRAY);
    }
    return v;
}
Val numberVal(int t)
{
    Val v;
    v.src = 0;
    v.m = numVal(randNum(t));
    v.vt = v.m.k == MV::NUM ? v.m.n.t : int(TYPE_ARRAY);
    return v;
}
str show(const Val& v) { return v.src ? show(v.p) : md::canon(v.m); }
template<class F> void withVal(const Val& v, F f)
{
    if (v.src) with(v.p, f);
    else { var x = build(v.m); f(x); }
}
// both: place first, then value, as in place.op(value)
template<class F> void both(const Place& p, const Val& v, F f)
{
    withVal(v, [&](var& x) { with(p, [&](var& r) { f(r, x); }); });
}
void dropRefs(const OP& o, int from)
{
    for (auto& r : refs) if (r.v && r.o == o && r.i >= from) { r.v.reset(); r.o.reset(); }
}
void dropAllRefs() { for (auto& r : refs) { r.v.reset(); r.o.reset(); } }
// storing v in the storage at (or holding) place p would make it contain itself
bool cyclic(const Place& p, const MV& v)
{
    if (v.k != MV::OBJ) return false;
    Place q = p;
    OP held = p.base < 0 ? refs[-1 - p.base].o : nullptr;
    if (held && reaches(v, held)) return true;
    MV m = valueAt(p);
    if (m.k == MV::OBJ && reaches(v, m.o)) return true;
    while (!q.path.empty()) {
        q.path.pop_back();
        m = valueAt(q);
        if (m.k == MV::OBJ && reaches(v, m.o)) return true;
    }
    return false;
}
OP oneOf(const MV& m) { OP o = newObj(m.n.t); o->d.push_back(m.n); return o; }

// result of an operation, compared by contents (and identity through verify)
void sameResult(const char* key, const var& r, const MV& m)
{
    auto h = seenH; auto o = seenO;
    seenH.clear(); seenO.clear();
    str d = diff(r, m);
    seenH = h; seenO = o;
    if (!d.empty()) fail(str("result.") + key, fmt("step %d: result ", stepNo) + d + ": " + vh::canon(r) + ", should be " + md::canon(m));
}

// ---- operations ---------------------------------------------------------------------
void opAssign()
{
    Place p = pickPlace(true);
    Val v = pickVal();
    Loc l = locate(p);
    if (l.slot) {
        if (cyclic(p, v.m)) return;
        step("assign", show(p) + " = " + show(v), false, [&] { both(p, v, [](var& r, var& x) { r = x; }); }, [&] { *locate(p).slot = v.m; });
    }
    else {
        Num n;
        Conv c = conv(v.m, l.o->type, n, l.o);
        if (c == SKIP) return;
        step("store", show(p) + " = " + show(v), c == THROW, [&] { both(p, v, [](var& r, var& x) { r = x; }); }, [&] { l.o->d[l.i] = n; });
        distinct(fmt("store %d<-%d %d ", l.o->type, v.vt, int(c)) + md::canon(v.m));
    }
}
void opFresh()
{
    int k = rng.upto(NV);
    MV m = randVal(3);
    step("fresh", fmt("x%d = ", k) + md::canon(m), false, [&] { vars[k] = build(m); }, [&] { mod[k] = m; });
}
void opShare()
{
    int j = rng.upto(NV);
    Place p = pickPlace(false);
    MV m = valueAt(p);
    if (rng.chance(1, 4) && p.path.empty() && p.base >= 0 && p.base != j)
        step("move", fmt("x%d = move ", j) + show(p), false, [&] { vars[j] = std::move(vars[p.base]); },
             [&] { mod[j] = m; mod[p.base] = MV(); });
    else if (rng.chance(1, 4))
        // through a by-value parameter, a container and a return value
        step("pass", fmt("x%d = f(", j) + show(p) + ")", false, [&] {
            with(p, [&](var& r) {
                auto f = [](var a) { a.dereference(); std::vector<var> c(3, a); c.push_back(a); c.erase(c.begin()); return c[1]; };
                vars[j] = f(r);
            }); }, [&] { mod[j] = m; });
    else
        step("share", fmt("x%d = ", j) + show(p), false, [&] { with(p, [&](var& r) { vars[j] = r; }); }, [&] { mod[j] = m; });
}
void opSwap()
{
    int j = rng.upto(NV), k = rng.upto(NV);
    if (j == k) return;
    step("swap", fmt("swap x%d x%d", j, k), false, [&] { std::swap(vars[j], vars[k]); }, [&] { std::swap(mod[j], mod[k]); });
}
void opCopy()
{
    int j = rng.upto(NV);
    Place p = pickPlace(false);
    MV m = valueAt(p), c = m;
    if (m.k == MV::OBJ) c = MV(std::make_shared<Obj>(*m.o));
    step("copy", fmt("x%d = ", j) + show(p) + ".copy()", false, [&] { with(p, [&](var& r) {
        var k = r.copy();
        vars[j] = k;
        // changing the copy itself changes nothing else
        if (k.heap()) { var g = k.copy(); g.array(); if (g.size()) g.resize(g.size() - 1); }
        else if (rng.chance(1, 2)) { k.array(); k.push(k.at(0)); }
        else k = 99;
    }); }, [&] { mod[j] = c; });
    if (m.k == MV::OBJ) distinct("copy " + md::canon(m));
}
void opClear()
{
    Place p = pickPlace(false);
    step("clear", show(p) + ".clear()", false, [&] { with(p, [&](var& r) { r.clear(); }); }, [&] { *locate(p).slot = MV(); });
}
void opRef()
{
    int r = rng.upto(NR);
    if (refs[r].v && rng.chance(1, 3)) {
        step("dropref", fmt("drop r%d", r), false, [&] { refs[r].v.reset(); }, [&] { refs[r].o.reset(); });
        return;
    }
    Place p = pickPlace(true, false);
    if (p.path.empty()) {
        MV m = valueAt(p);
        if (m.k != MV::OBJ || !m.o->size()) return;
        p.path.push_back(stepInto(m.o));
    }
    Loc l = locate(p);
    step("reference", fmt("r%d -> ", r) + show(p), false, [&] { with(p, [&](var& t) { refs[r].v.reset(new var(t)); }); },
         [&] { refs[r].o = l.o; refs[r].i = l.i; });
}
void opPush()
{
    Place p = pickPlace(false);
    MV m = valueAt(p);
    Val v = m.k == MV::NUM && rng.chance(3, 4) ? numberVal(m.n.t) :
        m.k == MV::OBJ && m.o->dense() && rng.chance(1, 2) ? numberVal(randType()) : pickVal();
    if (cyclic(p, v.m)) return;
    bool t = false;
    MV n = m;
    Num x;
    int grow = 0;
    // a reference to the slot that is about to become an array
    if (m.k != MV::OBJ && v.src && (v.p.base < 0 || !v.p.path.empty()) && locate(v.p).slot == locate(p).slot) return;
    if (m.k == MV::NIL) {
        if (v.vt != TYPE_ARRAY) n = v.m;
        else { OP o = newObj(TYPE_VAR); o->v.push_back(v.m); n = MV(o); }
    }
    else if (m.k == MV::NUM) {
        if (v.vt != m.n.t) t = true;
        else { OP o = oneOf(m); o->d.push_back(v.m.n); n = MV(o); }
    }
    else if (m.o->type == TYPE_PAIR) return;
    else if (m.o->dense()) {
        Conv c = conv(v.m, m.o->type, x, m.o);
        if (c == SKIP) return;
        t = c == THROW;
        grow = 1;
    }
    else grow = 2;
    step("push", show(p) + ".push(" + show(v) + ")", t, [&] { both(p, v, [](var& r, var& y) { r.push(y); }); }, [&] {
        if (grow == 1) m.o->d.push_back(x);
        else if (grow == 2) m.o->v.push_back(v.m);
        else *locate(p).slot = n;
    });
    distinct("push " + md::canon(m).substr(0, 60) + md::canon(v.m).substr(0, 60));
}
void opPop()
{
    Place p = pickPlace(false);
    MV m = valueAt(p);
    bool front = rng.chance(1, 2);
    const char* name = front ? "shift" : "pop";
    int n = m.k == MV::NIL ? 0 : m.k == MV::NUM ? 1 : m.o->size();
    MV want, left;
    if (m.k == MV::NUM) { want = m; left = MV(newObj(m.n.t)); }
    else if (n) { want = elemVal(m.o, front ? 0 : n - 1); dropRefs(m.o, n - 1); }
    var got;
    step(name, show(p) + "." + name + "()", n == 0, [&] { with(p, [&](var& r) { got = front ? r.shift() : r.pop(); }); }, [&] {
        if (m.k == MV::NUM) *locate(p).slot = left;
        else {
            int i = front ? 0 : n - 1;
            if (m.o->dense()) m.o->d.erase(m.o->d.begin() + i); else m.o->v.erase(m.o->v.begin() + i);
            if (m.o->type == TYPE_PAIR) m.o->key.erase(m.o->key.begin() + i);
        }
        sameResult(name, got, want);
    });
    if (!n) check(!got.defined(), "state.pop", "a rejected pop gave a value");
}
void opTop()
{
    Place p = pickPlace(false);
    MV m = valueAt(p);
    int n = m.k == MV::NIL ? 0 : m.k == MV::NUM ? 1 : m.o->size();
    if (!n && m.k != MV::NIL) return;
    var got;
    step("top", show(p) + ".top()", m.k == MV::NIL, [&] { with(p, [&](var& r) { got = r.top(); }); },
         [&] { sameResult("top", got, m.k == MV::NUM ? m : elemVal(m.o, n - 1)); });
}
void opUnshift()
{
    Place p = pickPlace(false);
    MV m = valueAt(p);
    Val v = m.k == MV::NUM && rng.chance(3, 4) ? numberVal(m.n.t) :
        m.k == MV::OBJ && m.o->dense() && rng.chance(1, 2) ? numberVal(randType()) : pickVal();
    if (cyclic(p, v.m)) return;
    bool t = false;
    MV n;
    Num x;
    int grow = 0;
    if (m.k == MV::NIL) {
        if (v.m.k == MV::NUM) n = v.m;
        else { OP o = newObj(TYPE_VAR); o->v.push_back(v.m); n = MV(o); }
    }
    else if (m.k == MV::NUM) {
        if (v.m.k != MV::NUM || v.m.n.t != m.n.t) t = true;
        else { OP o = newObj(m.n.t); o->d = {v.m.n, m.n}; n = MV(o); }
    }
    else if (m.o->type == TYPE_PAIR) t = true;
    else if (m.o->dense()) {
        Conv c = conv(v.m, m.o->type, x, m.o);
        if (c == SKIP) return;
        t = c == THROW;
        grow = 1;
    }
    else grow = 2;
    step("unshift", show(p) + ".unshift(" + show(v) + ")", t, [&] { both(p, v, [](var& r, var& y) { r.unshift(y); }); }, [&] {
        if (grow == 1) m.o->d.insert(m.o->d.begin(), x);
        else if (grow == 2) m.o->v.insert(m.o->v.begin(), v.m);
        else *locate(p).slot = n;
    });
}
void opInsert()
{
    Place p = pickPlace(false);
    MV m = valueAt(p);
    if (m.k == MV::OBJ && m.o->type == TYPE_PAIR) return;
    Val v = pickVal();
    if (m.k == MV::OBJ && m.o->dense() && rng.chance(1, 5)) { v.src = 1; v.p = p; v.m = m; v.vt = TYPE_ARRAY; }   // into itself
    bool self = m.k == MV::OBJ && v.m.k == MV::OBJ && v.m.o == m.o && m.o->dense();
    if (!self && cyclic(p, v.m)) return;
    if (v.m.k == MV::OBJ && v.m.o->type == TYPE_PAIR && !(m.k == MV::OBJ && m.o->type == TYPE_VAR)) return;
    int n = m.k == MV::NIL ? 0 : m.k == MV::NUM ? 1 : m.o->size();
    bool app = rng.chance(1, 3);
    int at = app ? n : rng.chance(1, 8) ? rng.in(-2, n + 3) : rng.upto(n + 1);
    bool t = at < 0 || at > n;
    std::vector<MV> el;
    if (v.m.k == MV::NUM) el.push_back(v.m);
    else if (v.m.k == MV::OBJ) for (int i = 0; i < v.m.o->size(); i++) el.push_back(elemVal(v.m.o, i));
    if (el.size() > 200) return;
    std::vector<Num> xs;
    int type = m.k == MV::NUM ? m.n.t : m.k == MV::OBJ ? m.o->type : int(TYPE_VAR);
    if (!t && type != TYPE_VAR)
        for (auto& e : el) {
            Num x;
            Conv c = conv(e, type, x, m.o);
            if (c == SKIP) return;
            if (c == THROW) { t = true; break; }
            xs.push_back(x);
        }
    const char* name = app ? "append" : "insert";
    step(name, show(p) + "." + name + "(" + show(v) + fmt(", %d)", at), t, [&] {
        both(p, v, [&](var& r, var& y) { if (app) r.append(y); else r.insert(y, at); }); }, [&] {
        if (m.k == MV::NIL) {
            OP o = newObj(TYPE_VAR);
            o->v = el;
            *locate(p).slot = MV(o);
        }
        else if (m.k == MV::NUM) {
            if (xs.empty()) return;
            OP o = oneOf(m);
            o->d.insert(o->d.begin() + at, xs.begin(), xs.end());
            *locate(p).slot = MV(o);
        }
        else if (m.o->dense()) m.o->d.insert(m.o->d.begin() + at, xs.begin(), xs.end());
        else m.o->v.insert(m.o->v.begin() + at, v.m);
    });
    distinct(str(name) + md::canon(m).substr(0, 60) + md::canon(v.m).substr(0, 60) + fmt("%d", at));
}
void opAppendRaw()
{
    Place p = pickPlace(false);
    MV m = valueAt(p);
    int type = rng.pick(std::vector<int>{TYPE_CHAR, TYPE_CHAR, TYPE_INT, TYPE_CDOUBLE});
    int n = rng.chance(1, 5) ? rng.in(0, 70) : rng.in(type == TYPE_CHAR ? 0 : 1, 6);
    std::vector<Num> d;
    for (int i = 0; i < n; i++) d.push_back(randNum(type));
    bool cstr = type == TYPE_CHAR && rng.chance(1, 2);
    if (cstr) for (auto& x : d) if (!x.l) x.l = 'z';
    bool t = m.k != MV::NIL && (m.k == MV::NUM ? m.n.t : m.o->type) != type;
    str s; std::vector<int> iv; std::vector<cdouble> cv;
    for (auto& x : d) { s += char(x.l); iv.push_back(int(x.l)); cv.push_back(cdouble(x.re, x.im)); }
    step("appendraw", show(p) + fmt(".append(%d x %s)", n, lu::typeStr(type)), t, [&] {
        with(p, [&](var& r) {
            if (cstr) r.append(s.c_str());
            else if (type == TYPE_CHAR) r.append(n, s.data());
            else if (type == TYPE_INT) r.append(n, iv.data());
            else r.append(n, cv.data());
        }); }, [&] {
        OP o = m.k == MV::OBJ ? m.o : m.k == MV::NUM ? oneOf(m) : newObj(type);
        o->d.insert(o->d.end(), d.begin(), d.end());
        *locate(p).slot = MV(o);
    });
}
void opRemove()
{
    Place p = pickPlace(false);
    MV m = valueAt(p);
    int n = m.k == MV::NIL ? 0 : m.k == MV::NUM ? 1 : m.o->size();
    int i = rng.chance(1, 6) ? rng.in(-2, n + 2) : rng.upto(n);
    bool t = i < 0 || i >= n;
    MV want;
    if (!t) {
        want = m.k == MV::NUM ? m : elemVal(m.o, i);
        if (want.k == MV::OBJ) want = MV(std::make_shared<Obj>(*want.o));   // contents only
        if (m.k == MV::OBJ) dropRefs(m.o, n - 1);
    }
    var got;
    step("remove", show(p) + fmt(".remove(%d)", i), t, [&] { with(p, [&](var& r) { got = r.remove(i); }); }, [&] {
        if (m.k == MV::NUM) *locate(p).slot = MV(newObj(m.n.t));
        else {
            if (m.o->dense()) m.o->d.erase(m.o->d.begin() + i); else m.o->v.erase(m.o->v.begin() + i);
            if (m.o->type == TYPE_PAIR) m.o->key.erase(m.o->key.begin() + i);
        }
        sameResult("remove", got, want);
    });
    got.clear();
    track.erase(want.o.get());
}
void opResize()
{
    Place p = pickPlace(false, false);
    MV m = valueAt(p);
    int n = m.k == MV::NIL ? 0 : m.k == MV::NUM ? 1 : m.o->size();
    bool pre = rng.chance(1, 5);
    if (pre) {
        if (m.k != MV::OBJ || m.o->type == TYPE_PAIR) return;
        int to = rng.upto(70);
        step("presize", show(p) + fmt(".presize(%d)", to), false, [&] { with(p, [&](var& r) { r.presize(to); }); }, [] {});
        return;
    }
    int to = rng.chance(1, 2) ? rng.upto(n + 1) : n + rng.pick(std::vector<int>{0, 1, 2, 3, 7, 8, 9, 17, 33});
    if (m.k == MV::OBJ && m.o->type == TYPE_PAIR) to = rng.upto(n + 1);
    if (m.k == MV::OBJ) dropRefs(m.o, to);
    int type = m.k == MV::NIL ? int(TYPE_VAR) : m.k == MV::NUM ? m.n.t : m.o->type;
    std::vector<Num> fill;
    if (type < TYPE_VAR) for (int i = n; i < to; i++) fill.push_back(randNum(type));
    step("resize", show(p) + fmt(".resize(%d)", to), false, [&] {
        with(p, [&](var& r) { r.resize(to); });
        // the new elements are open until written
        with(p, [&](var& r) { for (int i = n; i < to; i++) if (type < TYPE_VAR) r.at(i) = numVar(fill[i - n]); }); }, [&] {
        OP o = m.o;
        if (m.k == MV::NIL) { o = newObj(TYPE_VAR); *locate(p).slot = MV(o); }
        else if (m.k == MV::NUM) {
            if (to == 1) return;
            o = oneOf(m);
            *locate(p).slot = MV(o);
        }
        if (o->dense()) {
            if (to < o->size()) o->d.resize(to);
            else o->d.insert(o->d.end(), fill.begin(), fill.end());
        }
        else {
            o->v.resize(to);
            if (o->type == TYPE_PAIR) o->key.resize(to);
        }
    });
}
void opArray()
{
    Place p = pickPlace(false, false);
    MV m = valueAt(p);
    if (m.k == MV::NIL) return;
    step("array", show(p) + ".array()", false, [&] { with(p, [&](var& r) { r.array(); }); },
         [&] { if (m.k == MV::NUM) *locate(p).slot = MV(oneOf(m)); });
}
void opIndex()        // p[i] = v, growing if need be
{
    Place p = pickPlace(false, false);
    MV m = valueAt(p);
    int n = m.k == MV::NIL ? 0 : m.k == MV::NUM ? 1 : m.o->size();
    int type = m.k == MV::NIL ? int(TYPE_VAR) : m.k == MV::NUM ? m.n.t : m.o->type;
    if (type == TYPE_PAIR) return;
    int i = rng.chance(1, 2) ? rng.upto(n) : type == TYPE_VAR ? n + rng.upto(rng.chance(1, 8) ? 20 : 4) : n;
    if (rng.chance(1, 12)) {
        step("negative", show(p) + "[-1]", true, [&] { with(p, [&](var& r) { r[-1 - rng.upto(3)] = 1; }); }, [] {});
        return;
    }
    Val v = type < TYPE_VAR && rng.chance(2, 3) ? numberVal(randType()) : pickVal();
    if (cyclic(p, v.m)) return;
    Num x;
    if (type < TYPE_VAR && conv(v.m, type, x, m.o) != OK) return;
    // the value must not be the very slot that is about to become an array
    if (v.src && m.k != MV::OBJ && locate(v.p).slot == locate(p).slot) return;
    step("index", show(p) + fmt("[%d] = ", i) + show(v), false, [&] { both(p, v, [&](var& r, var& y) { r[i] = y; }); }, [&] {
        OP o = m.k == MV::OBJ ? m.o : m.k == MV::NUM ? oneOf(m) : newObj(TYPE_VAR);
        if (o->dense()) { if (i == o->size()) o->d.push_back(x); else o->d[i] = x; }
        else {
            if (i >= o->size()) o->v.resize(i + 1);
            o->v[i] = v.m;
        }
        if (m.k != MV::OBJ) *locate(p).slot = MV(o);
    });
    distinct(fmt("index %d %d ", type, i) + md::canon(v.m).substr(0, 80));
}
void opArith()        // in place, through whatever handle
{
    Place p = pickPlace(true);
    Loc l = locate(p);
    int d = rng.in(1, 5);
    MV m = valueAt(p);
    auto add = [&](Num n) {
        if (n.t == TYPE_CHAR) n.l = char(n.l + d);
        else if (isInt(n.t)) n.l = n.l + d;
        else n.re = n.t == TYPE_FLOAT || n.t == TYPE_CFLOAT ? float(float(n.re) + float(d)) : n.re + d;
        return n;
    };
    auto fits = [&](const Num& n) { return n.t == TYPE_CHAR ? n.l < 100 : n.t == TYPE_INT ? n.l < INT32_MAX - 9 : n.t == TYPE_LONG ? n.l < INT64_MAX - 9 : true; };
    if (!l.slot) {
        Num n = l.o->d[l.i];
        if (n.t == TYPE_CDOUBLE || n.t == TYPE_CHAR || !fits(n)) return;
        step("addelem", show(p) + fmt(" += %d", d), false, [&] { with(p, [&](var& r) { r += d; }); }, [&] { l.o->d[l.i] = add(n); });
    }
    else if (m.k == MV::NUM && m.n.t != TYPE_CHAR && fits(m.n))
        step("addscalar", show(p) + fmt(" += %d", d), false, [&] { with(p, [&](var& r) { r += d; }); }, [&] { *locate(p).slot = MV(add(m.n)); });
    else if (m.k == MV::OBJ && m.o->dense() && isReal(m.o->type) && m.o->size())
        step("addarray", show(p) + fmt(" += %d", d), false, [&] { with(p, [&](var& r) { r += d; }); }, [&] { for (auto& n : m.o->d) n = add(n); });
}
// ---- maps ---------------------------------------------------------------------
Place pickMap()
{
    for (int k = 0; k < 12; k++) {
        Place p = pickPlace(false, false);
        MV m = valueAt(p);
        if (m.k == MV::OBJ && m.o->type == TYPE_PAIR) return p;
        if (m.k == MV::NIL && k > 6) return p;
    }
    Place p;
    p.base = rng.upto(NV);
    return p;
}
MV pickKey(const MV& m)
{
    if (m.k == MV::OBJ && m.o->type == TYPE_PAIR && m.o->size() && rng.chance(1, 2)) return m.o->key[rng.upto(m.o->size())];
    return randKey();
}
// keys are fresh values, so that no later change can reach into the map
MV fresh(const MV& k) { return k.k == MV::OBJ ? MV(std::make_shared<Obj>(*k.o)) : k; }
void opKeySet()
{
    Place p = pickMap();
    MV m = valueAt(p);
    if (m.k != MV::NIL && !(m.k == MV::OBJ && m.o->type == TYPE_PAIR)) return;
    if (m.k == MV::OBJ && m.o->size() > 40) return;
    MV k = fresh(pickKey(m));
    Val v = pickVal();
    if (cyclic(p, v.m)) return;
    // inserting a key moves the others along; a reference names a position
    bool f = false;
    int at = m.k == MV::NIL ? 0 : find(m.o, k, f);
    if (v.src && !f) { v.src = 0; if (v.m.k == MV::OBJ) v.m = randVal(2); v.vt = 0; }
    bool only = rng.chance(1, 8);     // mention the key without a value
    step(f ? "keyset" : "keynew", show(p) + "[" + md::canon(k) + "] = " + (only ? str("-") : show(v)), false, [&] {
        both(p, v, [&](var& r, var& y) { var key = build(k); if (only) r[key]; else r[key] = y; }); }, [&] {
        OP o = m.k == MV::NIL ? newObj(TYPE_PAIR) : m.o;
        if (!f) { o->key.insert(o->key.begin() + at, k); o->v.insert(o->v.begin() + at, MV()); }
        if (!only) o->v[at] = v.m;
        if (m.k == MV::NIL) *locate(p).slot = MV(o);
    });
    distinct("key " + md::canon(k) + md::canon(m).substr(0, 200));
}
void opKeyGet()
{
    Place p = pickMap();
    MV m = valueAt(p);
    if (m.k != MV::OBJ) return;
    OP o = m.o;
    if (o->type != TYPE_PAIR) {
        if (rng.chance(1, 2))
            step("atkeyno", show(p) + ".at(key)", true, [&] { with(p, [&](var& r) { var x = r.at(S("k1")); }); }, [] {});
        else
            step("keyno", show(p) + ".key(0)", true, [&] { with(p, [&](var& r) { var x = r.key(0); }); }, [] {});
        return;
    }
    if (rng.chance(1, 8)) {
        int bad = rng.chance(1, 2) ? -rng.in(1, 3) : o->size() + rng.upto(3);
        step("keybad", show(p) + fmt(".key(%d)", bad), true, [&] { with(p, [&](var& r) { var x = r.key(bad); }); }, [] {});
        ev("bad_keys");
        return;
    }
    MV k = pickKey(m);
    bool f;
    int at = find(o, k, f);
    var got;
    ind idx = 0;
    step(f ? "atkey" : "atkeyabsent", show(p) + ".at(" + md::canon(k) + ")", false, [&] {
        with(p, [&](var& r) { var key = build(k); got = r.at(key); idx = r.index(key); }); }, [&] {
        sameResult("atkey", got, f ? o->v[at] : MV());
        check(f ? intptr_t(idx) == at : !idx, "result.index", fmt("index of a map gave %ld, should be %d", long(intptr_t(idx)), f ? at : -1));
    });
    ev(f ? "keys_found" : "keys_absent");
}
void opKeyDel()
{
    Place p = pickMap();
    MV m = valueAt(p);
    if (m.k != MV::OBJ || m.o->type != TYPE_PAIR || !m.o->size()) return;
    int i = rng.upto(m.o->size());
    dropRefs(m.o, m.o->size() - 1);
    MV want = m.o->v[i];
    if (want.k == MV::OBJ) want = MV(std::make_shared<Obj>(*want.o));
    var got;
    step("keydel", show(p) + ".remove(index of " + md::canon(m.o->key[i]) + ")", false, [&] {
        with(p, [&](var& r) { var key = build(m.o->key[i]); got = r.remove(r.index(key)); }); }, [&] {
        m.o->key.erase(m.o->key.begin() + i);
        m.o->v.erase(m.o->v.begin() + i);
        sameResult("keydel", got, want);
    });
    got.clear();
    track.erase(want.o.get());
}
void opEmptyMap()
{
    int k = rng.upto(NV);
    step("emptymap", fmt("x%d = {}", k), false, [&] { var m; m[lu::nil]; vars[k] = m; }, [&] { mod[k] = MV(newObj(TYPE_PAIR)); });
}
// ---- searches and conversions --------------------------------------------------
void opSearch()
{
    Place p = pickPlace(false);
    MV m = valueAt(p);
    if (m.k == MV::OBJ && m.o->type == TYPE_PAIR) return;
    int n = m.k == MV::NIL ? 0 : m.k == MV::NUM ? 1 : m.o->size();
    MV v = n && rng.chance(2, 3) ? (m.k == MV::NUM ? m : elemVal(m.o, rng.upto(n))) : randVal(1);
    int want = -1;
    for (int i = n - 1; i >= 0; i--) if (!cmp(m.k == MV::NUM ? m : elemVal(m.o, i), v)) want = i;
    ind got = 0;
    step("search", show(p) + ".index(" + md::canon(v) + ")", false, [&] { with(p, [&](var& r) { got = r.index(build(v)); }); }, [&] {
        check(want < 0 ? !got : intptr_t(got) == want, "result.search", fmt("index gave %ld, should be %d", long(intptr_t(got)), want));
    });
}
str castTo(const var& v, int t)
{
    switch (t) {
    case TYPE_CHAR: return fmt("c%d", v.cast<char>());
    case TYPE_INT: return fmt("i%d", v.cast<int>());
    case TYPE_LONG: return fmt("l%ld", v.cast<long>());
    case TYPE_FLOAT: return fmt("f%a", v.cast<float>());
    case TYPE_DOUBLE: return fmt("d%a", v.cast<double>());
    case TYPE_CFLOAT: { cfloat c = v.cast<cfloat>(); return fmt("cf%a,%a", c.real(), c.imag()); }
    default: { cdouble c = v.cast<cdouble>(); return fmt("cd%a,%a", c.real(), c.imag()); }
    }
}
var functorTo(const var& v, int t)
{
    switch (t) {
    case TYPE_CHAR: return castChar(v);
    case TYPE_INT: return castInt(v);
    case TYPE_LONG: return castLong(v);
    case TYPE_FLOAT: return castFloat(v);
    case TYPE_DOUBLE: return castDouble(v);
    case TYPE_CFLOAT: return castCFloat(v);
    default: return castCDouble(v);
    }
}
// what looks like a number, of any length
str numericText()
{
    auto digits = [](int n) { str s; while (n-- > 0) s += char('0' + rng.upto(10)); return s; };
    auto real = [&] {
        str s = rng.chance(1, 3) ? "-" : rng.chance(1, 8) ? "+" : "";
        if (rng.chance(1, 6)) s += str(rng.in(1, rng.chance(1, 3) ? 300 : 30), '0');
        s += digits(rng.chance(1, 6) ? rng.in(10, 30) : rng.in(0, 9));
        if (rng.chance(1, 2)) s += "." + digits(rng.chance(1, 5) ? rng.in(10, 200) : rng.upto(6));
        if (rng.chance(1, 4)) s += str(rng.chance(1, 2) ? "e" : "E") + (rng.chance(1, 2) ? "-" : "") + digits(rng.in(0, 2));
        return s;
    };
    str s = str(rng.chance(1, 5) ? rng.in(1, rng.chance(1, 5) ? 200 : 3) : 0, " \t\n"[rng.upto(3)]);
    s += rng.chance(1, 6) ? "(" + real() + (rng.chance(1, 2) ? "," + real() : "") + ")" : real();
    if (rng.chance(1, 5)) s += rng.chance(1, 2) ? " " : "px";
    if (rng.chance(1, 60)) s += str(rng.in(100, 5000), 'q');
    return s;
}
void opCast()
{
    Val v = rng.chance(1, 3) ? pickVal() : numberVal(randType());
    if (rng.chance(1, 4)) { v.src = 0; v.m = MV(strObj(rng.chance(1, 2) ? numericText() : randStr())); v.vt = TYPE_ARRAY; }
    int t = randType();
    Num n;
    Conv c = conv(v.m, t, n);
    if (c == SKIP) return;
    str got;
    step("cast", str("cast to ") + lu::typeStr(t) + " of " + show(v), c == THROW, [&] { withVal(v, [&](var& x) { got = castTo(x, t); }); },
         [&] { check(got == numText(n), "result.cast", "cast gave " + got + ", should be " + numText(n)); });
    distinct(fmt("cast %d %d ", t, int(c)) + md::canon(v.m));
    if (v.m.k == MV::NUM || isStr(v.m)) {
        var f;
        step("castfunctor", str("functor cast to ") + lu::typeStr(t) + " of " + show(v), c == THROW, [&] { withVal(v, [&](var& x) { f = functorTo(x, t); }); }, [&] {
            if (v.src && isStr(v.m) && t == TYPE_CHAR) {}
            sameResult("castfunctor", f, numVal(n));
        });
    }
}
void opNames()
{
    Place p = pickPlace(true);
    Loc l = locate(p);
    MV m = valueAt(p);
    bool nil = m.k == MV::NIL;
    int t = m.k == MV::NUM ? m.n.t : nil ? 0 : !l.slot ? int(TYPE_CDOUBLE) : int(TYPE_ARRAY);
    int at = m.k == MV::OBJ ? m.o->type : t;
    str ts, as;
    int ty = -1, sz = -1, aty = -1;
    bool ok = true, def = false;
    step("names", "type names of " + show(p), false, [&] {
        with(p, [&](var& r) {
            ty = r.type(); sz = r.size(); def = r.defined() && bool(r);
            ts = text(r.typeStr());
            if (!nil) {
                aty = r.atype();
                as = text(r.atypeStr());
                ok = r.atype<char>() == (at == TYPE_CHAR) && r.atype<int>() == (at == TYPE_INT) && r.atype<long>() == (at == TYPE_LONG)
                    && r.atype<float>() == (at == TYPE_FLOAT) && r.atype<double>() == (at == TYPE_DOUBLE)
                    && r.atype<cfloat>() == (at == TYPE_CFLOAT) && r.atype<cdouble>() == (at == TYPE_CDOUBLE) && r.atype<var>() == (at == TYPE_VAR);
            }
        }); }, [&] {
        static const char* names[] = {"array", "char", "int", "long", "float", "double", "cfloat", "cdouble", "var", "pair"};
        int want = nil ? 0 : m.k == MV::NUM || !l.slot ? 1 : m.o->size();
        check(ty == t && sz == want && def == !nil && ok, "result.type", fmt("type %d size %d defined %d predicates %d", ty, sz, def, ok));
        check(ts == names[t], "result.typestr", ts);
        if (!nil) check(aty == at && as == (t == TYPE_ARRAY ? str("array[") + names[at] + "]" : str(names[at])), "result.atypestr", as);
    });
    if (nil) step("atypenil", "atype of undefined", true, [&] { with(p, [&](var& r) { if (rng.chance(1, 2)) (void)r.atype(); else r.atypeStr(); }); }, [] {});
}
void opRead()          // at(), element reads and pointers
{
    Place p = pickPlace(false);
    MV m = valueAt(p);
    int n = m.k == MV::NIL ? 0 : m.k == MV::NUM ? 1 : m.o->size();
    if (m.k == MV::NIL || rng.chance(1, 10)) {
        if (m.k == MV::NUM) step("atscalar", show(p) + ".at(1)", true, [&] { with(p, [&](var& r) { var x = r.at(1); }); }, [] {});
        else if (m.k == MV::NIL) step("atnil", show(p) + ".at(0)", true, [&] { with(p, [&](var& r) { var x = r.at(0); }); }, [] {});
        else step("atneg", show(p) + ".at(-1)", true, [&] { with(p, [&](var& r) { var x = r.at(-1); }); }, [] {});
        return;
    }
    if (!n) return;
    int i = rng.upto(n);
    MV want = m.k == MV::NUM ? m : elemVal(m.o, i);
    var got;
    bool ptrs = true;
    step("read", show(p) + fmt(".at(%d)", i), false, [&] {
        with(p, [&](var& r) {
            got = r.at(i);
            if (m.k == MV::OBJ && m.o->dense()) {
                Num x = m.o->d[i];
                switch (x.t) {
                case TYPE_CHAR: ptrs = *r.ptr<char>(i) == char(x.l) && r.str()[i] == char(x.l); break;
                case TYPE_INT: ptrs = *r.ptr<int>(i) == int(x.l); break;
                case TYPE_LONG: ptrs = *r.ptr<long>(i) == x.l; break;
                case TYPE_FLOAT: ptrs = *r.ptr<float>(i) == float(x.re); break;
                case TYPE_DOUBLE: ptrs = *r.ptr<double>(i) == x.re; break;
                case TYPE_CFLOAT: ptrs = *r.ptr<cfloat>(i) == cfloat(x.re, x.im); break;
                case TYPE_CDOUBLE: ptrs = *r.ptr<cdouble>(i) == cdouble(x.re, x.im); break;
                }
            }
        }); }, [&] {
        sameResult("read", got, want);
        check(ptrs, "result.ptr", "pointer access reads something else");
    });
}
void opTemp()          // references that alone hold their array
{
    MV m = randVal(2);
    if (m.k != MV::OBJ || m.o->type != TYPE_VAR || !m.o->size()) return;
    int i = rng.upto(m.o->size());
    MV e = m.o->v[i];
    if (e.k == MV::NIL) return;
    int what = rng.upto(4);
    int to = e.k == MV::OBJ ? rng.upto(e.o->size() + 1) : 1;
    MV want = e.k == MV::OBJ ? MV(std::make_shared<Obj>(*e.o)) : e;
    if (what == 1) {
        if (want.k == MV::NUM) want = MV(oneOf(want));
        if (want.o->dense()) want.o->d.resize(to); else { want.o->v.resize(to); if (want.o->type == TYPE_PAIR) want.o->key.resize(to); }
    }
    if (what == 2 && want.k == MV::NUM) want = MV(oneOf(want));
    bool map = what == 3 && e.k == MV::OBJ && e.o->type == TYPE_PAIR;
    if (map) {
        bool f;
        MV k = MV(strObj("tempkey"));
        int at = find(want.o, k, f);
        if (f) return;
        want.o->key.insert(want.o->key.begin() + at, k);
        want.o->v.insert(want.o->v.begin() + at, MV(mkInt(TYPE_INT, 5)));
    }
    int j = rng.upto(NV), window = rng.upto(3);
    step("temporary", fmt("x%d = element %d of temporary %s", j, i, window ? "view of " : "") + md::canon(m) + fmt(" op %d %d", what, to), false, [&] {
        auto f = [&] { var a = build(m); return window ? a.view({window == 2 ? i + 1 : a.size()}) : a; };
        var t = f().at(i);
        if (what == 1) { if (e.k == MV::NUM) t.array(); t.resize(to); }
        if (what == 2) t.array();
        if (map) t["tempkey"] = 5;
        vars[j] = t;
    }, [&] { mod[j] = want; });
}

typedef void (*Op)();
struct W { Op f; int share, seq, types, maps, life, reject; };
const W ops[] = {
    //             share seq types maps life reject
    {opAssign,     10,   6,  12,   6,   10,  4},
    {opFresh,      4,    5,  5,    3,   5,   4},
    {opShare,      10,   4,  3,    4,   10,  3},
    {opSwap,       2,    1,  0,    1,   3,   0},
    {opCopy,       8,    2,  3,    4,   3,   2},
    {opClear,      2,    1,  1,    2,   5,   2},
    {opRef,        4,    1,  2,    1,   5,   1},
    {opPush,       5,    12, 8,    1,   4,   9},
    {opPop,        3,    10, 3,    3,   5,   8},
    {opTop,        1,    4,  2,    1,   0,   2},
    {opUnshift,    3,    8,  4,    1,   2,   6},
    {opInsert,     4,    12, 5,    1,   3,   12},
    {opAppendRaw,  3,    4,  3,    0,   1,   6},
    {opRemove,     2,    8,  2,    3,   4,   8},
    {opResize,     3,    8,  3,    2,   4,   2},
    {opArray,      2,    3,  3,    0,   1,   1},
    {opIndex,      6,    8,  8,    2,   5,   5},
    {opArith,      8,    2,  3,    1,   0,   1},
    {opKeySet,     4,    0,  1,    16,  4,   2},
    {opKeyGet,     1,    0,  1,    10,  1,   4},
    {opKeyDel,     1,    0,  0,    5,   3,   1},
    {opEmptyMap,   1,    0,  0,    3,   1,   1},
    {opSearch,     1,    3,  2,    2,   0,   1},
    {opCast,       0,    0,  10,   0,   0,   5},
    {opNames,      1,    1,  5,    1,   0,   4},
    {opRead,       2,    4,  6,    2,   1,   4},
    {opTemp,       1,    0,  0,    1,   5,   0},
};

void reset()
{
    dropAllRefs();
    for (int i = 0; i < NV; i++) { vars[i].clear(); mod[i] = MV(); }
    seenH.clear(); seenO.clear();
    track.clear();
}
void run(int W::*col)
{
    reset();
    struct Guard { ~Guard() { reset(); } } guard;
    int total = 0;
    for (auto& o : ops) total += o.*col;
    for (int i = 0; i < 3; i++) { opName = "fresh"; stepNo = -1; opFresh(); }
    int n = rng.in(10, thorough() ? 70 : 40);
    for (stepNo = 0; stepNo < n; stepNo++) {
        int r = rng.upto(total);
        for (auto& o : ops) if ((r -= o.*col) < 0) { o.f(); break; }
        verifyReleases();
        // keep the state small, and without unbounded nesting
        for (int i = 0; i < NV; i++)
            if (weight(mod[i]) > 250 || depthOf(mod[i]) > 8)
                step("clear", fmt("x%d.clear()", i), false, [&] { vars[i].clear(); }, [&] { mod[i] = MV(); });
        verifyReleases();
    }
    str d;
    for (int i = 0; i < NV; i++) d += md::canon(mod[i]);
    distinct(d);
    if (rng.chance(1, 20)) sample(noteText());
}
}

VH_CASE(seq_share) { run(&W::share); }
VH_CASE(seq_seq) { run(&W::seq); }
VH_CASE(seq_types) { run(&W::types); }
VH_CASE(seq_maps) { run(&W::maps); }
VH_CASE(seq_life) { run(&W::life); }
VH_CASE(seq_reject) { run(&W::reject); }

// one long array through its capacities, against std::vector
VH_CASE(seq_long)
{
    int t = rng.in(TYPE_CHAR, TYPE_VAR);
    var a;
    std::deque<Num> m;
    int n = rng.in(100, 500);
    a = numVar(mkNum(t == TYPE_VAR ? int(TYPE_INT) : t, 0));
    a.array();
    a.resize(0);
    if (t == TYPE_VAR) { a.clear(); a.resize(0); }
    note(fmt("long array of %s", lu::typeStr(t)));
    int grow = rng.in(3, 9);
    for (int i = 0; i < n; i++) {
        Num x = randNum(t == TYPE_VAR ? randType(false) : t);
        int what = rng.upto(14);
        if (what < grow || m.empty()) { if (rng.chance(1, 5)) { a.unshift(numVar(x)); m.push_front(x); } else { a.push(numVar(x)); m.push_back(x); } }
        else if (what < 10) {
            Num w = what < 8 ? m.back() : m.front();
            var r = what < 8 ? a.pop() : a.shift();
            check(r.atype() == w.t && sameNum(r.heap() ? r.at(0) : r, w), "long.take", "took another value");
            if (what < 8) m.pop_back(); else m.pop_front();
        }
        else if (what == 10) {
            int k = rng.upto(int(m.size()) + 1);
            a.resize(k); m.resize(k);
        }
        else if (what == 11) {
            int k = rng.upto(int(m.size()));
            a.remove(k); m.erase(m.begin() + k);
        }
        else if (what == 12) {
            int k = rng.upto(int(m.size()) + 1);
            a.insert(numVar(x), k); m.insert(m.begin() + k, x);
        }
        else if (m.size() < 600) {
            if (t == TYPE_VAR) continue;
            auto c = m;
            a.append(a); m.insert(m.end(), c.begin(), c.end());
        }
        check(a.size() == int(m.size()), "long.size", fmt("size %d, should be %zu", a.size(), m.size()));
        if (i % 64 == 0 || i == n - 1)
            for (size_t k = 0; k < m.size(); k++) check(sameNum(a.at(int(k)), m[k]), "long.content", fmt("element %zu of %zu", k, m.size()));
    }
    ev("long_arrays");
    distinct(fmt("%d %d %zu", t, n, m.size()));
}

// one very long array, grown in several ways, against std::vector
VH_CASE(seq_huge)
{
    int t = rng.in(TYPE_CHAR, TYPE_VAR), et = t == TYPE_VAR ? int(TYPE_INT) : t;
    std::vector<Num> m;
    auto size = [] { int k = rng.upto(4); return k == 0 ? (1 << rng.in(10, 16)) + rng.in(-1, 1) : k == 1 ? 10 * rng.in(100, 1000) : rng.in(500, 20000); };
    int how = rng.upto(t == TYPE_VAR ? 2 : 4), n = size();
    auto number = [&](int i) { return et == TYPE_CHAR ? mkInt(et, char(i * 7 + i / 256 % 100)) : isInt(et) ? mkInt(et, i) : mkFlt(et, i, et >= TYPE_CFLOAT ? -i : 0); };
    var a = numVar(mkNum(et, 0));
    a.array();
    a.resize(0);
    if (t == TYPE_VAR) { a.clear(); a.resize(0); }
    str d = fmt("array of %d %s, route %d", n, lu::typeStr(t), how);
    note(d);
    distinct(d);
    auto same = [&](var v, const std::vector<Num>& w, const char* key, const str& what) {
        check(v.size() == int(w.size()), key, d + ", " + what + fmt(": size %d, should be %zu", v.size(), w.size()));
        for (size_t k = 0; k < w.size(); k++) if (!sameNum(v.at(int(k)), w[k])) fail(key, d + ", " + what + fmt(": element %zu of %zu", k, w.size()));
    };
    if (how == 0) { a.resize(n); for (int i = 0; i < n; i++) { m.push_back(number(i)); a[i] = numVar(m[i]); } }
    else if (how == 1) for (int i = 0; i < n; i++) { m.push_back(number(i)); a.push(numVar(m[i])); }
    else while (int(m.size()) < n) {
        // by chunks, doubling now and then
        if (how == 3 && m.size() && rng.chance(1, 3)) { auto c = m; a.append(a); m.insert(m.end(), c.begin(), c.end()); continue; }
        int k = rng.in(1, std::min(n, 3000)), was = m.size();
        var b = numVar(mkNum(et, 0));
        b.array();
        b.resize(k);
        for (int i = 0; i < k; i++) { m.push_back(number(was + i)); b[i] = numVar(m.back()); }
        a.append(b);
    }
    same(a, m, "huge.fill", "filled");
    var c = a.copy();
    auto cm = m;
    for (int step = rng.in(2, 8); step > 0; step--) {
        Num x = number(rng.upto(1000));
        int sz = m.size();
        switch (rng.upto(7)) {
        case 0: { int k = rng.upto(sz + 1); a.resize(k); m.resize(k); break; }
        case 1: { int k = rng.upto(sz + 1); a.insert(numVar(x), k); m.insert(m.begin() + k, x); break; }
        case 2: if (sz) { int k = rng.upto(sz); a.remove(k); m.erase(m.begin() + k); } break;
        case 3: a.unshift(numVar(x)); m.insert(m.begin(), x); break;
        case 4: if (sz) { var r = a.shift(); check(sameNum(r.heap() ? r.at(0) : r, m[0]), "huge.shift", d + ": shift() took another value"); m.erase(m.begin()); } break;
        case 5: a.push(numVar(x)); m.push_back(x); break;
        default: if (sz && sz < 70000 && t != TYPE_VAR) { auto w = m; a.append(a); m.insert(m.end(), w.begin(), w.end()); }
        }
    }
    same(a, m, "huge.edit", "edited");
    same(c, cm, "huge.copy", "its copy");
    ev("huge_arrays");
}

// every length on the way down and up, by one operation
VH_CASE(seq_drain)
{
    int t = rng.in(TYPE_CHAR, TYPE_VAR), et = t == TYPE_VAR ? int(TYPE_INT) : t;
    int n = rng.chance(1, 3) ? (1 << rng.in(3, 11)) + rng.in(-2, 2) : rng.in(10, 1200), op = rng.upto(8);
    int off = rng.upto(256);
    std::deque<Num> m;
    auto number = [&](int i) { return et == TYPE_CHAR ? mkInt(et, char(i + off)) : isInt(et) ? mkInt(et, i - off) : mkFlt(et, i + 0.5, et >= TYPE_CFLOAT ? -i : 0); };
    var a = numVar(mkNum(et, 0));
    a.array();
    a.resize(0);
    if (t == TYPE_VAR) { a.clear(); a.resize(0); }
    bool down = op < 4;
    if (down) { a.resize(n); for (int i = 0; i < n; i++) { m.push_back(number(i)); a[i] = numVar(m[i]); } }
    str d = fmt("array of %d %s, operation %d", n, lu::typeStr(t), op);
    note(d);
    distinct(d);
    auto eq = [&](int k) { if (!sameNum(a.at(k), m[k])) fail("drain.content", d + fmt(": element %d of %zu", k, m.size())); };
    for (int i = 0; i < n; i++) {
        int sz = m.size(), k = down ? rng.upto(sz) : rng.upto(sz + 1);
        auto took = [&](var r, Num w) { check(r.atype() == w.t && sameNum(r.heap() ? r.at(0) : r, w), "drain.took", d + fmt(": took another value at size %d", sz)); };
        switch (op) {
        case 0: took(a.pop(), m.back()); m.pop_back(); break;
        case 1: took(a.shift(), m.front()); m.pop_front(); break;
        case 2: took(a.remove(k), m[k]); m.erase(m.begin() + k); break;
        case 3: took(a.remove(0), m[0]); m.pop_front(); break;
        case 4: a.push(numVar(number(i))); m.push_back(number(i)); break;
        case 5: a.unshift(numVar(number(i))); m.push_front(number(i)); break;
        case 6: a.insert(numVar(number(i)), k); m.insert(m.begin() + k, number(i)); break;
        default: a.resize(sz + 1); a.at(sz) = numVar(number(i)); m.push_back(number(i));
        }
        sz = m.size();
        check(a.size() == sz, "drain.size", d + fmt(": size %d, should be %d", a.size(), sz));
        check(sz == 0 || a.atype() == t || (sz == 1 && !down), "drain.type", d + ": the type changed");
        if (sz) { eq(0); eq(sz - 1); eq(rng.upto(sz)); }
        if (sz <= 64 || sz % 64 == 0 || rng.chance(1, 32)) for (int k = 0; k < sz; k++) eq(k);
    }
    ev("drains");
}

// many children, dropped at once or one by one
VH_CASE_W(seq_bulk, 1)
{
    bool map = rng.chance(1, 3);
    int n = rng.chance(1, 3) ? rng.in(100, map ? 500 : 3000) : rng.in(2, 100), op = rng.upto(map ? 4 : 8);
    str d = fmt("%s of %d children, operation %d", map ? "map" : "array", n, op);
    note(d);
    distinct(d);
    auto child = [&](int i) { var c; if (i % 3 == 0) c = "child"; else if (i % 3 == 1) { c = cdouble(i, 1); } else { c = 1.5; c.array(); } return c; };
    std::vector<var> keep(n);
    std::vector<void*> at;
    std::vector<bool> kept(n), in(n, true);
    var a;
    if (map) a[lu::nil]; else a.resize(n);
    for (int i = 0; i < n; i++) {
        var c = child(i);
        at.push_back(c.heap());
        if ((kept[i] = rng.chance(1, 4))) keep[i] = c;
        if (map) a[S(fmt("%06d", i))] = c; else a.at(i) = c;
    }
    auto look = [&](const char* when) {
        for (int i = 0; i < n; i++) {
            if (in[i] || kept[i]) { if (freed(at[i])) fail("bulk.early", d + fmt(": child %d was released while in use, ", i) + when); }
            else if (!freed(at[i])) fail("bulk.late", d + fmt(": child %d is still allocated, ", i) + when);
        }
    };
    look("after building");
    int k = rng.upto(n + 1);
    switch (op) {
    case 0: a.clear(); in.assign(n, false); break;
    case 1: a = 5; in.assign(n, false); break;
    case 2: a.resize(k); for (int i = k; i < n; i++) in[i] = false; break;
    case 3: for (int j = rng.upto(std::min(n, 60)); j > 0; j--) {      // one by one
        std::vector<int> left;
        for (int i = 0; i < n; i++) if (in[i]) left.push_back(i);
        int p = rng.upto(left.size());
        a.remove(p);
        in[left[p]] = false;
        if (j % 8 == 0) look("while removing");
    } break;
    case 4: for (int i = n - 1; i >= k; i--) { a.pop(); in[i] = false; } break;
    case 5: for (int i = 0; i < k; i++) { a.shift(); in[i] = false; } break;
    case 6: for (int i = 0; i < n; i += 2) { a.at(i) = i; in[i] = false; } break;
    default: { var b = a.copy(); a.clear(); look("with a copy left"); b.resize(k); for (int i = k; i < n; i++) in[i] = false; look("in the copy"); b.clear(); in.assign(n, false); }
    }
    look("after the operation");
    a.clear();
    in.assign(n, false);
    look("at the end");
    for (int i = 0; i < n; i++) { keep[i].clear(); kept[i] = false; }
    look("after letting go");
    ev("bulk_children", n);
}

// a large map built in random order
VH_CASE(seq_bigmap)
{
    var a;
    std::map<str, int> m;
    int n = rng.in(50, thorough() ? 1500 : 400);
    for (int i = 0; i < n; i++) {
        str k = rng.chance(1, 2) ? fmt("%d", rng.upto(300)) : randStr(5);
        // bytewise order, as in std::string, but compared unsigned
        if (rng.chance(1, 5) && !m.empty()) {
            auto it = m.begin();
            std::advance(it, rng.upto(int(m.size())));
            a.remove(a.index(S(it->first)));
            m.erase(it);
        }
        else { a[S(k)] = i; m[k] = i; }
        str q = fmt("%d", rng.upto(300));
        bool have = m.count(q) > 0;
        check(bool(a.index(S(q))) == have, "bigmap.index", "presence of key " + q);
        var v = a.at(S(q));
        check(v.defined() == have && (!have || v.get<int>() == m[q]), "bigmap.at", "value of key " + q);
    }
    if (m.empty()) return;
    check(a.size() == int(m.size()), "bigmap.size", fmt("%d keys, should be %zu", a.size(), m.size()));
    std::vector<str> ks;
    for (auto& e : m) ks.push_back(e.first);
    std::sort(ks.begin(), ks.end(), [](const str& x, const str& y) {
        int c = memcmp(x.data(), y.data(), std::min(x.size(), y.size()));
        return c ? c < 0 : x.size() < y.size(); });
    for (int i = 0; i < a.size(); i++) {
        check(text(a.key(i)) == ks[i], "bigmap.order", fmt("key %d", i));
        check(a.at(i).get<int>() == m[ks[i]], "bigmap.pair", fmt("value %d is not that of its key", i));
    }
    ev("big_maps");
    distinct(fmt("%d %zu", n, m.size()));
}

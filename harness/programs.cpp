// C01 C30: programs mixing the whole interface over shared variables.  The
// sanitizers and the numeric-library range monitor judge every step, and the
// contents of every variable are compared round every call that is rejected.
#include "model.h"
#include <lube/dft.h>
#include <lube/regex.h>
#include <sstream>
#include <set>
#include <functional>
using namespace vh;
using namespace md;

namespace {
const int NP = 6;
typedef std::shared_ptr<var> VP;

bool isArr(var v) { return v.defined() && v.heap(); }
bool isNum(int t) { return t >= TYPE_CHAR && t <= TYPE_CDOUBLE; }

struct Program {
    VP p[NP];
    bool strict;          // compare round rejected calls
    str now;              // the current operation
    int steps = 0, rejected = 0, wide = 0;
    std::map<str, int> done;

    var& P(int i) { return *p[i]; }
    void renew(int i) { p[i].reset(new var); }

    // ---- what is reachable ------------------------------------------------
    static bool walk(var v, std::function<bool(void*)> f, int& budget, int depth = 0) {
        if (!isArr(v) || depth > 60) return false;
        if (f(v.heap())) return true;
        if (v.view()) return false;
        bool map = v.atype<lu::pair>();
        if (!map && !v.atype<var>()) { budget -= v.size() / 8; return false; }
        for (int i = 0; i < v.size() && budget > 0; i++) {
            budget -= 1;
            if (walk(v.at(i), f, budget, depth + 1)) return true;
            if (map && walk(v.key(i), f, budget, depth + 1)) return true;
        }
        return false;
    }
    static bool reaches(var v, const std::set<void*>& hs) {
        int b = 1 << 20;
        return walk(v, [&](void* h) { return hs.count(h) > 0; }, b);
    }
    static bool heavy(var v) { int b = 400; walk(v, [](void*) { return false; }, b); return b <= 0; }
    static bool cyclic(var v, std::vector<void*> up = {}) {
        if (!isArr(v) || v.view() || !(v.atype<var>() || v.atype<lu::pair>())) return false;
        for (auto h : up) if (h == v.heap()) return true;
        up.push_back(v.heap());
        for (int i = 0; i < v.size(); i++) if (cyclic(v.at(i), up)) return true;
        return false;
    }
    static int depth(var v, int d = 0) {
        if (!isArr(v) || v.view() || d > 40) return d;
        int m = d + 1;
        if (v.atype<var>() || v.atype<lu::pair>()) for (int i = 0; i < v.size(); i++) m = std::max(m, depth(v.at(i), d + 1));
        return m;
    }
    static char* start(var v) {
        if (!isArr(v) || !v.size()) return 0;
        switch (int(v.atype())) {
        case TYPE_CHAR: return v.ptr<char>(); case TYPE_INT: return (char*)v.ptr<int>(); case TYPE_LONG: return (char*)v.ptr<long>();
        case TYPE_FLOAT: return (char*)v.ptr<float>(); case TYPE_DOUBLE: return (char*)v.ptr<double>();
        case TYPE_CFLOAT: return (char*)v.ptr<cfloat>(); case TYPE_CDOUBLE: return (char*)v.ptr<cdouble>();
        }
        return 0;
    }
    static size_t width(int t) { return t == TYPE_CHAR ? 1 : t == TYPE_INT || t == TYPE_FLOAT ? 4 : t == TYPE_CDOUBLE ? 16 : 8; }
    static bool overlap(var a, var b) {
        char *x = start(a), *y = start(b);
        if (!x || !y) return false;
        return x < y + b.size() * width(b.atype()) && y < x + a.size() * width(a.atype());
    }
    /// the pool's views of this array go before it is shortened
    void dropViews(var of) {
        if (!isArr(of) || of.view()) return;
        for (int i = 0; i < NP; i++) if (isArr(P(i)) && P(i).view() && (overlap(P(i), of) || !P(i).size())) renew(i);
    }

    // ---- a place in the pool, as a program would reach it -------------------
    struct Place { VP v; int root; std::set<void*> path; str name; bool nested; };
    Place place(int wantElem = 3) {
        Place r;
        r.root = rng.upto(NP);
        r.name = fmt("v%d", r.root);
        r.nested = false;
        var cur = P(r.root);
        r.v = p[r.root];
        int levels = rng.chance(1, wantElem) ? rng.in(1, 2) : 0;
        for (int i = 0; i < levels; i++) {
            if (!isArr(*r.v) || r.v->size() == 0 || (*r.v).view()) break;
            r.path.insert(r.v->heap());
            int k = rng.upto(r.v->size());
            var e = r.v->at(k);
            r.v.reset(new var(e));
            r.name += fmt("[%d]", k);
            r.nested = true;
        }
        return r;
    }
    /// an operand which is safe to store in the place
    var operandFor(Place& t, str& name) {
        for (int tries = 0; tries < 4; tries++) {
            Place o = place(2);
            var x = *o.v;
            std::set<void*> hs = t.path;
            if (isArr(*t.v)) hs.insert(t.v->heap());
            if (reaches(x, hs)) continue;
            if (depth(x) > 8 || heavy(x)) continue;
            name = o.name;
            if (isArr(x) && x.view()) { name += " copied"; return x.copy(); }
            // a reference might be to the very slot
            if (o.nested) { var y; y = x; return y; }
            return x;
        }
        return fresh(name);
    }
    var fresh(str& name) {
        var r;
        switch (rng.upto(12)) {
        case 0: break;
        case 1: r = S(randStr()); break;
        case 2: r = S(fmt("%d,%d x=%d", rng.upto(20), rng.upto(20), rng.upto(5))); break;
        case 3: r = numVar(mkNum(rng.in(TYPE_CHAR, TYPE_CDOUBLE), rng.in(-9, 9))); break;
        case 4: case 5: case 6: {
            int t = rng.in(TYPE_CHAR, TYPE_CDOUBLE), n = rng.in(0, 12);
            r = numVar(mkNum(t, 0)); r.array(); r.resize(n);
            for (int i = 0; i < n; i++) r.at(i) = numVar(small(t));
            break;
        }
        case 7: { int t = rng.in(TYPE_FLOAT, TYPE_CDOUBLE), a = rng.in(1, 4), b = rng.in(1, 4);
            r = lu::view(rng.chance(1, 3) ? sh({rng.in(1, 3), a, b}) : sh({a, b}), numVar(mkNum(t, 0)));
            for (int i = 0; i < r.size(); i++) r.at(i) = numVar(small(t));
            return (name = fmt("new view of %s", lu::typeStr(t))), r; }
        case 8: r["key"] = 1; r["other"] = S(randStr()); break;
        case 9: r[0] = 1.5; r[1] = "two"; r[2] = lu::nil; break;
        default: r = int(rng.upto(100));
        }
        name = "new " + kind(r);
        return r;
    }
    static var sh(std::initializer_list<int> l) { var s; for (int x : l) s.push(x); if (l.size() == 1) s.array(); return s; }
    static Num small(int t) { return isInt(t) ? mkInt(t, rng.in(0, 9)) : t >= TYPE_CFLOAT ? Num{t, 0, rng.in(-8, 8) * 0.5, rng.in(-8, 8) * 0.25} : mkFlt(t, rng.in(-8, 8) * 0.5); }
    /// keeps numbers where no integer can overflow
    void tame(var& v, int d = 0) {
        if (!v.defined() || d > 10) return;
        if (!v.heap()) {
            double x = 0;
            switch (int(v.type())) {
            case TYPE_INT: x = v.get<int>(); break; case TYPE_LONG: x = v.get<long>(); break;
            case TYPE_FLOAT: x = v.get<float>(); break; case TYPE_DOUBLE: x = v.get<double>(); break;
            default: return;
            }
            if (!(std::abs(x) < 1e4)) v = numVar(mkNum(v.type(), 3));
            return;
        }
        int t = v.atype();
        if (t == TYPE_CHAR || t == TYPE_CFLOAT || t == TYPE_CDOUBLE) {
            for (int i = 0; i < v.size() && t != TYPE_CHAR; i++) { cdouble c = v.at(i).cast<cdouble>(); if (!(std::abs(c) < 1e4)) v.at(i) = numVar(mkNum(t, 3)); }
            return;
        }
        for (int i = 0; i < v.size(); i++) { var e = v.at(i); tame(e, d + 1); }
    }
    static bool hasZero(var v) {
        if (!v.defined()) return false;
        auto small = [](var e) { return std::abs(cdouble(e.cast<cdouble>()).real()) < 1; };
        if (!isArr(v)) return small(v);
        for (int i = 0; i < v.size(); i++) if (isNum(v.atype()) && small(v.at(i))) return true;
        return false;
    }

    void setup() { for (int i = 0; i < NP; i++) { renew(i); str n; if (rng.chance(3, 4)) { var f = fresh(n); P(i) = f; if (n.find("view") != str::npos) p[i].reset(new var(f)); } } }

    // ---- one step -----------------------------------------------------------
    enum { NOPS = 46 };
    void step() {
        int op = rng.upto(NOPS);
        Place t = place();
        var& x = *t.v;
        str on;
        std::function<void()> f;
        std::function<void()> after = [] {};
        bool maths = false, inplace = false;
        auto is = [&](const str& s) { now = t.name + "(" + kind(x) + (isArr(x) ? fmt(",%d", x.size()) : str()) + ") " + s; };
        switch (op) {
        case 0: case 1: { var o = operandFor(t, on); is("= " + on); 
            if (isArr(x) && x.view() && isArr(o) && overlap(x, o)) return;
            if (!t.nested) dropViewOf(x);
            f = [&x, o] { x = o; }; break; }
        case 2: is("clear"); f = [&x] { x.clear(); }; if (isArr(x) && x.view() && !t.nested) {} break;
        case 3: { is("= copy"); var o = x.copy(); int i = rng.upto(NP); f = [this, i, o] { hold(i, o); }; break; }
        case 4: case 5: case 6: { var o = operandFor(t, on); is("push " + on); if (isMap(x)) return; f = [&x, o] { x.push(o); }; break; }
        case 7: { var o = operandFor(t, on); is("unshift " + on); if (isMap(x)) return; f = [&x, o] { x.unshift(o); }; break; }
        case 8: { is("pop"); dropViews(x); int i = keepAt(); f = [this, &x, i] { var r = x.pop(); keep(i, r); }; break; }
        case 9: { is("shift"); dropViews(x); int i = keepAt(); f = [this, &x, i] { var r = x.shift(); keep(i, r); }; break; }
        case 10: { var o = operandFor(t, on); int k = rng.in(-1, (isArr(x) ? x.size() : 0) + 1); is(fmt("insert %d ", k) + on); if (isMap(x)) return;
            f = [&x, o, k] { x.insert(o, k); }; break; }
        case 11: { int k = rng.in(-1, isArr(x) ? x.size() : 1); is(fmt("remove %d", k)); dropViews(x); int i = keepAt(); f = [this, &x, i, k] { var r = x.remove(k); keep(i, r); }; break; }
        case 12: { int n = rng.chance(1, 4) ? rng.upto(80) : rng.upto(10); is(fmt("resize %d", n)); if (isArr(x) && n < x.size()) dropViews(x);
            if (t.nested && !isArr(x)) return;
            f = [&x, n] { int was = isArr(x) ? x.size() : 0; x.resize(n); 
                // what growing leaves in dense arrays is not specified
                if (isArr(x) && isNum(x.atype())) for (int i = was; i < x.size(); i++) x.at(i) = numVar(mkNum(x.atype(), 1)); }; break; }
        case 13: is("array"); f = [&x] { x.array(); }; break;
        case 14: case 15: { var o = operandFor(t, on); int n = isArr(x) ? x.size() : 1, k = rng.chance(5, 6) ? rng.upto(n + 2) : -1; is(fmt("[%d] = ", k) + on);
            if (isMap(x) && k >= n) return;
            if (!isArr(x) && x.defined()) return;
            if (isArr(x) && x.view() && k >= n) return;
            if (isArr(x) && !isMap(x) && x.atype() != TYPE_VAR && (isArr(o) && o.size() != 1)) {}
            f = [this, &x, o, k] { int was = isArr(x) ? x.size() : 0; 
                try { x[k] = o; } catch (...) { fill(x, was, 0); throw; } 
                fill(x, was); }; 
            grows = k >= n; break; }
        case 16: case 17: { var o = operandFor(t, on); static const char* ks[] = {"a", "key", "other", "zz", "", "b"}; str k = ks[rng.upto(6)]; is("[" + k + "] = " + on);
            if (x.defined() && !isMap(x)) return;
            f = [&x, o, k] { x[k.c_str()] = o; }; break; }
        case 18: { int n = rng.upto(50); is(fmt("[map %d] = string", n)); if (!isMap(x)) return; f = [&x, n] { x[var(n)] = S("v"); }; break; }
        case 19: { is("at key"); if (!isMap(x)) return; int i = keepAt(); f = [this, &x, i] { var r = x.at(var("key")); keep(i, r.copy()); }; break; }
        case 20: { is("sort"); int i = keepAt(); f = [this, &x, i] { var r = x.sort(); keep(i, r); }; break; }
        case 21: { var o = operandFor(t, on); is("index " + on); f = [&x, o] { int i = x.index(o); (void)i; }; break; }
        case 22: { var o = operandFor(t, on); is("compared with " + on); f = [&x, o] { bool a = x == o, b = x < o, c = x > o; check(int(a) + b + c == 1, "program.order", "values compare inconsistently"); }; break; }
        case 23: { is("join"); int i = keepAt(); f = [this, &x, i] { var r = x.join("-"); keep(i, r); }; break; }
        case 24: { is("split"); int i = keepAt(); f = [this, &x, i] { var r = x.split(rng.chance(1, 2) ? "," : "ab"); keep(i, r); }; break; }
        case 25: { is("case and strip"); int i = keepAt(), k = rng.upto(3); f = [this, &x, i, k] { var r = k == 0 ? lu::toupper(x) : k == 1 ? lu::tolower(x) : lu::strip(x); keep(i, r); }; break; }
        case 26: { is("strip in place"); if (!isArr(x) || x.atype() != TYPE_CHAR) return; dropViews(x); inplace = true; f = [&x] { x.strip(); }; break; }
        case 27: { is("search"); int i = keepAt(); f = [this, &x, i] { var r = x.search("([a-z])(\\d*)"); keep(i, r); }; break; }
        case 28: { is("replace"); inplace = true; int i = keepAt(); f = [this, &x, i] { var r = x.replace("[aeiou]", "<$&>"); keep(i, r); }; break; }
        case 29: { is("printed and read"); int i = keepAt(); f = [this, &x, i] {
                std::ostringstream o; o << x; 
                std::istringstream s(o.str()); var r; 
                bool ok = true; try { s >> r; } catch (std::exception&) { ok = false; } 
                if (ok && !heavy(r)) { tame(r); keep(i, r); } }; break; }
        case 30: { is("streamed"); int i = keepAt(); f = [this, &x, i] { lu::varstream s; s << "<" << x << ">"; var r = s; keep(i, r.copy()); }; break; }
        case 31: { is("view"); if (!isArr(x) || !isNum(x.atype())) return; int n = x.size(), a = rng.in(1, 4), b = rng.in(1, 4), o = rng.upto(3); if (rng.chance(3, 4)) { a = std::max(1, n / b); if (a * b + o > n) o = 0; }
            int i = keepAt(); bool one = rng.chance(1, 3); f = [this, &x, i, a, b, o, one] { var r = one ? x.view({a}, o) : x.view({a, b}, o); hold(i, r); }; break; }
        case 32: { is("subview"); if (!isArr(x) || !x.view()) return; int i = keepAt(), d = rng.in(1, 2), o = rng.upto(3); f = [this, &x, i, d, o] { var r = x.subview(d, o); hold(i, r); }; break; }
        case 33: { is("moved"); if (!isArr(x) || !x.view()) return; int o = rng.in(-1, 3); bool adv = rng.chance(1, 2); f = [&x, o, adv] { if (adv) x.advance(o); else x.offset(o); }; break; }
        case 34: { is("(i,j)"); if (!isArr(x) || !x.view()) return; int i = rng.upto(4), j = rng.upto(4); f = [&x, i, j] { var r = x(i, j); var s; s = r; }; break; }
        case 35: case 36: case 37: { Place q = place(2); maths = true;
            int k = rng.upto(4), i = keepAt(); is(str(1, "+-*/"[k]) + " " + q.name);
            if (rng.chance(1, 3)) { var y = numVar(small(isArr(x) ? int(x.atype()) : int(x.type()))); q.v.reset(new var(y)); }
            var o2 = *q.v;
            if (k == 3 && (!isNumeric(o2) || hasZero(o2) || isChar(x))) return;
            if (!isNumeric(x) || !isNumeric(o2)) if (rng.chance(4, 5)) return;
            f = [this, &x, o2, k, i] { var o = o2; var r = k == 0 ? x + o : k == 1 ? x - o : k == 2 ? x * o : x / o; keepTame(i, r); }; break; }
        case 38: case 39: { Place q = place(2); var o = *q.v; maths = inplace = true;
            int k = rng.upto(4); is(str(1, "+-*/"[k]) + "= " + q.name);
            if (k == 3 && (!isNumeric(o) || hasZero(o) || isChar(x))) return;
            if (isArr(x) && isArr(o) && (overlap(x, o))) return;
            if (!isNumeric(x) || !isNumeric(o)) if (rng.chance(4, 5)) return;
            { std::set<void*> hs = t.path; if (isArr(x)) hs.insert(x.heap()); if (reaches(o, hs)) return; }
            f = [&x, o, k] { if (k == 0) x += o; else if (k == 1) x -= o; else if (k == 2) x *= o; else x /= o; };
            after = [this, &x] { tame(x); }; break; }
        case 40: { maths = true; int k = rng.upto(8), i = keepAt(); is(fmt("unary %d", k)); if (!isNumeric(x) && rng.chance(4, 5)) return;
            f = [this, &x, k, i] { var r = k == 0 ? lu::sin(x) : k == 1 ? lu::abs(x) : k == 2 ? lu::floor(x) : k == 3 ? lu::real(x) : k == 4 ? lu::norm(x) : k == 5 ? lu::exp(x) : k == 6 ? lu::sqrt(x) : lu::cos(x); keepTame(i, r); }; break; }
        case 41: { maths = inplace = true; int k = rng.upto(4); is(fmt("unary in place %d", k)); if (!isNumeric(x)) return;
            f = [&x, k] { if (k == 0) x.sin(); else if (k == 1) x.cos(); else if (k == 2) x.floor(); else x.sqrt(); };
            after = [this, &x] { tame(x); }; break; }
        case 42: { maths = true; int k = rng.upto(3), i = keepAt(); is(fmt("reduction %d", k)); if (!isNumeric(x) && rng.chance(4, 5)) return; if (isArr(x) && !x.size()) return;
            f = [this, &x, k, i] { var r = k == 0 ? lu::sum(x) : k == 1 ? lu::asum(x) : lu::iamax(x); keepTame(i, r); }; break; }
        case 43: { maths = true; Place q = place(2); var o = *q.v; int i = keepAt(); is("dot " + q.name); if (!isArr(x) || !isArr(o) || !isNum(x.atype()) || !x.size() || !o.size()) return;
            f = [this, &x, o, i] { var r = lu::dot(x, o); keepTame(i, r); }; break; }
        case 44: { maths = true; int i = keepAt(); bool in = rng.chance(1, 2); is(in ? "transposed in place" : "transposed"); if (!isArr(x)) return; inplace = in;
            f = [this, &x, in, i] { if (in) x.transpose(); else { var r = lu::transpose(x); hold(i, r); } }; break; }
        default: { maths = true; Place q = place(4); var o = *q.v; int i = keepAt(); is("concatenated with " + q.name); if (!isArr(x) || !isArr(o) || x.atype() != o.atype()) return;
            f = [this, &x, o, i] { var l; l[0] = x; l[1] = o; var r = lu::concatenate(l); if (r.size() < 200) hold(i, r); }; break; }
        }
        run(op, f, after, maths, inplace, t);
    }
    bool grows = false;
    static bool isMap(var v) { return isArr(v) && v.atype<lu::pair>(); }
    static bool isNumeric(var v) { return v.defined() && (isArr(v) ? isNum(v.atype()) && v.atype() != TYPE_CHAR : isNum(v.type())); }
    void dropViewOf(var) {}
    int keepAt() { return rng.upto(NP); }
    // what is kept is the value and not a reference to an element
    void keep(int i, var r) { if (!heavy(r) && depth(r) < 9) hold(i, r); }
    void hold(int i, var r) { VP n(new var); *n = r; p[i] = n; }
    void keepTame(int i, var r) { hold(i, r); var& x = *p[i]; tame(x); }
    static bool isChar(var v) { return v.defined() && v.atype() == TYPE_CHAR; }
    void fill(var& x, int was, int last = 1) { if (isArr(x) && isNum(x.atype())) for (int i = was; i < x.size() - last; i++) x.at(i) = numVar(mkNum(x.atype(), 1)); }

    std::vector<str> snap() { std::vector<str> r; for (int i = 0; i < NP; i++) r.push_back(vh::canon(P(i))); return r; }
    void run(int op, std::function<void()> f, std::function<void()> after, bool maths, bool inplace, Place& t) {
        if (!f) return;
        VP held[NP];
        std::vector<str> before;
        bool cmp = strict && !(inplace && nested(*t.v)) && !grows;
        if (cmp) { for (int i = 0; i < NP; i++) held[i] = p[i]; before = snap(); }
        trail += now + "; ";
        if (trail.size() > 900) trail = "... " + trail.substr(trail.size() - 800);
        note(now);
        bool threw = throws("program.exception", now, f);
        steps++;
        ev(maths ? "maths_steps" : "steps");
        if (threw) {
            rejected++;
            ev("rejected");
            if (cmp) {
                for (int i = 0; i < NP; i++) p[i] = held[i];
                auto now2 = snap();
                for (int i = 0; i < NP; i++)
                    check(before[i] == now2[i], "program.rejected", now + fmt(" was rejected, but changed v%d from ", i) + before[i] + " to " + now2[i]);
                ev("rejections_compared");
            }
        }
        else {
            after();
            // everything can be read
            if (rng.chance(1, 4)) for (auto& s : snap()) ev("values_read", s.size() > 0);
        }
        grows = false;
        if (getenv("DUMP_CYC")) for (int i = 0; i < NP; i++) if (cyclic(P(i))) fail("cycle", now);
        for (int i = 0; i < NP; i++) if (heavy(P(i)) || depth(P(i)) > 9) renew(i);
        distinctOps.insert(op * 64 + (t.v->defined() ? isArr(*t.v) ? int(t.v->atype()) + (t.v->view() ? 32 : 0) : int(t.v->type()) + 16 : 0));
    }
    static bool nested(var v) { return isArr(v) && (v.atype<var>() || v.atype<lu::pair>()); }
    str trail;
    std::set<int> distinctOps;
};

void runProgram(bool strict, int length)
{
    Program g;
    g.strict = strict;
    g.setup();
    for (int i = 0; i < length; i++) g.step();
    str key;
    for (int k : g.distinctOps) key += fmt("%d ", k);
    distinct(key);
    if (rng.chance(1, 60)) sample(g.trail);
    // handles go in random order
    for (int i = 0; i < NP; i++) { int k = rng.upto(NP); g.p[k].reset(); g.p[k].reset(new var); }
    ev("programs");
}
}

VH_CASE(program_mixed) { runProgram(false, rng.in(15, 60)); }
VH_CASE(program_reject) { runProgram(true, rng.in(15, 40)); }

// C04 C06: arrays and maps whose elements (or keys) are views, which, when
// assigned to, would be written into.
#include "model.h"
#include <algorithm>
using namespace vh;
using namespace md;

namespace {
// our own handle on an element (not to be assigned to when items move)
struct Item { std::shared_ptr<var> hp; str canon; const void* p; var& h() const { return *hp; } };

const void* data(var v)
{
    if (!v.defined() || !v.heap() || v.size() == 0) return 0;
    if (v.atype<double>()) return v.ptr<double>(0);
    if (v.atype<int>()) return v.ptr<int>(0);
    if (v.atype<char>()) return v.ptr<char>(0);
    return 0;
}
var newView()
{
    // few shapes and types, so that many match
    var r;
    int n = rng.in(2, 5), off = rng.upto(3);
    int t = rng.upto(4);
    if (t == 0) { r = int(rng.upto(1000)); for (int i = 1; i < n * 2 + off; i++) r.push(int(rng.upto(1000))); }
    else { r = double(rng.upto(1000)); for (int i = 1; i < n * 2 + off; i++) r.push(rng.upto(1000) * 0.5); }
    n = rng.chance(2, 3) ? 3 : n;
    if (r.size() < off + 2 * n) r.resize(off + 2 * n);
    for (int i = 0; i < r.size(); i++) r[i] = rng.upto(1000);
    return rng.chance(1, 3) ? r.view({2, n}, off) : r.view({n}, off);
}
var item()
{
    switch (rng.upto(8)) {
    case 0: return S(randStr());
    case 1: return rng.in(-5, 5);
    case 2: return rng.chance(1, 2) ? var() : lu::range(1.0, 3.0);
    default: return newView();
    }
}
Item keep(var v) { v.dereference(); return {std::make_shared<var>(v), vh::canon(v), data(v)}; }

void compare(var v, std::vector<Item>& m, const char* key, const str& what)
{
    check(v.size() == int(m.size()), key, what + fmt(": %d elements, not %zu", v.size(), m.size()));
    for (size_t i = 0; i < m.size(); i++) {
        var e = v[i];
        e.dereference();
        str c = vh::canon(e);
        check(vh::canon(m[i].h()) == m[i].canon, key, what + fmt(": the array put into element %zu has changed from ", i) + m[i].canon + " to " + vh::canon(m[i].h()));
        check(c == m[i].canon, key, what + fmt(": element %zu is ", i) + c + ", not " + m[i].canon);
        check(data(e) == m[i].p, key, what + fmt(": element %zu has other storage than what was put there", i));
    }
    ev("views_compared", m.size());
}
}

VH_CASE(viewlist_seq)
{
    var v;
    std::vector<Item> m;
    str log;
    v.resize(0);
    int len = rng.in(4, 40);
    for (int s = 0; s < len; s++) {
        int n = m.size(), op = rng.upto(14);
        if (op < 3 || n == 0) { var x = item(); m.push_back(keep(x)); log += "push; "; v.push(x); }
        else if (op < 7) { int i = rng.upto(n + 1); var x = rng.chance(1, 6) ? m[rng.upto(n)].h() : item(); m.insert(m.begin() + i, keep(x)); log += fmt("insert %d; ", i); v.insert(x, i); ev("inserts"); }
        else if (op < 9) {
            int i = rng.upto(n);
            log += fmt("remove %d; ", i);
            var r = v.remove(i);
            check(vh::canon(r) == m[i].canon, "viewlist.removed", log + "gives " + vh::canon(r) + ", not " + m[i].canon);
            m.erase(m.begin() + i);
            ev("removes");
        }
        else if (op == 9) { var x = item(); m.insert(m.begin(), keep(x)); log += "unshift; "; v.unshift(x); }
        else if (op == 10) { log += "shift; "; var r = v.shift(); check(vh::canon(r) == m[0].canon, "viewlist.shifted", log + "gives " + vh::canon(r) + ", not " + m[0].canon); m.erase(m.begin()); }
        else if (op == 11) { log += "pop; "; var r = v.pop(); check(vh::canon(r) == m[n - 1].canon, "viewlist.popped", log + "gives " + vh::canon(r) + ", not " + m[n - 1].canon); m.pop_back(); }
        else if (op == 12) { int i = rng.upto(n); var x = item(); log += fmt("[%d] cleared and set; ", i); v[i].clear(); v[i] = x; m[i] = keep(x); }
        else {
            // through an element into what it shares
            int i = rng.upto(n);
            if (!m[i].p || !m[i].h().view()) continue;
            int k = rng.upto(m[i].h().size());
            log += fmt("[%d][%d] = ; ", i, k);
            v[i][k] = rng.upto(1000);
            for (auto& x : m) x.canon = vh::canon(x.h());
            var e = v[i];
            check(vh::canon(e) == m[i].canon, "viewlist.shared", log + "does not change what the element shares");
        }
        note(log);
        compare(v, m, "viewlist.element", log);
        if (rng.chance(1, 12)) { var w = v.copy(); compare(w, m, "viewlist.copied", log + "copy"); }
    }
    // sorted, elements and all
    if (rng.chance(1, 3) && m.size()) {
        std::multiset<str> want, got;
        for (auto& x : m) want.insert(x.canon);
        var s = v.sort();
        for (int i = 0; i < s.size(); i++) got.insert(vh::canon(s[i]));
        check(want == got, "viewlist.sorted", log + "sort() gives other elements: " + vh::canon(s).substr(0, 600));
        compare(v, m, "viewlist.element", log + "sort");
        ev("sorts");
    }
    ev("histories");
    distinct(log);
}

VH_CASE(viewlist_map)
{
    var v;
    v[lu::nil];
    struct Entry { std::shared_ptr<var> keyp; str kc; Item it; var& key() const { return *keyp; } };
    std::vector<Entry> m;
    str log;
    int len = rng.in(4, 30);
    for (int s = 0; s < len; s++) {
        int n = m.size(), op = rng.upto(10);
        var key;
        if (n && rng.chance(1, 4)) key = m[rng.upto(n)].key();
        else switch (rng.upto(4)) {
        case 0: key = newView(); break;
        case 1: key = rng.in(-3, 9); break;
        default: key = S(fmt("k%d", rng.upto(20))); break;
        }
        str kc = vh::canon(key);
        int at = -1;
        for (int i = 0; i < n; i++) if (vh::canon(m[i].key()) == kc) at = i;
        if (op < 7 || n == 0) {
            var x = item();
            log += "[" + kc + "] set; ";
            if (at >= 0) v[key].clear();
            v[key] = x;
            if (at >= 0) m[at].it = keep(x);
            else { var k = key; k.dereference(); m.push_back({std::make_shared<var>(k), kc, keep(x)}); ev("map_inserts"); }
        }
        else {
            int i = rng.upto(n);
            // entry i of the map
            str c = vh::canon(v.key(i));
            log += "remove " + c + "; ";
            int j = -1;
            for (int k = 0; k < n; k++) if (m[k].kc == c) j = k;
            check(j >= 0, "viewmap.key", log + ": it was never put there");
            var r = v.remove(i);
            check(vh::canon(r) == m[j].it.canon, "viewmap.removed", log + "gives " + vh::canon(r) + ", not " + m[j].it.canon);
            m.erase(m.begin() + j);
            ev("map_removes");
        }
        note(log.substr(log.size() > 3000 ? log.size() - 3000 : 0));
        check(v.size() == int(m.size()), "viewmap.size", log + fmt(": %d entries, not %zu", v.size(), m.size()));
        for (int i = 0; i < v.size(); i++) {
            str c = vh::canon(v.key(i));
            int j = -1;
            for (size_t k = 0; k < m.size(); k++) if (m[k].kc == c) j = k;
            check(j >= 0, "viewmap.key", log + ": has the key " + c);
            if (i) check(v.key(i - 1) < v.key(i), "viewmap.order", log + fmt(": keys %d and %d are out of order", i - 1, i));
            var e = v[i];
            e.dereference();
            check(vh::canon(m[j].it.h()) == m[j].it.canon, "viewmap.source", log + ": the value put under " + c + " has changed to " + vh::canon(m[j].it.h()));
            check(vh::canon(e) == m[j].it.canon && data(e) == m[j].it.p, "viewmap.value", log + ": under " + c + " is " + vh::canon(e) + ", not " + m[j].it.canon);
            check(vh::canon(m[j].key()) == m[j].kc, "viewmap.key", log + ": a key given has changed to " + vh::canon(m[j].key()));
            var f = v.at(m[j].key());
            f.dereference();
            check(vh::canon(f) == m[j].it.canon, "viewmap.lookup", log + ": looking up " + c + " gives " + vh::canon(f));
        }
        ev("map_views_compared", m.size());
    }
    distinct(log);
}

// Windows on an array of anything: what is reached through the window is what
// the array holds, however the element's size compares to the window's.
VH_CASE(viewlist_window)
{
    struct Win { var v; int off, n, rows; };
    int n = rng.in(2, 7), win = rng.in(1, n);
    auto leaf = [&]() -> MV {
        switch (rng.upto(5)) {
        case 0: return MV(strObj(randStr(rng.chance(1, 2) ? win : 6)));
        case 1: return MV(mkInt(TYPE_INT, rng.in(-99, 99)));
        case 2: return MV(mkFlt(TYPE_DOUBLE, rng.in(-99, 99) * 0.5));
        case 3: { OP o = newObj(rng.chance(1, 2) ? TYPE_INT : TYPE_DOUBLE); for (int i = rng.chance(1, 2) ? win : rng.in(2, 5); i > 0; i--) o->d.push_back(mkNum(o->type, rng.in(-9, 9))); return MV(o); }
        default: return MV();
        }
    };
    auto list = [&]() -> MV {
        OP o = newObj(TYPE_VAR);
        for (int i = rng.chance(2, 3) ? win : rng.in(1, 6); i > 0; i--) o->v.push_back(leaf());
        return MV(o);
    };
    auto any = [&]() -> MV {
        if (rng.chance(1, 2)) return list();
        if (rng.chance(1, 4)) {
            OP o = newObj(TYPE_PAIR);
            for (int i = 0; i < win; i++) { o->key.push_back(MV(strObj(fmt("k%d", i)))); o->v.push_back(leaf()); }
            return MV(o);
        }
        return leaf();
    };
    OP m = newObj(TYPE_VAR);
    for (int i = 0; i < n; i++) m->v.push_back(any());
    var a;
    a.resize(n);
    for (int i = 0; i < n; i++) { var e = build(m->v[i]); a[i] = e; }
    std::vector<Win> ws;
    ws.reserve(8);
    std::vector<MV> mu(3);
    var u[3];
    str log = md::canon(MV(m)) + ": ";
    auto same = [&](const str& what, var got, const MV& want) {
        var g;
        g = got;
        check(vh::canon(g) == md::canon(want), "window.element", log + what + " is " + vh::canon(g) + ", not " + md::canon(want));
    };
    int steps = rng.in(3, 14);
    for (int s = 0; s < steps; s++) {
        if (ws.empty() || (ws.size() < 4 && rng.chance(1, 5))) {
            int off = rng.upto(n - win + 1), c = rng.chance(2, 3) ? win : rng.in(1, n - off);
            bool sub = ws.size() && rng.chance(1, 3);
            if (sub) {
                // of a window
                Win& p = ws[rng.upto(ws.size())];
                int o = rng.upto(p.n);
                c = rng.in(1, p.n - o);
                ws.push_back({var(), p.off + o, c, 0});
                var t = p.v.view({c}, o);
                std::swap(ws.back().v, t);
                off = p.off + o;
            }
            else if (c % 2 == 0 && c > 2 && rng.chance(1, 2)) { ws.push_back({var(), off, c, 2}); var t = a.view({2, c / 2}, off); std::swap(ws.back().v, t); }
            else { ws.push_back({var(), off, c, 0}); var t = a.view({c}, off); std::swap(ws.back().v, t); }
            log += fmt("w%d=[%d+%d]; ", int(ws.size()) - 1, off, c);
            ev("windows");
        }
        int wi = rng.upto(ws.size()), ui = rng.upto(3), op = rng.upto(11);
        Win& w = ws[wi];
        int i = rng.upto(w.n);
        MV& e = m->v[w.off + i];
        auto el = [&]() -> var { if (w.rows) return w.v(i / (w.n / 2), i % (w.n / 2)); return w.v.at(i); };
        str at = fmt("w%d[%d]", wi, i);
        switch (op) {
        case 0: case 1:
            log += fmt("u%d = ", ui) + at + "; ";
            u[ui] = el();
            mu[ui] = e;
            ev("element_taken");
            break;
        case 2: {
            // a reference that becomes a value where it is
            log += fmt("u%d = deref ", ui) + at + "; ";
            var t = el();
            t.dereference();
            check(vh::canon(t) == md::canon(e), "window.deref", log + "the reference became " + vh::canon(t) + ", not " + md::canon(e));
            u[ui] = t;
            mu[ui] = e;
            ev("dereferenced");
            break;
        }
        case 3: {
            MV x = any();
            log += at + " = " + md::canon(x) + "; ";
            var b = build(x);
            el() = b;
            e = x;
            ev("element_set");
            break;
        }
        case 4: {
            log += at + fmt(" = u%d; ", ui);
            if (reaches(mu[ui], m)) break;
            el() = u[ui];
            e = mu[ui];
            ev("element_set");
            break;
        }
        case 5:
            if (e.k == MV::OBJ && e.o->type == TYPE_VAR && e.o->size()) {
                int k = rng.upto(e.o->size());
                MV x = leaf();
                log += at + fmt("[%d] = ", k) + md::canon(x) + "; ";
                var b = build(x);
                el()[k] = b;
                e.o->v[k] = x;
                ev("nested_set");
            }
            break;
        case 6:
            if (e.k == MV::OBJ && e.o->type == TYPE_VAR) {
                MV x = leaf();
                log += at + ".push(" + md::canon(x) + "); ";
                var b = build(x);
                if (x.k == MV::NIL) break;
                el().push(b);
                e.o->v.push_back(x);
                ev("nested_push");
            }
            break;
        case 7:
            if (e.k == MV::OBJ && e.o->type == TYPE_PAIR) {
                MV x = leaf();
                bool f;
                MV k = MV(strObj(fmt("k%d", rng.upto(9))));
                int p = find(e.o, k, f);
                log += at + "[" + md::canon(k) + "] = " + md::canon(x) + "; ";
                var b = build(x), kv = build(k);
                el()[kv] = b;
                if (f) e.o->v[p] = x;
                else { e.o->key.insert(e.o->key.begin() + p, k); e.o->v.insert(e.o->v.begin() + p, x); }
                ev("nested_key");
            }
            break;
        case 8: {
            log += "copy of " + at + "; ";
            var t = el();
            var c = t.copy();
            check(vh::canon(c) == md::canon(e), "window.copy", log + "is " + vh::canon(c) + ", not " + md::canon(e));
            ev("element_copied");
            break;
        }
        case 9: {
            // the whole window; a list of its own
            if (w.rows) break;
            log += fmt("copy of w%d; ", wi);
            var c = w.v.copy();
            check(c.size() == w.n, "window.copy", log + fmt("has %d elements", c.size()));
            for (int k = 0; k < w.n; k++) same(fmt("element %d of the copy", k), c.at(k), m->v[w.off + k]);
            c.at(i) = 4711;
            ev("window_copied");
            break;
        }
        default: {
            int j = rng.upto(w.n);
            var x = el(), y = w.v.at(j);
            int want = md::cmp(e, m->v[w.off + j]);
            check((x < y) == (want < 0) && (y < x) == (want > 0), "window.compare", log + at + fmt(" and [%d] compare otherwise than their values", j));
            ev("compared");
        }
        }
        note(log.substr(log.size() > 3000 ? log.size() - 3000 : 0));
        check(a.size() == n, "window.base", log + fmt("the array has %d elements", a.size()));
        for (int k = 0; k < n; k++) same(fmt("element %d of the array", k), a.at(k), m->v[k]);
        for (size_t q = 0; q < ws.size(); q++) {
            check(ws[q].v.view() && ws[q].v.size() == ws[q].n, "window.extent", log + fmt("window %d has other extent", int(q)));
            for (int k = 0; k < ws[q].n; k++) same(fmt("element %d of w%d", k, int(q)), ws[q].v.at(k), m->v[ws[q].off + k]);
        }
        for (int k = 0; k < 3; k++) check(vh::canon(u[k]) == md::canon(mu[k]), "window.taken", log + fmt("u%d is ", k) + vh::canon(u[k]) + ", not " + md::canon(mu[k]));
        ev("windows_compared", ws.size());
    }
    distinct(log);
    if (rng.chance(1, 40)) sample(log.substr(0, 300));
}

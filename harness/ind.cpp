// C36: index values.
#include "vh.h"
using namespace vh;

static intptr_t value()
{
    static const std::vector<intptr_t> sp = {0, 1, -1, 2, -2, 7, -8, 127, 128, -128, 255, 256, 32767, 65536, 2147483647L, -2147483648L,
        2147483648L, 4294967295L, 4294967296L, -4294967296L, 1L << 52, -(1L << 52), INTPTR_MAX - 1, INTPTR_MIN + 1};
    if (rng.chance(1, 2)) return rng.pick(sp);
    return intptr_t(rng.next()) >> rng.in(1, 62);
}

VH_CASE_W(ind_rules, 3)
{
    ind d;
    check(bool(d) && intptr_t(d) == 0, "ind.default", "default index is not a true zero");
    for (int k = 0; k < 40; k++) {
        intptr_t a = value(), b = value();
        ind i(a);
        str at = fmt("ind(%ld)", long(a));
        check(intptr_t(i) == a, "ind.value", at + " does not hold its value");
        bool t = i ? true : false;
        check(t == (a >= 0), "ind.truth", at + " truth");
        ind c = ~i;
        check(intptr_t(c) == -1 - a, "ind.complement", at + fmt(" complement is %ld", long(intptr_t(c))));
        check(bool(c) != bool(i), "ind.complement_truth", at + " and its complement have the same truth");
        check(intptr_t(~c) == a, "ind.selfinverse", at + " double complement");
        check(intptr_t(i) == a, "ind.complement_changes", at + " changed by complement");
        ind j(i);
        ind p = j++;
        check(intptr_t(p) == a && intptr_t(j) == a + 1, "ind.postinc", at);
        p = j--;
        check(intptr_t(p) == a + 1 && intptr_t(j) == a, "ind.postdec", at);
        ind& r = ++j;
        check(&r == &j && intptr_t(j) == a + 1, "ind.preinc", at);
        ind& q = --j;
        check(&q == &j && intptr_t(j) == a, "ind.predec", at);
        intptr_t ha = a / 4, hb = b / 4;
        ind x(ha), y(hb);
        check(x + y == ha + hb && x - y == ha - hb && (x < y) == (ha < hb) && (x == y) == (ha == hb) && (x >= y) == (ha >= hb)
              && -x == -ha && x * 3 == ha * 3 && (hb == 0 || x / y == ha / hb), "ind.arith", fmt("%ld,%ld", long(ha), long(hb)));
        if (std::abs(a) < (1L << 30)) {
            int n = a;
            check(i == n && i + 1 == n + 1, "ind.intmix", at);
            ind loop(n - 3);
            int cnt = 0;
            for (; loop < ind(n); loop++) cnt++;
            check(cnt == 3, "ind.loop", at);
        }
        ev("indices");
        distinct(fmt("%ld", long(a)));
    }
}

// searches: the index is true exactly when found, and then it is the place
VH_CASE_W(ind_search, 4)
{
    int n = rng.in(1, 20), kind = rng.upto(4);
    var a;
    std::vector<int> m;
    strs ms;
    for (int i = 0; i < n; i++) {
        int v = rng.in(0, 12);
        m.push_back(v);
        if (kind == 0) a.push(v);
        else if (kind == 1) a.push(double(v));
        else if (kind == 2) a[i] = S(fmt("s%d", v));
        else { var one = {var("x"), var(v)}; a[i] = one; }
    }
    if (n == 1 && kind < 2) a.array();
    str desc = fmt("search kind %d n %d", kind, n);
    note(desc);
    sample(desc);
    for (int v = -1; v <= 13; v++) {
        ind want = -1;
        for (int i = n - 1; i >= 0; i--) if (m[i] == v) want = i;
        var key = kind == 0 ? var(v) : kind == 1 ? var(double(v)) : kind == 2 ? S(fmt("s%d", v)) : var({var("x"), var(v)});
        ind got = a.index(key);
        if (want) check(bool(got) && intptr_t(got) == intptr_t(want), "search.found", desc + fmt(" value %d: got %ld want %ld", v, long(intptr_t(got)), long(intptr_t(want))));
        else check(!got, "search.notfound", desc + fmt(" value %d absent but index %ld", v, long(intptr_t(got))));
        ev(want ? "found" : "absent");
    }
    distinct(desc + canon(a));
    var nl;
    check(!nl.index(1), "search.nil", "index in nil is true");
    var map;
    std::set<int> keys;
    for (int i = 0; i < n; i++) { map[S(fmt("k%02d", m[i]))] = i; keys.insert(m[i]); }
    for (int v = 0; v <= 13; v++) {
        ind got = map.index(S(fmt("k%02d", v)));
        check(bool(got) == (keys.count(v) > 0), "search.map", fmt("map key k%02d: index %ld", v, long(intptr_t(got))));
        if (got) check(text(map.key(got)) == fmt("k%02d", v), "search.mapkey", "index names another key");
        ev(got ? "found" : "absent");
    }
}

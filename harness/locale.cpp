// C42: what is computed, read and written under another locale of the program is as under the usual one.
#include "model.h"
#include "lube/config.h"
#include "lube/graph.h"
#include "lube/module.h"
#include "lube/regex.h"
#include <fstream>
#include <locale>
using namespace vh;
using namespace md;

namespace {

/// Writes 1234567.5 as 1.234.567,5 or in some other way
struct Punct : std::numpunct<char> {
    Punct(char p, char s, const char* g) : point(p), sep(s), group(g) {}
    char do_decimal_point() const override { return point; }
    char do_thousands_sep() const override { return sep; }
    str do_grouping() const override { return group; }
    str do_truename() const override { return "wahr"; }
    str do_falsename() const override { return "falsch"; }
    char point, sep;
    str group;
};

struct Locale {
    Locale(const std::locale& l) : old(std::locale::global(l)) {}
    ~Locale() { std::locale::global(old); }
    std::locale old;
};

typedef std::vector<var> Vars;
struct Kind {
    const char* name;
    std::function<void(Vars&)> make;
    std::function<str(Vars&)> op;
};

str slurp(const str& f) { std::ifstream in(f, std::ios::binary); return str((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>()); }
str file(const str& content) { str f = scratch() + "/locale.in"; std::ofstream(f) << content; return f; }
str out() { return scratch() + "/locale.out"; }
Num number() { int t = rng.in(TYPE_INT, TYPE_CDOUBLE); return isInt(t) ? mkInt(t, rng.chance(1, 2) ? rng.in(-1000000000, 1000000000) : rng.in(-9, 9)) : mkFlt(t, rng.sym() * (rng.chance(1, 2) ? 1e7 : 10), isCplx(t) ? rng.sym() * 1e5 : 0); }
str digits() {
    str s = rng.chance(1, 4) ? "-" : "";
    for (int i = rng.in(1, 8); i > 0; i--) s += char('1' + rng.upto(9));
    if (rng.chance(1, 2)) { s += "."; for (int i = rng.in(1, 5); i > 0; i--) s += char('0' + rng.upto(10)); }
    if (rng.chance(1, 5)) s += fmt("e%d", rng.in(-9, 9));
    return s;
}
var tree(int depth = 0) {
    var v;
    int n = rng.in(1, 4);
    if (rng.chance(1, 2)) { for (int i = 0; i < n; i++) { var e; if (depth < 2 && rng.chance(1, 3)) e = tree(depth + 1); else e = numVar(number()); v[fmt("k%d", i).c_str()] = e; } }
    else { v[0] = "first"; for (int i = 1; i < n; i++) { var e; if (depth < 2 && rng.chance(1, 3)) e = tree(depth + 1); else e = numVar(number()); v[i] = e; } }
    return v;
}
str json(int depth = 0) {
    int k = depth > 2 ? 0 : rng.upto(4);
    if (k < 2) return digits();
    str s = k == 2 ? "[" : "{";
    for (int i = 0, n = rng.in(1, 4); i < n; i++) s += (i ? ", " : "") + (k == 2 ? str() : fmt("\"k%d\": ", i)) + json(depth + 1);
    return s + (k == 2 ? "]" : "}");
}
str result(std::function<var()> f) {
    var r;
    try { r = f(); } catch (std::exception& e) { return "exception"; }
    return vh::canon(r);
}

#define MAKE [](Vars& v)
#define OP [](Vars& v) -> str
const Kind kinds[] = {
    {"writing JSON", MAKE { v.push_back(tree()); }, OP { lu::varstream s; if (rng.chance(1, 3)) s.precision(rng.in(1, 17)); s << v[0]; return s.str(); }},
    {"writing numbers", MAKE { v.push_back(numVar(number())); }, OP { lu::varstream s; s << v[0] << " " << rng.in(-100000, 100000) << " " << rng.sym() * 1e6; return s.str(); }},
    {"reading JSON", MAKE { v.push_back(json().c_str()); }, OP { return result([&] { lu::varstream s(v[0]); var r; s >> r; return r; }); }},
    {"reading JSON from another stream", MAKE { v.push_back(json().c_str()); }, OP { return result([&] { std::istringstream s(v[0].str()); var r; s >> r; return r; }); }},
    {"JSON written and read", MAKE { v.push_back(tree()); }, OP { return result([&] { lu::varstream s; s.precision(17); s << v[0]; var t = var(s), r; lu::varstream q(t); q >> r; return r; }); }},
    {"text to int", MAKE { v.push_back(digits().c_str()); }, OP { return result([&] { return lu::castInt(v[0]); }); }},
    {"text to long", MAKE { v.push_back(digits().c_str()); }, OP { return result([&] { return var(v[0].cast<long>()); }); }},
    {"text to float", MAKE { v.push_back(digits().c_str()); }, OP { return result([&] { return lu::castFloat(v[0]); }); }},
    {"text to double", MAKE { v.push_back(digits().c_str()); }, OP { return result([&] { return var(v[0].cast<double>()); }); }},
    {"text to complex", MAKE { v.push_back(("(" + digits() + "," + digits() + ")").c_str()); }, OP { return result([&] { return lu::castCDouble(v[0]); }); }},
    {"reading numbers", MAKE { v.push_back((digits() + " " + digits()).c_str()); }, OP { lu::varstream s(v[0]); double a = 0, b = 0; s >> a >> b; return fmt("%.17g %.17g", a, b); }},
    {"an error", MAKE { v.push_back(numVar(number())); }, OP { try { throw lu::error(v[0]); } catch (std::exception& e) { str w = e.what(); return w.substr(0, w.find('\n')); } }},
    {"text file", MAKE { v.push_back(tree()); v.push_back(out().c_str()); }, OP { lu::filemodule m("txt"); m.create().write(v[1], v[0]); return slurp(out()); }},
    {"INI file", MAKE { v.push_back(var()); for (int i = 0; i < 3; i++) { var e; e = numVar(number()); v[0][i] = e; } v.push_back(out().c_str()); }, OP { lu::filemodule m("ini"); m.create().write(v[1], v[0]); return slurp(out()); }},
    {"graph", MAKE { v.push_back(out().c_str()); }, OP {
        lu::graphmodule m; lu::graph& g = m.create(); int n = rng.in(900, 2500);
        g.addEdge(0, n); for (int i = 0; i < 9; i++) g.addEdge(rng.upto(n), rng.upto(n));
        g.writeGraphViz(v[0]); return slurp(out()); }},
    {"configuration", MAKE { v.push_back(file("[s]\na = " + digits() + "\nb = " + digits() + "\n").c_str()); }, OP { return result([&] {
        lu::Config c("s"); c.configFile(v[0]); var r; r[0] = "config"; r[1] = c.config("a", 1); r[2] = c.config("b", 2.5); return r; }); }},
    {"GEDCOM", MAKE { str s = "0 HEAD\n1 CHAR UTF-8\n"; for (int i = 1; i < 30; i++) s += fmt("0 @I%d@ INDI\n1 NAME A%d /B/\n1 BIRT\n2 DATE %d JAN %d\n", 1000 * i, i, 1 + i % 28, 1700 + i); v.push_back(file(s + "0 TRLR\n").c_str()); },
        OP { return result([&] { lu::filemodule m("ged"); return m.create().read(v[0]); }); }},
    {"XML", MAKE { v.push_back(file("<?xml version='1.0'?><a b='" + digits() + "'>" + digits() + "</a>").c_str()); }, OP { return result([&] { lu::filemodule m("xml"); return m.create().read(v[0]); }); }},
    {"split and join", MAKE { v.push_back((digits() + " " + digits() + " " + digits()).c_str()); }, OP { return result([&] { var r = v[0].split(); return r.join(","); }); }},
    {"replace", MAKE { v.push_back(digits().c_str()); }, OP { return result([&] { return v[0].replace("[13]", "7"); }); }},
    {"case", MAKE { v.push_back("Text with UPPER and lower case, \xc3\xa9"); }, OP { return result([&] { return lu::toupper(v[0]); }) + result([&] { return lu::tolower(v[0]); }); }},
};

}

VH_CASE(locale_same)
{
    const Kind& k = kinds[rng.upto(sizeof kinds / sizeof *kinds)];
    static const std::pair<char, char> chars[] = {{',', '.'}, {'.', ','}, {',', ' '}, {'.', '\''}, {',', 0}};
    auto c = chars[rng.upto(5)];
    std::locale other(std::locale::classic(), new Punct(c.first, c.second, c.second ? rng.chance(1, 5) ? "\2" : "\3" : ""));
    Vars v;
    v.reserve(4);
    k.make(v);
    str d = str(k.name) + fmt(" where the decimal point is '%c' and thousands are separated by '%c': ", c.first, c.second ? c.second : '-');
    for (auto& x : v) d += vh::canon(x) + " ";
    note(d);
    distinct(d);
    Vars w;
    w.reserve(4);
    for (auto& x : v) { w.push_back(var()); w.back() = x.copy(); }
    auto here = rng;
    str want, got;
    mustWork("locale.usual", d, [&] { want = k.op(v); });
    rng = here;
    mustWork("locale.other", d, [&] { Locale l(other); got = k.op(w); });
    check(got == want, "locale.differs", d + ": gives " + show(got, 400) + " rather than " + show(want, 400));
    ev("compared");
    if (want != "exception") ev("results");
}

// C23: GEDCOM files.
#include "model.h"
#include <fstream>
using namespace vh;
using namespace md;

static str put(const str& content) { static int n = 0; str f = scratch() + fmt("/g%d.ged", n++ % 4); std::ofstream(f, std::ios::binary) << content; return f; }
struct Opt { bool set = false; str v; };
struct Indi { str xref; Opt name, title, sex; };
struct Fam { str xref; str husb, wife; strs child; };
struct File { std::vector<Indi> ind; std::vector<Fam> fam; str text; };

static str value()
{
    str s;
    switch (rng.upto(5)) {
    case 0: break;
    case 1: for (int n = rng.upto(rng.chance(1, 10) ? 200 : 12); n > 0; n--) s += char(rng.in(1, 255)); break;
    case 2: return "John  Henry /Smith/ ";
    case 3: return "@I1@";
    default: for (int n = rng.upto(12); n > 0; n--) s += "Anna /@ b.0"[rng.upto(11)];
    }
    for (char& c : s) if (c == '\n' || c == '\r') c = ' ';
    return s;
}
static str line(int level, const str& tag) { return fmt("%d ", level) + tag + "\n"; }
static const char* unknown() { static const char* u[] = {"GIVN", "SURN", "_UID", "SOUR", "ADDR", "EVEN", "RESI", "CHAN", "OBJE", "TYPE", "AGE"}; int i = rng.upto(11); return u[i]; }
// anything subordinate at a level; the tags of records among them have no meaning there
static str below(int level, int depth)
{
    str r;
    if (rng.chance(1, 2)) return r;
    for (int n = rng.in(1, 3); n > 0; n--) {
        static const char* t[] = {"DATE", "PLAC", "NOTE", "CONT", "CONC", "NAME", "SEX", "TITL", "HUSB", "CHIL", "INDI", "FAM", "HEAD", "TRLR", "REFN"};
        int i = rng.upto(20);
        r += line(level, (i < 15 ? str(t[i]) : str(unknown())) + (rng.chance(2, 3) ? " " + value() : str()));
        if (depth > 0) r += below(level + 1, depth - 1);
        else if (rng.chance(1, 30)) r += below(level + 1, rng.in(1, 12));
    }
    return r;
}
static long others;
static str someOther(bool family)
{
    others++;
    switch (rng.upto(family ? 4 : 7)) {
    case 0: return line(1, str(unknown()) + (rng.chance(1, 2) ? " " + value() : str())) + below(2, 2);
    case 1: { static const char* t[] = {"NOTE", "REFN", "SUBM", "DIV"}; int i = rng.upto(4); return line(1, str(t[i]) + " " + value()) + below(2, 1); }
    case 2: { static const char* t[] = {"CONT", "CONC"}; int i = rng.upto(2); return family ? str() : line(1, str(t[i]) + " " + value()) + below(2, 1); }
    case 3: return line(1, rng.chance(1, 2) ? "MARR" : "MARR Y") + (rng.chance(1, 2) ? line(2, "DATE 1 JAN 1900") + below(3, 1) : str()) + below(2, 1);
    case 4: { static const char* t[] = {"BIRT", "DEAT", "CHR", "BURI"}; int i = rng.upto(4); return line(1, t[i]) + (rng.chance(1, 2) ? line(2, "DATE 1 JAN 1900") + below(3, 1) : str()) + (rng.chance(1, 2) ? line(2, "PLAC Martigny") : str()) + below(2, 1); }
    case 5: return line(1, "OCCU " + value()) + below(2, 1);
    default: return line(1, str(rng.chance(1, 2) ? "FAMS" : "FAMC") + " @F1@") + below(2, 1);
    }
}
static str fieldLine(const char* tag, Opt& o)
{
    if (rng.chance(1, 4)) return "";
    o.set = true;
    o.v = value();
    return line(1, str(tag) + (o.v.empty() && rng.chance(1, 2) ? "" : " " + o.v)) + below(2, 1);
}
// cross references of other files
static strs elsewhere;
static str nobody() { return elsewhere.empty() || rng.chance(1, 2) ? str("@NOBODY@") : rng.pick(elsewhere); }
static File generate()
{
    File f;
    int ni = rng.chance(1, 200) ? rng.in(100, 400) : rng.chance(1, 20) ? rng.in(10, 60) : rng.upto(6), nf = rng.chance(1, 20) ? rng.in(5, 20) : rng.upto(4);
    bool odd = rng.chance(1, 3);
    std::set<str> used;
    auto ref = [&](char c, int i) {
        str x;
        do x = odd ? "@" + str(1, c) + fmt("%d", rng.upto(3000)) + (rng.chance(1, 2) ? "x\xc3\xa9-!" : "") + "@" : fmt("@%c%d@", c, i + 1); while (!used.insert(x).second);
        return x;
    };
    std::vector<str> names;
    for (int i = 0; i < ni; i++) names.push_back(ref('I', i));
    // the order of the records
    std::vector<int> order;
    for (int i = 0; i < ni; i++) order.push_back(0);
    for (int i = 0; i < nf; i++) order.push_back(1);
    if (rng.chance(1, 2)) for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[rng.upto(i)]);
    if (rng.chance(9, 10)) f.text += line(0, "HEAD") + below(1, 2);
    auto other = [&] {
        if (rng.chance(1, 6)) { others++; f.text += line(0, rng.chance(1, 2) ? "@S1@ SUBM" : str("@X1@ ") + unknown()) + below(1, 2); }
        if (rng.chance(1, 10)) { others++; f.text += line(0, rng.chance(1, 2) ? str(unknown()) + " x" : "@N1@ NOTE " + value()) + below(1, 2); }
        if (rng.chance(1, 10)) {
            // of a known tag, and saying what another record would
            static const char* t[] = {"NOTE", "NAME", "TITL", "SEX", "HUSB", "CHIL", "REFN", "CONT"};
            static const char* u[] = {"TRLR", "HEAD", "@I1@ INDI", "@F1@ FAM", "@NEW@ INDI", "INDI", "x", ""};
            int i = rng.upto(8), k = rng.upto(8);
            others++;
            f.text += line(0, str(rng.chance(1, 3) ? "@Z9@ " : "") + t[i] + (*u[k] ? str(" ") + u[k] : str())) + below(1, 2);
        }
    };
    int in = 0, fn = 0;
    for (int k : order) {
        other();
        strs part;
        if (k == 0) {
            Indi x;
            x.xref = names[in++];
            f.text += line(0, x.xref + " INDI");
            part.push_back(fieldLine("NAME", x.name));
            part.push_back(fieldLine("TITL", x.title));
            part.push_back(fieldLine("SEX", x.sex));
            for (int n = rng.upto(4); n > 0; n--) part.push_back(someOther(false));
            f.ind.push_back(x);
        }
        else {
            Fam x;
            x.xref = ref('F', fn++);
            f.text += line(0, x.xref + " FAM");
            auto person = [&] { return ni == 0 || rng.chance(1, elsewhere.empty() ? 30 : 4) ? nobody() : rng.pick(names); };
            if (rng.chance(3, 4)) { x.husb = person(); part.push_back(line(1, "HUSB " + x.husb) + below(2, 1)); }
            if (rng.chance(3, 4)) { x.wife = person(); part.push_back(line(1, "WIFE " + x.wife) + below(2, 1)); }
            for (int n = rng.upto(rng.chance(1, 8) ? 12 : 4); n > 0; n--) part.push_back("CHIL");
            for (int n = rng.upto(3); n > 0; n--) part.push_back(someOther(true));
            f.fam.push_back(x);
        }
        for (size_t i = part.size(); i > 1; i--) std::swap(part[i - 1], part[rng.upto(i)]);
        for (auto& p : part) {
            if (p == "CHIL") {
                str c = ni == 0 || rng.chance(1, elsewhere.empty() ? 30 : 4) ? nobody() : rng.pick(names);
                f.fam.back().child.push_back(c);
                p = line(1, "CHIL " + c) + below(2, 1);
            }
            f.text += p;
        }
    }
    other();
    f.text += "0 TRLR";
    if (rng.chance(3, 4)) f.text += "\n";
    return f;
}
static int position(const File& f, const str& x) { for (size_t i = 0; i < f.ind.size(); i++) if (f.ind[i].xref == x) return i; return -1; }
static void field(const str& d, var v, const Opt& o, const char* what, int i)
{
    if (!o.set) { check(!v.defined(), "ged.field", d + fmt(": %s of individual %d is ", what, i) + vh::canon(v).substr(0, 200) + ", though none is given"); return; }
    check(isString(v) && text(v) == o.v, "ged.field", d + fmt(": %s of individual %d is ", what, i) + vh::canon(v).substr(0, 200) + ", should be \"" + show(o.v) + "\"");
}
static void spouse(const str& d, const File& f, var v, const str& x, const char* what, int i)
{
    int p = x.empty() ? -1 : position(f, x);
    if (p < 0) check(!v.defined(), "ged.spouse", d + fmt(": %s of family %d is ", what, i) + vh::canon(v).substr(0, 200) + ", should be nil");
    else check(v.type() == lu::TYPE_INT && v.cast<int>() == p, "ged.spouse", d + fmt(": %s of family %d is ", what, i) + vh::canon(v).substr(0, 200) + fmt(", should be %d", p));
}
static void verify(const str& d, const File& f, var r)
{
    if (f.ind.empty() && f.fam.empty()) { check(!r.defined(), "ged.empty", d + ": gives " + vh::canon(r).substr(0, 300)); return; }
    check(r.atype<lu::pair>() && r.size() == int(!f.ind.empty()) + int(!f.fam.empty()), "ged.shape", d + ": gives " + vh::canon(r).substr(0, 300));
    if (f.ind.size()) {
        var in = r["Individual"];
        check(in.size() == int(f.ind.size()), "ged.individuals", d + fmt(": gives %d individuals, should be %d", in.size(), int(f.ind.size())));
        for (size_t i = 0; i < f.ind.size(); i++) {
            var x = in[i];
            check(x.size() == 3, "ged.shape", d + ": an individual is " + vh::canon(x).substr(0, 300));
            field(d, x["NAME"], f.ind[i].name, "name", i);
            field(d, x["TITL"], f.ind[i].title, "title", i);
            field(d, x["SEX"], f.ind[i].sex, "sex", i);
        }
    }
    if (f.fam.size()) {
        var fa = r["Family"];
        check(fa.size() == int(f.fam.size()), "ged.families", d + fmt(": gives %d families, should be %d", fa.size(), int(f.fam.size())));
        for (size_t i = 0; i < f.fam.size(); i++) {
            var x = fa[i];
            check(x.size() == 3, "ged.shape", d + ": a family is " + vh::canon(x).substr(0, 300));
            spouse(d, f, x["HUSB"], f.fam[i].husb, "husband", i);
            spouse(d, f, x["WIFE"], f.fam[i].wife, "wife", i);
            std::vector<int> want;
            for (auto& c : f.fam[i].child) { int p = position(f, c); if (p >= 0) want.push_back(p); }
            var c = x["CHIL"];
            int n = c.defined() ? c.size() : 0;
            check(n == int(want.size()), "ged.children", d + fmt(": family %d has children ", int(i)) + vh::canon(c).substr(0, 200) + fmt(", should be %d", int(want.size())));
            for (int k = 0; k < n; k++) { int p = n == 1 ? c.cast<int>() : var(c.at(k)).cast<int>(); check(p == want[k], "ged.children", d + fmt(": child %d of family %d is %d, should be %d", k, int(i), p, want[k])); }
        }
    }
}

VH_CASE_W(ged_load, 4)
{
    others = 0;
    elsewhere.clear();
    File f = generate();
    str d = "GEDCOM \"" + show(f.text, 1500) + "\"";
    note(d);
    distinct(f.text);
    if (rng.chance(1, 60)) sample(d.substr(0, 300));
    lu::filemodule m("ged");
    lu::file& h = m.create();
    str p = put(f.text);
    var r;
    int fds = openFds();
    mustWork("ged.read", d, [&] { r = h.read(S(p)); });
    verify(d, f, r);
    check(openFds() == fds, "ged.fd", d + ": a file is left open");
    ev("individuals", f.ind.size()); ev("families", f.fam.size()); ev("other_records", others);
    for (auto& x : f.fam) ev("children", x.child.size());
}

VH_CASE_W(ged_several, 2)
{
    int n = rng.in(2, 4);
    elsewhere.clear();
    std::vector<File> f;
    std::vector<var> got;
    lu::filemodule m("ged");
    lu::file& a = m.create();
    lu::file& b = m.create();
    str d = fmt("%d files:", n);
    for (int i = 0; i < n; i++) {
        File g = generate();
        str p = put(g.text);
        d += " \"" + show(g.text, 500) + "\"";
        note(d);
        lu::file& h = rng.chance(2, 3) ? a : b;
        var r;
        if (rng.chance(1, 4)) {
            // a load that fails on the way: no trailer, or no file
            str bad = g.text.substr(0, g.text.rfind("0 TRLR"));
            str q = rng.chance(1, 4) ? scratch() + "/absent.ged" : put(bad);
            if (bad.size() || q[q.size() - 5] == 't') { mustThrow("ged.accepted", d + ": (without its trailer)", [&] { r = h.read(S(q)); }); ev("rejected"); }
            p = put(g.text);
        }
        mustWork("ged.read", d, [&] { r = h.read(S(p)); });
        f.push_back(g);
        for (auto& x : g.ind) elsewhere.push_back(x.xref);
        got.push_back(r);
        for (int j = 0; j <= i; j++) verify(d + fmt(" (file %d)", j), f[j], got[j]);
        // use one of them
        if (rng.chance(1, 3) && g.ind.size()) {
            got[i]["Individual"][0]["NAME"] = "changed";
            f[i].ind[0].name = Opt{true, "changed"};
        }
    }
    distinct(d);
    ev("kept_apart", n);
}

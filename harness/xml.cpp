// C22: XML files.
#include "model.h"
#include <fstream>
#include <sys/stat.h>
using namespace vh;
using namespace md;

static str path() { static int n = 0; return scratch() + fmt("/x%d.xml", n++ % 6); }
static str put(const str& content) { str f = path(); std::ofstream(f, std::ios::binary) << content; return f; }

struct El;
typedef std::shared_ptr<El> EP;
struct Child { str text; EP el; };
struct El { str name; std::vector<std::pair<str, str>> attr; std::vector<Child> kid; };

static str utf8()
{
    auto c = [](int n) { return char(0x80 | n); };
    switch (rng.upto(3)) {
    case 0: { int p = rng.in(0xa1, 0x7ff); return str(1, char(0xc0 | p >> 6)) + c(p & 63); }
    case 1: { int p = rng.chance(1, 2) ? rng.in(0x800, 0xd7ff) : rng.in(0xe000, 0xfffd); return str(1, char(0xe0 | p >> 12)) + c(p >> 6 & 63) + c(p & 63); }
    default: { int p = rng.in(0x10000, 0x10ffff); return str(1, char(0xf0 | p >> 18)) + c(p >> 12 & 63) + c(p >> 6 & 63) + c(p & 63); }
    }
}
static str name()
{
    static const char* first[] = {"a", "b", "Z", "_", "\xc3\xa9", "\xe4\xb8\xad", "x"};
    static const char* rest[] = {"a", "1", "-", ".", "_", ":b", "\xc3\xa9"};
    str s = first[rng.upto(7)];
    bool colon = false;
    for (int n = rng.upto(rng.chance(1, 20) ? 80 : 4); n > 0; n--) { int i = rng.upto(7); if (i == 5) { if (colon) continue; colon = true; } s += rest[i]; }
    return s;
}
static str chars(int max)
{
    str s;
    for (int n = rng.upto(max + 1); n > 0; n--) switch (rng.upto(8)) {
        case 0: s += "&<>'\""[rng.upto(5)]; break;
        case 1: s += utf8(); break;
        case 2: s += " \t\n\r "[rng.upto(5)]; break;
        case 3: s += "]"; break;
        default: s += char(rng.in(33, 126));
    }
    size_t p;
    while ((p = s.find("]]")) != str::npos) s[p] = '-';
    return s;
}
static str someText()
{
    switch (rng.upto(10)) {
    case 0: return str(rng.in(1, 3), ' ');
    case 1: return "abcd";
    case 2: return chars(rng.in(20, 200));
    case 3: return rng.chance(1, 4) ? str(rng.in(1000, 9000), 'x') + chars(3) : str("text");
    case 4: return "data";
    default: return chars(8);
    }
}
static EP element(int depth, int width)
{
    EP e = std::make_shared<El>();
    e->name = name();
    for (int n = rng.chance(1, 2) ? 0 : rng.upto(4); n > 0; n--) {
        str k = name();
        bool dup = false;
        for (auto& a : e->attr) dup |= a.first == k;
        if (!dup) e->attr.push_back({k, rng.chance(1, 15) ? chars(100) : chars(8)});
    }
    int n = rng.chance(1, 4) ? 0 : rng.upto(width + 1);
    for (int i = 0; i < n; i++) {
        Child c;
        if (depth > 0 && rng.chance(1, 2)) c.el = element(depth - 1, width);
        else c.text = someText();
        e->kid.push_back(c);
    }
    return e;
}
static EP tree()
{
    if (rng.chance(1, 150)) {
        // many children
        EP top = element(0, 1);
        for (int i = rng.in(100, 1500); i > 0; i--) top->kid.push_back({"", element(0, 2)});
        return top;
    }
    if (rng.chance(1, 150)) {
        EP top = element(0, 1), at = top;
        for (int i = rng.in(50, 400); i > 0; i--) { EP n = element(0, 2); at->kid.push_back({"", n}); at = n; }
        return top;
    }
    return element(rng.upto(4), rng.chance(1, 20) ? 12 : 4);
}
static str noBreaks(str s) { s.erase(std::remove(s.begin(), s.end(), '\n'), s.end()); return s; }
// text pieces joined, line breaks and empty pieces dropped
static str normal(const EP& e)
{
    str r = "<" + show(e->name, 1000);
    for (auto& a : e->attr) r += " " + a.first + "=\"" + show(a.second, 20000) + "\"";
    r += ">";
    str t;
    auto flush = [&] { t = noBreaks(t); if (!t.empty()) r += "'" + show(t, 20000) + "'"; t = ""; };
    for (auto& k : e->kid) { if (k.el) { flush(); r += normal(k.el); } else t += k.text; }
    flush();
    return r + "</>";
}
static str quoteRef(unsigned char c) { return rng.chance(1, 2) ? fmt("&#%d;", c) : fmt("&#x%x;", c); }
static str escape(const str& s, bool attr, char quote)
{
    str r;
    for (size_t i = 0; i < s.size(); i++) {
        unsigned char c = s[i];
        bool must = c == '&' || c == '<' || c == '\r' || (!attr && c == '>' && (!i || s[i - 1] == ']')) || (attr && (c == quote || c == '\n' || c == '\t'));
        if (must || (c < 127 && rng.chance(1, 10) && c != ' ' && c != '\n')) {
            static const struct { char c; const char* e; } ent[] = {{'&', "&amp;"}, {'<', "&lt;"}, {'>', "&gt;"}, {'\'', "&apos;"}, {'"', "&quot;"}};
            const char* e = 0;
            for (auto& x : ent) if (x.c == c) e = x.e;
            r += e && rng.chance(1, 2) ? str(e) : quoteRef(c);
        }
        else r += c;
    }
    return r;
}
static str sp(bool need) { static const char* s[] = {" ", "  ", "\n", "\t", "\n  ", " \r\n"}; return need || rng.chance(1, 6) ? s[rng.chance(1, 2) ? 0 : rng.upto(6)] : ""; }
static str document(const EP& e)
{
    str r = "<" + e->name;
    for (auto& a : e->attr) { char q = rng.chance(1, 2) ? '"' : '\''; r += sp(true) + a.first + sp(false) + "=" + sp(false) + q + escape(a.second, true, q) + q; }
    r += sp(false);
    bool any = false;
    for (auto& k : e->kid) any |= k.el || !k.text.empty();
    if (!any && rng.chance(1, 2)) return r + "/>";
    r += ">";
    for (auto& k : e->kid) r += k.el ? document(k.el) : escape(k.text, false, 0);
    return r + "</" + e->name + sp(false) + ">";
}
static str prolog() { static const char* p[] = {"", "<?xml version=\"1.0\"?>\n", "<?xml version='1.0' encoding='UTF-8'?>", "<?xml version=\"1.0\" encoding=\"utf-8\" standalone=\"yes\"?>\n\n"}; int i = rng.upto(4); return p[i]; }

// the tree as the library holds it
static str held(var v, str d, int depth = 0)
{
    if (!(v.atype<var>() && v.size() == 4)) fail("xml.shape", d + ": an element is " + vh::canon(v).substr(0, 300));
    var nm = v[lu::NAME], at = v[lu::ATTR], data = v[lu::DATA], ty = v[lu::TYPE];
    if (!(isString(nm))) fail("xml.shape", d + ": a name is " + vh::canon(nm).substr(0, 200));
    if (!(isString(ty) && text(ty) == "text")) fail("xml.shape", d + ": the type of an element is " + vh::canon(ty).substr(0, 200));
    str r = "<" + show(text(nm), 1000);
    if (at.defined()) {
        if (!(at.atype<lu::pair>())) fail("xml.shape", d + ": attributes are " + vh::canon(at).substr(0, 200));
        for (int i = 0; i < at.size(); i++) {
            var k = at.key(i), a = at.at(i);
            if (!(isString(k) && isString(a))) fail("xml.shape", d + ": attributes are " + vh::canon(at).substr(0, 200));
            r += " " + text(k) + "=\"" + show(text(a), 20000) + "\"";
        }
    }
    r += ">";
    str t;
    auto flush = [&] { t = noBreaks(t); if (!t.empty()) r += "'" + show(t, 20000) + "'"; t = ""; };
    if (data.defined()) {
        if (!(data.atype<var>())) fail("xml.shape", d + ": content is " + vh::canon(data).substr(0, 200));
        for (int i = 0; i < data.size(); i++) {
            var c = data.at(i);
            if (isString(c)) t += text(c);
            else { flush(); r += held(c, d, depth + 1); }
        }
    }
    flush();
    return r + "</>";
}
// attribute order of a map is by key
static void sorted(const EP& e)
{
    std::sort(e->attr.begin(), e->attr.end());
    for (auto& k : e->kid) if (k.el) sorted(k.el);
}
static var make(const EP& e)
{
    var v;
    bool order = rng.chance(1, 2);
    if (order) { v[lu::DATA] = lu::nil; v[lu::NAME] = lu::nil; v[lu::ATTR] = lu::nil; v[lu::TYPE] = "text"; }
    v[lu::NAME] = S(e->name);
    for (auto& a : e->attr) v[lu::ATTR][S(a.first)] = S(a.second);
    if (!v[lu::ATTR].defined()) v[lu::ATTR] = lu::nil;
    var d;
    for (auto& k : e->kid) { if (k.el) d.push(make(k.el)); else d.push(S(k.text)); }
    if (e->kid.size() == 1) { var one; one.resize(1); one.at(0) = d.at(0); d = one; }
    v[lu::DATA] = d;
    v[lu::TYPE] = "text";
    return v;
}

VH_CASE_W(xml_read, 3)
{
    EP e = tree();
    str doc = prolog() + document(e) + sp(false);
    str d = "XML \"" + show(doc, 900) + "\"";
    note(d);
    distinct(doc);
    if (rng.chance(1, 60)) sample(d.substr(0, 300));
    sorted(e);
    str want = normal(e), f = put(doc);
    lu::filemodule m("xml");
    lu::file& h = m.create();
    var r, name = S(f);
    if (getenv("DUMP")) std::ofstream("/tmp/dump.xml") << doc;
    mustWork("xml.read", d, [&] { r = h.read(name); });
    str got = held(r, d);
    check(got == want, "xml.tree", d + ": gives " + got.substr(0, 700) + ", should be " + want.substr(0, 700));
    ev("documents");
    ev("elements", std::count(want.begin(), want.end(), '<') / 2);
    if (want.find("=\"") != str::npos) ev("attributes");
    // written and read again
    str g = path();
    var back;
    mustWork("xml.write", d, [&] { h.write(S(g), r); });
    check(held(r, d) == want, "xml.writechanged", d + ": writing changed the tree");
    mustWork("xml.readback", d, [&] { back = (rng.chance(1, 2) ? h : m.create()).read(S(g)); });
    got = held(back, d);
    check(got == want, "xml.roundtrip", d + ": written and read again gives " + got.substr(0, 700) + ", should be " + want.substr(0, 700));
    ev("round_trips");
}

VH_CASE_W(xml_write, 3)
{
    EP e = tree();
    sorted(e);
    str want = normal(e), d = "tree " + want.substr(0, 900), f = path();
    note(d);
    distinct(want);
    var v = make(e), r;
    str before = vh::canon(v);
    lu::filemodule m("xml");
    lu::file& h = m.create();
    mustWork("xml.write", d, [&] { h.write(S(f), v); });
    check(vh::canon(v) == before, "xml.writechanged", d + ": writing changed the tree");
    mustWork("xml.readback", d, [&] { r = h.read(S(f)); });
    str got = held(r, d);
    check(got == want, "xml.roundtrip", d + ": written and read gives " + got.substr(0, 700));
    ev("written");
    if (rng.chance(1, 8)) {
        var bad = rng.chance(1, 2) ? var("text") : rng.chance(1, 2) ? var(4) : lu::nil;
        mustThrow("xml.writebad", "writing " + vh::canon(bad), [&] { h.write(S(f), bad); });
        mustThrow("xml.writepath", "writing below a path that does not exist", [&] { h.write(S(scratch() + "/no/such/x.xml"), v); });
        mustThrow("xml.full", d + " written to a device that is full", [&] { h.write(S("/dev/full"), v); });
        struct stat st;
        long room = stat(f.c_str(), &st) ? 0 : rng.upto(st.st_size);
        mustThrow("xml.full", d + fmt(" written where only %ld bytes fit", room), [&] { FullDisk full(room); h.write(S(f), v); });
        ev("disk_full");
        ev("write_rejected");
    }
}

// several documents: no tree influences another
VH_CASE_W(xml_several, 1)
{
    int n = rng.in(2, 5);
    std::vector<str> want;
    std::vector<var> got;
    lu::filemodule m("xml");
    lu::file& a = m.create();
    lu::file& b = m.create();
    str d = fmt("%d documents:", n);
    for (int i = 0; i < n; i++) {
        EP e = element(2, 3);
        str doc = prolog() + document(e);
        d += " \"" + show(doc, 300) + "\"";
        note(d);
        sorted(e);
        str f = put(doc);
        if (rng.chance(1, 6)) { str bad = put("<a><b>text"); mustThrow("xml.accepted", "a truncated document", [&] { a.read(S(bad)); }); }
        var r;
        mustWork("xml.read", d, [&] { r = (rng.chance(1, 2) ? a : b).read(S(f)); });
        want.push_back(normal(e));
        got.push_back(r);
        // use one of the trees
        int k = rng.upto(got.size());
        if (rng.chance(1, 3)) {
            EP c = element(0, 1);
            sorted(c);
            got[k][lu::DATA] = lu::nil;
            got[k][lu::DATA].push(S("new text"));
            got[k][lu::NAME] = "renamed";
            got[k][lu::ATTR] = lu::nil;
            got[k][lu::ATTR]["k"] = "v";
            want[k] = "<" + show("renamed") + " k=\"" + show("v") + "\">'" + show("new text") + "'</>";
        }
        for (size_t j = 0; j < got.size(); j++) {
            str h = held(got[j], d);
            check(h == want[j], "xml.disturbed", d + fmt(": document %d is now ", int(j)) + h.substr(0, 500) + ", should be " + want[j].substr(0, 500));
        }
    }
    distinct(d);
    ev("kept_apart", n);
}

VH_CASE_W(xml_reject, 1)
{
    EP e = element(rng.upto(3), 3);
    str doc = document(e), bad, pro = prolog();
    int k = rng.upto(9);
    switch (k) {
    case 0: case 1: bad = (pro + doc).substr(0, pro.size() + rng.upto(doc.size())); break;          // truncated
    case 2: bad = pro + doc + document(element(0, 1)); break;                    // two roots
    case 3: bad = pro + doc + "text"; break;
    case 4: bad = pro + "text" + doc; break;
    case 5: bad = pro + "<r>" + doc + "</s>"; break;                             // wrong end tag
    case 6: bad = pro + "<r a='1' a='2'>" + doc + "</r>"; break;                 // attribute twice
    case 7: { static const char* in[] = {"&nosuch;", "& ", "<", "]]>", "\x01", "\xff", "&#0;", "<a b=c/>", "<a b='c'd='e'/>", "<1/>", "<a b/>", "</r>", "<a b='<'/>"}; int i = rng.upto(13); bad = pro + "<r>" + in[i] + doc + "</r>"; break; }
    default: bad = rng.chance(1, 2) ? pro : str(" \n"); break;
    }
    str d = fmt("malformed (%d) XML \"", k) + show(bad, 800) + "\"";
    note(d);
    distinct(bad);
    lu::filemodule m("xml");
    lu::file& h = m.create();
    var r = "before", o;
    int fds = openFds();
    str f = put(bad);
    mustThrow("xml.accepted", d, [&] { r = h.read(S(f)); });
    check(text(r) == "before", "xml.assigned", d + ": a value was assigned");
    str g = put(doc);
    mustWork("xml.after", d, [&] { o = h.read(S(g)); });
    sorted(e);
    check(held(o, d) == normal(e), "xml.after", d + ": the next document reads as " + held(o, d).substr(0, 500));
    if (rng.chance(1, 10)) mustThrow("xml.missing", "a file that does not exist", [&] { h.read(S(scratch() + "/absent.xml")); });
    check(openFds() == fds, "xml.fd", d + ": a file is left open");
    ev("malformed");
}

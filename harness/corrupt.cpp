// C29: any bytes as an input file.
#include "model.h"
#include <fstream>
#include <ctime>
using namespace vh;
using namespace md;

enum { TXT, INI, XML, GED, SND, JSON, KINDS };
static const char* kinds[] = {"txt", "ini", "xml", "ged", "snd", "json"};
static str path() { static int n = 0; return scratch() + fmt("/c%d", n++ % 4); }
static str put(const str& c) { str f = path(); std::ofstream(f, std::ios::binary) << c; return f; }
static str word() { str s; for (int n = rng.in(1, 8); n > 0; n--) { int i = rng.upto(12); s += i < 11 ? str(1, "abcXYZ019 ."[i]) : str("\xc3\xa9"); }; return s; }

static str json(int depth)
{
    str r;
    int k = rng.upto(depth > 0 ? 8 : 5), n = rng.upto(5);
    switch (k) {
    case 0: return fmt("%d", rng.in(-1000, 1000));
    case 1: return fmt("%.*e", rng.upto(18), rng.sym() * 1e10);
    case 2: { static const char* w[] = {"true", "false", "null"}; int i = rng.upto(3); return w[i]; }
    case 3: case 4: return "\"" + word() + (rng.chance(1, 2) ? "\\n\\u00e9\\\\\\\"" : "") + "\"";
    case 5: case 6: r = "["; for (int i = 0; i < n; i++) r += (i ? ", " : "") + json(depth - 1); return r + "]";
    default: r = "{"; for (int i = 0; i < n; i++) r += (i ? "," : "") + fmt("\"k%d\": ", i) + json(depth - 1); return r + "}";
    }
}
static str xml(int depth)
{
    str n = str(1, "abZ_"[rng.upto(4)]), r = "<" + n;
    for (int i = rng.upto(3); i > 0; i--) r += fmt(" k%d=\"", i) + word() + "&amp;\"";
    if (rng.chance(1, 5)) return r + "/>";
    r += ">";
    for (int i = rng.upto(4); i > 0; i--) r += depth > 0 && rng.chance(1, 2) ? xml(depth - 1) : word() + (rng.chance(1, 3) ? "&lt;&#65;\n" : "");
    return r + "</" + n + ">";
}
static str valid(int kind)
{
    str r;
    int n = rng.upto(8);
    switch (kind) {
    case TXT: for (int i = 0; i < n; i++) r += word() + "\n"; return r;
    case INI: for (int i = 0; i < n; i++) r += rng.chance(1, 3) ? "[" + word() + "]\n" : rng.chance(1, 5) ? "; " + word() + "\n" : "k" + word() + (rng.chance(1, 2) ? "=" : ":") + word() + "\n"; return r;
    case XML: return (rng.chance(1, 2) ? "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n" : "") + xml(4);
    case GED:
        r = "0 HEAD\n1 SOUR x\n2 VERS 1\n";
        for (int i = 0; i < n; i++) {
            if (rng.chance(2, 3)) {
                r += fmt("0 @I%d@ INDI\n", i);
                static const char* l[] = {"1 NAME A /B/\n2 GIVN A\n", "1 SEX M\n", "1 TITL Dr\n", "1 BIRT\n2 DATE 1900\n3 NOTE x\n2 PLAC y\n", "1 NOTE n\n2 CONT m\n2 CONC o\n", "1 FAMS @F1@\n", "1 CONT z\n", "1 OCCU x\n", "1 _X\n2 _Y\n"};
                for (int k = rng.upto(5); k > 0; k--) { int j = rng.upto(9); r += l[j]; }
            }
            else {
                r += fmt("0 @F%d@ FAM\n", i);
                for (int k = rng.upto(5); k > 0; k--) { static const char* l[] = {"1 HUSB", "1 WIFE", "1 CHIL"}; int j = rng.upto(4); r += j == 3 ? str("1 MARR\n2 DATE 1\n") : str(l[j]) + fmt(" @I%d@\n", rng.upto(8)); }
            }
        }
        return r + "0 TRLR\n";
    case SND: {
        auto le = [](unsigned v, int k) { str s; for (int i = 0; i < k; i++) s += char(v >> 8 * i); return s; };
        int ch = rng.in(1, 4), fr = rng.upto(60);
        str d;
        for (int i = 0; i < ch * fr * 2; i++) d += char(rng.upto(256));
        str body = "WAVEfmt " + le(16, 4) + le(1, 2) + le(ch, 2) + le(8000, 4) + le(8000 * ch * 2, 4) + le(ch * 2, 2) + le(16, 2) + "data" + le(d.size(), 4) + d;
        return "RIFF" + le(body.size(), 4) + body;
    }
    default: return json(4);
    }
}
static str token(int kind)
{
    static const std::vector<strs> t = {
        {"\n", "\n\n", str(3, '\0'), str(100, 'x')},
        {"[", "]", "=", ":", "\n", "[]", ";", "#", "=\n", " = ", "\xff", str(2, '\0')},
        {"<", ">", "&", "</a>", "<a>", "<a", "/>", "\"", "<!--", "-->", "<![CDATA[", "]]>", "<!DOCTYPE a [<!ENTITY e \"eee\">]>", "&e;", "<?pi?>", "&#0;", "&#x110000;", "\xff\xfe", "\xef\xbb\xbf", "<?xml version=\"1.0\" encoding=\"UTF-16\"?>", "encoding=\"ISO-8859-1\"", str(1, '\0'), " xmlns:a=\"b\""},
        {"0 ", "1 ", "2 ", "9 ", "-1 ", "0 @I1@ INDI\n", "0 @F1@ FAM\n", "1 HUSB\n", "1 CHIL\n", "1 CHIL @F1@\n", "0\n", "\n", " ", "1\n", "0 @I1@\n", "0 @\n", "0 TRLR\n", "1 BIRT\n", "2\n", "1 CONT\n", "1 CONC x\n", "99999999999 X\n", "x NAME y\n", "0 @I1@ SUBM\n", "0 INDI\n", "\xef\xbb\xbf", "1 NAME\n", "0 HEAD\n", "  1 SEX F\n", "1.5 SEX\n", "\r\n", str(1, '\0')},
        {"data", "fmt ", "RIFX", "LIST", str(4, '\xff'), str(4, '\0'), "RF64", "\xff\x7f", "\x10\x01", "fact"},
        {"{", "}", "[", "]", ",", ":", "\"", "\\", "\\u", "\\ud800", "\\ud83d\\ude00", "1e999", "-", "0x1", "truefalse", "nul", str(1, '\0'), "\xff", "1.", ".5", "[[[[", "{\"a\":", "NaN", "99999999999999999999"},
    };
    return t[kind][rng.upto(t[kind].size())];
}
static str mutate(int kind, str s)
{
    for (int n = rng.in(1, rng.chance(1, 4) ? 10 : 2); n > 0; n--) {
        size_t at = s.empty() ? 0 : rng.upto(s.size() + 1), len = rng.chance(1, 2) ? rng.upto(4) : rng.upto(40);
        switch (rng.upto(10)) {
        case 0: s = s.substr(0, at); break;                                        // cut short
        case 1: s.erase(at, len); break;
        case 2: if (!s.empty()) s[at % s.size()] ^= 1 << rng.upto(8); break;
        case 3: if (!s.empty()) s[at % s.size()] = char(rng.upto(256)); break;
        case 4: { str o = valid(kind); size_t b = o.empty() ? 0 : rng.upto(o.size()); s = s.substr(0, at) + o.substr(b); break; }   // splice
        case 5: s.insert(at, s.substr(rng.upto(s.size() + 1), len)); break;        // repeat a part
        case 6: if (s.size() > at + 4) for (int i = 0; i < 4; i++) s[at + i] = char(rng.chance(1, 2) ? 255 : 0); break;
        default: s.insert(at, token(kind)); break;
        }
    }
    if (rng.chance(1, 60)) {                                          // deep or long
        str r;
        int n = rng.in(100, 3000);
        str t = token(kind);
        for (int i = 0; i < n && r.size() < 20000; i++) r += t;
        s.insert(rng.upto(s.size() + 1), r);
    }
    return s;
}
static double cpu() { struct timespec t; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void normal(const str& d, var r)
{
    str c = vh::canon(r), c2;
    var k;
    mustWork("corrupt.value", d + ": using the value", [&] {
        std::ostringstream os;
        os << r;
        k = r.copy();
        lu::varstream vs;
        vs << k;
        c2 = vh::canon(k);
    });
    check(c == c2 && vh::canon(r) == c, "corrupt.value", d + ": a copy of the value differs: " + c.substr(0, 200) + " and " + c2.substr(0, 200));
}

static void corrupt(int kind)
{
    str content;
    if (rng.chance(1, 12)) for (int n = rng.upto(rng.chance(1, 4) ? 3000 : 40); n > 0; n--) content += char(rng.upto(256));
    else if (rng.chance(1, 12)) for (int n = rng.upto(30); n > 0; n--) content += token(kind);
    else content = mutate(kind, valid(kind));
    str d = str(kinds[kind]) + " file \"" + show(content, 1200) + "\"";
    note(d);
    distinct(d);
    if (rng.chance(1, 100)) sample(d.substr(0, 300));
    std::unique_ptr<lu::filemodule> m;
    lu::file* h = 0;
    if (kind != JSON) { m.reset(new lu::filemodule(kinds[kind])); h = &m->create(); }
    for (int round = 0; round < 2; round++) {
        str f = put(content);
        int fds = openFds();
        bool ok = false;
        double t = cpu();
        {
            var r;
            ok = !throws("corrupt.exception", d, [&] {
                if (kind == JSON) { std::ifstream is(f, std::ios::binary); std::istringstream ss(content); if (rng.chance(1, 2)) ss >> r; else is >> r; }
                else r = h->read(S(f));
            });
            t = cpu() - t;
            check(t < 10, "corrupt.slow", d + fmt(": reading took %.1f s", t));
            if (ok) normal(d, r);
        }
        check(openFds() == fds, "corrupt.fd", d + ": a file is left open");
        ev(ok ? "values" : "exceptions");
        if (kind == JSON || !rng.chance(1, 3)) break;
        // the handler remains of use
        str g = valid(kind), q = put(g);
        var r, w;
        mustWork("corrupt.after", d + ": a good file afterwards \"" + show(g, 500) + "\"", [&] { r = h->read(S(q)); });
        lu::filemodule m2(kinds[kind]);
        w = m2.create().read(S(q));
        check(vh::canon(r) == vh::canon(w), "corrupt.after", d + ": a good file afterwards reads differently");
        ev("recovered");
    }
    ev(kinds[kind]);
}

VH_CASE_W(corrupt_txt, 1) { corrupt(TXT); }
VH_CASE_W(corrupt_ini, 2) { corrupt(INI); }
VH_CASE_W(corrupt_xml, 4) { corrupt(XML); }
VH_CASE_W(corrupt_ged, 4) { corrupt(GED); }
VH_CASE_W(corrupt_snd, 3) { corrupt(SND); }
VH_CASE_W(corrupt_json, 4) { corrupt(JSON); }

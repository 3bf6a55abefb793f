// C21: text and INI files.
#include "model.h"
#include <fstream>
#include <sstream>
#include <sys/stat.h>
#include <unistd.h>
using namespace vh;
using namespace md;

static lu::file& handler(lu::filemodule& m) { return m.create(); }
static str put(const str& content)
{
    static int n = 0;
    str f = scratch() + fmt("/t%d", n++ % 4);
    std::ofstream(f, std::ios::binary) << content;
    return f;
}
static str soup(const char* a, int max) { str s; int l = strlen(a); for (int n = rng.upto(max + 1); n > 0; n--) s += a[rng.upto(l)]; return s; }
static bool space(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static str stripped(const str& s) { size_t a = 0, b = s.size(); while (a < b && space(s[a])) a++; while (b > a && space(s[b - 1])) b--; return s.substr(a, b - a); }
static str rawLine()
{
    str l;
    switch (rng.upto(6)) {
    case 0: break;
    case 1: for (int n = rng.upto(30); n > 0; n--) l += char(rng.in(1, 255)); break;
    case 2: l = str((1 << rng.in(4, rng.chance(1, 4) ? 14 : 9)) - rng.in(-1, 2), char('k' + rng.upto(16))); break;
    case 3: l = str(rng.in(60, 70), 'a') + soup("xyz", 4); break;
    default: l = soup("ab \t\r,\xc3\xa9", 30);
    }
    if (rng.chance(1, 400)) l = str(rng.in(4000, 70000), char('a' + rng.upto(26))) + l;
    if (!l.empty() && rng.chance(1, 20)) l[rng.upto(l.size())] = 0;
    for (char& c : l) if (c == '\n') c = ' ';
    return l;
}

VH_CASE_W(txt_lines, 3)
{
    int n = rng.chance(1, 200) ? rng.in(300, 3000) : rng.chance(1, 20) ? rng.in(20, 200) : rng.upto(7);
    strs lines;
    str all;
    for (int i = 0; i < n; i++) { lines.push_back(rawLine()); all += lines[i] + "\n"; }
    bool final = n == 0 || lines.back().empty() || rng.chance(1, 2);
    if (!final) all.pop_back();
    str f = put(all), d = "text file \"" + show(all, 500) + "\"";
    note(d);
    distinct(all);
    if (rng.chance(1, 60)) sample(d.substr(0, 300));
    lu::filemodule m("txt");
    lu::file& h = handler(m);
    var r, again, name = S(f);
    mustWork("txt.read", d, [&] { r = h.read(name); });
    check(text(name) == f, "txt.name", d + ": the file name was changed");
    auto verify = [&](var v, const char* key) {
        check(v.size() == n, key, d + fmt(": gives %d lines: ", v.size()) + vh::canon(v).substr(0, 300));
        for (int i = 0; i < n; i++) { var e = v[i]; check(isString(e) && text(e) == lines[i], key, d + fmt(": line %d is ", i) + vh::canon(e).substr(0, 300)); }
        check(n == 0 || v.atype<var>(), key, d + ": not an array of lines");
    };
    verify(r, "txt.lines");
    // lines are strings of their own, and reads are independent
    mustWork("txt.read", d, [&] { again = (rng.chance(1, 2) ? h : handler(m)).read(name); });
    if (n) { again[rng.upto(n)] = "changed"; verify(r, "txt.shared"); int k = rng.upto(n); again[k].push('x'); verify(r, "txt.shared"); }
    std::ifstream in(f, std::ios::binary);
    str now((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
    check(now == all, "txt.file", d + ": reading changed the file");
    ev("lines", n);
    if (!final) ev("no_final_newline");
}

struct Ini { std::vector<std::pair<str, std::vector<std::pair<str, str>>>> s; };
static void assign(Ini& m, const str& sec, const str& k, const str& v)
{
    for (auto& s : m.s) if (s.first == sec) { for (auto& e : s.second) if (e.first == k) { e.second = v; return; } s.second.push_back({k, v}); return; }
    m.s.push_back({sec, {{k, v}}});
}
static str blank() { static const char* b[] = {"", "", "", " ", "\t", "  ", "\r", " \v"}; int i = rng.upto(8); return b[i]; }
static str word(const char* alphabet, int max)
{
    return soup(alphabet, max);
}

VH_CASE_W(ini_settings, 4)
{
    Ini want;
    str all, sec;
    int n = rng.chance(1, 300) ? rng.in(200, 1000) : rng.chance(1, 20) ? rng.in(20, 100) : rng.upto(12);
    long sections = 0, comments = 0, settings = 0, again = 0;
    strs names = {"", "A", "Sect ion", "b]c"};
    strs keys = {"k", "key", "K", "a b"};
    { static const char* odd[] = {"//k", "'k", "\"k\"", "!k", "*", "--k", "k;", "k#1", "]", "\\", "$(k)", "0", "%k", "@k"}; for (int i = rng.upto(3); i > 0; i--) { int j = rng.upto(14); keys.push_back(odd[j]); } }
    for (int i = rng.upto(3); i > 0; i--) names.push_back(word("abc .\xe9", 8));
    for (int i = rng.upto(6); i > 0; i--) keys.push_back(word("abcdef [];#.\xe9", 8));
    for (int i = 0; i < n; i++) {
        int k = rng.upto(10);
        str l;
        if (k == 0) { l = blank() + blank(); comments++; }
        else if (k == 1) { l = blank() + (rng.chance(1, 2) ? ";" : "#") + soup("ab=[]: ", 12); comments++; }
        else if (k < 4) {
            str name = rng.pick(names);
            l = blank() + "[" + name + "]" + (rng.chance(1, 6) ? soup(" ;#x=]", 5) : str()) + blank();
            sec = name.substr(0, name.find(']'));
            sections++;
        }
        else {
            bool eq = rng.chance(2, 3);
            str key = rng.pick(keys), v = soup(eq ? "ab1 =:;#[]\"\xe9\t" : "ab1 :;#[]\"\xe9\t", rng.chance(1, 15) ? 200 : 12);
            if (eq && rng.chance(1, 8)) key += ":" + word("ab", 3);
            str sk = stripped(key);
            // a line that begins as a comment or section is one
            if (!sk.empty() && strchr(";#[", sk[0])) { key = "x" + key; sk = stripped(key); }
            l = blank() + key + blank() + (eq ? "=" : ":") + blank() + v + blank();
            bool had = false;
            for (auto& s : want.s) if (s.first == sec) for (auto& e : s.second) had |= e.first == sk;
            if (had) again++;
            assign(want, sec, sk, stripped(v));
            settings++;
        }
        all += l;
        if (i + 1 < n || rng.chance(1, 2)) all += "\n";
    }
    str f = put(all), d = "INI file \"" + show(all, 600) + "\"";
    note(d);
    distinct(all);
    if (rng.chance(1, 60)) sample(d.substr(0, 300));
    lu::filemodule m("ini");
    lu::file& h = handler(m);
    var r, name = S(f);
    mustWork("ini.read", d, [&] { r = h.read(name); });
    if (rng.chance(1, 3)) {
        // a second read neither sees nor disturbs the first
        var x;
        mustWork("ini.read", d, [&] { x = h.read(name); });
        check(vh::canon(x) == vh::canon(r), "ini.again", d + ": the second read gives " + vh::canon(x).substr(0, 400));
        if (x.defined()) { x.at(0).at(0) = "changed"; x["new section"]["k"] = "v"; }
    }
    check(r.size() == int(want.s.size()), "ini.sections", d + fmt(": gives %d sections, should be %d: ", r.size(), int(want.s.size())) + vh::canon(r).substr(0, 400));
    for (auto& s : want.s) {
        var e;
        mustWork("ini.lookup", d, [&] { e = r[S(s.first)]; });
        check(e.size() == int(s.second.size()), "ini.keys", d + ": section \"" + show(s.first) + "\" is " + vh::canon(e).substr(0, 400));
        for (auto& kv : s.second) {
            var v = e[S(kv.first)];
            check(isString(v) && text(v) == kv.second, "ini.value", d + ": [" + show(s.first) + "] \"" + show(kv.first) + "\" is " + vh::canon(v).substr(0, 300) + ", should be \"" + show(kv.second) + "\"");
        }
        check(e.size() == int(s.second.size()), "ini.keys", d + ": looking up added a key");
    }
    check(r.size() == int(want.s.size()), "ini.sections", d + ": looking up added a section");
    ev("sections", sections); ev("comments", comments); ev("settings", settings);
    if (again) ev("reassigned", again);
}

VH_CASE(ini_reject)
{
    str good, bad;
    for (int i = rng.upto(4); i > 0; i--) good += rng.chance(1, 2) ? "[s]\n" : "k=v\n";
    switch (rng.upto(3)) {
    case 0: bad = blank() + "[" + soup("ab ;#=", 6); break;                     // section not closed
    case 1: bad = blank() + "x" + soup("ab [];#", 6); break;                     // neither = nor :
    default: bad = "word"; break;
    }
    str all = good + bad + (rng.chance(1, 2) ? "\n" : "") , d = "INI file \"" + show(all, 600) + "\"";
    if (all.back() == '\n') all += good;
    note(d);
    distinct(all);
    str f = put(all);
    lu::filemodule m("ini");
    lu::file& h = handler(m);
    var r = "before";
    mustThrow("ini.malformed", d, [&] { r = h.read(S(f)); });
    check(text(r) == "before", "ini.assigned", d + ": a value was assigned");
    // still of use
    str ok = put("a=b\n");
    mustWork("ini.after", d, [&] { r = h.read(S(ok)); });
    check(r.size() == 1 && text(r[""]["a"]) == "b", "ini.after", d + ": a later file reads as " + vh::canon(r).substr(0, 200));
    ev("malformed");
}

VH_CASE(txt_missing)
{
    bool ini = rng.chance(1, 2);
    str f = scratch() + (rng.chance(1, 2) ? "/absent" : "/no/such/dir/file");
    if (rng.chance(1, 6)) f = "";
    str d = str(ini ? "INI" : "text") + " file " + f;
    note(d);
    distinct(d);
    lu::filemodule m(ini ? "ini" : "txt");
    lu::file& h = handler(m);
    int fds = openFds();
    mustThrow("missing.accepted", d, [&] { h.read(S(f)); });
    check(openFds() == fds, "missing.fd", d + ": a file is left open");
    ev("missing");
}

// Writing puts the printed form of each element on a line of its own.
VH_CASE(written)
{
    bool ini = rng.chance(1, 2);
    int n = rng.chance(1, 6) ? 0 : rng.in(1, 6);
    var v;
    v.array();
    v.resize(0);
    strs want;
    bool dense = n > 1 && rng.chance(1, 4);
    for (int i = 0; i < n; i++) {
        MV m;
        if (dense) m = numVal(randNum(TYPE_INT)); else do m = randVal(2); while (m.k == MV::NIL);
        var e = build(m);
        v.push(e);
    }
    if (dense) { v = build(numVal(randNum(TYPE_INT))); v.array(); for (int i = 1; i < n; i++) v.push(int(rng.next())); }
    for (int i = 0; i < v.size(); i++) { std::ostringstream s; var e; e = v.at(i); s << e; want.push_back(s.str()); }
    bool bad = rng.chance(1, 8);
    str f = bad ? scratch() + "/no/such/folder" : put(rng.chance(1, 2) ? "what was there before, which was rather a lot longer\n\n" : "");
    str d = str(ini ? "INI" : "text") + " file written from " + vh::canon(v).substr(0, 400), before = vh::canon(v);
    note(d);
    distinct(d);
    lu::filemodule m(ini ? "ini" : "txt");
    lu::file& h = handler(m);
    var name = S(f);
    int fds = openFds();
    if (bad) { mustThrow("write.accepted", d + " to a folder that is not there", [&] { h.write(name, v); }); ev("unwritable"); }
    else if (want.size() && rng.chance(1, 8)) { mustThrow("write.full", d + " to a device that is full", [&] { h.write(S("/dev/full"), v); }); ev("device_full"); }
    else {
        mustWork("write.work", d, [&] { h.write(name, v); });
        std::ifstream in(f, std::ios::binary);
        str now((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>()), all;
        for (auto& s : want) all += s + "\n";
        check(now == all, "write.content", d + ": holds \"" + show(now, 400) + "\", should be \"" + show(all, 400) + "\"");
        if (now.size() && rng.chance(1, 4)) {
            long room = rng.upto(now.size());
            mustThrow("write.full", d + fmt(" where only %ld bytes fit", room), [&] { FullDisk full(room); h.write(name, v); });
            ev("disk_full");
        }
        ev("written");
    }
    check(text(name) == f, "write.name", d + ": the file name was changed");
    check(vh::canon(v) == before, "write.value", d + ": the value was changed");
    check(openFds() == fds, "write.fd", d + ": a file is left open");
}

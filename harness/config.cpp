// C25: command line options and configuration.
#include "model.h"
#include <fstream>
#include <sstream>
#include <unistd.h>
#include <lube/config.h>
using namespace vh;
using namespace md;

// Argument vectors are in storage that outlives the call: getopt() keeps a
// pointer to where it got to.
struct Args {
    static char pool[32][20000];
    static char* vec[32][512];
    int argc;
    char** argv;
    Args(const strs& a) {
        static int n = 0;
        int k = n++ % 32;
        char* p = pool[k];
        argc = a.size();
        argv = vec[k];
        for (int i = 0; i < argc; i++) { argv[i] = p; memcpy(p, a[i].c_str(), a[i].size() + 1); p += a[i].size() + 1; }
        argv[argc] = 0;
    }
};
char Args::pool[32][20000];
char* Args::vec[32][512];

static str list(const strs& v) { str r; for (auto& s : v) r += " '" + show(s) + "'"; return r; }
static str word()
{
    switch (rng.upto(6)) {
    case 0: return "";
    case 1: return "-";
    case 2: return fmt("%d", rng.in(-5, 500));
    case 3: { str s; for (int n = rng.in(1, 12); n > 0; n--) s += char(rng.in(1, 255)); return s; }
    default: { str s; for (int n = rng.in(1, 10); n > 0; n--) s += "abcxyz=-. :"[rng.upto(11)]; return s; }
    }
}
// an argument that is no option
static str plain() { str s = word(); while (s.size() > 1 && s[0] == '-') s.erase(0, 1); if (s == "-" || s.empty()) return s; return s; }

struct Decl { char c; bool arg, optional; };
struct Seen { char c; bool has; str arg; };
// builds a command line from what should be found in it
static strs compose(const std::vector<Decl>& decl, std::vector<Seen>& seen, strs& rest, bool bad = false)
{
    strs a = {"prog"};
    bool any = !decl.empty();
    for (int n = rng.chance(1, 15) ? rng.in(20, 60) : rng.upto(7); n > 0; n--) {
        if (!any || rng.chance(1, 3)) { str p = plain(); if (p == "--") continue; rest.push_back(p); a.push_back(p); continue; }
        str cl = "-";
        bool done = false;
        for (int k = rng.chance(1, 3) ? rng.in(2, 4) : 1; k > 0 && !done; k--) {
            if (bad && rng.chance(1, 6)) { char c = "wvWV78"[rng.upto(6)]; cl += c; seen.push_back({'?', false, ""}); ev("undeclared"); continue; }
            const Decl& d = decl[rng.upto(decl.size())];
            cl += d.c;
            Seen s{d.c, false, ""};
            if (d.arg) {
                done = true;
                str v = word();
                if (d.optional) {
                    if (v.size() && rng.chance(1, 2)) { s.has = true; s.arg = v; cl += v; }
                }
                else {
                    s.has = true;
                    s.arg = v;
                    if (v.size() && rng.chance(1, 2)) cl += v;
                    else { a.push_back(cl); cl = v; seen.push_back(s); a.push_back(cl); cl = ""; break; }
                }
            }
            seen.push_back(s);
        }
        if (cl.size()) a.push_back(cl);
        else { /* pushed already */ }
        // an empty separate argument leaves nothing more to add
    }
    if (rng.chance(1, 6)) {
        a.push_back("--");
        for (int n = rng.upto(4); n > 0; n--) { str p = rng.chance(1, 2) ? "-" + word() : rng.chance(1, 4) ? "--" : word(); rest.push_back(p); a.push_back(p); }
    }
    else if (bad && rng.chance(1, 4))
        // the last one lacks its argument
        for (auto& d : decl) if (d.arg && !d.optional) { a.push_back(str("-") + d.c); seen.push_back({'?', false, ""}); ev("without_argument"); break; }
    return a;
}
static std::vector<Decl> declare(bool optional)
{
    static const char letters[] = "abcdefxyzABCQ0123459_%=";
    std::vector<Decl> r;
    for (int n = rng.upto(7); n > 0; n--) {
        char c = letters[rng.upto(sizeof(letters) - 1)];
        bool dup = false;
        for (auto& d : r) dup |= d.c == c;
        if (dup) continue;
        bool arg = rng.chance(1, 2);
        r.push_back({c, arg, arg && optional && rng.chance(1, 3)});
    }
    return r;
}

VH_CASE_W(option_parse, 4)
{
    std::vector<Decl> decl = declare(false);
    std::vector<Seen> seen;
    strs rest, argv = compose(decl, seen, rest);
    str spec;
    for (auto& d : decl) spec += str(1, d.c) + (d.arg ? ":" : "");
    str d = "options \"" + spec + "\", command line" + list(argv);
    note(d);
    distinct(d);
    if (rng.chance(1, 60)) sample(d.substr(0, 300));
    Args a(argv);
    var r, rem, dflt[256];
    std::map<char, str> want;
    lu::Option o(var("A test"));
    mustWork("option.declare", d, [&] {
        if (rng.chance(1, 4)) o(var("A heading"));
        for (auto& x : decl) {
            if (!x.arg) { o(x.c, "a flag"); want[x.c] = "nil"; continue; }
            var& v = dflt[(unsigned char)x.c];
            switch (rng.upto(5)) { case 0: v = 0; break; case 1: v = rng.in(-9, 9); break; case 2: v = 2.5; break; case 3: v = ""; break; default: v = "default"; }
            o(x.c, "an option", v);
            want[x.c] = vh::canon(v);
        }
    });
    for (auto& s : seen) want[s.c] = s.has ? vh::canon(S(s.arg)) : vh::canon(var(1));
    mustWork("option.parse", d, [&] { r = o.parse(a.argc, a.argv); });
    for (auto& w : want) {
        var v, u;
        mustWork("option.lookup", d, [&] { v = o[w.first]; u = r[var(w.first)]; });
        check(vh::canon(v) == (w.second == "nil" ? vh::canon(lu::nil) : w.second), "option.value", d + fmt(": -%c is ", w.first) + vh::canon(v) + ", should be " + w.second);
        check(vh::canon(u) == vh::canon(v), "option.result", d + fmt(": -%c in the result is ", w.first) + vh::canon(u));
    }
    mustWork("option.args", d, [&] { rem = o.args(); });
    int n = rem.defined() ? rem.size() : 0;
    check(n == int(rest.size()), "option.args", d + ": arguments are " + vh::canon(rem).substr(0, 300) + ", should be" + list(rest));
    for (int i = 0; i < n; i++) { var e = rem.at(i); check(isString(e) && text(e) == rest[i], "option.args", d + fmt(": argument %d is ", i) + vh::canon(e).substr(0, 200) + ", should be '" + show(rest[i]) + "'"); }
    if (rng.chance(1, 3)) {
        // the help lists every option, what it is for and its default
        std::ostringstream help;
        auto* old = std::cout.rdbuf(help.rdbuf());
        try { o.usage(); } catch (...) { std::cout.rdbuf(old); throw; }
        std::cout.rdbuf(old);
        str h = help.str();
        size_t at = h.find("A test");
        check(at != str::npos && h.find("prog") != str::npos, "option.help", d + ": the help is \"" + show(h, 600) + "\"");
        for (auto& x : decl) {
            str line = str(" -") + x.c + (x.arg ? " an option" : " a flag");
            if (x.arg) { std::ostringstream s; s << dflt[(unsigned char)x.c]; line += " [" + s.str() + "]"; }
            at = h.find("\n" + line + "\n", at);
            check(at != str::npos, "option.help", d + fmt(": no line for -%c in the help \"", x.c) + show(h, 600) + "\"");
        }
        ev("helps");
    }
    ev("parsed"); ev("options", seen.size()); ev("arguments", rest.size());
    for (size_t i = 0; i < seen.size(); i++) for (size_t k = 0; k < i; k++) if (seen[i].c == seen[k].c) { ev("repeated"); break; }
    ev("defaults", decl.size() > seen.size() ? decl.size() - seen.size() : 0);
}

VH_CASE_W(option_loop, 2)
{
    std::vector<Decl> decl = declare(true);
    std::vector<Seen> seen;
    strs rest, argv = compose(decl, seen, rest, rng.chance(1, 3));
    str spec;
    for (auto& d : decl) spec += str(1, d.c) + (d.arg ? d.optional ? "::" : ":" : "");
    str d = "getopt string \"" + spec + "\", command line" + list(argv);
    note(d);
    distinct(d);
    Args a(argv);
    std::vector<Seen> got;
    var rem;
    opterr = 0;
    mustWork("option.loop", d, [&] {
        if (rng.chance(1, 4)) {
            // an earlier command line, abandoned somewhere
            Args b(strs{"prog", "-abab", "x", "-ba", "y"});
            lu::Option p(b.argc, b.argv, "ab");
            for (int k = rng.upto(8); k > 0 && p; k--);
            ev("abandoned");
        }
        lu::Option o(a.argc, a.argv, S(spec));
        while (o) {
            Seen s{char(o.get()), false, ""};
            const Decl* x = 0;
            for (auto& y : decl) if (y.c == s.c) x = &y;
            check(x || s.c == '?', "option.loop", d + fmt(": option '%c' was not declared", s.c));
            check(got.size() < seen.size(), "option.loop", d + ": too many options are found");
            if (!x) mustThrow("option.noarg", d + ": arg() of an option that is wrong", [&] { o.arg(); });
            else if (x->arg) {
                if (x->optional && !seen[got.size()].has) mustThrow("option.noarg", d + ": arg() without one", [&] { o.arg(); });
                else { s.has = true; var v = o.arg(); s.arg = text(v); }
            }
            got.push_back(s);
        }
        check(int(o.index()) == a.argc - int(rest.size()), "option.index", d + fmt(": index() is %d", int(o.index())));
        rem = o.args();
    });
    check(got.size() == seen.size(), "option.loop", d + fmt(": %d options are found, should be %d", int(got.size()), int(seen.size())));
    for (size_t i = 0; i < seen.size(); i++)
        check(got[i].c == seen[i].c && got[i].has == seen[i].has && got[i].arg == seen[i].arg, "option.loop", d + fmt(": option %d is -%c '", int(i), got[i].c) + show(got[i].arg) + fmt("', should be -%c '", seen[i].c) + show(seen[i].arg) + "'");
    int n = rem.defined() ? rem.size() : 0;
    check(n == int(rest.size()), "option.args", d + ": arguments are " + vh::canon(rem).substr(0, 300));
    for (int i = 0; i < n; i++) check(text(rem.at(i)) == rest[i], "option.args", d + ": arguments are " + vh::canon(rem).substr(0, 300) + ", should be" + list(rest));
    ev("looped");
}

// The configuration is global and stays, so that each case has names of its own.
VH_CASE_NOBAL(config_settings)
{
    struct Val { int kind; str s; double x; };        // 0 string, 1 string that is a number, 2 int, 3 double
    std::map<str, std::map<str, Val>> model;
    str pre = fmt("c%ld.", caseIdx);
    strs secs, ents;
    for (int n = rng.in(1, 4); n > 0; n--) { str s = pre; for (int k = rng.upto(4); k > 0; k--) s += "ab Z"[rng.upto(3)]; while (isspace(s.back())) s.pop_back(); secs.push_back(s); }
    for (int n = rng.in(1, 5); n > 0; n--) { str s = "k"; for (int k = rng.upto(4); k > 0; k--) s += "ab1"[rng.upto(3)]; ents.push_back(s); }
    std::vector<std::unique_ptr<lu::Config>> cfg;
    std::vector<str> cur;              // current section of each; "" = none
    str d = "config:";
    auto value = [&] {
        Val v{int(rng.upto(4)), "", 0};
        if (rng.chance(1, 20)) return v.kind = 0, v;
        if (v.kind == 0) { v.s = "v"; for (int k = rng.upto(8); k > 0; k--) v.s += "xyz=: ;"[rng.upto(7)]; while (isspace(v.s.back())) v.s.pop_back(); }
        else if (v.kind == 3) v.x = rng.chance(1, 2) ? rng.in(-4000, 4000) / 8.0 : rng.sym() * 1e6;
        else v.x = rng.chance(1, 2) ? rng.in(-100000, 100000) : int(rng.next());
        if (v.kind == 1) v.s = fmt("%d", int(v.x));
        return v;
    };
    for (int step = rng.in(3, 25); step > 0; step--) {
        int op = cfg.empty() ? 0 : rng.upto(10);
        size_t i = cfg.empty() ? 0 : rng.upto(cfg.size());
        str where = rng.pick(secs), ent = rng.pick(ents);
        if (op == 0 && cfg.size() < 4) {
            d += " new(" + where + ")";
            note(d);
            bool none = rng.chance(1, 4);
            mustWork("config.new", d, [&] { if (none) cfg.emplace_back(new lu::Config); else cfg.emplace_back(new lu::Config(S(where))); });
            cur.push_back(none ? "" : where);
        }
        else if (op == 1) {
            bool none = rng.chance(1, 5);
            d += fmt(" %d.section(", int(i)) + (none ? "nil" : where) + ")";
            note(d);
            mustWork("config.section", d, [&] { if (none) cfg[i]->configSection(lu::nil); else cfg[i]->configSection(S(where)); });
            cur[i] = none ? "" : where;
        }
        else if (op < 4) {
            Val v = value();
            if (rng.chance(1, 10)) v.kind = 4;       // nothing
            d += fmt(" %d.set(", int(i)) + ent + "," + (v.kind < 2 ? v.s : v.kind == 4 ? str("nil") : fmt("%g", v.x)) + ")";
            note(d);
            mustWork("config.set", d, [&] { cfg[i]->configSet(S(ent), v.kind < 2 ? S(v.s) : v.kind == 2 ? var(int(v.x)) : v.kind == 4 ? var() : var(v.x)); });
            if (!cur[i].empty()) model[cur[i]][ent] = v;
            ev("sets");
        }
        else if (op == 4) {
            // a file with some of the sections
            str f = scratch() + "/cfg", body;
            bool bad = rng.chance(1, 5);
            std::map<str, std::map<str, Val>> m;
            for (int n = rng.upto(4); n > 0; n--) {
                str s = rng.pick(secs);
                body += "[" + s + "]\n";
                for (int k = rng.upto(4); k > 0; k--) { Val v = value(); if (v.kind > 1) { v.kind = 1; v.x = int(v.x); v.s = fmt("%d", int(v.x)); } str e = rng.pick(ents); body += e + " = " + v.s + "\n"; m[s][e] = v; }
            }
            if (bad) body += "no separator\n";
            std::ofstream(f) << body;
            d += fmt(" %d.file(\"", int(i)) + show(body, 300) + "\")";
            note(d);
            if (bad) { mustThrow("config.badfile", d, [&] { cfg[i]->configFile(S(f)); }); ev("bad_files"); }
            else {
                mustWork("config.file", d, [&] { cfg[i]->configFile(S(f)); });
                for (auto& s : m) for (auto& e : s.second) model[s.first][e.first] = e.second;
                ev("files");
            }
            if (rng.chance(1, 8)) mustThrow("config.missing", "a missing configuration file", [&] { cfg[i]->configFile(S(scratch() + "/absent")); });
        }
        else {
            d += fmt(" %d.get(", int(i)) + ent + ")";
            note(d);
            const Val* v = 0;
            if (!cur[i].empty()) { auto s = model.find(cur[i]); if (s != model.end()) { auto e = s->second.find(ent); if (e != s->second.end()) v = &e->second; } }
            auto key = [&] { return S(ent); };
            int t = rng.upto(6);
            str what;
            bool ok = true;
            mustWork("config.get", d, [&] {
                if (v && v->kind == 0 && t < 4) t = rng.chance(1, 2) ? 4 : 5;
                if (v && v->kind == 4) t = 5;
                if (v && v->kind >= 2 && t == 4) t = 5;
                if (t == 0) { int g = cfg[i]->config(key(), 77); ok = g == (v ? int(v->x) : 77); what = fmt("%d", g); }
                else if (t == 1) { long g = cfg[i]->config(key(), 77L); ok = g == (v ? long(v->x) : 77L); what = fmt("%ld", g); }
                else if (t == 2) { float g = cfg[i]->config(key(), 0.5f); ok = g == (v ? float(v->x) : 0.5f); what = fmt("%g", g); }
                else if (t == 3) { double g = cfg[i]->config(key(), 0.25); ok = g == (v ? v->x : 0.25); what = fmt("%g", g); }
                else if (t == 4) { const char* g = cfg[i]->config(key(), "dflt"); ok = g == (v ? v->s : str("dflt")); what = g; }
                else {
                    var g = cfg[i]->config(key());
                    what = vh::canon(g);
                    ok = !v || v->kind == 4 ? !g.defined() : v->kind < 2 ? isString(g) && text(g) == v->s : g.cast<double>() == v->x && kind(g) == kind(v->kind == 2 ? var(1) : var(1.0));
                }
            });
            check(ok, "config.value", d + fmt(": lookup of type %d gives ", t) + what + (v ? ", should be " + (v->kind < 2 ? v->s : v->kind == 4 ? str("nil") : fmt("%g", v->x)) : ", though it is not set"));
            ev("lookups");
            if (!v) ev("unset");
        }
        // what all the sections hold now
        if (cfg.size() && rng.chance(1, 4)) {
            lu::Config peek;
            for (auto& s : secs) {
                var sec = peek.configSection(S(s));
                size_t n = model.count(s) ? model[s].size() : 0;
                check((sec.defined() ? sec.size() : 0) == int(n), "config.section", d + ": section " + s + " holds " + vh::canon(sec).substr(0, 300));
                if (n) for (auto& e : model[s]) { var g = peek.config(S(e.first)); check(e.second.kind == 4 ? !g.defined() : e.second.kind < 2 ? isString(g) && text(g) == e.second.s : g.cast<double>() == e.second.x, "config.kept", d + ": [" + s + "] " + e.first + " is " + vh::canon(g)); }
            }
            ev("sections_verified");
        }
    }
    distinct(d);
}

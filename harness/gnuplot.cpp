// C31: what gnuplot receives.
#include "tensor.h"
#include <fstream>
#include <sys/stat.h>
#include <dlfcn.h>
#include <cerrno>
#include <csignal>
#include <sys/wait.h>
#include <unistd.h>
using namespace vh;
using namespace md;

static bool noPipe;
// Takes the place of the library's, to fail once
extern "C" __attribute__((visibility("default"))) FILE* popen(const char* cmd, const char* mode)
{
    if (noPipe) { noPipe = false; errno = EMFILE; return 0; }
    static auto real = (FILE* (*)(const char*, const char*))dlsym(RTLD_NEXT, "popen");
    return real(cmd, mode);
}

namespace {
// A stand-in that keeps what it is sent; it may take its time.
void standIn(const str& out, const char* delay, const char* step)
{
    static bool done;
    str dir = scratch() + "/bin";
    if (!done) {
        mkdir(dir.c_str(), 0755);
        std::ofstream(dir + "/gnuplot") << "#!/bin/sh\n"
            "[ -n \"$VH_GONE\" ] && exit 0\n"
            "echo \"$*\" > \"$VH_PLOT.args\"\n"
            "[ -n \"$VH_DELAY\" ] && sleep \"$VH_DELAY\"\n"
            "if [ -n \"$VH_STEP\" ]; then dd bs=\"$VH_STEP\" 2>/dev/null > \"$VH_PLOT\"; else cat > \"$VH_PLOT\"; fi\n"
            "echo done >> \"$VH_PLOT.args\"\n";
        chmod((dir + "/gnuplot").c_str(), 0755);
        str path = dir + ":" + (getenv("PATH") ? getenv("PATH") : "/usr/bin:/bin");
        setenv("PATH", path.c_str(), 1);
        done = true;
    }
    unlink(out.c_str());
    unlink((out + ".args").c_str());
    setenv("VH_PLOT", out.c_str(), 1);
    setenv("VH_DELAY", delay, 1);
    setenv("VH_STEP", step, 1);
}
str slurp(const str& f) { std::ifstream in(f, std::ios::binary); std::stringstream b; b << in.rdbuf(); return b.str(); }

// An item to be plotted and the lines it is to become.  A matrix may be
// followed by blank lines.
struct Item { var v; strs lines; bool matrix = false; str d; };

str num(double x, int type)
{
    std::ostringstream o;
    switch (type) { case 0: o << int(x); break; case 1: o << long(x); break; case 2: o << float(x); break; default: o << x; }
    return o.str();
}
double value(int type)
{
    if (type < 2) return rng.chance(1, 4) ? rng.in(-2000000, 2000000) : rng.in(-20, 20);
    switch (rng.upto(6)) {
    case 0: return rng.in(-5, 5);
    case 1: return rng.sym() * std::pow(10.0, rng.in(-30, 30));
    case 2: return rng.chance(1, 10) ? INFINITY : 0.1;
    default: return rng.sym() * 100;
    }
}
template<class T> var fill(const std::vector<double>& x)
{
    std::vector<T> y(x.begin(), x.end());
    var v = T(0);
    v.resize(0);
    for (T t : y) v.push(t);
    return v;
}
var dense(int type, const std::vector<double>& x) { return type == 0 ? fill<int>(x) : type == 1 ? fill<long>(x) : type == 2 ? fill<float>(x) : fill<double>(x); }
str command()
{
    switch (rng.upto(6)) {
    case 0: return "";
    case 1: return "plot '-' with lines, \"-\" title \"%s %d\"";
    case 2: return "set title \"caf\xc3\xa9\"";
    case 3: { str s; for (int n = rng.in(1, 30); n > 0; n--) { char c = char(rng.in(1, 255)); s += c == '\n' ? ' ' : c; } return s; }
    case 4: return str(rng.in(1, rng.chance(1, 10) ? 70000 : 200), 'x');
    default: return "e";
    }
}
Item item()
{
    Item it;
    int k = rng.upto(5), type = rng.upto(4);
    const char* tn[] = {"int", "long", "float", "double"};
    if (k < 2) {
        str s = command();
        it.v = S(s);
        it.lines.push_back(s);
        it.d = "\"" + show(s, 40) + "\"";
        ev("commands");
    }
    else if (k == 2 || (k == 3 && rng.chance(1, 3))) {
        int n = rng.chance(1, 15) ? rng.in(1000, 20000) : rng.upto(9);
        std::vector<double> x;
        for (int i = 0; i < n; i++) x.push_back(value(type));
        if (n == 0 && rng.chance(1, 2)) { x.push_back(value(type)); n = 1; var a = dense(type, x); it.v = a[0].copy(); it.d = str(tn[type]) + " scalar"; }
        else { it.v = dense(type, x); it.d = str(tn[type]) + fmt(" vector of %d", n); }
        for (double d : x) it.lines.push_back(num(d, type));
        it.lines.push_back("e");
        ev("vectors");
    }
    else if (k == 3) {
        // part of something bigger
        int n = rng.in(1, 8), off = rng.upto(5);
        std::vector<double> x;
        for (int i = 0; i < n + off + 2; i++) x.push_back(value(type));
        var a = dense(type, x);
        it.v = a.view({n}, off);
        it.d = str(tn[type]) + fmt(" view of %d at %d", n, off);
        for (int i = 0; i < n; i++) it.lines.push_back(num(x[off + i], type));
        it.lines.push_back("e");
        ev("views");
    }
    else {
        int r = rng.in(1, rng.chance(1, 10) ? rng.chance(1, 4) ? 300 : 60 : 5), c = rng.in(1, rng.chance(1, 10) ? rng.chance(1, 4) ? 300 : 60 : 5), off = rng.chance(1, 3) ? rng.upto(4) : 0;
        std::vector<double> x;
        for (int i = 0; i < r * c + off; i++) x.push_back(value(type));
        var a = dense(type, x);
        it.v = a.view({r, c}, off);
        it.matrix = true;
        it.d = str(tn[type]) + fmt(" matrix %d x %d at %d", r, c, off);
        for (int j = 0; j < c; j++) {
            str l;
            for (int i = 0; i < r; i++) l += (i ? " " : "") + num(x[off + i * c + j], type);
            it.lines.push_back(l);
        }
        it.lines.push_back("e");
        ev("matrices");
    }
    return it;
}
str trim(const str& s) { size_t a = s.find_first_not_of(' '), b = s.find_last_not_of(' '); return a == str::npos ? "" : s.substr(a, b - a + 1); }

struct Want { str line; bool matrix; };
void compare(const str& got, const std::vector<Want>& want, const str& what)
{
    strs lines;
    size_t i = 0;
    while (i < got.size()) { size_t e = got.find('\n', i); check(e != str::npos, "plot.newline", what + ": what was sent does not end in a newline"); lines.push_back(got.substr(i, e - i)); i = e + 1; }
    size_t k = 0;
    for (size_t w = 0; w < want.size(); w++) {
        if (want[w].matrix) while (k < lines.size() && trim(lines[k]).empty()) k++;
        check(k < lines.size(), "plot.missing", what + fmt(": only %zu lines were received; missing '", k) + show(want[w].line, 80) + "'");
        str l = want[w].matrix ? trim(lines[k]) : lines[k];
        check(l == want[w].line, "plot.line", what + fmt(": line %zu is '", k) + show(l, 200) + "', not '" + show(want[w].line, 200) + "'");
        k++;
    }
    check(k == lines.size(), "plot.extra", what + fmt(": %zu more lines were received, first '", lines.size() - k) + show(lines[std::min(k, lines.size() - 1)], 100) + "'");
    ev("lines", k);
}
}

// no process can be started
VH_CASE(plot_unavailable)
{
    standIn(scratch() + "/plot0", "", "");
    int fds = openFds(), before = rng.upto(2);
    note("gnuplot without file descriptors");
    distinct(fmt("%d", before));
    {
        lu::filemodule m("gnuplot");
        if (before) m.create();
        noPipe = true;
        bool threw = false;
        try { m.create(); } catch (lu::error&) { threw = true; }
        bool asked = !noPipe;       // it might start the process in some other way
        noPipe = false;
        check(threw || !asked, "plot.unavailable", "gnuplot was created though no pipe could be opened");
        ev("unavailable");
        lu::file& f = m.create();
        f.write(nil, S("plot x"));
    }
    check(openFds() == fds, "plot.fds", "a file was left open");
}

// the process goes away
VH_CASE(plot_gone)
{
    str out = scratch() + "/plot0";
    standIn(out, "", "");
    setenv("VH_GONE", "1", 1);
    auto old = signal(SIGPIPE, SIG_IGN);
    int fds = openFds(), rows = rng.in(1, 4);
    note(fmt("gnuplot exits, %d writes", rows));
    distinct(fmt("%d", rows));
    {
        lu::filemodule m("gnuplot");
        lu::file& f = m.create();
        // more than pipe and buffers hold
        var big = S(str(rng.in(200000, 400000), 'x'));
        bool threw = false;
        for (int i = 0; i < rows && !threw; i++) try { f.write(lu::nil, big); } catch (lu::error&) { threw = true; }
        check(threw, "plot.gone", fmt("%d large commands were accepted though gnuplot had exited", rows));
        ev("gone");
    }
    signal(SIGPIPE, old);
    unsetenv("VH_GONE");
    check(waitpid(-1, 0, WNOHANG) == -1, "plot.process", "the plotting process is still there");
    check(openFds() == fds, "plot.fds", "a file was left open");
}

VH_CASE_W(plot_scripts, 24)
{
    int fds = openFds(), n = rng.chance(1, 4) ? 2 : 1;
    struct Inst { lu::file* f; str out; std::vector<Want> want; str what; };
    std::vector<Inst> in;
    str all;
    {
        lu::filemodule m("gnuplot");
        for (int i = 0; i < n; i++) {
            str out = scratch() + fmt("/plot%d", i);
            bool slow = rng.chance(1, 8);
            standIn(out, slow ? "0.05" : "", rng.chance(1, 4) ? "7" : "");
            if (slow) ev("slow");
            in.push_back({&m.create(), out, {}, ""});
        }
        for (int w = rng.in(1, 4); w > 0; w--) {
            Inst& p = in[rng.upto(n)];
            std::vector<Item> items;
            var script;
            int count = rng.chance(1, 12) ? 0 : rng.in(1, 6), bad = -1;
            script.push("x");
            script.pop();
            if (rng.chance(1, 12)) bad = rng.upto(count + 1);
            str d = "write(";
            var file;
            if (rng.chance(1, 3)) { str f = "plot " + fmt("%d", rng.upto(100)) + ".eps"; file = S(f); d += f; p.want.push_back({"set term post eps", false}); p.want.push_back({"set output \"" + f + "\"", false}); ev("named"); }
            for (int k = 0; k < count || k == bad; k++) {
                if (k == bad) {
                    var v;
                    switch (rng.upto(4)) {
                    case 0: v["key"] = 1; break;
                    case 1: v = cdouble(1, 2); break;
                    case 2: v.push("a"); v.push("b"); break;
                    default: v = lu::view({2, 2, 2}, 0.5);
                    }
                    script.push(v);
                    d += " BAD " + vh::canon(v).substr(0, 60);
                    break;
                }
                Item it = item();
                d += " " + it.d;
                script.push(it.v);
                for (size_t l = 0; l < it.lines.size(); l++) p.want.push_back({it.lines[l], it.matrix});
            }
            d += ") ";
            p.what += d;
            all += d;
            note(all);
            str before = vh::canon(script);
            if (bad >= 0) { mustThrow("plot.unsupported", p.what, [&] { p.f->write(file, script); }); ev("unsupported"); }
            else mustWork("plot.write", p.what, [&] { p.f->write(file, script); });
            check(vh::canon(script) == before, "plot.operand", p.what + ": writing changed the script");
            ev("writes");
            if (rng.chance(1, 15)) { mustThrow("plot.read", p.what, [&] { p.f->read("file"); }); ev("reads"); }
        }
        distinct(all);
        if (rng.chance(1, 40)) sample(all.substr(0, 300));
    }
    // the module has gone: everything must have arrived
    check(waitpid(-1, 0, WNOHANG) == -1, "plot.process", all + ": the plotting process is still there");
    check(openFds() == fds, "plot.fds", all + ": a file was left open");
    for (auto& p : in) {
        str args = slurp(p.out + ".args");
        check(args.find("done") != str::npos, "plot.delivered", p.what + ": gnuplot had not read everything when the module went (" + show(args) + ")");
        compare(slurp(p.out), p.want, p.what);
    }
    ev("sessions", n);
}

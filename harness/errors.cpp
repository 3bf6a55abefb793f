// C38: exceptions say what they were made of, for as long as any copy of them
// exists; timers print one line with the time that passed.
#include "vh.h"
#include <lube/dft.h>
#include <chrono>
#include <exception>
#include <future>
#include <iostream>
#include <memory>
#include <sstream>
#include <thread>
#include <vector>
using namespace vh;

namespace {
typedef std::chrono::steady_clock clk;

// something to report, and its text; never empty, no NUL
struct Message { var v; str text; };

// a string as a variable prints it
str quoted(const str& s)
{
    str r = "\"";
    for (char c : s) { if (c == '"' || c == '\\') r += '\\'; r += c; }
    return r + "\"";
}

str chars(int lo, int hi)
{
    static const char* nice = "abc XYZ:()_'\"%s%n\\{}[]0123456789";
    str s;
    bool any = rng.chance(1, 4);
    for (int n = rng.in(lo, hi); n > 0; n--)
        s += any ? char(rng.in(1, 255)) : nice[rng.upto(32)];
    return s;
}

Message message()
{
    Message m;
    switch (rng.upto(10)) {
    case 0: { int i = rng.in(-100000, 100000); m.v = i; m.text = fmt("%d", i); break; }
    case 1: {
        int n = rng.in(2, 5);
        m.v = 0; m.v.array(); m.v.resize(n);
        m.text = "[";
        for (int i = 0; i < n; i++) { int x = rng.in(-9, 99); m.v[i] = x; m.text += fmt(i ? ", %d" : "%d", x); }
        m.text += "]";
        break;
    }
    case 2: { lu::varstream s; s << "at " << 7 << ": " << "x"; m.v = s; m.text = quoted("at 7: x"); break; }
    case 3: { str t = chars(200, 3000); m.text = quoted(t); m.v = var(int(t.size()), t.data()); break; }
    case 4: { str t = chars(1, 40); m.text = quoted(t); var a; a[0] = var(int(t.size()), t.data()); m.v = a[0]; break; }
    default: { str t = chars(0, 60); m.text = quoted(t); m.v = var(int(t.size()), t.data()); }
    }
    return m;
}

bool says(const char* w, const str& text)
{
    if (!w) return false;
    str s = w;
    return s.compare(0, text.size(), text) == 0 && (s.size() == text.size() || s[text.size()] == '\n');
}

struct Held {
    std::unique_ptr<lu::error> e;
    std::exception_ptr p;
    str text, whole;
    const char* got = nullptr;      // what what() said at first
};

[[noreturn]] __attribute__((noinline)) void deep(int n, var v) { if (n > 0) { deep(n - 1, v); } throw lu::error(v); }

// thrown while this is on its way out
struct Scope {
    str* log; str name;
    ~Scope() {
        try { throw lu::error(name.c_str()); } catch (lu::error& e) { str s = e.what(); *log += s.substr(0, s.find('\n')); }
    }
};

void look(Held& h, const str& how)
{
    const char* w;
    if (h.e) w = h.e->what();
    else {
        try { std::rethrow_exception(h.p); }
        catch (std::exception& x) {
            str s = x.what() ? x.what() : "";
            check(x.what() && s == h.whole, "errors.kept", how + ": an exception kept in a pointer says \"" + show(s.substr(0, 200)) + "\", not \"" + show(h.whole.substr(0, 200)) + "\"");
            ev("kept");
            return;
        }
    }
    check(says(w, h.text), "errors.text", how + ": what() is \"" + show(w ? str(w).substr(0, 200) : "null") + "\", the error was made of \"" + show(h.text.substr(0, 200)) + "\"");
    check(str(w) == h.whole, "errors.changed", how + ": what() is not what it was");
    ev("looks");
}
}

VH_CASE(errors_say)
{
    std::vector<Held> pool;
    int steps = rng.in(3, 14);
    str trace;
    for (int s = 0; s < steps; s++) {
        int k = rng.upto(9);
        if (pool.empty()) k = 0;
        int i = pool.empty() ? 0 : rng.upto(pool.size());
        if (k <= 1 || pool.size() < 1) {
            Message m = message();
            Held h;
            h.text = m.text;
            h.e.reset(new lu::error(m.v));
            h.whole = h.e->what() ? h.e->what() : "";
            trace += "made ";
            // the variable belongs to the caller
            if (m.v.heap() && m.v.atype<char>() && rng.chance(1, 2)) {
                var& v = m.v;
                if (rng.chance(1, 2)) v.append("more and more and more and more and more and more and more"); else v.ptr<char>()[0] = '!';
                trace += "altered ";
            }
            pool.push_back(std::move(h));
            ev("made");
        }
        else if (k == 2 && pool[i].e) {
            Held h;
            h.e.reset(new lu::error(*pool[i].e));
            h.text = pool[i].text; h.whole = pool[i].whole;
            pool.push_back(std::move(h));
            trace += "copied ";
            ev("copied");
        }
        else if (k == 3) {
            int j = rng.upto(pool.size());
            if (pool[i].e && pool[j].e) {
                lu::error& b = *pool[j].e;
                *pool[i].e = b;
                pool[i].text = pool[j].text; pool[i].whole = pool[j].whole;
                trace += i == j ? "self-assigned " : "assigned ";
                ev("assigned");
            }
        }
        else if (k == 4) {
            pool.erase(pool.begin() + i);
            trace += "dropped ";
            ev("dropped");
        }
        else if (k == 5) {
            // thrown from further down, caught in one of the ways
            Message m = message();
            int depth = rng.chance(1, 4) ? rng.in(60, 200) : rng.in(0, 5), how = rng.upto(4);
            bool again = rng.chance(1, 3);
            Held h;
            h.text = m.text;
            auto thrower = [&] {
                if (!again) deep(depth, m.v);
                try { deep(depth, m.v); } catch (lu::error& e) { throw; }
            };
            if (how == 0) {
                try { thrower(); } catch (lu::error e) { h.e.reset(new lu::error(e)); h.whole = e.what(); }
            }
            else if (how == 1) {
                try { thrower(); } catch (std::exception& e) { h.whole = e.what(); h.p = std::current_exception(); check(says(e.what(), h.text), "errors.text", "thrown through " + fmt("%d", depth) + " calls: what() is \"" + show(str(e.what()).substr(0, 200)) + "\", the error was made of \"" + show(h.text.substr(0, 200)) + "\""); }
            }
            else if (how == 2) {
                try { thrower(); } catch (const lu::error& e) { h.e.reset(new lu::error(e)); h.whole = e.what(); }
            }
            else {
                auto f = std::async(std::launch::async, [&] { thrower(); });
                try { f.get(); } catch (lu::error& e) { h.e.reset(new lu::error(e)); h.whole = e.what(); }
                ev("other_thread");
            }
            trace += fmt("thrown(%d,%d) ", depth, how);
            pool.push_back(std::move(h));
            ev("thrown");
            if (depth >= 60) ev("deep");
        }
        else if (k == 6) {
            // errors inside the unwinding of another
            str log, name = chars(1, 20);
            for (char& c : name) if (c == '\n') c = ' ';
            Message m = message();
            try { Scope sc{&log, name}; throw lu::error(m.v); }
            catch (lu::error& e) {
                check(log == quoted(name), "errors.nested", "an error caught while another was on its way said \"" + show(log) + "\", not \"" + show(name) + "\"");
                check(says(e.what(), m.text), "errors.text", "after another error was caught on the way: \"" + show(str(e.what()).substr(0, 200)) + "\", not \"" + show(m.text.substr(0, 200)) + "\"");
            }
            trace += "nested ";
            ev("nested");
        }
        else if (k == 7) {
            // what the library throws itself
            var a = {1, 2, 3};
            int n = rng.upto(4);
            mustThrow("errors.own", fmt("library error %d", n), [&] {
                if (n == 0) a.at(-rng.in(1, 5));
                else if (n == 1) var("text").split("");
                else if (n == 2) { std::stringstream s("[1, 2"); var v; s >> v; }
                else { lu::DFT f(0, 1.0f); }
            });
            trace += "library ";
            ev("library");
        }
        else {
            std::vector<lu::error> l;
            int n = rng.in(1, 9);
            std::vector<str> t;
            for (int j = 0; j < n; j++) { Message m = message(); l.push_back(lu::error(m.v)); t.push_back(m.text); }
            for (int j = 0; j < n; j++) check(says(l[j].what(), t[j]), "errors.text", "in a list: \"" + show(str(l[j].what()).substr(0, 200)) + "\", not \"" + show(t[j].substr(0, 200)) + "\"");
            trace += fmt("list%d ", n);
            ev("lists");
        }
        note(trace);
        for (auto& h : pool) look(h, trace);
    }
    distinct(trace);
    if (rng.chance(1, 40)) sample(trace);
}

// The text of cout while this exists
struct Caught {
    std::ostringstream o;
    std::streambuf* was;
    Caught() : was(std::cout.rdbuf(o.rdbuf())) {}
    ~Caught() { std::cout.rdbuf(was); }
};

VH_CASE(timers_say)
{
    struct T { str name; clk::time_point before, after; std::unique_ptr<lu::timer> t; };
    std::vector<T> ts;
    int steps = rng.in(2, 10);
    str trace;
    bool bad = false;
    str why;
    {
        Caught c;
        size_t seen = 0;
        auto stop = [&](size_t i, bool unwinding) {
            T t = std::move(ts[i]);
            ts.erase(ts.begin() + i);
            clk::time_point inner = clk::now();
            if (unwinding) { try { std::unique_ptr<lu::timer> own = std::move(t.t); throw 1; } catch (int) {} }
            else t.t.reset();
            clk::time_point outer = clk::now();
            str all = c.o.str(), line = all.substr(seen);
            seen = all.size();
            auto ms = [](clk::duration d) { return std::chrono::duration<double, std::milli>(d).count(); };
            double lo = ms(inner - t.after), hi = ms(outer - t.before);
            str rest = line.size() >= t.name.size() && line.compare(0, t.name.size(), t.name) == 0 ? line.substr(t.name.size()) : "";
            double n = -1;
            int used = 0;
            bool form = sscanf(rest.c_str(), ": %lf ms%n", &n, &used) == 1 && rest.substr(used) == "\n";
            // six digits, or whole milliseconds
            double slack = 1e-5 * hi;
            if (!form || n < (n == std::floor(n) ? std::floor(lo) : lo) - slack || n > (n == std::floor(n) ? std::ceil(hi) : hi) + slack) { bad = true; why = "a timer called \"" + show(t.name) + "\" that ran for " + fmt("%g to %g ms", lo, hi) + " printed \"" + show(line) + "\""; }
            ev("timers");
            if (hi > 3) ev("long");
            if (unwinding) ev("unwound");
        };
        for (int s = 0; s < steps && !bad; s++) {
            int k = rng.upto(4);
            if (k <= 1 || ts.empty()) {
                Message m = message();
                T t;
                t.name = m.text;
                t.before = clk::now();
                t.t.reset(new lu::timer(m.v));
                t.after = clk::now();
                trace += fmt("start(%d)", int(t.name.size()));
                ts.push_back(std::move(t));
            }
            else if (k == 2) {
                int u = rng.upto(rng.chance(1, 4) ? 12000 : 300);
                std::this_thread::sleep_for(std::chrono::microseconds(u));
                trace += fmt("sleep(%d)", u);
            }
            else { stop(rng.upto(ts.size()), rng.chance(1, 4)); trace += "stop "; }
            if (!bad && c.o.str().size() != seen) { bad = true; why = "printed while no timer ended: \"" + show(c.o.str().substr(seen)) + "\""; }
        }
        while (!ts.empty() && !bad) { stop(rng.upto(ts.size()), false); trace += "end "; }
    }
    note(trace);
    check(!bad, "errors.timer", why);
    distinct(trace);
    if (rng.chance(1, 40)) sample(trace);
}

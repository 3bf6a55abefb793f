// C27: graphs written for graphviz.
#include "model.h"
#include <fstream>
#include <unistd.h>
#include <lube/graph.h>
using namespace vh;
using namespace md;

namespace {
struct Model {
    long n = 0;
    std::vector<std::pair<long, long>> edges;
    str script;
};

// A reader of the graphviz language: what we rely on is only what any
// reader of it would see, not the layout.
struct Dot {
    std::map<str, str> vertices;     // id, attributes
    std::vector<str> order;
    std::vector<std::pair<std::pair<str, str>, str>> edges;
    str error;
    str s;
    size_t i = 0;
    void space()
    {
        for (;;) {
            while (i < s.size() && isspace((unsigned char)s[i])) i++;
            if (s.compare(i, 2, "//") == 0) { while (i < s.size() && s[i] != '\n') i++; }
            else if (s.compare(i, 2, "/*") == 0) { size_t e = s.find("*/", i); i = e == str::npos ? s.size() : e + 2; }
            else return;
        }
    }
    bool is(const char* t) { space(); if (s.compare(i, strlen(t), t)) return false; i += strlen(t); return true; }
    str id()
    {
        space();
        str r;
        if (i < s.size() && s[i] == '"') {
            for (i++; i < s.size() && s[i] != '"'; i++) { if (s[i] == '\\' && i + 1 < s.size()) r += s[i++]; r += s[i]; }
            i++;
            return "\"" + r + "\"";
        }
        while (i < s.size() && (isalnum((unsigned char)s[i]) || s[i] == '_' || s[i] == '.' || (s[i] == '-' && r.empty() && i + 1 < s.size() && s[i + 1] != '>'))) r += s[i++];
        return r;
    }
    str attrs()
    {
        str r;
        while (is("[")) {
            while (!is("]")) {
                str a = id(), v = is("=") ? id() : "";
                if (a.empty()) { error = "bad attribute"; return r; }
                r += a + "=" + v + ";";
                if (!is(",")) is(";");
                if (i >= s.size()) { error = "unterminated attributes"; return r; }
            }
        }
        return r;
    }
    Dot(const str& text) : s(text)
    {
        if (id() != "digraph") { error = "not a digraph"; return; }
        space();
        if (s[i] != '{') id();
        if (!is("{")) { error = "no {"; return; }
        while (!is("}")) {
            if (i >= s.size()) { error = "unterminated"; return; }
            if (is(";")) continue;
            str a = id();
            if (a.empty()) { error = fmt("unexpected character at %zu", i); return; }
            if (is("->")) {
                std::vector<str> chain{a};
                do { str b = id(); if (b.empty()) { error = "edge without target"; return; } chain.push_back(b); } while (is("->"));
                str at = attrs();
                for (size_t k = 1; k < chain.size(); k++) edges.push_back({{chain[k - 1], chain[k]}, at});
            }
            else if (is("--")) { error = "undirected edge"; return; }
            else if (a == "graph" || a == "node" || a == "edge") attrs();
            else {
                str at = attrs();
                if (vertices.count(a)) { error = "vertex " + a + " twice"; return; }
                vertices[a] = at;
                order.push_back(a);
            }
            if (error.size()) return;
        }
        space();
        if (i != s.size()) error = "text after the graph: '" + show(s.substr(i), 60) + "'";
    }
};

str slurp(const str& f) { std::ifstream in(f, std::ios::binary); std::stringstream b; b << in.rdbuf(); return b.str(); }

void verify(lu::graph& g, const Model& m, const str& file, const str& what)
{
    var name = S(file);
    int fds = openFds();
    mustWork("graph.write", what, [&] { g.writeGraphViz(name); });
    check(openFds() == fds, "graph.fds", what + ": left the file open");
    check(text(name) == file, "graph.name", what + ": the file name was changed");
    str t = slurp(file);
    Dot d(t);
    check(d.error.empty(), "graph.syntax", what + ": wrote " + show(t, 600) + ": " + d.error);
    check(long(d.vertices.size()) == m.n, "graph.vertices", what + fmt(": %zu vertices written, %ld added: ", d.vertices.size(), m.n) + show(t, 600));
    for (long k = 0; k < m.n; k++) {
        auto it = d.vertices.find(fmt("%ld", k));
        check(it != d.vertices.end(), "graph.vertices", what + fmt(": vertex %ld not written: ", k) + show(t, 600));
        check(it->second.empty(), "graph.attributes", what + fmt(": vertex %ld has attributes ", k) + it->second);
        check(d.order[k] == fmt("%ld", k), "graph.order", what + fmt(": vertex %ld is written out of order: ", k) + show(t, 600));
    }
    std::multiset<std::pair<str, str>> want, got;
    for (auto& e : m.edges) want.insert({fmt("%ld", e.first), fmt("%ld", e.second)});
    for (auto& e : d.edges) {
        got.insert(e.first);
        check(e.second.empty(), "graph.attributes", what + ": edge " + e.first.first + "->" + e.first.second + " has attributes " + e.second);
    }
    if (want != got) {
        str diff;
        for (auto& e : want) if (got.count(e) != want.count(e)) { diff += " " + e.first + "->" + e.second + fmt(" added %zu written %zu", want.count(e), got.count(e)); if (diff.size() > 200) break; }
        for (auto& e : got) if (!want.count(e)) { diff += " " + e.first + "->" + e.second + fmt(" never added, written %zu", got.count(e)); if (diff.size() > 400) break; }
        fail("graph.edges", what + fmt(": %zu edges added, %zu written:", want.size(), got.size()) + diff);
    }
    ev("writes"); ev("vertices", m.n); ev("edges", m.edges.size());
}
}

VH_CASE_W(graph_history, 6)
{
    lu::graphmodule mod, other;
    std::vector<lu::graph*> g;
    std::vector<Model> m;
    int n = rng.in(1, 4);
    for (int i = 0; i < n; i++) { g.push_back(&(rng.chance(1, 2) ? mod : other).create(rng.chance(1, 2) ? var() : var("argument"))); m.push_back(Model()); }
    int size = rng.chance(1, 25) ? rng.in(300, 3000) : rng.in(0, 60);
    str all;
    long pairs = 0, loops = 0;
    for (int step = 0; step < size; step++) {
        int k = rng.upto(n);
        Model& x = m[k];
        str what = fmt("graph %d after ", k);
        int op = rng.upto(20);
        if (op < 8 || (x.n == 0 && op < 18)) {
            long v = -1;
            mustWork("graph.addVertex", what + x.script.substr(0, 400), [&] { v = g[k]->addVertex(); });
            check(v == x.n, "graph.number", what + show(x.script, 1000) + fmt(": addVertex() returned %ld, not %ld", v, x.n));
            x.n++;
            x.script += "v ";
        }
        else if (op < 18) {
            long a = rng.upto(x.n), b = rng.chance(1, 8) ? a : rng.upto(x.n);
            if (x.edges.size() && rng.chance(1, 5)) { auto e = x.edges[rng.upto(x.edges.size())]; a = e.first; b = e.second; if (rng.chance(1, 2)) std::swap(a, b); pairs++; }
            if (a == b) loops++;
            mustWork("graph.addEdge", what + x.script.substr(0, 400), [&] { g[k]->addEdge(a, b); });
            x.edges.push_back({a, b});
            x.script += fmt("%ld>%ld ", a, b);
        }
        else if (op < 19 && rng.chance(1, 2)) {
            // an edge to a vertex not there yet brings it (and those before it) about
            long a = x.n + rng.upto(4), b = x.n ? rng.upto(x.n) : a;
            if (rng.chance(1, 2)) std::swap(a, b);
            mustWork("graph.addEdge", what + x.script.substr(0, 400), [&] { g[k]->addEdge(a, b); });
            x.n = std::max(a, b) + 1;
            x.edges.push_back({a, b});
            x.script += fmt("%ld>%ld! ", a, b);
            ev("implied");
        }
        else if (rng.chance(1, size > 100 ? 60 : 4)) {
            verify(*g[k], x, scratch() + fmt("/g%d", rng.upto(2)), what + show(x.script, 1500));
            ev("written_between");
        }
    }
    for (int i = 0; i < n; i++) all += fmt("graph %d: ", i) + m[i].script + "\n";
    note(all.substr(0, 3000));
    distinct(all);
    if (rng.chance(1, 100)) sample("history: " + all.substr(0, 300));
    for (int i = 0; i < n; i++) verify(*g[i], m[i], scratch() + fmt("/g%d", rng.upto(2)), fmt("graph %d after ", i) + show(m[i].script, 2000));
    ev("parallel", pairs);
    ev("loops", loops);
    ev("graphs", n);
}

VH_CASE(graph_rejected)
{
    lu::graphmodule mod;
    lu::graph& g = mod.create();
    Model m;
    for (int n = rng.upto(6); n > 0; n--) { g.addVertex(); m.n++; }
    for (int n = m.n ? rng.upto(6) : 0; n > 0; n--) { long a = rng.upto(m.n), b = rng.upto(m.n); g.addEdge(a, b); m.edges.push_back({a, b}); }
    str what = fmt("a graph of %ld vertices and %zu edges", m.n, m.edges.size());
    note(what);
    distinct(what + "rejected");
    if (rng.chance(1, 2)) {
        long a = rng.chance(1, 2) ? -1 : -rng.in(1, 1000000), b = m.n ? rng.upto(m.n) : 0;
        if (rng.chance(1, 2)) std::swap(a, b);
        mustThrow("graph.negative", what + fmt(" addEdge(%ld, %ld)", a, b), [&] { g.addEdge(a, b); });
        ev("negative");
    }
    else {
        str f = rng.chance(1, 2) ? scratch() + "/no/such/graph" : scratch();
        int fds = openFds();
        mustThrow("graph.unwritable", what + " written to " + f, [&] { g.writeGraphViz(S(f)); });
        check(openFds() == fds, "graph.fds", what + ": left a file open");
        ev("unwritable");
        // a disk that fills up before all of it is written
        f = scratch() + "/gfull";
        verify(g, m, f, what);
        long room = rng.upto(slurp(f).size());
        mustThrow("graph.full", what + fmt(" written where only %ld bytes fit", room), [&] { FullDisk full(room); g.writeGraphViz(S(f)); });
        check(openFds() == fds, "graph.fds", what + ": left a file open");
        ev("disk_full");
    }
    verify(g, m, scratch() + "/g0", what + " after a rejected call");
}

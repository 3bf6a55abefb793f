// C28: loading, instances and unloading of modules.
#include "model.h"
#include "probe.h"
#include <dlfcn.h>
#include <fstream>
#include <link.h>
#include <lube/path.h>
using namespace vh;
using namespace md;

namespace {
struct Life { int kind; void* self; };
std::vector<Life> alive;          // in order of construction
long built, gone, empties;
str lastArg, trouble;
bool loaded(int kind)
{
    void* h = dlopen(fmt("libprobe%d.so", kind).c_str(), RTLD_LAZY | RTLD_NOLOAD);
    if (!h) { dlerror(); return false; }
    dlclose(h);
    return true;
}
int objects()
{
    int n = 0;
    dl_iterate_phdr([](dl_phdr_info*, size_t, void* p) { ++*static_cast<int*>(p); return 0; }, &n);
    return n;
}
}
extern "C" void vh_probe(int event, int kind, void* self, var* arg)
{
    if (event == 0) { empties++; return; }
    if (event > 0) {
        for (auto& l : alive) if (l.self == self) trouble = "constructed over a live instance";
        alive.push_back({kind, self});
        built++;
        lastArg = vh::canon(*arg);
        return;
    }
    gone++;
    if (!loaded(kind)) trouble = "instance destroyed when its library was not loaded";
    for (size_t i = 0; i < alive.size(); i++)
        if (alive[i].self == self) { if (alive[i].kind != kind) trouble = "destroyed as another kind"; alive.erase(alive.begin() + i); return; }
    trouble = "destroyed an instance that was not alive";
}

namespace {
struct Inst { Probe* p; long sum; strs kept; };
// If a module can be copied at all, then losing the copy loses nothing
template<class M> void loseCopy(M& m)
{
    if constexpr (std::is_copy_constructible_v<M>) { M c(m); }
}

struct Loader { int kind; std::unique_ptr<lu::module> m; std::vector<Inst> in; };
str desc(const Loader& l) { return fmt("probe%d with %zu instances", l.kind, l.in.size()); }

void exercise(Loader& l, Inst& i, const str& what)
{
    check(i.p->kind() == l.kind, "module.kind", what + ": an instance is of another module");
    long add = rng.in(-1000, 1000);
    i.sum += add * l.kind;
    long got = 0;
    mustWork("module.use", what, [&] { got = i.p->step(add); });
    check(got == i.sum, "module.state", what + fmt(": an instance's sum is %ld, not %ld: state lost or shared", got, i.sum));
    if (rng.chance(1, 2)) {
        str s = "s" + randStr();
        i.kept.push_back(s);
        var v;
        mustWork("module.use", what, [&] { v = i.p->keep(S(s)); });
        int n = v.size();
        check(isString(v) ? i.kept.size() == 1 : n == int(i.kept.size()), "module.state", what + fmt(": an instance keeps %d values, not %zu", n, i.kept.size()));
    }
    ev("uses");
}
}

VH_CASE_W(module_history, 6)
{
    alive.clear();
    built = gone = 0;
    trouble = "";
    str log;
    std::vector<std::unique_ptr<Loader>> ls;
    int maxOpen = 0;
    auto state = [&](const str& what) {
        check(trouble.empty(), "module.instance", what + ": " + trouble);
        size_t n = 0;
        for (auto& l : ls) n += l->in.size();
        check(alive.size() == n, "module.alive", what + fmt(": %zu instances are alive, there should be %zu", alive.size(), n));
        for (int k = 1; k <= 2; k++) {
            bool want = false;
            for (auto& l : ls) want |= l->kind == k;
            check(loaded(k) == want, want ? "module.unloaded" : "module.left_loaded", what + fmt(": probe%d is %sloaded", k, want ? "not " : "still "));
        }
    };
    bool many = rng.chance(1, 60);
    struct Away { std::vector<std::unique_ptr<Loader>>& ls; ~Away() { ls.clear(); } } away{ls};
    for (int step = many ? rng.in(60, 200) : rng.in(3, 25); step > 0; step--) {
        int op = many && rng.chance(3, 4) ? 3 : rng.upto(12);
        // trouble of the program's own with the dynamic linker, before or between
        if (rng.chance(1, 8)) { dlsym(RTLD_DEFAULT, "no_such_symbol_anywhere"); log += "dlsym; "; ev("pending_errors"); }
        str what;
        if (op < 2 || ls.empty()) {
            auto l = std::make_unique<Loader>();
            l->kind = rng.in(1, 2);
            what = fmt("load probe%d", l->kind);
            log += what + "; ";
            mustWork("module.load", log, [&] { l->m = rng.chance(1, 3) ? std::make_unique<lu::filemodule>(fmt("probe%d", l->kind).c_str()) : std::make_unique<lu::module>(fmt("probe%d", l->kind).c_str()); });
            loseCopy(*l->m);
            ls.push_back(std::move(l));
            ev("loads");
        }
        else if (op < 7) {
            Loader& l = *ls[many ? 0 : rng.upto(ls.size())];
            var a = rng.chance(1, 3) ? var() : md::build(randVal(1));
            str ca = vh::canon(a);
            long b = built;
            Inst i{0, 0, {}};
            log += "create; ";
            bool def = rng.chance(1, 6);
            mustWork("module.create", log, [&] { i.p = dynamic_cast<Probe*>(def ? &l.m->lu::module::create() : &l.m->lu::module::create(a)); });
            check(i.p, "module.create", log + "not the instance the factory made");
            check(built == b + 1, "module.create", log + fmt("the factory ran %ld times", built - b));
            check(lastArg == (def ? vh::canon(var()) : ca), "module.argument", log + "the factory got " + lastArg + ", not " + ca);
            check(vh::canon(a) == ca, "module.argument", log + "changed the argument");
            for (auto& o : ls) for (auto& x : o->in) check(x.p != i.p, "module.create", log + "gave an instance that exists");
            check(alive.size() && dynamic_cast<void*>(i.p) == alive.back().self, "module.create", log + "gave some other instance");
            l.in.push_back(i);
            ev("instances");
        }
        else if (op < 10) {
            log += "use; ";
            for (auto& l : ls) for (auto& i : l->in) if (rng.chance(1, 2)) exercise(*l, i, log);
        }
        else if (op == 10) {
            Loader& l = *ls[rng.upto(ls.size())];
            size_t n = alive.size();
            log += "create, throwing; ";
            if (rng.chance(1, 2)) mustThrow("module.factory_throws", log, [&] { l.m->lu::module::create("throw"); });
            check(alive.size() == n, "module.alive", log + "left an instance");
            ev("factory_throws");
        }
        else {
            int k = rng.upto(ls.size());
            log += "unload " + desc(*ls[k]) + "; ";
            long g = gone;
            size_t n = ls[k]->in.size();
            std::set<void*> mine;
            for (auto& i : ls[k]->in) mine.insert(dynamic_cast<void*>(i.p));
            ls[k]->m.reset();
            check(gone - g == long(n), "module.destroyed", log + fmt("%ld instances destroyed, not %zu", gone - g, n));
            for (auto& a : alive) check(!mine.count(a.self), "module.destroyed", log + "an instance was left");
            ls.erase(ls.begin() + k);
            ev("unloads");
        }
        maxOpen = std::max(maxOpen, int(ls.size()));
        state(log);
    }
    note(log);
    distinct(log);
    if (rng.chance(1, 60)) sample(log.substr(0, 300));
    if (maxOpen > 2) ev("several_loaders");
    // in any order
    while (ls.size()) { int k = rng.upto(ls.size()); ls[k]->m.reset(); ls.erase(ls.begin() + k); state(log + "end"); ev("unloads"); for (auto& l : ls) for (auto& i : l->in) exercise(*l, i, log + "after unloading another loader"); }
    check(built == gone, "module.destroyed", log + fmt("%ld instances constructed, %ld destroyed", built, gone));
}

VH_CASE_W(module_broken, 2)
{
    alive.clear();
    trouble = "";
    built = gone = 0;
    // the message storage of the dynamic linker
    std::unique_ptr<lu::module> good;
    Probe* p = 0;
    long sum = 0;
    if (rng.chance(1, 2)) { good = std::make_unique<lu::module>("probe1"); p = dynamic_cast<Probe*>(&good->create(1)); }
    int n = objects(), fds = openFds();
    const char* names[] = {"probe-text", "probe-empty", "probe-head", "probe-dir", "probe-missing", "probe3", "probe4"};
    str log;
    for (int k = rng.in(1, 4); k > 0; k--) {
        str name = rng.chance(1, 8) ? randStr() : str(names[rng.upto(7)]);
        if (name.find('/') != str::npos || name.find('\0') != str::npos) name = "";
        log += "load '" + show(name, 60) + "'; ";
        if (name == "probe4") {
            lu::module m(S(name));
            long e = empties;
            mustThrow("module.no_instance", log, [&] { m.create(); });
            check(empties == e + 1, "module.no_instance", log + "the factory did not run once");
            ev("no_instance");
        }
        else {
            str m = mustThrow("module.broken", log, [&] { if (rng.chance(1, 2)) lu::module x(S(name)); else lu::filemodule x(S(name)); });
            check(m.size() > 0, "module.broken", log + "no message");
            ev(name == "probe3" ? "no_factory" : "no_library");
        }
        check(objects() == n, "module.left_loaded", log + fmt("%d objects loaded, %d before", objects(), n));
        check(openFds() == fds, "module.fds", log + "left a file open");
        if (p) check(p->step(7) == (sum += 7), "module.state", log + "a good instance lost its state");
        else if (rng.chance(1, 2)) { lu::module g("probe2"); Probe* q = dynamic_cast<Probe*>(&g.create()); check(q && q->step(3) == 6, "module.after", log + "a module loaded afterwards does not work"); ev("recovered"); }
    }
    if (rng.chance(1, 8)) {
        // an instance that isn't what the loader is for belongs to it all the same
        lu::filemodule f("probe2");
        mustThrow("module.wrong_kind", "a file module that makes something else", [&] { f.create(); });
        ev("wrong_kind");
    }
    good.reset();
    check(trouble.empty() && alive.empty(), "module.alive", log + trouble + fmt(", %zu alive", alive.size()));
    note(log);
    distinct("broken " + log);
}

// The modules that come with the library, loaded several times
VH_CASE(module_real)
{
    str f = scratch() + "/m.txt", g = scratch() + "/m.ini";
    str line = fmt("line %d", rng.upto(1000)), val = fmt("value%d", rng.upto(1000));
    std::ofstream(f) << line << "\n" << "second\n";
    std::ofstream(g) << "[s]\nk = " << val << "\n";
    struct L { int kind; std::unique_ptr<lu::filemodule> m; std::unique_ptr<lu::pathmodule> pm; lu::file* f; lu::path* p; };
    std::vector<std::unique_ptr<L>> ls;
    std::vector<std::pair<int, var>> results;
    str log;
    auto use = [&](L& l) {
        mustWork("module.real", log, [&] {
            if (l.kind == 0) { var v = l.f->read(S(f)); check(v.size() == 2 && text(v[0]) == line, "module.real_result", log + "text file read as " + vh::canon(v)); results.push_back({0, v}); }
            if (l.kind == 1) { var v = l.f->read(S(g)); check(v.size() == 1 && text(v["s"]["k"]) == val, "module.real_result", log + "INI file read as " + vh::canon(v)); results.push_back({1, v}); }
            if (l.kind == 2) { var v = l.p->rdir(); check(v.size() == 1 && text(v.key(0)) == f, "module.real_result", log + "listed as " + vh::canon(v)); results.push_back({2, v}); }
        });
    };
    for (int n = rng.in(3, 12); n > 0; n--) {
        int op = rng.upto(4);
        if (op == 0 || ls.empty()) {
            auto l = std::make_unique<L>();
            l->kind = rng.upto(3);
            if (l->kind == 2) { l->pm = std::make_unique<lu::pathmodule>(); l->p = &l->pm->create(S(f)); }
            else { l->m = l->kind ? std::make_unique<lu::filemodule>("ini") : rng.chance(1, 2) ? std::make_unique<lu::filemodule>() : std::make_unique<lu::filemodule>("txt"); l->f = &l->m->create(); }
            ls.push_back(std::move(l));
            log += "load; ";
        }
        else if (op < 3) { log += "use; "; use(*ls[rng.upto(ls.size())]); }
        else { log += "unload; "; ls.erase(ls.begin() + rng.upto(ls.size())); }
        if (ls.size() && rng.chance(1, 3)) { L& l = *ls[rng.upto(ls.size())]; log += "another instance; "; if (l.kind == 2) l.p = &l.pm->create(S(f)); else l.f = &l.m->create(); }
    }
    for (auto& l : ls) use(*l);
    ls.clear();
    // what they gave outlives them
    for (auto& r : results) {
        if (r.first == 0) check(text(r.second[0]) == line, "module.outlive", log + "a text read changed on unloading");
        if (r.first == 1) check(text(r.second["s"]["k"]) == val, "module.outlive", log + "a value read changed on unloading");
        if (r.first == 2) check(text(r.second.key(0)) == f, "module.outlive", log + "a listing changed on unloading");
    }
    note(log);
    distinct("real " + log);
    ev("real", results.size());
}

// C26: directory listings.
#include "model.h"
#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
#include <lube/path.h>
using namespace vh;
using namespace md;

namespace {
// What we put on disk
struct Node { char type; std::map<str, Node> sub; };   // 'd' directory, 'f' file, 'l' link, 'p' fifo

str randName()
{
    str s;
    switch (rng.upto(9)) {
    case 0: s = str(1, "abz01-_~"[rng.upto(8)]); break;
    case 1: s = "." + str(rng.in(1, 4), 'h'); break;
    case 2: s = "..." + str(rng.upto(3), '.'); break;
    case 3: for (int n = rng.in(1, 12); n > 0; n--) { char c = char(rng.in(1, 255)); s += c == '/' ? '|' : c; } break;
    case 4: s = str(rng.in(200, 255), 'n'); break;
    case 5: for (int n = rng.in(1, 4); n > 0; n--) s += str(rng.upto(4), 'a') + "."; if (rng.chance(1, 2)) s += "txt"; break;
    case 6: s = "\xc3\xa9t\xc3\xa9 " + fmt("%d", rng.upto(20)); break;
    case 7: s = " " + fmt("%d", rng.upto(9)) + " "; break;
    default: for (int n = rng.in(1, 8); n > 0; n--) s += "abc.d "[rng.upto(6)];
    }
    if (s == "." || s == "..") s += "x";
    return s;
}

int total;
void grow(Node& d, const str& at, int depth, int width)
{
    int n = rng.chance(1, 5) ? 0 : rng.upto(width + 1);
    if (rng.chance(1, 60)) n = rng.chance(1, 6) ? rng.in(100, 380) : rng.in(20, 80);
    for (; n > 0 && total < 400; n--) {
        str name = randName(), p = at + "/" + name;
        if (d.sub.count(name) || p.size() > 3500) continue;
        Node e;
        int t = rng.upto(10);
        if (t < 4 && depth > 0) {
            if (mkdir(p.c_str(), 0755)) continue;
            e.type = 'd';
            grow(e, p, depth - 1, width);
        }
        else if (t < 8) {
            int fd = open(p.c_str(), O_CREAT | O_WRONLY, 0644);
            if (fd < 0) continue;
            if (rng.chance(1, 3)) { ssize_t w = write(fd, "data", 4); (void)w; }
            close(fd);
            e.type = 'f';
        }
        else if (t < 9) {
            const char* to[] = {".", "..", "nowhere", "/dev/null", "a", "./b/../c"};
            str target = rng.chance(1, 4) ? at : rng.chance(1, 8) ? name : str(to[rng.upto(6)]);
            if (symlink(target.c_str(), p.c_str())) continue;
            e.type = 'l';
            ev("links");
        }
        else {
            if (mkfifo(p.c_str(), 0644)) continue;
            e.type = 'p';
        }
        d.sub[name] = e;
        total++;
    }
}
void purge(const Node& d, const str& at)
{
    for (auto& s : d.sub) {
        str p = at + "/" + s.first;
        if (s.second.type == 'd') purge(s.second, p);
        else unlink(p.c_str());
    }
    rmdir(at.c_str());
}
void chain(Node& d, const str& at, int depth)   // a deep tree
{
    Node e;
    str name = fmt("d%d", rng.upto(3)), p = at + "/" + name;
    if (depth == 0 || p.size() > 3500 || mkdir(p.c_str(), 0755)) return;
    e.type = 'd';
    chain(e, p, depth - 1);
    d.sub[name] = e;
}
// everything the operating system says about a tree
str picture(const str& at)
{
    str r;
    struct stat st;
    if (lstat(at.c_str(), &st)) return "?";
    r = fmt("%o %ld %ld %ld.%ld", st.st_mode, long(st.st_size), long(st.st_ino), long(st.st_mtim.tv_sec), long(st.st_mtim.tv_nsec));
    if (!S_ISDIR(st.st_mode)) return r;
    std::map<str, str> sub;
    DIR* d = opendir(at.c_str());
    if (!d) return r;
    while (dirent* e = readdir(d)) { str n = e->d_name; if (n != "." && n != "..") sub[n] = picture(at + "/" + n); }
    closedir(d);
    for (auto& s : sub) r += "{" + s.first + "=" + s.second + "}";
    return r;
}
str outline(const Node& d)
{
    str r;
    for (auto& s : d.sub) { r += str(1, s.second.type) + show(s.first, 40); if (s.second.type == 'd') r += "(" + outline(s.second) + ")"; r += " "; }
    return r;
}

// parts of a path as the documentation of paths has them
str parent(const str& p)
{
    size_t k = p.rfind('/');
    if (k == str::npos) return "";
    while (k > 0 && p[k - 1] == '/') k--;
    return k == 0 ? "/" : p.substr(0, k);
}
str leaf(const str& p) { size_t k = p.rfind('/'); return k == str::npos ? p : p.substr(k + 1); }
void parts(const str& n, str& stem, str& ext)
{
    size_t k = n.rfind('.');
    if (n == "." || n == ".." || k == str::npos || k == 0) { stem = n; ext = ""; }
    else { stem = n.substr(0, k); ext = n.substr(k); }
}

void list(const Node& d, const str& at, bool deep, std::map<str, str>& out)
{
    for (auto& s : d.sub) {
        str p = at + (at.size() && at.back() == '/' ? "" : "/") + s.first;
        out[p] = s.first;
        if (deep && s.second.type == 'd') list(s.second, p, deep, out);
    }
}

void verifyList(var v, const std::map<str, str>& want, bool detail, const str& what)
{
    if (want.empty()) { check(v.size() == 0, "path.count", what + ": an empty directory gives " + vh::canon(v).substr(0, 300)); return; }
    check(v.atype() == lu::TYPE_PAIR, "path.type", what + ": not a map: " + vh::canon(v).substr(0, 200));
    std::set<str> seen;
    for (int i = 0; i < v.size(); i++) {
        var k = v.key(i);
        check(isString(k), "path.key", what + ": a key is " + vh::canon(k));
        str p = text(k);
        check(want.count(p), "path.extra", what + ": lists '" + show(p) + "' which is not there");
        check(seen.insert(p).second, "path.twice", what + ": lists '" + show(p) + "' twice");
        var e = v[i];
        if (!detail) { check(!e.defined(), "path.value", what + ": entry '" + show(p) + "' has the value " + vh::canon(e)); continue; }
        str stem, ext, name = want.at(p);
        parts(name, stem, ext);
        check(e.size() == 3 && isString(e[0]) && isString(e[1]) && isString(e[2]), "path.detail", what + ": details of '" + show(p) + "' are " + vh::canon(e));
        check(text(e[0]) == parent(p), "path.parent", what + ": parent of '" + show(p) + "' is '" + show(text(e[0])) + "'");
        check(text(e[1]) == stem, "path.stem", what + ": stem of '" + show(p) + "' is '" + show(text(e[1])) + "'");
        check(text(e[2]) == ext, "path.extension", what + ": extension of '" + show(p) + "' is '" + show(text(e[2])) + "'");
        ev("details");
    }
    for (auto& w : want) check(seen.count(w.first), "path.missing", what + ": does not list '" + show(w.first) + "'");
    // and can be looked up by path
    auto it = want.begin();
    std::advance(it, rng.upto(want.size()));
    check(!!v.index(S(it->first)), "path.lookup", what + ": '" + show(it->first) + "' is not found by its path");
    ev("entries", want.size());
}
long verifyTree(var v, const Node& d, const str& what)
{
    long n = 1;
    if (d.sub.empty()) { check(v.size() == 0, "tree.count", what + ": an empty directory gives " + vh::canon(v).substr(0, 300)); return n; }
    check(v.atype() == lu::TYPE_PAIR && v.size() == int(d.sub.size()), "tree.count", what + ": gives " + vh::canon(v).substr(0, 400));
    std::set<str> seen;
    for (int i = 0; i < v.size(); i++) {
        str p = text(v.key(i));
        auto it = d.sub.find(p);
        check(it != d.sub.end(), "tree.extra", what + ": has '" + show(p) + "' which is not there");
        check(seen.insert(p).second, "tree.twice", what + ": has '" + show(p) + "' twice");
        var e = v[i];
        if (it->second.type == 'd') n += verifyTree(e, it->second, what + "/" + show(p, 40));
        else check(!e.defined(), "tree.value", what + ": '" + show(p) + "', no directory, has the value " + vh::canon(e).substr(0, 300));
    }
    return n;
}

struct Cwd {
    int fd;
    Cwd() { fd = open(".", O_RDONLY | O_DIRECTORY); }
    ~Cwd() { int r = fchdir(fd); (void)r; close(fd); }
};
}

VH_CASE_W(path_listing, 6)
{
    static long serial;
    str root = scratch() + fmt("/tree%ld", serial++ % 3);
    mkdir(root.c_str(), 0755);
    Node top;
    top.type = 'd';
    total = 0;
    if (rng.chance(1, 12)) chain(top, root, rng.in(10, 120));
    else grow(top, root, rng.in(0, 5), rng.in(1, 7));
    struct Clean { const Node& n; str r; ~Clean() { purge(n, r); } } clean{top, root};
    str before = picture(root), desc = outline(top);
    distinct(desc);
    if (rng.chance(1, 60)) sample("directory tree: " + desc.substr(0, 250));
    int fds = openFds();
    {
        Cwd cwd;
        // how it is named
        str base = root, arg;
        var a;
        switch (rng.upto(6)) {
        case 0: { int r = chdir(root.c_str()); (void)r; a = "."; base = "."; break; }
        case 1: { int r = chdir(root.c_str()); (void)r; base = root; break; }             // nil: current directory
        case 2: base = root + "/"; a = S(base); break;
        case 3: { int r = chdir(scratch().c_str()); (void)r; base = leaf(root); a = S(base); break; }
        case 4: { int r = chdir(scratch().c_str()); (void)r; base = "./" + leaf(root) + "/"; a = S(base); break; }
        default: a = S(root);
        }
        if (!a.defined()) { char b[5000]; base = getcwd(b, 5000); ev("current"); }
        str what = "'" + show(base) + "' of " + desc.substr(0, 1500);
        note(what);
        lu::pathmodule m;
        lu::path& p = m.create(a);
        if (a.defined()) check(text(a) == base, "path.name", what + ": the path was changed");
        std::map<str, str> flat, deep;
        list(top, base, false, flat);
        list(top, base, true, deep);
        var got[4];
        for (int rep = rng.chance(1, 4) ? 2 : 1; rep > 0; rep--) {
            bool det = rng.chance(1, 2);
            int ord = rng.upto(3);
            for (int k = 0; k < 3; k++) switch ((k + ord) % 3) {
            case 0: mustWork("path.dir", "dir " + what, [&] { got[0] = det ? p.dir(true) : rng.chance(1, 2) ? p.dir() : p.dir(false); }); verifyList(got[0], flat, det, "dir " + what); ev("dir"); break;
            case 1: mustWork("path.rdir", "rdir " + what, [&] { got[1] = det ? p.rdir(true) : rng.chance(1, 2) ? p.rdir() : p.rdir(false); }); verifyList(got[1], deep, det, "rdir " + what); ev("rdir"); break;
            case 2: mustWork("path.tree", "tree " + what, [&] { got[2] = p.tree(); }); ev("directories", verifyTree(got[2], top, "tree " + what)); ev("tree"); break;
            }
        }
        // a listing is a value of its own
        if (flat.size()) {
            var again;
            mustWork("path.dir", "dir " + what, [&] { again = p.dir(false); });
            again[0] = 5;
            mustWork("path.dir", "dir " + what, [&] { again = p.dir(false); });
            verifyList(again, flat, false, "second dir " + what);
        }
        // the recursive listing of a file is the file
        for (auto& e : flat) {
            struct stat st;
            if (stat(e.first.c_str(), &st) || !S_ISREG(st.st_mode)) continue;
            std::map<str, str> one{{e.first, e.second}};
            var r;
            bool det = rng.chance(1, 2);
            mustWork("path.rdir_file", "rdir '" + show(e.first) + "'", [&] { r = m.create(S(e.first)).rdir(det); });
            verifyList(r, one, det, "rdir '" + show(e.first) + "'");
            if (rng.chance(1, 10)) mustThrow("path.dir_file", "dir '" + show(e.first) + "'", [&] { m.create(S(e.first)).dir(); });
            ev("file");
            break;
        }
    }
    check(picture(root) == before, "path.disk", "listing changed the disk: " + desc.substr(0, 1000));
    check(openFds() == fds, "path.fds", fmt("%d files open before, %d after listing ", fds, openFds()) + desc.substr(0, 1000));
}

VH_CASE(path_missing)
{
    str p = scratch() + "/" + (rng.chance(1, 2) ? "missing" : randName());
    if (rng.chance(1, 3)) p += "/" + randName();
    if (rng.chance(1, 6)) p = "";
    struct stat st;
    if (p.size() && !stat(p.c_str(), &st)) return;
    bool dangling = false;
    if (rng.chance(1, 4)) { p = scratch() + "/dangling"; dangling = !symlink("gone", p.c_str()); }
    struct Clean { str p; bool on; ~Clean() { if (on) unlink(p.c_str()); } } clean{p, dangling};
    note("missing '" + show(p) + "'");
    distinct("missing " + p);
    int fds = openFds();
    lu::pathmodule m;
    lu::path& h = m.create(S(p));
    int k = rng.upto(3);
    mustThrow("path.missing_path", fmt("%s of missing '", k == 0 ? "dir" : k == 1 ? "rdir" : "tree") + show(p) + "'", [&] { if (k == 0) h.dir(rng.chance(1, 2)); else if (k == 1) h.rdir(rng.chance(1, 2)); else h.tree(); });
    check(openFds() == fds, "path.fds", "files left open after listing missing '" + show(p) + "'");
    ev("missing");
    // the same instance works once it exists
    if (p.size() && !dangling && p.find('/', scratch().size() + 1) == str::npos && !mkdir(p.c_str(), 0755)) {
        var r;
        try { r = h.tree(); } catch (std::exception& e) { rmdir(p.c_str()); fail("path.appeared", "tree of '" + show(p) + "', created since, throws " + e.what()); }
        rmdir(p.c_str());
        check(r.size() == 0, "path.appeared", "tree of '" + show(p) + "', just created, is " + vh::canon(r));
        ev("appeared");
    }
}

// What can't be read is reported, not left out
VH_CASE(path_unreadable)
{
    str root = scratch() + "/priv";
    mkdir(root.c_str(), 0755);
    str in = root + "/in", sub = in + "/locked";
    mkdir(in.c_str(), 0755);
    bool file = rng.chance(1, 2);
    if (file) close(open((in + "/f").c_str(), O_CREAT | O_WRONLY, 0644));
    mkdir(sub.c_str(), 0755);
    close(open((sub + "/inside").c_str(), O_CREAT | O_WRONLY, 0644));
    chmod(sub.c_str(), 0);
    int cwd = open(in.c_str(), O_RDONLY | O_DIRECTORY);
    int k = rng.upto(2);
    bool threw = false, skipped = false, odd = false;
    str msg;
    {
        Cwd keep;
        lu::pathmodule m;
        int r = fchdir(cwd);
        (void)r;
        if (seteuid(65534) == 0) {
            DIR* d = opendir("locked");
            if (d) { closedir(d); skipped = true; }
            else if (access("locked", F_OK) != 0) skipped = true;
            else try { var v; lu::path& h = m.create("."); if (k == 0) v = h.rdir(); else v = h.tree(); msg = vh::canon(v); }
            catch (std::exception&) { threw = true; }
            catch (...) { odd = true; }
            if (seteuid(0)) skipped = true;
        }
        else skipped = true;
    }
    close(cwd);
    chmod(sub.c_str(), 0755);
    unlink((sub + "/inside").c_str());
    rmdir(sub.c_str());
    unlink((in + "/f").c_str());
    rmdir(in.c_str());
    rmdir(root.c_str());
    note("listing with an unreadable sub-directory");
    if (skipped) { ev("unreadable.skipped"); return; }
    check(!odd, "path.unreadable", "an unreadable sub-directory: not a std::exception");
    check(threw, "path.unreadable", fmt("%s of a directory with an unreadable sub-directory gives ", k ? "tree" : "rdir") + msg);
    ev("unreadable");
}

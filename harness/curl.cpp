// C32: transfers of URLs.
#include "model.h"
#include <arpa/inet.h>
#include <fstream>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <sys/socket.h>
#include <unistd.h>
#include <lube/curl.h>
using namespace vh;
using namespace md;

namespace {
// A server for one connection at a time, that delivers prepared bytes in
// prepared pieces.  It allocates nothing, so memory can be balanced.
struct Piece { size_t n; int wait; };
struct Server {
    int fd = -1, port = 0;
    const char* data = 0;
    std::vector<Piece> pieces;
    pthread_t t;
    char request[8192];
    size_t got = 0;
    bool reset = false;
    int connections = 0;

    Server()
    {
        signal(SIGPIPE, SIG_IGN);
        fd = socket(AF_INET, SOCK_STREAM, 0);
        sockaddr_in a{};
        a.sin_family = AF_INET;
        a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        socklen_t l = sizeof a;
        if (fd < 0 || bind(fd, (sockaddr*)&a, l) || listen(fd, 4) || getsockname(fd, (sockaddr*)&a, &l)) { perror("loopback server"); _exit(98); }
        port = ntohs(a.sin_port);
    }
    ~Server() { close(fd); }
    void serve()
    {
        pollfd p{fd, POLLIN, 0};
        if (poll(&p, 1, 5000) != 1) return;
        int c = accept(fd, 0, 0);
        if (c < 0) return;
        connections++;
        int one = 1;
        setsockopt(c, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
        got = 0;
        while (got < sizeof request - 1) {
            ssize_t n = read(c, request + got, sizeof request - 1 - got);
            if (n <= 0) break;
            got += n;
            request[got] = 0;
            if (strstr(request, "\r\n\r\n")) break;
        }
        size_t at = 0;
        for (auto& p : pieces) {
            if (p.wait) usleep(p.wait);
            for (size_t end = at + p.n; at < end;) { ssize_t n = send(c, data + at, end - at, MSG_NOSIGNAL); if (n <= 0) goto out; at += n; }
        }
    out:
        if (reset) { linger l{1, 0}; setsockopt(c, SOL_SOCKET, SO_LINGER, &l, sizeof l); }
        else shutdown(c, SHUT_WR);
        // let the other side close first
        char b[100];
        pollfd q{c, POLLIN, 0};
        if (!reset) while (poll(&q, 1, 2000) == 1 && read(c, b, sizeof b) > 0) ;
        close(c);
    }
    static void* run(void* s) { static_cast<Server*>(s)->serve(); return 0; }
    void start() { if (pthread_create(&t, 0, run, this)) _exit(98); }
    void join() { pthread_join(t, 0); }
};

str body()
{
    str s;
    static const int edge[] = {0, 1, 2, 3, 1023, 1024, 1025, 4096, 16383, 16384, 16385, 32768, 65536};
    int n;
    switch (rng.upto(6)) {
    case 0: n = edge[rng.upto(rng.chance(1, 4) ? 13 : 8)] + rng.upto(2); break;
    case 1: n = rng.chance(1, 10) ? rng.in(66000, 400000) : rng.in(1000, 20000); break;
    default: n = rng.upto(300);
    }
    int style = rng.upto(5);
    s.resize(n);
    for (int i = 0; i < n; i++)
        switch (style) {
        case 0: s[i] = char(rng.upto(256)); break;
        case 1: s[i] = rng.chance(1, 3) ? 0 : 'a'; break;
        case 2: s[i] = "abc \n\r"[rng.upto(6)]; break;
        case 3: s[i] = char('0' + i % 10); break;
        default: s[i] = rng.chance(1, 50) ? 0 : char(128 + i % 128);
        }
    return s;
}
str put(const str& b)
{
    static int n;
    str f = scratch() + fmt("/body%d", n++ % 3);
    std::ofstream(f, std::ios::binary) << b;
    return f;
}
void verify(var v, const str& want, const str& what)
{
    check(isString(v), "curl.type", what + ": the result is no string: " + vh::canon(v).substr(0, 200));
    str got = text(v);
    check(got.size() == want.size(), "curl.size", what + fmt(": %zu bytes returned, %zu served", got.size(), want.size()));
    if (got != want) {
        size_t i = 0;
        while (got[i] == want[i]) i++;
        fail("curl.content", what + fmt(": byte %zu is '", i) + show(got.substr(i, 30)) + "', served '" + show(want.substr(i, 30)) + "'");
    }
    ev("bytes", got.size());
}
}

VH_CASE_W(curl_transfers, 4)
{
    static Server* server = new Server;
    static bool once;
    if (!once) {
        for (const char* p : {"http_proxy", "https_proxy", "all_proxy", "ALL_PROXY", "HTTP_PROXY", "HTTPS_PROXY"}) unsetenv(p);
        setenv("no_proxy", "*", 1);
        // the libraries below fill their caches on first use
        lu::curlmodule m;
        str f = put("x");
        m.create().transfer(S("file://" + f));
        try { m.create().transfer("http://127.0.0.1:1/"); } catch (std::exception&) {}
        once = true;
    }
    int fds = openFds();
    str log;
    {
        lu::curlmodule mod, mod2;
        std::vector<lu::curl*> c;
        for (int n = rng.in(1, 3); n > 0; n--) c.push_back(&(rng.chance(1, 2) ? mod : mod2).create());
        struct Done { var v; str body, what; };
        std::vector<Done> done;
        for (int n = rng.in(1, 3); n > 0; n--) {
            lu::curl& h = *c[rng.upto(c.size())];
            str b = body(), what;
            var r;
            int k = rng.upto(10);
            if (k < 3) {
                str f = put(b), url = "file://" + f;
                what = fmt("file of %zu bytes '", b.size()) + show(b, 30) + "'";
                log += what + "; ";
                var u = S(url);
                mustWork("curl.file", what, [&] { r = h.transfer(u); });
                check(text(u) == url, "curl.operand", what + ": the URL was changed");
                verify(r, b, what);
                ev("files");
                done.push_back({r, b, what});
                continue;
            }
            if (k == 3) {
                // cannot be fetched
                str url;
                switch (rng.upto(5)) {
                case 0: url = "file://" + scratch() + "/missing"; break;
                case 1: url = "nosuchscheme://host/"; break;
                case 2: url = "http://127.0.0.1:1/refused"; break;
                case 3: url = ""; break;
                default: url = "http://127.0.0.1:99999/"; break;
                }
                what = "transfer of '" + url + "'";
                log += what + "; ";
                mustThrow("curl.unfetchable", what, [&] { h.transfer(S(url)); });
                ev("unfetchable");
                continue;
            }
            // over HTTP: by length, chunked, or until the connection closes
            int mode = rng.upto(3);
            bool cut = rng.chance(1, 10);
            str head = "HTTP/1.1 200 OK\r\nContent-Type: application/octet-stream\r\nConnection: close\r\n", wire;
            if (rng.chance(1, 12)) { head = "HTTP/1.1 404 Not Found\r\nConnection: close\r\n"; ev("other_status"); }
            if (rng.chance(1, 12)) head = "HTTP/1.1 100 Continue\r\n\r\n" + head;
            if (mode == 0) { head += fmt("Content-Length: %zu\r\n", b.size()); wire = b; }
            else if (mode == 1) {
                head += "Transfer-Encoding: chunked\r\n";
                size_t at = 0;
                int max = rng.chance(1, 2) ? 20 : 20000;
                if (b.size() > 20000) max = 20000;
                while (at < b.size()) { size_t l = std::min<size_t>(b.size() - at, rng.in(1, max)); wire += fmt("%zx\r\n", l) + b.substr(at, l) + "\r\n"; at += l; }
                wire += "0\r\n\r\n";
            }
            else wire = b;
            str all = head + "\r\n" + wire;
            if (cut) {
                size_t h0 = all.size() - wire.size();
                if (mode == 2) all.resize(rng.upto(10));     // not even a header
                else if (wire.size() > 1) all.resize(h0 + rng.upto(int(wire.size()) - (mode == 1 ? 4 : 0)));
                else cut = false;
            }
            what = fmt("%zu bytes '", b.size()) + show(b, 30) + "' over HTTP " + (mode == 0 ? "by length" : mode == 1 ? "chunked" : "until close") + (cut ? fmt(" cut to %zu of it", all.size()) : str());
            server->data = all.data();
            server->pieces.clear();
            server->reset = cut && rng.chance(1, 3);
            int np = rng.upto(4) ? rng.in(1, 6) : rng.in(6, 60);
            size_t at = 0;
            for (int i = 0; i < np; i++) {
                size_t l = i == np - 1 ? all.size() - at : size_t(rng.upto(int(all.size() - at) + 1));
                if (np > 6 && i < np - 1) l = std::min<size_t>(l, rng.in(1, 40));
                server->pieces.push_back({l, i && rng.chance(1, 4) ? rng.in(1, 2000) : 0});
                at += l;
            }
            what += fmt(" in %d pieces", np);
            log += what + "; ";
            note(log);
            server->start();
            var u = S(fmt("http://127.0.0.1:%d/path?q=%d", server->port, rng.upto(100)));
            str e;
            bool threw = false, odd = false;
            try { r = h.transfer(u); } catch (std::exception& x) { threw = true; e = x.what(); } catch (...) { odd = true; }
            server->join();
            check(!odd, "curl.exception", what + ": not a std::exception");
            if (cut) { check(threw, "curl.cut", what + fmt(": gave %d bytes, no exception", threw ? 0 : r.size())); ev("cut"); continue; }
            check(!threw, "curl.http", what + ": threw " + e.substr(0, 200));
            verify(r, b, what);
            ev("http");
            if (mode == 1) ev("chunked");
            done.push_back({r, b, what});
        }
        // transfers are independent of each other
        if (done.size() > 1 && rng.chance(1, 2)) { int k = rng.upto(done.size()); done[k].v.push('x'); done[k].body += 'x'; }
        for (auto& d : done) verify(d.v, d.body, "after other transfers, " + d.what);
    }
    note(log);
    distinct(log);
    if (rng.chance(1, 40)) sample(log.substr(0, 300));
    check(openFds() == fds, "curl.fds", log + fmt(": %d files open, %d before", openFds(), fds));
}

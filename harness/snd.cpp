// C24: audio files.
#include "model.h"
#include <fstream>
#include <unistd.h>
using namespace vh;
using namespace md;

static str path() { static int n = 0; return scratch() + fmt("/a%d.wav", n++ % 5); }
typedef std::vector<std::vector<float>> Chan;         // [channel][frame]

static Chan randChan(int c, int n)
{
    Chan r(c, std::vector<float>(n));
    int how = rng.upto(4);
    for (auto& x : r) for (auto& s : x)
        switch (how) {
        case 0: s = rng.sym() * 0.999f; break;
        case 1: s = float(rng.in(-32767, 32767)) / 32768; break;
        case 2: { static const float v[] = {0.f, -1.f, 0.99999f, -0.99999f, 1e-6f, -0.f, 0.5f, -0.5f, 1.f / 32768, -1.f / 65536}; s = v[rng.upto(10)]; } break;
        default: s = rng.chance(1, 3) ? 0.f : float(rng.sym() * 0.01);
        }
    return r;
}
static unsigned le(const str& b, size_t at, int n) { unsigned v = 0; for (int i = n - 1; i >= 0; i--) v = v << 8 | (unsigned char)b[at + i]; return v; }
static str slurp(const str& f) { std::ifstream in(f, std::ios::binary); return str((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>()); }
struct Wav { int channels = 0, rate = 0, bits = 0; std::vector<short> data; };
static Wav parse(const str& d, const str& b)
{
    Wav w;
    check(b.size() >= 12 && b.substr(0, 4) == "RIFF" && b.substr(8, 4) == "WAVE", "wav.format", d + ": the file is not a WAV file: " + show(b.substr(0, 40)));
    bool data = false;
    for (size_t at = 12; at + 8 <= b.size();) {
        str id = b.substr(at, 4);
        size_t n = le(b, at + 4, 4);
        check(at + 8 + n <= b.size(), "wav.format", d + ": a chunk is cut short");
        if (id == "fmt ") { w.channels = le(b, at + 10, 2); w.rate = le(b, at + 12, 4); w.bits = le(b, at + 22, 2); }
        if (id == "data") { data = true; for (size_t i = 0; i + 1 < n; i += 2) w.data.push_back(short(le(b, at + 8 + i, 2))); }
        at += 8 + n + (n & 1);
    }
    check(data && w.channels > 0 && w.bits == 16, "wav.format", d + fmt(": %d channels of %d bits", w.channels, w.bits));
    return w;
}
static str compose(const Chan& c, int n, int rate, std::vector<short>& raw)
{
    auto put = [](unsigned v, int k) { str r; for (int i = 0; i < k; i++) r += char(v >> 8 * i); return r; };
    str d;
    raw.clear();
    for (int i = 0; i < n; i++) for (auto& x : c) { short s = short(lrint(x[i] * 32767)); if (rng.chance(1, 200)) s = rng.chance(1, 2) ? -32768 : 32767; raw.push_back(s); d += put((unsigned short)s, 2); }
    int ch = c.size();
    str f = put(1, 2) + put(ch, 2) + put(rate, 4) + put(rate * ch * 2, 4) + put(ch * 2, 2) + put(16, 2);
    str extra = rng.chance(1, 4) ? str("LIST") + put(4, 4) + "INFO" : "";
    str body = "WAVE" + str("fmt ") + put(f.size(), 4) + f + extra + "data" + put(d.size(), 4) + d;
    return "RIFF" + put(body.size(), 4) + body;
}
// the samples as a variable, in one of several forms; 2-d iff more than one channel
static var hold(const Chan& c, int n, int& form, var& home)
{
    int ch = c.size();
    form = rng.upto(4);
    OP o = newObj(lu::TYPE_FLOAT);
    int lead = form == 1 ? rng.in(1, 3) : 0, trail = form == 1 ? rng.in(1, 3) : 0;
    auto junk = [&](int k) { for (; k > 0; k--) { Num x; x.t = lu::TYPE_FLOAT; x.re = 0.77f; o->d.push_back(x); } };
    junk(lead * n);
    for (auto& x : c) for (float s : x) { Num y; y.t = lu::TYPE_FLOAT; y.re = s; o->d.push_back(y); }
    junk(trail * n);
    home = build(MV(o));
    if (home.size() == 1 && !home.heap()) home.array();
    if (form == 1) return ch == 1 && rng.chance(1, 2) ? home.view({n}, lead * n) : home.view({ch, n}, lead * n);
    if (ch > 1 || form == 2) return home.view({ch, n});
    return home;
}
static str shapeOf(var v) { str r; for (int i = 0; i < v.dim(); i++) r += fmt("%d,", v.shape(i)); return r; }
static void same(const str& key, const str& d, var r, int ch, int n, std::function<float(int, int)> want, float tol)
{
    check(r.defined() && r.atype<float>() && r.size() == ch * n, key.c_str(), d + ": gives " + kind(r) + fmt(" of %d", r.size()));
    if (ch == 1) check(r.dim() == 1, key.c_str(), d + ": has shape " + shapeOf(r));
    else check(r.dim() == 2 && r.shape(0) == ch && r.shape(1) == n, key.c_str(), d + ": has shape " + shapeOf(r));
    for (int c = 0; c < ch; c++) for (int i = 0; i < n; i++) {
        float got = ch == 1 ? elem<float>(r, i) : r(c, i).get<float>();
        check(std::fabs(got - want(c, i)) <= tol, key.c_str(), d + fmt(": channel %d sample %d is %.9g, should be %.9g", c, i, got, want(c, i)));
    }
}
static const int rates[] = {8000, 11025, 16000, 44100, 48000, 96000, 1, 12345};
static int frames() { return rng.chance(1, 1200) ? rng.in(60000, 260000) : rng.chance(1, 25) ? rng.in(1000, 6000) : rng.chance(1, 5) ? rng.in(1, 3) : rng.in(1, 40); }

VH_CASE_W(snd_roundtrip, 4)
{
    int ch = rng.chance(1, 2) ? 1 : rng.chance(1, 8) ? rng.in(6, 12) : rng.in(2, 5), n = frames(), rate = rates[rng.upto(8)], form;
    Chan c = randChan(ch, n);
    var home, v = hold(c, n, form, home), attr;
    str d = fmt("%d channels of %d samples at %d (form %d)", ch, n, rate, form);
    note(d);
    distinct(d + fmt("%g %g", c[0][0], c[ch - 1][n - 1]));
    if (rng.chance(1, 60)) sample(d);
    str before = vh::canon(v), all = vh::canon(home), f = path();
    attr["rate"] = rate;
    lu::filemodule m("snd");
    lu::file& h = m.create(attr);
    int fds = openFds();
    mustWork("snd.write", d, [&] { h.write(S(f), v); });
    check(vh::canon(v) == before && vh::canon(home) == all, "snd.input", d + ": writing changed the samples");
    check(openFds() == fds, "snd.fd", d + ": a file is left open after writing");
    Wav w = parse(d, slurp(f));
    check(w.channels == ch && w.rate == rate && int(w.data.size()) == ch * n, "wav.header", d + fmt(": the file has %d channels, rate %d, %d samples", w.channels, w.rate, int(w.data.size())));
    for (int i = 0; i < n; i++) for (int k = 0; k < ch; k++)
        check(std::fabs(w.data[i * ch + k] / 32768.f - c[k][i]) <= 1.51f / 32768, "wav.sample", d + fmt(": channel %d sample %d is stored as %d, should be %.9g", k, i, w.data[i * ch + k], c[k][i]));
    var r;
    var none;
    lu::file& g = rng.chance(1, 2) ? h : m.create(none);
    mustWork("snd.read", d, [&] { r = g.read(S(f)); });
    check(openFds() == fds, "snd.fd", d + ": a file is left open after reading");
    same("snd.samples", d, r, ch, n, [&](int k, int i) { return c[k][i]; }, 1.51f / 32768);
    check(vh::canon(v) == before, "snd.input", d + ": reading changed the samples written");
    // what was read can be written again, to the same 16 bit samples give or take rounding
    str f2 = path();
    if (rng.chance(1, 2)) {
        lu::file& k = &g == &h ? h : (rng.chance(1, 2) ? h : g);
        mustWork("snd.write", d + " (again)", [&] { k.write(S(f2), r); });
        Wav w2 = parse(d, slurp(f2));
        check(w2.rate == rate && w2.channels == ch && w2.data.size() == w.data.size(), "wav.header", d + fmt(": written again, has %d channels, rate %d, %d samples", w2.channels, w2.rate, int(w2.data.size())));
        for (size_t i = 0; i < w.data.size(); i++) check(std::abs(w2.data[i] - w.data[i]) <= 1, "wav.sample", d + ": written again, a sample differs");
        ev("rewritten");
    }
    // a disk that fills up before all of it is written
    if (rng.chance(1, 4)) {
        long all = slurp(f).size(), room = rng.chance(1, 2) ? 44 + rng.upto(all - 44) : rng.upto(all);
        mustThrow("snd.full", d + fmt(" written where only %ld bytes of %ld fit", room, all), [&] { FullDisk full(room); h.write(S(f), v); });
        check(vh::canon(v) == before, "snd.input", d + ": writing changed the samples");
        check(openFds() == fds, "snd.fd", d + ": a file is left open after writing");
        ev("disk_full");
    }
    ev("round_trips");
    ev("samples", ch * n);
    if (ch > 1) ev("multichannel");
    if (form == 1) ev("views");
}

VH_CASE_W(snd_read, 2)
{
    int ch = rng.in(1, 4), n = rng.chance(1, 10) ? 0 : frames(), rate = rates[rng.upto(8)];
    Chan c = randChan(ch, n);
    std::vector<short> raw;
    str b = compose(c, n, rate, raw), f = path();
    std::ofstream(f, std::ios::binary) << b;
    str d = fmt("a WAV file of %d channels, %d frames", ch, n);
    note(d);
    distinct(d + fmt("%zu", hash(b)));
    lu::filemodule m("snd");
    var attr;
    if (rng.chance(1, 2)) attr["other"] = 1;
    lu::file& h = m.create(attr);
    var r, r2;
    int fds = openFds();
    if (rng.chance(1, 4)) {
        // another file first, of another rate
        std::vector<short> raw0;
        str f0 = path();
        std::ofstream(f0, std::ios::binary) << compose(c, n, rate + rng.in(1, 9), raw0);
        mustWork("snd.read", d + " (another before it)", [&] { h.read(S(f0)); });
    }
    mustWork("snd.read", d, [&] { r = h.read(S(f)); });
    if (n) same("snd.samples", d, r, ch, n, [&](int k, int i) { return raw[i * ch + k] / 32768.f; }, 1e-7f);
    else check(r.size() == 0 || !r.defined(), "snd.empty", d + ": gives " + vh::canon(r).substr(0, 200));
    if (attr.defined()) check(attr["rate"].cast<int>() == rate, "snd.rate", d + ": the rate found is " + vh::canon(attr["rate"]));
    // independent of a later read
    str before = vh::canon(r);
    mustWork("snd.read", d, [&] { r2 = h.read(S(f)); });
    check(vh::canon(r2) == before, "snd.again", d + ": the second time gives something else");
    if (n) { if (ch == 1) r2.at(0) = 0.123f; else r2(0, 0) = 0.123f; check(vh::canon(r) == before, "snd.shared", d + ": two reads share their samples"); }
    check(slurp(f) == b, "snd.file", d + ": reading changed the file");
    check(openFds() == fds, "snd.fd", d + ": a file is left open");
    ev("files");
    if (!n) ev("empty_files");
}

VH_CASE_W(snd_reject, 1)
{
    lu::filemodule m("snd");
    var attr;
    attr["rate"] = 8000;
    lu::file& h = m.create(attr);
    int fds = openFds(), k = rng.upto(11);
    str d = fmt("rejected call %d", k);
    note(d);
    distinct(d);
    var a, r = "before";
    a = {0.5f, 0.25f, -0.5f};
    var name = S(path());
    mustThrow("snd.accepted", d, [&] {
        switch (k) {
        case 0: r = h.read(S(scratch() + "/absent.wav")); break;
        case 1: { str f = path(); std::ofstream(f) << "this is no audio file, whatever its name says"; r = h.read(S(f)); break; }
        case 2: r = h.read(S(scratch())); break;
        case 3: h.write(S(scratch() + "/no/such/dir/x.wav"), a); break;
        case 4: h.write(S(scratch()), a); break;
        case 5: { var x; x = {1.0, 0.5}; h.write(name, x); break; }
        case 6: { var x = rng.chance(1, 2) ? var("text") : lu::nil; h.write(name, x); break; }
        case 8: h.write(S("/dev/full"), a); break;
        case 9: {
            // more samples than any array can hold, none of them stored
            str f = path(), b;
            auto put = [](unsigned v, int k) { str r; for (int i = 0; i < k; i++) r += char(v >> 8 * i); return r; };
            int ch = rng.in(1, 2);
            unsigned n = 0x80000000u + 2 * rng.upto(1000);
            b = "RIFF" + put(n + 36, 4) + "WAVEfmt " + put(16, 4) + put(1, 2) + put(ch, 2) + put(8000, 4) + put(8000 * ch, 4) + put(ch, 2) + put(8, 2) + "data" + put(n, 4);
            std::ofstream(f) << b;
            struct Gone { str f; ~Gone() { unlink(f.c_str()); } } gone{f};
            if (truncate(f.c_str(), off_t(b.size()) + n)) throw lu::error("no sparse files here");
            r = h.read(S(f));
            break;
        }
        case 7: { var x = lu::view({2, 2, 2}, 0.0f); h.write(name, x); break; }
        default: { var x; x = {1, 2}; h.write(name, x); break; }
        }
    });
    check(text(r) == "before", "snd.assigned", d + ": a value was assigned");
    check(openFds() == fds, "snd.fd", d + ": a file is left open");
    str f = path();
    mustWork("snd.after", d, [&] { h.write(S(f), a); r = h.read(S(f)); });
    check(r.size() == 3 && std::fabs(elem<float>(r, 2) + 0.5f) < 1e-4f, "snd.after", d + ": a later file reads as " + vh::canon(r).substr(0, 200));
    ev("rejected");
}

// C13: forward and inverse discrete Fourier transforms of every row.
#include "tensor.h"
#include <atomic>
#include <thread>
#include <lube/dft.h>
using namespace ts;
typedef std::complex<long double> cld;

static Num value(int t)
{
    auto r = [&] { return rng.chance(1, 4) ? rng.in(-5, 5) * 1.0 : rng.sym() * 10; };
    if (isInt(t)) return mkInt(t, rng.in(-9, 9));
    double a = r(), b = r();
    return mkFlt(t, a, isCplx(t) ? b : 0);
}
// Without MKL, transforms are only of single precision, and of even length if real
#ifdef VH_FALLBACK
static int anyType() { return rng.chance(1, 2) ? int(TYPE_FLOAT) : int(TYPE_CFLOAT); }
static int length(int type, int n) { return type == TYPE_FLOAT && n % 2 ? n + 1 : n; }
#else
static int anyType() { return rng.in(TYPE_FLOAT, TYPE_CDOUBLE); }
static int length(int, int n) { return n; }
#endif
static Num filler(int t) { return mkNum(t, 77); }
static cld lc(const Num& n) { return cld(n.re, n.im); }
static Num num(int t, cld x) { return {t, 0, double(x.real()), isCplx(t) ? double(x.imag()) : 0}; }
static var zero(int t) { return numVar(mkFlt(t, 0)); }
static int cplxOf(int t) { return t == TYPE_FLOAT ? int(TYPE_CFLOAT) : t == TYPE_DOUBLE ? int(TYPE_CDOUBLE) : t; }

static std::vector<cld> twiddle(int n)
{
    std::vector<cld> w(n);
    const long double pi = acosl(-1.0L);
    for (int i = 0; i < n; i++) w[i] = std::polar(1.0L, -2 * pi * i / n);
    return w;
}
/// reference transform of all the rows of a; inverse scaled by 1/n; real inverses of n/2+1 values give n
static void reference(const Tensor& a, int n, int type, bool inverse, std::vector<Num>& want, std::vector<double>& mag)
{
    auto w = twiddle(n);
    int row = a.shape.back(), rows = a.size() / row, nOut = inverse ? n : isReal(type) ? n / 2 + 1 : n;
    for (int r = 0; r < rows; r++) {
        std::vector<cld> x(n);
        for (int i = 0; i < row; i++) x[i] = lc(a.at(r * row + i));
        if (inverse && isReal(type)) for (int i = row; i < n; i++) x[i] = std::conj(x[n - i]);
        long double m = 0;
        for (auto& v : x) m += std::abs(v);
        for (int k = 0; k < nOut; k++) {
            cld s = 0;
            for (int i = 0; i < n; i++) { cld t = w[(long)i * k % n]; s += x[i] * (inverse ? std::conj(t) : t); }
            if (inverse) s /= (long double)n;
            want.push_back(num(inverse ? type : cplxOf(type), s));
            mag.push_back(double(inverse ? m / n : m));
        }
    }
}

// Take a copy of a functor, or assign it over another, and lose either one.
// (Copying needn't be possible)
template<class T, class M> static void recopy(std::unique_ptr<T>& f, M make)
{
    if constexpr (std::is_copy_constructible_v<T> && std::is_copy_assignable_v<T>) {
        std::unique_ptr<T> c(rng.chance(1, 2) ? new T(*f) : make());
        *c = *f;
        ev("functors_copied");
        if (rng.chance(2, 3)) std::swap(c, f);
    }
}

VH_CASE_W(dft_forward, 6)
{
    int type = anyType();
    int n = length(type, rng.chance(1, 12) ? rng.in(33, thorough ? 700 : 130) : rng.in(1, 32));
    bool dflt = type == TYPE_FLOAT && rng.chance(1, 2);
    std::unique_ptr<lu::DFT> f(dflt ? new lu::DFT(n) : new lu::DFT(n, zero(type)));
    std::unique_ptr<lu::IDFT> b(dflt ? new lu::IDFT(n) : new lu::IDFT(n, zero(type)));
    int ct = cplxOf(type), nOut = isReal(type) ? n / 2 + 1 : n;
    int rounds = rng.in(1, 3);
    double tol = epsOf(type) * 6 * (std::log2(n) + 2);
    for (int round = 0; round < rounds; round++) {
        if (rng.chance(1, 5)) recopy(f, [&] { int t = anyType(); return new lu::DFT(length(t, rng.in(1, 9)), zero(t)); });
        if (rng.chance(1, 5)) recopy(b, [&] { int t = anyType(); return new lu::IDFT(length(t, rng.in(1, 9)), zero(t)); });
        int dim = rng.in(1, 3);
        Shape s = randShape(dim - 1, n > 40 ? 2 : 4);
        s.push_back(n);
        Tensor a(type, s, dim == 1 && n > 1 && rng.chance(1, 2) ? ARRAY : VIEW, value);
        Shape os = s;
        os.back() = nOut;
        std::vector<Num> want;
        std::vector<double> mag;
        reference(a, n, type, false, want, mag);
        str d = fmt("transform (use %d) of ", round + 1) + a.text();
        note(d);
        if (rng.chance(1, 60)) sample(d);
        distinct(fmt("f%d %d", type, a.form) + shp(s));
        var r;
        if (rng.chance(1, 2)) {
            mustWork("forward.out", d, [&] { r = (*f)(a.v); });
            result("forward.result", d, r, ct, os, false, want, tol, &mag);
            ev("forward");
        }
        else {
            Tensor o(ct, os, VIEW, filler);
            mustWork("forward.into", d, [&] { (*f)(a.v, o.v); });
            for (size_t i = 0; i < want.size(); i++) o.at(i) = want[i];
            o.verify("forward.output", d + ": output", tol, &mag);
            r = o.v.copy();
            ev("into_output");
        }
        a.verify("forward.input", d + ": input");
        // and back again
        std::vector<Num> orig;
        std::vector<double> m2;
        double m = 0;
        for (int i = 0; i < a.size(); i++) m += std::abs(cx(a.at(i)));
        for (int i = 0; i < a.size(); i++) { orig.push_back(a.at(i)); m2.push_back(m); }
        var q;
        if (rng.chance(1, 2)) {
            mustWork("roundtrip.out", d, [&] { q = (*b)(r); });
            result("roundtrip.result", d + " and back", q, type, s, false, orig, 2 * tol, &m2);
        }
        else {
            Tensor o(type, s, VIEW, filler);
            mustWork("roundtrip.into", d, [&] { (*b)(r, o.v); });
            for (int i = 0; i < a.size(); i++) o.at(i) = orig[i];
            o.verify("roundtrip.output", d + " and back: output", 2 * tol, &m2);
        }
        ev("round_trip");
        if (a.size() > n) ev("rows", a.size() / n);
        if (round) ev("reused");
    }
}

VH_CASE_W(dft_inverse, 3)
{
    int type = anyType();
    int n = length(type, rng.chance(1, 400) ? rng.in(200, 1100) : rng.chance(1, 12) ? rng.in(33, 130) : rng.in(1, 32));
    int ct = cplxOf(type), nIn = isReal(type) ? n / 2 + 1 : n;
    Shape s = randShape(rng.in(0, 2), 3);
    s.push_back(nIn);
    Tensor a(ct, s, s.size() == 1 && nIn > 1 && rng.chance(1, 2) ? ARRAY : VIEW, value);
    if (isReal(type)) {         // the spectrum of something real
        for (int r = 0; r < a.size() / nIn; r++) {
            a.at(r * nIn).im = 0;
            if (n % 2 == 0) a.at(r * nIn + nIn - 1).im = 0;
        }
        a.make();
    }
    Shape os = s;
    os.back() = n;
    std::vector<Num> want;
    std::vector<double> mag;
    reference(a, n, type, true, want, mag);
    double tol = epsOf(type) * 6 * (std::log2(n) + 2);
    str d = "inverse transform of " + a.text();
    note(d);
    distinct(fmt("i%d %d %d", type, n, a.form) + shp(s));
    lu::IDFT b(n, zero(type));
    var r;
    mustWork("inverse.out", d, [&] { r = b(a.v); });
    result("inverse.result", d, r, type, os, false, want, tol, &mag);
    a.verify("inverse.input", d + ": input");
    ev("inverse");
}

#ifdef VH_FALLBACK
// Threads with transforms of their own (those of MKL are in threads.cpp)
struct Job { int type, n; bool copy; std::vector<float> x; };
static std::string work(const std::vector<Job>& jobs)
{
    std::string out;
    for (auto& j : jobs) {
        lu::DFT f(j.n, zero(j.type));
        lu::IDFT b(j.n, zero(j.type));
        lu::DFT g = j.copy ? f : lu::DFT(j.n, zero(j.type));
        var v = lu::view({2, j.n}, zero(j.type));
        for (int i = 0; i < v.size(); i++) v.at(i) = j.x[i];
        var r = g(v), q = b(r);
        out += vh::canon(r) + vh::canon(q) + "\n";
    }
    return out;
}
VH_CASE_NOBAL(dft_threads)
{
    int k = rng.in(2, 4);
    std::vector<std::vector<Job>> jobs(k);
    for (auto& t : jobs)
        for (int i = rng.in(1, 5); i > 0; i--) {
            int type = anyType();
            Job j{type, length(type, rng.in(1, 9)), rng.chance(1, 2), {}};
            for (int e = 0; e < 2 * j.n; e++) j.x.push_back(rng.sym() * 9);
            t.push_back(j);
        }
    std::vector<std::string> got(k);
    std::atomic<int> ready(0);
    std::vector<std::thread> ts;
    for (int i = 0; i < k; i++)
        ts.emplace_back([&, i] {
            for (ready++; ready < k; ) {}
            try { got[i] = work(jobs[i]); } catch (std::exception& e) { got[i] = e.what(); }
        });
    for (auto& t : ts) t.join();
    for (int i = 0; i < k; i++) {
        distinct(got[i]);
        check(got[i] == work(jobs[i]), "threads.result", fmt("%d threads: a thread of %zu transforms gave other results than alone: ", k, jobs[i].size()) + got[i].substr(0, 300));
        ev("threads");
        ev("thread_transforms", jobs[i].size());
    }
}
#endif

VH_CASE_W(dft_reject, 2)
{
    int type = anyType(), n = length(type, rng.in(1, 16)), k = rng.upto(6);
    bool inv = rng.chance(1, 2);
    int it = inv ? cplxOf(type) : type, ot = inv ? type : cplxOf(type);
    int nIn = inv && isReal(type) ? n / 2 + 1 : n, nOut = !inv && isReal(type) ? n / 2 + 1 : n;
    if (k == 5) {
        int bad = rng.upto(2) ? rng.in(TYPE_CHAR, TYPE_LONG) : -1;
        int len = bad < 0 ? rng.in(-4, 0) : n;
#ifdef VH_FALLBACK
        if (rng.chance(1, 3)) { type = TYPE_FLOAT; bad = -1; len = 2 * rng.in(-3, 20) + 1; }
        else if (rng.chance(1, 3)) { type = rng.chance(1, 2) ? int(TYPE_DOUBLE) : int(TYPE_CDOUBLE); bad = -1; len = n; }
#endif
        str d = fmt("%s transform of length %d", inv ? "inverse" : "forward", len) + " of type " + lu::typeStr(bad < 0 ? type : bad);
        note(d);
        distinct(d);
        mustThrow("reject.construct", d, [&] { var z = bad < 0 ? zero(type) : numVar(mkInt(bad, 0)); lu::DFTBase x(len, inv, z); });
        ev("rejected");
        return;
    }
    Shape s = randShape(rng.in(0, 2), 3), os = s;
    s.push_back(nIn);
    os.push_back(nOut);
    if (k == 0) { int o = it; while (it == o) it = rng.in(TYPE_CHAR, TYPE_CDOUBLE); }
    if (k == 1) s.back() += rng.chance(1, 2) || nIn == 1 ? rng.in(1, 3) : -1;
    if (k == 2) { int o = ot; while (ot == o) ot = rng.in(TYPE_CHAR, TYPE_CDOUBLE); }
    if (k == 3) { int q = rng.upto(os.size()); os[q] += rng.chance(1, 2) || os[q] == 1 ? 1 : -1; }
    Tensor a(it, s, VIEW, value), o(ot, os, VIEW, filler);
    str d = fmt("%s transform of length %d of type ", inv ? "inverse" : "forward", n) + lu::typeStr(type) + " of " + a.text();
    lu::DFTBase f(n, inv, zero(type));
    if (k == 4) {
        d += " in place"; note(d);
        mustThrow("reject.inplace", d, [&] { f(a.v, a.v); });
    }
    else if (k < 2 && rng.chance(1, 2)) { note(d); mustThrow("reject.out", d, [&] { var r = f(a.v); }); }
    else {
        d += " into " + o.text(); note(d);
        mustThrow("reject.into", d, [&] { f(a.v, o.v); });
        o.verify("reject.output", d + ": output");
    }
    distinct(fmt("r%d %d %d %d", k, type, it, ot) + shp(s) + shp(os));
    a.verify("reject.input", d + ": input");
    ev("rejected");
    // still good after that
    if (k != 0 && k != 1) {
        Tensor c(inv ? cplxOf(type) : type, {nIn}, VIEW, [](int t) { return mkNum(t, 1); });
        std::vector<Num> want;
        std::vector<double> mag;
        reference(c, n, type, inv, want, mag);
        var r;
        mustWork("reject.after", d, [&] { r = f(c.v); });
        result("reject.afterresult", d + ", then a good one", r, inv ? type : cplxOf(type), {nOut}, false, want, epsOf(type) * 50, &mag);
    }
}

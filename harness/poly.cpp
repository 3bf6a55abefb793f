// C14: polynomials from roots, roots of polynomials, and eigenvalues.
#include "tensor.h"
#include <lube/c++lapack.h>
using namespace ts;
typedef std::complex<long double> cld;

static Num filler(int t) { return mkNum(t, 77); }
static cld lc(const Num& n) { return isInt(n.t) ? cld(n.l) : cld(n.re, n.im); }
static Num num(int t, cld x) { return {t, 0, double(x.real()), isCplx(t) ? double(x.imag()) : 0}; }
static Num value(int t)
{
    auto r = [&] { return rng.chance(1, 4) ? rng.in(-3, 3) * 0.5 : rng.sym() * 2; };
    if (isInt(t)) return mkInt(t, rng.in(-4, 4));
    double a = r(), b = r();
    return mkFlt(t, a, isCplx(t) ? b : 0);
}
static int cplxOf(int t) { return t == TYPE_FLOAT ? int(TYPE_CFLOAT) : int(TYPE_CDOUBLE); }
static Shape shapeOf(int last) { Shape s = rng.chance(1, 2) ? Shape() : randShape(rng.in(1, 2), 3); s.push_back(last); return s; }

VH_CASE_W(poly_expand, 3)
{
    int t = rng.chance(1, 10) ? rng.in(TYPE_CHAR, TYPE_LONG) : rng.in(TYPE_FLOAT, TYPE_CDOUBLE);
    int n = rng.chance(1, 10) ? rng.in(9, 24) : rng.in(1, 8);
    Shape s = shapeOf(n);
    Tensor a(t, s, s.size() == 1 && rng.chance(1, 2) ? ARRAY : VIEW, value);
    if (rng.chance(1, 4) && n > 1) { a.at(rng.upto(n)) = a.at(rng.upto(n)); a.make(); }     // multiple roots
    bool ok = !isInt(t);
    std::vector<Num> want;
    std::vector<double> mag;
    if (ok) for (int r = 0; r < a.size() / n; r++) {
        std::vector<cld> c(n + 1);
        std::vector<long double> m(n + 1);
        c[0] = 1; m[0] = 1;
        for (int i = 0; i < n; i++)
            for (int j = i + 1; j > 0; j--) { c[j] -= lc(a.at(r * n + i)) * c[j - 1]; m[j] += std::abs(lc(a.at(r * n + i))) * m[j - 1]; }
        for (int i = 0; i <= n; i++) { want.push_back(num(t, c[i])); mag.push_back(double(m[i])); }
    }
    double tol = epsOf(t) * (3 * n + 4);
    Shape os = s;
    os.back() = n + 1;
    str d = "polynomial with roots " + a.text();
    note(d);
    if (rng.chance(1, 40)) sample(d);
    distinct(fmt("p%d %d ", t, a.form) + shp(s));
    if (rng.chance(1, 2)) {
        var r;
        if (!ok) { mustThrow("poly.reject", d, [&] { r = lu::poly(a.v); }); ev("rejected"); }
        else {
            mustWork("poly.out", d, [&] { r = lu::poly(a.v); });
            result("poly.result", d, r, t, os, false, want, tol, &mag);
            ev("expanded");
        }
    }
    else {
        bool bad = false;
        int ot = t;
        if (rng.chance(1, 5)) { bad = true; int k = rng.upto(os.size()); os[k] += rng.chance(1, 2) || os[k] <= 1 ? 1 : -1; }
        else if (rng.chance(1, 8)) { bad = true; while (ot == t) ot = rng.in(TYPE_CHAR, TYPE_CDOUBLE); }
        Tensor o(ot, os, VIEW, filler);
        d += " into " + o.text(); note(d);
        if (!ok || bad) { mustThrow("poly.rejectinto", d, [&] { lu::poly(a.v, o.v); }); ev("rejected"); }
        else {
            mustWork("poly.into", d, [&] { lu::poly(a.v, o.v); });
            for (size_t i = 0; i < want.size(); i++) o.at(i) = want[i];
            ev("into_output");
        }
        o.verify("poly.output", d + ": output", ok && !bad ? tol : 0, ok && !bad ? &mag : nullptr);
    }
    a.verify("poly.input", d + ": input");
    if (ok && a.size() > n) ev("rows", a.size() / n);
}

/// the power sums of these values are those of a matrix with this norm, which determines the values
static void powerSums(const char* key, const str& d, const std::vector<cld>& got, const std::vector<cld>& p, long double norm, double eps)
{
    int n = got.size();
    for (int k = 1; k <= n; k++) {
        cld s = 0;
        long double gm = 0;
        for (auto& g : got) { cld x = 1; for (int i = 0; i < k; i++) x *= g; s += x; gm += std::abs(x); }
        long double tol = eps * 40.0L * n * k * powl(norm, k);
        if (!(std::abs(s - p[k - 1]) <= tol))
            fail(key, d + fmt(": sum of powers %d is %.9Lg%+.9Lgi, should be %.9Lg%+.9Lgi", k, s.real(), s.imag(), p[k - 1].real(), p[k - 1].imag()));
    }
}

VH_CASE_W(poly_roots, 3)
{
    int t = rng.chance(1, 8) ? rng.in(TYPE_CHAR, TYPE_CDOUBLE) : rng.in(TYPE_FLOAT, TYPE_DOUBLE);
    bool ok = isReal(t);
    int n = rng.chance(1, 25) ? 0 : rng.in(1, 8);        // degree
    bool round = ok && rng.chance(1, 8);                  // high degrees, the roots near a circle
    if (round) n = rng.chance(1, 8) ? rng.in(41, 90) : rng.in(9, 40);
    Shape s = shapeOf(n + 1);
    Tensor a(t, s, s.size() == 1 && rng.chance(1, 2) ? ARRAY : VIEW, value);
    int rows = a.size() / (n + 1);
    for (int r = 0; r < rows; r++) {
        Num& l = a.at(r * (n + 1));
        if (round) {
            for (int i = 1; i < n; i++) a.at(r * (n + 1) + i) = mkFlt(t, rng.chance(1, 2) ? 0 : rng.sym() * 0.3 / n);
            double lead = rng.chance(1, 2) ? 1 : -4;
            for (int i = 1; i < n; i++) a.at(r * (n + 1) + i).re *= lead;
            l = mkFlt(t, lead);
            a.at(r * (n + 1) + n) = mkFlt(t, lead * (0.6 + rng.uni()) * (rng.chance(1, 2) ? 1 : -1));
            continue;
        }
        if (!isInt(t) && std::fabs(l.re) < 0.3) l = mkFlt(t, rng.chance(1, 2) ? 1 : -2);
        if (rng.chance(1, 5)) for (int i = n; i > n - rng.in(1, 2) && i > 0; i--) a.at(r * (n + 1) + i) = mkNum(t, 0);     // roots at zero
        if (rng.chance(1, 5) && !isInt(t)) {       // a multiple root
            double x = rng.in(-3, 3) * 0.5, c = 1, lead = rng.chance(1, 2) ? 1 : 2;
            for (int i = 0; i <= n; i++) { a.at(r * (n + 1) + i) = mkFlt(t, lead * c); c *= -x * (n - i) / (i + 1); }
        }
    }
    a.make();
    Shape os = s;
    os.back() = n;
    str d = "roots of " + a.text();
    note(d);
    if (rng.chance(1, 40)) sample(d);
    distinct(fmt("r%d %d ", t, a.form) + shp(s));
    var r;
    bool into = rng.chance(1, 3);
    std::unique_ptr<Tensor> o;
    if (into) {
        int ot = ok ? cplxOf(t) : int(TYPE_CDOUBLE);
        bool bad = false;
        if (ok && rng.chance(1, 4)) { bad = true; int k = rng.upto(os.size()); os[k] += rng.chance(1, 2) || os[k] <= 1 ? 1 : -1; }
        else if (ok && rng.chance(1, 8)) { bad = true; int w = ot; while (ot == w) ot = rng.in(TYPE_CHAR, TYPE_CDOUBLE); }
        o.reset(new Tensor(ot, os, VIEW, filler));
        d += " into " + o->text(); note(d);
        if (!ok || bad) {
            mustThrow("roots.rejectinto", d, [&] { lu::roots(a.v, o->v); });
            o->verify("roots.output", d + ": output");
            a.verify("roots.input", d + ": input");
            ev("rejected");
            return;
        }
        mustWork("roots.into", d, [&] { lu::roots(a.v, o->v); });
        r = o->v.copy();
        ev("into_output");
    }
    else {
        if (!ok) { mustThrow("roots.reject", d, [&] { r = lu::roots(a.v); }); a.verify("roots.input", d + ": input"); ev("rejected"); return; }
        mustWork("roots.out", d, [&] { r = lu::roots(a.v); });
    }
    result("roots.shape", d, r, cplxOf(t), os, false, {}, 0);
    var back;
    mustWork("roots.back", d, [&] { back = lu::poly(r); });
    Shape bs = s;
    result("roots.backshape", d + ", expanded", back, cplxOf(t), bs, false, {}, 0);
    for (int q = 0; q < rows; q++) {
        std::vector<cld> got;
        for (int i = 0; i < n; i++) { Num g = get(r, q * n + i, cplxOf(t)); got.push_back(lc(g)); if (into) o->at(q * n + i) = g; }
        // power sums of the roots from the coefficients: Newton's identities
        std::vector<long double> c(n + 1);
        for (int i = 0; i <= n; i++) c[i] = (long double)a.at(q * (n + 1) + i).re / a.at(q * (n + 1)).re;
        std::vector<cld> p(n);
        long double norm = n - 1;
        for (int i = 1; i <= n; i++) norm += c[i] * c[i];
        norm = std::max(1.0L, sqrtl(norm));
        for (int k = 1; k <= n; k++) {
            long double x = -k * c[k];
            for (int i = 1; i < k; i++) x -= c[i] * p[k - i - 1].real();
            p[k - 1] = x;
        }
        if (round) norm = powl(std::abs(c[n]) + 0.4L, 1.0L / n) * (1 + 0.1L / n);
        powerSums("roots.values", d + fmt(" (row %d)", q), got, p, round ? std::max(1.0L, norm) : norm, epsOf(t) * (round ? 50 * n : 1));
        if (round) ev("high_degree");
        // the expansion of what was returned
        std::vector<cld> e(n + 1);
        std::vector<long double> m(n + 1);
        e[0] = 1; m[0] = 1;
        for (int i = 0; i < n; i++)
            for (int j = i + 1; j > 0; j--) { e[j] -= got[i] * e[j - 1]; m[j] += std::abs(got[i]) * m[j - 1]; }
        for (int i = 0; i <= n; i++) {
            Num g = get(back, q * (n + 1) + i, cplxOf(t));
            check(std::abs(lc(g) - e[i]) <= epsOf(t) * (4 * n + 8) * m[i], "roots.expansion", d + fmt(": coefficient %d of the expansion is ", i) + numText(g));
            // real again: complex roots come in pairs
            check(std::fabs(g.im) <= epsOf(t) * 200 * n * double(m[i]), "roots.real", d + fmt(": coefficient %d of the expansion is not real: ", i) + numText(g));
        }
        ev("roots", n);
    }
    if (into) o->verify("roots.output", d + ": output");
    a.verify("roots.input", d + ": input");
    if (rows > 1) ev("rows", rows);
}

template<class T> static void eigen(int n, int which)
{
    double eps = sizeof(T) == 4 ? 1.2e-7 : 2.3e-16;
    const T guard = 12345;
    std::vector<T> A(n * n + 2, guard), wr(n + 2, guard), wi(n + 2, guard), vl(n * n + 2, guard), vr(n * n + 2, guard), v0 = vl;
    for (int i = 0; i < n * n; i++) A[i + 1] = rng.chance(1, 6) ? 0 : T(rng.sym() * 3);
    if (rng.chance(1, 3)) for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) A[i * n + j + 1] = A[j * n + i + 1];
    std::vector<T> a = A;
    bool left = rng.chance(1, 2), right = rng.chance(1, 2);
    str d = fmt("%s of a %dx%d matrix of %s{", which ? "gees" : "geev", n, n, sizeof(T) == 4 ? "float" : "double");
    for (int i = 0; i < std::min(n * n, 9); i++) d += fmt("%a,", double(A[i + 1]));
    d += fmt("} vectors %d%d", left, right);
    note(d);
    distinct(fmt("e%d %d %d%d", which, n, left, right) + fmt("%zu", sizeof(T)));
    long ret;
    if (which) {
        if constexpr (sizeof(T) == 4) ret = lapack::gees<T>(n, &a[1], &wr[1], &wi[1], left ? &vl[1] : 0);
        else ret = 0;
    }
    else ret = lapack::geev<T>(n, &a[1], &wr[1], &wi[1], left ? &vl[1] : 0, right ? &vr[1] : 0);
    check(ret == 0, "eigen.return", d + fmt(": returned %ld", ret));
    for (auto* v : {&a, &wr, &wi, &vl, &vr}) check(v->front() == guard && v->back() == guard, "eigen.outside", d + ": wrote outside its arguments");
    check(left || vl == v0, "eigen.untouched", d + ": wrote vectors that were not asked for");
    check((right && !which) || vr == v0, "eigen.untouched", d + ": wrote vectors that were not asked for");
    std::vector<cld> got, p;
    std::vector<long double> P(n * n), Q(n * n);
    long double norm = 0;
    for (int i = 0; i < n * n; i++) { norm += (long double)A[i + 1] * A[i + 1]; P[i] = A[i + 1]; }
    norm = std::max(1e-3L, sqrtl(norm));
    for (int k = 0; k < n; k++) {
        got.push_back(cld(wr[k + 1], wi[k + 1]));
        long double tr = 0;
        for (int i = 0; i < n; i++) tr += P[i * n + i];
        p.push_back(tr);
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { long double s = 0; for (int q = 0; q < n; q++) s += P[i * n + q] * A[q * n + j + 1]; Q[i * n + j] = s; }
        P = Q;
    }
    powerSums("eigen.values", d, got, p, norm, eps);
    long double tol = eps * 60 * n * norm;
    if (!which) for (int k = 0; k < n; k++) {
        if (wi[k + 1] != 0) { ev("complex_eigenvalues"); continue; }
        // row k of each is the vector of a real eigenvalue
        for (int side = 0; side < 2; side++) {
            if (side ? !right : !left) continue;
            auto& v = side ? vr : vl;
            long double len = 0, err = 0;
            for (int i = 0; i < n; i++) {
                long double s = 0;
                for (int j = 0; j < n; j++) s += (long double)(side ? A[i * n + j + 1] : A[j * n + i + 1]) * v[k * n + j + 1];
                err = std::max(err, fabsl(s - (long double)wr[k + 1] * v[k * n + i + 1]));
                len += (long double)v[k * n + i + 1] * v[k * n + i + 1];
            }
            check(fabsl(len - 1) < eps * 60 * n, "eigen.unit", d + fmt(": vector %d has squared length %Lg", k, len));
            check(err <= tol, side ? "eigen.right" : "eigen.left", d + fmt(": vector %d is off by %Lg (allowed %Lg)", k, err, tol));
            ev("eigenvectors");
        }
    }
    ev("eigenvalues", n);
}

VH_CASE_W(poly_eigen, 2)
{
    int n = rng.chance(1, 8) ? rng.in(7, 16) : rng.in(1, 6);
    switch (rng.upto(3)) {
    case 0: eigen<float>(n, 0); break;
    case 1: eigen<double>(n, 0); break;
    default: eigen<float>(n, 1);
    }
}

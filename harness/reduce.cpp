// C11: sums, absolute sums, index of the maximum, dot and matrix products.
#include "tensor.h"
using namespace ts;
typedef std::complex<long double> cld;

static Num value(int t)
{
    if (isInt(t)) return mkInt(t, rng.in(-9, 9));
    auto r = [&] { return rng.chance(1, 3) ? rng.in(-5, 5) * 0.5 : rng.sym() * 10; };
    double a = r(), b = r();
    return mkFlt(t, a, isCplx(t) ? b : 0);
}
static cld lc(const Num& n) { return isInt(n.t) ? cld(n.l) : cld(n.re, n.im); }
static Num num(int t, cld x) { return {t, 0, double(x.real()), isCplx(t) ? double(x.imag()) : 0}; }

static Shape shapeOf(Form f, int minDim = 1, int maxDim = 4)
{
    if (f < ARRAY) return {1};
    if (f == ARRAY) return {rng.chance(1, 150) ? bigSize() : rng.chance(1, 8) ? rng.in(20, 800) : rng.in(1, 20)};
    Shape s = randShape(rng.in(minDim, maxDim), 5);
    if (rng.chance(1, 8)) s.back() = rng.in(10, 300);
    if (rng.chance(1, 10)) s.back() = 1;
    if (s.size() > 1 && rng.chance(1, 20)) s[0] = 0;
    if (s.size() == 2 && rng.chance(1, 150)) s[rng.upto(2)] = bigSize();
    return s;
}

VH_CASE_W(reduce_last, 4)
{
    enum { SUM, ASUM, IAMAX };
    static const char* nm[] = {"sum", "asum", "iamax"};
    int f = rng.upto(3);
    int t = rng.chance(1, 10) ? rng.in(TYPE_CHAR, TYPE_LONG) : rng.in(TYPE_FLOAT, TYPE_CDOUBLE);
    Form form = rng.chance(1, 2) ? VIEW : Form(rng.upto(5));
    Tensor a(t, shapeOf(form), form, value);
    if (rng.chance(1, 4) && a.size()) {      // ties and negative maxima
        for (int k = 0; k < 3; k++) {
            Num n = a.at(rng.upto(a.size()));
            if (!isInt(t)) { n.re = -n.re; if (isCplx(t) && rng.chance(1, 2)) std::swap(n.re, n.im); }
            a.at(rng.upto(a.size())) = n;
        }
        a.make();
    }
    bool scalar = a.form < ARRAY;
    bool ok = !isInt(t);
    if (f == ASUM && isCplx(t) && !scalar) ok = false;
    if (!ok && a.size() == 0) return;
    int row = scalar ? 1 : a.shape.back(), rows = a.size() / std::max(1, row);
    Shape rs = a.shape;
    rs.back() = 1;
    int rt = f == IAMAX ? int(TYPE_LONG) : f == ASUM ? realOf(t) : t;
    std::vector<Num> want;
    std::vector<double> mag;
    if (ok) for (int r = 0; r < rows; r++) {
        cld s = 0;
        long double m = 0, best = -1;
        int at = 0;
        for (int i = 0; i < row; i++) {
            cld x = lc(a.at(r * row + i));
            long double ax = std::abs(x);
            m += ax;
            if (f == SUM) s += x;
            else if (f == ASUM) s += ax;
            else {
                // the magnitude the numeric library uses, in its own precision
                Num n = a.at(r * row + i);
                long double v = t == TYPE_FLOAT || t == TYPE_CFLOAT ? (long double)(float(std::fabs(float(n.re)) + std::fabs(float(n.im)))) : (long double)(std::fabs(n.re) + std::fabs(n.im));
                if (v > best) { best = v; at = i; }
            }
        }
        want.push_back(f == IAMAX ? mkInt(TYPE_LONG, at) : num(rt, s));
        mag.push_back(double(m));
    }
    double tol = f == IAMAX ? 0 : epsOf(t) * (row + 2);
    int mode = rng.upto(2);
    str d = str(mode ? "into output " : "") + nm[f] + " " + a.text();
    note(d);
    if (rng.chance(1, 40)) sample(d);
    distinct(fmt("%d %d %d %d ", f, mode, a.form, t) + shp(a.shape));
    // a scalar has no rows: only sum and absolute sum are defined for every kind
    if (mode == 0) {
        var r;
        auto go = [&](const var& x) { r = f == SUM ? lu::sum(x) : f == ASUM ? lu::asum(x) : lu::iamax(x); };
        if (!ok) { mustThrow("reject.out", d, [&] { a.use([&](var& x) { go(x); }); }); ev("rejected"); }
        else {
            mustWork("out", d, [&] { a.use([&](var& x) { go(x); }); });
            result("out.result", d, r, rt, rs, a.dim() == 1, want, tol, &mag);
            ev(nm[f]);
        }
    }
    else {
        bool bad = ok && misfit(rs, &rt);
        Tensor o(rt, rs, rs.size() == 1 && rs[0] == 1 ? SCALAR : VIEW, [](int ty) { return mkNum(ty, 77); });
        if (bad) { d += " with output " + o.text(); note(d); ok = false; ev("wrong_output"); }
        auto go = [&](const var& x) { f == SUM ? lu::sum(x, o.v) : f == ASUM ? lu::asum(x, o.v) : lu::iamax(x, o.v); };
        if (!ok) { mustThrow("reject.into", d, [&] { a.use([&](var& x) { go(x); }); }); if (bad) o.verify("reject.output", d + ": output"); ev("rejected"); }
        else {
            mustWork("into", d, [&] { a.use([&](var& x) { go(x); }); });
            for (size_t i = 0; i < want.size(); i++) o.at(i) = want[i];
            o.verify("into.result", d + ": output", tol, &mag);
            ev("into_output");
        }
    }
    a.verify("input", d + ": input");
    if (rows > 1 && ok) ev("rows", rows);
}

VH_CASE_W(reduce_dot, 4)
{
    int t = rng.chance(1, 10) ? rng.in(TYPE_CHAR, TYPE_LONG) : rng.in(TYPE_FLOAT, TYPE_CDOUBLE);
    Form form = rng.chance(2, 3) ? VIEW : ARRAY;
    Shape s = shapeOf(form);
    Tensor a(t, s, form, value);
    Shape bs = {a.shape.back()};
    if (rng.chance(1, 8)) bs[0] += rng.chance(1, 2) || bs[0] == 1 ? 1 : -1;
    int bt = rng.chance(1, 12) ? rng.in(TYPE_CHAR, TYPE_CDOUBLE) : t;
    Tensor b(bt, bs, rng.chance(1, 2) ? ARRAY : VIEW, value);
    bool self = a.dim() == 1 && rng.chance(1, 6);
    Tensor& B = self ? a : b;
    bool ok = !isInt(t) && B.type == t && B.shape.back() == a.shape.back();
    if (!ok && a.size() == 0) return;
    // arrays of one element are numbers to the library: left out
    int row = a.shape.back(), rows = a.size() / row;
    Shape rs = a.shape;
    rs.back() = 1;
    std::vector<Num> want;
    std::vector<double> mag;
    if (ok) for (int r = 0; r < rows; r++) {
        cld sum = 0;
        long double m = 0;
        for (int i = 0; i < row; i++) { cld p = std::conj(lc(a.at(r * row + i))) * lc(B.at(i)); sum += p; m += std::abs(p); }
        want.push_back(num(t, sum));
        mag.push_back(double(m));
    }
    double tol = epsOf(t) * (row + 4);
    str d = "dot " + a.text() + " . " + (self ? "itself" : b.text());
    note(d);
    if (rng.chance(1, 40)) sample(d);
    distinct("dot " + a.text() + shp(B.shape) + fmt("%d", self));
    if (rng.chance(1, 2)) {
        var r;
        if (!ok) { mustThrow("dot.reject", d, [&] { r = lu::dot(a.v, B.v); }); ev("rejected"); }
        else {
            mustWork("dot.out", d, [&] { r = lu::dot(a.v, B.v); });
            result("dot.result", d, r, t, rs, a.dim() == 1, want, tol, &mag);
            ev("dot");
        }
    }
    else {
        int ot = t;
        bool bad = ok && misfit(rs, &ot);
        Tensor o(ot, rs, rs.size() == 1 && rs[0] == 1 ? SCALAR : VIEW, [](int ty) { return mkNum(ty, 77); });
        if (bad) { d += " with output " + o.text(); note(d); ok = false; ev("wrong_output"); }
        if (!ok) { mustThrow("dot.rejectinto", d, [&] { lu::dot(a.v, B.v, o.v); }); if (bad) o.verify("dot.rejectoutput", d + ": output"); ev("rejected"); }
        else {
            mustWork("dot.into", d, [&] { lu::dot(a.v, B.v, o.v); });
            for (size_t i = 0; i < want.size(); i++) o.at(i) = want[i];
            o.verify("dot.intoresult", d + ": output", tol, &mag);
            ev("into_output");
        }
    }
    a.verify("dot.left", d + ": left operand");
    B.verify("dot.right", d + ": right operand");
    if (ok && rows > 1) ev("rows", rows);
}

VH_CASE_W(reduce_gemm, 4)
{
    int t = rng.chance(1, 8) ? rng.in(TYPE_CHAR, TYPE_CDOUBLE) : rng.in(TYPE_FLOAT, TYPE_DOUBLE);
    Shape s = randShape(rng.in(2, 4), rng.chance(1, 6) ? 16 : 5);
    if (rng.chance(1, 12)) s.erase(s.begin(), s.end() - 1);
    if (s.size() > 2) for (size_t i = 0; i + 2 < s.size(); i++) s[i] = std::min(s[i], 3);
    Tensor a(t, s, VIEW, value);
    int K = s.back(), M = s.size() > 1 ? s[s.size() - 2] : 1;
    int N = rng.in(1, rng.chance(1, 6) ? 16 : 5);
    int bk = rng.chance(1, 8) ? std::max(1, K + rng.in(-1, 1)) : K;
    Shape bs = {bk, N};
    if (rng.chance(1, 16)) bs = {2, K, N};
    int bt = rng.chance(1, 12) ? rng.in(TYPE_CHAR, TYPE_CDOUBLE) : t;
    Tensor b(bt, bs, VIEW, value);
    bool self = s.size() == 2 && M == K && rng.chance(1, 3);
    Tensor& B = self ? a : b;
    if (self) N = K;
    bool ok = isReal(t) && B.type == t && B.dim() == 2 && a.dim() >= 2 && B.shape[0] == K;
    Shape rs = s;
    rs.back() = N;
    int blocks = a.size() / (M * K);
    std::vector<Num> want;
    std::vector<double> mag;
    if (ok) for (int q = 0; q < blocks; q++)
        for (int i = 0; i < M; i++)
            for (int j = 0; j < N; j++) {
                long double sum = 0, m = 0;
                for (int k = 0; k < K; k++) { long double p = (long double)a.at((q * M + i) * K + k).re * B.at(k * N + j).re; sum += p; m += std::fabs(p); }
                want.push_back(mkFlt(t, double(sum)));
                mag.push_back(double(m));
            }
    double tol = epsOf(t) * (K + 4);
    str d = "matrix product " + a.text() + " . " + (self ? "itself" : b.text());
    note(d);
    if (rng.chance(1, 40)) sample(d);
    distinct(fmt("gemm %d ", t) + shp(s) + shp(B.shape) + fmt("%d", self));
    if (rng.chance(1, 2)) {
        var r;
        if (!ok) { mustThrow("gemm.reject", d, [&] { r = lu::dot(a.v, B.v); }); ev("rejected"); }
        else {
            mustWork("gemm.out", d, [&] { r = lu::dot(a.v, B.v); });
            result("gemm.result", d, r, t, rs, false, want, tol, &mag);
            ev("gemm");
        }
    }
    else {
        int ot = t;
        bool bad = ok && misfit(rs, &ot);
        Tensor o(ot, rs, VIEW, [](int ty) { return mkNum(ty, 77); });
        if (bad) { d += " with output " + o.text(); note(d); ok = false; ev("wrong_output"); }
        if (!ok) { mustThrow("gemm.rejectinto", d, [&] { lu::dot(a.v, B.v, o.v); }); if (bad) o.verify("gemm.rejectoutput", d + ": output"); ev("rejected"); }
        else {
            mustWork("gemm.into", d, [&] { lu::dot(a.v, B.v, o.v); });
            for (size_t i = 0; i < want.size(); i++) o.at(i) = want[i];
            o.verify("gemm.intoresult", d + ": output", tol, &mag);
            ev("into_output");
        }
    }
    a.verify("gemm.left", d + ": left operand");
    B.verify("gemm.right", d + ": right operand");
    if (ok && blocks > 1) ev("matrix_blocks", blocks);
}

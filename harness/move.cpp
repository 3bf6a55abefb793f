// C12: transpose, concatenate, swap and set only move elements about.
#include "tensor.h"
using namespace ts;

static int pickType(bool mostlyGood, bool cplx)
{
    if (!mostlyGood || rng.chance(1, 10)) return rng.in(TYPE_CHAR, TYPE_CDOUBLE);
    return cplx ? rng.in(TYPE_FLOAT, TYPE_CDOUBLE) : rng.in(TYPE_FLOAT, TYPE_DOUBLE);
}
static Num value(int t) { return randNum(t); }
static Num filler(int t) { return mkNum(t, 77); }
static void put(Num& d, const Num& s) { d = s; }

VH_CASE_W(move_transpose, 3)
{
    int t = pickType(true, false);
    int dim = rng.chance(1, 10) ? 1 : rng.in(2, 4);
    Shape s = randShape(dim, rng.chance(1, 8) ? 40 : 6);
    for (int i = 0; i + 2 < dim; i++) s[i] = std::min(s[i], 3);
    if (rng.chance(1, 10)) s.back() = 1;
    Tensor a(t, s, VIEW, value);
    int R = dim > 1 ? s[dim - 2] : 1, C = s.back();
    bool ok = isReal(t) && dim >= 2;
    std::vector<Num> want;
    Shape rs = s;
    if (dim >= 2) {
        std::swap(rs[dim - 1], rs[dim - 2]);
        for (int q = 0; q < a.size() / (R * C); q++)
            for (int i = 0; i < C; i++)
                for (int j = 0; j < R; j++) want.push_back(a.at((q * R + j) * C + i));
    }
    int mode = rng.upto(dim >= 2 ? 4 : 3);
    static const char* mn[] = {"transpose ", "transpose into an output ", "transpose twice ", "transpose in place "};
    str d = mn[mode] + a.text();
    note(d);
    if (rng.chance(1, 40)) sample(d);
    distinct(fmt("t%d %d ", mode, t) + shp(s));
    if (mode == 0 || mode == 2) {
        var r;
        if (!ok) { mustThrow("transpose.reject", d, [&] { r = lu::transpose(a.v); }); ev("rejected"); }
        else {
            mustWork("transpose.out", d, [&] { r = lu::transpose(a.v); });
            result("transpose.result", d, r, t, rs, false, want, 0);
            ev("transposed");
            if (mode == 2) {
                var r2;
                mustWork("transpose.twice", d, [&] { r2 = lu::transpose(r); });
                std::vector<Num> back;
                for (int i = 0; i < a.size(); i++) back.push_back(a.at(i));
                result("transpose.twice", d, r2, t, s, false, back, 0);
                result("transpose.result", d + ": result after being transposed", r, t, rs, false, want, 0);
            }
        }
    }
    else if (mode == 1) {
        Shape os = rs;
        bool bad = ok && rng.chance(1, 6);
        if (bad && dim > 3 && s[0] != s[1] && rng.chance(1, 2)) std::swap(os[0], os[1]);       // as many, arranged otherwise
        else if (bad && dim > 3 && s[0] > 1 && s[1] > 1 && rng.chance(1, 2)) { os[1] *= os[0]; os[0] = 1; }
        else if (bad) {
            int k = rng.upto(3);
            if (k == 0) os.back() += rng.chance(1, 2) || os.back() == 1 ? 1 : -1;
            else if (k == 1) os[0] += rng.chance(1, 2) || os[0] == 1 ? 1 : -1;
            else os.insert(os.begin(), 2);
        }
        int ot = bad || !ok || !rng.chance(1, 12) ? t : t == TYPE_FLOAT ? int(TYPE_DOUBLE) : int(TYPE_FLOAT);
        bool fine = ok && !bad && ot == t;
        Tensor o(ot, os, VIEW, filler);
        d += " output " + o.text();
        note(d);
        if (!fine) { mustThrow("transpose.rejectinto", d, [&] { lu::transpose(a.v, o.v); }); ev("rejected"); }
        else {
            mustWork("transpose.into", d, [&] { lu::transpose(a.v, o.v); });
            for (size_t i = 0; i < want.size(); i++) put(o.at(i), want[i]);
            ev("into_output");
        }
        o.verify("transpose.output", d + ": output");
    }
    else {
        if (!ok) { mustThrow("transpose.rejectinplace", d, [&] { lu::transpose(a.v, a.v); }); ev("rejected"); }
        else {
            bool member = rng.chance(1, 2);
            mustWork("transpose.inplace", d, [&] { if (member) a.v.transpose(); else lu::transpose(a.v, a.v); });
            for (size_t i = 0; i < want.size(); i++) put(a.at(i), want[i]);
            a.shape = rs;
            // the elements are where the new shape says they are
            for (int q = 0; q < a.size() / (R * C); q++)
                for (int i = 0; i < C; i++)
                    for (int j = 0; j < R; j++) {
                        var e = dim == 2 ? a.v(i, j) : dim == 3 ? a.v(q, i, j) : a.v(q / s[1], q % s[1], i, j);
                        Num g = t == TYPE_FLOAT ? mkFlt(t, e.get<float>()) : mkFlt(t, e.get<double>());
                        check(bitSame(g, want[(q * C + i) * R + j]), "transpose.inplace", d + fmt(": element (%d,%d,%d) is ", q, i, j) + numText(g));
                    }
            if (dim > 2) ev("stacks_in_place");
            ev("in_place");
        }
    }
    a.verify("transpose.input", d + ": operand");
}

VH_CASE_W(move_concatenate, 3)
{
    int t = pickType(true, true);
    int n = rng.chance(1, 10) ? 1 : rng.in(2, 4);
    int dim = rng.in(1, 3);
    Shape lead = randShape(dim - 1, 4);
    std::vector<Tensor> op(n);
    bool badShape = dim > 1 && n > 1 && rng.chance(1, 8), badType = n > 1 && rng.chance(1, 12), badDim = n > 1 && !badShape && rng.chance(1, 12);
    int victim = rng.in(1, std::max(1, n - 1));
    str d = "concatenate";
    std::vector<int> w(n);
    for (int i = 0; i < n; i++) {
        Shape s = lead;
        if (badShape && i == victim) { int k = rng.upto(s.size()); s[k] += rng.chance(1, 2) || s[k] == 1 ? 1 : -1; }
        w[i] = rng.in(1, 5);
        s.push_back(w[i]);
        if (badDim && i == victim) { if (rng.chance(1, 2)) s.push_back(rng.in(1, 3)); else s.insert(s.begin(), rng.in(2, 3)); }
        int tt = badType && i == victim ? (t == TYPE_FLOAT ? int(TYPE_DOUBLE) : int(TYPE_FLOAT)) : t;
        new (&op[i]) Tensor(tt, s, s.size() == 1 && s[0] > 1 && rng.chance(1, 2) ? ARRAY : VIEW, value);
        d += " " + op[i].text();
    }
    bool ok = !isInt(t) && !badShape && !badType && !badDim;
    int rows = total(lead), width = 0;
    for (int x : w) width += x;
    Shape rs = lead;
    rs.push_back(width);
    std::vector<Num> want;
    if (ok) for (int r = 0; r < rows; r++)
        for (int i = 0; i < n; i++)
            for (int j = 0; j < w[i]; j++) want.push_back(op[i].at(r * w[i] + j));
    note(d);
    if (rng.chance(1, 40)) sample(d);
    str ds = fmt("c%d %d%d%d ", t, badShape, badType, badDim) + shp(rs);
    for (int x : w) ds += fmt(",%d", x);
    distinct(ds);
    var args;
    for (auto& o : op) args.push(o.v);
    if (rng.chance(1, 2)) {
        var r;
        if (!ok) { mustThrow("concatenate.reject", d, [&] { r = lu::concatenate(args); }); ev("rejected"); }
        else {
            mustWork("concatenate.out", d, [&] { r = lu::concatenate(args); });
            result("concatenate.result", d, r, t, rs, false, want, 0);
            ev("concatenated");
        }
    }
    else {
        Shape os = rs;
        bool badOut = ok && rng.chance(1, 5);
        if (badOut) { int k = rng.upto(os.size()); os[k] += rng.chance(1, 2) || os[k] == 1 ? 1 : -1; }
        Tensor o(t, os, VIEW, filler);
        d += " into " + o.text();
        note(d);
        if (!ok || badOut) { mustThrow("concatenate.rejectinto", d, [&] { lu::concatenate(args, o.v); }); ev("rejected"); }
        else {
            mustWork("concatenate.into", d, [&] { lu::concatenate(args, o.v); });
            for (size_t i = 0; i < want.size(); i++) put(o.at(i), want[i]);
            ev("into_output");
        }
        if (ok) o.verify("concatenate.output", d + ": output");
    }
    for (auto& o : op) o.verify("concatenate.input", d + ": operand");
    if (ok && rows > 1) ev("rows", rows);
}

VH_CASE_W(move_swap, 2)
{
    int t = pickType(true, true);
    int dim = rng.in(1, 3);
    Shape s = randShape(dim, 5), s2 = s;
    bool bad = rng.chance(1, 6);
    if (bad) {
        if (rng.chance(1, 3)) s2.insert(s2.begin(), rng.in(1, 3));
        else { int k = rng.upto(dim); s2[k] += rng.chance(1, 2) || s2[k] == 1 ? 1 : -1; }
    }
    int t2 = rng.chance(1, 10) ? rng.in(TYPE_CHAR, TYPE_CDOUBLE) : t;
    auto form = [&](const Shape& q) { return q.size() == 1 && total(q) > 1 && rng.chance(1, 2) ? ARRAY : VIEW; };
    Tensor a(t, s, form(s), value), b(t2, s2, form(s2), value);
    bool ok = !bad && t == t2 && !isInt(t);
    str d = "swap " + a.text() + " and " + b.text();
    note(d);
    if (rng.chance(1, 40)) sample(d);
    distinct(fmt("s%d %d %d%d", t, t2, a.form, b.form) + shp(s) + shp(s2));
    if (!ok) { mustThrow("swap.reject", d, [&] { lu::swap(a.v, b.v); }); ev("rejected"); }
    else {
        mustWork("swap.work", d, [&] { lu::swap(a.v, b.v); });
        for (int i = 0; i < a.size(); i++) std::swap(a.at(i), b.at(i));
        ev("swapped");
    }
    a.verify("swap.first", d + ": first");
    b.verify("swap.second", d + ": second");
}

VH_CASE_W(move_swaprows, 1)
{
    int t = rng.in(TYPE_FLOAT, TYPE_CDOUBLE);
    Shape s = {rng.in(2, 5), rng.in(1, 5)};
    Tensor a(t, s, VIEW, value);
    int i = rng.upto(s[0]), j = rng.upto(s[0]);
    str d = fmt("swap rows %d and %d of ", i, j) + a.text();
    note(d);
    distinct(fmt("r%d %d %d", t, i, j) + shp(s));
    mustWork("swaprows.work", d, [&] { lu::swap(a.v.subview(1, i * s[1]), a.v.subview(1, j * s[1])); });
    for (int k = 0; k < s[1]; k++) { Num x = a.at(i * s[1] + k); a.at(i * s[1] + k) = a.at(j * s[1] + k); a.at(j * s[1] + k) = x; }
    a.verify("swaprows.result", d);
    ev("swapped");
}

VH_CASE_W(move_set, 3)
{
    int t = pickType(true, true);
    Form f = rng.chance(1, 5) ? Form(rng.upto(2)) : rng.chance(1, 3) ? ARRAY : VIEW;
    Shape s = f < ARRAY ? Shape{1} : f == ARRAY ? Shape{rng.in(1, 12)} : randShape(rng.in(1, 4), 4);
    Tensor a(t, s, f, value);
    bool one = a.form < ARRAY || rng.chance(1, 4);
    Shape bs = {1};
    int bt = t;
    bool bad = false;
    if (!one) {
        bs = Shape(s.begin() + rng.upto(s.size()), s.end());
        if (rng.chance(1, 6)) { int k = rng.upto(bs.size()); bs[k] += rng.chance(1, 2) || bs[k] == 1 ? 1 : -1; bad = true; }
        else if (rng.chance(1, 12)) { bs.insert(bs.begin(), bs.size() == s.size() ? 2 : s[s.size() - bs.size() - 1] + 1); bad = true; }
        if (rng.chance(1, 10)) bt = rng.in(TYPE_CHAR, TYPE_CDOUBLE);
    }
    else if (rng.chance(1, 3)) bt = TYPE_INT;
    bool single = bs.size() == 1 && bs[0] == 1;     // broadcast to every element
    if (single) bad = false;
    if (single && bt != t && bt != TYPE_INT) bt = t;
    Form bf = single ? (rng.chance(2, 3) ? SCALAR : VIEW) : bs.size() == 1 && rng.chance(1, 2) ? ARRAY : VIEW;
    Tensor b(bt, bs, bf, [&](int ty) { return bt != t ? mkNum(ty, rng.in(-100, 100)) : value(ty); });
    bool ok = single || (!bad && bt == t && !isInt(t));
    int mode = a.form == AELEM ? 0 : rng.upto(3);
    static const char* mn[] = {"set in place ", "set out of place ", "set into an output "};
    str d = mn[mode] + a.text() + " to " + b.text();
    note(d);
    if (rng.chance(1, 40)) sample(d);
    distinct(fmt("set%d %d %d %d%d", mode, t, bt, a.form, b.form) + shp(s) + shp(bs));
    std::vector<Num> want;
    if (ok) for (int i = 0; i < a.size(); i++) want.push_back(bt == t ? b.at(i % b.size()) : mkNum(t, b.at(0).l));
    if (mode == 0) {
        if (!ok) { mustThrow("set.reject", d, [&] { a.use([&](var& x) { lu::set(x, b.v, x); }); }); ev("rejected"); }
        else {
            mustWork("set.inplace", d, [&] { a.use([&](var& x) { lu::set(x, b.v, x); }); });
            for (int i = 0; i < a.size(); i++) put(a.at(i), want[i]);
            ev("set");
        }
    }
    else if (mode == 1) {
        var r;
        if (!ok) { mustThrow("set.rejectout", d, [&] { r = lu::set(a.v, b.v); }); ev("rejected"); }
        else {
            mustWork("set.out", d, [&] { r = lu::set(a.v, b.v); });
            result("set.outresult", d, r, t, a.shape, a.form == SCALAR, want, 0);
            ev("set");
        }
    }
    else {
        Tensor o(t, a.shape, a.form, filler);
        if (!ok) { mustThrow("set.rejectinto", d, [&] { lu::set(a.v, b.v, o.v); }); ev("rejected"); }
        else {
            mustWork("set.into", d, [&] { lu::set(a.v, b.v, o.v); });
            for (int i = 0; i < a.size(); i++) put(o.at(i), want[i]);
            ev("into_output");
        }
        o.verify("set.output", d + ": output");
    }
    a.verify("set.first", d + ": first operand");
    b.verify("set.second", d + ": second operand");
}

VH_CASE_W(move_viewassign, 1)
{
    int t = rng.in(TYPE_FLOAT, TYPE_CDOUBLE);
    Shape s = randShape(rng.in(1, 4), 4);
    Tensor a(t, s, VIEW, value), b(t, s, VIEW, value);
    str d = "assign " + b.text() + " to " + a.text();
    note(d);
    distinct(fmt("va%d", t) + shp(s));
    bool row = s.size() > 1 && rng.chance(1, 2);
    mustWork("viewassign.work", d, [&] { if (row) { int st = total(s) / s[0], k = rng.upto(s[0]); 
        var dst = a.v.subview(s.size() - 1, st * k), src = b.v.subview(s.size() - 1, st * k);
        dst = src;
        for (int i = 0; i < st; i++) put(a.at(st * k + i), b.at(st * k + i)); }
        else { a.v = b.v; for (int i = 0; i < a.size(); i++) put(a.at(i), b.at(i)); } });
    a.verify("viewassign.dest", d + ": destination");
    b.verify("viewassign.source", d + ": source");
    ev("view_assigned");
}

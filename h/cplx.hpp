#pragma once
// Programs on complex and real active numbers with a reference in long double.
#include "common.hpp"
#include <complex>
#include <deque>
#include <functional>

namespace cplx
{
typedef long double LD;
typedef std::complex<LD> CLD;
typedef std::complex<T> CT;
static const int ND = 6;  // inputs: two complex numbers and two reals
static const LD LIM = sizeof(T) == 8 ? 1e4L : 300.0L;

// a (complex) number with its derivatives and the magnitude the rounding errors of these scale with
struct RC
{
    CLD v = 0;
    CLD d[ND];
    LD s[ND];
    RC(CLD x = 0) : v(x)
    {
        for (int i = 0; i < ND; ++i) d[i] = 0, s[i] = 0;
    }
};
static inline RC lin(const RC& a, CLD f, CLD da, LD extra)
{
    RC r(f);
    LD m = std::abs(da) + extra;
    for (int i = 0; i < ND; ++i) r.d[i] = da * a.d[i], r.s[i] = m * a.s[i];
    return r;
}
static inline RC lin2(const RC& a, const RC& b, CLD f, CLD da, CLD db, LD ea = 0, LD eb = 0)
{
    RC r(f);
    for (int i = 0; i < ND; ++i)
    {
        r.d[i] = da * a.d[i] + db * b.d[i];
        r.s[i] = (std::abs(da) + ea) * a.s[i] + (std::abs(db) + eb) * b.s[i];
    }
    return r;
}
static inline RC neg(const RC& a) { return lin(a, -a.v, CLD(-1), 0); }
static inline RC conj(const RC& a)
{
    RC r = lin(a, std::conj(a.v), CLD(1), 0);
    for (auto& e : r.d) e = std::conj(e);
    return r;
}
static inline RC re(const RC& a)
{
    RC r = lin(a, a.v.real(), CLD(1), 0);
    for (auto& e : r.d) e = e.real();
    return r;
}
static inline RC im(const RC& a)
{
    RC r = lin(a, a.v.imag(), CLD(1), 0);
    for (auto& e : r.d) e = e.imag();
    return r;
}
static inline RC mk(const RC& a, const RC& b)  // a + i b for real a, b
{
    return lin2(a, b, CLD(a.v.real(), b.v.real()), CLD(1), CLD(0, 1));
}

static inline bool cut(CLD z, LD from = 0)  // near the real axis left of from
{
    return z.real() < from + 1e-3L && std::fabs(z.imag()) < 1e-3L * (1 + std::abs(z));
}
// binary operation; false if outside of what is compared
static inline bool bin(int op, const RC& a, const RC& b, RC& r)
{
    switch (op)
    {
        case 0: r = lin2(a, b, a.v + b.v, CLD(1), CLD(1)); return true;
        case 1: r = lin2(a, b, a.v - b.v, CLD(1), CLD(-1)); return true;
        case 2: r = lin2(a, b, a.v * b.v, b.v, a.v); return true;
        default:
            if (!(std::abs(b.v) > 1e-2L))
                return false;
            r = lin2(a, b, a.v / b.v, CLD(1) / b.v, -a.v / (b.v * b.v));
            return true;
    }
}
enum Un
{
    EXP, LOG, LOG10, SQRT, SIN, COS, TAN, ASIN, ACOS, ATAN, SINH, COSH, TANH, ASINH, ACOSH, ATANH, CONJ, PROJ, PLUS, MINUS, NUN
};
static const char* const UN[] = {"exp", "log", "log10", "sqrt", "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "conj", "proj", "+", "-"};
static inline bool un(int f, const RC& a, RC& r, bool programs = true)
{
    const CLD z = a.v, I(0, 1), one(1);
    const LD big = programs ? (sizeof(T) == 8 ? 9 : 5) : (sizeof(T) == 8 ? 700 : 85), n = std::abs(z);
    auto br = [&](CLD w) { return std::min(std::abs(w - one), std::abs(w + one)); };  // distance from the branch points of w
    auto g = [&](CLD w) { return 2 + 4 / br(w); };
    const LD bmin = sizeof(T) == 8 ? 1e-2L : 5e-2L;
    auto outer = [&](CLD w) { return std::fabs(w.real()) > 1 - 1e-2L && std::fabs(w.imag()) < 1e-3L * (1 + n); };
    switch (f)
    {
        case EXP: if (std::fabs(z.real()) > big) return false; r = lin(a, std::exp(z), std::exp(z), 0); return true;
        case LOG: if ((programs && cut(z)) || n < 1e-2L) return false; r = lin(a, std::log(z), one / z, 0); return true;
        case LOG10: if ((programs && cut(z)) || n < 1e-2L) return false; r = lin(a, std::log10(z), one / z / std::log(LD(10)), 0); return true;
        case SQRT: if ((programs && cut(z)) || n < 1e-2L) return false; r = lin(a, std::sqrt(z), LD(0.5) / std::sqrt(z), 0); return true;
        case SIN: if (std::fabs(z.imag()) > big) return false; r = lin(a, std::sin(z), std::cos(z), std::abs(std::sin(z))); return true;
        case COS: if (std::fabs(z.imag()) > big) return false; r = lin(a, std::cos(z), -std::sin(z), std::abs(std::cos(z))); return true;
        case SINH: if (std::fabs(z.real()) > big) return false; r = lin(a, std::sinh(z), std::cosh(z), std::abs(std::sinh(z))); return true;
        case COSH: if (std::fabs(z.real()) > big) return false; r = lin(a, std::cosh(z), std::sinh(z), std::abs(std::cosh(z))); return true;
        case TAN:
            if (std::fabs(z.imag()) < 20 && std::abs(std::cos(z)) < 5e-2L) return false;
            r = lin(a, std::tan(z), std::fabs(z.imag()) > 5000 ? CLD(0) : one / (std::cos(z) * std::cos(z)), 1 + std::norm(std::tan(z)));
            return true;
        case TANH:
            if (std::fabs(z.real()) < 20 && std::abs(std::cosh(z)) < 5e-2L) return false;
            r = lin(a, std::tanh(z), std::fabs(z.real()) > 5000 ? CLD(0) : one / (std::cosh(z) * std::cosh(z)), 1 + std::norm(std::tanh(z)));
            return true;
        case ASIN:
            if (br(z) < bmin || outer(z)) return false;
            r = lin(a, std::asin(z), one / (std::sqrt(one - z) * std::sqrt(one + z)), g(z));
            return true;
        case ACOS:
            if (br(z) < bmin || outer(z)) return false;
            r = lin(a, std::acos(z), -one / (std::sqrt(one - z) * std::sqrt(one + z)), g(z));
            return true;
        case ATAN:
            if (br(I * z) < bmin || outer(I * z)) return false;
            r = lin(a, std::atan(z), one / (one + z * z), g(I * z));
            return true;
        case ASINH:
            if (br(I * z) < bmin || outer(I * z)) return false;
            r = lin(a, std::asinh(z), one / (std::sqrt(one - I * z) * std::sqrt(one + I * z)), g(I * z));
            return true;
        case ACOSH:
            if (br(z) < bmin || cut(z, 1.01L)) return false;
            r = lin(a, std::acosh(z), one / (std::sqrt(z - one) * std::sqrt(z + one)), g(z));
            return true;
        case ATANH:
            if (br(z) < bmin || outer(z)) return false;
            r = lin(a, std::atanh(z), one / (one - z * z), g(z));
            return true;
        case CONJ: r = conj(a); return true;
        case MINUS: r = neg(a); return true;
        default: r = a; return true;
    }
}
enum Tor
{
    ABS, ARG, NORM, REAL, IMAG, NTOR
};
static const char* const TOR[] = {"abs", "arg", "norm", "real", "imag"};
static inline bool tor(int f, const RC& a, RC& r, bool programs = true)
{
    CLD z = a.v;
    switch (f)
    {
        case ABS: if (std::abs(z) < 1e-2L) return false; r = re(lin(a, std::abs(z), std::conj(z) / std::abs(z), 0)); return true;
        case ARG: if ((programs && cut(z)) || std::abs(z) < 1e-2L) return false; r = im(lin(a, CLD(0, std::arg(z)), CLD(1) / z, 0)); return true;
        case NORM: r = re(lin(a, std::norm(z), LD(2) * std::conj(z), 0)); return true;
        case REAL: r = re(a); return true;
        default: r = im(a); return true;
    }
}
// principal power
static inline bool pw(const RC& x, const RC& y, bool constX, bool constY, RC& r)
{
    if (x.v == CLD(0))
    {
        if (!(y.v.real() >= 1))
            return false;
        r = lin2(x, y, 0, y.v == CLD(1) ? 1 : 0, 0);
        return true;
    }
    // an exactly negative real base is fine only if the library cannot see another sign of the zero
    if (std::abs(x.v) < 1e-2L || (cut(x.v) && !(constX && x.v.imag() == 0 && !std::signbit(x.v.imag()))))
        return false;
    CLD l = std::log(x.v), e = l * y.v;
    if (std::abs(e) > (sizeof(T) == 8 ? 30 : 8))
        return false;
    CLD p = std::exp(e);
    LD m = std::abs(p) * std::abs(e);
    r = lin2(x, y, p, constX ? CLD(0) : p * y.v / x.v, constY ? CLD(0) : p * l, constX ? 0 : m * std::abs(y.v / x.v), constY ? 0 : m * std::abs(l) + 2 * std::abs(p));  // (log next to one)
    return true;
}

struct Op
{
    int kind = 0, f = 0, form = 0, a = 0, b = 0, c = 0, d = 0, dst = 0, x1 = 0, x2 = 0, n = 0;
    T k1 = 0, k2 = 0;
};
enum Kind
{
    BIN, CMP, SET, UNARY, TOREAL, POLAR, OFREAL, POW, RSTMT, NKIND
};

// the library's side and the reference, in lock step
template <class A>
struct Env
{
    typedef std::complex<A> C;
    eng::Ctx& c;
    std::deque<C> z;
    std::deque<A> r;
    std::vector<RC> rz, rr;
    int steps = 0;
    bool values;          // compare values
    bool broken = false;  // values that cannot be continued
    std::string last;

    Env(eng::Ctx& cc, bool v) : c(cc), values(v) {}

    template <class F>
    void withEx(int v, int i, int j, T k, F&& f)
    {
        const A &p = r[size_t(i)], &q = r[size_t(j)];
        switch (v)
        {
            case 0: f(p * k); break;
            case 1: f(p * q); break;
            default: f(sin(p)); break;
        }
    }
    RC refEx(int v, int i, int j, T k)
    {
        const RC &p = rr[size_t(i)], &q = rr[size_t(j)];
        switch (v)
        {
            case 0: return lin(p, p.v * LD(k), CLD(k), 0);
            case 1: return lin2(p, q, p.v * q.v, q.v, p.v);
            default: return lin(p, std::sin(p.v), std::cos(p.v), 0);
        }
    }
    // operand of kind: 0 CX, 1 CT, 2 AD, 3 EX, 4 T, 5 int
    RC refOperand(int k, int i, int j, int x, const Op& o)
    {
        switch (k)
        {
            case 0: return rz[size_t(i) % rz.size()];
            case 1: return RC(CLD(o.k1, o.k2));
            case 2: return rr[size_t(i) % rr.size()];
            case 3: return refEx(x, i % int(rr.size()), j % int(rr.size()), o.k1);
            case 4: return RC(CLD(o.k1));
            default: return RC(CLD(LD(o.n)));
        }
    }
    template <class F>
    void withOperand(int k, int i, int j, int x, const Op& o, F&& f)
    {
        switch (k)
        {
            case 0: f(static_cast<const C&>(z[size_t(i) % z.size()])); break;
            case 1: f(CT(o.k1, o.k2)); break;
            case 2: f(static_cast<const A&>(r[size_t(i) % r.size()])); break;
            case 3: withEx(x, i % int(r.size()), j % int(r.size()), o.k1, std::forward<F>(f)); break;
            default: f(o.k1); break;
        }
    }
    static const char* opn(int k)
    {
        static const char* const n[] = {"complex", "plain complex", "real", "expression", "number", "integer"};
        return n[k];
    }
    // ---- results
    void store(const Op& o, const RC& ref, C&& v)
    {
        if (o.dst >= int(z.size()) && z.size() < 7)
        {
            z.push_back(std::move(v));
            rz.push_back(ref);
            sync(z.back(), rz.back());
        }
        else
        {
            size_t i = 2 + size_t(o.dst) % (z.size() - 2);
            z[i] = v;
            rz[i] = ref;
            sync(z[i], rz[i]);
        }
    }
    void storeR(const Op& o, const RC& ref, A&& v)
    {
        if (o.dst >= int(r.size()) && r.size() < 6)
        {
            r.push_back(std::move(v));
            rr.push_back(ref);
            syncR(r.back(), rr.back());
        }
        else
        {
            size_t i = 2 + size_t(o.dst) % (r.size() - 2);
            r[i] = v;
            rr[i] = ref;
            syncR(r[i], rr[i]);
        }
    }
    void sync(const C& got, RC& ref)
    {
        CLD g(LD(xad::value(got.real())), LD(xad::value(got.imag())));
        compare(g, ref);
    }
    void syncR(const A& got, RC& ref) { compare(CLD(LD(xad::value(got))), ref); }
    void compare(CLD g, RC& ref)
    {
        LD tol = (sizeof(T) == 8 ? 1e-11L : 1e-4L) * (1 + std::abs(ref.v));
        if (!(std::abs(g - ref.v) <= tol))
        {
            if (values)
                c.fail("%s: got (%.17g, %.17g), expected (%.17g, %.17g)", last.c_str(), double(g.real()), double(g.imag()), double(ref.v.real()), double(ref.v.imag()));
            broken = true;
        }
        ref.v = g;
    }
    bool ok(const RC& x)
    {
        if (!(std::abs(x.v) < LIM))
            return false;
        for (int i = 0; i < ND; ++i)
            if (!(x.s[i] < 1e7L))
                return false;
        return true;
    }
    void say(const char* f, ...) __attribute__((format(printf, 2, 3)))
    {
        char b[300];
        va_list ap;
        va_start(ap, f);
        vsnprintf(b, sizeof b, f, ap);
        va_end(ap);
        last = b;
        c.log("%s", b);
    }

    template <class E>
    void polar2(C&, const E&, const E&)
    {
    }
    template <class E, class G>
    void polar2(C& out, const E& e, const G& g)
    {
        out = std::polar(e, g);
    }
    Op draw()
    {
        Op o;
        o.kind = c.weighted({8, 6, 5, 8, 4, 2, 2, 5, 2});
        o.f = int(c.below(60));
        o.form = int(c.below(60));
        o.a = int(c.below(12));
        o.b = int(c.below(12));
        o.c = int(c.below(12));
        o.d = int(c.below(12));
        o.dst = int(c.below(10));
        o.x1 = int(c.below(3));
        o.x2 = int(c.below(3));
        o.n = int(c.range(-3, 4));
        o.k1 = num();
        o.k2 = num();
        return o;
    }
    T num() { return T(c.chance(50) ? double(c.range(-8, 8)) / 4 : c.sreal(3)); }

    void step(const Op& o)
    {
        RC res;
        switch (o.kind)
        {
            case BIN:
            {
                // 13 combinations of operands
                static const int F[13][2] = {{0, 0}, {0, 1}, {0, 2}, {0, 3}, {0, 4}, {1, 0}, {1, 2}, {1, 3}, {2, 0}, {2, 1}, {3, 0}, {3, 1}, {4, 0}};
                const int* q = F[o.form % 13];
                int op = o.f % 4;
                RC a = refOperand(q[0], o.a, o.b, o.x1, o), b = refOperand(q[1], o.c, o.d, o.x1, o);
                if (!bin(op, a, b, res) || !ok(res))
                    return;
                say("%s %d %c %s %d", opn(q[0]), o.a, "+-*/"[op], opn(q[1]), o.c);
                C out;
                auto run = [&](auto&& x, auto&& y) {
                    switch (op)
                    {
                        case 0: out = x + y; break;
                        case 1: out = x - y; break;
                        case 2: out = x * y; break;
                        default: out = x / y; break;
                    }
                };
                const C &za = z[size_t(o.a) % z.size()], &zc = z[size_t(o.c) % z.size()];
                const A &ra = r[size_t(o.a) % r.size()], &rc = r[size_t(o.c) % r.size()];
                CT k(o.k1, o.k2);
                int nr = int(r.size());
                switch (o.form % 13)
                {
                    case 0: run(za, zc); break;
                    case 1: run(za, k); break;
                    case 2: run(za, rc); break;
                    case 3: withEx(o.x1, o.c % nr, o.d % nr, o.k1, [&](const auto& e) { run(za, e); }); break;
                    case 4: run(za, o.k1); break;
                    case 5: run(k, zc); break;
                    case 6: run(k, rc); break;
                    case 7: withEx(o.x1, o.c % nr, o.d % nr, o.k1, [&](const auto& e) { run(k, e); }); break;
                    case 8: run(ra, zc); break;
                    case 9: run(ra, k); break;
                    case 10: withEx(o.x1, o.a % nr, o.b % nr, o.k1, [&](const auto& e) { run(e, zc); }); break;
                    case 11: withEx(o.x1, o.a % nr, o.b % nr, o.k1, [&](const auto& e) { run(e, k); }); break;
                    default: run(o.k1, zc); break;
                }
                store(o, res, std::move(out));
                break;
            }
            case CMP:
            {
                size_t i = 2 + size_t(o.dst) % std::max<size_t>(1, z.size() - 2);
                int form = o.form % 8, op = o.f % 4;
                RC b = form < 5 ? refOperand(form, o.a, o.b, o.x1, o) : form == 5 ? rz[i] : form == 6 ? re(rz[i]) : im(rz[i]);
                if (!bin(op, rz[i], b, res) || !ok(res))
                    return;
                static const char* const n[] = {"itself", "its real part", "its imaginary part"};
                say("complex %zu %c= %s %d", i, "+-*/"[op], form < 5 ? opn(form) : n[form - 5], o.a);
                C& t = z[i];
                auto run = [&](auto&& y) {
                    switch (op)
                    {
                        case 0: t += y; break;
                        case 1: t -= y; break;
                        case 2: t *= y; break;
                        default: t /= y; break;
                    }
                };
                if (form < 5)
                    withOperand(form, o.a, o.b, o.x1, o, run);
                else if (form == 5)
                    run(t);
                else if (form == 6)
                    run(t.real());
                else
                    run(t.imag());
                rz[i] = res;
                sync(t, rz[i]);
                break;
            }
            case SET:
            {
                size_t i = 2 + size_t(o.dst) % std::max<size_t>(1, z.size() - 2), j = size_t(o.a) % z.size();
                size_t k = size_t(o.b) % r.size(), l = size_t(o.c) % r.size();
                RC& q = rz[i];
                C& t = z[i];
                switch (o.form % 20)
                {
                    case 0: say("complex %zu = complex %zu", i, j); t = z[j]; q = rz[j]; break;
                    case 1: say("complex %zu = plain complex", i); t = CT(o.k1, o.k2); q = RC(CLD(o.k1, o.k2)); break;
                    case 2: say("complex %zu = real %zu", i, k); t = r[k]; q = rr[k]; break;
                    case 3:
                        q = refEx(o.x1, int(k), int(l), o.k1);
                        say("complex %zu = expression of %zu, %zu", i, k, l);
                        withEx(o.x1, int(k), int(l), o.k1, [&](const auto& e) { t = e; });
                        break;
                    case 4: say("complex %zu = number", i); t = o.k1; q = RC(CLD(o.k1)); break;
                    case 5: say("complex %zu = complex(real %zu)", i, k); t = C(r[k]); q = rr[k]; break;
                    case 6: say("complex %zu = complex(real %zu, real %zu)", i, k, l); t = C(r[k], r[l]); q = mk(rr[k], rr[l]); break;
                    case 7:
                        q = refEx(o.x1, int(k), int(l), o.k1);
                        say("complex %zu = complex(expression of %zu, %zu)", i, k, l);
                        withEx(o.x1, int(k), int(l), o.k1, [&](const auto& e) { t = C(e); });
                        break;
                    case 8:
                        say("complex %zu = complex(expression, expression)", i);
                        q = mk(lin2(rr[k], rr[l], rr[k].v + rr[l].v, 1, 1), lin2(rr[k], rr[l], rr[k].v * rr[l].v, rr[l].v, rr[k].v));
                        t = C(r[k] + r[l], r[k] * r[l]);
                        break;
                    case 9: say("complex %zu = complex(number, real %zu)", i, k); t = C(o.k1, r[k]); q = mk(RC(CLD(o.k1)), rr[k]); break;
                    case 10: say("complex %zu .real(real %zu)", i, k); t.real(r[k]); q = mk(rr[k], im(q)); break;
                    case 11: say("complex %zu .imag(real %zu)", i, k); t.imag(r[k]); q = mk(re(q), rr[k]); break;
                    case 12: say("complex %zu .real() = real %zu", i, k); t.real() = r[k]; q = mk(rr[k], im(q)); break;
                    case 13: say("complex %zu .imag() = expression", i); t.imag() = r[k] * r[l]; q = mk(re(q), lin2(rr[k], rr[l], rr[k].v * rr[l].v, rr[l].v, rr[k].v)); break;
                    case 14: say("std::real(complex %zu) = real %zu", i, k); std::real(t) = r[k]; q = mk(rr[k], im(q)); break;
                    case 15: say("std::imag(complex %zu) *= number", i); std::imag(t) *= o.k1; q = mk(re(q), lin(im(q), im(q).v * LD(o.k1), CLD(o.k1), 0)); break;
                    case 16:
                    {
                        say("complex %zu = copy of plain complex, moved", i);
                        C tmp(CT(o.k1, o.k2));
                        t = std::move(tmp);
                        q = RC(CLD(o.k1, o.k2));
                        break;
                    }
                    case 17:
                    {
                        say("complex %zu: parts exchanged", i);
                        std::swap(t.real(), t.imag());
                        RC a = re(q), b = im(q);
                        q = mk(b, a);
                        break;
                    }
                    case 18:
                    {
                        size_t m = 2 + size_t(o.d) % (z.size() - 2);
                        say("swap complex %zu, %zu", i, m);
                        std::swap(z[i], z[m]);
                        std::swap(rz[i], rz[m]);
                        break;
                    }
                    default:
                    {
                        size_t m = 2 + size_t(o.d) % (r.size() - 2);
                        if (o.f & 1)
                        {
                            say("real %zu = part of complex %zu", m, j);
                            r[m] = o.f & 2 ? z[j].real() : std::real(z[j]);
                            rr[m] = re(rz[j]);
                        }
                        else
                        {
                            say("real %zu = imaginary part of complex %zu", m, j);
                            const C& cj = z[j];
                            r[m] = o.f & 2 ? cj.imag() : std::imag(cj);
                            rr[m] = im(rz[j]);
                        }
                        syncR(r[m], rr[m]);
                    }
                }
                if (!ok(rz[i]))
                {
                    t = C(T(1));
                    q = RC(CLD(1));
                }
                sync(t, q);
                break;
            }
            case UNARY:
            {
                int f = o.f % NUN;
                size_t i = size_t(o.a) % z.size();
                if (!un(f, rz[i], res) || !ok(res))
                    return;
                say("%s(complex %zu)", UN[f], i);
                const C& x = z[i];
                C out;
                switch (f)
                {
                    case EXP: out = exp(x); break;
                    case LOG: out = log(x); break;
                    case LOG10: out = log10(x); break;
                    case SQRT: out = sqrt(x); break;
                    case SIN: out = sin(x); break;
                    case COS: out = cos(x); break;
                    case TAN: out = tan(x); break;
                    case ASIN: out = asin(x); break;
                    case ACOS: out = acos(x); break;
                    case ATAN: out = atan(x); break;
                    case SINH: out = sinh(x); break;
                    case COSH: out = cosh(x); break;
                    case TANH: out = tanh(x); break;
                    case ASINH: out = asinh(x); break;
                    case ACOSH: out = acosh(x); break;
                    case ATANH: out = atanh(x); break;
                    case CONJ: out = conj(x); break;
                    case PROJ: out = proj(x); break;
                    case PLUS: out = +x; break;
                    default: out = -x; break;
                }
                store(o, res, std::move(out));
                break;
            }
            case TOREAL:
            {
                int f = o.f % NTOR;
                size_t i = size_t(o.a) % z.size();
                if (!tor(f, rz[i], res) || !ok(res))
                    return;
                say("%s(complex %zu)", TOR[f], i);
                const C& x = z[i];
                A out;
                switch (f)
                {
                    case ABS: out = o.form & 1 ? abs(x) : std::abs(x); break;
                    case ARG: out = arg(x); break;
                    case NORM: out = o.form & 1 ? norm(x) : norm(z[i]); break;
                    case REAL: out = o.form & 1 ? x.real() : real(x); break;
                    default: out = o.form & 1 ? x.imag() : imag(x); break;
                }
                storeR(o, res, std::move(out));
                break;
            }
            case POLAR:
            {
                int nr = int(r.size()), form = o.form % 10;
                size_t i = size_t(o.a) % r.size(), j = size_t(o.c) % r.size();
                // which operand: 2 AD, 3 EX, 4 T, -1 none
                static const int F[10][2] = {{2, 2}, {3, 3}, {3, 3}, {2, 3}, {3, 2}, {4, 2}, {2, 4}, {4, 3}, {3, 4}, {2, -1}};
                int x2 = (form == 1 || form == 2) && o.x1 == o.x2 ? (o.x1 + 1) % 3 : o.x2;
                RC a = refOperand(F[form][0], int(i), o.b, o.x1, o), t = F[form][1] < 0 ? RC() : F[form][1] == 4 ? RC(CLD(o.k2)) : refOperand(F[form][1], int(j), o.d, x2, o);
                res = mk(lin2(a, t, a.v * std::cos(t.v), std::cos(t.v), -a.v * std::sin(t.v)), lin2(a, t, a.v * std::sin(t.v), std::sin(t.v), a.v * std::cos(t.v)));
                if (!ok(res) || !(std::abs(t.v) < 50))
                    return;
                say("polar form %d of reals %zu, %zu", form, i, j);
                C out;
                switch (form)
                {
                    case 0: out = std::polar(r[i], r[j]); break;
                    case 1:
                    case 2:
                        // two expressions of the same type do not compile
                        withEx(o.x1, int(i), o.b % nr, o.k1, [&](const auto& e) {
                            this->withEx(x2, int(j), o.d % nr, o.k1, [&](const auto& g) { polar2(out, e, g); });
                        });
                        break;
                    case 3: withEx(o.x2, int(j), o.d % nr, o.k1, [&](const auto& g) { out = std::polar(r[i], g); }); break;
                    case 4: withEx(o.x1, int(i), o.b % nr, o.k1, [&](const auto& e) { out = std::polar(e, r[j]); }); break;
                    case 5: out = std::polar(o.k1, r[j]); break;
                    case 6: out = std::polar(r[i], o.k2); break;
                    case 7: withEx(o.x2, int(j), o.d % nr, o.k1, [&](const auto& g) { out = std::polar(o.k1, g); }); break;
                    case 8: withEx(o.x1, int(i), o.b % nr, o.k1, [&](const auto& e) { out = std::polar(e, o.k2); }); break;
                    default: out = std::polar(r[i]); break;
                }
                store(o, res, std::move(out));
                break;
            }
            case OFREAL:
            {
                int f = o.f % 6;
                bool ex = o.form & 1;
                int nr = int(r.size()), i = o.a % nr, j = o.b % nr;
                RC a = ex ? refEx(o.x1, i, j, o.k1) : rr[size_t(i)];
                static const char* const n[] = {"norm", "arg", "real", "imag", "conj", "proj"};
                LD x = a.v.real();
                switch (f)
                {
                    case 0: res = lin(a, x * x, 2 * x, 0); break;
                    case 1: if (x == 0) return; res = RC(x < 0 ? 3.14159265358979323846264338327950288L : 0.0L); break;
                    case 3: res = RC(); break;
                    default: res = a; break;
                }
                if (!ok(res))
                    return;
                say("%s(%s %d)", n[f], ex ? "expression of real" : "real", i);
                C out;
                A outr;
                auto run = [&](const auto& e) {
                    switch (f)
                    {
                        case 0: outr = std::norm(e); break;
                        case 1: outr = std::arg(e); break;
                        case 2: outr = std::real(e); break;
                        case 3: outr = std::imag(e); break;
                        case 4: out = std::conj(e); break;
                        default: out = std::proj(e); break;
                    }
                };
                if (ex)
                    withEx(o.x1, i, j, o.k1, run);
                else
                    run(r[size_t(i)]);
                if (f < 4)
                    storeR(o, res, std::move(outr));
                else
                    store(o, res, std::move(out));
                break;
            }
            case POW:
            {
                // complex base with {CX, CT, AD, EX, T, int}, complex exponent with {CT, AD, EX, T, int}
                int form = o.form % 11;
                bool cb = form < 6;
                int k = cb ? form : form - 5;
                int ity = o.f % 8;
                Op q = o;
                if (ity >= 4 && q.n < 0)
                    q.n = -q.n;
                RC a = cb ? rz[size_t(o.a) % rz.size()] : refOperand(k, o.a, o.b, o.x1, q);
                RC b = cb ? refOperand(k, o.c, o.d, o.x1, q) : rz[size_t(o.c) % rz.size()];
                bool constK = k == 1 || k >= 4;
                // real bases reach the complex logarithm with imaginary part +0
                bool realBase = !cb && k >= 2;
                if (!pw(a, b, !cb && constK, cb && constK, res))
                {
                    if (!realBase || !(a.v.real() < -1e-2L))
                        return;
                    CLD l = std::log(CLD(a.v.real(), LD(0))), e = l * b.v;
                    if (std::abs(e) > (sizeof(T) == 8 ? 30 : 8))
                        return;
                    CLD p = std::exp(e);
                    LD m = 1 + std::abs(e);
                    res = lin2(a, b, p, constK ? CLD(0) : p * b.v / a.v, p * l, m * std::abs(p * b.v / a.v), m * std::abs(p * l) + 2 * std::abs(p));
                }
                if (!ok(res))
                    return;
                say("pow(%s %d, %s %d)", cb ? "complex" : opn(k), k == 5 && !cb ? q.n : o.a, cb ? opn(k) : "complex", k == 5 && cb ? q.n : o.c);
                C out;
                const C& w = z[size_t(cb ? o.a : o.c) % z.size()];
                auto run = [&](const auto& e) {
                    if (cb)
                        out = pow(w, e);
                    else
                        out = pow(e, w);
                };
                if (k == 0)
                    run(static_cast<const C&>(z[size_t(o.c) % z.size()]));
                else if (k < 5)
                    withOperand(k, cb ? o.c : o.a, cb ? o.d : o.b, o.x1, q, run);
                else
                    switch (ity)
                    {
                        case 0: run(int(q.n)); break;
                        case 1: run(short(q.n)); break;
                        case 2: run(long(q.n)); break;
                        case 3: run((long long)(q.n)); break;
                        case 4: run(unsigned(q.n)); break;
                        case 5: run((unsigned short)(q.n)); break;
                        case 6: run((unsigned long)(q.n)); break;
                        default: run((unsigned long long)(q.n)); break;
                    }
                store(o, res, std::move(out));
                break;
            }
            default:
            {
                size_t i = size_t(o.a) % r.size(), j = size_t(o.b) % r.size();
                switch (o.f % 4)
                {
                    case 0: res = lin2(rr[i], rr[j], rr[i].v + rr[j].v * LD(o.k1), 1, CLD(o.k1)); break;
                    case 1: res = lin2(rr[i], rr[j], rr[i].v * rr[j].v, rr[j].v, rr[i].v); break;
                    case 2: res = lin(rr[i], std::cos(rr[i].v), -std::sin(rr[i].v), 0); break;
                    default: res = RC(CLD(o.k1)); break;
                }
                if (!ok(res))
                    return;
                say("real statement %d of %zu, %zu", o.f % 4, i, j);
                A out;
                switch (o.f % 4)
                {
                    case 0: out = r[i] + r[j] * o.k1; break;
                    case 1: out = r[i] * r[j]; break;
                    case 2: out = cos(r[i]); break;
                    default: out = o.k1; break;
                }
                storeR(o, res, std::move(out));
            }
        }
        ++steps;
    }
    // inputs: z[0], z[1], r[0], r[1], never written; two variables each that are copies of them
    void init(const T (&v)[6], const std::function<void(C&)>& regC, const std::function<void(A&)>& regR)
    {
        for (int i = 0; i < 2; ++i)
        {
            z.push_back(C(v[2 * i], v[2 * i + 1]));
            rz.push_back(RC(CLD(v[2 * i], v[2 * i + 1])));
            rz.back().d[2 * i] = 1;
            rz.back().d[2 * i + 1] = CLD(0, 1);
            rz.back().s[2 * i] = rz.back().s[2 * i + 1] = 1;
            regC(z.back());
        }
        for (int i = 0; i < 2; ++i)
        {
            r.push_back(A(v[4 + i]));
            rr.push_back(RC(CLD(v[4 + i])));
            rr.back().d[4 + i] = 1;
            rr.back().s[4 + i] = 1;
            regR(r.back());
        }
    }
    void copies()
    {
        for (size_t i = 0; i < 2; ++i)
        {
            z.push_back(z[i]);
            rz.push_back(rz[i]);
            r.push_back(r[i]);
            rr.push_back(rr[i]);
        }
    }
};
}  // namespace cplx

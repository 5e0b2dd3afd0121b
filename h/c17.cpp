// C17: values of complex arithmetic on active types against std::complex.
#include "cplx.hpp"
#include <sstream>
using namespace cplx;
#ifdef FWD
typedef xad::fwd<T> Mode;
#else
typedef xad::adj<T> Mode;
#endif
typedef Mode::active_type A;
typedef std::complex<A> C;
static const LD EPS = sizeof(T) == 8 ? 1e-12L : 1e-4L;

struct Rec
{
#ifndef FWD
    Mode::tape_type tape;
    Rec(bool act) : tape(act) {}
    void reg(C& z) { if (tape.isActive()) tape.registerInput(z); }
    void reg(A& r) { if (tape.isActive()) tape.registerInput(r); }
    void start() { tape.newRecording(); }
#else
    Rec(bool) {}
    void reg(C&) {}
    void reg(A&) {}
    void start() {}
#endif
};

ENG_PROP(programs, 4)
{
    Rec rec(!c.chance(25));
    T v[6];
    bool ints = c.chance(30);
    for (auto& x : v) x = T(ints ? double(c.range(-8, 8)) / 4 : c.chance(8) ? 0.0 : c.sreal(3));
    Env<A> e(c, true);
    e.init(v, [&](C& z) { rec.reg(z); }, [&](A& r) { rec.reg(r); });
    rec.start();
    e.copies();
    int n = int(c.pick(std::vector<int>{1, 6, 20}));
    for (int i = 0; i < n; ++i)
        if (i == 0 || c.chance(96))
            e.step(e.draw());
        else
            break;
    if (e.steps >= 2)
        c.nontrivial();
}

// a number of any size that leaves room for squares and products
static T wide(eng::Ctx& c)
{
    double lim = sizeof(T) == 8 ? 70 : 8;
    switch (c.below(6))
    {
        case 0: return T(c.chance(50) ? -0.0 : 0.0);
        case 1: return T(double(c.range(-12, 12)) / 4);
        case 2: return T(c.sreal(4));
        case 3: return T(c.sreal(1000));
        default: return T((c.chance(50) ? -1 : 1) * std::pow(10.0, c.real(-lim, lim)));
    }
}
static void cmp(eng::Ctx& c, const char* what, const C& got, CLD want, LD unit, CT in, CT in2)
{
    CLD g(LD(xad::value(got.real())), LD(xad::value(got.imag())));
    LD scale = std::abs(want) + unit;
    if (!(std::abs(g - want) <= EPS * scale + LD(TINY)))
        c.fail("%s of (%.9g, %.9g), (%.9g, %.9g): got (%.17g, %.17g), expected (%.17g, %.17g)", what, double(in.real()), double(in.imag()), double(in2.real()), double(in2.imag()),
               double(g.real()), double(g.imag()), double(want.real()), double(want.imag()));
}
// any magnitudes, signs of zero, branch cuts
ENG_PROP(single, 4)
{
    Rec rec(!c.chance(25));
    CT a(wide(c), wide(c)), b(wide(c), wide(c));
    C x(a.real(), a.imag()), y(b.real(), b.imag());
    rec.reg(x);
    rec.reg(y);
    rec.start();
    CLD p(a.real(), a.imag()), q(b.real(), b.imag());
    const T big = sizeof(T) == 8 ? T(1e100) : T(1e15);
    bool bothZeroParts = a.real() == 0 && a.imag() == 0;
    int op = int(c.below(4 + NUN + NTOR + 3));
    c.log("operation %d on (%g, %g), (%g, %g)", op, double(a.real()), double(a.imag()), double(b.real()), double(b.imag()));
    bool did = true;
    auto div0 = [&](CLD d) { return !(std::abs(d) > 1 / LD(big) && std::abs(d) < big); };
    switch (op)
    {
        case 0: cmp(c, "sum", x + y, p + q, std::abs(p) + std::abs(q), a, b); break;
        case 1: cmp(c, "difference", x - y, p - q, std::abs(p) + std::abs(q), a, b); break;
        case 2: cmp(c, "product", x * y, p * q, 0, a, b); break;
        case 3:
            did = !div0(q);
            if (did)
                cmp(c, "quotient", x / y, p / q, 0, a, b);
            break;
        default:
            if (op < 4 + NUN)
            {
                int f = op - 4;
                RC r;
                if (f == LOG || f == LOG10 || f == SQRT)
                {
                    // also on the branch cut, where the sign of zero decides, and near zero
                    did = !bothZeroParts;
                    if (did)
                    {
                        CLD w = f == LOG ? std::log(p) : f == LOG10 ? std::log10(p) : std::sqrt(p);
                        cmp(c, UN[f], f == LOG ? log(x) : f == LOG10 ? log10(x) : sqrt(x), w, f == SQRT ? 0 : 1, a, CT());
                    }
                }
                else
                {
                    did = un(f, RC(p), r, false) && (std::abs(p.imag()) < 1e6L || (f != EXP && f != SINH && f != COSH && f != TANH)) &&
                          (std::abs(p.real()) < 1e6L || (f != SIN && f != COS && f != TAN));
                    if (did)
                    {
                        LD unit = f >= ASIN && f <= ATAN ? 1 : f >= ASINH && f <= ATANH ? 1 : 0;
                        C o;
                        switch (f)
                        {
                            case EXP: o = exp(x); break;
                            case SIN: o = sin(x); break;
                            case COS: o = cos(x); break;
                            case TAN: o = tan(x); break;
                            case ASIN: o = asin(x); break;
                            case ACOS: o = acos(x); break;
                            case ATAN: o = atan(x); break;
                            case SINH: o = sinh(x); break;
                            case COSH: o = cosh(x); break;
                            case TANH: o = tanh(x); break;
                            case ASINH: o = asinh(x); break;
                            case ACOSH: o = acosh(x); break;
                            case ATANH: o = atanh(x); break;
                            case CONJ: o = conj(x); break;
                            case PROJ: o = proj(x); break;
                            case PLUS: o = +x; break;
                            default: o = -x; break;
                        }
                        cmp(c, UN[f], o, r.v, unit, a, CT());
                        // signs of exact zeros where nothing is computed
                        if (f == CONJ || f == MINUS || f == PLUS || f == PROJ)
                        {
                            CT w = f == CONJ ? std::conj(a) : f == MINUS ? -a : a;
                            if (xad::value(o.real()) != w.real() || xad::value(o.imag()) != w.imag() || std::signbit(xad::value(o.imag())) != std::signbit(w.imag()))
                                c.fail("%s is not exact", UN[f]);
                        }
                    }
                }
            }
            else if (op < 4 + NUN + NTOR)
            {
                int f = op - 4 - NUN;
                LD w = f == ABS ? std::abs(p) : f == ARG ? std::arg(p) : f == NORM ? std::norm(p) : f == REAL ? p.real() : p.imag();
                A o = f == ABS ? abs(x) : f == ARG ? arg(x) : f == NORM ? norm(x) : f == REAL ? A(x.real()) : A(x.imag());
                if (!(std::fabs(LD(xad::value(o)) - w) <= EPS * std::fabs(w) + LD(TINY)))
                    c.fail("%s of (%g, %g) is %.17g, expected %.17g", TOR[f], double(a.real()), double(a.imag()), double(xad::value(o)), double(w));
            }
            else if (op == 4 + NUN + NTOR)
            {
                A m = a.real(), th = T(c.sreal(100));
                LD t = LD(xad::value(th));
                cmp(c, "polar", std::polar(m, th), CLD(p.real() * std::cos(t), p.real() * std::sin(t)), 0, a, CT(T(t)));
            }
            else if (op == 5 + NUN + NTOR)
            {
                // functions of real numbers: signs of zero
                A m = a.real();
                LD w = std::arg(CLD(p.real(), LD(0)));
                if (std::fabs(LD(xad::value(std::arg(m))) - w) > EPS * 4 || std::fabs(LD(xad::value(std::arg(m * T(1)))) - w) > EPS * 4)
                    c.fail("arg of the real number %g is %g, expected %g", double(a.real()), double(xad::value(std::arg(m))), double(w));
                if (xad::value(std::imag(m)) != 0 || xad::value(std::real(m)) != a.real() || xad::value(std::imag(m * m)) != 0 || std::fabs(LD(xad::value(std::norm(m))) - p.real() * p.real()) > EPS * p.real() * p.real() + LD(TINY))
                    c.fail("real, imag or norm of the real number %g is wrong", double(a.real()));
            }
            else
            {
                did = !bothZeroParts && std::abs(std::log(p) * q) < (sizeof(T) == 8 ? 300 : 50);
                if (did)
                {
                    LD amp = 1 + std::abs(std::log(p) * q);
                    CLD w = std::exp(std::log(p) * q);
                    cmp(c, "pow", pow(x, y), w, amp * std::abs(w), a, b);
                    if (std::fabs(std::log(std::abs(p)) * q.real()) + 4 * std::fabs(q.real()) < (sizeof(T) == 8 ? 300 : 50))
                    {
                        CLD w2 = std::exp(std::log(p) * q.real());
                        cmp(c, "pow", pow(x, y.real()), w2, amp * std::abs(w2), a, CT(b.real()));
                    }
                }
            }
    }
    if (did)
        c.nontrivial();
}
// on the axes, where the sign of zero decides the side of a branch cut, against the functions of the standard library
ENG_PROP(cuts, 1)
{
    Rec rec(!c.chance(25));
    LD m = c.chance(50) ? LD(c.sreal(4)) : LD((c.chance(50) ? -1 : 1) * std::pow(10.0, c.real(-4, 4)));
    T v = T(m), z = c.chance(50) ? T(0.0) : T(-0.0);
    bool onReal = c.chance(60);
    CT a = onReal ? CT(v, z) : CT(z, v);
    C x(a.real(), a.imag());
    rec.reg(x);
    rec.start();
    LD r = std::fabs(LD(v));
    if (r < 1e-3L || std::fabs(r - 1) < 1e-3L)
        return;
    int f = int(c.below(10));
    static const char* const N[] = {"log", "log10", "sqrt", "asin", "acos", "atan", "asinh", "acosh", "atanh", "arg"};
    CLD p(a.real(), a.imag()), w;  // keeps the sign of zero
    C o;
    switch (f)
    {
        case 0: o = log(x); w = std::log(p); break;
        case 1: o = log10(x); w = std::log10(p); break;
        case 2: o = sqrt(x); w = std::sqrt(p); break;
        case 3: o = asin(x); w = std::asin(p); break;
        case 4: o = acos(x); w = std::acos(p); break;
        case 5: o = atan(x); w = std::atan(p); break;
        case 6: o = asinh(x); w = std::asinh(p); break;
        case 7: o = acosh(x); w = std::acosh(p); break;
        case 8: o = atanh(x); w = std::atanh(p); break;
        default: o = C(arg(x)); w = CLD(std::arg(p)); break;
    }
    c.log("%s of (%g, %g)", N[f], double(a.real()), double(a.imag()));
    cmp(c, N[f], o, w, 1 + r, a, CT());
    if (f == 2 && xad::value(o.real()) < 0)
        c.fail("the square root of (%g, %g) has the negative real part %g", double(a.real()), double(a.imag()), double(xad::value(o.real())));
    c.nontrivial();
}
// infinite and NaN parts against std::complex of the underlying type; parts near the limits of the type
static bool sameSpecial(T g, T w, bool otherNan)
{
    if (std::isnan(w) || std::isnan(g))
        return std::isnan(w) && std::isnan(g);
    if (std::isinf(w) || std::isinf(g))
        return std::isinf(w) && std::isinf(g) && (otherNan || (g > 0) == (w > 0));
    if (w == 0 && g == 0)
        return otherNan || std::signbit(w) == std::signbit(g);
    return std::fabs(LD(g) - LD(w)) <= EPS * std::fabs(LD(w)) + LD(TINY);
}
ENG_PROP(special, 2)
{
    Rec rec(!c.chance(25));
    const T inf = std::numeric_limits<T>::infinity(), nan = std::numeric_limits<T>::quiet_NaN();
    const LD top = std::numeric_limits<T>::max_exponent10, bot = std::numeric_limits<T>::min_exponent10;
    auto num = [&](bool spec) -> T
    {
        T sg = c.chance(50) ? T(-1) : T(1);
        if (spec)
            return c.chance(70) ? sg * inf : nan;
        switch (c.below(6))
        {
            case 0: return sg * T(0);
            case 1: return sg * T(double(c.range(1, 12)) / 4);
            case 2: return T(sg * c.sreal(100));
            case 3: return T(LD(sg) * std::pow(LD(10), bot + LD(c.real(0.5, 10))));
            case 4: return T(LD(sg) * std::pow(LD(10), top - LD(c.real(0.5, 10))));
            default: return sg * T(1);
        }
    };
    int which = int(c.below(4));
    CT a(num(which == 1 || which == 3), num(which == 2 || which == 3)), b(num(c.chance(30)), num(c.chance(30)));
    C x(a.real(), a.imag()), y(b.real(), b.imag());
    rec.reg(x);
    rec.reg(y);
    rec.start();
    static const char* const N[] = {"abs", "arg", "norm", "conj", "proj", "minus", "sum", "difference", "equality", "log", "sqrt", "exp", "sin", "cos", "tan", "asin", "acos", "atan",
                                    "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "log10"};
    // only the first eleven are asked for results near the limits of the type
    int f = int(c.below(which == 0 ? 11 : 25));
    c.log("%s of (%g, %g), (%g, %g)", N[f], double(a.real()), double(a.imag()), double(b.real()), double(b.imag()));
    CT w;
    C o;
    bool real = false;
    CLD p(a.real(), a.imag());
    switch (f)
    {
        case 0: o = C(abs(x)); w = which ? CT(std::abs(a)) : CT(T(std::abs(p))); real = true; break;
        case 1: o = C(arg(x)); w = CT(std::arg(a)); real = true; break;
        case 2: o = C(norm(x)); w = CT(a.real() * a.real() + a.imag() * a.imag()); real = true; break;
        case 3: o = conj(x); w = std::conj(a); break;
        case 4: o = proj(x); w = std::proj(a); break;
        case 5: o = -x; w = -a; break;
        case 6: o = x + y; w = a + b; break;
        case 7: o = x - y; w = a - b; break;
        case 8:
            o = C(T((x == y) + 2 * (x != y) + 4 * (x == y.real()) + 8 * (x.imag() == y) + 16 * (x != b.real()) + 32 * (x == x)));
            w = CT(T((a == b) + 2 * (a != b) + 4 * (a == b.real()) + 8 * (a.imag() == b) + 16 * (a != b.real()) + 32 * (a == a)));
            real = true;
            break;
        case 9: o = log(x); w = which ? std::log(a) : CT(std::log(p)); break;
        case 10: o = sqrt(x); w = which ? std::sqrt(a) : CT(std::sqrt(p)); break;
        case 11: o = exp(x); w = std::exp(a); break;
        case 12: o = sin(x); w = std::sin(a); break;
        case 13: o = cos(x); w = std::cos(a); break;
        case 14: o = tan(x); w = std::tan(a); break;
        case 15: o = asin(x); w = std::asin(a); break;
        case 16: o = acos(x); w = std::acos(a); break;
        case 17: o = atan(x); w = std::atan(a); break;
        case 18: o = sinh(x); w = std::sinh(a); break;
        case 19: o = cosh(x); w = std::cosh(a); break;
        case 20: o = tanh(x); w = std::tanh(a); break;
        case 21: o = asinh(x); w = std::asinh(a); break;
        case 22: o = acosh(x); w = std::acosh(a); break;
        case 23: o = atanh(x); w = std::atanh(a); break;
        default: o = log10(x); w = std::log10(a); break;
    }
    T gr = xad::value(o.real()), gi = xad::value(o.imag());
    bool ok;
    // signs of zeros are unspecified when both parts are infinite
    bool loose = f >= 9 && which == 3;
    if (which || f < 9 || !(std::isfinite(w.real()) && std::isfinite(w.imag())))
        ok = sameSpecial(gr, w.real(), std::isnan(w.imag()) || (loose && w.real() == 0)) && (real || sameSpecial(gi, w.imag(), std::isnan(w.real()) || (loose && w.imag() == 0)));
    else
        ok = std::abs(CLD(gr, gi) - CLD(w.real(), w.imag())) <= EPS * (std::abs(CLD(w.real(), w.imag())) + (f == 9)) + LD(TINY);
    if (!ok)
        c.fail("%s of (%.9g, %.9g), (%.9g, %.9g): got (%.17g, %.17g), expected (%.17g, %.17g)", N[f], double(a.real()), double(a.imag()), double(b.real()), double(b.imag()), double(gr), double(gi),
               double(w.real()), double(w.imag()));
    c.nontrivial();
}
ENG_PROP(compare, 2)
{
    Rec rec(!c.chance(25));
    auto k = [&]() { return T(double(c.range(-1, 1))) * (c.chance(30) ? T(-1) : T(1)); };
    CT a(k(), k()), b(k(), k());
    T t = k();
    C x(a.real(), a.imag()), y(b.real(), b.imag());
    A r = t;
    rec.reg(x);
    rec.reg(r);
    rec.start();
    struct { const char* n; bool got, want; } q[] = {
        {"complex == complex", x == y, a == b},     {"complex != complex", x != y, a != b},
        {"complex == itself", x == x, true},        {"complex == real", x == r, a == t},
        {"complex != real", x != r, a != t},        {"real == complex", r == x, t == a},
        {"real != complex", r != x, t != a},        {"complex == number", x == t, a == t},
        {"complex != number", x != t, a != t},      {"number == complex", t == x, t == a},
        {"number != complex", t != x, t != a},      {"complex == expression", x == r * T(1), a == t},
        {"complex != expression", x != r + r, a != t + t}, {"expression == complex", r + r == x, t + t == a},
        {"expression != complex", -r != x, -t != a},
    };
    c.log("(%g, %g), (%g, %g), %g", double(a.real()), double(a.imag()), double(b.real()), double(b.imag()), double(t));
    for (auto& e : q)
        if (e.got != e.want)
            c.fail("%s is %s", e.n, e.got ? "true" : "false");
    c.nontrivial();
}
ENG_PROP(access, 2)
{
    Rec rec(!c.chance(25));
    auto num = [&]() { return T(c.chance(50) ? double(c.range(-8, 8)) / 4 : c.sreal(100)); };
    T a = num(), b = num(), d = num(), e = num();
    CT k(a, b);
    A ra = a, rb = b;
    C z(a, b), z1(k), z2(ra, rb), z3(a), z4(ra), z5(ra * T(2)), z6, z7 = k, z8 = ra, z9 = a, z10(z), z11;
    rec.reg(z);
    rec.reg(z2);
    rec.start();
    z11 = z;
    C z12 = std::move(z11);
    auto is = [&](const char* n, const C& q, T r, T i) {
        CT v = xad::value(q);
        if (v.real() != r || v.imag() != i || xad::value(q.real()) != r || xad::value(q.imag()) != i || xad::value(std::real(q)) != r || xad::value(std::imag(q)) != i)
            c.fail("%s is (%g, %g), expected (%g, %g)", n, double(v.real()), double(v.imag()), double(r), double(i));
    };
    c.log("%g %g %g %g", double(a), double(b), double(d), double(e));
    is("complex(number, number)", z, a, b);
    is("complex(plain complex)", z1, a, b);
    is("complex(real, real)", z2, a, b);
    is("complex(number)", z3, a, 0);
    is("complex(real)", z4, a, 0);
    is("complex(expression)", z5, a * T(2), 0);
    is("complex()", z6, 0, 0);
    is("complex = plain complex", z7, a, b);
    is("complex = real", z8, a, 0);
    is("complex = number", z9, a, 0);
    is("copy", z10, a, b);
    is("moved", z12, a, b);
    C w(d, e);
    switch (c.below(9))
    {
        case 0: w = a; is("= number", w, a, 0); break;
        case 1: w = ra; is("= real", w, a, 0); break;
        case 2: w = ra * rb; is("= expression", w, a * b, 0); break;
        case 3: w = k; is("= plain complex", w, a, b); break;
        case 4: w.real(ra); is("real(x)", w, a, e); break;
        case 5: w.imag(ra); is("imag(x)", w, d, a); break;
        case 6: std::real(w) = a; is("std::real(z) =", w, a, e); break;
        case 7: std::imag(w) = rb; is("std::imag(z) =", w, d, b); break;
        default: w.real() += ra; w.imag() = rb; is("parts", w, d + a, b); break;
    }
    is("plain complex", C(xad::value(CT(a, b))), a, b);
#ifndef FWD
    if (rec.tape.isActive())
#endif
    {
        // derivatives are set and read in all ways
        xad::derivative(z.real()) = d;
        xad::derivative(z.imag()) = e;
        CT g = xad::derivative(static_cast<const C&>(z)), h = z.getDerivative(), i = z.getAdjoint();
        if (g != CT(d, e) || h != CT(d, e) || i != CT(d, e))
            c.fail("derivatives set through the parts are read as (%g, %g), (%g, %g), (%g, %g), not (%g, %g)", double(g.real()), double(g.imag()), double(h.real()), double(h.imag()), double(i.real()), double(i.imag()), double(d), double(e));
        bool ad = c.chance(50), one = c.chance(30);
        if (one)
            ad ? z.setAdjoint(a) : z.setDerivative(a);
        else
            ad ? z.setAdjoint(a, b) : z.setDerivative(a, b);
        T want = one ? T(0) : b;
        if (xad::derivative(z.real()) != a || xad::derivative(z.imag()) != want || z.getDerivative() != CT(a, want))
            c.fail("derivatives set for the number are read as (%g, %g), not (%g, %g)", double(xad::derivative(z.real())), double(xad::derivative(z.imag())), double(a), double(want));
        is("number whose derivatives were set", z, a, b);
    }
    c.nontrivial();
}
ENG_PROP(streams, 2)
{
    auto num = [&]() { return T(c.chance(50) ? double(c.range(-8, 8)) / 4 : c.sreal(1000)); };
    if (c.chance(50))
    {
        T a = num(), b = num();
        C z(a, b);
        CT k(a, b);
        std::ostringstream s, t;
        int p = int(c.range(0, 15)), w = int(c.below(30)), f = int(c.below(4));
        bool sp = c.chance(50), left = c.chance(50);
        auto fmt = [&](std::ostream& o) {
            o.precision(p);
            o.width(w);
            o.fill('*');
            if (f == 1) o << std::fixed;
            if (f == 2) o << std::scientific;
            if (sp) o << std::showpos;
            if (left) o << std::left;
        };
        fmt(s);
        fmt(t);
        s << z << '|';
        t << k << '|';
        if (s.str() != t.str())
            c.fail("written as %s, std::complex is written as %s", s.str().c_str(), t.str().c_str());
        c.nontrivial();
        return;
    }
    static const char* const tok[] = {"(", ")", ",", " ", "1.5", "-2", "+3e1", "x", "0", ".5", "", "(1,2)", "(7)", "4 "};
    std::string in;
    if (c.chance(40))
    {
        in = c.chance(30) ? " (" : "(";
        in += tok[4 + c.below(3)];
        if (c.chance(70))
        {
            in += c.chance(30) ? " , " : ",";
            in += tok[4 + c.below(3)];
        }
        in += c.chance(90) ? ")" : "";
        in += tok[c.below(14)];
    }
    else
        for (int i = int(c.below(7)); i >= 0; --i) in += tok[c.below(14)];
    c.log("\"%s\"", in.c_str());
    std::istringstream s(in), t(in);
    C z(T(7), T(8));
    CT k(T(7), T(8));
    for (int i = 0; i < 2; ++i)
    {
        s >> z;
        t >> k;
        if (s.fail() != t.fail() || s.eof() != t.eof())
            c.fail("reading \"%s\": %s, std::complex %s", in.c_str(), s.fail() ? "fails" : "succeeds", t.fail() ? "fails" : "succeeds");
        if (xad::value(z) != k)
            c.fail("reading \"%s\" gives (%g, %g), std::complex (%g, %g)", in.c_str(), double(xad::value(z).real()), double(xad::value(z).imag()), double(k.real()), double(k.imag()));
    }
    s.clear();
    t.clear();
    std::string x, y;
    std::getline(s, x);
    std::getline(t, y);
    if (x != y)
        c.fail("reading \"%s\" leaves \"%s\", std::complex \"%s\"", in.c_str(), x.c_str(), y.c_str());
    if (!t.fail() || in.size() > 2)
        c.nontrivial();
}

// Independent reference: truncated multivariate Taylor arithmetic ("jets") in long double around
// primal values computed with the plain floating-point type.  Shares no code with the library.
// Every jet also carries a majorant (same arithmetic on absolute values) from which the comparison
// tolerance is derived.
#pragma once
#include <algorithm>
#include <array>
#include <cmath>
#include <cstddef>
#include <type_traits>
#include <vector>

namespace ref
{
typedef long double LD;

// ---------------------------------------------------------------- univariate series to order 3
struct Ser
{
    LD a[4];
    Ser(LD c = 0, LD d = 0)
    {
        a[0] = c;
        a[1] = d;
        a[2] = a[3] = 0;
    }
};
inline Ser operator+(Ser x, const Ser& y)
{
    for (int i = 0; i < 4; ++i) x.a[i] += y.a[i];
    return x;
}
inline Ser operator-(Ser x, const Ser& y)
{
    for (int i = 0; i < 4; ++i) x.a[i] -= y.a[i];
    return x;
}
inline Ser operator*(const Ser& x, const Ser& y)
{
    Ser r;
    for (int i = 0; i < 4; ++i)
        for (int j = 0; i + j < 4; ++j) r.a[i + j] += x.a[i] * y.a[j];
    return r;
}
inline Ser operator/(const Ser& x, const Ser& y)
{
    Ser r;
    for (int i = 0; i < 4; ++i)
    {
        LD s = x.a[i];
        for (int j = 1; j <= i; ++j) s -= y.a[j] * r.a[i - j];
        r.a[i] = s / y.a[0];
    }
    return r;
}
inline Ser sexp(const Ser& x)
{
    Ser r(std::exp(x.a[0]));
    for (int k = 1; k < 4; ++k)
    {
        LD s = 0;
        for (int j = 1; j <= k; ++j) s += LD(j) * x.a[j] * r.a[k - j];
        r.a[k] = s / LD(k);
    }
    return r;
}
inline Ser slog(const Ser& x)
{
    Ser r(std::log(x.a[0]));
    for (int k = 1; k < 4; ++k)
    {
        LD s = LD(k) * x.a[k];
        for (int j = 1; j < k; ++j) s -= LD(j) * r.a[j] * x.a[k - j];
        r.a[k] = s / (LD(k) * x.a[0]);
    }
    return r;
}
inline void ssincos(const Ser& x, Ser& s, Ser& c)
{
    s = Ser(std::sin(x.a[0]));
    c = Ser(std::cos(x.a[0]));
    for (int k = 1; k < 4; ++k)
    {
        LD p = 0, q = 0;
        for (int j = 1; j <= k; ++j)
        {
            p += LD(j) * x.a[j] * c.a[k - j];
            q += LD(j) * x.a[j] * s.a[k - j];
        }
        s.a[k] = p / LD(k);
        c.a[k] = -q / LD(k);
    }
}
// x^p for constant p, x.a[0] != 0
inline Ser spow(const Ser& x, LD p)
{
    Ser r(std::pow(x.a[0], p));
    for (int k = 1; k < 4; ++k)
    {
        LD s = 0;
        for (int j = 1; j <= k; ++j) s += (p * LD(j) - LD(k - j)) * x.a[j] * r.a[k - j];
        r.a[k] = s / (LD(k) * x.a[0]);
    }
    return r;
}
inline Ser ssqrt(const Ser& x)
{
    Ser r(std::sqrt(x.a[0]));
    for (int k = 1; k < 4; ++k)
    {
        LD s = x.a[k];
        for (int j = 1; j < k; ++j) s -= r.a[j] * r.a[k - j];
        r.a[k] = s / (2 * r.a[0]);
    }
    return r;
}
inline Ser sint(LD c, const Ser& d)  // integrate
{
    Ser r(c);
    for (int i = 1; i < 4; ++i) r.a[i] = d.a[i - 1] / LD(i);
    return r;
}

enum Fn
{
    F_SIN, F_COS, F_TAN, F_ASIN, F_ACOS, F_ATAN, F_SINH, F_COSH, F_TANH, F_ASINH, F_ACOSH, F_ATANH,
    F_EXP, F_EXP2, F_EXPM1, F_LOG, F_LOG2, F_LOG10, F_LOG1P, F_SQRT, F_CBRT, F_ERF, F_ERFC,
    F_N
};
static const LD PI_L = 3.14159265358979323846264338327950288L;
static const LD LN2_L = 0.693147180559945309417232121458176568L;
static const LD LN10_L = 2.302585092994045684017991454684364208L;
static const LD TWO_SQRTPI_L = 1.128379167095512573896158903121545172L;

// Taylor coefficients of fn around x
inline Ser series(Fn f, LD x)
{
    Ser t(x, 1), s, c;
    Ser one(1);
    switch (f)
    {
        case F_SIN: ssincos(t, s, c); return s;
        case F_COS: ssincos(t, s, c); return c;
        case F_TAN: ssincos(t, s, c); return s / c;
        case F_ASIN:
        {
            // 1-x^2 as (1-x)(1+x): exact near the ends
            Ser q = (one - t) * (one + t);
            return sint(std::asin(x), one / ssqrt(q));
        }
        case F_ACOS:
        {
            Ser q = (one - t) * (one + t);
            return sint(std::acos(x), Ser(-1) / ssqrt(q));
        }
        case F_ATAN: return sint(std::atan(x), one / (one + t * t));
        case F_SINH:
        {
            Ser r(std::sinh(x), std::cosh(x));
            r.a[2] = std::sinh(x) / 2;
            r.a[3] = std::cosh(x) / 6;
            return r;
        }
        case F_COSH:
        {
            Ser r(std::cosh(x), std::sinh(x));
            r.a[2] = std::cosh(x) / 2;
            r.a[3] = std::sinh(x) / 6;
            return r;
        }
        case F_TANH:
        {
            Ser ch = series(F_COSH, x);
            return sint(std::tanh(x), one / (ch * ch));
        }
        case F_ASINH: return sint(std::asinh(x), one / ssqrt(one + t * t));
        case F_ACOSH: return sint(std::acosh(x), one / ssqrt((t - one) * (t + one)));
        case F_ATANH: return sint(std::atanh(x), one / ((one - t) * (one + t)));
        case F_EXP: return sexp(t);
        case F_EXP2:
        {
            Ser r = sexp(Ser(0, LN2_L));
            LD e = std::exp2(x);
            for (auto& q : r.a) q *= e;
            return r;
        }
        case F_EXPM1:
        {
            Ser r = sexp(t);
            r.a[0] = std::expm1(x);
            return r;
        }
        case F_LOG: return slog(t);
        case F_LOG2:
        {
            Ser r = slog(t);
            for (auto& q : r.a) q /= LN2_L;
            return r;
        }
        case F_LOG10:
        {
            Ser r = slog(t);
            for (auto& q : r.a) q /= LN10_L;
            return r;
        }
        case F_LOG1P: return sint(std::log1p(x), one / (one + t));
        case F_SQRT: return ssqrt(t);
        case F_CBRT:
        {
            LD cb = std::cbrt(x);
            return sint(cb, Ser(1.0L / 3) * (Ser(cb) * spow(Ser(1, 1 / x), 1.0L / 3)) / t);
        }
        case F_ERF: return sint(std::erf(x), Ser(TWO_SQRTPI_L) * sexp(Ser(0) - t * t));
        case F_ERFC: return sint(std::erfc(x), Ser(-TWO_SQRTPI_L) * sexp(Ser(0) - t * t));
        default: return Ser();
    }
}

// ---------------------------------------------------------------- multivariate jets
template <int NV, int D>
struct Mono
{
    // exponent vectors, graded order
    std::vector<std::array<int, NV>> e;
    struct Tri
    {
        int i, j, k;
    };
    std::vector<Tri> mul;  // all products of total degree <= D
    Mono()
    {
        for (int d = 0; d <= D; ++d)
        {
            std::array<int, NV> x;
            x.fill(0);
            gen(0, d, x);
        }
        for (size_t i = 0; i < e.size(); ++i)
            for (size_t j = 0; j < e.size(); ++j)
            {
                std::array<int, NV> s;
                int t = 0;
                for (int v = 0; v < NV; ++v)
                {
                    s[size_t(v)] = e[i][size_t(v)] + e[j][size_t(v)];
                    t += s[size_t(v)];
                }
                if (t <= D)
                    mul.push_back({int(i), int(j), find(s)});
            }
    }
    void gen(int v, int left, std::array<int, NV>& x)
    {
        if (v == NV - 1)
        {
            x[size_t(v)] = left;
            e.push_back(x);
            x[size_t(v)] = 0;
            return;
        }
        for (int q = left; q >= 0; --q)
        {
            x[size_t(v)] = q;
            gen(v + 1, left - q, x);
        }
        x[size_t(v)] = 0;
    }
    int find(const std::array<int, NV>& s) const
    {
        for (size_t i = 0; i < e.size(); ++i)
            if (e[i] == s)
                return int(i);
        return -1;
    }
    static const Mono& get()
    {
        static const Mono m;
        return m;
    }
};
constexpr int binom(int n, int k) { return k == 0 ? 1 : binom(n - 1, k - 1) * n / k; }

template <class T, int NV, int D>
struct Jet
{
    static constexpr int NC = binom(NV + D, D);
    typedef T prim;
    LD c[NC];  // c[0] is the primal
    LD m[NC];  // majorant
    Jet(T v = T(0))
    {
        for (int i = 0; i < NC; ++i) c[i] = m[i] = 0;
        c[0] = v;
        m[0] = std::fabs(LD(v));
    }
    static Jet input(T v, int idx)
    {
        Jet j(v);
        std::array<int, NV> s;
        s.fill(0);
        s[size_t(idx)] = 1;
        int k = Mono<NV, D>::get().find(s);
        j.c[k] = j.m[k] = 1;
        return j;
    }
    T v() const { return T(c[0]); }
    void setv(T x)
    {
        c[0] = x;
        m[0] = std::fabs(LD(x));
    }
    // partial derivative for the given exponents (i,j,k are variable indices, -1 = unused)
    static int idx(int i, int j = -1, int k = -1)
    {
        std::array<int, NV> s;
        s.fill(0);
        if (i >= 0) ++s[size_t(i)];
        if (j >= 0) ++s[size_t(j)];
        if (k >= 0) ++s[size_t(k)];
        return Mono<NV, D>::get().find(s);
    }
    static LD fact(int i, int j = -1, int k = -1)
    {
        std::array<int, NV> s;
        s.fill(0);
        if (i >= 0) ++s[size_t(i)];
        if (j >= 0) ++s[size_t(j)];
        if (k >= 0) ++s[size_t(k)];
        LD f = 1;
        for (int q : s)
            for (int z = 2; z <= q; ++z) f *= z;
        return f;
    }
    LD d(int i, int j = -1, int k = -1) const { return c[idx(i, j, k)] * fact(i, j, k); }
    LD md(int i, int j = -1, int k = -1) const { return m[idx(i, j, k)] * fact(i, j, k); }
    bool constant() const
    {
        for (int i = 1; i < NC; ++i)
            if (m[i] != 0)
                return false;
        return true;
    }
};

template <class T, int NV, int D>
Jet<T, NV, D> lin(const Jet<T, NV, D>& a, LD ka, const Jet<T, NV, D>& b, LD kb, T v)
{
    Jet<T, NV, D> r;
    for (int i = 0; i < r.NC; ++i)
    {
        r.c[i] = ka * a.c[i] + kb * b.c[i];
        r.m[i] = std::fabs(ka) * a.m[i] + std::fabs(kb) * b.m[i];
    }
    r.setv(v);
    return r;
}
template <class T, int NV, int D>
Jet<T, NV, D> mulraw(const Jet<T, NV, D>& a, const Jet<T, NV, D>& b)
{
    Jet<T, NV, D> r;
    r.c[0] = r.m[0] = 0;
    for (auto& t : Mono<NV, D>::get().mul)
    {
        r.c[t.k] += a.c[t.i] * b.c[t.j];
        r.m[t.k] += a.m[t.i] * b.m[t.j];
    }
    return r;
}
// f(u) with the Taylor coefficients s of f around u's primal; keeps the unrounded primal s.a[0]
template <class T, int NV, int D>
Jet<T, NV, D> compose(const Jet<T, NV, D>& u, const Ser& s)
{
    Jet<T, NV, D> w = u, p(T(1)), r(T(0));
    w.c[0] = w.m[0] = 0;
    r.c[0] = s.a[0];
    r.m[0] = std::fabs(s.a[0]);
    // slack for cancellation inside closed-form derivative formulas
    LD mx = 0;
    for (int k = 1; k <= D; ++k) mx = std::max(mx, std::fabs(s.a[k]));
    for (int k = 1; k <= D; ++k)
    {
        p = mulraw(p, w);
        LD sm = std::fabs(s.a[k]) + 0.05L * mx + 1e-3L * (1 + std::fabs(s.a[0]));
        for (int i = 1; i < r.NC; ++i)
        {
            r.c[i] += s.a[k] * p.c[i];
            r.m[i] += sm * p.m[i];
        }
    }
    return r;
}

#define JT template <class T, int NV, int D>
#define JJ Jet<T, NV, D>

JT JJ operator+(const JJ& a, const JJ& b) { return lin(a, 1, b, 1, T(a.v() + b.v())); }
JT JJ operator-(const JJ& a, const JJ& b) { return lin(a, 1, b, -1, T(a.v() - b.v())); }
JT JJ operator*(const JJ& a, const JJ& b)
{
    JJ r = mulraw(a, b);
    r.setv(T(a.v() * b.v()));
    return r;
}
JT JJ recipraw(const JJ& b)
{
    Ser t(b.c[0], 1);
    return compose(b, Ser(1) / t);
}
JT JJ operator/(const JJ& a, const JJ& b)
{
    JJ r = mulraw(a, recipraw(b));
    r.setv(T(a.v() / b.v()));
    return r;
}
JT JJ operator-(const JJ& a) { return lin(a, -1, a, 0, T(-a.v())); }
JT JJ operator+(const JJ& a) { return a; }
// scalars: any arithmetic type; the primal is computed in the type C++ gives for T op S, then
// narrowed to T (what plain code storing into a T would do)
#define SC template <class T, int NV, int D, class S, class = typename std::enable_if<std::is_arithmetic<S>::value>::type>
SC JJ operator+(const JJ& a, S s) { return lin(a, 1, a, 0, T(a.v() + s)); }
SC JJ operator+(S s, const JJ& a) { return lin(a, 1, a, 0, T(s + a.v())); }
SC JJ operator-(const JJ& a, S s) { return lin(a, 1, a, 0, T(a.v() - s)); }
SC JJ operator-(S s, const JJ& a) { return lin(a, -1, a, 0, T(s - a.v())); }
SC JJ operator*(const JJ& a, S s) { return lin(a, LD(s), a, 0, T(a.v() * s)); }
SC JJ operator*(S s, const JJ& a) { return lin(a, LD(s), a, 0, T(s * a.v())); }
SC JJ operator/(const JJ& a, S s) { return lin(a, 1 / LD(s), a, 0, T(a.v() / s)); }
SC JJ operator/(S s, const JJ& b)
{
    JJ q = recipraw(b);
    return lin(q, LD(s), q, 0, T(s / b.v()));
}
template <class T, int NV, int D, class S>
JJ& operator+=(JJ& a, const S& s)
{
    return a = a + s;
}
template <class T, int NV, int D, class S>
JJ& operator-=(JJ& a, const S& s)
{
    return a = a - s;
}
template <class T, int NV, int D, class S>
JJ& operator*=(JJ& a, const S& s)
{
    return a = a * s;
}
template <class T, int NV, int D, class S>
JJ& operator/=(JJ& a, const S& s)
{
    return a = a / s;
}
JT JJ& operator++(JJ& a) { return a = a + T(1); }
JT JJ& operator--(JJ& a) { return a = a - T(1); }
JT JJ operator++(JJ& a, int)
{
    JJ t = a;
    a = a + T(1);
    return t;
}
JT JJ operator--(JJ& a, int)
{
    JJ t = a;
    a = a - T(1);
    return t;
}
#define CMP(op)                                                                                    \
    JT bool operator op(const JJ& a, const JJ& b) { return a.v() op b.v(); }                       \
    SC bool operator op(const JJ& a, S s) { return a.v() op s; }                                   \
    SC bool operator op(S s, const JJ& a) { return s op a.v(); }
CMP(<)
CMP(>)
CMP(<=)
CMP(>=)
CMP(==)
CMP(!=)
#undef CMP

#define UF(name, fn)                                                                               \
    JT JJ name(const JJ& a)                                                                        \
    {                                                                                              \
        JJ r = compose(a, series(fn, a.c[0]));                                                     \
        r.setv(std::name(a.v()));                                                                  \
        return r;                                                                                  \
    }
UF(sin, F_SIN) UF(cos, F_COS) UF(tan, F_TAN) UF(asin, F_ASIN) UF(acos, F_ACOS) UF(atan, F_ATAN)
UF(sinh, F_SINH) UF(cosh, F_COSH) UF(tanh, F_TANH) UF(asinh, F_ASINH) UF(acosh, F_ACOSH)
UF(atanh, F_ATANH) UF(exp, F_EXP) UF(exp2, F_EXP2) UF(expm1, F_EXPM1) UF(log, F_LOG)
UF(log2, F_LOG2) UF(log10, F_LOG10) UF(log1p, F_LOG1P) UF(sqrt, F_SQRT) UF(cbrt, F_CBRT)
UF(erf, F_ERF) UF(erfc, F_ERFC)
#undef UF

JT JJ abs(const JJ& a)
{
    LD s = LD(a.v() > 0) - LD(a.v() < 0);
    return lin(a, s, a, 0, std::fabs(a.v()));
}
JT JJ fabs(const JJ& a) { return abs(a); }
// nested modes use the documented (x+y+-|x-y|)/2, in which the other operand cancels up to rounding
JT JJ blend(const JJ& a, const JJ& b, JJ r)
{
    if (D >= 2)
        for (int i = 1; i < r.NC; ++i) r.m[i] = std::max(a.m[i], b.m[i]);
    return r;
}
// the primal of max/min may be an operand or (x+y+|x-y|)/2 in nested modes; callers resynchronise
JT JJ max(const JJ& a, const JJ& b)
{
    LD w = a.v() > b.v() ? 1 : a.v() < b.v() ? 0 : 0.5L;
    return blend(a, b, lin(a, w, b, 1 - w, a.v() < b.v() ? b.v() : a.v()));
}
JT JJ min(const JJ& a, const JJ& b)
{
    LD w = a.v() < b.v() ? 1 : a.v() > b.v() ? 0 : 0.5L;
    return blend(a, b, lin(a, w, b, 1 - w, b.v() < a.v() ? b.v() : a.v()));
}
JT JJ max(const JJ& a, T b) { return max(a, JJ(b)); }
JT JJ max(T a, const JJ& b) { return max(JJ(a), b); }
JT JJ min(const JJ& a, T b) { return min(a, JJ(b)); }
JT JJ min(T a, const JJ& b) { return min(JJ(a), b); }
template <class A, class B> auto fmax(const A& a, const B& b) -> decltype(max(a, b)) { return max(a, b); }
template <class A, class B> auto fmin(const A& a, const B& b) -> decltype(min(a, b)) { return min(a, b); }

JT JJ powraw(const JJ& a, LD p)
{
    if (a.c[0] == 0)
    {
        // only used for small non-negative integer exponents
        Ser s;
        LD co = 1;
        int n = int(p);
        for (int k = 0; k < 4; ++k)
        {
            s.a[k] = (n == k) ? co : 0;
        }
        return compose(a, s);
    }
    LD x = a.c[0];
    if (x > 0)
        return compose(a, spow(Ser(x, 1), p));
    // negative base: integer exponent only
    Ser s(std::pow(x, p));
    LD f = s.a[0];
    for (int k = 1; k < 4; ++k)
    {
        f = f * (p - LD(k - 1)) / (LD(k) * x);
        s.a[k] = f;
    }
    return compose(a, s);
}
SC JJ pow(const JJ& a, S p)
{
    JJ r = powraw(a, LD(p));
    r.setv(T(std::pow(a.v(), p)));
    return r;
}
JT JJ pow(const JJ& a, const JJ& b)
{
    JJ l = compose(a, slog(Ser(a.c[0], 1)));
    JJ e = mulraw(b, l);
    JJ r = compose(e, sexp(Ser(e.c[0], 1)));
    r.setv(std::pow(a.v(), b.v()));
    return r;
}
SC JJ pow(S a, const JJ& b) { return pow(JJ(T(a)), b); }
JT JJ atan2raw(const JJ& y, const JJ& x)
{
    JJ r;
    if (std::fabs(x.c[0]) > std::fabs(y.c[0]))
    {
        JJ q = mulraw(y, recipraw(x));
        r = compose(q, series(F_ATAN, q.c[0]));
    }
    else
    {
        JJ q = mulraw(x, recipraw(y));
        r = compose(q, series(F_ATAN, q.c[0]));
        for (int i = 1; i < r.NC; ++i) r.c[i] = -r.c[i];
    }
    return r;
}
JT JJ atan2(const JJ& y, const JJ& x)
{
    JJ r = atan2raw(y, x);
    r.setv(std::atan2(y.v(), x.v()));
    return r;
}
SC JJ atan2(const JJ& y, S x) { return atan2(y, JJ(T(x))); }
SC JJ atan2(S y, const JJ& x) { return atan2(JJ(T(y)), x); }
JT JJ hypot(const JJ& a, const JJ& b)
{
    JJ q = lin(mulraw(a, a), LD(1), mulraw(b, b), LD(1), T(0));
    q.c[0] = a.c[0] * a.c[0] + b.c[0] * b.c[0];
    q.m[0] = q.c[0];
    JJ r = compose(q, ssqrt(Ser(q.c[0], 1)));
    r.setv(std::hypot(a.v(), b.v()));
    return r;
}
SC JJ hypot(const JJ& a, S b) { return hypot(a, JJ(T(b))); }
SC JJ hypot(S a, const JJ& b) { return hypot(JJ(T(a)), b); }

JT JJ smooth_abs(const JJ& x, const JJ& c)
{
    if (std::fabs(x.v()) > c.v())
        return abs(x);
    LD s = x.v() < 0 ? 1 : -1;
    // x^2 (2/c + s x / c^2)
    JJ rc = recipraw(c);
    JJ x2 = mulraw(x, x), x3 = mulraw(x2, x), rc2 = mulraw(rc, rc);
    JJ r = lin(mulraw(x2, rc), LD(2), mulraw(x3, rc2), s, T(0));
    T xv = x.v(), cv = c.v();
    if (xv < 0)
        r.setv(xv * xv * (T(2) / cv + xv / (cv * cv)));
    else
        r.setv(xv * xv * (T(2) / cv - xv / (cv * cv)));
    return r;
}
JT JJ smooth_abs(const JJ& x) { return smooth_abs(x, JJ(T(0.001))); }
JT JJ smooth_abs(const JJ& x, T c) { return smooth_abs(x, JJ(c)); }
JT JJ smooth_abs(T x, const JJ& c) { return smooth_abs(JJ(x), c); }
JT JJ smooth_max(const JJ& x, const JJ& y, T c) { return (x + y + smooth_abs(x - y, c)) * T(0.5); }
JT JJ smooth_min(const JJ& x, const JJ& y, T c) { return (x + y - smooth_abs(x - y, c)) * T(0.5); }
JT JJ degrees(const JJ& a) { return a * T(57.2957795130823208767981548141051703324054725L); }
JT JJ radians(const JJ& a) { return a * T(0.0174532925199432957692369076848861271344287L); }
JT JJ flat(const JJ& a, T v) { (void)a; return JJ(v); }
JT JJ floor(const JJ& a) { return JJ(std::floor(a.v())); }
JT JJ ceil(const JJ& a) { return JJ(std::ceil(a.v())); }
JT JJ trunc(const JJ& a) { return JJ(std::trunc(a.v())); }
JT JJ round(const JJ& a) { return JJ(std::round(a.v())); }

#undef SC
#undef JT
#undef JJ
}  // namespace ref

// Catalogue of functions and operators x operand forms, used by C03 (values) and C04 (derivatives).
#pragma once
#include <XAD/XAD.hpp>
#include "engine.hpp"
#include <cfloat>
#include <climits>
#include <cmath>
#include <cstring>
#include <limits>
#include <string>
#include <vector>
#ifndef BASE_T
#define BASE_T double
#endif
#ifndef MODE
#define MODE adj
#endif
#ifndef FN_NS
#define FN_NS xad
#define FN_XAD
#endif
#ifndef FN_XAD
#include <XAD/StdCompatibility.hpp>
#endif
typedef BASE_T T;
#ifdef ADTYPE  // a nested (higher-order) type
typedef ADTYPE AD;
#else
typedef xad::MODE<T> mode;
typedef mode::active_type AD;
#endif
template <class X>
struct is_reverse : std::false_type
{
};
template <class X>
struct is_reverse<xad::AReal<X>> : std::true_type
{
};
struct is_adj_
{
    static const bool adj = is_reverse<AD>::value;
};
// the plain number in a value of any order
inline T pval(T x) { return x; }
template <class U>
inline T pval(const xad::FReal<U>& x);
template <class U>
inline T pval(const xad::AReal<U>& x)
{
    return pval(xad::value(x));
}
template <class U>
inline T pval(const xad::FReal<U>& x)
{
    return pval(xad::value(x));
}

struct In
{
    T a, b;
    int n;
};
struct Row
{
    const char* fn;
    const char* form;
    AD (*f)(AD& x, AD& y, AD& one, const In& i);
    T (*plain)(const In& i);
    bool (*fits)(const In& i);
    int mask;  // 1: operand a is active, 2: operand b is active, 4: both operands are a
};
struct Fn
{
    std::string name;
    std::vector<Row> rows;
};
inline std::vector<Fn>& table()
{
    static std::vector<Fn> t;
    return t;
}
inline void addRow(const Row& r)
{
    if (table().empty() || table().back().name != r.fn)
        table().push_back(Fn{r.fn, {}});
    table().back().rows.push_back(r);
}

namespace plainfn
{
// what plain code over the underlying type would compute
using std::acos; using std::acosh; using std::asin; using std::asinh; using std::atan; using std::atan2;
using std::atanh; using std::cbrt; using std::ceil; using std::copysign; using std::cos; using std::cosh;
using std::erf; using std::erfc; using std::exp; using std::exp2; using std::expm1; using std::fabs;
using std::floor; using std::fmod; using std::frexp; using std::hypot; using std::ldexp;
using std::log; using std::log10; using std::log1p; using std::log2; using std::max; using std::min;
using std::modf; using std::nextafter; using std::pow; using std::remainder; using std::remquo;
using std::round; using std::scalbn; using std::sin; using std::sinh; using std::sqrt; using std::tan;
using std::tanh; using std::trunc; using std::abs;
template <class A, class B>
auto fmax(A a, B b) -> decltype(a + b)
{
    return a < b ? b : a;
}
template <class A, class B>
auto fmin(A a, B b) -> decltype(a + b)
{
    return b < a ? b : a;
}
inline T degrees(T x) { return T(x * 57.29577951308232087679815481410517L); }
inline T radians(T x) { return T(x * 0.01745329251994329576923690768488613L); }
inline T pown(T x, int n) { return T(std::pow(x, n)); }
inline T smooth_abs(T x, T c = T(0.001))
{
    if (std::fabs(x) > c)
        return std::fabs(x);
    long double X = x, C = c;
    return T(x < 0 ? X * X * (2 / C + X / (C * C)) : X * X * (2 / C - X / (C * C)));
}
inline T smooth_max(T x, T y, T c = T(0.001)) { return T(0.5 * (x + y + smooth_abs(x - y, c))); }
inline T smooth_min(T x, T y, T c = T(0.001)) { return T(0.5 * (x + y - smooth_abs(x - y, c))); }
}  // namespace plainfn

template <class S>
inline bool fitsS(T v)
{
    if (std::is_integral<S>::value)
        return v == std::floor(v) && v >= (std::is_signed<S>::value ? T(-100000) : T(0)) && v <= T(100000) &&
               v >= T(std::numeric_limits<S>::lowest()) && v <= T(std::numeric_limits<S>::max()) && !(v == 0 && std::signbit(v));
    return v != v || T(S(v)) == v;
}
inline bool fitsAll(const In&) { return true; }

// NAME, expression in x,y (operands), i (extra data: i.n), N (namespace)
#define BF(NAME, ...)                                                                              \
    struct NAME                                                                                    \
    {                                                                                              \
        template <class X, class Y>                                                                \
        static AD ad(const X& x, const Y& y, const In& i)                                          \
        {                                                                                          \
            namespace N = FN_NS;                                                                     \
            (void)i; (void)y;                                                                      \
            return AD(__VA_ARGS__);                                                                \
        }                                                                                          \
        template <class X, class Y>                                                                \
        static T plain(const X& x, const Y& y, const In& i)                                        \
        {                                                                                          \
            namespace N = plainfn;                                                                 \
            (void)i; (void)y;                                                                      \
            return T(__VA_ARGS__);                                                                 \
        }                                                                                          \
    };
#define UFN(NAME, ...) BF(NAME, __VA_ARGS__)
#define ROW_(NAME, FORM, XE, YE, XP, YP, MASK, FITS)                                               \
    addRow(Row{#NAME, FORM,                                                                        \
               [](AD& x, AD& y, AD& one, const In& i) -> AD {                                      \
                   (void)x; (void)y; (void)one; (void)i;                                           \
                   return NAME::ad(XE, YE, i);                                                     \
               },                                                                                  \
               [](const In& i) -> T { return NAME::plain(XP, YP, i); }, FITS, MASK});
#define UROWS(NAME)                                                                                \
    ROW_(NAME, "v", x, 0, i.a, 0, 1, fitsAll)                                                      \
    ROW_(NAME, "-(-v)", -(-x), 0, i.a, 0, 1, fitsAll)                                              \
    ROW_(NAME, "+v", (+x), 0, i.a, 0, 1, fitsAll)                                                  \
    ROW_(NAME, "v*one", x* one, 0, i.a, 0, 1, fitsAll)
#define BROWS_VV(NAME)                                                                             \
    ROW_(NAME, "v,v", x, y, i.a, i.b, 3, fitsAll)                                                  \
    ROW_(NAME, "v,-(-v)", x, -(-y), i.a, i.b, 3, fitsAll)                                          \
    ROW_(NAME, "-(-v),v", -(-x), y, i.a, i.b, 3, fitsAll)                                          \
    ROW_(NAME, "v,v*one", x, y* one, i.a, i.b, 3, fitsAll)                                         \
    ROW_(NAME, "v*one,v", x* one, y, i.a, i.b, 3, fitsAll)                                         \
    ROW_(NAME, "-(-v),v*one", -(-x), y* one, i.a, i.b, 3, fitsAll)                                 \
    ROW_(NAME, "v*one,v*one", x* one, one* y, i.a, i.b, 3, fitsAll)                                \
    ROW_(NAME, "-(-v),-(-v)", -(-x), -(-y), i.a, i.b, 3, fitsAll)                                  \
    ROW_(NAME, "same v,v", x, x, i.a, i.a, 4, fitsAll)
#define BROWS_S(NAME, S)                                                                           \
    ROW_(NAME, "v," #S, x, S(i.b), i.a, S(i.b), 1, [](const In& i) { return fitsS<S>(i.b); })      \
    ROW_(NAME, "v*one," #S, x* one, S(i.b), i.a, S(i.b), 1, [](const In& i) { return fitsS<S>(i.b); }) \
    ROW_(NAME, #S ",v", S(i.a), y, S(i.a), i.b, 2, [](const In& i) { return fitsS<S>(i.a); })      \
    ROW_(NAME, #S ",v*one", S(i.a), y* one, S(i.a), i.b, 2, [](const In& i) { return fitsS<S>(i.a); })
#define BROWS_T(NAME)                                                                              \
    BROWS_S(NAME, T)                                                                               \
    ROW_(NAME, "-(-v),T", -(-x), i.b, i.a, i.b, 1, fitsAll)                                        \
    ROW_(NAME, "T,-(-v)", i.a, -(-y), i.a, i.b, 2, fitsAll)
#define BROWS_PASSIVE(NAME)                                                                        \
    ROW_(NAME, "v,passive v", x, AD(i.b), i.a, i.b, 1, fitsAll)                                    \
    ROW_(NAME, "passive v,v", AD(i.a), y, i.a, i.b, 2, fitsAll)
// all scalar types
#define BROWS_ALL(NAME)                                                                            \
    BROWS_VV(NAME)                                                                                 \
    BROWS_T(NAME)                                                                                  \
    BROWS_PASSIVE(NAME)                                                                            \
    BROWS_S(NAME, int)                                                                             \
    BROWS_S(NAME, unsigned)                                                                        \
    BROWS_S(NAME, long)                                                                            \
    BROWS_S(NAME, other_fp)
typedef std::conditional<std::is_same<T, double>::value, float, double>::type other_fp;

// ---- the catalogue
BF(add, x + y) BF(sub, x - y) BF(mul, x * y) BF(div, x / y)
BF(pow, N::pow(x, y)) BF(fmod, N::fmod(x, y)) BF(atan2, N::atan2(x, y)) BF(hypot, N::hypot(x, y))
BF(nextafter, N::nextafter(x, y)) BF(remainder, N::remainder(x, y))
BF(fmax, N::fmax(x, y)) BF(fmin, N::fmin(x, y))
BF(max, N::max(x, y)) BF(min, N::min(x, y))
#ifdef FN_XAD
BF(smooth_abs, N::smooth_abs(x, y)) BF(smooth_max, N::smooth_max(x, y, T(0.25))) BF(smooth_min, N::smooth_min(x, y, T(0.25)))
BF(smooth_max0, N::smooth_max(x, y)) BF(smooth_min0, N::smooth_min(x, y))
BF(smooth_maxc, N::smooth_max(x, T(0.25), y)) BF(smooth_minc, N::smooth_min(T(0.25), x, y))
UFN(degrees, N::degrees(x)) UFN(radians, N::radians(x)) UFN(smooth_abs0, N::smooth_abs(x)) UFN(pown, N::pown(x, i.n))
#endif
BF(copysign, N::copysign(x, y))
struct remquo
{
    template <class X, class Y>
    static AD ad(const X& x, const Y& y, const In&) { int q = -12345; AD r(FN_NS::remquo(x, y, &q)); last() = q; return r; }
    template <class X, class Y>
    static T plain(const X& x, const Y& y, const In&) { int q = -12345; T r = T(std::remquo(x, y, &q)); last2() = q; return r; }
    static int& last() { static int q; return q; }
    static int& last2() { static int q; return q; }
};
// compound assignments: the first operand is copied into a fresh variable
#define CF(NAME, OP)                                                                               \
    struct NAME                                                                                    \
    {                                                                                              \
        template <class X, class Y>                                                                \
        static AD ad(const X& x, const Y& y, const In&) { AD t(x); t OP y; return t; }             \
        template <class Y>                                                                         \
        static T plain(T x, const Y& y, const In&) { T t = x; t OP y; return t; }                  \
    };
CF(addeq, +=) CF(subeq, -=) CF(muleq, *=) CF(diveq, /=)
UFN(neg, -x) UFN(pos, +x) UFN(sin, N::sin(x)) UFN(cos, N::cos(x)) UFN(tan, N::tan(x)) UFN(asin, N::asin(x)) UFN(acos, N::acos(x))
UFN(atan, N::atan(x)) UFN(sinh, N::sinh(x)) UFN(cosh, N::cosh(x)) UFN(tanh, N::tanh(x)) UFN(asinh, N::asinh(x))
UFN(acosh, N::acosh(x)) UFN(atanh, N::atanh(x)) UFN(exp, N::exp(x)) UFN(exp2, N::exp2(x)) UFN(expm1, N::expm1(x))
UFN(log, N::log(x)) UFN(log2, N::log2(x)) UFN(log10, N::log10(x)) UFN(log1p, N::log1p(x)) UFN(sqrt, N::sqrt(x))
UFN(cbrt, N::cbrt(x)) UFN(erf, N::erf(x)) UFN(erfc, N::erfc(x)) UFN(fabs, N::fabs(x)) UFN(abs, N::abs(x))
UFN(floor, N::floor(x)) UFN(ceil, N::ceil(x)) UFN(trunc, N::trunc(x)) UFN(round, N::round(x))
UFN(ldexp, N::ldexp(x, i.n)) UFN(scalbn, N::scalbn(x, i.n))
struct frexp
{
    template <class X>
    static AD ad(const X& x, int, const In&) { int q = -12345; AD r(FN_NS::frexp(x, &q)); last() = q; return r; }
    template <class X>
    static T plain(const X& x, int, const In&) { int q = -12345; T r = std::frexp(x, &q); last2() = q; return r; }
    static int& last() { static int q; return q; }
    static int& last2() { static int q; return q; }
};
struct modf
{
    template <class X>
    static AD ad(const X& x, int, const In&) { T q = T(-12345); AD r(FN_NS::modf(x, &q)); last() = q; return r; }
    template <class X>
    static T plain(const X& x, int, const In&) { T q = T(-12345); T r = std::modf(x, &q); last2() = q; return r; }
    static T& last() { static T q; return q; }
    static T& last2() { static T q; return q; }
};
struct modfa
{
    template <class X>
    static AD ad(const X& x, int, const In&) { AD q = T(-12345); AD r(FN_NS::modf(x, &q)); last() = pval(q); return r; }
    template <class X>
    static T plain(const X& x, int, const In&) { T q = T(-12345); T r = std::modf(x, &q); last2() = q; return r; }
    static T& last() { static T q; return q; }
    static T& last2() { static T q; return q; }
};
#ifndef ADTYPE
struct preinc { template <class X> static AD ad(const X& x, int, const In&) { AD t(x); AD r = ++t; if (!(pval(t) == pval(r)) && pval(r) == pval(r)) return AD(T(-777)); return r; }
    template <class X> static T plain(X x, int, const In&) { return ++x; } };
struct predec { template <class X> static AD ad(const X& x, int, const In&) { AD t(x); AD r = --t; return r; }
    template <class X> static T plain(X x, int, const In&) { return --x; } };
struct postinc { template <class X> static AD ad(const X& x, int, const In&) { AD t(x); AD r = t++; return r + t; }
    template <class X> static T plain(X x, int, const In&) { T r = x++; return r + x; } };
struct postdec { template <class X> static AD ad(const X& x, int, const In&) { AD t(x); AD r = t--; return r + t; }
    template <class X> static T plain(X x, int, const In&) { T r = x--; return r + x; } };
#endif

inline void fillTable()
{
#ifndef FN_PART
#define FN_PART 0
#endif
#if FN_PART == 0 || FN_PART == 1
    BROWS_ALL(add) BROWS_ALL(sub) BROWS_ALL(mul) BROWS_ALL(div)
    BROWS_ALL(pow) BROWS_ALL(fmod) BROWS_ALL(atan2) BROWS_ALL(hypot)
    BROWS_ALL(remainder) BROWS_ALL(remquo) BROWS_ALL(nextafter)
    BROWS_ALL(fmax) BROWS_ALL(fmin)
#endif
#if FN_PART == 0 || FN_PART == 2
    BROWS_VV(max) BROWS_T(max) BROWS_PASSIVE(max) BROWS_VV(min) BROWS_T(min) BROWS_PASSIVE(min)
#ifdef FN_XAD
    BROWS_ALL(smooth_abs) BROWS_VV(smooth_max) BROWS_T(smooth_max) BROWS_VV(smooth_min) BROWS_T(smooth_min)
    BROWS_VV(smooth_max0) BROWS_T(smooth_max0) BROWS_VV(smooth_min0) BROWS_T(smooth_min0)
    BROWS_VV(smooth_maxc) BROWS_VV(smooth_minc)
    UROWS(degrees) UROWS(radians) UROWS(smooth_abs0) UROWS(pown)
#endif
    BROWS_VV(copysign)
    ROW_(copysign, "v,T", x, i.b, i.a, i.b, 1, fitsAll) ROW_(copysign, "-(-v),T", -(-x), i.b, i.a, i.b, 1, fitsAll)
    ROW_(copysign, "T,v", i.a, y, i.a, i.b, 2, fitsAll) ROW_(copysign, "T,v*one", i.a, y * one, i.a, i.b, 2, fitsAll)
    BROWS_VV(addeq) BROWS_VV(subeq) BROWS_VV(muleq) BROWS_VV(diveq)
#define CROWS(N) ROW_(N, "v,T", x, i.b, i.a, i.b, 1, fitsAll) ROW_(N, "v,int", x, int(i.b), i.a, int(i.b), 1, [](const In& i) { return fitsS<int>(i.b); }) \
    ROW_(N, "v,long", x, long(i.b), i.a, long(i.b), 1, [](const In& i) { return fitsS<long>(i.b); }) \
    ROW_(N, "v,unsigned", x, unsigned(i.b), i.a, unsigned(i.b), 1, [](const In& i) { return fitsS<unsigned>(i.b); })
#ifndef ADTYPE  // compound assignment of plain numbers to nested types does not compile
    CROWS(addeq) CROWS(subeq) CROWS(muleq) CROWS(diveq)
#endif
    UROWS(neg) UROWS(sin) UROWS(cos) UROWS(tan) UROWS(asin) UROWS(acos) UROWS(atan) UROWS(sinh) UROWS(cosh) UROWS(tanh)
    UROWS(asinh) UROWS(acosh) UROWS(atanh) UROWS(exp) UROWS(exp2) UROWS(expm1) UROWS(log) UROWS(log2) UROWS(log10) UROWS(log1p)
    UROWS(sqrt) UROWS(cbrt) UROWS(erf) UROWS(erfc) UROWS(fabs) UROWS(abs) UROWS(floor) UROWS(ceil) UROWS(trunc) UROWS(round)
    UROWS(ldexp) UROWS(scalbn) UROWS(frexp) UROWS(modf) UROWS(modfa)
#ifndef ADTYPE
    ROW_(preinc, "v", x, 0, i.a, 0, 1, fitsAll) ROW_(predec, "v", x, 0, i.a, 0, 1, fitsAll)
    ROW_(postinc, "v", x, 0, i.a, 0, 1, fitsAll) ROW_(postdec, "v", x, 0, i.a, 0, 1, fitsAll)
#endif
#endif
}

// ---- evaluation of one row
struct Out
{
    T v, da, db;
};
template <class A>
struct Eval;
template <class U>
struct Eval<xad::AReal<U>>
{
    static Out run(const Row& r, const In& in, T seed)
    {
        xad::Tape<U> tape;
        AD x(in.a), y(in.b), one(T(1));
        tape.registerInput(x);
        tape.registerInput(y);
        tape.newRecording();
        AD res = r.f(x, y, one, in);
        Out o;
        o.v = pval(res);
        tape.registerOutput(res);
        xad::derivative(res) = seed;
        tape.computeAdjoints();
        o.da = pval(xad::derivative(x));
        o.db = pval(xad::derivative(y));
        return o;
    }
    static T passive(const Row& r, const In& in)
    {
        AD x(in.a), y(in.b), one(T(1));
        AD res = r.f(x, y, one, in);
        return pval(res);
    }
};
template <class U>
struct Eval<xad::FReal<U>>
{
    static Out run(const Row& r, const In& in, T seed)
    {
        Out o;
        {
            xad::FReal<U> x(in.a, seed), y(in.b), one(T(1));
            AD res = r.f(x, y, one, in);
            o.v = pval(res);
            o.da = pval(xad::derivative(res));
        }
        {
            xad::FReal<U> x(in.a), y(in.b, seed), one(T(1));
            AD res = r.f(x, y, one, in);
            o.db = pval(xad::derivative(res));
        }
        return o;
    }
    static T passive(const Row& r, const In& in)
    {
        AD x(in.a), y(in.b), one(T(1));
        AD res = r.f(x, y, one, in);
        return pval(res);
    }
};
typedef Eval<AD> Ev;

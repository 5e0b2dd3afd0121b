// C03: values, comparisons, classification and conversions agree with plain arithmetic.
#include "fnforms.hpp"
#include <cstdint>

static T bitsT(uint64_t b)
{
    T r;
    if (sizeof(T) == 8)
        memcpy(&r, &b, sizeof r);
    else
    {
        uint32_t q = uint32_t(b ^ (b >> 32));
        memcpy(&r, &q, sizeof r);
    }
    return r;
}
static T genT(eng::Ctx& c)
{
    typedef std::numeric_limits<T> L;
    static const T special[] = {T(0), T(1), T(-1), T(-0.0), T(2), T(0.5), T(-0.5), T(3), T(10), L::infinity(), -L::infinity(), L::quiet_NaN(),
                                L::min(), -L::min(), L::denorm_min(), -L::denorm_min(), L::max(), L::lowest(), L::epsilon(), T(1) - L::epsilon() / 2,
                                T(1) + L::epsilon(), T(1.5), T(2.5), T(-1.5), T(-2.5), T(0.25), T(0.001), T(-0.001), T(1e10), T(-1e10), T(100), T(710), T(-745), T(89), T(-104), T(3.141592653589793)};
    switch (c.below(8))
    {
        case 0: case 1: case 2: return c.pick(special);
        case 3: return T(c.range(-20, 20));
        case 4: return T(c.range(-20, 20)) / 4;
        case 5: return T(c.sreal(4));
        case 6:
        {
            T m = T(c.real(0.5, 1)) * (c.chance(50) ? 1 : -1);
            int e = int(c.range(L::min_exponent - 20, L::max_exponent));
            return std::ldexp(m, e);
        }
        default: return bitsT(c.below(~0ULL));
    }
}
static int64_t key(T v)
{
    // total order key for ulp distances
    if (sizeof(T) == 8)
    {
        int64_t b;
        double d = double(v);
        memcpy(&b, &d, 8);
        return b < 0 ? INT64_MIN - b : b;
    }
    int32_t b;
    float f = float(v);
    memcpy(&b, &f, 4);
    return b < 0 ? int64_t(INT32_MIN) - b : b;
}
static bool sameValue(T x, T y, int ulps)
{
    if (x != x || y != y)
        return x != x && y != y;
    if (x == y)
        return std::signbit(x) == std::signbit(y) || ulps > 0;
    int64_t d = key(x) - key(y);
    return (d < 0 ? -d : d) <= ulps;
}
static bool exactFn(const std::string& f)
{
    static const char* e[] = {"add", "sub", "mul", "div", "neg", "fmod", "remainder", "remquo", "nextafter", "copysign", "floor", "ceil", "trunc", "round",
                              "fabs", "abs", "ldexp", "scalbn", "frexp", "modf", "modfa", "sqrt", "addeq", "subeq", "muleq", "diveq", "preinc", "predec", "postinc", "postdec"};
    for (auto* x : e)
        if (f == x)
            return true;
    return false;
}
ENG_PROP(values, 10)
{
    static bool init = (fillTable(), true);
    (void)init;
    const Fn& f = table()[size_t(c.below(table().size()))];
    In in;
    in.a = genT(c);
    in.b = c.chance(10) ? in.a : genT(c);
    in.n = c.chance(70) ? int(c.range(-12, 12)) : c.chance(50) ? int(c.range(-2200, 2200)) : int(c.range(-160, 160));
    const std::string& n = f.name;
    c.label(n.c_str());
    bool nan = in.a != in.a || in.b != in.b;
    bool minmax = n == "max" || n == "min" || n == "fmax" || n == "fmin";
    if (minmax && nan)
        return;  // max/min are only specified on ordered operands
    bool sm = n.compare(0, 7, "smooth_") == 0;
    if (sm)
    {
        // cut-off points are positive; values where the spline formula is finite
        if (nan || !std::isfinite(in.a) || !std::isfinite(in.b) || std::fabs(in.a) > 1e10 || std::fabs(in.b) > 1e10)
            return;
        if (n == "smooth_abs" || n == "smooth_maxc" || n == "smooth_minc")
        {
            in.b = std::fabs(in.b);
            if (in.b < T(1e-6))
                return;
        }
    }
    c.log("%s a=%.17g b=%.17g n=%d", n.c_str(), double(in.a), double(in.b), in.n);
    int tested = 0;
    for (auto& r : f.rows)
    {
        if (!r.fits(in))
            continue;
        In q = in;
        if (r.mask == 4)
        {
            q.b = q.a;
            if (sm && !(q.a > T(1e-6)))
                continue;
        }
        T want = r.plain(q);
        if ((n == "remquo") && (want != want))
            continue;
        Out o = Ev::run(r, q, T(1));
        T pas = Ev::passive(r, q);
        ++tested;
        c.log("  form %s: %.17g", r.form, double(o.v));
        int ulps = exactFn(n) ? 0 : minmax ? 1 : 4;
        bool ok = sameValue(o.v, want, ulps), ok2 = sameValue(pas, want, ulps);
        if (minmax)
            ok = o.v == want, ok2 = pas == want;
        if (sm)
        {
            T tol = std::numeric_limits<T>::epsilon() * 32 * (std::fabs(in.a) + std::fabs(in.b) + T(0.001));
            ok = std::fabs(o.v - want) <= tol;
            ok2 = std::fabs(pas - want) <= tol;
        }
        if (!ok || !ok2)
            c.fail("%s(%s) of %.17g, %.17g (n=%d): value %.17g (passive %.17g), plain arithmetic gives %.17g", n.c_str(), r.form,
                   double(q.a), double(q.b), q.n, double(o.v), double(pas), double(want));
        // second results
        if (n == "frexp" && std::isfinite(q.a) && frexp::last() != frexp::last2())
            c.fail("frexp exponent %d, expected %d", frexp::last(), frexp::last2());
        if (n == "remquo" && remquo::last() != remquo::last2())
            c.fail("remquo(%s) of %.17g, %.17g: quotient %d, expected %d", r.form, double(q.a), double(q.b), remquo::last(), remquo::last2());
        if (n == "modf" && !sameValue(modf::last(), modf::last2(), 0))
            c.fail("modf integral part %.17g, expected %.17g", double(modf::last()), double(modf::last2()));
        if (n == "modfa" && !sameValue(modfa::last(), modfa::last2(), 0))
            c.fail("modf active integral part %.17g, expected %.17g", double(modfa::last()), double(modfa::last2()));
    }
    if (tested >= 2)
        c.nontrivial();
}

// ---- comparisons
template <class X, class Y>
static int cmpAll(const X& x, const Y& y)
{
    int r = 0;
    r |= (x == y) ? 1 : 0;
    r |= (x != y) ? 2 : 0;
    r |= (x < y) ? 4 : 0;
    r |= (x <= y) ? 8 : 0;
    r |= (x > y) ? 16 : 0;
    r |= (x >= y) ? 32 : 0;
    return r;
}
#define CMP(form, XE, YE)                                                                          \
    {                                                                                              \
        int got = cmpAll(XE, YE);                                                                  \
        if (got != want)                                                                           \
            c.fail("comparison %s of %.17g and %.17g: bits %d, expected %d", form, double(a), double(b), got, want); \
    }
#define CMPT(S)                                                                                    \
    if (fitsS<S>(b))                                                                               \
    {                                                                                              \
        CMP("v," #S, x, S(b)) CMP("expr," #S, x * one, S(b)) CMP("unary," #S, -(-x), S(b))         \
    }                                                                                              \
    if (fitsS<S>(a))                                                                               \
    {                                                                                              \
        CMP(#S ",v", S(a), y) CMP(#S ",expr", S(a), y* one)                                        \
    }
static void compareBody(eng::Ctx& c, T a, T b, AD& x, AD& y)
{
    AD one(T(1));
    int want = cmpAll(a, b);
    CMP("v,v", x, y)
    CMP("expr,v", x * one, y)
    CMP("v,expr", x, one * y)
    CMP("expr,expr", x * one, y * one)
    CMP("unary,v", -(-x), y)
    CMP("v,unary", x, -(-y))
    CMP("expr,unary", x * one, -(-y))
    CMP("unary,expr", -(-x), y * one)
    CMP("temporary", AD(x), AD(y))
    CMPT(T) CMPT(int) CMPT(unsigned) CMPT(long) CMPT(other_fp)
    want = cmpAll(a, a);
    CMP("same", x, x)
    CMP("same expr", x, x * one)
}
template <class X>
static typename std::enable_if<!is_reverse<X>::value>::type recordedCompare(eng::Ctx&, T, T) {}
template <class X>
static typename std::enable_if<is_reverse<X>::value>::type recordedCompare(eng::Ctx& c, T a, T b)
{
    typename X::tape_type t;
    X x(a), y(b);
    t.registerInput(x);
    t.registerInput(y);
    t.newRecording();
    compareBody(c, a, b, x, y);
}
ENG_PROP(compare, 2)
{
    T a = genT(c), b = c.chance(30) ? a : c.chance(20) ? std::nextafter(a, genT(c)) : genT(c);
    c.log("compare %.17g with %.17g", double(a), double(b));
    c.nontrivial();
    {
        AD x(a), y(b);
        compareBody(c, a, b, x, y);
    }
    recordedCompare<AD>(c, a, b);
}
#define CLS(fn, form, E)                                                                           \
    if (int(FN_NS::fn(E)) != int(std::fn(a)))                                                        \
        c.fail(#fn "(" form ") of %.17g: got %d, expected %d", double(a), int(FN_NS::fn(E)), int(std::fn(a)));
#define CLSB(fn, form, E)                                                                          \
    if (bool(FN_NS::fn(E)) != bool(std::fn(a)))                                                      \
        c.fail(#fn "(" form ") of %.17g: got %d, expected %d", double(a), int(FN_NS::fn(E)), int(std::fn(a)));
#define CLS4(fn) CLSB(fn, "v", x) CLSB(fn, "unary", -(-x)) CLSB(fn, "expr", x* one) CLSB(fn, "+v", (+x))
ENG_PROP(classify, 2)
{
    T a = genT(c);
    AD x(a), one(T(1));
    c.log("classify %.17g", double(a));
    c.nontrivial();
    CLS4(isnan) CLS4(isinf) CLS4(isfinite) CLS4(isnormal) CLS4(signbit)
    CLS(fpclassify, "v", x) CLS(fpclassify, "unary", -(-x)) CLS(fpclassify, "expr", x * one)
    CLS(ilogb, "v", x) CLS(ilogb, "expr", x * one)
    if (std::fabs(a) < T(1e9))
    {
        CLS(lround, "v", x) CLS(lround, "unary", -(-x)) CLS(lround, "expr", x * one)
    }
    if (std::fabs(a) < T(4e18) && std::llround(a) != FN_NS::llround(x))
        c.fail("llround of %.17g: got %lld", double(a), FN_NS::llround(x));
    if (std::fabs(a) < T(4e18) && std::llround(a) != FN_NS::llround(x * one))
        c.fail("llround(expr) of %.17g: got %lld", double(a), FN_NS::llround(x * one));
}
// the value truncated towards zero is in the range of S
template <class S>
static bool truncFits(T v)
{
    if (!(v - v == 0))
        return false;
    T t = std::trunc(v);
    return t < std::ldexp(T(1), std::numeric_limits<S>::digits) && (std::is_signed<S>::value ? t >= T(std::numeric_limits<S>::lowest()) : t >= 0);
}
// assignment, construction, conversion and value access
template <class S>
static void conv(eng::Ctx& c, T a, const char* s)
{
    if (!fitsS<S>(a))
        return;
    AD x;
    if (!sameValue(pval(x), T(0), 0))
        c.fail("default-constructed variable has value %.17g", double(pval(x)));
    x = T(3);
    x = S(a);
    if (!sameValue(pval(x), T(S(a)), 0))
        c.fail("assigning %s %.17g gives %.17g", s, double(a), double(pval(x)));
    AD y(static_cast<S>(a));
    if (!sameValue(pval(y), T(S(a)), 0))
        c.fail("constructing from %s %.17g gives %.17g", s, double(a), double(pval(y)));
    AD z = AD(S(a));
    if (!sameValue(pval(z), T(S(a)), 0) || !sameValue(pval(z.getValue()), T(S(a)), 0) || !sameValue(pval(z.value()), T(S(a)), 0))
        c.fail("value accessors differ for %s %.17g", s, double(a));
}
ENG_PROP(convert, 1)
{
    T a = genT(c), b = genT(c);
    c.log("convert %.17g", double(a));
    c.nontrivial();
    conv<T>(c, a, "T");
    conv<int>(c, a, "int");
    conv<long>(c, a, "long");
    conv<unsigned>(c, a, "unsigned");
    conv<short>(c, a, "short");
    conv<long long>(c, a, "long long");
    conv<other_fp>(c, a, "other fp");
    AD x(a);
    xad::value(x) = b;
    if (!sameValue(pval(x), b, 0) || !sameValue(pval(AD(x)), b, 0))
        c.fail("writing through value() stores %.17g instead of %.17g", double(pval(x)), double(b));
    x = AD(a) * AD(T(1));
    if (!sameValue(pval(x), a, 0))
        c.fail("assigning an expression of value %.17g gives %.17g", double(a), double(pval(x)));
    if (!sameValue(pval(xad::value(AD(a) * AD(T(1)))), a, 0))
        c.fail("value(expression) of %.17g", double(a));
    typedef unsigned long long ulonglong;
    typedef long long longlong;
    typedef unsigned short ushort;
    typedef signed char schar;
    (void)sizeof(ulonglong); (void)sizeof(longlong); (void)sizeof(ushort); (void)sizeof(schar);
    // integers: any value that truncates into the range of the target, large ones included
    T w = a;
    if (c.chance(50))
        w = std::ldexp(T(c.sreal(1)), int(c.range(0, 65)));
#define CAST(S)                                                                                    \
    if (truncFits<S>(w))                                                                           \
    {                                                                                              \
        if (static_cast<S>(AD(w)) != S(w) || static_cast<S>(AD(w) * AD(T(1))) != S(w))             \
            c.fail("static_cast<" #S "> of %.17g", double(w));                                     \
    }
#ifdef XAD_ALLOW_INT_CONVERSION
    CAST(int) CAST(long) CAST(short) CAST(unsigned) CAST(longlong) CAST(ulonglong) CAST(ushort) CAST(char) CAST(schar)
#endif
    if (static_cast<bool>(AD(a)) != bool(a != 0) || (AD(a) ? 1 : 0) != (a != 0) || static_cast<bool>(AD(a) * AD(T(1))) != bool(a != 0))
        c.fail("conversion to bool of %.17g", double(a));
    if (!AD(a) != !(a != 0))
        c.fail("operator! of %.17g", double(a));
}

// the same functions for the plain types
ENG_PROP(plainsmooth, 1)
{
    T cut = c.chance(30) ? T(0.001) : T(double(c.range(1, 400)) / 200);
    bool def = cut == T(0.001) && c.chance(60);
    T x = T(c.sreal(c.chance(70) ? 2 : 100)) * (c.chance(70) ? cut : T(1)), y = c.chance(50) ? x + T(c.sreal(2)) * cut : T(c.sreal(3));
    c.log("x = %.9g, y = %.9g, cut-off %.9g%s", double(x), double(y), double(cut), def ? " (default)" : "");
    c.nontrivial();
    auto sabs = [&](long double d) -> long double {
        long double a = std::fabs(d), k = cut;
        return a > k ? a : a * a * (2 / k - a / (k * k));
    };
    long double m = std::fabs((long double)x) + std::fabs((long double)y) + cut;
    auto want = [&](const char* n, T got, long double w) {
        if (!(std::fabs((long double)got - w) <= 8 * std::numeric_limits<T>::epsilon() * m))
            c.fail("%s of plain numbers is %.17g, expected %.17g", n, double(got), double(w));
    };
    long double lx = x, ly = y;
    want("smooth_abs", def ? xad::smooth_abs(x) : xad::smooth_abs(x, cut), sabs(lx));
    want("smooth_max", def ? xad::smooth_max(x, y) : xad::smooth_max(x, y, cut), (lx + ly + sabs(lx - ly)) / 2);
    want("smooth_min", def ? xad::smooth_min(x, y) : xad::smooth_min(x, y, cut), (lx + ly - sabs(lx - ly)) / 2);
}

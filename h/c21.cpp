// C21: active types in the standard library: limits, hashing, text, streams, traits, containers, algorithms, distributions.
#include <XAD/XAD.hpp>
#include <XAD/StdCompatibility.hpp>
#include <algorithm>
#include <cstring>
#include <deque>
#include <forward_list>
#include <functional>
#include <iomanip>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <queue>
#include <random>
#include <set>
#include <sstream>
#include <unordered_map>
#include <unordered_set>
#include <valarray>
#include <vector>
#include "engine.hpp"
#ifndef BASE_T
#define BASE_T double
#endif
#ifndef MODE
#define MODE adj
#endif
typedef BASE_T T;
typedef xad::MODE<T> mode;
typedef mode::active_type A;
static const bool ADJ = !std::is_same<A, xad::FReal<T>>::value;

static bool same(T x, T y)
{
    if (x != x || y != y)
        return x != x && y != y;
    return x == y && std::signbit(x) == std::signbit(y);
}
static T genT(eng::Ctx& c)
{
    typedef std::numeric_limits<T> L;
    static const T special[] = {T(0), T(-0.0), T(1), T(-1), L::infinity(), -L::infinity(), L::quiet_NaN(), L::min(), L::denorm_min(), L::max(), L::lowest(), L::epsilon(),
                                T(0.1), T(1e10), T(123456.789), T(999999.5), T(9.9999995), T(1e-5), T(0.0001), T(2.5), T(0.5), T(3.141592653589793)};
    switch (c.below(7))
    {
        case 0: return c.pick(special);
        case 1: return T(c.range(-20, 20));
        case 2: return T(c.range(-2000, 2000)) / 8;
        case 3: return T(c.sreal(4));
        case 4: return T(c.sreal(1)) * std::pow(T(10), T(c.range(-20, 20)));
        case 5: return std::ldexp(T(c.real(0.5, 1)) * (c.chance(50) ? 1 : -1), int(c.range(L::min_exponent - 20, L::max_exponent)));
        default:
        {
            uint64_t b = c.below(~0ULL);
            T r;
            memcpy(&r, &b, sizeof r);
            return r;
        }
    }
}
static T finite(eng::Ctx& c)
{
    T v = genT(c);
    return std::isfinite(v) && std::fabs(v) < T(1e30) ? v : T(c.range(-9, 9));
}

// a recording around the operations, or none; forward mode: inputs carry tangents
template <class X>
struct Env;
template <class S>
struct Env<xad::AReal<S>>
{
    typedef xad::AReal<S> X;
    std::unique_ptr<xad::Tape<S>> tape;
    explicit Env(bool rec)
    {
        if (rec)
            tape.reset(new xad::Tape<S>());
    }
    void input(X& x)
    {
        if (tape)
            tape->registerInput(x);
    }
    void start()
    {
        if (tape)
            tape->newRecording();
    }
    bool plain(const X& x) { return !tape || !x.shouldRecord() || notDependent(x); }
    // x depends on nothing recorded so far: seeding it gives no derivative of the inputs
    std::vector<X*> ins;
    bool notDependent(const X& x)
    {
        tape->derivative(x.getSlot()) = S(1);
        tape->computeAdjoints();
        bool z = true;
        for (auto* i : ins) z = z && (i == &x || xad::derivative(*i) == S(0));
        tape->clearDerivatives();
        return z;
    }
};
template <class S>
struct Env<xad::FReal<S>>
{
    typedef xad::FReal<S> X;
    bool rec;
    std::vector<X*> ins;
    explicit Env(bool r) : rec(r) {}
    void input(X& x)
    {
        if (rec)
            xad::derivative(x) = S(1.5);
    }
    void start() {}
    bool plain(const X& x) { return xad::derivative(x) == S(0); }
};
typedef Env<A> E;

#define EQ(what, got, want)                                                                        \
    do                                                                                             \
    {                                                                                              \
        if (!((got) == (want)))                                                                    \
            c.fail("%s of %.17g (and %.17g) differs from the underlying type", what, double(a), double(b)); \
    } while (0)

ENG_PROP(hashtext, 4)
{
    T a = genT(c), b = c.chance(30) ? a : c.chance(20) ? -a : genT(c);
    c.log("hash and text of %.17g, %.17g", double(a), double(b));
    E env(c.chance(50));
    A x(a), y(b), one(T(1));
    env.input(x);
    env.input(y);
    env.start();
    c.nontrivial();
    EQ("hash", std::hash<A>()(x), std::hash<T>()(a));
    EQ("hash", std::hash<A>()(A(b)), std::hash<T>()(b));
    A z = x * one;
    if (a == a)  // the bits of a computed NaN are not specified
        EQ("hash of a computed value", std::hash<A>{}(z), std::hash<T>()(a * T(1)));
    if (x == y && std::hash<A>()(x) != std::hash<A>()(y))
        c.fail("equal values %.17g and %.17g have different hashes", double(a), double(b));
    EQ("std::to_string", std::to_string(x), std::to_string(a));
    if (a == a && b == b && a + b == a + b)
        EQ("std::to_string(x + y)", std::to_string(x + y), std::to_string(a + b));
    if (a == a)
        EQ("std::to_string(-x)", std::to_string(-x), std::to_string(-a));
    if (a == a)
        EQ("std::to_string(x * 2)", std::to_string(x * T(2)), std::to_string(a * T(2)));
    if (a == a)
        EQ("std::to_string(fabs(x))", std::to_string(std::fabs(x)), std::to_string(std::fabs(a)));
    EQ("std::to_string(temporary)", std::to_string(A(b)), std::to_string(b));
    EQ("std::equal_to", std::equal_to<A>()(x, y), std::equal_to<T>()(a, b));
    EQ("std::less", std::less<A>()(x, y), std::less<T>()(a, b));
    EQ("std::greater_equal", std::greater_equal<A>()(x, y), std::greater_equal<T>()(a, b));
    if (!same(xad::value(std::plus<A>()(x, y)), a + b) || !same(xad::value(std::multiplies<A>()(x, y)), a * b) || !same(xad::value(std::minus<A>()(x, y)), a - b) ||
        !same(xad::value(std::divides<A>()(x, y)), a / b) || !same(xad::value(std::negate<A>()(x)), -a))
        c.fail("function objects on %.17g, %.17g", double(a), double(b));
}

// ---- limits and traits
template <class X, class S>
static void limits(eng::Ctx& c, const char* name)
{
    typedef std::numeric_limits<X> L;
    typedef std::numeric_limits<S> M;
#define LC(m) if (!(L::m == M::m)) c.fail("numeric_limits<%s>::" #m " differs", name);
    LC(is_specialized) LC(is_signed) LC(is_integer) LC(is_exact) LC(has_infinity) LC(has_quiet_NaN) LC(has_signaling_NaN) LC(has_denorm) LC(has_denorm_loss)
    LC(round_style) LC(is_iec559) LC(is_bounded) LC(is_modulo) LC(digits) LC(digits10) LC(max_digits10) LC(radix) LC(min_exponent) LC(min_exponent10)
    LC(max_exponent) LC(max_exponent10) LC(traps) LC(tinyness_before)
#define LF(m) { X v = L::m(); S w = M::m(); if (!same(T(xad::value(xad::value(v))), T(xad::value(w)))) c.fail("numeric_limits<%s>::" #m "() differs", name); }
    LF(min) LF(lowest) LF(max) LF(epsilon) LF(round_error) LF(infinity) LF(quiet_NaN) LF(denorm_min)
}
template <class X, class S>
static void traits(eng::Ctx& c, const char* name)
{
#define TR(t) if (bool(std::t<X>::value) != bool(std::t<S>::value)) c.fail("std::" #t "<%s> is %d", name, int(std::t<X>::value));
#define TB(t, w) if (bool(std::t<X>::value) != (w)) c.fail("std::" #t "<%s> is %d", name, int(std::t<X>::value));
    TR(is_floating_point) TR(is_arithmetic) TR(is_signed) TR(is_integral) TR(is_unsigned) TR(is_void) TR(is_enum) TR(is_pointer)
    TB(is_pod, false) TB(is_fundamental, false) TB(is_scalar, false) TB(is_compound, true) TB(is_class, true) TB(is_object, true)
    TB(is_default_constructible, true) TB(is_copy_constructible, true) TB(is_move_constructible, true) TB(is_copy_assignable, true) TB(is_move_assignable, true)
    TB(is_destructible, true) TB(is_nothrow_move_constructible, true) TB(is_nothrow_move_assignable, true)
    if (!std::is_constructible<X, double>::value || !std::is_convertible<S, X>::value || !std::is_convertible<int, X>::value || std::is_convertible<X, S>::value || std::is_convertible<X, bool>::value)
        c.fail("conversions of %s", name);
    if (bool(std::is_floating_point<std::vector<X>>::value) || bool(std::is_arithmetic<std::vector<X>>::value))
        c.fail("traits of a vector of %s", name);
    if (std::is_same<typename std::common_type<X, X>::type, X>::value != true)
        c.fail("common type of %s", name);
}
ENG_PROP(limitstraits, 1)
{
    c.below(4);
    c.nontrivial();
    limits<A, T>(c, "active");
    limits<xad::AReal<A>, A>(c, "AReal of active");
    limits<xad::FReal<A>, A>(c, "FReal of active");
    traits<A, T>(c, "active");
    traits<xad::AReal<A>, T>(c, "AReal of active");
    traits<xad::FReal<A>, T>(c, "FReal of active");
    if (std::is_trivially_copyable<xad::FReal<T>>::value != true)
        c.fail("FReal is not trivially copyable");
    if (!ADJ)
    {
        A x(T(2.5)), y;
        xad::derivative(x) = T(3);
        memcpy((void*)&y, (const void*)&x, sizeof x);
        if (!same(xad::value(y), T(2.5)) || !same(xad::derivative(y), T(3)))
            c.fail("copying the bytes of an FReal");
    }
    if (!xad::ExprTraits<A>::isExpr || xad::ExprTraits<A>::isReverse != ADJ || xad::ExprTraits<A>::isForward == ADJ || xad::ExprTraits<T>::isExpr ||
        xad::ExprTraits<A>::numVariables != 1 || xad::ExprTraits<T>::numVariables != 0)
        c.fail("ExprTraits");
    if (!std::is_same<xad::ExprTraits<A>::scalar_type, T>::value || !std::is_same<xad::ExprTraits<xad::AReal<A>>::nested_type, T>::value ||
        !std::is_same<xad::ExprTraits<A>::value_type, A>::value)
        c.fail("ExprTraits types");
}

// ---- output
template <class Ch>
struct Fmt
{
    int prec, width, fl, fmt, adj;
    Ch fill;
    bool setp, setw, setf;
    explicit Fmt(eng::Ctx& c)
    {
        setp = c.chance(60);
        prec = c.chance(80) ? int(c.below(20)) : int(c.below(60));
        setw = c.chance(40);
        width = int(c.below(30));
        setf = c.chance(30);
        static const char f[] = {'*', '0', '#', ' ', 'x'};
        fill = Ch(c.pick(f));
        fmt = int(c.below(5));
        adj = int(c.below(4));
        fl = int(c.below(16));
    }
    template <class O>
    void apply(O& o) const
    {
        if (setp)
            o.precision(prec);
        if (setf)
            o.fill(fill);
        o.unsetf(std::ios_base::floatfield);
        if (fmt == 1)
            o << std::fixed;
        if (fmt == 2)
            o << std::scientific;
        if (fmt == 3)
            o << std::hexfloat;
        if (adj == 1)
            o << std::left;
        if (adj == 2)
            o << std::right;
        if (adj == 3)
            o << std::internal;
        if (fl & 1)
            o << std::showpos;
        else
            o << std::noshowpos;
        if (fl & 2)
            o << std::showpoint;
        if (fl & 4)
            o << std::uppercase;
        if (fl & 8)
            o << std::boolalpha;
        if (setw)
            o.width(width);
    }
    std::string str() const
    {
        char b[160];
        snprintf(b, sizeof b, "precision %d width %d fill '%c' format %d adjust %d flags %d", setp ? prec : -1, setw ? width : -1, setf ? char(fill) : ' ', fmt, adj, fl);
        return b;
    }
};
template <class Ch>
static void output(eng::Ctx& c)
{
    std::basic_ostringstream<Ch> s, w;
    E env(c.chance(50));
    A x, y;
    env.input(x);
    env.input(y);
    env.start();
    int n = int(c.range(1, 6));
    for (int i = 0; i < n; ++i)
    {
        T a = genT(c), b = genT(c);
        xad::value(x) = a;
        xad::value(y) = b;
        Fmt<Ch> f(c);
        int k = int(c.below(9));
        if ((k == 1 && a + b != a + b) || (k == 2 && a != a) || (k == 3 && a != a) || (k == 5 && std::fabs(a) - b != std::fabs(a) - b))
            k = 0;  // sign and bits of a computed NaN are not specified
        c.log("write form %d of %.17g, %.17g with %s", k, double(a), double(b), f.str().c_str());
        f.apply(s);
        f.apply(w);
        std::basic_ostream<Ch>* r = nullptr;
        switch (k)
        {
            case 0: r = &(s << x); w << a; break;
            case 1: r = &(s << x + y); w << a + b; break;
            case 2: r = &(s << -x); w << -a; break;
            case 3: r = &(s << x * T(3)); w << a * T(3); break;
            case 4: r = &(s << A(b)); w << b; break;
            case 5: r = &(s << std::fabs(x) - y); w << std::fabs(a) - b; break;
            case 6: r = &(s << x << ' ' << y << Ch('|') << x); w << a << ' ' << b << Ch('|') << a; break;
            case 7: r = &(s << static_cast<const A&>(y)); w << b; break;
            default: r = &(s << xad::value(x) << std::setw(12) << y); w << a << std::setw(12) << b; break;
        }
        if (r != &s)
            c.fail("operator<< returned another stream");
        if (s.width() != w.width() || s.precision() != w.precision() || s.flags() != w.flags() || s.rdstate() != w.rdstate())
            c.fail("state of the stream after writing differs");
        s << Ch(';');
        w << Ch(';');
    }
    if (s.str() != w.str())
    {
        std::string p, q;
        for (auto ch : s.str()) p += char(ch);
        for (auto ch : w.str()) q += char(ch);
        c.fail("written: \"%s\", the underlying type gives \"%s\"", p.c_str(), q.c_str());
    }
    c.nontrivial();
}
ENG_PROP(writing, 4) { output<char>(c); }
ENG_PROP(writingwide, 1) { output<wchar_t>(c); }
ENG_PROP(writingfails, 1)
{
    // a stream that has failed prints nothing and keeps its state
    std::ostringstream s, w;
    T a = genT(c);
    int st = int(c.below(3));
    static const std::ios_base::iostate k[] = {std::ios_base::badbit, std::ios_base::failbit, std::ios_base::eofbit};
    c.log("write %.17g to a stream in state %d", double(a), st);
    c.nontrivial();
    s.setstate(k[st]);
    w.setstate(k[st]);
    s << A(a) << A(a) * T(2);
    w << a << a * T(2);
    if (s.str() != w.str() || s.rdstate() != w.rdstate())
        c.fail("writing to a failed stream");
}

// ---- input
static std::string numberText(eng::Ctx& c)
{
    static const char* sp[] = {"", " ", "  ", "\n", "\t", "x", ",", "1", "-", "+", ".", "e", "1e", "1e+", "1.5", "-2.25", "+3", "0x1p3", "0x", "inf", "nan", "infinity", "1e400", "-1e400", "1e-400",
                               "1e39", "1.5.5", "1,000", "--1", "007", ".5", "5.", "1e5x", "0", "-0", "1 2", "true", "\x01", "99999999999999999999", "1e0000001", "1E5", "1d5", "0.1f"};
    if (c.chance(45))
        return c.pick(sp);
    std::ostringstream o;
    o << std::setprecision(int(c.range(1, 20)));
    if (c.chance(20))
        o << std::scientific;
    if (c.chance(10))
        o << std::fixed;
    o << genT(c);
    std::string t = o.str();
    if (c.chance(15) && !t.empty())
        t.erase(c.below(t.size()), 1);
    if (c.chance(10))
        t.insert(c.below(t.size() + 1), 1, "0123456789eE.+-x "[c.below(17)]);
    return t;
}
template <class Ch>
static void input(eng::Ctx& c)
{
    std::string txt;
    int n = int(c.range(1, 5));
    for (int i = 0; i < n; ++i)
    {
        txt += numberText(c);
        static const char* sep[] = {" ", "", "\n", " \t ", ",", "  "};
        if (i + 1 < n || c.chance(30))
            txt += c.pick(sep);
    }
    bool noskip = c.chance(15), exc = false;
    (void)exc;
    std::basic_string<Ch> t(txt.begin(), txt.end());
    std::basic_istringstream<Ch> s(t), w(t);
    if (noskip)
    {
        s >> std::noskipws;
        w >> std::noskipws;
    }
    T v0 = T(c.range(-5, 5)), seed = T(c.range(1, 5));
    E env(c.chance(60));
    A in(v0), y(v0), fresh(v0);
    env.input(in);
    env.ins.push_back(&in);
    env.start();
    y = in * T(2);
    T yv = v0 * T(2), fv = v0;
    c.log("read from \"%s\"%s", txt.c_str(), noskip ? " (noskipws)" : "");
    int good = 0;
    for (int i = 0; i < n + 1; ++i)
    {
        int which = int(c.below(3));
        A& target = which == 0 ? fresh : y;
        T& tv = which == 0 ? fv : yv;
        bool ready = bool(w);
        bool ok1 = bool(s >> target), ok2 = bool(w >> tv);
        c.log("  into %s: %d, value %.17g", which == 0 ? "passive" : "computed", int(ok1), double(xad::value(target)));
        if (ok1 != ok2 || s.rdstate() != w.rdstate())
            c.fail("reading: success %d, state %d; the underlying type: %d, %d", int(ok1), int(s.rdstate()), int(ok2), int(w.rdstate()));
        if (!same(xad::value(target), tv))
            c.fail("value read %.17g, the underlying type reads %.17g", double(xad::value(target)), double(tv));
        (void)ready;
        if (ok1)
        {
            ++good;
            if (!env.plain(target))
                c.fail("a number read from a stream depends on what the variable held before");
        }
        if (!ok1 && c.chance(60))
        {
            s.clear();
            w.clear();
            auto g1 = s.get(), g2 = w.get();
            if (g1 != g2 || s.rdstate() != w.rdstate())
                c.fail("the rest of the input after a failed read differs");
        }
    }
    (void)seed;
    s.clear();
    w.clear();
    std::basic_string<Ch> r1, r2;
    std::getline(s, r1, Ch(0));
    std::getline(w, r2, Ch(0));
    if (r1 != r2)
        c.fail("the rest of the input differs after reading");
    if (good)
        c.nontrivial();
}
ENG_PROP(reading, 6) { input<char>(c); }
ENG_PROP(readingwide, 1) { input<wchar_t>(c); }
ENG_PROP(roundtrip, 2)
{
    // written with enough digits and read again: the same value
    T a = genT(c), b = genT(c);
    if (!std::isfinite(a) || !std::isfinite(b) || std::fabs(a) < std::numeric_limits<T>::min() || std::fabs(b) < std::numeric_limits<T>::min())
        return;
    c.log("round trip of %.17g %.17g", double(a), double(b));
    c.nontrivial();
    std::stringstream s;
    s << std::setprecision(std::numeric_limits<A>::max_digits10) << A(a) << ' ' << A(b);
    A x, y;
    s >> x >> y;
    if (!s || !s.eof() || !same(xad::value(x), a) || !same(xad::value(y), b))
        c.fail("round trip of %.17g, %.17g gives %.17g, %.17g", double(a), double(b), double(xad::value(x)), double(xad::value(y)));
}

// ---- containers and algorithms
#define SAMEV(what, va, vt)                                                                        \
    do                                                                                             \
    {                                                                                              \
        size_t n1 = size_t(std::distance(va.begin(), va.end())), n2 = size_t(std::distance(vt.begin(), vt.end())); \
        bool ok_ = n1 == n2;                                                                       \
        auto i1 = va.begin();                                                                      \
        for (auto i2 = vt.begin(); ok_ && i2 != vt.end(); ++i1, ++i2) ok_ = same(T(xad::value(*i1)), *i2); \
        if (!ok_)                                                                                  \
            c.fail("%s: contents differ from those of the underlying type", what);                 \
    } while (0)
#define IDX(what, e1, e2)                                                                          \
    if ((e1) != (e2))                                                                              \
        c.fail("%s: position differs from that for the underlying type", what);
static void fillv(eng::Ctx& c, std::vector<T>& t, size_t n)
{
    bool few = c.chance(40);
    for (size_t i = 0; i < n; ++i) t.push_back(few ? T(c.range(-3, 3)) : finite(c));
}
static std::vector<A> lift(const std::vector<T>& t) { return std::vector<A>(t.begin(), t.end()); }

ENG_PROP(algorithms, 6)
{
    std::vector<T> t, t2;
    fillv(c, t, c.below(12) + 1);
    fillv(c, t2, t.size());
    std::vector<A> v = lift(t), v2 = lift(t2);
    E env(c.chance(50));
    // registration order of elements is the order of the vectors
    for (auto& x : v) env.input(x);
    for (auto& x : v2) env.input(x);
    env.start();
    T p = c.chance(50) ? t[c.below(t.size())] : finite(c);
    A pa(p);
    int k = int(c.below(30));
    c.log("algorithm %d on %zu elements, parameter %.17g", k, t.size(), double(p));
    for (size_t i = 0; i < t.size(); ++i) c.log("  %.17g %.17g", double(t[i]), double(t2[i]));
    c.nontrivial();
    size_t m = c.below(t.size() + 1);
    auto val = [](const A& x) { return T(xad::value(x)); };
    auto pos = [](ptrdiff_t d) { return d; };
    (void)pos;
    switch (k)
    {
        case 0: std::sort(v.begin(), v.end()); std::sort(t.begin(), t.end()); SAMEV("sort", v, t); break;
        case 1: std::stable_sort(v.begin(), v.end(), std::greater<A>()); std::stable_sort(t.begin(), t.end(), std::greater<T>()); SAMEV("stable_sort", v, t); break;
        case 2:
            IDX("max_element", std::max_element(v.begin(), v.end()) - v.begin(), std::max_element(t.begin(), t.end()) - t.begin())
            IDX("min_element", std::min_element(v.begin(), v.end()) - v.begin(), std::min_element(t.begin(), t.end()) - t.begin())
            {
                auto a1 = std::minmax_element(v.begin(), v.end());
                auto a2 = std::minmax_element(t.begin(), t.end());
                IDX("minmax_element", a1.first - v.begin(), a2.first - t.begin())
                IDX("minmax_element", a1.second - v.begin(), a2.second - t.begin())
            }
            break;
        case 3:
        {
            A s = std::accumulate(v.begin(), v.end(), pa);
            if (!same(val(s), std::accumulate(t.begin(), t.end(), p)))
                c.fail("accumulate");
            A q = std::accumulate(v.begin(), v.end(), A(1), std::multiplies<A>());
            if (!same(val(q), std::accumulate(t.begin(), t.end(), T(1), std::multiplies<T>())))
                c.fail("accumulate with multiplies");
            break;
        }
        case 4:
        {
            A s = std::inner_product(v.begin(), v.end(), v2.begin(), pa);
            if (!same(val(s), std::inner_product(t.begin(), t.end(), t2.begin(), p)))
                c.fail("inner_product");
            break;
        }
        case 5:
        {
            std::vector<A> o(v.size());
            std::vector<T> u(t.size());
            std::partial_sum(v.begin(), v.end(), o.begin());
            std::partial_sum(t.begin(), t.end(), u.begin());
            SAMEV("partial_sum", o, u);
            std::adjacent_difference(v.begin(), v.end(), o.begin());
            std::adjacent_difference(t.begin(), t.end(), u.begin());
            SAMEV("adjacent_difference", o, u);
            std::iota(o.begin(), o.end(), pa);
            std::iota(u.begin(), u.end(), p);
            SAMEV("iota", o, u);
            break;
        }
        case 6:
        {
            std::vector<A> o(v.size());
            std::vector<T> u(t.size());
            std::transform(v.begin(), v.end(), v2.begin(), o.begin(), std::plus<A>());
            std::transform(t.begin(), t.end(), t2.begin(), u.begin(), std::plus<T>());
            SAMEV("transform", o, u);
            std::transform(v.begin(), v.end(), o.begin(), [](const A& x) { return std::sin(x) * x; });
            std::transform(t.begin(), t.end(), u.begin(), [](T x) { return std::sin(x) * x; });
            SAMEV("transform with a lambda", o, u);
            break;
        }
        case 7:
            if (m < t.size())
            {
                std::nth_element(v.begin(), v.begin() + ptrdiff_t(m), v.end());
                std::nth_element(t.begin(), t.begin() + ptrdiff_t(m), t.end());
                if (!same(val(v[m]), t[m]) && val(v[m]) != t[m])
                    c.fail("nth_element");
            }
            break;
        case 8: std::partial_sort(v.begin(), v.begin() + ptrdiff_t(m), v.end()); std::partial_sort(t.begin(), t.begin() + ptrdiff_t(m), t.end());
            v.resize(m); t.resize(m); SAMEV("partial_sort", v, t); break;
        case 9:
            IDX("find", std::find(v.begin(), v.end(), pa) - v.begin(), std::find(t.begin(), t.end(), p) - t.begin())
            IDX("find a number", std::find(v.begin(), v.end(), p) - v.begin(), std::find(t.begin(), t.end(), p) - t.begin())
            IDX("count", std::count(v.begin(), v.end(), pa), std::count(t.begin(), t.end(), p))
            IDX("adjacent_find", std::adjacent_find(v.begin(), v.end()) - v.begin(), std::adjacent_find(t.begin(), t.end()) - t.begin())
            break;
        case 10:
            std::sort(v.begin(), v.end()); std::sort(t.begin(), t.end());
            IDX("lower_bound", std::lower_bound(v.begin(), v.end(), pa) - v.begin(), std::lower_bound(t.begin(), t.end(), p) - t.begin())
            IDX("upper_bound", std::upper_bound(v.begin(), v.end(), p) - v.begin(), std::upper_bound(t.begin(), t.end(), p) - t.begin())
            IDX("binary_search", std::binary_search(v.begin(), v.end(), pa), std::binary_search(t.begin(), t.end(), p))
            break;
        case 11:
            std::sort(v.begin(), v.end()); std::sort(t.begin(), t.end());
            v.erase(std::unique(v.begin(), v.end()), v.end()); t.erase(std::unique(t.begin(), t.end()), t.end());
            SAMEV("unique", v, t); break;
        case 12: v.erase(std::remove(v.begin(), v.end(), pa), v.end()); t.erase(std::remove(t.begin(), t.end(), p), t.end()); SAMEV("remove", v, t); break;
        case 13: std::replace(v.begin(), v.end(), pa, A(7)); std::replace(t.begin(), t.end(), p, T(7)); SAMEV("replace", v, t); break;
        case 14: std::rotate(v.begin(), v.begin() + ptrdiff_t(m), v.end()); std::rotate(t.begin(), t.begin() + ptrdiff_t(m), t.end());
            std::reverse(v.begin(), v.end()); std::reverse(t.begin(), t.end()); SAMEV("rotate and reverse", v, t); break;
        case 15:
            std::sort(v.begin(), v.end()); std::sort(t.begin(), t.end()); std::sort(v2.begin(), v2.end()); std::sort(t2.begin(), t2.end());
            {
                std::vector<A> o;
                std::vector<T> u;
                std::merge(v.begin(), v.end(), v2.begin(), v2.end(), std::back_inserter(o));
                std::merge(t.begin(), t.end(), t2.begin(), t2.end(), std::back_inserter(u));
                SAMEV("merge", o, u);
                o.clear(); u.clear();
                std::set_intersection(v.begin(), v.end(), v2.begin(), v2.end(), std::back_inserter(o));
                std::set_intersection(t.begin(), t.end(), t2.begin(), t2.end(), std::back_inserter(u));
                SAMEV("set_intersection", o, u);
                IDX("includes", std::includes(v.begin(), v.end(), v2.begin(), v2.end()), std::includes(t.begin(), t.end(), t2.begin(), t2.end()))
            }
            break;
        case 16:
            IDX("equal", std::equal(v.begin(), v.end(), v2.begin()), std::equal(t.begin(), t.end(), t2.begin()))
            IDX("lexicographical_compare", std::lexicographical_compare(v.begin(), v.end(), v2.begin(), v2.end()), std::lexicographical_compare(t.begin(), t.end(), t2.begin(), t2.end()))
            IDX("vector <", v < v2, t < t2)
            IDX("vector ==", v == v2, t == t2)
            IDX("is_sorted", std::is_sorted_until(v.begin(), v.end()) - v.begin(), std::is_sorted_until(t.begin(), t.end()) - t.begin())
            IDX("mismatch", std::mismatch(v.begin(), v.end(), v2.begin()).first - v.begin(), std::mismatch(t.begin(), t.end(), t2.begin()).first - t.begin())
            break;
        case 17:
        {
            std::set<A> s(v.begin(), v.end());
            std::set<T> u(t.begin(), t.end());
            SAMEV("set", s, u);
            IDX("set count", s.count(pa), u.count(p))
            s.erase(pa); u.erase(p);
            SAMEV("set after erase", s, u);
            std::multiset<A, std::greater<A>> ms(v.begin(), v.end());
            std::multiset<T, std::greater<T>> mu(t.begin(), t.end());
            SAMEV("multiset", ms, mu);
            break;
        }
        case 18:
        {
            std::map<A, A> s;
            std::map<T, T> u;
            for (size_t i = 0; i < t.size(); ++i) { s[v[i]] += v2[i]; u[t[i]] += t2[i]; }
            IDX("map size", s.size(), u.size())
            auto j = u.begin();
            for (auto& kv : s) { if (!same(val(kv.first), j->first) || !same(val(kv.second), j->second)) c.fail("map"); ++j; }
            break;
        }
        case 19: case 20:
        {
            std::unordered_map<A, int> s;
            std::unordered_map<T, int> u;
            std::unordered_set<A> us(v.begin(), v.end());
            std::unordered_set<T> uu(t.begin(), t.end());
            for (size_t i = 0; i < t.size(); ++i) { ++s[v[i]]; ++u[t[i]]; }
            IDX("unordered_map size", s.size(), u.size())
            IDX("unordered_set size", us.size(), uu.size())
            for (auto& kv : u)
                if (!s.count(A(kv.first)) || s[A(kv.first)] != kv.second || !us.count(A(kv.first)))
                    c.fail("unordered_map: entry of %.17g", double(kv.first));
            IDX("unordered_map find", s.count(pa), u.count(p))
            IDX("unordered_map find -p", s.count(-pa), u.count(-p))
            s.erase(pa); u.erase(p);
            IDX("unordered_map size", s.size(), u.size())
            for (auto& x : v2) { IDX("unordered_set find", us.count(x), uu.count(val(x))) }
            break;
        }
        case 21:
        {
            std::priority_queue<A> s(v.begin(), v.end());
            std::priority_queue<T> u(t.begin(), t.end());
            for (size_t i = 0; i < m; ++i) { s.push(v2[i]); u.push(t2[i]); }
            while (!u.empty()) { if (s.empty() || val(s.top()) != u.top()) c.fail("priority_queue"); s.pop(); u.pop(); }
            break;
        }
        case 22:
        {
            std::valarray<A> s(v.data(), v.size()), s2(v2.data(), v2.size());
            std::valarray<T> u(t.data(), t.size()), u2(t2.data(), t2.size());
            std::valarray<A> r = s + s2 * pa;
            std::valarray<T> q = u + u2 * p;
            for (size_t i = 0; i < t.size(); ++i) if (!same(val(r[i]), q[i])) c.fail("valarray arithmetic");
            std::valarray<A> r2 = std::exp(std::valarray<A>(std::sin(s)));
            std::valarray<T> q2 = std::exp(std::valarray<T>(std::sin(u)));
            for (size_t i = 0; i < t.size(); ++i) if (!same(val(r2[i]), q2[i])) c.fail("valarray functions");
            if (!same(val(s.sum()), u.sum()) || !same(val(s.max()), u.max()) || !same(val(s.min()), u.min())) c.fail("valarray sum, max, min");
            std::valarray<A> r3 = s.cshift(int(m));
            std::valarray<T> q3 = u.cshift(int(m));
            for (size_t i = 0; i < t.size(); ++i) if (!same(val(r3[i]), q3[i])) c.fail("valarray cshift");
            break;
        }
        case 23:
            if (!same(val(std::max({v[0], pa, v2[0]})), std::max({t[0], p, t2[0]})) || !same(val(std::min({v[0], pa, v2[0]})), std::min({t[0], p, t2[0]})))
                c.fail("max, min of a list");
            if (val(std::max(v[0], v2[0])) != std::max(t[0], t2[0]) || val(std::min(v[0], v2[0])) != std::min(t[0], t2[0]))
                c.fail("max, min");
            if (val(std::max(v[0], v2[0], std::greater<A>())) != std::max(t[0], t2[0], std::greater<T>()))
                c.fail("max with a comparison");
            if (val(std::minmax(v[0], v2[0]).first) != std::minmax(t[0], t2[0]).first)
                c.fail("minmax");
#if __cplusplus >= 201703L
            {
                T lo = std::min(p, t2[0]), hi = std::max(p, t2[0]);
                A la(lo), ha(hi);
                if (val(std::clamp(v[0], la, ha)) != std::clamp(t[0], lo, hi))
                    c.fail("clamp");
            }
#endif
            break;
        case 24:
        {
            std::deque<A> d(v.begin(), v.end());
            std::deque<T> e(t.begin(), t.end());
            d.insert(d.begin() + ptrdiff_t(m), pa); e.insert(e.begin() + ptrdiff_t(m), p);
            d.push_front(v2[0]); e.push_front(t2[0]);
            d.erase(d.begin()); e.erase(e.begin());
            SAMEV("deque", d, e);
            std::list<A> l(v.begin(), v.end());
            std::list<T> k2(t.begin(), t.end());
            l.sort(); k2.sort(); l.unique(); k2.unique(); l.remove(pa); k2.remove(p); l.reverse(); k2.reverse();
            SAMEV("list", l, k2);
            std::forward_list<A> fl(v.begin(), v.end());
            std::forward_list<T> ft(t.begin(), t.end());
            fl.sort(); ft.sort(); fl.push_front(pa); ft.push_front(p); fl.reverse(); ft.reverse();
            SAMEV("forward_list", fl, ft);
            break;
        }
        case 25:
        {
            v.insert(v.begin() + ptrdiff_t(m), v2.begin(), v2.end()); t.insert(t.begin() + ptrdiff_t(m), t2.begin(), t2.end());
            v.emplace_back(p); t.emplace_back(p); v.resize(v.size() + 2, pa); t.resize(t.size() + 2, p); { std::vector<A> q(v.rbegin(), v.rend()); v.swap(q); }
            { std::vector<T> q(t.rbegin(), t.rend()); t.swap(q); }
            SAMEV("vector", v, t);
            std::fill(v.begin(), v.end(), pa); std::fill(t.begin(), t.end(), p); SAMEV("fill", v, t);
            std::fill_n(v.begin(), 1, A(2)); std::fill_n(t.begin(), 1, T(2)); SAMEV("fill_n", v, t);
            break;
        }
        case 26:
        {
            auto a1 = std::partition_point(v.begin(), v.end(), [&](const A&) { return false; });
            IDX("partition_point", a1 - v.begin(), 0)
            auto b1 = std::stable_partition(v.begin(), v.end(), [&](const A& x) { return x < pa; });
            auto b2 = std::stable_partition(t.begin(), t.end(), [&](T x) { return x < p; });
            IDX("stable_partition", b1 - v.begin(), b2 - t.begin())
            SAMEV("stable_partition", v, t);
            IDX("count_if", std::count_if(v.begin(), v.end(), [&](const A& x) { return std::isfinite(x) && x * T(2) > pa; }), std::count_if(t.begin(), t.end(), [&](T x) { return std::isfinite(x) && x * T(2) > p; }))
            break;
        }
        case 27:
            std::make_heap(v.begin(), v.end()); std::make_heap(t.begin(), t.end());
            std::sort_heap(v.begin(), v.end()); std::sort_heap(t.begin(), t.end()); SAMEV("sort_heap", v, t);
            { bool r1 = std::next_permutation(v.begin(), v.end()), r2 = std::next_permutation(t.begin(), t.end()); IDX("next_permutation", r1, r2) }
            SAMEV("next_permutation", v, t);
            break;
        case 28:
            std::swap_ranges(v.begin(), v.end(), v2.begin()); std::swap_ranges(t.begin(), t.end(), t2.begin());
            SAMEV("swap_ranges", v, t); SAMEV("swap_ranges", v2, t2);
            std::swap(v[0], v2[0]); std::swap(t[0], t2[0]);
            SAMEV("swap", v, t);
            std::copy_backward(v.begin(), v.begin() + ptrdiff_t(m), v2.begin() + ptrdiff_t(m)); std::copy_backward(t.begin(), t.begin() + ptrdiff_t(m), t2.begin() + ptrdiff_t(m));
            SAMEV("copy_backward", v2, t2);
            break;
        default:
        {
            unsigned seed = unsigned(c.below(1000));
            std::mt19937 g(seed), h(seed);
            std::shuffle(v.begin(), v.end(), g); std::shuffle(t.begin(), t.end(), h);
            SAMEV("shuffle", v, t);
            T lo = T(c.range(-4, 4)), sc = T(c.range(1, 5));
            std::uniform_real_distribution<A> ua((A(lo)), A(lo + sc));
            std::uniform_real_distribution<T> ut(lo, lo + sc);
            std::normal_distribution<A> na((A(lo)), (A(sc)));
            std::normal_distribution<T> nt(lo, sc);
            std::exponential_distribution<A> ea((A(sc)));
            std::exponential_distribution<T> et(sc);
            for (int i = 0; i < 4; ++i)
            {
                if (!same(val(ua(g)), ut(h))) c.fail("uniform_real_distribution");
                T q1 = val(na(g)), q2 = nt(h);
                if (!(std::fabs(q1 - q2) <= 8 * std::numeric_limits<T>::epsilon() * (std::fabs(q2) + std::fabs(lo) + sc))) c.fail("normal_distribution: %.17g, %.17g", double(q1), double(q2));
                q1 = val(ea(g)), q2 = et(h);
                if (!(std::fabs(q1 - q2) <= 8 * std::numeric_limits<T>::epsilon() * (std::fabs(q2)))) c.fail("exponential_distribution: %.17g, %.17g", double(q1), double(q2));
            }
        }
    }
}
// derivatives through standard algorithms
    struct G
    {
        template <class S, class F>
        static void go(const xad::AReal<S>*, std::vector<xad::AReal<S>>& v, std::vector<xad::AReal<S>>& w, F f, std::vector<S>& got, S& gv)
        {
            xad::Tape<S> tape;
            tape.registerInputs(v);
            tape.registerInputs(w);
            tape.newRecording();
            xad::AReal<S> r = f(v, w);
            tape.registerOutput(r);
            gv = xad::value(r);
            xad::derivative(r) = S(1);
            tape.computeAdjoints();
            for (size_t i = 0; i < v.size(); ++i)
            {
                got[i] = xad::derivative(v[i]);
                got[v.size() + i] = xad::derivative(w[i]);
            }
        }
        template <class S, class F>
        static void go(const xad::FReal<S>*, std::vector<xad::FReal<S>>& v, std::vector<xad::FReal<S>>& w, F f, std::vector<S>& got, S& gv)
        {
            for (size_t i = 0; i < got.size(); ++i)
            {
                xad::FReal<S>& x = i < v.size() ? v[i] : w[i - v.size()];
                xad::derivative(x) = S(1);
                xad::FReal<S> r = f(v, w);
                got[i] = xad::derivative(r);
                gv = xad::value(r);
                xad::derivative(x) = S(0);
            }
        }
    };
ENG_PROP(derivatives, 2)
{
    std::vector<T> t, t2;
    for (size_t i = 0, n = c.below(8) + 1; i < n; ++i)
    {
        t.push_back(T(c.range(-8, 8)));
        t2.push_back(T(c.range(-8, 8)));
    }
    int k = int(c.below(6));
    c.log("derivatives of algorithm %d on %zu elements", k, t.size());
    size_t n = t.size();
    std::vector<T> want(2 * n, T(0));
    T val = 0;
    auto run = [&](std::vector<A>& v, std::vector<A>& w) -> A {
        switch (k)
        {
            case 0: return std::accumulate(v.begin(), v.end(), A(0));
            case 1: return std::inner_product(v.begin(), v.end(), w.begin(), A(0));
            case 2: { std::vector<A> o(v.size()); std::partial_sum(v.begin(), v.end(), o.begin()); return o.back() * T(3); }
            case 3: { std::vector<A> o(v.size()); std::transform(v.begin(), v.end(), w.begin(), o.begin(), std::multiplies<A>()); return std::accumulate(o.begin(), o.end(), A(1)); }
            case 4: return *std::max_element(v.begin(), v.end()) * *std::min_element(w.begin(), w.end());
            default: { std::vector<A> o(v); std::sort(o.begin(), o.end()); A s(0); for (size_t i = 0; i < o.size(); ++i) s += o[i] * T(double(i)); return s; }
        }
    };
    size_t mx = size_t(std::max_element(t.begin(), t.end()) - t.begin()), mn = size_t(std::min_element(t2.begin(), t2.end()) - t2.begin());
    for (size_t i = 0; i < n; ++i)
        switch (k)
        {
            case 0: want[i] = 1; val += t[i]; break;
            case 1: case 3: want[i] = t2[i]; want[n + i] = t[i]; val += t[i] * t2[i] + (k == 3 && i == 0 ? T(1) : T(0)); break;
            case 2: want[i] = 3; val += 3 * t[i]; break;
            case 4: if (i == mx) want[i] = t2[mn]; if (i == mn) want[n + i] = t[mx]; val = t[mx] * t2[mn]; break;
            default: break;
        }
    bool ties = false;
    if (k == 5)
    {
        for (size_t i = 0; i < n; ++i)
        {
            size_t r = 0;
            for (size_t j = 0; j < n; ++j)
            {
                r += t[j] < t[i];
                ties = ties || (j != i && t[j] == t[i]);
            }
            want[i] = T(double(r));
            val += T(double(r)) * t[i];
        }
        if (ties)
            return;
    }
    std::vector<A> v = lift(t), w = lift(t2);
    std::vector<T> got(2 * n);
    T gv = 0;
    G::go(static_cast<const A*>(nullptr), v, w, run, got, gv);
    c.nontrivial();
    if (gv != val)
        c.fail("value %.17g, expected %.17g", double(gv), double(val));
    for (size_t i = 0; i < 2 * n; ++i)
        if (got[i] != want[i])
            c.fail("derivative %zu: %.17g, expected %.17g", i, double(got[i]), double(want[i]));
}

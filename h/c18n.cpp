// C18: second derivatives through complex arithmetic, all nestings, against differences of first derivatives in long double.
#include "common.hpp"
#include <complex>
#include <functional>
typedef long double LD;
typedef xad::FReal<LD> FL;
static const int NI = 5;

struct Op
{
    int k, a, b;
    double c;
};
static const int NOPS = 46;
static const char* const NAMES[NOPS] = {"z+w", "z-w", "z*w", "z/w", "-z", "z+=w", "z-=w", "z*=w", "z/=w", "z*=z", "z+x", "x-z", "z*x", "x*z", "z/x", "x/z", "z+=x",
                                        "z*=x", "z/=x", "exp", "log", "sqrt", "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh",
                                        "atanh", "pow(z,w)", "pow(z,x)", "pow(x,z)", "conj", "proj", "polar", "abs", "arg", "norm", "real*imag", "C(x,y)", "x*y+c"};
template <class A>
struct Regs
{
    typedef std::complex<A> C;
    std::vector<C> z;
    std::vector<A> r;
    void step(const Op& o)
    {
        const C w0 = z[size_t(o.a) % z.size()], w = z[size_t(o.b) % z.size()];
        C q = w0;
        const A x = r[size_t(o.b) % r.size()], y = r[size_t(o.a) % r.size()];
        switch (o.k)
        {
            case 0: z.push_back(q + w); break;
            case 1: z.push_back(q - w); break;
            case 2: z.push_back(q * w); break;
            case 3: z.push_back(q / w); break;
            case 4: z.push_back(-q); break;
            case 5: q += w; z.push_back(q); break;
            case 6: q -= w; z.push_back(q); break;
            case 7: q *= w; z.push_back(q); break;
            case 8: q /= w; z.push_back(q); break;
            case 9: q *= q; z.push_back(q); break;
            case 10: z.push_back(q + x); break;
            case 11: z.push_back(x - q); break;
            case 12: z.push_back(q * x); break;
            case 13: z.push_back(x * q); break;
            case 14: z.push_back(q / x); break;
            case 15: z.push_back(x / q); break;
            case 16: q += x; z.push_back(q); break;
            case 17: q *= x; z.push_back(q); break;
            case 18: q /= x; z.push_back(q); break;
            case 19: z.push_back(exp(q)); break;
            case 20: z.push_back(log(q)); break;
            case 21: z.push_back(sqrt(q)); break;
            case 22: z.push_back(sin(q)); break;
            case 23: z.push_back(cos(q)); break;
            case 24: z.push_back(tan(q)); break;
            case 25: z.push_back(asin(q)); break;
            case 26: z.push_back(acos(q)); break;
            case 27: z.push_back(atan(q)); break;
            case 28: z.push_back(sinh(q)); break;
            case 29: z.push_back(cosh(q)); break;
            case 30: z.push_back(tanh(q)); break;
            case 31: z.push_back(asinh(q)); break;
            case 32: z.push_back(acosh(q)); break;
            case 33: z.push_back(atanh(q)); break;
            case 34: z.push_back(pow(q, w)); break;
            case 35: z.push_back(pow(q, x)); break;
            case 36: z.push_back(pow(x, q)); break;
            case 37: z.push_back(conj(q)); break;
            case 38: z.push_back(std::proj(q)); break;
            case 39: z.push_back(std::polar(y, x)); break;
            case 40: r.push_back(abs(q)); break;
            case 41: r.push_back(arg(q)); break;
            case 42: r.push_back(norm(q)); break;
            case 43: r.push_back(q.real() * q.imag()); break;
            case 44: z.push_back(C(y, x)); break;
            default: r.push_back(y * x + A(T(o.c))); break;
        }
    }
    // everything computed, weighted
    A sum(const std::vector<double>& w) const
    {
        A s = A(T(0));
        size_t k = 0;
        for (size_t i = 2; i < z.size(); ++i)
        {
            s = s + A(T(w[k++ % w.size()])) * z[i].real();
            s = s + A(T(w[k++ % w.size()])) * z[i].imag();
        }
        for (size_t i = 1; i < r.size(); ++i) s = s + A(T(w[k++ % w.size()])) * r[i];
        return s;
    }
    void init(const std::vector<A>& x)
    {
        z.push_back(C(x[0], x[1]));
        z.push_back(C(x[2], x[3]));
        r.push_back(x[4]);
    }
};

struct Case
{
    std::vector<Op> ops;
    double x[NI], v[NI];
    std::vector<double> w;
};
struct Bad
{
};
// gradient at x + h v; the largest magnitude that appears
static void gradient(const Case& k, LD h, LD (&g)[NI], LD& val, LD& mag)
{
    for (int i = 0; i < NI; ++i)
    {
        std::vector<FL> x;
        for (int j = 0; j < NI; ++j)
        {
            x.push_back(FL(LD(k.x[j]) + h * LD(k.v[j])));
            xad::derivative(x.back()) = i == j;
        }
        Regs<FL> q;
        q.init(x);
        auto look = [&](const FL& a) {
            LD m = std::max(std::fabs(xad::value(a)), std::fabs(xad::derivative(a)));
            if (!(m < 1e3L))
                throw Bad();
            mag = std::max(mag, m);
        };
        for (auto& o : k.ops)
        {
            q.step(o);
            look(q.z.back().real());
            look(q.z.back().imag());
            look(q.r.back());
        }
        FL s = q.sum(k.w);
        g[i] = xad::derivative(s);
        val = xad::value(s);
    }
}

// the value with a small error in every input and every intermediate result
static LD noisy(const Case& k, unsigned signs)
{
    uint64_t h = 0x9e3779b97f4a7c15u * (signs + 1);
    auto e = [&]() {
        h = h * 6364136223846793005u + 1442695040888963407u;
        return ((h >> 63) ? 1e-10L : -1e-10L) * (1 + LD(h >> 40 & 0xffff) / 0x10000);
    };
    std::vector<FL> x;
    for (int i = 0; i < NI; ++i) x.push_back(FL(LD(k.x[i]) + e()));
    Regs<FL> q;
    q.init(x);
    for (auto& o : k.ops)
    {
        q.step(o);
        q.z.back() = std::complex<FL>(q.z.back().real() + e(), q.z.back().imag() + e());
        q.r.back() = q.r.back() + e();
    }
    return xad::value(q.sum(k.w));
}

struct Res
{
    double val = 0, g = 0;             // value, directional derivative
    std::vector<std::pair<int, double>> H;
};
template <class A> struct Mode;
template <>
struct Mode<xad::FReal<xad::FReal<T>>>
{
    static Res run(const Case& k, int i)
    {
        typedef xad::FReal<T> I;
        typedef xad::FReal<I> A;
        std::vector<A> x;
        for (int j = 0; j < NI; ++j)
        {
            x.push_back(A(T(k.x[j])));
            xad::derivative(xad::value(x.back())) = T(k.v[j]);
            xad::value(xad::derivative(x.back())) = T(i == j);
        }
        Regs<A> q;
        q.init(x);
        for (auto& o : k.ops) q.step(o);
        A s = q.sum(k.w);
        Res r;
        r.val = double(xad::value(xad::value(s)));
        r.g = double(xad::derivative(xad::value(s)));
        r.H.push_back({i, double(xad::derivative(xad::derivative(s)))});
        return r;
    }
};
template <>
struct Mode<xad::AReal<xad::FReal<T>>>
{
    static Res run(const Case& k, int)
    {
        typedef xad::FReal<T> I;
        typedef xad::AReal<I> A;
        xad::Tape<I> tape;
        std::vector<A> x;
        for (int j = 0; j < NI; ++j)
        {
            x.push_back(A(T(k.x[j])));
            xad::derivative(xad::value(x.back())) = T(k.v[j]);
        }
        tape.registerInputs(x);
        tape.newRecording();
        Res r;
        {
            Regs<A> q;
            q.init(x);
            for (auto& o : k.ops) q.step(o);
            A s = q.sum(k.w);
            tape.registerOutput(s);
            xad::value(xad::derivative(s)) = T(1);
            r.val = double(xad::value(xad::value(s)));
            r.g = double(xad::derivative(xad::value(s)));
            tape.computeAdjoints();
        }
        for (int j = 0; j < NI; ++j) r.H.push_back({j, double(xad::derivative(xad::derivative(x[size_t(j)])))});
        return r;
    }
};
template <>
struct Mode<xad::FReal<xad::AReal<T>>>
{
    static Res run(const Case& k, int)
    {
        typedef xad::AReal<T> I;
        typedef xad::FReal<I> A;
        xad::Tape<T> tape;
        std::vector<A> x;
        for (int j = 0; j < NI; ++j)
        {
            x.push_back(A(T(k.x[j])));
            xad::derivative(x.back()) = I(T(k.v[j]));
            tape.registerInput(xad::value(x.back()));
        }
        tape.newRecording();
        Res r;
        {
            Regs<A> q;
            q.init(x);
            for (auto& o : k.ops) q.step(o);
            A s = q.sum(k.w);
            r.val = double(xad::value(xad::value(s)));
            r.g = double(xad::value(xad::derivative(s)));
            tape.registerOutput(xad::derivative(s));
            xad::derivative(xad::derivative(s)) = T(1);
            tape.computeAdjoints();
        }
        for (int j = 0; j < NI; ++j) r.H.push_back({j, double(xad::derivative(xad::value(x[size_t(j)])))});
        return r;
    }
};
template <>
struct Mode<xad::AReal<xad::AReal<T>>>
{
    static Res run(const Case& k, int)
    {
        typedef xad::AReal<T> I;
        typedef xad::AReal<I> A;
        xad::Tape<T> in;
        xad::Tape<I> out;
        std::vector<A> x;
        for (int j = 0; j < NI; ++j)
        {
            x.push_back(A(T(k.x[j])));
            in.registerInput(xad::value(x.back()));
            out.registerInput(x.back());
        }
        in.newRecording();
        out.newRecording();
        Res r;
        {
            Regs<A> q;
            q.init(x);
            for (auto& o : k.ops) q.step(o);
            A s = q.sum(k.w);
            out.registerOutput(s);
            xad::derivative(s) = I(T(1));
            out.computeAdjoints();
            I g = I(T(0));
            for (int j = 0; j < NI; ++j) g = g + xad::derivative(x[size_t(j)]) * I(T(k.v[j]));
            r.val = double(xad::value(xad::value(s)));
            r.g = double(xad::value(g));
            in.registerOutput(g);
            xad::derivative(g) = T(1);
            in.computeAdjoints();
        }
        for (int j = 0; j < NI; ++j) r.H.push_back({j, double(xad::derivative(xad::value(x[size_t(j)])))});
        return r;
    }
};

ENG_PROP(second, 1)
{
    Case k;
    bool ints = c.chance(30);
    for (int j = 0; j < NI; ++j)
    {
        k.x[j] = double(T(ints ? double(c.range(-8, 8)) / 4 : c.chance(8) ? 0.0 : c.sreal(3)));
        k.v[j] = double(c.range(-2, 2)) / 2;
    }
    int n = int(c.range(1, 4));
    for (int i = 0; i < n; ++i) k.ops.push_back({int(c.below(NOPS)), int(c.below(8)), int(c.below(8)), double(c.range(-4, 4)) / 2});
    for (int i = 0; i < 5; ++i) k.w.push_back(double(c.range(-2, 2)));
    if (c.verbose)
    {
        std::string s;
        for (auto& o : k.ops)
        {
            char b[80];
            snprintf(b, sizeof b, " %s[%d,%d,%g]", NAMES[o.k], o.a, o.b, o.c);
            s += b;
        }
        c.log("ops%s", s.c_str());
        for (int j = 0; j < NI; ++j) c.log("x%d = %.17g direction %g weight %g", j, k.x[j], k.v[j], k.w[size_t(j)]);
    }
    LD g0[NI], gp[NI], gm[NI], gp2[NI], gm2[NI], val = 0, d, mag = 1;
    const LD h = 1e-5L;
    LD H[NI], err[NI], dir = 0;
    try
    {
        gradient(k, 0, g0, val, mag);
        gradient(k, h, gp, d, mag);
        gradient(k, -h, gm, d, mag);
        gradient(k, 2 * h, gp2, d, mag);
        gradient(k, -2 * h, gm2, d, mag);
    }
    catch (Bad&)
    {
        c.label("out of range");
        return;
    }
    LD big = mag;
    for (int j = 0; j < NI; ++j)
    {
        LD d1 = (gp[j] - gm[j]) / (2 * h), d2 = (gp2[j] - gm2[j]) / (4 * h);
        H[j] = (4 * d1 - d2) / 3;
        err[j] = std::fabs(d1 - d2);
        // kinks and branch cuts at the point itself
        LD one = std::fabs(gp[j] - 2 * g0[j] + gm[j]) / h;
        if (!(one < 1e-2L * (1 + mag)) || !(err[j] < 1e-7L * (1 + mag)))
        {
            c.label("not smooth");
            return;
        }
        dir += g0[j] * LD(k.v[j]);
        big = std::max(big, std::fabs(H[j]));
    }
    // next to a branch cut rounding decides the side
    for (unsigned m = 0; m < 20; ++m)
        if (!(std::fabs(noisy(k, m) - val) < 1e-5L * (1 + mag)))
        {
            c.label("on a branch cut");
            return;
        }
    int i = int(c.below(NI));
#define QU(A, name)                                                                                                                                          \
    {                                                                                                                                                        \
        Res r = Mode<A>::run(k, i);                                                                                                                          \
        if (!(std::fabs(LD(r.val) - val) <= 1e-8L * big))                                                                                                    \
            c.fail("%s: value %.17g, expected %.17Lg", name, r.val, val);                                                                                    \
        if (!(std::fabs(LD(r.g) - dir) <= 1e-7L * big))                                                                                                      \
            c.fail("%s: directional derivative %.17g, expected %.17Lg", name, r.g, dir);                                                                     \
        for (auto& e : r.H)                                                                                                                                  \
            if (!(std::fabs(LD(e.second) - H[e.first]) <= 1e-6L * big + 20 * err[e.first]))                                                                  \
                c.fail("%s: second derivative with respect to input %d is %.17g, expected %.17Lg", name, e.first, e.second, H[e.first]);                     \
    }
    typedef xad::FReal<xad::FReal<T>> FF;
    typedef xad::AReal<xad::FReal<T>> AF;
    typedef xad::FReal<xad::AReal<T>> FA;
    typedef xad::AReal<xad::AReal<T>> AA;
#if MODE == 0
    QU(FF, "forward over forward")
#elif MODE == 1
    QU(AF, "forward over reverse")
#elif MODE == 2
    QU(FA, "reverse over forward")
#else
    QU(AA, "reverse over reverse")
#endif
    int nz = 0;
    for (LD q : H) nz += std::fabs(q) > 1e-6L;
    if (nz >= 1)
        c.nontrivial();
}

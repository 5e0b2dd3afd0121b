// C18: derivatives through complex arithmetic.
#include "cplx.hpp"
using namespace cplx;
#ifdef FWD
typedef xad::fwd<T> Mode;
#else
typedef xad::adj<T> Mode;
#endif
typedef Mode::active_type A;
typedef std::complex<A> C;

static void inputs(eng::Ctx& c, T (&v)[6])
{
    bool ints = c.chance(30);
    for (auto& x : v) x = T(ints ? double(c.range(-8, 8)) / 4 : c.chance(8) ? 0.0 : c.sreal(3));
    c.log("inputs (%g, %g) (%g, %g) %g %g", double(v[0]), double(v[1]), double(v[2]), double(v[3]), double(v[4]), double(v[5]));
}
static void check(eng::Ctx& c, const char* what, size_t i, const char* part, int wrt, double got, LD want, LD scale)
{
    if (!(std::fabs(LD(got) - want) <= LD(TOL) * scale + LD(TOL) * 1e-6L))
        c.fail("derivative of the %s part of %s %zu with respect to input %d is %.17g, expected %.17g (scale %.3g)", part, what, i, wrt, got, double(want), double(scale));
}
static bool relevant(const Env<A>& e)
{
    int n = 0;
    for (size_t i = 4; i < e.rz.size(); ++i)
        for (auto& d : e.rz[i].d) n += d != CLD(0);
    return n >= 2 && e.steps >= 2;
}

#ifndef FWD
ENG_PROP(programs, 1)
{
    Mode::tape_type tape;
    T v[6];
    inputs(c, v);
    Env<A> e(c, false);
    int whole = int(c.below(3));
    e.init(v, [&](C& z) {
        if (whole == 2)
            ;
        else if (whole)
            tape.registerInput(z);
        else
        {
            tape.registerInput(z.real());
            tape.registerInput(z.imag());
        }
    }, [&](A& r) { if (whole != 2) tape.registerInput(r); });
    if (whole == 2)
    {
        if (c.chance(50))
        {
            std::vector<C> q(std::make_move_iterator(e.z.begin()), std::make_move_iterator(e.z.end()));
            tape.registerInputs(q);
            std::move(q.begin(), q.end(), e.z.begin());
        }
        else
            tape.registerInputs(e.z.begin(), e.z.end());
        tape.registerInputs(e.r.begin(), e.r.end());
    }
    tape.newRecording();
    e.copies();
    int n = int(c.pick(std::vector<int>{1, 4, 12}));
    for (int i = 0; i < n && !e.broken; ++i)
        if (i == 0 || c.chance(96))
            e.step(e.draw());
        else
            break;
    if (e.broken)
        return;
    std::vector<std::pair<int, size_t>> outs;
    for (size_t i = 2; i < e.z.size(); ++i) outs.push_back({0, i}), outs.push_back({1, i});
    for (size_t i = 2; i < e.r.size(); ++i) outs.push_back({2, i});
    int wholeOut = int(c.below(3));
    if (wholeOut == 2)
    {
        if (c.chance(50))
        {
            std::vector<C> q(std::make_move_iterator(e.z.begin() + 2), std::make_move_iterator(e.z.end()));
            tape.registerOutputs(q);
            std::move(q.begin(), q.end(), e.z.begin() + 2);
        }
        else
            tape.registerOutputs(e.z.begin() + 2, e.z.end());
        tape.registerOutputs(e.r.begin() + 2, e.r.end());
    }
    for (size_t i = 2; i < e.z.size() && wholeOut < 2; ++i)
        if (wholeOut)
            tape.registerOutput(e.z[i]);
        else
        {
            tape.registerOutput(e.z[i].imag());
            tape.registerOutput(e.z[i].real());
        }
    for (size_t i = 2; i < e.r.size() && wholeOut < 2; ++i) tape.registerOutput(e.r[i]);
    int style = int(c.below(3));
    for (auto& o : outs)
    {
        size_t i = o.second;
        tape.clearDerivatives();
        if (o.first == 2)
            xad::derivative(e.r[i]) = T(1);
        else
            switch (style)
            {
                case 0: xad::derivative(o.first ? e.z[i].imag() : e.z[i].real()) = T(1); break;
                case 1: e.z[i].setAdjoint(o.first ? T(0) : T(1), o.first ? T(1) : T(0)); break;
                default: e.z[i].setDerivative(o.first ? T(0) : T(1), o.first ? T(1) : T(0)); break;
            }
        tape.computeAdjoints();
        T g[6];
        for (int k = 0; k < 2; ++k)
        {
            std::complex<T> d = style == 0 ? xad::derivative(const_cast<const C&>(e.z[size_t(k)])) : style == 1 ? e.z[size_t(k)].getAdjoint() : e.z[size_t(k)].getDerivative();
            g[2 * k] = d.real();
            g[2 * k + 1] = d.imag();
            g[4 + k] = xad::derivative(e.r[size_t(k)]);
        }
        const RC& ref = o.first == 2 ? e.rr[i] : e.rz[i];
        for (int k = 0; k < 6; ++k) check(c, o.first == 2 ? "real" : "complex", i, o.first == 1 ? "imaginary" : "real", k, double(g[k]), o.first == 1 ? ref.d[k].imag() : ref.d[k].real(), ref.s[k]);
    }
    if (relevant(e))
        c.nontrivial();
}
#else
ENG_PROP(programs, 1)
{
    T v[6];
    inputs(c, v);
    T seed[6];
    int one = c.chance(50) ? int(c.below(6)) : -1;
    for (int i = 0; i < 6; ++i) seed[i] = one >= 0 ? T(one == i) : T(double(c.range(-4, 4)) / 2);
    Env<A> e(c, false);
    int k = 0, style = int(c.below(3));
    e.init(v, [&](C& z) {
        switch (style)
        {
            case 0:
                xad::derivative(z.real()) = seed[k];
                xad::derivative(z.imag()) = seed[k + 1];
                break;
            case 1: z.setDerivative(seed[k], seed[k + 1]); break;
            default: z.setAdjoint(seed[k], seed[k + 1]); break;
        }
        k += 2;
    }, [&](A& r) { xad::derivative(r) = seed[k++]; });
    e.copies();
    auto all = [&]() {
        auto want = [&](const RC& x, CLD& d, LD& s) {
            d = 0;
            s = 0;
            for (int j = 0; j < 6; ++j) d += x.d[j] * LD(seed[j]), s += x.s[j] * std::fabs(LD(seed[j]));
        };
        CLD d;
        LD s;
        for (size_t i = 0; i < e.z.size(); ++i)
        {
            want(e.rz[i], d, s);
            std::complex<T> g = style == 0 ? xad::derivative(const_cast<const C&>(e.z[i])) : e.z[i].getDerivative();
            check(c, "complex", i, "real", -1, double(g.real()), d.real(), s);
            check(c, "complex", i, "imaginary", -1, double(g.imag()), d.imag(), s);
        }
        for (size_t i = 0; i < e.r.size(); ++i)
        {
            want(e.rr[i], d, s);
            check(c, "real", i, "real", -1, double(xad::derivative(e.r[i])), d.real(), s);
        }
    };
    int n = int(c.pick(std::vector<int>{1, 4, 12}));
    for (int i = 0; i < n && !e.broken; ++i)
    {
        if (i && !c.chance(96))
            break;
        e.step(e.draw());
        if (!e.broken)
            all();
    }
    if (relevant(e))
        c.nontrivial();
}
#endif

#pragma once
#include <XAD/XAD.hpp>
#include "prog.hpp"
#ifndef BASE_T
#define BASE_T double
#endif
typedef BASE_T T;
static const double TOL = sizeof(T) == 8 ? 1e-10 : 1e-3;
static const double TINY = sizeof(T) == 8 ? 1e-290 : 1e-34;

// lock-step comparison of values after a statement; the reference then continues from the library's value
template <class X, class Y>
static void syncValues(eng::Ctx& c, X& ex, Y& jx, size_t opi)
{
    for (size_t i = 0; i < ex.total(); ++i)
    {
        double xv = double(xad::value(ex.at(int(i)))), jv = double(jx.at(int(i)).v());
        double tol = (sizeof(T) == 8 ? 1e-12 : 1e-4) * (1 + std::fabs(jv));
        if (!(std::fabs(xv - jv) <= tol))
            c.fail("value of variable %zu after statement %zu: got %.17g, plain arithmetic gives %.17g", i, opi, xv, jv);
        jx.at(int(i)).setv(T(xv));
    }
}
static inline bool close(double got, long double want, long double scale)
{
    return std::fabs(got - (double)want) <= TOL * (double)scale + TINY;
}
template <class J>
static inline void checkD(eng::Ctx& c, const char* what, int i, double got, long double want, long double scale)
{
    if (!close(got, want, scale))
        c.fail("%s %d: got %.17g, reference %.17g (scale %.3g)", what, i, got, (double)want, (double)scale);
}

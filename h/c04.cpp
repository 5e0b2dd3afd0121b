// C04: derivatives of every function in every operand form against closed forms in long double.
#include "fnforms.hpp"
#include "ref.hpp"
typedef long double LD;
static const LD EPS = std::numeric_limits<T>::epsilon();
static const LD PI = 3.14159265358979323846264338327950288L;

// partial derivatives of the function at (a,b); false if it is not differentiable there
// (apart from the documented kink values)
static bool dref(const std::string& f, LD a, LD b, int n, LD& da, LD& db)
{
    using namespace ref;
    da = db = 0;
    static const std::vector<std::pair<const char*, int>> U = {
        {"sin", F_SIN}, {"cos", F_COS}, {"tan", F_TAN}, {"asin", F_ASIN}, {"acos", F_ACOS}, {"atan", F_ATAN}, {"sinh", F_SINH}, {"cosh", F_COSH},
        {"tanh", F_TANH}, {"asinh", F_ASINH}, {"acosh", F_ACOSH}, {"atanh", F_ATANH}, {"exp", F_EXP}, {"exp2", F_EXP2}, {"expm1", F_EXPM1},
        {"log", F_LOG}, {"log2", F_LOG2}, {"log10", F_LOG10}, {"log1p", F_LOG1P}, {"sqrt", F_SQRT}, {"cbrt", F_CBRT}, {"erf", F_ERF}, {"erfc", F_ERFC}};
    for (auto& u : U)
        if (f == u.first)
        {
            da = ref::series(ref::Fn(u.second), a).a[1];
            return true;
        }
    if (f == "neg") { da = -1; return true; }
    if (f == "pos" || f == "preinc" || f == "predec" || f == "modf" || f == "modfa") { da = 1; return true; }
    if (f == "postinc" || f == "postdec") { da = 2; return true; }
    if (f == "add" || f == "addeq") { da = db = 1; return true; }
    if (f == "sub" || f == "subeq") { da = 1; db = -1; return true; }
    if (f == "mul" || f == "muleq") { da = b; db = a; return true; }
    if (f == "div" || f == "diveq") { if (b == 0) return false; da = 1 / b; db = -a / (b * b); return true; }
    if (f == "fabs" || f == "abs") { da = (a > 0) - (a < 0); return true; }
    if (f == "floor" || f == "ceil" || f == "trunc") return a != std::floor(a);
    if (f == "round") return a - std::floor(a) != 0.5L;
    if (f == "degrees") { da = 180 / PI; return true; }
    if (f == "radians") { da = PI / 180; return true; }
    if (f == "pown") { if (a == 0 && n < 1) { return n == 0; } da = n == 0 ? 0 : LD(n) * std::pow(a, LD(n - 1)); return true; }
    if (f == "ldexp" || f == "scalbn") { da = std::ldexp(1.0L, n); return true; }
    if (f == "frexp") { int e; std::frexp(T(a), &e); if (a == 0) return false; da = std::ldexp(1.0L, -e); return true; }
    if (f == "atan2") { LD q = a * a + b * b; if (q == 0 || (a == 0 && b < 0)) return false; da = b / q; db = -a / q; return true; }
    if (f == "hypot") { LD q = std::sqrt(a * a + b * b); if (q == 0) return false; da = a / q; db = b / q; return true; }
    if (f == "nextafter") { da = 1; db = 0; return true; }
    if (f == "fmod") { if (b == 0) return false; da = 1; db = -std::round((a - std::fmod(a, b)) / b); return std::fmod(a, b) != 0; }
    if (f == "remainder" || f == "remquo")
    {
        if (b == 0) return false;
        LD r = std::remainder(a, b);
        da = 1;
        db = -std::round((a - r) / b);
        return std::fabs(r) < std::fabs(b) / 2;
    }
    if (f == "copysign")
    {
        if (a == 0) return false;
        LD sb = std::signbit(b) ? -1 : 1, sa = a < 0 ? -1 : 1;
        da = sa * sb;
        return true;
    }
    if (f == "max" || f == "fmax") { da = a > b ? 1 : a < b ? 0 : 0.5L; db = 1 - da; return true; }
    if (f == "min" || f == "fmin") { da = a < b ? 1 : a > b ? 0 : 0.5L; db = 1 - da; return true; }
    auto sabs = [](LD x, LD c, LD& dx, LD& dc) {
        if (std::fabs(x) > c) { dx = x > 0 ? 1 : -1; dc = 0; return; }
        LD u = std::fabs(x);
        dx = (x < 0 ? -1 : 1) * (4 * u / c - 3 * u * u / (c * c));
        dc = -2 * u * u / (c * c) + 2 * u * u * u / (c * c * c);
    };
    LD dx, dc;
    if (f == "smooth_abs") { sabs(a, b, da, db); return b > 0; }
    if (f == "smooth_abs0") { sabs(a, T(0.001), da, dc); return true; }
    if (f == "smooth_max" || f == "smooth_max0") { sabs(a - b, f == "smooth_max" ? T(0.25) : T(0.001), dx, dc); da = 0.5L * (1 + dx); db = 0.5L * (1 - dx); return true; }
    if (f == "smooth_min" || f == "smooth_min0") { sabs(a - b, f == "smooth_min" ? T(0.25) : T(0.001), dx, dc); da = 0.5L * (1 - dx); db = 0.5L * (1 + dx); return true; }
    if (f == "smooth_maxc") { sabs(a - T(0.25), b, dx, dc); da = 0.5L * (1 + dx); db = 0.5L * dc; return b > 0; }
    if (f == "smooth_minc") { sabs(T(0.25) - a, b, dx, dc); da = 0.5L * (1 + dx); db = -0.5L * dc; return b > 0; }
    if (f == "pow")
    {
        // constant exponent / base cases are handled by the caller through the mask
        if (a > 0) { da = b * std::pow(a, b - 1); db = std::log(a) * std::pow(a, b); return true; }
        if (a == 0 && b > 1) { da = db = 0; return true; }
        if (a == 0 && b == 1) { da = 1; db = 0; return true; }
        if (a == 0 && b == 0) { da = 0; return true; }
        if (a == 0 && b > 0) { return false; }
        if (a < 0 && b == std::floor(b)) { da = b == 0 ? 0 : b * std::pow(a, b - 1); return true; }  // d/da only
        return false;
    }
    return false;
}

static T wide(eng::Ctx& c, int emax)
{
    return std::ldexp(T(c.real(0.5, 1)) * (c.chance(50) ? -1 : 1), int(c.range(-emax, emax)));
}
static T gen(eng::Ctx& c)
{
    switch (c.below(5))
    {
        case 0: return T(c.range(-8, 8));
        case 1: return T(c.range(-40, 40)) / 8;
        case 2: return T(c.sreal(4));
        case 3: return wide(c, 10);
        default: return wide(c, sizeof(T) == 8 ? 60 : 16);
    }
}
// operands in the domain of the function
static void operands(eng::Ctx& c, const std::string& f, In& in)
{
    in.a = gen(c);
    in.b = c.chance(12) ? in.a : gen(c);
    in.n = int(c.range(-9, 9));
    auto unit = [&] { return c.chance(20) ? T(1 - std::ldexp(T(c.real(0.5, 1)), -int(c.range(1, 12)))) * (c.chance(50) ? 1 : -1) : T(c.sreal(0.999)); };
    if (f == "asin" || f == "acos" || f == "atanh") in.a = unit();
    if (f == "acosh") in.a = 1 + (c.chance(40) ? std::ldexp(T(c.real(0.5, 1)), -int(c.range(0, 8))) : std::fabs(gen(c)) + T(0.01));
    if (f == "log" || f == "log2" || f == "log10" || f == "sqrt") in.a = std::fabs(in.a) + (in.a == 0);
    if (f == "log1p") in.a = c.chance(30) ? T(-1) + std::ldexp(T(c.real(0.5, 1)), -int(c.range(0, 12))) : std::fabs(in.a);
    if (f == "cbrt" && in.a == 0) in.a = 1;
    if (f == "exp" || f == "expm1" || f == "sinh" || f == "cosh") in.a = T(c.sreal(sizeof(T) == 8 ? 300 : 40));
    if (f == "exp2") in.a = T(c.sreal(sizeof(T) == 8 ? 500 : 60));
    if (f == "erf" || f == "erfc") in.a = T(c.sreal(5));
    if (f == "tan" || f == "sin" || f == "cos") in.a = c.chance(70) ? T(c.sreal(7)) : T(c.sreal(200));
    if (f == "pown") { if (c.chance(30)) in.n = int(c.range(-30, 30)); if (std::fabs(in.a) > 100 || std::fabs(in.a) < T(0.02)) in.a = T(c.sreal(3)); if (sizeof(T) == 4 && std::abs(in.n) > 12) in.n /= 3; if (in.a != 0 && std::fabs(in.a) < T(0.05)) in.a = T(0.5); }
    if (f == "ldexp" || f == "scalbn") { if (c.chance(50)) in.n = int(c.range(-60, 60)); else if (sizeof(T) == 8 && c.chance(60)) in.n = int(c.range(-900, 900)); }
    if (f == "frexp") { if (in.a == 0) in.a = T(0.75); if (c.chance(30)) in.a = wide(c, sizeof(T) == 8 ? 1000 : 120); }
    if (f == "smooth_abs" || f == "smooth_maxc" || f == "smooth_minc")
    {
        in.b = std::ldexp(T(c.real(0.5, 1)), int(c.range(-8, 3)));
        if (c.chance(60)) in.a = T(c.sreal(1.5)) * in.b + (f == "smooth_abs" ? T(0) : T(0.25));
    }
    if (f == "smooth_abs0" && c.chance(70)) in.a = T(c.sreal(0.002));
    if (f.compare(0, 10, "smooth_max") == 0 || f.compare(0, 10, "smooth_min") == 0)
        if (f != "smooth_maxc" && f != "smooth_minc" && c.chance(60)) in.b = in.a + T(c.sreal(f.back() == '0' ? 0.002 : 0.5));
    if (f == "pow")
    {
        if (c.chance(60)) in.a = std::fabs(in.a);
        if (c.chance(8)) in.a = 0;
        if (c.chance(8)) in.b = 0;
        if (c.chance(30)) in.b = T(c.range(-6, 6));
        if (in.a != 0 && (std::fabs(in.a) > 50 || std::fabs(in.a) < T(0.02))) in.a = T(c.real(0.1, 3)) * (in.a < 0 ? -1 : 1);
        if (std::fabs(in.b) > 12) in.b = T(c.sreal(4));
    }
    if (f == "fmod" || f == "remainder" || f == "remquo")
    {
        if (in.b == 0) in.b = T(0.5);
        if (c.chance(40)) in.a = in.b * T(c.sreal(40));
        if (c.chance(20)) in.a = in.b * T(c.sreal(sizeof(T) == 8 ? 1e7 : 1e3));
    }
    if ((f == "div" || f == "diveq") && in.b == 0) in.b = 1;
}
ENG_PROP(partials, 1)
{
    static bool init = (fillTable(), true);
    (void)init;
    const Fn& f = table()[size_t(c.below(table().size()))];
    const std::string& n = f.name;
    In in;
    operands(c, n, in);
    c.label(n.c_str());
    c.log("%s a=%.17g b=%.17g n=%d", n.c_str(), double(in.a), double(in.b), in.n);
    int tested = 0;
    bool nz = false;
    T seed = c.chance(50) ? T(1) : T(c.range(1, 9)) / 4 * (c.chance(50) ? 1 : -1);
    for (auto& r : f.rows)
    {
        if (!r.fits(in))
            continue;
        In q = in;
        if (r.mask == 4)
            q.b = q.a;
        LD da, db;
        int need = r.mask;
        // in forward mode a variable with zero tangent still contributes 0 * partial, which has to exist
        if (!is_adj_::adj && std::strstr(r.form, "passive"))
            need = 3;
        if (!dref(n, q.a, q.b, q.n, da, db))
        {
            // constant-operand special cases of pow
            if (n == "pow" && need == 2 && q.a == 0 && q.b > 0)
                da = db = 0;
            else
                continue;
        }
        else if (n == "pow" && q.a <= 0)
        {
            if (q.a < 0 && need != 1)
                continue;
            if (q.a == 0 && (need == 4 || (q.b == 0 && need != 1) || (need == 2 && !(q.b > 0))))
                continue;
            if (q.a == 0 && need == 3 && !(q.b > 1))
                continue;
        }
        if (n == "copysign" && need == 4)
            continue;
        if (n == "pow" && need == 4 && std::fabs(q.a) > 12)
            continue;  // out of range
        if (n == "copysign" && need == 2 && q.b == 0)
            continue;
        need = r.mask;
        Out o = Ev::run(r, q, seed);
        ++tested;
        // tolerance: rounding of the result, of the operands (backward error) and of the value
        LD v = o.v;
        auto tolFor = [&](int which, LD d) {
            LD t = 60 * EPS * std::fabs(d) + 1e-290L * (sizeof(T) == 8) + 1e-36L;
            for (int k = 0; k < 4; ++k)
            {
                LD ea = q.a, eb = q.b;
                ea *= 1 + 8 * EPS * ((k & 1) ? 1 : -1);
                eb *= 1 + 8 * EPS * ((k & 2) ? 1 : -1);
                LD xa, xb;
                if (n != "fmod" && n != "remainder" && n != "remquo" && n != "frexp" && n != "floor" && n != "ceil" && n != "trunc" && n != "round" && n != "max" && n != "min" && n != "fmax" && n != "fmin" && n != "pow" && dref(n, ea, eb, q.n, xa, xb))
                    t += 2 * std::fabs((which == 0 ? xa : xb) - d);
            }
            if (n == "pow") t += 200 * EPS * (std::fabs(d) + std::fabs(v)) * (1 + std::fabs(LD(q.b)));
            if (n == "tanh" || n == "erf" || n == "erfc" || n.compare(0, 6, "smooth") == 0 || n == "tan") t += 64 * EPS;
            return t * std::fabs(LD(seed));
        };
        if (n == "acosh" || n == "asin" || n == "acos" || n == "atanh" || n == "log1p") {}
        LD wa = seed * da, wb = seed * db;
        if (need == 4)
        {
            LD w = wa + wb, t = tolFor(0, da) + tolFor(1, db) + 60 * EPS * (std::fabs(wa) + std::fabs(wb));
            if (!(std::fabs(LD(o.da) - w) <= t))
                c.fail("d/dx %s(x,x) at %.17g: got %.17g, mathematical derivative %.17Lg (seed %g)", n.c_str(), double(q.a), double(o.da), w, double(seed));
            nz |= w != 0;
            continue;
        }
        if (need & 1)
        {
            if (!(std::fabs(LD(o.da) - wa) <= tolFor(0, da)))
                c.fail("d/da %s(%s) at a=%.17g b=%.17g n=%d: got %.17g, mathematical derivative %.17Lg (seed %g)", n.c_str(), r.form, double(q.a), double(q.b), q.n, double(o.da), wa, double(seed));
            nz |= wa != 0;
        }
        else if (o.da != 0)
            c.fail("%s(%s) reports derivative %.17g for an operand that is not there", n.c_str(), r.form, double(o.da));
        if (need & 2)
        {
            if (n == "copysign") wb = 0;
            if (!(std::fabs(LD(o.db) - wb) <= tolFor(1, db)))
                c.fail("d/db %s(%s) at a=%.17g b=%.17g n=%d: got %.17g, mathematical derivative %.17Lg (seed %g)", n.c_str(), r.form, double(q.a), double(q.b), q.n, double(o.db), wb, double(seed));
            nz |= wb != 0;
        }
        else if (o.db != 0)
            c.fail("%s(%s) reports derivative %.17g for an operand that is not there", n.c_str(), r.form, double(o.db));
    }
    if (tested >= 1 && nz)
        c.nontrivial();
}

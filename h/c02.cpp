// C02: forward-mode tangents of random programs after every statement.
#include "common.hpp"
typedef xad::fwd<T>::active_type AD;
typedef ref::Jet<T, 1, 1> J;

static void checkAll(eng::Ctx& c, prog::Exec<AD, T>& ex, prog::Exec<J, T>& ej, int i)
{
    for (size_t k = 0; k < ex.total(); ++k)
    {
        const AD& v = ex.at(int(k));
        J& j = ej.at(int(k));
        double got = double(xad::derivative(v));
        if (j.constant() && got != 0)
            c.fail("variable %zu holds a constant after statement %d but carries derivative %.17g", k, i, got);
        if (double(v.getDerivative()) != got)
            c.fail("getDerivative differs from derivative()");
        if (!close(got, j.d(0), j.md(0)))
            c.fail("derivative of variable %zu after statement %d: got %.17g, reference %.17g (scale %.3g)", k, i, got, (double)j.d(0), (double)j.md(0));
    }
}
// f32/f64 programs may move, swap and sort the inputs as well: the tangent is part of the object
ENG_PROP(tangent, 1)
{
    prog::GenCfg g;
    g.nin = int(c.range(1, 4));
    g.moveInputs = c.chance(50);
    std::vector<AD> x;
    std::vector<J> jx;
    for (int i = 0; i < g.nin; ++i)
    {
        T v = T(c.sreal(3)), d = c.chance(40) ? T(1) : T(c.sreal(2));
        switch (c.below(3))
        {
            case 0:
                x.push_back(AD(v));
                xad::derivative(x.back()) = d;
                break;
            case 1:
                x.push_back(AD(v));
                x.back().setDerivative(d);
                break;
            default: x.push_back(AD(v, d));
        }
        jx.push_back(J::input(v, 0));
        jx.back().c[1] = d;
        jx.back().m[1] = std::fabs(d);
        c.log("input %d = %.9g tangent %.9g", i, double(v), double(d));
    }
    prog::GenState st{g.nin};
    auto ops = prog::gen(c, g, st, 1, 30);
    prog::logOps(c, ops);
    prog::Exec<AD, T> ex(x);
    prog::Exec<J, T> ej(jx);
    ex.movesInputs = ej.movesInputs = true;
    checkAll(c, ex, ej, -1);
    bool active = false;
    for (size_t i = 0; i < ops.size(); ++i)
    {
        c.label(prog::cname(ops[i].code));
        ex.step(ops[i]);
        ej.step(ops[i]);
        syncValues(c, ex, ej, i);
        checkAll(c, ex, ej, int(i));
        for (size_t k = size_t(g.nin); k < ej.total(); ++k) active |= ej.at(int(k)).d(0) != 0;
        if (c.chance(4))
        {
            // a variable may be re-seeded at any time
            int r = int(c.below(ex.total()));
            T d = T(c.sreal(2));
            c.log("re-seed variable %d with %.9g", r, double(d));
            xad::derivative(ex.at(r)) = d;
            ej.at(r).c[1] = d;
            ej.at(r).m[1] = std::fabs(d);
        }
    }
    if (active && ops.size() >= 3)
        c.nontrivial();
}

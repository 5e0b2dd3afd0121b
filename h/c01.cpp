// C01: adjoint gradients of random programs against the reference jets.
#include "common.hpp"
typedef xad::adj<T> mode;
typedef mode::active_type AD;
typedef mode::tape_type tape_t;
static const int NV = 4;
typedef ref::Jet<T, NV, 1> J;

ENG_PROP(gradient, 1)
{
    prog::GenCfg g;
    g.nin = int(c.range(1, NV));
    g.writeInputs = c.chance(50);
    tape_t tape;
    std::vector<AD> x;
    std::vector<J> jx;
    for (int i = 0; i < g.nin; ++i)
    {
        T v = T(c.sreal(3));
        x.push_back(AD(v));
        jx.push_back(J::input(v, i));
    }
    prog::GenState st{g.nin};
    auto ops = prog::gen(c, g, st, 1, 30);
    for (size_t i = 0; i < x.size(); ++i) c.log("input %zu = %.9g", i, double(xad::value(x[i])));
    prog::logOps(c, ops);
    switch (c.below(4))
    {
        case 0: tape.registerInputs(x); break;
        case 1: tape.registerInputs(x.begin(), x.end()); break;
        default:
            for (auto& v : x) tape.registerInput(v);
    }
    tape.newRecording();
    prog::Exec<AD, T> ex(x);
    prog::Exec<J, T> ej(jx);
    bool active = false;
    for (size_t i = 0; i < ops.size(); ++i)
    {
        c.label(prog::cname(ops[i].code));
        ex.step(ops[i]);
        ej.step(ops[i]);
        syncValues(c, ex, ej, i);
    }
    // seeds
    int nout = int(c.range(1, 3));
    std::vector<std::pair<int, T>> outs;
    for (int k = 0; k < nout; ++k)
    {
        int r = int(ex.total() - 1 - c.below(ex.total()));
        T w = c.chance(30) ? T(1) : T(c.sreal(2));
        outs.push_back({r, w});
        c.log("output: variable %d seeded with %.9g", r, double(w));
        if (c.chance(80))
            tape.registerOutput(ex.at(r));
    }
    // copies of the outputs, registered together
    std::vector<AD> y;
    bool together = c.chance(25);
    if (together)
    {
        for (auto& o : outs) y.push_back(ex.at(o.first));
        if (c.chance(50))
            tape.registerOutputs(y);
        else
            tape.registerOutputs(y.begin(), y.end());
        for (size_t k = 0; k < outs.size(); ++k) xad::derivative(y[k]) = outs[k].second;
    }
    for (auto& o : outs)
        if (together)
            break;
        else if (ex.at(o.first).shouldRecord())
            xad::derivative(ex.at(o.first)) += o.second;
        else if (!ej.at(o.first).constant())
            c.fail("variable %d depends on the inputs but is not on the tape", o.first);
        else
            tape.registerOutput(ex.at(o.first)), xad::derivative(ex.at(o.first)) += o.second;
    tape.computeAdjoints();
    for (int i = 0; i < g.nin; ++i)
    {
        long double want = 0, S = 0;
        for (auto& o : outs)
        {
            want += o.second * ej.at(o.first).d(i);
            S += std::fabs((long double)o.second) * ej.at(o.first).md(i);
        }
        if (want != 0)
            active = true;
        double got = double(xad::derivative(x[size_t(i)]));
        checkD<J>(c, "adjoint of input", i, got, want, S);
    }
    if (active && ops.size() >= 3)
        c.nontrivial();
}

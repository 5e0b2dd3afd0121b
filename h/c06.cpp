// C06: seeding and propagation on one recording: reference tape, linearity, accumulation, repeatability.
#include "world.hpp"
using namespace world;

static int setup(eng::Ctx& c, World& w, TP& tape, int maxOps)
{
    int nin = int(c.range(1, 4));
    bool lateInput = c.chance(20);
    for (int i = 0; i < nin; ++i) w.addInput(double(c.range(-9, 9)) * (w.ints ? 1 : 0.25));
    if (!lateInput || c.chance(50))
        w.newRecording();
    Weights W;
    w.run(genOps(c, W, maxOps));
    (void)tape;
    return nin;
}
static double seedVal(eng::Ctx& c, bool ints)
{
    double v = double(c.range(-4, 4));
    return ints ? v : v * 0.375 + 0.25;
}

ENG_PROP(reference, 3)
{
    TP tape;
    World w(c, &tape);
    w.ints = c.chance(60);
    w.m.exact = w.ints;
    w.m.init = false;
    setup(c, w, tape, 40);
    int rb = 0, seeds = 0;
    for (int n = 0; n < 14; ++n)
    {
        if (n && !c.chance(88))
            break;
        switch (c.weighted({6, 4, 1, 2}))
        {
            case 0:
            {
                size_t i = w.vars.size() - 1 - c.below(w.vars.size());
                int way = int(c.below(12));
                bool add = c.chance(40);
                double v = seedVal(c, w.ints);
                c.log("seed v%zu %s= %g (way %d)", i, add ? "+" : "", v, way);
                w.write(i, way, v, add);
                ++seeds;
                break;
            }
            case 1:
                if (w.m.init)
                {
                    c.log("computeAdjoints");
                    tape.computeAdjoints();
                    w.m.rollback(0);
                    ++rb;
                }
                break;
            case 2:
                c.log("clearDerivatives");
                tape.clearDerivatives();
                w.m.clearD();
                break;
            default: c.log("read all"); w.checkAll("reading back", int(c.below(7)));
        }
    }
    if (w.m.init)
    {
        tape.computeAdjoints();
        w.m.rollback(0);
        ++rb;
    }
    w.checkAll("at the end", int(c.below(7)));
    if (rb >= 2 && seeds >= 2 && w.m.st.size() >= 3)
        c.nontrivial();
}

ENG_PROP(repeat, 2)
{
    TP tape;
    World w(c, &tape);
    w.ints = false;
    w.m.exact = false;
    int nin = setup(c, w, tape, 30);
    // seeds s and t for every live variable
    size_t n = w.vars.size();
    std::vector<double> s(n), t(n);
    for (size_t i = 0; i < n; ++i)
    {
        w.write(i, int(c.below(12)), 0, false);
        s[i] = c.chance(40) ? seedVal(c, false) : 0;
        t[i] = c.chance(40) ? seedVal(c, false) : 0;
    }
    auto run = [&](const std::vector<double>& q, double f, bool clear) {
        if (clear)
            tape.clearDerivatives(), w.m.clearD();
        for (size_t i = 0; i < n; ++i) w.write(i, int(c.below(12)), q[i] * f, !clear && int(i) < nin);
        // a clear needs at least one derivative set, which the loop above did
        tape.computeAdjoints();
        w.m.rollback(0);
        std::vector<double> r;
        for (size_t i = 0; i < n; ++i) r.push_back(w.read(i, int(c.below(7))));
        return r;
    };
    auto a = run(s, 1, true);
    for (size_t i = 0; i < n; ++i)
        if (!w.m.ok(w.vars[i].s, a[i]))
            c.fail("derivative of v%zu is %.17g, the reference tape gives %.17g", i, a[i], w.m.D[size_t(w.vars[i].s)]);
    std::vector<double> M;
    for (size_t i = 0; i < n; ++i) M.push_back(w.m.M[size_t(w.vars[i].s)]);
    auto b = run(t, 1, true);
    for (size_t i = 0; i < n; ++i) M[i] += w.m.M[size_t(w.vars[i].s)];
    int reps = int(c.range(1, 3));
    bool nz = false;
    for (int k = 0; k < reps; ++k)
    {
        auto a2 = run(s, 1, true);
        for (size_t i = 0; i < n; ++i)
        {
            nz = nz || a[i] != 0;
            if (memcmp(&a2[i], &a[i], sizeof(double)))
                c.fail("repetition %d: derivative of v%zu is %.17g, it was %.17g before", k, i, a2[i], a[i]);
        }
        auto d = run(s, 4, true);
        for (size_t i = 0; i < n; ++i)
            if (d[i] != 4 * a[i] && std::fabs(a[i]) > (sizeof(T) == 8 ? 1e-290 : 1e-30) && std::fabs(a[i]) < 1e30)
                c.fail("seeds times 4: derivative of v%zu is %.17g, expected %.17g", i, d[i], 4 * a[i]);
    }
    std::vector<double> st(n);
    for (size_t i = 0; i < n; ++i) st[i] = s[i] + t[i];
    auto ab = run(st, 1, true);
    for (size_t i = 0; i < n; ++i)
        if (std::fabs(ab[i] - (a[i] + b[i])) > RTOL * M[i] + 1e-30)
            c.fail("sum of seeds: derivative of v%zu is %.17g, expected %.17g", i, ab[i], a[i] + b[i]);
    // accumulation: s, then t on top
    run(s, 1, true);
    auto acc = run(t, 1, false);
    for (int i = 0; i < nin; ++i)
        if (!w.m.ok(w.vars[size_t(i)].s, acc[size_t(i)]))
            c.fail("second rollback on top of the first: derivative of input v%d is %.17g, expected %.17g", i, acc[size_t(i)],
                   w.m.D[size_t(w.vars[size_t(i)].s)]);
    if (nz && w.m.st.size() >= 3)
        c.nontrivial();
}

// C07: a recording on a used tape against the same recording on a fresh one, bit for bit.
#include "world.hpp"
using namespace world;

struct Start
{
    struct V
    {
        double v;
        bool reg, input;
    };
    std::vector<V> v;
};
static void finish(World& w, Player& p)
{
    // a final seeding and rollback, so that every recording is differentiated
    if (w.vars.empty())
        return;
    for (unsigned i = 0; i < 3; ++i) p.seed(i * 5, int(i), 1.0 + i, true);
    p.full();
    p.readAll(0);
}

ENG_PROP(used_fresh, 1)
{
    bool ints = c.chance(50);
    std::unique_ptr<TP> used(new TP);
    std::unique_ptr<World> w(new World(c, used.get()));
    w->ints = ints;
    w->m.exact = ints;
    // history
    ScriptCfg g;
    g.ext = c.chance(50);
    g.newrec = c.chance(50);
    g.nest = c.chance(40);
    g.deep = int(c.below(3));
    g.w[A_FULL] = 3;
    int nin = int(c.range(1, 3));
    for (int i = 0; i < nin; ++i) w->addInput(double(c.range(-9, 9)) * (ints ? 1 : 0.25));
    if (c.chance(70))
        w->newRecording();
    Player p(*w);
    p.play(genScript(c, g));
    int rolled = p.rollbacks;
    size_t hist = w->m.st.size();
    // how the history ends
    int end = c.weighted({3, 3, 2, 2, 2});
    switch (end)
    {
        case 0: break;
        case 1:
            c.log("seeds left behind");
            for (unsigned i = 0; i < 3; ++i) p.seed(unsigned(c.below(24)), int(i), double(c.range(1, 4)), true);
            break;
        case 2:
            if (!w->vars.empty())
            {
                c.log("rollback right before");
                p.seed(unsigned(c.below(24)), 0, 2, true);
                w->keepInvalid = true;
                w->computeAdjoints();
                w->keepInvalid = false;
                ++rolled;
            }
            break;
        case 3:
            if (!w->vars.empty())
            {
                c.log("partial rollback right before");
                p.seed(unsigned(c.below(24)), 0, 2, true);
                w->keepInvalid = true;
                if (p.pos.empty())
                    p.save();
                auto q = p.pos[c.below(p.pos.size())];
                w->computeAdjointsTo(q.p, q.n);
                w->keepInvalid = false;
                ++rolled;
            }
            break;
        default:
            w->ext(c);
            w->run(genOps(c, g.ops, 5));
            w->throwIn = int(c.below(2));
            w->throwAt = int(c.below(3));
            if (!w->vars.empty())
                p.seed(unsigned(c.below(24)), 0, 2, true);
            if (w->m.init)
            {
                c.log("computeAdjoints, callback throws (at %d)", w->throwAt);
                try
                {
                    used->computeAdjoints();
                }
                catch (CallbackError&)
                {
                    c.label("exception in a callback");
                }
                ++rolled;
            }
            w->throwIn = -1;
    }
    // the next recording starts
    int mode = int(c.below(4));
    Start st;
    std::vector<double> k;
    if (mode == 0 || mode == 3)
    {
        // some variables stay
        for (size_t i = w->vars.size(); i-- > 0;)
            if (c.chance(mode == 0 ? 25 : 60))
                w->removeVar(i);
        for (auto& v : w->vars) st.v.push_back({v.v, v.s >= 0, v.input});
        c.log("newRecording, %zu variables stay", st.v.size());
    }
    else
    {
        bool fwd = c.chance(50);
        while (!w->vars.empty()) w->removeVar(fwd ? 0 : w->vars.size() - 1);
        if (mode == 1)
            c.log("all variables destroyed, newRecording");
        else
        {
            c.log("all variables destroyed, clearAll");
            used->clearAll();
            w->m.st.clear();
            w->m.clearD();
        }
    }
    nin = int(c.range(0, 3));
    for (int i = 0; i < nin; ++i) k.push_back(double(c.range(-9, 9)) * (ints ? 1 : 0.25));
    bool before = c.chance(70);   // inputs registered before the recording starts
    bool rec = mode != 2 || c.chance(50);
    bool writeInputs = c.chance(70);
    ScriptCfg g2;
    g2.ext = c.chance(40);
    g2.deep = int(c.below(2));
    g2.nest = c.chance(35);
    Script s2 = genScript(c, g2);
    auto last = [&](World& x, Player& q) {
        x.writeInputs = writeInputs;
        // the history left derivatives behind: they count for nothing once the recording starts
        x.m.clearD();
        if (before)
            for (double v : k) x.addInput(v);
        if (rec)
            x.newRecording();
        if (!before)
            for (double v : k) x.addInput(v);
        q.play(s2);
        finish(x, q);
    };
    c.log("--- on the used tape");
    Player pu(*w);
    last(*w, pu);
    size_t stmts = w->m.st.size();
    unsigned nst = used->getNumStatements(), nop = used->getNumOperations(), nv = used->getNumVariables();
    auto cl = w->cbLog;
    // keep the used tape in existence, inactive
    while (!w->vars.empty()) w->removeVar(w->vars.size() - 1);
    used->deactivate();
    c.log("--- on a fresh tape");
    TP fresh;
    World f(c, &fresh);
    f.ints = ints;
    f.m.exact = ints;
    for (auto& v : st.v)
    {
        int i = f.addPassive(v.v);
        f.vars[size_t(i)].input = v.input;
        if (v.reg)
            f.registerInput(i);
    }
    Player pf(f);
    last(f, pf);
    if (pu.out.size() != pf.out.size())
        c.fail("used tape: %zu results, fresh tape: %zu", pu.out.size(), pf.out.size());
    for (size_t i = 0; i < pu.out.size(); ++i)
        if (memcmp(&pu.out[i], &pf.out[i], sizeof(double)))
            c.fail("result %zu is %.17g on the used tape and %.17g on a fresh one", i, pu.out[i], pf.out[i]);
    if (rec && (nst != fresh.getNumStatements() || nop != fresh.getNumOperations()))
        c.fail("used tape has %u statements and %u operations, fresh tape %u and %u", nst, nop, fresh.getNumStatements(), fresh.getNumOperations());
    if (nv != fresh.getNumVariables())
        c.fail("used tape has %u variables, fresh tape %u", nv, fresh.getNumVariables());
    if (hist >= 2 && rolled >= 1 && pu.out.size() >= 4)
        c.nontrivial();
    (void)stmts;
}

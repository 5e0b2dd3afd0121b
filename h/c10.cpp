// C10: live registered variables never share or lose their derivative; the number of variables is right.
#include "world.hpp"
using namespace world;

ENG_PROP(slots, 1)
{
    TP tape;
    World w(c, &tape);
    w.ints = c.chance(70);
    w.m.exact = w.ints;
    w.slots = true;
    w.maxVars = size_t(c.pick(std::vector<int>{6, 12, 24, 60}));
    w.writeInputs = c.chance(80);
    ScriptCfg g;
    g.max = int(c.pick(std::vector<int>{20, 60, 150}));
    g.w[A_UNIQ] = 2;
    g.w[A_OP] = 30;
    g.ext = c.chance(50);
    g.deep = int(c.below(3));
    g.newrec = c.chance(50);
    g.nest = c.chance(40);
    // lifetimes of all kinds: few or many variables, mostly growing or mostly dying
    int style = int(c.below(4));
    int& del = g.ops.w[DEL];
    if (style == 1)
        del = 16;
    else if (style == 2)
        g.ops.w[NEWE] = 40, del = 30;
    else if (style == 3)
        g.ops.w[MOVEC] = 12, g.ops.w[MOVEA] = 12, g.ops.w[SWAP] = 8, g.ops.w[COPYC] = 20, del = 12;
    int nin = int(c.range(1, 3));
    for (int i = 0; i < nin; ++i) w.addInput(double(c.range(-9, 9)) * (w.ints ? 1 : 0.25));
    if (c.chance(30))
        for (auto& v : w.vars) v.input = false;
    if (c.chance(80))
        w.newRecording();
    Player p(w);
    p.play(genScript(c, g));
    p.unique();
    // the end: everything goes in random order
    unsigned h = unsigned(c.below(1000));
    while (!w.vars.empty())
    {
        w.removeVar(h % w.vars.size());
        h = h * 1664525u + 1013904223u;
        w.checkSlots();
    }
    if (p.uniques >= 2 && w.m.D.size() >= 6)
        c.nontrivial();
    if (w.inner)
        c.label("recordings inside callbacks");
    if (tape.getNumReusableSlotSections() > 2)
        c.label("several slot ranges");
}

// the bookkeeping of places alone, through the registration interface
ENG_PROP(registration, 1)
{
    TP tape;
    std::vector<unsigned> live;
    std::vector<AD> dummy;
    size_t high = 0;
    int pref = int(c.pick(std::vector<int>{50, 60, 80}));
    int n = int(c.pick(std::vector<int>{20, 80, 300}));
    int del = 0;
    for (int i = 0; i < n; ++i)
    {
        if (i && !c.chance(99))
            break;
        if (live.empty() || c.chance(pref))
        {
            int k = c.chance(10) ? int(c.range(2, 6)) : 1;
            for (; k > 0; --k)
            {
                unsigned s = tape.registerVariable();
                c.log("register -> %u", s);
                for (unsigned l : live)
                    if (l == s)
                        c.fail("slot %u was given out twice", s);
                live.push_back(s);
            }
        }
        else
        {
            int k = c.chance(10) ? int(c.range(2, 6)) : 1;
            for (; k > 0 && !live.empty(); --k)
            {
                // the latest, the oldest, a neighbour of the last freed, or any
                size_t j;
                switch (c.weighted({3, 1, 4}))
                {
                    case 0: j = live.size() - 1; break;
                    case 1: j = 0; break;
                    default: j = c.below(live.size());
                }
                c.log("unregister %u", live[j]);
                tape.unregisterVariable(live[j]);
                live.erase(live.begin() + long(j));
                ++del;
            }
        }
        high = std::max(high, live.size());
        if (tape.getNumVariables() != live.size())
            c.fail("the tape has %u variables, %zu are alive", tape.getNumVariables(), live.size());
    }
    if (high >= 4 && del >= 4)
        c.nontrivial();
}

// C14: misuse raises the documented exceptions at any time and changes nothing.
#include "world.hpp"
using namespace world;

struct Owned : xad::CheckpointCallback<TP>
{
    void computeAdjoint(TP*) override {}
};
struct Counts
{
    unsigned v, s, o, cb;
    size_t mem;
    unsigned pos;
    explicit Counts(const TP& t) : v(t.getNumVariables()), s(t.getNumStatements()), o(t.getNumOperations()), cb(t.getNumCallbacks()), mem(t.getMemory()), pos(t.getPosition()) {}
    bool operator==(const Counts& q) const { return v == q.v && s == q.s && o == q.o && cb == q.cb && mem == q.mem && pos == q.pos; }
};
template <class F>
static int thrown(F&& f)
{
    try
    {
        f();
    }
    catch (xad::TapeAlreadyActive& e)
    {
        return *e.what() ? 1 : -1;
    }
    catch (xad::OutOfRange& e)
    {
        return *e.what() ? 2 : -1;
    }
    catch (xad::DerivativesNotInitialized& e)
    {
        return *e.what() ? 3 : -1;
    }
    catch (xad::NoTapeException& e)
    {
        return *e.what() ? 4 : -1;
    }
    catch (xad::Exception&)
    {
        return 5;
    }
    catch (std::exception&)
    {
        return 6;
    }
    return 0;
}
static const char* const EX[] = {"nothing", "TapeAlreadyActive", "OutOfRange", "DerivativesNotInitialized", "NoTapeException", "xad::Exception", "another exception"};

struct Mis
{
    int kind, way;
    unsigned i;
    double v;
};
static const int NM = 7;
struct Misuser
{
    eng::Ctx& c;
    std::vector<std::vector<Mis>> at;  // per hook call, drawn first
    size_t n = 0;
    int done = 0;
    std::unique_ptr<TP> second;
    static unsigned maxSlot(const World& w)
    {
        unsigned m = 0;
        for (const World* p = &w; p; p = p->parent)
        {
            for (unsigned s : p->m.slot) m = std::max(m, s);
            for (auto& v : p->vars)
                if (v.s >= 0)
                    m = std::max(m, v.x->getSlot());
        }
        return m;
    }
    void expect(World& w, const char* what, int got, std::initializer_list<int> want, const Counts& before, bool clean = true)
    {
        ++done;
        if (std::find(want.begin(), want.end(), got) == want.end())
            c.fail("%s: %s thrown, expected %s", what, got < 0 ? "an exception without text" : EX[got], EX[*want.begin()]);
        if (TP::getActive() != w.tape || !w.tape->isActive())
            c.fail("%s changed the active tape", what);
        if (clean && !(Counts(*w.tape) == before))
        {
            Counts n(*w.tape);
            c.fail("%s changed the tape: %u %u %u %u %zu %u -> %u %u %u %u %zu %u (variables, statements, operations, callbacks, memory, position)", what, before.v, before.s,
                   before.o, before.cb, before.mem, before.pos, n.v, n.s, n.o, n.cb, n.mem, n.pos);
        }
    }
    void operator()(World& w)
    {
        if (n >= at.size())
            return;
        for (auto& q : at[n]) once(w, q);
        ++n;
    }
    void once(World& w, const Mis& q)
    {
        TP& t = *w.tape;
        const TP& ct = t;
        Counts before(t);
        w.c.log("misuse %d way %d", q.kind, q.way);
        switch (q.kind)
        {
            case 0:
            {
                int g;
                switch (q.way % 5)
                {
                    case 0: g = thrown([&] { TP x; }); break;
                    case 1: g = thrown([&] { TP x(true); }); break;
                    case 2: g = thrown([&] { TP x(false); x.activate(); }); break;
                    case 3: g = thrown([&] {
                        if (!second)
                            second.reset(new TP(false));
                        TP::setActive(second.get());
                    }); break;
                    default: g = thrown([&] {
                        if (!second)
                            second.reset(new TP(false));
                        second->activate();
                    });
                }
                if (second && second->isActive())
                    c.fail("the second tape is active after the exception");
                expect(w, "activating a second tape", g, {1}, before);
                break;
            }
            case 1:
                if (w.m.init)
                    return;
                expect(w, "computing adjoints before any derivative was set", thrown([&] { t.computeAdjoints(); }), {3}, before);
                break;
            case 2:
            {
                // slots behind all variables ever registered; far away, or the first one that does not exist
                unsigned s = maxSlot(w) + 70 + q.i % 1000;
                if (q.way & 16)
                    s = xad::AReal<T>::INVALID_SLOT - (q.i & 1);
                int g;
#ifndef NDEBUG
                int ways = 6;  // reading through a const tape is only checked in debug builds
#else
                int ways = 5;
#endif
                switch (q.way % ways)
                {
                    case 0: g = thrown([&] { t.derivative(s); }); break;
                    case 1: g = thrown([&] { t.derivative(s) = T(q.v); }); break;
                    case 2: g = thrown([&] { t.setDerivative(s, T(q.v)); }); break;
                    case 3: g = thrown([&] { t.getAndResetOutputAdjoint(s); }); break;
                    case 4: g = thrown([&] { t.incrementAdjoint(s, T(q.v)); }); break;
                    default: g = thrown([&] { t.getDerivative(s); });
                }
                expect(w, "addressing a slot that does not exist", g, {2}, before);
                break;
            }
            case 3:
            {
                if (!w.m.init)
                    return;
                // the slots behind the last variable up to the first one that does not exist
                unsigned s = maxSlot(w) + 1, e = s + 70;
                for (; s < e; ++s)
                {
                    int g;
                    // a place nobody owns may be written
                    switch (q.way % 4)
                    {
                        case 0: g = thrown([&] { t.derivative(s); }); break;
                        case 1: g = thrown([&] { t.incrementAdjoint(s, T(0)); }); break;
                        case 2: g = thrown([&] { T z = t.derivative(s); t.setDerivative(s, z); }); break;
                        default: g = thrown([&] { T z = t.getAndResetOutputAdjoint(s); t.derivative(s) = z; });
                    }
                    if (g)
                    {
                        expect(w, "addressing the first slot that does not exist", g, {2}, before, false);
                        break;
                    }
                }
                if (s == e)
                    c.fail("no exception for any of the 70 slots behind the last variable (slot %u)", s - 71);
                break;
            }
            case 4:
            {
#ifndef NDEBUG
                // in debug builds also reading through a const tape is checked
                unsigned s = maxSlot(w) + 70 + q.i % 1000;
                if (w.m.init)
                    expect(w, "reading a slot that does not exist through a const tape", thrown([&] { q.way & 1 ? ct.derivative(s) : ct.getDerivative(s); }), {2}, before);
                else if (!w.vars.empty())
                {
                    auto& v = w.vars[q.i % w.vars.size()];
                    if (v.s >= 0)
                    {
                        const AD& x = *v.x;
                        int g = q.way & 1 ? thrown([&] { ct.derivative(x.getSlot()); }) : thrown([&] { ct.getDerivative(x.getSlot()); });
                        expect(w, "reading a derivative through a const tape before any was set", g, {3}, before);
                    }
                }
#else
                (void)ct;
#endif
                break;
            }
            case 5:
            {
                unsigned have = t.getNumCallbacks();
                if (have)
                    return;
                int g = q.way & 1 ? thrown([&] { t.popCallback(); }) : thrown([&] { t.getLastCallback(); });
                expect(w, "taking a callback from an empty stack", g, {2}, before);
                if (q.way & 2)
                {
                    // and a valid one works
                    Owned o;
                    t.pushCallback(&o);
                    if (t.getLastCallback() != &o || t.getNumCallbacks() != 1)
                        c.fail("pushed callback not found");
                    t.popCallback();
                    expect(w, "pushing and popping a callback", 0, {0}, before);
                }
                break;
            }
            default:
            {
                if (w.vars.empty())
                    return;
                auto& v = w.vars[q.i % w.vars.size()];
                AD& x = *v.x;
                const AD& cx = x;
                unsigned slot = x.getSlot();
                t.deactivate();
                int g;
                switch (q.way % 9)
                {
                    case 0: g = thrown([&] { xad::derivative(x); }); break;
                    case 1: g = thrown([&] { xad::derivative(cx); }); break;
                    case 2: g = thrown([&] { x.getDerivative(); }); break;
                    case 3: g = thrown([&] { x.setDerivative(T(q.v)); }); break;
                    case 4: g = thrown([&] { x.getAdjoint(); }); break;
                    case 5: g = thrown([&] { x.setAdjoint(T(q.v)); }); break;
                    case 6: g = thrown([&] { x.derivative() = T(q.v); }); break;
                    case 7: g = thrown([&] { cx.derivative(); }); break;
                    default: g = thrown([&] { xad::derivative(x) += T(q.v); });
                }
                bool rec = x.shouldRecord();
                int g2 = thrown([&] { q.way & 16 ? t.activate() : TP::setActive(&t); });
                if (g2)
                    c.fail("activating the tape after an exception throws %s", EX[g2 < 0 ? 6 : g2]);
                expect(w, "touching a derivative without an active tape", g, {4}, before);
                if (rec != (v.s >= 0) || x.getSlot() != slot)
                    c.fail("touching a derivative without a tape registered the variable");
            }
        }
        static const char* const L[] = {"second tape", "no derivatives", "bad slot", "first bad slot", "const", "callback stack", "no tape"};
        w.c.label(L[q.kind]);
    }
};

ENG_PROP(misuse, 100)
{
    ScriptCfg g;
    g.max = c.pick(std::vector<int>{10, 25, 60});
    g.w[A_OP] = c.pick(std::vector<int>{6, 16});
    g.w[A_FULL] = 3;
    g.w[A_CLEAR] = 3;
    g.ext = c.chance(50);
    g.newrec = c.chance(50);
    g.nest = c.chance(40);
    g.deep = g.ext && c.chance(40) ? 1 : 0;
    bool ints = c.chance(70);
    int nin = int(c.range(0, 3));
    Script s = genScript(c, g);
    Misuser mu{c};
    int rate = c.pick(std::vector<int>{20, 60});
    for (size_t i = 0; i < s.size() * 2; ++i)
    {
        mu.at.emplace_back();
        while (c.chance(rate) && mu.at.back().size() < 4)
            mu.at.back().push_back({int(c.below(NM)), int(c.below(64)), unsigned(c.below(1000)), double(c.range(-5, 5))});
    }
    std::vector<double> out[2];
    std::vector<std::vector<unsigned>> count[2];
    int rollbacks = 0;
    size_t stm = 0;
    for (int k = 0; k < 2; ++k)
    {
        TP tape;
        World w(c, &tape);
        w.ints = ints;
        w.m.exact = ints;
        c.log(k ? "---- the same with misuse" : "---- without misuse");
        if (k)
            w.hook = [&](World& x) { mu(x); };
        for (int i = 0; i < nin; ++i) w.addInput(double(i + 1));
        w.newRecording();
        Player p(w);
        p.between = [&] { count[k].push_back({tape.getNumVariables(), tape.getNumStatements(), tape.getNumOperations(), tape.getPosition()}); };
        p.play(s);
        if (!w.vars.empty())
        {
            p.seed(0, 0, 1, false);
            p.full();
        }
        if (w.m.init)
            p.readAll(k * 0);
        out[k] = p.out;
        rollbacks = p.rollbacks;
        stm = std::max(stm, w.m.st.size());
    }
    if (out[0].size() != out[1].size())
        c.fail("%zu results with misuse, %zu without", out[1].size(), out[0].size());
    for (size_t i = 0; i < out[0].size(); ++i)
        if (memcmp(&out[0][i], &out[1][i], sizeof(double)))
            c.fail("result %zu is %.17g with misuse, %.17g without", i, out[1][i], out[0][i]);
    if (count[0] != count[1])
        c.fail("counts of variables, statements or operations differ with misuse");
    if (mu.done >= 3 && rollbacks >= 1 && out[0].size() >= 3)
        c.nontrivial();
}
// without any tape, and for tapes of several types
template <class S>
static void noTape(eng::Ctx& c)
{
    typedef xad::AReal<S> X;
    X a = 2.0, b = 3.0;
    X y = a * b + sin(a);
    const X& cy = y;
    if (thrown([&] { xad::derivative(y); }) != 4 || thrown([&] { xad::derivative(cy); }) != 4 || thrown([&] { y.setDerivative(S(1)); }) != 4)
        c.fail("derivative without a tape does not throw NoTapeException");
    xad::Tape<S> t(false), u;
    if (thrown([&] { t.activate(); }) != 1 || t.isActive() || !u.isActive())
        c.fail("activating a second tape does not throw TapeAlreadyActive");
    if (thrown([&] { u.computeAdjoints(); }) != 3)
        c.fail("computeAdjoints on an empty tape does not throw DerivativesNotInitialized");
    if (thrown([&] { u.popCallback(); }) != 2 || thrown([&] { u.getLastCallback(); }) != 2)
        c.fail("empty callback stack does not throw OutOfRange");
    if (thrown([&] { u.derivative(1000); }) != 2)
        c.fail("slot 1000 of an empty tape does not throw OutOfRange");
    u.registerInput(a);
    u.newRecording();
    y = a * b;
    u.registerOutput(y);
    if (thrown([&] { u.computeAdjoints(); }) != 3)
        c.fail("computeAdjoints without a seed does not throw DerivativesNotInitialized");
    xad::derivative(y) = S(1);
    u.computeAdjoints();
    if (!(xad::derivative(a) == b.value()))
        c.fail("wrong derivative after exceptions");
    u.deactivate();
    t.activate();
    if (!t.isActive() || u.isActive())
        c.fail("activation after deactivation");
    t.deactivate();
    u.activate();
}
ENG_PROP(types, 1)
{
    switch (c.below(6))
    {
        case 0: noTape<float>(c); break;
        case 1: noTape<double>(c); break;
        case 2: noTape<xad::FReal<double>>(c); break;
        case 3: noTape<xad::AReal<double>>(c); break;
        case 4: noTape<xad::FReal<float>>(c); break;
        default: noTape<xad::FReal<xad::FReal<double>>>(c);
    }
}

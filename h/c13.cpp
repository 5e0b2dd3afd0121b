// C13: activation, moves and destruction of tapes, with recordings on them.
#include "world.hpp"
using namespace world;
typedef std::conditional<sizeof(T) == 8, float, double>::type T2;

struct Owned : xad::CheckpointCallback<TP>
{
    int* alive;
    explicit Owned(int* a) : alive(a) { ++*alive; }
    ~Owned() override { --*alive; }
    void computeAdjoint(TP*) override {}
};
struct Holder
{
    std::unique_ptr<TP> tape;
    std::unique_ptr<World> w;
    std::unique_ptr<Player> p;
    bool movedFrom = false;
    int owned = 0;  // callbacks handed over
};

ENG_PROP(tapes, 1)
{
    std::vector<Holder> h;
    int active = -1;  // position in h
    int alive = 0;
    int moves = 0, recorded = 0, acts = 0;
    std::unique_ptr<xad::Tape<T2>> other;
    std::unique_ptr<xad::AReal<T2>> ox, oy;
    bool ints = c.chance(70);
    auto check = [&](const char* when) {
        TP* want = active < 0 ? nullptr : h[size_t(active)].tape.get();
        if (TP::getActive() != want)
            c.fail("%s: the active tape is not the expected one (expected %s)", when, want ? "a tape" : "none");
        for (size_t i = 0; i < h.size(); ++i)
            if (h[i].tape->isActive() != (int(i) == active))
                c.fail("%s: tape %zu says it is %sactive", when, i, h[i].tape->isActive() ? "" : "not ");
        int n = 0;
        for (auto& x : h)
        {
            n += x.owned;
            if (!x.movedFrom)
            {
                if (int(x.tape->getNumCallbacks()) != x.owned || x.tape->haveCallbacks() != (x.owned > 0))
                    c.fail("%s: a tape has %u callbacks, expected %d", when, x.tape->getNumCallbacks(), x.owned);
                unsigned live = 0;
                for (auto& v : x.w->vars) live += v.s >= 0;
                if (x.tape->getNumVariables() != live)
                    c.fail("%s: a tape has %u variables, %u are alive", when, x.tape->getNumVariables(), live);
            }
        }
        if (n != alive)
            c.fail("%s: %d callback objects exist, the tapes own %d", when, alive, n);
        if (other && xad::Tape<T2>::getActive() != (other->isActive() ? other.get() : nullptr))
            c.fail("%s: the tape of another type changed", when);
    };
    auto adopt = [&](Holder& x) {
        x.w->tape = x.tape.get();
    };
    auto fresh = [&](Holder& x) {
        x.p.reset();
        x.w.reset(new World(c, x.tape.get()));
        x.w->ints = ints;
        x.w->m.exact = ints;
        x.w->maxVars = 10;
        x.p.reset(new Player(*x.w));
    };
    // runs something with tape i active
    auto with = [&](size_t i, const std::function<void()>& f) {
        if (int(i) == active)
            return f();
        TP::deactivateAll();
        h[i].tape->activate();
        f();
        h[i].tape->deactivate();
        if (active >= 0)
            h[size_t(active)].tape->activate();
    };
    auto drop = [&](size_t i) {
        if (!h[i].movedFrom)
            with(i, [&] {
                while (!h[i].w->vars.empty()) h[i].w->removeVar(h[i].w->vars.size() - 1);
            });
    };
    auto create = [&](bool act) {
        Holder x;
        c.log("new tape %zu%s", h.size(), act ? ", activated" : "");
        bool threw = false;
        try
        {
            x.tape.reset(new TP(act));
        }
        catch (xad::TapeAlreadyActive&)
        {
            threw = true;
        }
        if (threw != (act && active >= 0))
            c.fail("creating a tape %s", threw ? "threw although none was active" : "did not throw although another one was active");
        if (threw)
            return;
        fresh(x);
        h.push_back(std::move(x));
        if (act)
            active = int(h.size()) - 1;
    };
    ScriptCfg g;
    g.max = 14;
    g.ext = true;
    g.newrec = c.chance(40);
    g.nest = c.chance(40);
    create(c.chance(70));
    int n = int(c.pick(std::vector<int>{10, 30}));
    for (int it = 0; it < n; ++it)
    {
        if (it && !c.chance(96))
            break;
        ++acts;
        if (h.empty())
        {
            create(c.chance(50));
            check("after creation");
            continue;
        }
        size_t i = c.below(h.size()), j = c.below(h.size());
        int op = c.weighted({10, 2, 3, 3, 4, 4, 3, 2, 2, 2, 2, 2});
        switch (op)
        {
            case 0:
                if (h[i].movedFrom)
                    break;
                if (active >= 0 && c.chance(60) && !h[size_t(active)].movedFrom)
                    i = size_t(active);
                c.log("on tape %zu%s:", i, int(i) == active ? "" : " (activated for it)");
                {
                    Script s = genScript(c, g);
                    double k = double(c.range(-9, 9));
                    bool nr = c.chance(50);
                    with(i, [&] {
                        if (h[i].w->vars.empty())
                        {
                            h[i].w->addInput(k);
                            if (nr)
                                h[i].w->newRecording(), h[i].p->pos.clear();
                        }
                        h[i].p->play(s);
                    });
                    ++recorded;
                }
                break;
            case 1:
                if (h.size() < 4)
                    create(c.chance(40));
                break;
            case 2:
            {
                if (h[i].movedFrom)
                    break;
                bool st = c.chance(30);
                c.log("activate tape %zu", i);
                bool threw = false;
                try
                {
                    if (st)
                        TP::setActive(h[i].tape.get());
                    else
                        h[i].tape->activate();
                }
                catch (xad::TapeAlreadyActive&)
                {
                    threw = true;
                }
                if (threw != (active >= 0))
                    c.fail("activating a tape %s", threw ? "threw although none was active" : "did not throw although a tape is active");
                if (!threw)
                    active = int(i);
                break;
            }
            case 3:
                if (c.chance(25))
                {
                    c.log("deactivateAll");
                    TP::deactivateAll();
                    active = -1;
                    break;
                }
                c.log("deactivate tape %zu", i);
                h[i].tape->deactivate();
                if (int(i) == active)
                    active = -1;
                break;
            case 4:
            {
                if (h[i].movedFrom)
                    break;
                bool keep = c.chance(50) && h.size() < 5;
                c.log("tape %zu move constructed into a new one%s", i, keep ? ", the old one stays" : "");
                std::unique_ptr<TP> nt(new TP(std::move(*h[i].tape)));
                std::swap(nt, h[i].tape);
                adopt(h[i]);
                if (keep)
                {
                    Holder x;
                    x.tape = std::move(nt);
                    x.movedFrom = true;
                    h.push_back(std::move(x));
                }
                ++moves;
                break;
            }
            case 5:
            {
                if (i == j || h[i].movedFrom)
                    break;
                c.log("tape %zu = move(tape %zu)", j, i);
                drop(j);
                *h[j].tape = std::move(*h[i].tape);
                alive += 0;
                h[j].w = std::move(h[i].w);
                h[j].p = std::move(h[i].p);
                h[j].owned = h[i].owned;
                h[i].owned = 0;
                h[j].movedFrom = false;
                h[i].movedFrom = true;
                adopt(h[j]);
                if (active == int(i))
                    active = int(j);
                else if (active == int(j))
                    active = -1;
                ++moves;
                break;
            }
            case 6:
            {
                if (i == j || h[i].movedFrom || h[j].movedFrom)
                    break;
                c.log("swap of tapes %zu and %zu", i, j);
                std::swap(*h[i].tape, *h[j].tape);
                std::swap(h[i].w, h[j].w);
                std::swap(h[i].p, h[j].p);
                std::swap(h[i].owned, h[j].owned);
                adopt(h[i]);
                adopt(h[j]);
                if (active == int(i))
                    active = int(j);
                else if (active == int(j))
                    active = int(i);
                ++moves;
                break;
            }
            case 7:
                c.log("tape %zu destroyed", i);
                drop(i);
                h[i].p.reset();
                h[i].w.reset();
                h.erase(h.begin() + long(i));
                if (active == int(i))
                    active = -1;
                else if (active > int(i))
                    --active;
                break;
            case 8:
                if (h[i].movedFrom)
                    break;
                if (h[i].owned && c.chance(40))
                {
                    c.log("callback popped off tape %zu", i);
                    auto* l = h[i].tape->getLastCallback();
                    h[i].tape->popCallback();
                    delete l;
                    h[i].owned--;
                }
                else
                {
                    c.log("callback pushed to tape %zu", i);
                    h[i].tape->pushCallback(new Owned(&alive));
                    h[i].owned++;
                }
                break;
            case 9:
                // a tape of another type comes, goes and records on its own
                if (!other)
                {
                    c.log("tape of another type");
                    other.reset(new xad::Tape<T2>);
                    ox.reset(new xad::AReal<T2>(T2(3)));
                    other->registerInput(*ox);
                    other->newRecording();
                    oy.reset(new xad::AReal<T2>(*ox * *ox));
                }
                else if (c.chance(50))
                {
                    other.reset(new xad::Tape<T2>(std::move(*other)));
                    *oy = *oy + *ox;
                }
                else
                {
                    other->registerOutput(*oy);
                    xad::derivative(*oy) = T2(1);
                    other->computeAdjoints();
                    T2 d = xad::derivative(*ox);
                    if (!(d >= T2(6)))
                        c.fail("tape of another type: derivative is %g", double(d));
                    oy.reset();
                    ox.reset();
                    other.reset();
                }
                break;
            case 10:
            {
                if (h[i].movedFrom)
                    break;
                c.log("self move of tape %zu", i);
                TP& t = *h[i].tape;
                TP& u = t;
                t = std::move(u);
                break;
            }
            default:
                // a moved-from tape goes, or gets a new life
                if (!h[i].movedFrom)
                    break;
                if (c.chance(50))
                {
                    c.log("moved-from tape %zu assigned an empty one", i);
                    *h[i].tape = TP(false);
                    h[i].movedFrom = false;
                    fresh(h[i]);
                    if (active == int(i))
                        active = -1;
                }
                else
                {
                    c.log("moved-from tape %zu destroyed", i);
                    h.erase(h.begin() + long(i));
                    if (active == int(i))
                        active = -1;
                    else if (active > int(i))
                        --active;
                }
        }
        check("after the operation");
    }
    // every recording still works where it ended up
    for (size_t i = 0; i < h.size(); ++i)
        if (!h[i].movedFrom && !h[i].w->vars.empty())
        {
            c.log("final rollback on tape %zu", i);
            with(i, [&] {
                for (unsigned k = 0; k < 2; ++k) h[i].p->seed(k * 3, int(k), 1.0 + k, true);
                h[i].p->full();
            });
        }
    oy.reset();
    ox.reset();
    other.reset();
    while (!h.empty())
    {
        drop(h.size() - 1);
        h.back().p.reset();
        h.back().w.reset();
        h.pop_back();
        if (active == int(h.size()))
            active = -1;
        check("at the end");
    }
    if (moves >= 1 && recorded >= 2)
        c.nontrivial();
}

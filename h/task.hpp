// What one thread (C12) or one build of the library (C11) is given to do: a task drawn beforehand, run with a list of numbers as its result.
#pragma once
#include <XAD/Hessian.hpp>
#include <XAD/Jacobian.hpp>
#include "allfns.hpp"
#include "drivers.hpp"
#include "world.hpp"
using namespace world;
typedef xad::FReal<T> FD;
typedef xad::AReal<FD> A2;
typedef xad::Tape<FD> TP2;

// what one thread does
struct Task
{
    int kind = 0;
    bool ints = true, wide = false;
    Script s;
    std::vector<double> k;
    std::vector<prog::Op> ops;
    std::shared_ptr<drv::ProgFn> fn;
    std::vector<int> acts;
};
static const char* const KINDS[] = {"recordings", "forward mode", "second order", "passive", "Jacobian", "Hessian", "tapes come and go", "all functions"};

static Task draw(eng::Ctx& c)
{
    Task t;
    t.kind = c.weighted({6, 2, 2, 1, 2, 1, 3, 2});
    t.ints = c.chance(50);
    int n = int(c.range(1, 4));
    for (int i = 0; i < n; ++i) t.k.push_back(t.kind == 0 ? double(c.range(-9, 9)) * (t.ints ? 1 : 0.25) : double(T(c.sreal(2))));
    switch (t.kind)
    {
        case 0:
        {
            ScriptCfg g;
            g.max = 25;
            g.ext = c.chance(50);
            g.newrec = c.chance(50);
            g.nest = c.chance(40);
            g.deep = int(c.below(2));
            t.s = genScript(c, g);
            break;
        }
        case 4: t.fn.reset(new drv::ProgFn(c, n, int(c.range(1, 3)))); break;
        case 5: t.fn.reset(new drv::ProgFn(c, n, 1)); break;
        case 7:
        {
            int m = int(c.range(3, 30));
            t.wide = c.chance(40);
            for (int i = 0; i < m; ++i) t.acts.push_back(int(c.below(allfns::N)));
            break;
        }
        case 6:
        {
            int m = int(c.range(2, 20));
            for (int i = 0; i < m; ++i) t.acts.push_back(int(c.below(64)));
            break;
        }
        default:
        {
            prog::GenCfg g;
            g.nin = n;
            prog::GenState st{n};
            t.ops = prog::gen(c, g, st, 1, 12);
        }
    }
    c.label(KINDS[t.kind]);
    return t;
}

typedef std::function<void()> Pause;
struct Out
{
    std::vector<double> v;
    void add(double x) { v.push_back(x); }
};

static void none(eng::Ctx& c, const char* when)
{
    if (TP::getActive() || TP2::getActive())
        c.fail("%s: a tape of another thread is visible as active", when);
}

static void run(eng::Ctx& c, const Task& t, const Pause& pause, Out& o)
{
    none(c, "at the start");
    pause();
    switch (t.kind)
    {
        case 0:
        {
            TP tape;
            World w(c, &tape);
            w.ints = t.ints;
            w.m.exact = t.ints;
            auto mine = [&]() {
                if (TP::getActive() != &tape || !tape.isActive())
                    c.fail("the tape activated in this thread is not the active one");
                pause();
                if (TP::getActive() != &tape || !tape.isActive())
                    c.fail("the tape activated in this thread is not the active one any more");
            };
            for (double k : t.k) w.addInput(k);
            w.newRecording();
            w.hook = [&](World&) { mine(); };
            Player p(w);
            p.play(t.s);
            if (!w.vars.empty())
            {
                for (unsigned i = 0; i < 3; ++i) p.seed(i * 5, int(i), 1.0 + i, true);
                mine();
                p.full();
                p.readAll(0);
            }
            o.v = p.out;
            o.add(tape.getNumStatements());
            o.add(tape.getNumOperations());
#ifndef TASK_PORTABLE  // depends on the reuse of slots
            o.add(tape.getNumVariables());
#endif
            break;
        }
        case 1:
        {
            std::vector<FD> x;
            for (size_t i = 0; i < t.k.size(); ++i)
            {
                x.push_back(FD(T(t.k[i])));
                xad::derivative(x.back()) = T(i + 1);
            }
            prog::Exec<FD, T> ex(x);
            for (auto& op : t.ops)
            {
                ex.step(op);
                pause();
            }
            for (size_t i = 0; i < ex.total(); ++i)
            {
                o.add(double(xad::value(ex.at(int(i)))));
                o.add(double(xad::derivative(ex.at(int(i)))));
            }
            break;
        }
        case 2:
        {
            TP2 tape;
            std::vector<A2> x;
            for (size_t i = 0; i < t.k.size(); ++i)
            {
                x.push_back(A2(T(t.k[i])));
                xad::derivative(xad::value(x.back())) = T(i + 1);
                tape.registerInput(x.back());
            }
            tape.newRecording();
            std::vector<A2> copy(x);
            prog::Exec<A2, T> ex(copy);
            for (auto& op : t.ops)
            {
                ex.step(op);
                pause();
                if (TP2::getActive() != &tape)
                    c.fail("the tape activated in this thread is not the active one");
            }
            A2 y = ex.at(int(ex.total()) - 1);
            tape.registerOutput(y);
            xad::derivative(y) = FD(1);
            pause();
            tape.computeAdjoints();
            pause();
            for (auto& q : x)
            {
                o.add(double(xad::value(xad::derivative(q))));
                o.add(double(xad::derivative(xad::derivative(q))));
            }
            ex.clear();
            break;
        }
        case 3:
        {
            std::vector<AD> x;
            for (double k : t.k) x.push_back(AD(T(k)));
            prog::Exec<AD, T> ex(x);
            for (auto& op : t.ops)
            {
                ex.step(op);
                pause();
            }
            for (size_t i = 0; i < ex.total(); ++i)
            {
                o.add(double(xad::value(ex.at(int(i)))));
                if (ex.at(int(i)).shouldRecord())
                    c.fail("a variable is on a tape, this thread has none");
            }
            break;
        }
        case 4:
        {
            std::vector<AD> x;
            for (double k : t.k) x.push_back(AD(T(k)));
            auto foo = [&](std::vector<AD>& v) {
                pause();
                return t.fn->run(v, [&](prog::Exec<AD, T>&) { pause(); });
            };
            auto J = xad::computeJacobian(x, std::function<std::vector<AD>(std::vector<AD>&)>(foo));
            for (auto& r : J)
                for (auto& e : r) o.add(double(e));
            break;
        }
        case 5:
        {
            std::vector<A2> x;
            for (double k : t.k) x.push_back(A2(T(k)));
            auto foo = [&](std::vector<A2>& v) -> A2 {
                pause();
                return t.fn->run(v, [&](prog::Exec<A2, T>&) { pause(); })[0];
            };
            auto H = xad::computeHessian(x, std::function<A2(std::vector<A2>&)>(foo));
            for (auto& r : H)
                for (auto& e : r) o.add(double(e));
            break;
        }
        case 7:
        {
            TP tape;
            for (size_t i = 0; i < t.acts.size(); ++i)
            {
                T k = T(t.k[i % t.k.size()]), k2 = T(t.k[(i + 1) % t.k.size()] + double(i));
                T a = T(0.05) + T(0.9) * std::fabs(std::sin(k)), b = T(0.07) + T(0.9) * std::fabs(std::cos(k2));
                if (t.wide)
                    a = k, b = k2;
                {
                    FD x = a, y = b;
                    xad::derivative(x) = T(1);
                    xad::derivative(y) = T(2);
                    std::vector<FD> r;
                    allfns::call<FD, T>(t.acts[i], x, y, r, o.v);
                    for (auto& e : r)
                    {
                        o.add(double(xad::value(e)));
                        o.add(double(xad::derivative(e)));
                    }
                }
                pause();
                AD x = a, y = b;
                tape.registerInput(x);
                tape.registerInput(y);
                tape.newRecording();
                std::vector<AD> r;
                allfns::call<AD, T>(t.acts[i], x, y, r, o.v);
                pause();
                for (auto& e : r)
                {
                    o.add(double(xad::value(e)));
                    tape.registerOutput(e);
                    xad::derivative(e) = T(1);
                }
                if (!r.empty())
                {
                    tape.computeAdjoints();
                    o.add(double(xad::derivative(x)));
                    o.add(double(xad::derivative(y)));
                }
                pause();
            }
            break;
        }
        default:
        {
            std::unique_ptr<TP> tp[3];
            TP* act = nullptr;
            for (int a : t.acts)
            {
                auto& q = tp[a % 3];
                switch (a / 3 % 7)
                {
                    case 0:
                        if (!q)
                        {
                            q.reset(new TP(act == nullptr));
                            if (!act)
                                act = q.get();
                        }
                        break;
                    case 1:
                        if (q && act != q.get())
                        {
                            bool threw = false;
                            try
                            {
                                q->activate();
                            }
                            catch (xad::TapeAlreadyActive&)
                            {
                                threw = true;
                            }
                            if (threw != (act != nullptr))
                                c.fail("activation of a tape while %s of this thread is active %s", act ? "another" : "none", threw ? "failed" : "succeeded");
                            if (!act)
                                act = q.get();
                        }
                        break;
                    case 2:
                        if (q)
                        {
                            q->deactivate();
                            if (act == q.get())
                                act = nullptr;
                        }
                        break;
                    case 3:
                        if (act == q.get())
                            act = nullptr;
                        q.reset();
                        break;
                    case 4:
                        TP::deactivateAll();
                        act = nullptr;
                        break;
                    case 5:
                        if (act)
                        {
                            AD x = T(a), y;
                            act->registerInput(x);
                            act->newRecording();
                            y = x * x;
                            pause();
                            act->registerOutput(y);
                            xad::derivative(y) = T(1);
                            act->computeAdjoints();
                            o.add(double(xad::derivative(x)));
                        }
                        break;
                    default:
                    {
                        auto& r = tp[(a + 1) % 3];
                        if (q && r && q != r)
                        {
                            bool wasAct = act == q.get();
                            if (act == r.get())
                                act = nullptr;
                            *r = std::move(*q);
                            q.reset();
                            if (wasAct)
                                act = r.get();
                        }
                    }
                }
                for (int rep = 0; rep < 2; ++rep)
                {
                    if (TP::getActive() != act)
                        c.fail("the active tape of this thread is %s", TP::getActive() ? "not the one activated" : "not active any more");
                    for (auto& p : tp)
                        if (p && p->isActive() != (p.get() == act))
                            c.fail("isActive of a tape of this thread is wrong");
                    if (!rep)
                        pause();
                }
                o.add(act ? 1 : 0);
            }
        }
    }
    pause();
    none(c, "at the end");
}


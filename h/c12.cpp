// C12: threads record and differentiate independently.
#include <atomic>
#include <condition_variable>
#include <mutex>
#include <thread>
#include "task.hpp"
// threads take turns as drawn
struct Baton
{
    std::mutex m;
    std::condition_variable cv;
    size_t turn = 0, n = 0, at = 0;
    long switches = 0;
    std::vector<char> alive;
    std::vector<unsigned> plan;
    void wait(size_t me)
    {
        std::unique_lock<std::mutex> l(m);
        cv.wait(l, [&] { return turn == me; });
    }
    void next()
    {
        // the next of those alive
        unsigned step = plan.empty() ? 1 : plan[at++ % plan.size()];
        size_t live = 0;
        for (char a : alive) live += a != 0;
        if (!live)
            return;
        size_t k = step % live, i = 0;
        for (;; ++i)
            if (alive[i] && k-- == 0)
                break;
        if (i != turn)
            ++switches;
        turn = i;
        cv.notify_all();
    }
    void pass(size_t me)
    {
        std::unique_lock<std::mutex> l(m);
        next();
        cv.wait(l, [&] { return turn == me; });
    }
    void leave(size_t me)
    {
        std::unique_lock<std::mutex> l(m);
        alive[me] = 0;
        next();
    }
};

static void guarded(eng::Ctx& c, const Task& t, const Pause& p, Out& o)
{
    try
    {
        run(c, t, p, o);
    }
    catch (std::exception& e)
    {
        c.fail("exception in a thread: %s", e.what());
    }
}

static void concurrent(eng::Ctx& c, bool turns)
{
    size_t n = size_t(c.range(2, 4));
    std::vector<Task> t;
    for (size_t i = 0; i < n; ++i) t.push_back(i && c.chance(25) ? t[0] : draw(c));
    bool mainTakesPart = c.chance(50), mainTape = !mainTakesPart && c.chance(60);
    // alone
    std::vector<Out> alone(n), got(n);
    for (size_t i = 0; i < n; ++i)
    {
        c.log("--- task %zu alone (%s)", i, KINDS[t[i].kind]);
        guarded(c, t[i], [] {}, alone[i]);
    }
    Baton b;
    if (turns)
    {
        int len = int(c.range(1, 40));
        for (int i = 0; i < len; ++i) b.plan.push_back(unsigned(c.below(12)));
    }
    b.n = n;
    b.alive.assign(n, 1);
    std::atomic<int> ready{0};
    std::unique_ptr<TP> mt;
    std::unique_ptr<AD> mx, my;
    if (mainTape)
    {
        mt.reset(new TP);
        mx.reset(new AD(T(3)));
        mt->registerInput(*mx);
        mt->newRecording();
        my.reset(new AD(*mx * *mx));
    }
    c.log("--- %zu tasks at the same time%s", n, turns ? ", taking turns" : "");
    std::vector<std::unique_ptr<eng::Ctx>> ctx;
    for (size_t i = 0; i < n; ++i)
    {
        ctx.emplace_back(new eng::Ctx);
        ctx.back()->sh = c.sh;
        ctx.back()->counting = false;
        ctx.back()->verbose = c.verbose && turns;
        ctx.back()->live = c.live && turns;
    }
    auto body = [&](size_t i) {
        Pause p;
        unsigned calls = 0;
        if (turns)
        {
            b.wait(i);
            p = [&b, i] { b.pass(i); };
        }
        else
        {
            ++ready;
            while (ready.load() < int(n)) std::this_thread::yield();
            p = [&calls, i] {
                if ((++calls + i) % 5 == 0)
                    std::this_thread::yield();
            };
        }
        guarded(*ctx[i], t[i], p, got[i]);
        if (turns)
            b.leave(i);
    };
    std::vector<std::thread> th;
    for (size_t i = mainTakesPart ? 1 : 0; i < n; ++i) th.emplace_back(body, i);
    if (mainTakesPart)
        body(0);
    else if (mainTape && !turns)
    {
        // the main thread goes on recording
        for (int i = 0; i < 20; ++i) *my = *my + *mx;
    }
    for (auto& x : th) x.join();
    for (size_t i = 0; i < n; ++i) c.trace += ctx[i]->trace;
    if (mainTape)
    {
        if (TP::getActive() != mt.get() || !mt->isActive())
            c.fail("the main thread's tape is not active any more");
        mt->registerOutput(*my);
        xad::derivative(*my) = T(1);
        mt->computeAdjoints();
        double want = 6 + (turns ? 0 : 20);
        if (double(xad::derivative(*mx)) != want)
            c.fail("the main thread's derivative is %.17g instead of %g", double(xad::derivative(*mx)), want);
    }
    size_t results = 0;
    for (size_t i = 0; i < n; ++i)
    {
        if (alone[i].v.size() != got[i].v.size())
            c.fail("task %zu gave %zu results alone, %zu next to others", i, alone[i].v.size(), got[i].v.size());
        for (size_t j = 0; j < alone[i].v.size(); ++j)
            if (memcmp(&alone[i].v[j], &got[i].v[j], sizeof(double)))
                c.fail("result %zu of task %zu (%s) is %.17g alone, %.17g next to others", j, i, KINDS[t[i].kind], alone[i].v[j], got[i].v[j]);
        results += alone[i].v.size() >= 2;
    }
    if (results >= 2 && (!turns || b.switches >= 3))
        c.nontrivial();
}

ENG_PROP(turns, 3) { concurrent(c, true); }
ENG_PROP(free_running, 2) { concurrent(c, false); }

// a recording that wanders from thread to thread
ENG_PROP(handover, 1)
{
    Task t;
    t.ints = c.chance(50);
    int n = int(c.range(1, 3));
    for (int i = 0; i < n; ++i) t.k.push_back(double(c.range(-9, 9)) * (t.ints ? 1 : 0.25));
    ScriptCfg g;
    g.max = 30;
    g.ext = c.chance(40);
    g.newrec = c.chance(50);
    g.nest = c.chance(40);
    t.s = genScript(c, g);
    int every = int(c.range(1, 6));
    std::vector<double> res[2];
    for (int r = 0; r < 2; ++r)
    {
        c.log("--- %s", r ? "handed from thread to thread" : "in one thread");
        c.counting = r == 0;
        TP tape(r == 0);
        World w(c, &tape);
        w.ints = t.ints;
        w.m.exact = t.ints;
        Player p(w);
        auto begin = [&] {
            for (double k : t.k) w.addInput(k);
            w.newRecording();
        };
        auto end = [&] {
            if (w.vars.empty())
                return;
            for (unsigned i = 0; i < 3; ++i) p.seed(i * 5, int(i), 1.0 + i, true);
            p.full();
            p.readAll(0);
        };
        auto there = [&](const std::function<void()>& f) {
            std::thread([&] {
                none(c, "in a new thread");
                tape.activate();
                f();
                tape.deactivate();
                none(c, "after deactivation");
            }).join();
            none(c, "in the main thread");
        };
        if (r == 0)
        {
            begin();
            p.play(t.s);
            end();
        }
        else
        {
            there(begin);
            for (size_t i = 0; i < t.s.size(); i += size_t(every))
                there([&] {
                    for (size_t j = i; j < t.s.size() && j < i + size_t(every); ++j) p.act(t.s[j]);
                });
            there(end);
            there([&] {
                while (!w.vars.empty()) w.removeVar(w.vars.size() - 1);
            });
        }
        res[r] = p.out;
    }
    c.counting = true;
    if (res[0].size() != res[1].size())
        c.fail("%zu results in one thread, %zu handed over", res[0].size(), res[1].size());
    for (size_t i = 0; i < res[0].size(); ++i)
        if (memcmp(&res[0][i], &res[1][i], sizeof(double)))
            c.fail("result %zu is %.17g in one thread, %.17g handed over", i, res[0][i], res[1][i]);
    if (t.s.size() >= 4 && res[0].size() >= 2)
        c.nontrivial();
}

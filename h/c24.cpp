// C24: callbacks are invoked, owned and released exactly once.
//
// One recording is a chain of statements s = s + w * x with callbacks in between.  A rollback seeded with
// ds = 1 accumulates the w of the statements it passed in dx, so that every callback can tell from dx between
// which statements it is invoked.
#include <XAD/XAD.hpp>
#include <deque>
#include <memory>
#include <set>
#include "engine.hpp"
#ifndef BASE_T
#define BASE_T double
#endif
typedef BASE_T T;
typedef xad::AReal<T> AD;
typedef xad::Tape<T> TP;

struct Thrown
{
};
struct Inner;
// what a callback does
struct Plan
{
    int kind;  // 0 nothing; 1 nested recording; 2 records without a nested recording; 3 variables; 4 throws; 5 hands a callback over and takes it back
    std::vector<int> prog;                     // nested: statement weights, or -1-k for the k-th of the plans
    std::vector<std::shared_ptr<Plan>> inner;  // nested
    int how = 0;
};
struct Call
{
    int id;
    double dx;
    bool operator==(const Call& o) const { return id == o.id && dx == o.dx; }
};
struct State
{
    eng::Ctx& c;
    std::vector<Call> log;
    int alive = 0;
    std::set<int> destroyed;
    bool mayThrow = false;
};
static std::shared_ptr<Plan> genPlan(eng::Ctx& c, int deep, int kind = -1)
{
    auto p = std::make_shared<Plan>();
    p->kind = kind >= 0 ? kind : c.weighted({5, deep > 0 ? 3 : 0, 2, 2, 1, 1});
    p->how = int(c.below(8));
    if (p->kind == 1 || p->kind == 2)
    {
        int n = int(c.range(0, 6));
        for (int i = 0; i < n; ++i)
            if (c.chance(35))
            {
                p->inner.push_back(genPlan(c, deep - 1));
                if (p->inner.back()->kind == 4)
                    p->inner.back()->kind = 0;
                p->prog.push_back(-int(p->inner.size()));
            }
            else
                p->prog.push_back(int(c.range(1, 99)));
    }
    return p;
}
struct Cb : xad::CheckpointCallback<TP>
{
    State& s;
    int id;
    Plan plan;
    unsigned xslot;
    Cb(State& st, int i, const Plan& p, unsigned x) : s(st), id(i), plan(p), xslot(x) { ++s.alive; }
    ~Cb() override
    {
        --s.alive;
        if (!s.destroyed.insert(id).second)
            s.c.fail("callback %d destroyed twice", id);
    }
    Cb(const Cb&) = delete;
    void computeAdjoint(TP* t) override;
};
static unsigned nested(State& s, TP* t, const Plan& p, int id, std::vector<Call>& expected, double outerDx);

static void record(TP* t, AD& x, AD& sum, int w)
{
    (void)t;
    sum = sum + T(w) * x;
}
void Cb::computeAdjoint(TP* t)
{
    double dx = double(t->derivative(xslot));
    s.log.push_back({id, dx});
    s.c.log("   callback %d invoked", id);
    switch (plan.kind)
    {
        case 1:
        {
            std::vector<Call> e;
            nested(s, t, plan, id, e, dx);
            break;
        }
        case 2:
        {
            // what is recorded here is discarded, callbacks included
            AD a = 2.0, b = 3.0;
            t->registerInput(a);
            t->registerInput(b);
            for (int w : plan.prog)
                if (w > 0)
                    record(t, a, b, w);
                else
                    t->insertCallback(this);
            break;
        }
        case 3:
        {
            std::vector<AD> v(size_t(1 + plan.how));
            t->registerInputs(v);
            if (plan.how & 1)
                v.erase(v.begin());
            break;
        }
        case 4: if (s.mayThrow) throw Thrown(); break;
        case 5:
        {
            unsigned n = t->getNumCallbacks();
            t->pushCallback(this);
            if (t->getLastCallback() != this || t->getNumCallbacks() != n + 1)
                s.c.fail("a callback handed over inside a callback is not the last one");
            t->popCallback();
            break;
        }
        default: break;
    }
}
static int g_ids = 0;
// a recording of its own inside a callback
// returns the number of statements it leaves in the surrounding recording
static unsigned nested(State& s, TP* t, const Plan& p, int id, std::vector<Call>&, double)
{
    unsigned nv = t->getNumVariables(), ns = t->getNumStatements(), no = t->getNumOperations();
    unsigned left = 0;
    std::vector<std::unique_ptr<Cb>> mine;
    {
        AD x = 1.0, sum = 0.0;
        bool outside = p.how & 1;
        if (outside)
            t->registerInput(x), t->registerInput(sum);
        unsigned nv1 = t->getNumVariables(), ns1 = t->getNumStatements();
        {
        xad::ScopedNestedRecording<TP> rec(t);
        if (rec.getTape() != t)
            s.c.fail("getTape of a nested recording");
        if (!outside)
            t->registerInput(x), t->registerInput(sum);
        TP::position_type start = t->getPosition();
        std::vector<int> marks;  // ids in order, with the weights in between
        std::vector<double> after;
        double total = 0;
        std::vector<std::pair<int, double>> ins;
        for (int w : p.prog)
            if (w > 0)
            {
                record(t, x, sum, w);
                total += w;
            }
            else
            {
                const Plan& q = *p.inner[size_t(-w - 1)];
                mine.emplace_back(new Cb(s, 100000 + ++g_ids, q, x.getSlot()));
                ins.push_back({mine.back()->id, total});
                if (p.how & 4)
                    rec.getTape()->insertCallback(mine.back().get());
                else
                    t->insertCallback(mine.back().get());
            }
        if (p.how & 2)
        {
            std::vector<Call> saved;
            saved.swap(s.log);
            xad::derivative(sum) = T(1);
            if (outside && (p.how & 4))
                rec.computeAdjoints();
            else
                t->computeAdjointsTo(start);
            std::vector<Call> mineLog;
            for (auto& q : s.log)
                for (auto& m : ins)
                    if (m.first == q.id)
                        mineLog.push_back(q);
            std::vector<Call> want;
            for (size_t i = ins.size(); i-- > 0;) want.push_back({ins[i].first, total - ins[i].second});
            if (!(mineLog == want))
                s.c.fail("nested recording in callback %d: %zu callback invocations, expected %zu (or between other statements)", id, mineLog.size(), want.size());
            if (double(xad::derivative(x)) != total)
                s.c.fail("nested recording: derivative is %g, expected %g", double(xad::derivative(x)), total);
            for (auto& q : s.log)
                if (q.id < 100000)
                    s.c.fail("callback %d of the outer recording invoked by the rollback of a nested one", q.id);
            s.log.swap(saved);
        }
        if (!outside)
        {
            x = AD();
            sum = AD();
        }
        }
        if (t->getNumVariables() != nv1 || t->getNumStatements() != ns1)
            s.c.fail("a nested recording changed the outer one: %u variables, %u statements before, %u, %u after", nv1, ns1, t->getNumVariables(), t->getNumStatements());
        left = ns1 - ns;
        ns = ns1;
    }
    if (t->getNumVariables() != nv || t->getNumStatements() != ns || t->getNumOperations() != no)
        s.c.fail("a nested recording changed the outer one: %u variables, %u statements, %u operations before, %u, %u, %u after", nv, ns, no, t->getNumVariables(),
                 t->getNumStatements(), t->getNumOperations());
    return left;
}

struct Entry
{
    int w;   // statement weight, 0 for callbacks
    int cb;  // callback index, negative for statements
};
struct CbRec
{
    std::unique_ptr<Cb> mine;  // owned by the caller
    Cb* p;
    bool tapes;                // owned by the tape
};

ENG_PROP(callbacks, 1)
{
    State s{c};
    g_ids = 0;
    std::vector<CbRec> cbs;
    std::vector<int> stack;  // indices, in the order they were handed over
    int invocations = 0, rollbacks = 0, skipped = 0;
    {
        std::unique_ptr<TP> tape(new TP);
        AD x = 1.0, sum = 0.0, z = 0.0;
        tape->registerInput(x);
        tape->registerInput(sum);
        tape->registerInput(z);
        tape->newRecording();
        std::vector<Entry> rec;
        std::vector<std::pair<TP::position_type, size_t>> pos;
        auto start = [&] {
            pos.clear();
            rec.clear();
            pos.push_back({tape->getPosition(), 0});
        };
        start();
        auto counts = [&](const char* when) {
            if (tape->getNumCallbacks() != stack.size() || tape->haveCallbacks() != !stack.empty())
                c.fail("%s: the tape owns %u callbacks, expected %zu", when, tape->getNumCallbacks(), stack.size());
            if (!stack.empty() && tape->getLastCallback() != cbs[size_t(stack.back())].p)
                c.fail("%s: the last callback is another one", when);
            if (s.alive != int(cbs.size()))
            {
                int want = 0;
                for (auto& q : cbs) want += q.p != nullptr;
                if (s.alive != want)
                    c.fail("%s: %d callback objects exist, expected %d", when, s.alive, want);
            }
            if (tape->getNumStatements() != rec.size() || tape->getPosition() != pos[0].first + rec.size())
                c.fail("%s: %u statements, expected %zu", when, tape->getNumStatements(), rec.size());
        };
        auto rollback = [&](size_t to, TP::position_type p, bool full) {
            size_t left = rec.size();
            std::vector<Call> want;
            double dx = 0;
            for (size_t i = rec.size(); i > to; --i)
                if (rec[i - 1].cb < 0)
                    dx += rec[i - 1].w;
                else
                {
                    want.push_back({rec[i - 1].cb, dx});
                    left = i - 1;
                }
            skipped += int(std::count_if(rec.begin(), rec.begin() + long(to), [](const Entry& e) { return e.cb >= 0; }));
            s.log.clear();
            tape->clearDerivatives();
            xad::derivative(sum) = T(1);
            s.mayThrow = c.chance(20);
            bool thr = false;
            try
            {
                if (full)
                    tape->computeAdjoints();
                else
                    tape->computeAdjointsTo(p);
            }
            catch (Thrown&)
            {
                thr = true;
            }
            s.mayThrow = false;
            ++rollbacks;
            std::vector<Call> got;
            for (auto& q : s.log)
                if (q.id < 100000)
                    got.push_back(q);
                else
                    c.fail("callback of a nested recording that is over was invoked");
            invocations += int(got.size());
            if (thr)
            {
                if (got.size() > want.size() || got.empty())
                    c.fail("%zu callbacks invoked before the exception, at most %zu expected", got.size(), want.size());
                want.resize(got.size());
            }
            if (!(got == want))
            {
                std::string a, b;
                for (auto& q : got) a += " " + std::to_string(q.id) + "(" + std::to_string(long(q.dx)) + ")";
                for (auto& q : want) b += " " + std::to_string(q.id) + "(" + std::to_string(long(q.dx)) + ")";
                c.fail("invoked:%s, expected:%s (callback and derivative at that point)", a.c_str(), b.c_str());
            }
            if (thr)
            {
                c.label("callback throws");
                tape->newRecording();
                start();
                return;
            }
            if (double(xad::derivative(x)) != dx)
                c.fail("derivative after the rollback is %g, expected %g", double(xad::derivative(x)), dx);
            tape->clearDerivatives();
            rec.resize(left);
            while (pos.back().second > left) pos.pop_back();
        };
        int n = c.pick(std::vector<int>{12, 40});
        int go = 100 - 150 / (n + 1);
        for (int it = 0; it < n; ++it)
        {
            if (it && !c.chance(go))
                break;
            switch (c.weighted({8, 8, 3, 3, 3, 3, 1, 1, 2, 2, 1, 2}))
            {
                case 0:
                {
                    int w = int(c.range(1, 99));
                    c.log("statement %d", w);
                    record(tape.get(), x, sum, w);
                    rec.push_back({w, -1});
                    break;
                }
                case 1:
                {
                    bool again = !cbs.empty() && c.chance(25);
                    size_t k = again ? size_t(c.below(cbs.size())) : cbs.size();
                    if (again && !cbs[k].p)
                        break;
                    if (!again)
                    {
                        auto p = genPlan(c, 2);
                        CbRec r;
                        r.mine.reset(new Cb(s, int(k), *p, x.getSlot()));
                        r.p = r.mine.get();
                        r.tapes = c.chance(50);
                        if (r.tapes)
                        {
                            stack.push_back(int(k));
                            tape->pushCallback(r.mine.release());
                        }
                        cbs.push_back(std::move(r));
                        c.log("callback %zu (kind %d) inserted%s", k, p->kind, cbs[k].tapes ? ", owned by the tape" : "");
                    }
                    else
                        c.log("callback %zu inserted again", k);
                    tape->insertCallback(cbs[k].p);
                    rec.push_back({0, int(k)});
                    break;
                }
                case 2:
                    c.log("position %zu = statement %zu", pos.size(), rec.size());
                    pos.push_back({tape->getPosition(), rec.size()});
                    break;
                case 3:
                {
                    c.log("computeAdjoints");
                    rollback(0, 0, true);
                    break;
                }
                case 4:
                {
                    size_t k = c.below(pos.size());
                    c.log("computeAdjointsTo position %zu (statement %zu)", k, pos[k].second);
                    rollback(pos[k].second, pos[k].first, false);
                    break;
                }
                case 5:
                {
                    size_t k = c.below(pos.size());
                    c.log("resetTo position %zu (statement %zu)", k, pos[k].second);
                    tape->resetTo(pos[k].first);
                    rec.resize(pos[k].second);
                    pos.resize(k + 1);
                    break;
                }
                case 6:
                    c.log("newRecording");
                    tape->newRecording();
                    start();
                    break;
                case 7:
                    c.log("tape moved");
                    if (c.chance(50))
                        tape.reset(new TP(std::move(*tape)));
                    else
                    {
                        std::unique_ptr<TP> u(new TP(false));
                        *u = std::move(*tape);
                        tape = std::move(u);
                    }
                    if (TP::getActive() != tape.get())
                        c.fail("the moved tape is not active");
                    break;
                case 8:
                {
                    // popped callbacks are left to the caller
                    if (stack.empty())
                        break;
                    int k = stack.back();
                    c.log("callback %d popped", k);
                    tape->popCallback();
                    stack.pop_back();
                    cbs[size_t(k)].mine.reset(cbs[size_t(k)].p);
                    cbs[size_t(k)].tapes = false;
                    break;
                }
                case 9:
                {
                    // a callback that is not part of the recording can be destroyed by its owner
                    if (cbs.empty())
                        break;
                    size_t k = c.below(cbs.size());
                    bool used = std::any_of(rec.begin(), rec.end(), [&](const Entry& e) { return e.cb == int(k); });
                    if (!cbs[k].p || cbs[k].tapes || used)
                        break;
                    c.log("callback %zu destroyed", k);
                    cbs[k].mine.reset();
                    cbs[k].p = nullptr;
                    break;
                }
                case 11:
                {
                    auto p = genPlan(c, 2, 1);
                    c.log("nested recording of %zu statements and callbacks, %s", p->prog.size(), (p->how & 2) ? "rolled back" : "given up");
                    std::vector<Call> e;
                    s.log.clear();
                    for (unsigned k = nested(s, tape.get(), *p, -1, e, 0); k > 0; --k) rec.push_back({0, -1});
                    s.log.clear();
                    // its variables are gone, their derivatives must not be left behind
                    tape->clearDerivatives();
                    break;
                }
                default:
                {
                    // handed over now
                    if (cbs.empty())
                        break;
                    size_t k = c.below(cbs.size());
                    if (!cbs[k].p || cbs[k].tapes)
                        break;
                    c.log("callback %zu handed over", k);
                    tape->pushCallback(cbs[k].mine.release());
                    cbs[k].tapes = true;
                    stack.push_back(int(k));
                    break;
                }
            }
            counts("after the action");
        }
        if (c.chance(80))
            rollback(0, 0, true);
        counts("at the end");
        if (c.chance(30))
        {
            x = sum = z = AD();
            if (c.chance(50))
                tape->clearAll();

        }
        s.log.clear();
        int before = s.alive;
        // the variables go first
        {
            AD a(std::move(x)), b(std::move(sum)), d(std::move(z));
        }
        tape.reset();
        if (TP::getActive())
            c.fail("a tape is active after it was destroyed");
        if (before - s.alive != int(stack.size()))
            c.fail("%d callbacks destroyed with the tape, it owned %zu", before - s.alive, stack.size());
        for (int k : stack)
        {
            if (!s.destroyed.count(k))
                c.fail("callback %d not destroyed with the tape", k);
            cbs[size_t(k)].p = nullptr;
        }
        for (size_t k = 0; k < cbs.size(); ++k)
            if (cbs[k].mine && s.destroyed.count(int(k)))
                c.fail("callback %zu was destroyed although the tape did not own it", k);
        if (!s.log.empty())
            c.fail("callbacks invoked while the tape is destroyed");
    }
    cbs.clear();
    if (s.alive)
        c.fail("%d callbacks were never destroyed", s.alive);
    if (invocations >= 2 && rollbacks >= 1 && (skipped || invocations >= 4))
        c.nontrivial();
}

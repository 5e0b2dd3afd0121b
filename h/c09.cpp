// C09: computations split into checkpointed segments and hand-differentiated external functions against the
// plain recording and the reference jets.
#include <deque>
#include <functional>
#include <memory>
#include <stack>
#include "common.hpp"
typedef xad::adj<T> mode;
typedef mode::active_type AD;
typedef mode::tape_type tape_t;
static const int NV = 4;
typedef ref::Jet<T, NV, 1> J;

struct Block;
struct Item
{
    std::vector<prog::Op> ops;    // statements of the block itself ...
    std::shared_ptr<Block> seg;   // ... or a segment
    int kind = 0;                 // segment: 0 recorded plainly, 1 checkpoint, 2 external function
    bool onlyWritten = false;     // only variables the segment writes are its outputs
    bool inPlace = false;         // outputs get their values in place
    bool owned = false, shared = false;
    bool late = false;            // inputs of the replay registered inside the nested recording
    int local = 0;                // external: the Jacobian is recorded in a nested recording on the way (1 inputs registered inside, 2 before)
    int before = 0, after = 0;    // statements the callback records outside of any nested recording
};
struct Block
{
    std::vector<Item> items;
    unsigned written = 0;
    int segs = 0, depth = 0;
};
static unsigned writes(const std::vector<prog::Op>& ops, int n)
{
    unsigned m = 0;
    for (auto& o : ops)
    {
        if (o.r >= 0 && o.r < n && o.code != prog::DEL && o.code != prog::MOVE_NEW && o.code != prog::VPUSH_MOVE && o.code != prog::VINSERT &&
            o.code != prog::VERASE && o.code != prog::VROT)
            m |= 1u << o.r;
    }
    return m;
}
static std::shared_ptr<Block> genBlock(eng::Ctx& c, int n, int depth, int maxOps, int maxItems)
{
    auto b = std::make_shared<Block>();
    prog::GenCfg g;
    g.nin = n;
    g.writeInputs = true;
    prog::GenState st{n};
    for (int i = 0; i < maxItems; ++i)
    {
        if (i && !c.chance(80))
            break;
        Item it;
        if (depth > 0 && c.chance(60))
        {
            it.kind = c.weighted({1, 5, 2});
            it.seg = genBlock(c, n, c.chance(50) ? depth - 1 : 0, maxOps, 3);
            it.onlyWritten = c.chance(40);
            it.inPlace = c.chance(40);
            it.owned = c.chance(50);
            it.shared = c.chance(40);
            it.late = c.chance(30);
            if (it.kind == 2)
                it.local = c.weighted({2, 2, 2});
            if (c.chance(30))
            {
                it.before = int(c.range(0, 3));
                it.after = int(c.range(0, 3));
            }
            b->written |= it.seg->written;
            if (it.kind)
                b->segs += 1 + it.seg->segs;
            b->depth = std::max(b->depth, it.seg->depth + (it.kind == 1));
        }
        else
        {
            it.ops = prog::gen(c, g, st, 1, maxOps);
            b->written |= writes(it.ops, n);
        }
        b->items.push_back(it);
    }
    return b;
}
static void logBlock(eng::Ctx& c, const Block& b, int ind)
{
    if (!c.verbose)
        return;
    static const char* k[] = {"plain", "checkpoint", "external"};
    for (auto& it : b.items)
        if (it.seg)
        {
            c.log("%*s%s segment, outputs %s%s%s%s%s {", ind, "", k[it.kind], it.onlyWritten ? "written" : "all", it.inPlace ? ", in place" : "",
                  it.owned ? ", callback owned by the tape" : "", it.shared ? ", shared callback object" : "", it.late ? ", inputs registered inside" : "");
            if (it.local)
                c.log("%*sthe Jacobian comes from a nested recording, inputs registered %s", ind, "", it.local == 1 ? "inside" : "before");
            if (it.before + it.after)
                c.log("%*scallback records %d statements before and %d after its work", ind, "", it.before, it.after);
            logBlock(c, *it.seg, ind + 2);
            c.log("%*s}", ind, "");
        }
        else
            prog::logOps(c, it.ops);
}
struct Run;
struct Frame
{
    std::vector<T> in;
    std::vector<unsigned> inSlot, outSlot;
    std::vector<char> inAct;
    std::vector<int> outs;
    const Item* item;
    std::vector<std::vector<double>> jac;  // external: [out][in]
};
struct Cb : xad::CheckpointCallback<tape_t>
{
    Run* run;
    std::stack<Frame> frames;
    int* alive;
    explicit Cb(Run* r, int* a) : run(r), alive(a) { ++*alive; }
    ~Cb() override { --*alive; }
    void computeAdjoint(tape_t* t) override;
};
struct Run
{
    eng::Ctx& c;
    tape_t* tape;
    std::deque<std::unique_ptr<Cb>> mine;
    Cb* shared[2] = {nullptr, nullptr};
    int invoked = 0, inserted = 0;
    int* alive;
    Run(eng::Ctx& cc, tape_t* t, int* a) : c(cc), tape(t), alive(a) {}
    Cb* callback(const Item& it)
    {
        if (it.shared && shared[it.owned])
            return shared[it.owned];
        Cb* cb = new Cb(this, alive);
        if (it.owned)
            tape->pushCallback(cb);
        else
            mine.emplace_back(cb);
        if (it.shared)
            shared[it.owned] = cb;
        return cb;
    }
    // plain execution next to the reference
    void plain(const Block& b, std::vector<AD>& s, std::vector<J>& js)
    {
        prog::Exec<AD, T> ex(s);
        prog::Exec<J, T> ej(js);
        for (auto& it : b.items)
            if (it.seg)
                plain(*it.seg, s, js);
            else
                for (size_t i = 0; i < it.ops.size(); ++i)
                {
                    ex.step(it.ops[i]);
                    ej.step(it.ops[i]);
                    syncValues(c, ex, ej, i);
                }
    }
    void passive(const Block& b, std::vector<AD>& s)
    {
        prog::Exec<AD, T> ex(s);
        for (auto& it : b.items)
            if (it.seg)
                passive(*it.seg, s);
            else
                for (auto& o : it.ops) ex.step(o);
    }
    void block(const Block& b, std::vector<AD>& s, std::function<void()> between = {})
    {
        prog::Exec<AD, T> ex(s);
        for (auto& it : b.items)
        {
            if (it.seg && it.kind)
                segment(it, s);
            else if (it.seg)
                block(*it.seg, s);
            else
                for (auto& o : it.ops) ex.step(o);
            if (between)
                between();
        }
    }
    // rows of the Jacobian one by one, in a nested recording in the middle of the recording
    void localJacobian(const Item& it, Frame& f, std::vector<AD>& p)
    {
        size_t n = p.size();
        unsigned ns = tape->getNumStatements(), no = tape->getNumOperations();
        {
            std::vector<AD> in;
            for (T v : f.in) in.push_back(AD(v));
            auto reg = [&] {
                for (auto& v : in) tape->registerInput(v);
            };
            if (it.local == 2)
                reg(), ns = tape->getNumStatements();
            {
                xad::ScopedNestedRecording<tape_t> nested(tape);
                if (it.local == 1)
                    reg();
                tape_t::position_type start = tape->getPosition();
                {
                    std::vector<AD> y(in);
                    std::vector<J> jp;
                    for (size_t i = 0; i < n; ++i) jp.push_back(J::input(f.in[i], int(i)));
                    plain(*it.seg, y, jp);
                    for (size_t o = 0; o < n; ++o)
                    {
                        f.jac.emplace_back(n, 0.0);
                        value(p[o]) = xad::value(y[o]);
                        tape->registerOutput(y[o]);
                        xad::derivative(y[o]) = T(1);
                        tape->computeAdjointsTo(start);
                        for (size_t i = 0; i < n; ++i)
                        {
                            f.jac[o][i] = double(xad::derivative(in[i]));
                            xad::derivative(in[i]) = T(0);
                        }
                        tape->clearDerivatives();
                    }
                }
                if (it.local == 1)
                    in.clear();
            }
            if (tape->getNumStatements() != ns || tape->getNumOperations() != no)
                c.fail("%u statements and %u operations after a nested recording, %u and %u before", tape->getNumStatements(), tape->getNumOperations(), ns, no);
        }
    }
    void segment(const Item& it, std::vector<AD>& s)
    {
        Frame f;
        f.item = &it;
        size_t n = s.size();
        std::vector<AD> p;
        for (auto& x : s)
        {
            f.in.push_back(xad::value(x));
            f.inAct.push_back(x.shouldRecord());
            f.inSlot.push_back(x.getSlot());
            p.push_back(AD(xad::value(x)));
        }
        if (it.kind == 1)
            passive(*it.seg, p);
        else if (it.local)
            localJacobian(it, f, p);
        else
        {
            std::vector<J> jp;
            for (size_t i = 0; i < n; ++i) jp.push_back(J::input(f.in[i], int(i)));
            plain(*it.seg, p, jp);
            for (size_t o = 0; o < n; ++o)
            {
                f.jac.emplace_back();
                for (size_t i = 0; i < n; ++i) f.jac.back().push_back(double(jp[o].d(int(i))));
            }
        }
        for (auto& q : p)
            if (q.shouldRecord())
                c.fail("a passive run of a segment was recorded");
        std::vector<std::unique_ptr<AD>> res;
        for (size_t i = 0; i < n; ++i)
        {
            if (it.onlyWritten && !(it.seg->written >> i & 1))
                continue;
            f.outs.push_back(int(i));
            if (it.inPlace)
            {
                tape->registerOutput(s[i]);
                xad::value(s[i]) = xad::value(p[i]);
            }
            else
            {
                // an output variable of its own
                res.emplace_back(new AD(xad::value(p[i])));
                tape->registerOutput(*res.back());
                f.outSlot.push_back(res.back()->getSlot());
                continue;
            }
            f.outSlot.push_back(s[i].getSlot());
        }
        Cb* cb = callback(it);
        cb->frames.push(f);
        tape->insertCallback(cb);
        ++inserted;
        for (size_t k = 0; k < res.size(); ++k)
            s[size_t(f.outs[k])] = *res[k];
        while (!res.empty())
            if (it.late)
                res.pop_back();
            else
                res.erase(res.begin());
    }
};
void Cb::computeAdjoint(tape_t* t)
{
    if (frames.empty())
        run->c.fail("a callback was invoked more often than it was inserted");
    Frame f = frames.top();
    frames.pop();
    ++run->invoked;
    std::vector<T> a;
    for (unsigned s : f.outSlot) a.push_back(t->getAndResetOutputAdjoint(s));
    if (a.empty())
        return;
    // values computed for other purposes, on the recording that is being rolled back
    auto scratch = [&](int k) {
        if (!k)
            return;
        AD u(T(1.5));
        t->registerInput(u);
        for (int i = 0; i < k; ++i)
        {
            AD v = u * T(5) + u;
            u = v * T(0.25);
        }
    };
    scratch(f.item->before);
    size_t n = f.in.size();
    if (f.item->kind == 2)
    {
        for (size_t i = 0; i < n; ++i)
            if (f.inAct[i])
            {
                double d = 0;
                for (size_t o = 0; o < a.size(); ++o) d += double(a[o]) * f.jac[size_t(f.outs[o])][i];
                t->incrementAdjoint(f.inSlot[i], T(d));
            }
        scratch(f.item->after);
        return;
    }
    {
    std::vector<AD> y;
    for (T v : f.in) y.push_back(AD(v));
    auto reg = [&] {
        for (size_t i = 0; i < n; ++i)
            if (f.inAct[i])
                t->registerInput(y[i]);
    };
    if (!f.item->late)
        reg();
    xad::ScopedNestedRecording<tape_t> nested(t);
    if (f.item->late)
        reg();
    tape_t::position_type start = t->getPosition();
    run->block(*f.item->seg, y);
    for (size_t o = 0; o < a.size(); ++o) t->registerOutput(y[size_t(f.outs[o])]);
    for (size_t o = 0; o < a.size(); ++o) xad::derivative(y[size_t(f.outs[o])]) = a[o];
    if (f.item->late)
        nested.getTape()->computeAdjointsTo(start);
    else
        nested.computeAdjoints();
    for (size_t i = 0; i < n; ++i)
            if (f.inAct[i])
                nested.incrementAdjoint(f.inSlot[i], xad::derivative(y[i]));
    y.clear();  // gone before the nested recording ends
    }
    scratch(f.item->after);
}

ENG_PROP(checkpoints, 1)
{
    int alive = 0;
    {
    tape_t tape;
    Run run(c, &tape, &alive);
    int rounds = c.weighted({3, 1}) + 1;
    bool interesting = false;
    int ninReg = int(c.range(1, NV)), ns = int(c.range(ninReg, NV));
    std::vector<AD> x;
    for (int i = 0; i < ns; ++i) x.push_back(AD(T(c.sreal(2.5))));
    bool copies = c.chance(50);
    int owned = 0;
    for (int r = 0; r < rounds; ++r)
    {
        auto b = genBlock(c, ns, int(c.range(1, 3)), int(c.pick(std::vector<int>{2, 4, 8})), 5);
        logBlock(c, *b, 0);
        for (int i = 0; i < ninReg; ++i) tape.registerInput(x[size_t(i)]);
        std::vector<T> x0;
        for (auto& v : x) x0.push_back(xad::value(v));
        std::vector<std::pair<int, T>> seeds;
        int nout = int(c.range(1, 3));
        for (int k = 0; k < nout; ++k) seeds.push_back({int(c.below(uint64_t(ns))), c.chance(30) ? T(1) : T(c.sreal(2))});
        for (auto& s : seeds) c.log("output %d seeded with %.9g", s.first, double(s.second));
        bool pieces = c.chance(30);
        auto execute = [&](bool chk, std::vector<T>& vals, std::vector<double>& grad, std::vector<J>* js) {
            for (int i = 0; i < ns; ++i)
                if (i < ninReg)
                    xad::value(x[size_t(i)]) = x0[size_t(i)];
                else
                    x[size_t(i)] = AD(x0[size_t(i)]);
            tape.newRecording();
            std::vector<AD> cp;
            if (copies)
                cp = x;
            std::vector<AD>& s = copies ? cp : x;
            std::vector<tape_t::position_type> pos;
            if (chk)
                run.block(*b, s, [&] { pos.push_back(tape.getPosition()); });
            else
                run.plain(*b, s, *js);
            vals.clear();
            for (auto& v : s) vals.push_back(xad::value(v));
            for (auto& q : seeds) tape.registerOutput(s[size_t(q.first)]);
            for (auto& q : seeds) xad::derivative(s[size_t(q.first)]) += q.second;
            if (chk && pieces)
                for (size_t k = pos.size(); k-- > 0;)
                {
                    tape.computeAdjointsTo(pos[k]);
                    tape.resetTo(pos[k]);
                }
            tape.computeAdjoints();
            grad.clear();
            for (int i = 0; i < ninReg; ++i) grad.push_back(double(xad::derivative(x[size_t(i)])));
        };
        std::vector<T> v1, v2;
        std::vector<double> g1, g2;
        std::vector<J> js;
        for (int i = 0; i < ns; ++i) js.push_back(i < ninReg ? J::input(x0[size_t(i)], i) : J(x0[size_t(i)]));
        bool order = c.chance(50);
        if (order)
            execute(true, v2, g2, nullptr);
        execute(false, v1, g1, &js);
        if (!order)
            execute(true, v2, g2, nullptr);
        // what the variables that are no inputs keep is plain again
        for (int i = ninReg; i < ns; ++i) x[size_t(i)] = AD(x0[size_t(i)]);
        for (int i = 0; i < ns; ++i)
            if (!(v1[size_t(i)] == v2[size_t(i)]))
                c.fail("value %d is %.17g with checkpoints, %.17g recorded plainly", i, double(v2[size_t(i)]), double(v1[size_t(i)]));
        for (int i = 0; i < ninReg; ++i)
        {
            long double want = 0, S = 0;
            for (auto& o : seeds)
            {
                want += o.second * js[size_t(o.first)].d(i);
                S += std::fabs((long double)o.second) * js[size_t(o.first)].md(i);
            }
            checkD<J>(c, "plain recording: adjoint of input", i, g1[size_t(i)], want, S);
            checkD<J>(c, "with checkpoints: adjoint of input", i, g2[size_t(i)], want, S);
            if (want != 0 && b->segs)
                interesting = true;
        }
        if (b->segs > 1)
            c.label("several segments");
        if (b->depth > 1)
            c.label("recursive checkpoints");
        owned += b->segs;
    }
    if (run.invoked != run.inserted)
        c.fail("%d callbacks were inserted, %d invoked", run.inserted, run.invoked);
    if (interesting)
        c.nontrivial();
    }
    if (alive)
        c.fail("%d callback objects are left", alive);
}

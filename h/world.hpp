#pragma once
// A pool of adjoint variables recorded on a real tape, next to a reference model of it: an ideal tape on
// which every registration owns a derivative of its own for ever and rolling back is the textbook sweep.
#include <XAD/XAD.hpp>
#include <algorithm>
#include <cmath>
#include <cstring>
#include <functional>
#include <iostream>
#include <memory>
#include <sstream>
#include <vector>
#include "engine.hpp"
#ifndef BASE_T
#define BASE_T double
#endif
namespace world
{
typedef BASE_T T;
typedef xad::AReal<T> AD;
typedef xad::Tape<T> TP;
static const double EXACT = sizeof(T) == 8 ? 4503599627370496.0 : 4194304.0;  // integers below are exact
static const double RTOL = sizeof(T) == 8 ? 1e-10 : 1e-3;

struct Model
{
    struct St
    {
        int lhs;
        std::vector<std::pair<double, int>> rhs;
        int cb;  // callback statement: id, -1 otherwise
    };
    std::vector<St> st;
    std::vector<double> D, M;  // derivative and majorant (sum of absolute contributions) per registration
    std::vector<long> born;   // index of the registering statement, -1 before the recording
    std::vector<char> dead;   // the variable is gone
    std::vector<unsigned> slot;  // slot the library chose
    bool init = false;
    std::function<void(int)> onCb;

    int reg()
    {
        D.push_back(0);
        M.push_back(0);
        born.push_back(long(st.size()));
        dead.push_back(0);
        slot.push_back(0);
        return int(D.size()) - 1;
    }
    void push(int lhs, std::vector<std::pair<double, int>> rhs = {}) { st.push_back({lhs, std::move(rhs), -1}); }
    void seed(int s, double v)
    {
        D[size_t(s)] = v;
        M[size_t(s)] = std::fabs(v);
        init = true;
    }
    void add(int s, double v)
    {
        D[size_t(s)] += v;
        M[size_t(s)] += std::fabs(v);
        init = true;
    }
    void clearD()
    {
        std::fill(D.begin(), D.end(), 0.0);
        std::fill(M.begin(), M.end(), 0.0);
        init = false;
    }
    void rollback(size_t to)
    {
        init = true;
        for (size_t i = st.size(); i > to; --i)
        {
            St& s = st[i - 1];
            if (s.cb >= 0)
            {
                int id = s.cb;
                st.resize(i - 1);  // a checkpoint consumes the recording behind it
                onCb(id);
                continue;
            }
            double a = D[size_t(s.lhs)], m = M[size_t(s.lhs)];
            D[size_t(s.lhs)] = M[size_t(s.lhs)] = 0;
            for (auto& p : s.rhs)
            {
                D[size_t(p.second)] += p.first * a;
                M[size_t(p.second)] += (std::fabs(p.first) + (exact && m < EXACT ? 0 : 1)) * m;
            }
        }
    }
    bool ok(int s, double got) const
    {
        double d = D[size_t(s)], m = M[size_t(s)];
        if (exact && m < EXACT)
            return got == d;
        if (m > (sizeof(T) == 8 ? 1e280 : 1e30) || m != m)
            return true;
        return std::fabs(got - d) <= RTOL * m + (sizeof(T) == 8 ? 1e-290 : 1e-34);
    }
    bool exact = true;
    // a variable that is gone has a derivative pending; its place may be given to a new variable
    bool ghosts() const
    {
        for (size_t i = 0; i < D.size(); ++i)
            if (dead[i] && (D[i] != 0 || M[i] != 0))
                return true;
        return false;
    }
    // after a rollback the derivative of a variable created while recording says nothing while a variable that is
    // gone has one pending: it may be in the same place
    bool readable(int s) const { return born[size_t(s)] < 0 || !ghosts(); }
    bool valid(int s) const { return born[size_t(s)] < long(st.size()); }
};

// an external function / checkpoint: out = sum of coefficients times inputs (+ a product)
struct Ext
{
    std::vector<int> in;            // model registrations
    std::vector<unsigned> inSlot;
    std::vector<double> coef;       // partial derivatives
    std::vector<double> val;        // input values (for replays)
    int out = -1;
    unsigned outSlot = 0;
    int style = 0;                  // 0: by hand; 1: nested recording; 2: inputs registered before the nested recording
    double k0 = 0;
    double c[3] = {0, 0, 0};
    int called = 0;
    std::vector<std::pair<int, double>> extra;  // further contributions
    std::shared_ptr<struct ScriptBox> inner;
};
struct ExtSpec
{
    unsigned ix[3], r;
    double c0, c1, k0;
    int style, how;
    std::shared_ptr<struct ScriptBox> inner;  // style 3: what the callback does in a recording of its own
};
inline ExtSpec genExt(eng::Ctx& c)
{
    ExtSpec e;
    for (auto& q : e.ix) q = unsigned(c.below(64));
    e.c0 = double(c.range(-2, 2));
    e.c1 = double(c.range(-3, 3));
    e.k0 = double(c.range(-9, 9));
    e.style = int(c.below(3));
    e.r = unsigned(c.below(64));
    e.how = int(c.below(3));
    return e;
}
struct CallbackError
{
};
struct World;
struct ExtCb : xad::CheckpointCallback<TP>
{
    World* w;
    int id;
    ExtCb(World* ww, int i) : w(ww), id(i) {}
    void computeAdjoint(TP* t) override;
};

struct Var
{
    AD* x;
    double v;
    int s;       // registration in the model, -1 for a passive variable
    bool input;  // keeps its place: neither destroyed nor moved
};

struct Op
{
    int kind;
    unsigned a, b, r;
    int form, k1, k2, tgt;
};
enum Kind
{
    NEWP, NEWE, SETE, SETK, COMP, INC, COPYC, COPYA, MOVEC, MOVEA, SWAP, DEL, REGO, TEMP, PUSH, NKINDS
};
static const char* const KN[] = {"new passive", "new expression", "assign expression", "assign constant", "compound assignment",
    "increment", "copy construct", "copy assign", "move construct", "move assign", "swap", "destroy", "register output", "temporaries", "statement by hand"};

struct Weights
{
    int w[NKINDS] = {3, 14, 14, 3, 6, 3, 4, 4, 4, 4, 3, 5, 3, 4, 2};
};

inline Op genOp(eng::Ctx& c, const Weights& W)
{
    int tot = 0;
    for (int x : W.w) tot += x;
    int v = int(c.below(uint64_t(tot)));
    int k = 0;
    while (v >= W.w[k]) v -= W.w[k++];
    Op o;
    o.kind = k;
    o.a = unsigned(c.below(64));
    o.b = unsigned(c.below(64));
    o.r = unsigned(c.below(64));
    o.form = int(c.below(8));
    o.k1 = int(c.range(-3, 3));
    o.k2 = int(c.range(-2, 2));
    o.tgt = int(c.range(-9, 9));
    return o;
}
inline std::vector<Op> genOps(eng::Ctx& c, const Weights& W, int maxOps)
{
    std::vector<Op> ops;
    int go = 100 - 250 / (maxOps + 1);
    for (int i = 0; i < maxOps; ++i)
    {
        if (i && !c.chance(go))
            break;
        ops.push_back(genOp(c, W));
    }
    return ops;
}

// (function objects instead of generic lambdas: also compiled as C++11)
struct MakeNew
{
    AD*& x;
    template <class Q> void operator()(const Q& q) { x = new AD(q); }
};
struct Assign
{
    AD& x;
    template <class Q> void operator()(const Q& q) { x = q; }
};
struct GetValue
{
    double& v;
    template <class Q> void operator()(const Q& q) { v = double(xad::value(q)); }
};
struct Compound
{
    AD& x;
    int how;
    template <class Q> void operator()(const Q& q)
    {
        if (how == 2)
            x *= q;
        else if (how == 1)
            x -= q;
        else
            x += q;
    }
};
struct World
{
    eng::Ctx& c;
    TP* tape;
    Model m;
    std::vector<Var> vars;
    size_t maxVars = 24;
    bool ints = true;
    bool writeInputs = true;
    bool quiet = false;

    World(eng::Ctx& cc, TP* t) : c(cc), tape(t) {}
    ~World()
    {
        for (auto& v : vars) delete v.x;
    }
    std::vector<Ext> exts;
    std::vector<std::unique_ptr<ExtCb>> cbs;
    std::vector<int> cbLog, cbModel;  // the order of invocations
    bool checkGhosts = true;
    int throwIn = -1;   // the callback that throws, and where
    int throwAt = 0;
    bool keepInvalid = false;
    std::function<void(World&)> hook;  // called between two actions of a script, also inside callbacks
    // no registration while the derivative of a variable that is gone is pending
    void beforeReg()
    {
        if (checkGhosts && m.init && m.ghosts())
        {
            c.log("clearDerivatives (pending derivatives of destroyed variables)");
            tape->clearDerivatives();
            m.clearD();
        }
    }
    int reg(unsigned slot)
    {
        int s = m.reg();
        m.slot[size_t(s)] = slot;
        return s;
    }
    void insertCallback(int id)
    {
        cbs.emplace_back(new ExtCb(this, id));
        tape->insertCallback(cbs.back().get());
        m.st.push_back({-1, {}, id});
        m.onCb = [this](int i) { modelCb(i); };
    }
    void modelCb(int i)
    {
        Ext& e = exts[size_t(i)];
        cbModel.push_back(i);
        double a = m.D[size_t(e.out)], M = m.M[size_t(e.out)];
        m.D[size_t(e.out)] = m.M[size_t(e.out)] = 0;
        for (size_t j = 0; j < e.in.size(); ++j)
        {
            m.D[size_t(e.in[j])] += e.coef[j] * a;
            m.M[size_t(e.in[j])] += (std::fabs(e.coef[j]) + (m.exact && M < EXACT ? 0 : 1)) * M;
        }
        for (auto& u : e.extra) m.add(u.first, u.second);
        e.extra.clear();
    }
    // v[r] = c0*x0*x1 + c1*x2 + k0 computed outside of the tape
    void ext(eng::Ctx& cc) { ext(genExt(cc)); }
    void ext(const ExtSpec& sp)
    {
        std::vector<size_t> regd;
        for (size_t i = 0; i < vars.size(); ++i)
            if (vars[i].s >= 0)
                regd.push_back(i);
        if (regd.empty())
            return;
        beforeReg();
        Ext e;
        size_t ix[3];
        for (int q = 0; q < 3; ++q) ix[q] = regd[sp.ix[q] % regd.size()];
        e.c[0] = sp.c0;
        e.c[1] = sp.c1;
        double x0 = vars[ix[0]].v, x1 = vars[ix[1]].v, x2 = vars[ix[2]].v;
        e.k0 = sp.k0 - (e.c[0] * x0 * x1 + e.c[1] * x2);
        double res = e.c[0] * x0 * x1 + e.c[1] * x2 + e.k0;
        e.coef = {e.c[0] * x1, e.c[0] * x0, e.c[1]};
        e.val = {x0, x1, x2};
        for (auto q : ix)
        {
            e.in.push_back(vars[q].s);
            e.inSlot.push_back(vars[q].x->getSlot());
        }
        e.style = sp.style;
        e.inner = sp.inner;
        size_t r = pickWritable(sp.r, false);
        int how = sp.how;
        if (r == size_t(-1) || (how == 0 && vars.size() < maxVars))
        {
            r = vars.size();
            addPassive(0);
        }
        c.log("v%zu = external function %zu (style %d): %g * v%zu * v%zu + %g * v%zu + %g%s", r, exts.size(), e.style, e.c[0], ix[0], ix[1], e.c[1],
              ix[2], e.k0, vars[r].s >= 0 && how == 2 ? " (value set in place)" : "");
        if (vars[r].s >= 0 && how == 2)
        {
            // the value is replaced without a statement: only sensible when the callback takes the whole adjoint
            xad::value(*vars[r].x) = T(res);
            vars[r].v = res;
        }
        else
        {
            *vars[r].x = T(res);
            if (vars[r].s >= 0)
                m.push(vars[r].s);
            vars[r].v = res;
            registerOutput(int(r));
        }
        sync(vars[r]);
        e.out = vars[r].s;
        e.outSlot = vars[r].x->getSlot();
        exts.push_back(e);
        insertCallback(int(exts.size()) - 1);
    }
    // live variables own different places, and the tape knows how many there are
    bool slots = false;
    const World* parent = nullptr;
    unsigned others = 0;  // variables of the tape that do not belong to this world
    int inner = 0;        // scripts played inside callbacks
    std::vector<std::pair<unsigned, size_t>> all;
    void checkSlots()
    {
        all.clear();
        for (size_t i = 0; i < vars.size(); ++i)
            if (vars[i].s >= 0)
                all.push_back({vars[i].x->getSlot(), i});
        unsigned n = unsigned(all.size()) + others;
        if (tape->getNumVariables() != n)
            c.fail("the tape has %u variables, %u are alive", tape->getNumVariables(), n);
        for (const World* p = parent; p; p = p->parent)
            for (size_t i = 0; i < p->vars.size(); ++i)
                if (p->vars[i].s >= 0)
                    all.push_back({p->vars[i].x->getSlot(), 1000 + i});
        std::sort(all.begin(), all.end());
        for (size_t i = 1; i < all.size(); ++i)
            if (all[i].first == all[i - 1].first)
                c.fail("variables %zu and %zu share slot %u", all[i - 1].second, all[i].second, all[i].first);
        checkReusable();
    }
    // what the tape says about the places it may give out again
    void checkReusable()
    {
        std::string str = tape->getReusableSlotsString();
        unsigned n = tape->getNumReusableSlots(), sec = tape->getNumReusableSlotSections();
#ifdef XAD_TAPE_REUSE_SLOTS
        unsigned sum = 0, secs = 0, last = 0;
        const char* q = str.c_str();
        unsigned a, b;
        int len;
        while (sscanf(q, " [%u, %u),%n", &a, &b, &len) == 2)
        {
            if (a >= b || (secs && a <= last))
                c.fail("reusable slots: %s", str.c_str());
            for (auto& p : all)
                if (p.first >= a && p.first < b)
                    c.fail("slot %u of live variable %zu is listed as reusable: %s", p.first, p.second, str.c_str());
            sum += b - a;
            ++secs;
            last = b;
            q += len;
        }
        while (*q == ' ') ++q;
        if (*q || sum != n || secs != sec)
            c.fail("%u reusable slots in %u sections, listed are %u in %u: %s", n, sec, sum, secs, str.c_str());
#else
        if (n != 0 || sec != 1 || !str.empty())
            c.fail("slots are not reused, but %u reusable slots in %u sections: %s", n, sec, str.c_str());
#endif
    }
    // printing changes nothing
    std::string status() const
    {
        std::ostringstream o;
        std::streambuf* old = std::cout.rdbuf(o.rdbuf());
        tape->printStatus();
        std::cout.rdbuf(old);
        return o.str();
    }
    size_t modelSize() const { return m.st.size(); }
    void computeAdjointsTo(TP::position_type pos, size_t to)
    {
        cbLog.clear();
        cbModel.clear();
        tape->computeAdjointsTo(pos);
        m.rollback(to);
        checkCbs();
    }
    void computeAdjoints()
    {
        cbLog.clear();
        cbModel.clear();
        tape->computeAdjoints();
        m.rollback(0);
        checkCbs();
    }
    void checkCbs()
    {
        if (cbLog != cbModel)
        {
            std::string a, b;
            for (int i : cbLog) a += " " + std::to_string(i);
            for (int i : cbModel) b += " " + std::to_string(i);
            c.fail("callbacks invoked:%s, expected:%s", a.c_str(), b.c_str());
        }
        // recordings behind a checkpoint are consumed
        if (!keepInvalid)
            dropInvalid();
    }
    // destroys the variables registered in a part of the recording that was discarded
    bool dropInvalid()
    {
        bool pending = false;
        for (size_t i = vars.size(); i-- > 0;)
            if (vars[i].s >= 0 && !m.valid(vars[i].s))
            {
                c.log("v%zu destroyed (recorded behind the position)", i);
                pending = pending || m.D[size_t(vars[i].s)] != 0;
                removeVar(i);
            }
        // also the seeds of variables that were gone already
        for (size_t s = 0; s < m.D.size(); ++s)
            if (!m.valid(int(s)))
            {
                pending = pending || m.D[s] != 0;
                m.D[s] = m.M[s] = 0;
            }
        return pending;
    }
    void resetTo(TP::position_type pos, size_t to)
    {
        tape->resetTo(pos);
        if (to < m.st.size())
            m.st.resize(to);
        if (dropInvalid())
        {
            tape->clearDerivatives();
            m.clearD();
        }
    }
    World(const World&) = delete;
    World& operator=(const World&) = delete;

    void sync(Var& v)
    {
        double x = double(xad::value(*v.x));
        if (ints ? x != v.v : !(std::fabs(x - v.v) <= (sizeof(T) == 8 ? 1e-12 : 1e-4) * (1 + scale + std::fabs(v.v))))
            c.fail("value is %.17g, plain arithmetic gives %.17g", x, v.v);
        v.v = x;
        if (v.x->shouldRecord() != (v.s >= 0))
            c.fail("variable is %s the tape, expected the opposite", v.x->shouldRecord() ? "on" : "not on");
    }
    int addPassive(double k)
    {
        vars.push_back({new AD(T(k)), k, -1, false});
        return int(vars.size()) - 1;
    }
    int addInput(double k)
    {
        int i = addPassive(k);
        vars[size_t(i)].input = true;
        registerInput(i);
        return i;
    }
    void registerInput(int i)
    {
        Var& v = vars[size_t(i)];
        tape->registerInput(*v.x);
        if (v.s < 0)
        {
            v.s = reg(v.x->getSlot());
            m.push(v.s);
        }
    }
    void registerOutput(int i)
    {
        Var& v = vars[size_t(i)];
        tape->registerOutput(*v.x);
        if (v.s < 0)
        {
            v.s = reg(v.x->getSlot());
            m.push(v.s);
        }
    }
    void newRecording()
    {
        tape->newRecording();
        m.st.clear();
        for (auto& b : m.born) b = -1;
        m.clearD();
    }
    // raw value, multipliers of a and b without the constant
    struct Ev
    {
        double raw, da, db;
    };
    double scale = 0;  // of the values behind the result, for rounding
    Ev ev(const Op& o, double a, double b)
    {
        Ev e = ev0(o, a, b);
        scale = std::fabs(e.raw) + std::fabs(a) * 4 + std::fabs(b) * 4;
        return e;
    }
    Ev ev0(const Op& o, double a, double b) const
    {
        switch (o.form)
        {
            case 0:
            case 1: return {o.k1 * a + o.k2 * b, double(o.k1), double(o.k2)};
            case 2: return {a * b, b, a};
            case 3: return {a * a - b, 2 * a, -1};
            case 4: return {-a, -1, 0};
            case 5: return {a, 1, 0};
            case 6:
                if (ints)
                    return {a - b, 1, -1};
                return {std::sin(T(a)) * b, double(T(std::cos(T(a)))) * b, double(std::sin(T(a)))};
            default:
                if (ints)
                    return {b - o.k1, 0, 1};
                return {std::cos(T(a) * T(0.125)) - b, -double(std::sin(T(a) * T(0.125))) * 0.125, -1};
        }
    }
    template <class F>
    void expr(const Op& o, const AD& a, const AD& b, T k, F&& f)
    {
        switch (o.form)
        {
            case 0: f(T(o.k1) * a + b * T(o.k2) + k); break;
            case 1: f((a * T(o.k1) + k) + T(o.k2) * b); break;
            case 2: f(a * b + k); break;
            case 3: f(a * a - b + k); break;
            case 4: f(k - a); break;
            case 5: f(+a + k); break;
            case 6:
                if (ints)
                    f(a - (b - k));
                else
                    f(sin(a) * b + k);
                break;
            default:
                if (ints)
                    f(k + (b - T(o.k1)));
                else
                    f(k + (cos(a * T(0.125)) - b));
        }
    }
    std::vector<std::pair<double, int>> rhs(const Ev& e, const Op& o, const Var& a, const Var& b) const
    {
        std::vector<std::pair<double, int>> r;
        if (a.s >= 0 && usesA(o))
            r.push_back({e.da, a.s});
        if (b.s >= 0 && usesB(o))
            r.push_back({e.db, b.s});
        return r;
    }
    bool usesA(const Op& o) const { return !(ints && o.form == 7); }
    bool usesB(const Op& o) const { return o.form != 4 && o.form != 5; }
    bool rec(const Op& o, const Var& a, const Var& b) const { return (a.s >= 0 && usesA(o)) || (b.s >= 0 && usesB(o)); }
    double constant(const Op& o, double raw) const
    {
        double k = o.tgt - raw;
        if (!ints)
            k = double(T(o.tgt * 0.25 - raw));
        return k;
    }
    size_t pickWritable(unsigned r, bool place)
    {
        for (size_t i = 0; i < vars.size(); ++i)
        {
            size_t j = (r + i) % vars.size();
            if (!vars[j].input || (writeInputs && !place))
                return j;
        }
        return size_t(-1);
    }
    void removeVar(size_t i)
    {
        if (vars[i].s >= 0)
            m.dead[size_t(vars[i].s)] = 1;
        delete vars[i].x;
        vars.erase(vars.begin() + long(i));
    }
    // variables that may not be touched any more (their registration was discarded by resetTo)
    void exec(const Op& o)
    {
        if (vars.empty())
            addPassive(o.tgt);
        beforeReg();
        size_t a = o.a % vars.size(), b = o.b % vars.size();
        int kind = o.kind;
        if (vars.size() >= maxVars && (kind == NEWP || kind == NEWE || kind == COPYC))
            kind = SETE;
        size_t r = 0;
        bool place = kind == MOVEC || kind == MOVEA || kind == SWAP || kind == DEL;
        if (kind == SETE || kind == SETK || kind == COMP || kind == INC || kind == COPYA || kind == TEMP || place)
        {
            r = pickWritable(o.r, place);
            if (r == size_t(-1))
                kind = NEWE;
        }
        if (!quiet)
            c.label(KN[kind]);
        switch (kind)
        {
            case NEWP:
                addPassive(o.tgt);
                c.log("v%zu: new passive %d", vars.size() - 1, o.tgt);
                break;
            case NEWE:
            {
                Ev e = ev(o, vars[a].v, vars[b].v);
                double k = constant(o, e.raw);
                AD* x = nullptr;
                c.log("v%zu: new, form %d of v%zu v%zu (k1=%d k2=%d) + %g", vars.size(), o.form, a, b, o.k1, o.k2, k);
                expr(o, *vars[a].x, *vars[b].x, T(k), MakeNew{x});
                Var nv{x, e.raw + k, -1, false};
                if (rec(o, vars[a], vars[b]))
                {
                    auto rh = rhs(e, o, vars[a], vars[b]);
                    nv.s = reg(x->getSlot());
                    m.push(nv.s, rh);
                }
                vars.push_back(nv);
                sync(vars.back());
                break;
            }
            case SETE:
            {
                Ev e = ev(o, vars[a].v, vars[b].v);
                double k = constant(o, e.raw);
                c.log("v%zu = form %d of v%zu v%zu (k1=%d k2=%d) + %g", r, o.form, a, b, o.k1, o.k2, k);
                auto rh = rhs(e, o, vars[a], vars[b]);
                bool rc = rec(o, vars[a], vars[b]);
                expr(o, *vars[a].x, *vars[b].x, T(k), Assign{*vars[r].x});
                set(r, rc, rh, e.raw + k);
                break;
            }
            case SETK:
                c.log("v%zu = %d", r, o.tgt);
                *vars[r].x = T(o.tgt);
                set(r, false, {}, o.tgt);
                break;
            case COMP:
            {
                Ev e = ev(o, vars[a].v, vars[b].v);
                double k = constant(o, e.raw), ve = e.raw + k, vr = vars[r].v;
                bool mul = (o.k1 & 1) && std::fabs(ve * vr) < 1000;
                c.log("v%zu %s= form %d of v%zu v%zu (k1=%d k2=%d) + %g", r, mul ? "*" : (o.k2 & 1) ? "-" : "+", o.form, a, b, o.k1, o.k2, k);
                if (mul && !ints)
                    expr(o, *vars[a].x, *vars[b].x, T(k), GetValue{ve});
                auto rh = rhs(e, o, vars[a], vars[b]);
                bool rc = rec(o, vars[a], vars[b]);
                double f = mul ? vr : (o.k2 & 1) ? -1 : 1;
                scale = (scale + std::fabs(ve)) * (1 + std::fabs(vr));
                for (auto& p : rh) p.first *= f;
                if (vars[r].s >= 0)
                    rh.push_back({mul ? ve : 1, vars[r].s});
                rc = rc || vars[r].s >= 0;
                expr(o, *vars[a].x, *vars[b].x, T(k), Compound{*vars[r].x, mul ? 2 : o.k2 & 1});
                set(r, rc, rh, mul ? vr * ve : vr + f * ve);
                break;
            }
            case INC:
            {
                c.log("inc/dec v%zu", r);
                std::vector<std::pair<double, int>> rh;
                bool rc = vars[r].s >= 0;
                if (rc)
                    rh.push_back({1, vars[r].s});
                double d;
                switch (o.form & 3)
                {
                    case 0: ++*vars[r].x; d = 1; break;
                    case 1: --*vars[r].x; d = -1; break;
                    case 2: *vars[r].x += T(o.tgt); d = o.tgt; break;
                    default: *vars[r].x -= T(o.tgt); d = -o.tgt;
                }
                // these do not record a statement: the derivative is unchanged
                vars[r].v += d;
                sync(vars[r]);
                break;
            }
            case COPYC:
            {
                c.log("v%zu: copy of v%zu", vars.size(), a);
                Var nv{new AD(*vars[a].x), vars[a].v, -1, false};
                if (vars[a].s >= 0)
                {
                    int as = vars[a].s;
                    nv.s = reg(nv.x->getSlot());
                    m.push(nv.s, {{1.0, as}});
                }
                vars.push_back(nv);
                sync(vars.back());
                break;
            }
            case COPYA:
            {
                c.log("v%zu = v%zu", r, a);
                std::vector<std::pair<double, int>> rh;
                bool rc = vars[a].s >= 0;
                if (rc)
                    rh.push_back({1.0, vars[a].s});
                double va = vars[a].v;
                *vars[r].x = static_cast<const AD&>(*vars[a].x);
                set(r, rc, rh, va);
                break;
            }
            case MOVEC:
            {
                c.log("v%zu relocated", r);
                AD* n = new AD(std::move(*vars[r].x));
                delete vars[r].x;
                vars[r].x = n;
                sync(vars[r]);
                break;
            }
            case MOVEA:
            {
                if (vars[a].input || a == r)
                    break;
                c.log("v%zu = move(v%zu), v%zu destroyed", r, a, a);
                *vars[r].x = std::move(*vars[a].x);
                if (vars[r].s >= 0)
                    m.dead[size_t(vars[r].s)] = 1;
                vars[r].v = vars[a].v;
                vars[r].s = vars[a].s;
                sync(vars[r]);
                vars[a].s = -1;
                removeVar(a);
                break;
            }
            case SWAP:
            {
                if (vars[a].input)
                    break;
                c.log("swap v%zu v%zu", r, a);
                if (o.form & 1)
                    std::swap(*vars[r].x, *vars[a].x);
                else
                {
                    AD t(std::move(*vars[r].x));
                    *vars[r].x = std::move(*vars[a].x);
                    *vars[a].x = std::move(t);
                }
                std::swap(vars[r].v, vars[a].v);
                std::swap(vars[r].s, vars[a].s);
                sync(vars[r]);
                sync(vars[a]);
                break;
            }
            case DEL:
                if (vars.size() < 2)
                    break;
                c.log("v%zu destroyed", r);
                removeVar(r);
                break;
            case REGO:
                c.log("register output v%zu", a);
                registerOutput(int(a));
                break;
            case PUSH:
            {
                // a statement recorded by hand: the derivative of r becomes k1 * that of a + k2 * that of b
                r = pickWritable(o.r, false);
                if (r == size_t(-1) || vars[r].s < 0)
                    break;
                T mul[2];
                unsigned slot[2], n = 0;
                std::vector<std::pair<double, int>> rh;
                auto dep = [&](size_t i, int k) {
                    if (vars[i].s < 0)
                        return;
                    mul[n] = T(k);
                    slot[n++] = vars[i].x->getSlot();
                    rh.push_back({double(k), vars[i].s});
                };
                dep(a, o.k1);
                dep(b, o.k2);
                c.log("v%zu: statement %d * v%zu + %d * v%zu (%s)", r, o.k1, a, o.k2, b, (o.form & 1) ? "pushAll" : "pushRhs, pushLhs");
                unsigned ns = tape->getNumStatements(), no = tape->getNumOperations();
#ifdef XAD_VERIF_CHUNK_SIZE
                const unsigned segment = XAD_VERIF_CHUNK_SIZE;
#else
                const unsigned segment = 2;
#endif
                // the operations of one statement are appended to at most two segments
                if ((o.form & 1) && n <= segment)
                    tape->pushAll(vars[r].x->getSlot(), mul, slot, n);
                else
                {
                    for (unsigned i = 0; i < n; ++i)
                        if (o.form & 2)
                            tape->pushRhs(T(mul[i]), slot[i]);
                        else
                        {
                            const T& q = mul[i];
                            tape->pushRhs(q, slot[i]);
                        }
                    tape->pushLhs(vars[r].x->getSlot());
                }
                if (tape->getNumStatements() != ns + 1 || tape->getNumOperations() != no + n)
                    c.fail("one statement of %u operations was recorded: statements %u -> %u, operations %u -> %u", n, ns, tape->getNumStatements(), no,
                           tape->getNumOperations());
                m.push(vars[r].s, rh);
                break;
            }
            case TEMP:
            {
                // r = (temporary variables) : t1 = form(a,b)+k ; r = t1 + a
                Ev e = ev(o, vars[a].v, vars[b].v);
                double k = constant(o, e.raw);
                c.log("v%zu = [t = form %d of v%zu v%zu (k1=%d k2=%d) + %g] - v%zu", r, o.form, a, b, o.k1, o.k2, k, a);
                bool rc1 = rec(o, vars[a], vars[b]);
                auto rh = rhs(e, o, vars[a], vars[b]);
                double va = vars[a].v;
                int as = vars[a].s;
                {
                    AD t;
                    expr(o, *vars[a].x, *vars[b].x, T(k), Assign{t});
                    int ts = -1;
                    if (rc1)
                    {
                        ts = reg(t.getSlot());
                        m.dead[size_t(ts)] = 1;
                        m.push(ts, rh);
                    }
                    *vars[r].x = t - *vars[a].x;
                    std::vector<std::pair<double, int>> r2;
                    if (ts >= 0)
                        r2.push_back({1, ts});
                    if (as >= 0)
                        r2.push_back({-1, as});
                    set(r, ts >= 0 || as >= 0, r2, e.raw + k - va);
                }
                break;
            }
        }
    }
    void set(size_t r, bool rc, std::vector<std::pair<double, int>> rh, double v)
    {
        if (rc || vars[r].s >= 0)
        {
            if (vars[r].s < 0)
                vars[r].s = reg(vars[r].x->getSlot());
            m.push(vars[r].s, std::move(rh));
        }
        vars[r].v = v;
        sync(vars[r]);
    }
    void run(const std::vector<Op>& ops)
    {
        for (auto& o : ops) exec(o);
    }
    // reads a derivative in one of the equivalent ways
    double read(size_t i, int way)
    {
        AD& x = *vars[i].x;
        const AD& cx = x;
        const TP* ct = tape;
        switch (way % 7)
        {
            case 0: return double(xad::derivative(x));
            case 1: return double(xad::derivative(cx));
            case 2: return double(x.getDerivative());
            case 3: return double(x.getAdjoint());
            case 4: return double(tape->derivative(x.getSlot()));
            case 5: return m.init ? double(ct->derivative(x.getSlot())) : double(cx.derivative());
            default: return m.init ? double(ct->getDerivative(x.getSlot())) : double(tape->derivative(x.getSlot()));
        }
    }
    void write(size_t i, int way, double d, bool add)
    {
        AD& x = *vars[i].x;
        if (vars[i].s < 0)
        {
            // asking for the derivative registers the variable
            if (way & 1)
                registerOutput(int(i));
            else
            {
                xad::derivative(x);
                vars[i].s = reg(x.getSlot());
                m.push(vars[i].s);
            }
        }
        if (add)
        {
            switch (way % 4)
            {
                case 0: xad::derivative(x) += T(d); break;
                case 1: x.setDerivative(x.getDerivative() + T(d)); break;
                case 2: tape->incrementAdjoint(x.getSlot(), T(d)); break;
                default: tape->derivative(x.getSlot()) += T(d);
            }
            m.add(vars[i].s, d);
        }
        else
        {
            switch (way % 6)
            {
                case 0: xad::derivative(x) = T(d); break;
                case 1: x.setDerivative(T(d)); break;
                case 2: x.setAdjoint(T(d)); break;
                case 3: tape->setDerivative(x.getSlot(), T(d)); break;
                case 4: tape->derivative(x.getSlot()) = T(d); break;
                default: tape->getAndResetOutputAdjoint(x.getSlot()), tape->incrementAdjoint(x.getSlot(), T(d));
            }
            m.seed(vars[i].s, d);
        }
    }
    void checkAll(const char* when, int way = 0)
    {
        for (size_t i = 0; i < vars.size(); ++i)
            if (vars[i].s >= 0)
            {
                double got = read(i, way++);
                m.init = true;
                if (m.readable(vars[i].s) && !m.ok(vars[i].s, got))
                    c.fail("%s: derivative of v%zu is %.17g, the reference tape gives %.17g (scale %.3g)", when, i, got,
                           m.D[size_t(vars[i].s)], m.M[size_t(vars[i].s)]);
            }
            else
            {
                // reading through a const reference neither registers nor gives anything but zero
                const AD& cx = *vars[i].x;
                if (cx.getDerivative() != T(0))
                    c.fail("%s: passive variable v%zu has derivative %g", when, i, double(cx.getDerivative()));
            }
    }
};

// ---- scripts: whole tape histories, drawn first and played on any number of worlds ----
enum ActKind
{
    A_OP, A_EXT, A_SAVE, A_SEED, A_TO, A_RESET, A_CLEAR, A_FULL, A_NEWREC, A_READ, A_INPUT, A_UNIQ, A_NEST, NACTS
};
struct Act
{
    int kind;
    Op op;
    ExtSpec ext;
    unsigned i, k;
    int way;
    bool flag;
    double v;
};
struct ScriptCfg
{
    int w[NACTS] = {16, 0, 3, 5, 2, 2, 1, 2, 0, 1, 0, 0, 0};
    Weights ops;
    int max = 40;
    bool ext = false, newrec = false;
    bool nest = false;  // recordings inside the recording
    int deep = 0;  // levels of scripts inside callbacks
};
typedef std::vector<Act> Script;
struct ScriptBox
{
    Script s;
    int nin = 1;
    double v0 = 1;
    bool byHand = false;   // newNestedRecording / endNestedRecording
    int use = 0;           // a recording that depends on variables of the outer one: 1 by expressions, 2 by hand
    unsigned o[2];
    double k[2];
};
inline void genUse(eng::Ctx& c, ScriptBox& b)
{
    b.byHand = c.chance(40);
    b.use = int(c.below(3));
    for (int i = 0; i < 2; ++i)
    {
        b.o[i] = unsigned(c.below(24));
        b.k[i] = double(c.range(-3, 3));
    }
}
inline Script genScript(eng::Ctx& c, ScriptCfg g)
{
    if (g.ext)
        g.w[A_EXT] = 3;
    if (g.newrec)
        g.w[A_NEWREC] = 1, g.w[A_INPUT] = 1;
    if (g.nest)
        g.w[A_NEST] = 1;
    int tot = 0;
    for (int x : g.w) tot += x;
    Script s;
    int go = 100 - 250 / (g.max + 1);
    for (int i = 0; i < g.max; ++i)
    {
        if (i && !c.chance(go))
            break;
        int v = int(c.below(uint64_t(tot)));
        Act a = {};
        while (v >= g.w[a.kind]) v -= g.w[a.kind++];
        a.op = {};
        a.ext = {};
        switch (a.kind)
        {
            case A_OP: a.op = genOp(c, g.ops); break;
            case A_EXT:
                a.ext = genExt(c);
                if (g.deep > 0 && c.chance(50))
                {
                    ScriptCfg q = g;
                    q.deep--;
                    q.max = 12;
                    q.ext = q.deep > 0;
                    if (!q.ext)
                        q.w[A_EXT] = 0;
                    q.newrec = false;
                    q.w[A_NEWREC] = 0;
                    a.ext.style = 3;
                    a.ext.inner.reset(new ScriptBox);
                    a.ext.inner->nin = int(c.range(0, 2));
                    a.ext.inner->v0 = double(c.range(-3, 3));
                    a.ext.inner->s = genScript(c, q);
                    genUse(c, *a.ext.inner);
                }
                break;
            case A_NEST:
            {
                ScriptCfg q = g;
                q.max = g.max > 8 ? 8 : g.max - 2;
                if (q.max < 3)
                    q.nest = false, q.w[A_NEST] = 0, q.max = 3;
                q.newrec = false;
                q.w[A_NEWREC] = 0;
                a.ext.inner.reset(new ScriptBox);
                a.ext.inner->nin = int(c.range(0, 2));
                a.ext.inner->v0 = double(c.range(-3, 3));
                a.ext.inner->s = genScript(c, q);
                genUse(c, *a.ext.inner);
                break;
            }
            case A_SEED:
                a.i = unsigned(c.below(24));
                a.way = int(c.below(12));
                a.flag = c.chance(40);
                a.v = double(c.range(-4, 4));
                break;
            case A_TO:
                a.k = unsigned(c.below(16));
                a.flag = c.chance(60);
                break;
            case A_RESET:
                a.k = unsigned(c.below(16));
                a.flag = c.chance(50);
                break;
            case A_READ: a.way = int(c.below(7)); break;
            case A_INPUT: a.v = double(c.range(-9, 9)); break;
            default: break;
        }
        s.push_back(a);
    }
    return s;
}
inline void playInside(World& w, TP* t, const ScriptBox& b);
inline std::vector<std::pair<int, double>> useOuter(World& w, TP* t, const ScriptBox& b, long end);
struct Player
{
    World& w;
    struct Pos
    {
        TP::position_type p;
        size_t n;
        unsigned ns, no;  // statements and operations of the library there
    };
    std::vector<Pos> pos;
    std::vector<double> out;  // everything observed
    int rollbacks = 0, seeds = 0;
    std::function<void()> between;  // called between two actions
    explicit Player(World& ww) : w(ww) {}
    void save() { pos.push_back({w.tape->getPosition(), w.m.st.size(), w.tape->getNumStatements(), w.tape->getNumOperations()}); }
    void readAll(int way)
    {
        w.checkAll("reading all", way);
        for (auto& v : w.vars)
        {
            out.push_back(double(xad::value(*v.x)));
            if (v.s >= 0 && w.m.readable(v.s))
                out.push_back(double(xad::derivative(*v.x)));
        }
    }
    void seed(unsigned i, int way, double v, bool add)
    {
        if (w.vars.empty())
            return;
        w.beforeReg();
        size_t k = w.vars.size() - 1 - i % w.vars.size();
        w.c.log("seed v%zu %s= %g (way %d)", k, add ? "+" : "", v, way);
        w.write(k, way, v, add);
        ++seeds;
    }
    void act(const Act& a)
    {
        if (between)
            between();
        if (w.hook)
            w.hook(w);
        if (pos.empty())
            save();
        switch (a.kind)
        {
            case A_OP: w.exec(a.op); break;
            case A_EXT: w.ext(a.ext); break;
            case A_SAVE: save(); break;
            case A_SEED: seed(a.i, a.way, a.v, a.flag); break;
            case A_TO:
            {
                goneInputs();
                size_t k = a.k % pos.size();
                Pos p = pos[k];
                w.c.log("computeAdjointsTo position %zu (statement %zu)", k, p.n);
                w.computeAdjointsTo(p.p, p.n);
                ++rollbacks;
                for (size_t i = 0; i < w.vars.size(); ++i)
                {
                    int s = w.vars[i].s;
                    if (s < 0 || w.m.born[size_t(s)] >= long(p.n))
                        continue;
                    double got = w.read(i, int(i));
                    out.push_back(got);
                    if (!w.m.ok(s, got))
                        w.c.fail("after the partial rollback the derivative of v%zu is %.17g, the reference tape gives %.17g (scale %.3g)", i, got,
                                 w.m.D[size_t(s)], w.m.M[size_t(s)]);
                }
                if (a.flag)
                {
                    w.c.log("resetTo position %zu", k);
                    w.resetTo(p.p, p.n);
                    pos.erase(pos.begin() + long(k) + 1, pos.end());
                    counts();
                }
                else
                    clear();
                break;
            }
            case A_RESET:
            {
                size_t k = a.k % pos.size();
                w.c.log("resetTo position %zu", k);
                w.resetTo(pos[k].p, pos[k].n);
                pos.erase(pos.begin() + long(k) + 1, pos.end());
                counts();
                if (a.flag)
                    clear();
                break;
            }
            case A_CLEAR: clear(); break;
            case A_FULL:
                if (w.m.init)
                    full();
                break;
            case A_NEWREC:
                w.c.log("newRecording");
                w.newRecording();
                pos.clear();
                if (w.tape->getNumStatements() || w.tape->getNumOperations())
                    w.c.fail("after newRecording: %u statements, %u operations", w.tape->getNumStatements(), w.tape->getNumOperations());
                break;
            case A_READ:
                if (w.slots && w.status().empty())
                    w.c.fail("printStatus printed nothing");
                if (w.m.init)
                    readAll(a.way);
                break;
            case A_INPUT:
                w.beforeReg();
                w.c.log("v%zu: new input %g", w.vars.size(), a.v);
                w.addInput(a.v);
                break;
            case A_UNIQ: unique(); break;
            case A_NEST:
                w.c.log("a recording inside the recording");
                playInside(w, w.tape, *a.ext.inner);
                w.m.init = true;
                w.beforeReg();
                for (auto& u : useOuter(w, w.tape, *a.ext.inner, long(w.m.st.size()))) w.m.add(u.first, u.second);
                break;
        }
        if (w.slots)
            w.checkSlots();
    }
    // after a reset to the last saved position
    void counts()
    {
        const Pos& p = pos.back();
        if (w.m.st.size() < p.n)
            return;
        if (w.tape->getNumStatements() != p.ns || w.tape->getNumOperations() != p.no || w.tape->getPosition() != p.p)
            w.c.fail("after resetTo: %u statements, %u operations, position %u; %u, %u, %u when the position was saved", w.tape->getNumStatements(),
                     w.tape->getNumOperations(), w.tape->getPosition(), p.ns, p.no, p.p);
    }
    // every live registered variable gets a derivative of its own and keeps it
    void unique()
    {
        size_t n = w.vars.size();
        std::vector<size_t> o;
        for (size_t i = 0; i < n; ++i)
            if (w.vars[i].s >= 0)
                o.push_back(i);
        for (size_t i = 0; i < o.size(); ++i)
        {
            size_t j = (i * 7 + 3) % o.size();
            std::swap(o[i], o[j]);
        }
        w.c.log("set the derivatives of all %zu registered variables", o.size());
        for (size_t i : o) w.write(i, int(i), 100.0 + double(i), false);
        for (size_t i : o)
        {
            double got = w.read(i, int(i + 1));
            if (got != 100.0 + double(i))
                w.c.fail("the derivative of v%zu was set to %g, reading gives %g", i, 100.0 + double(i), got);
        }
        uniques += o.size() > 1;
        clear();
    }
    int uniques = 0;
    // inputs that are gone have no derivative to accumulate into: start from zero when there is one pending
    void goneInputs()
    {
        for (size_t i = 0; i < w.m.D.size(); ++i)
            if (w.m.dead[i] && w.m.born[i] < 0 && w.m.M[i] != 0)
                return clear();
    }
    void full()
    {
        goneInputs();
        if (!w.m.init)
            return;
        w.c.log("computeAdjoints");
        w.computeAdjoints();
        ++rollbacks;
        for (size_t i = 0; i < w.vars.size(); ++i)
        {
            int s = w.vars[i].s;
            if (s < 0 || !w.m.readable(s))
                continue;
            double got = w.read(i, int(i));
            out.push_back(got);
            if (!w.m.ok(s, got))
                w.c.fail("after the rollback the derivative of v%zu is %.17g, the reference tape gives %.17g (scale %.3g)", i, got,
                         w.m.D[size_t(s)], w.m.M[size_t(s)]);
        }
        trim();
    }
    void trim()
    {
        while (!pos.empty() && pos.back().n > w.m.st.size()) pos.pop_back();
    }
    void clear()
    {
        w.c.log("clearDerivatives");
        w.tape->clearDerivatives();
        w.m.clearD();
        trim();
    }
    void play(const Script& s)
    {
        for (auto& a : s) act(a);
    }
};

// a script in a nested recording leaves the recordings around it alone
struct Nest
{
    TP* t;
    std::unique_ptr<xad::ScopedNestedRecording<TP>> s;
    Nest(TP* tt, bool byHand) : t(byHand ? tt : nullptr)
    {
        if (byHand)
            t->newNestedRecording();
        else
            s.reset(new xad::ScopedNestedRecording<TP>(tt));
    }
    ~Nest()
    {
        if (t)
            t->endNestedRecording();
    }
};
// a nested recording whose result depends on variables of the outer one: its rollback goes on to their derivatives.
// Returns the contributions. The variables have been registered before statement end.
inline std::vector<std::pair<int, double>> useOuter(World& w, TP* t, const ScriptBox& b, long end)
{
    std::vector<std::pair<int, double>> res;
    std::vector<size_t> ix;
    for (size_t i = 0; i < w.vars.size(); ++i)
        if (w.vars[i].s >= 0 && w.m.born[size_t(w.vars[i].s)] <= end)
            ix.push_back(i);
    if (ix.empty() || !b.use)
        return res;
    const Var &p = w.vars[ix[b.o[0] % ix.size()]], &q = w.vars[ix[b.o[1] % ix.size()]];
    double f = b.v0 == 0 ? 2 : b.v0;
    w.c.log("{ nested recording (%s): y = %g * v%zu + %g * v%zu, dy = %g", b.use == 1 ? "expressions" : "by hand", b.k[0], ix[b.o[0] % ix.size()],
            b.k[1], ix[b.o[1] % ix.size()], f);
    {
        Nest nested(t, b.byHand);
        if (b.use == 1)
        {
            AD u = T(b.k[0]) * *p.x;
            AD y = u + *q.x * T(b.k[1]);
            xad::derivative(y) = T(f);
            t->computeAdjoints();
            if (double(xad::value(y)) != double(T(T(T(b.k[0]) * T(p.v)) + T(T(q.v) * T(b.k[1])))) && w.ints)
                w.c.fail("value in the nested recording: %.17g", double(xad::value(y)));
        }
        else if (nested.s)
        {
            nested.s->incrementAdjoint(p.x->getSlot(), T(b.k[0] * f));
            nested.s->incrementAdjoint(q.x->getSlot(), T(b.k[1] * f));
        }
        else
        {
            t->derivative(p.x->getSlot()) += T(b.k[0] * f);
            t->incrementAdjoint(q.x->getSlot(), T(b.k[1] * f));
        }
    }
    w.c.log("} nested recording");
    w.c.label("nested recordings of outer variables");
    res.push_back({p.s, b.k[0] * f});
    res.push_back({q.s, b.k[1] * f});
    return res;
}
inline void playInside(World& w, TP* t, const ScriptBox& b)
{
    // all derivatives the outer variables have now (those created later than the checkpoint still own their places)
    std::vector<double> before;
    std::vector<char> has;
    unsigned nv = t->getNumVariables(), ns = t->getNumStatements(), no = t->getNumOperations();
    auto outer = [&](std::vector<double>& to) {
        for (const World* p = &w; p; p = p->parent)
            for (auto& v : p->vars)
                if (v.s >= 0)
                    to.push_back(double(t->derivative(v.x->getSlot())));
    };
    outer(before);
    w.c.log("{ nested recording");
    {
        Nest nested(t, b.byHand);
        World in(w.c, t);
        in.ints = w.ints;
        in.m.exact = w.m.exact;
        in.slots = w.slots;
        in.parent = &w;
        in.hook = w.hook;
        in.others = t->getNumVariables();
        if (in.others != nv)
            w.c.fail("opening a nested recording changed the number of variables from %u to %u", nv, in.others);
        for (int i = 0; i < b.nin; ++i) in.addInput(b.v0 + i);
        Player p(in);
        p.play(b.s);
        w.inner += 1 + in.inner;
        while (!in.vars.empty()) in.removeVar((in.vars.size() * 5 + 1) % in.vars.size());
        if (t->getNumVariables() != nv)
            w.c.fail("%u variables after all of the nested recording are gone, %u before", t->getNumVariables(), nv);
    }
    w.c.log("} nested recording");
    if (t->getNumVariables() != nv || t->getNumStatements() != ns || t->getNumOperations() != no)
        w.c.fail("a nested recording changed the counts from %u variables, %u statements, %u operations to %u, %u, %u", nv, ns, no,
                 t->getNumVariables(), t->getNumStatements(), t->getNumOperations());
    std::vector<double> after;
    outer(after);
    for (size_t i = 0; i < before.size(); ++i)
        if (memcmp(&before[i], &after[i], sizeof(double)))
            w.c.fail("a nested recording changed an outer derivative from %.17g to %.17g", before[i], after[i]);
}

inline void ExtCb::computeAdjoint(TP* t)
{
    Ext& e = w->exts[size_t(id)];
    w->cbLog.push_back(id);
    ++e.called;
    bool thr = w->throwIn >= 0 && --w->throwIn < 0;
    if (thr && w->throwAt == 0)
        throw CallbackError();
    T a = t->getAndResetOutputAdjoint(e.outSlot);
    if (thr && e.style == 0)
        throw CallbackError();
    if (e.style == 0 || e.style == 3)
    {
        for (size_t j = 0; j < e.coef.size(); ++j) t->incrementAdjoint(e.inSlot[j], T(e.coef[j]) * a);
        if (e.style == 3)
        {
            playInside(*w, t, *e.inner);
            long at = 0;
            while (w->m.st[size_t(at)].cb != id) ++at;
            e.extra = useOuter(*w, t, *e.inner, at - 1);
        }
        return;
    }
    AD x[3];
    for (int j = 0; j < 3; ++j) x[j] = T(e.val[size_t(j)]);
    if (e.style == 2)
        t->registerInputs(x, x + 3);
    {
        xad::ScopedNestedRecording<TP> nested(t);
        if (e.style == 1)
            t->registerInputs(x, x + 3);
        TP::position_type start = t->getPosition();
        AD y = T(e.c[0]) * x[0] * x[1];
        {
            AD z = x[2] * T(e.c[1]);
            y = y + z + T(e.k0);
        }
        if (thr)
        {
            if (e.style == 1)
                for (auto& q : x) q = AD();
            throw CallbackError();
        }
        if (!y.shouldRecord())
            t->registerOutput(y);
        xad::derivative(y) = a;
        if (e.style == 1)
        {
            // registered inside: their statements are part of the nested recording
            nested.getTape()->computeAdjointsTo(start);
        }
        else
            nested.computeAdjoints();
        for (size_t j = 0; j < 3; ++j) nested.incrementAdjoint(e.inSlot[j], xad::derivative(x[j]));
        if (e.style == 1)
            for (auto& q : x) q = AD();
    }
}
}  // namespace world

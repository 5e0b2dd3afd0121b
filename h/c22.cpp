// C22: computations on passive variables need no tape and leave no trace on one.
#include "common.hpp"
#include "world.hpp"
#ifdef FWD
typedef xad::FReal<T> V;
#else
typedef xad::AReal<T> V;
#endif
static const int NV = 4;
typedef ref::Jet<T, NV, 1> J;

struct Counts
{
    unsigned v, s, o, cb, pos;
    size_t mem;
    explicit Counts(const xad::Tape<T>& t) : v(t.getNumVariables()), s(t.getNumStatements()), o(t.getNumOperations()), cb(t.getNumCallbacks()), pos(t.getPosition()), mem(t.getMemory()) {}
    void same(eng::Ctx& c, const xad::Tape<T>& t, const char* what) const
    {
        Counts n(t);
        if (v != n.v || s != n.s || o != n.o || cb != n.cb || pos != n.pos || mem != n.mem)
            c.fail("%s: %u variables, %u statements, %u operations, %zu bytes -> %u, %u, %u, %zu", what, v, s, o, mem, n.v, n.s, n.o, n.mem);
    }
};
// a passive program, run step by step
struct Passive
{
    eng::Ctx& c;
    std::vector<V> x;
    std::vector<J> jx;
    prog::Exec<V, T> ex;
    prog::Exec<J, T> ej;
    std::vector<prog::Op> ops;
    size_t n = 0;
    Passive(eng::Ctx& cc, int maxOps) : c(cc), ex(x), ej(jx)
    {
        prog::GenCfg g;
        g.nin = int(c.range(1, NV));
        g.moveInputs = c.chance(50);
        for (int i = 0; i < g.nin; ++i)
        {
            T v = T(c.sreal(3));
            x.push_back(V(v));
            jx.push_back(J(v));
            c.log("passive %d = %.9g", i, double(v));
        }
        ex.movesInputs = ej.movesInputs = g.moveInputs;
        prog::GenState st{g.nin};
        ops = prog::gen(c, g, st, 1, maxOps);
        prog::logOps(c, ops);
    }
    bool more() const { return n < ops.size(); }
    void step()
    {
        ex.step(ops[n]);
        ej.step(ops[n]);
        syncValues(c, ex, ej, n);
        ++n;
    }
    void untouched(const char* when)
    {
        for (size_t i = 0; i < ex.total(); ++i)
        {
            const V& v = ex.at(int(i));
#ifdef FWD
            if (!(xad::derivative(v) == T(0)))
                c.fail("%s: passive variable %zu has the tangent %.9g", when, i, double(xad::derivative(v)));
#else
            if (v.shouldRecord() || v.getSlot() != V::INVALID_SLOT)
                c.fail("%s: passive variable %zu is on the tape", when, i);
            if (xad::Tape<T>::getActive() && !(xad::derivative(v) == T(0)))
                c.fail("%s: passive variable %zu has the derivative %.9g", when, i, double(xad::derivative(v)));
#endif
        }
    }
};

// tapes come and go around a passive program
ENG_PROP(alone, 2)
{
    Passive p(c, 24);
    std::unique_ptr<xad::Tape<T>> tape;
    typedef xad::Tape<typename std::conditional<sizeof(T) == 8, float, double>::type> TO;
    std::unique_ptr<TO> other;
    int used = 0;
    while (p.more())
    {
        switch (c.below(12))
        {
            case 0:
                if (!tape)
                {
                    c.log("tape created");
                    tape.reset(new xad::Tape<T>(c.chance(70)));
                }
                break;
            case 1:
                if (tape)
                    c.log("tape destroyed");
                tape.reset();
                break;
            case 2:
                if (tape)
                {
                    if (tape->isActive())
                        tape->deactivate();
                    else
                        tape->activate();
                    c.log("tape %sactivated", tape->isActive() ? "" : "de");
                }
                break;
            case 3:
                if (tape)
                {
                    c.log("newRecording");
                    tape->newRecording();
                }
                break;
            case 4:
                if (tape)
                    tape->clearAll();
                break;
            case 5:
                if (!other)
                    other.reset(new TO);
                break;
            default: break;
        }
        if (tape)
        {
            Counts b(*tape);
            p.step();
            b.same(c, *tape, "a passive statement changed the tape");
            ++used;
        }
        else
            p.step();
        p.untouched("after the statement");
    }
    if (other && (other->getNumStatements() || other->getNumVariables() || other->getNumOperations()))
        c.fail("something was recorded on the tape of another type");
    {
        // destroyed while whatever tape is there
        p.ex.clear();
        p.x.clear();
    }
    if (tape && tape->getNumVariables())
        c.fail("destroying passive variables changed the number of variables to %u", tape->getNumVariables());
    if (p.ops.size() >= 3)
        c.nontrivial();
    c.label(used ? "with tapes" : "without");
}
#ifndef FWD
using namespace world;
// a passive program in between of a recording and its rollbacks
ENG_PROP(between, 2)
{
    ScriptCfg g;
    g.max = c.pick(std::vector<int>{10, 30});
    g.ext = c.chance(40);
    g.newrec = c.chance(40);
    g.nest = c.chance(40);
    g.deep = g.ext && c.chance(40) ? 1 : 0;
    Script s = genScript(c, g);
    bool ints = c.chance(70);
    Passive p(c, 20);
    std::vector<double> out[2];
    int rollbacks = 0, inside = 0;
    for (int k = 0; k < 2; ++k)
    {
        TP tape;
        World w(c, &tape);
        w.ints = ints;
        w.m.exact = ints;
        int left = 0;
        if (k)
            w.hook = [&](World& x) {
                for (int i = 0; i < 2 && p.more(); ++i)
                {
                    Counts b(*x.tape);
                    p.step();
                    b.same(c, *x.tape, "a passive statement changed the tape");
                    for (size_t q = 0; q < p.ex.total(); ++q)
                        if (p.ex.at(int(q)).shouldRecord())
                            c.fail("passive variable %zu is on the tape", q);
                    inside += x.parent != nullptr;
                    ++left;
                }
            };
        for (int i = 0; i < 2; ++i) w.addInput(double(i + 1));
        w.newRecording();
        Player q(w);
        q.play(s);
        if (!w.vars.empty())
        {
            q.seed(0, 0, 1, false);
            q.full();
        }
        out[k] = q.out;
        rollbacks = q.rollbacks;
    }
    if (out[0].size() != out[1].size())
        c.fail("%zu results with a passive computation in between, %zu without", out[1].size(), out[0].size());
    for (size_t i = 0; i < out[0].size(); ++i)
        if (memcmp(&out[0][i], &out[1][i], sizeof(double)))
            c.fail("result %zu is %.17g with a passive computation in between, %.17g without", i, out[1][i], out[0][i]);
    if (p.n >= 3 && rollbacks >= 1 && out[0].size() >= 3)
        c.nontrivial();
    if (inside)
        c.label("passive statements inside callbacks");
}
// programs on a mix of registered and passive variables
ENG_PROP(mixed, 2)
{
    prog::GenCfg g;
    g.nin = int(c.range(2, NV));
    g.writeInputs = c.chance(40);
    TP tape;
    std::vector<V> x;
    std::vector<J> jx;
    std::vector<char> reg;
    for (int i = 0; i < g.nin; ++i)
    {
        T v = T(c.sreal(3));
        x.push_back(V(v));
        reg.push_back(c.chance(50));
        jx.push_back(reg.back() ? J::input(v, i) : J(v));
        if (reg.back())
            tape.registerInput(x.back());
        c.log("input %d = %.9g%s", i, double(v), reg.back() ? ", registered" : "");
    }
    tape.newRecording();
    prog::GenState st{g.nin};
    auto ops = prog::gen(c, g, st, 1, 24);
    prog::logOps(c, ops);
    prog::Exec<V, T> ex(x);
    prog::Exec<J, T> ej(jx);
    int silent = 0;
    bool active = false;
    for (size_t i = 0; i < ops.size(); ++i)
    {
        const prog::Op& o = ops[i];
        // a statement on variables that are not on the tape records nothing
        bool anyReg = o.code == prog::ACCUM || o.code == prog::DEL || o.code == prog::MOVE_NEW || o.code == prog::MOVE_ASSIGN || (o.code >= prog::VPUSH && o.code <= prog::VROT);
        for (int q : {o.r, o.a, o.b, o.c})
            if (q >= 0 && size_t(q) < ex.total() && ex.at(q).shouldRecord())
                anyReg = true;
        Counts b(tape);
        ex.step(o);
        ej.step(o);
        if (!anyReg)
        {
            b.same(c, tape, "a statement on passive variables changed the tape");
            ++silent;
        }
        syncValues(c, ex, ej, i);
    }
    int r = int(ex.total() - 1 - c.below(ex.total()));
    if (ej.at(r).constant() == false && !ex.at(r).shouldRecord())
        c.fail("variable %d depends on the registered inputs but is not on the tape", r);
    c.log("output: variable %d", r);
    if (!ex.at(r).shouldRecord())
        tape.registerOutput(ex.at(r));
    xad::derivative(ex.at(r)) = T(1);
    tape.computeAdjoints();
    for (int i = 0; i < g.nin; ++i)
    {
        if (!reg[size_t(i)])
        {
            if (!g.writeInputs && (x[size_t(i)].shouldRecord() && r != i))
                c.fail("passive input %d is on the tape", i);
            continue;
        }
        checkD<J>(c, "adjoint of input", i, double(xad::derivative(x[size_t(i)])), ej.at(r).d(i), ej.at(r).md(i));
        active |= ej.at(r).d(i) != 0;
    }
    if (ops.size() >= 3 && (active || silent >= 2))
        c.nontrivial();
    if (silent)
        c.label("statements that record nothing");
}
// as many operations as with plain numbers in place of the passive variables
template <class A, class B, class C>
static unsigned long count(int f, const A& a, const B& b, const C& d, T& val, unsigned& ops)
{
    TP* t = TP::getActive();
    unsigned s0 = t->getNumStatements(), o0 = t->getNumOperations();
    V r;
    switch (f)
    {
        case 0: r = a + b; break;
        case 1: r = a * b + d; break;
        case 2: r = a * d - b / (d * d + T(1)); break;
        case 3: r = sin(a) * b - cos(d); break;
        case 4: r = pow(a * a + T(1), d) + b; break;
        case 5: r = fmax(a, b) * fmin(b, d); break;
        case 6: r = a * T(2) + b * d + a; break;
        case 7: r = (a + T(1)) * (b - d) / (a * a + T(3)); break;
        case 8: r = d - a * b - b; break;
        case 9: r = hypot(a, b) + atan2(d, a * a + T(1)); break;
        case 10: r = exp(a * T(0.1)) + fmod(b, T(3)) + d; break;
        default: r = -a + b - d * d; break;
    }
    val = xad::value(r);
    ops = t->getNumOperations() - o0;
    unsigned s = t->getNumStatements() - s0;
    return s;
}
ENG_PROP(operations, 1)
{
    TP tape;
    T a = T(c.sreal(3)), b = T(c.sreal(3)), d = T(c.sreal(3));
    V ra = a, rb = b, rd = d;
    tape.registerInput(ra);
    tape.registerInput(rb);
    tape.registerInput(rd);
    tape.newRecording();
    V pa = a, pb = b, pd = d;
    int f = int(c.below(12));
    T v1, v2;
    unsigned o1 = 0, o2 = 0;
    unsigned long s1, s2;
    int mask = int(c.range(1, 6));
    c.log("form %d, registered: %d", f, mask);
    switch (mask)
    {
        case 1: s1 = count(f, ra, pb, pd, v1, o1); s2 = count(f, ra, b, d, v2, o2); break;
        case 2: s1 = count(f, pa, rb, pd, v1, o1); s2 = count(f, a, rb, d, v2, o2); break;
        case 3: s1 = count(f, ra, rb, pd, v1, o1); s2 = count(f, ra, rb, d, v2, o2); break;
        case 4: s1 = count(f, pa, pb, rd, v1, o1); s2 = count(f, a, b, rd, v2, o2); break;
        case 5: s1 = count(f, ra, pb, rd, v1, o1); s2 = count(f, ra, b, rd, v2, o2); break;
        default: s1 = count(f, pa, rb, rd, v1, o1); s2 = count(f, a, rb, rd, v2, o2);
    }
    if (!(std::fabs(double(v1) - double(v2)) <= 1e-4 * (1 + std::fabs(double(v2)))))
        c.fail("value %.9g with passive variables, %.9g with numbers", double(v1), double(v2));
    if (o1 != o2 || s1 != s2)
        c.fail("%lu statements and %u operations with passive variables, %lu and %u with plain numbers", s1, o1, s2, o2);
    if (pa.shouldRecord() || pb.shouldRecord() || pd.shouldRecord())
        c.fail("a passive operand is on the tape");
    c.nontrivial();
}
#endif

// C05: nested differentiation modes of any depth against one reference.
//
// The type X_TYPE is a tower of FReal/AReal levels.  A number of level 1..n is a multilinear
// polynomial in nilpotent variables e_1..e_n; level k yields the coefficient of e_k: a forward
// level carries it as its tangent, an adjoint level obtains it by contracting the adjoints of its
// inputs with the directions.  Reference: Taylor coefficients of the program in e_1..e_n.
#include "common.hpp"
#include <deque>
#include <memory>
#ifndef X_TYPE
#define X_TYPE xad::AReal<xad::FReal<T>>
#endif
typedef X_TYPE X;

namespace prog
{
template <class I> struct Nested<xad::AReal<xad::AReal<I>>> : std::true_type {};
template <class I> struct Nested<xad::AReal<xad::FReal<I>>> : std::true_type {};
template <class I> struct Nested<xad::FReal<xad::AReal<I>>> : std::true_type {};
template <class I> struct Nested<xad::FReal<xad::FReal<I>>> : std::true_type {};
}  // namespace prog
template <class A>
struct Lv
{
    static const int n = 0;
};
template <class I>
struct Lv<xad::FReal<I>>
{
    static const int n = 1 + Lv<I>::n;
    static const bool fwd = true;
    typedef I inner;
};
template <class I>
struct Lv<xad::AReal<I>>
{
    static const int n = 1 + Lv<I>::n;
    static const bool fwd = false;
    typedef I inner;
};
static const int N = Lv<X>::n;
typedef ref::Jet<T, N, N> J;
typedef long double LD;

inline T deep(T x) { return x; }
template <class I>
T deep(const xad::AReal<I>& x);
template <class I>
T deep(const xad::FReal<I>& x) { return deep(x.value()); }
template <class I>
T deep(const xad::AReal<I>& x) { return deep(x.value()); }

// coefficient of the product of the e_k in set S (bit k-1 for level k)
static int idxOf(int S)
{
    std::array<int, N> s;
    for (int k = 0; k < N; ++k) s[size_t(k)] = (S >> k) & 1;
    return ref::Mono<N, N>::get().find(s);
}
struct Poly
{
    T c[1 << N];
    Poly()
    {
        for (auto& x : c) x = 0;
    }
    J jet() const
    {
        J j(c[0]);
        for (int S = 1; S < (1 << N); ++S)
        {
            j.c[idxOf(S)] = c[S];
            j.m[idxOf(S)] = std::fabs(LD(c[S]));
        }
        return j;
    }
};
static bool adjAt[N + 2];  // level k (1-based) is an adjoint level

// one adjoint level: its tape and the registered inputs with their directions
template <class A, bool Fwd = Lv<A>::fwd>
struct Level
{
    typedef typename Lv<A>::inner I;
    void start() {}
};
template <class A>
struct Level<A, false>
{
    typedef typename Lv<A>::inner I;
    xad::Tape<I> tape;
    std::deque<std::pair<A*, I>> inputs;
    void start() { tape.newRecording(); }
};
template <class A>
struct Levels;
struct Base
{
};
template <class A, int n = Lv<A>::n>
struct Tower
{
    // inner levels are constructed first and destroyed last
    Tower<typename Lv<A>::inner> below;
    Level<A> here;
    void start(bool innerFirst)
    {
        if (innerFirst)
            below.start(innerFirst);
        here.start();
        if (!innerFirst)
            below.start(innerFirst);
    }
};
template <class A>
struct Tower<A, 0>
{
    void start(bool) {}
};

template <class A>
typename std::enable_if<Lv<A>::n == 0, bool>::type hasAdj(int) { return false; }
template <class A>
typename std::enable_if<(Lv<A>::n > 0), bool>::type hasAdj(int) { return !Lv<A>::fwd || hasAdj<typename Lv<A>::inner>(0); }

struct Fill
{
    const Poly& p;
    // element of algebra(k..n) holding the coefficients of the sets S u (subsets of k..n)
    void go(T& x, int S, int, Tower<T, 0>&) { x = p.c[S]; }
    template <class I>
    void go(xad::FReal<I>& x, int S, int k, Tower<xad::FReal<I>>& tw)
    {
        go(xad::value(x), S, k + 1, tw.below);
        go(xad::derivative(x), S | (1 << (k - 1)), k + 1, tw.below);
    }
    template <class I>
    void go(xad::AReal<I>& x, int S, int k, Tower<xad::AReal<I>>& tw)
    {
        go(xad::value(x), S, k + 1, tw.below);
        bool any = false;
        for (int R = 0; R < (1 << N); ++R)
            if ((R & (1 << (k - 1))) && (R & S) == S && p.c[R] != 0)
                any = true;
        if (!any)
            return;
        tw.here.tape.registerInput(x);
        tw.here.inputs.emplace_back();
        tw.here.inputs.back().first = &x;
        go(tw.here.inputs.back().second, S | (1 << (k - 1)), k + 1, tw.below);
    }
};

struct Check
{
    eng::Ctx& c;
    const J& want;
    const char* what;
    int stage;
    bool seen = false;
    void go(const T& x, int S, int)
    {
        LD w = want.c[idxOf(S)], m = want.m[idxOf(S)];
        if (!(std::fabs(LD(x) - w) <= LD(TOL) * m + TINY))
            c.fail("%s, stage %d, derivative selected by levels %d: got %.17g, reference %.17Lg (scale %.3Lg)", what, stage, S, double(x), w, m);
        if (S == (1 << N) - 1 && w != 0)
            seen = true;
    }
    template <class I>
    void go(const xad::FReal<I>& x, int S, int k)
    {
        go(x.value(), S, k + 1);
        go(x.derivative(), S | (1 << (k - 1)), k + 1);
    }
    template <class I>
    void go(const xad::AReal<I>& x, int S, int k)
    {
        go(x.value(), S, k + 1);
    }
};

// differentiates the results from level k on
template <class A>
struct Diff
{
    typedef typename Lv<A>::inner I;
    typedef std::integral_constant<bool, Lv<A>::fwd> F;
    static void run(eng::Ctx& c, std::vector<A*>& ys, std::vector<I*>& ws, Tower<A>& tw, int k, int done, const J& want, bool& seen)
    {
        I s = I();
        gather(ys, ws, tw, s, F());
        done |= 1 << (k - 1);
        Check ck{c, want, "derivative", k};
        ck.go(s, done, k + 1);
        seen |= ck.seen;
        next(c, s, tw, k, done, want, seen, std::integral_constant<int, Lv<I>::n>());
    }
    static void gather(std::vector<A*>& ys, std::vector<I*>& ws, Tower<A>&, I& s, std::true_type)
    {
        for (size_t i = 0; i < ys.size(); ++i)
            if (ws[i])
                s += *ws[i] * xad::derivative(*ys[i]);
            else
                s += xad::derivative(*ys[i]);
    }
    static void gather(std::vector<A*>& ys, std::vector<I*>& ws, Tower<A>& tw, I& s, std::false_type)
    {
        bool any = false;
        for (size_t i = 0; i < ys.size(); ++i)
            if (ys[i]->shouldRecord())
            {
                any = true;
                if (ws[i])
                    xad::derivative(*ys[i]) += *ws[i];
                else
                    xad::derivative(*ys[i]) = xad::derivative(*ys[i]) + T(1);
            }
        if (!any)
            return;
        tw.here.tape.computeAdjoints();
        for (auto& in : tw.here.inputs) s += in.second * xad::derivative(*in.first);
    }
    template <int R>
    static void next(eng::Ctx& c, I& s, Tower<A>& tw, int k, int done, const J& want, bool& seen, std::integral_constant<int, R>)
    {
        std::vector<I*> ys{&s};
        std::vector<typename Lv<I>::inner*> ws{nullptr};
        Diff<I>::run(c, ys, ws, tw.below, k + 1, done, want, seen);
    }
    static void next(eng::Ctx&, I&, Tower<A>&, int, int, const J&, bool&, std::integral_constant<int, 0>) {}
};

ENG_PROP(tower, 1)
{
    prog::GenCfg g;
    g.nin = int(c.range(1, 3));
    // an adjoint below the first level identifies an input by the tape slot of one of its parts, which
    // an assignment to the variable as a whole replaces
    bool innerAdj = hasAdj<Lv<X>::inner>(0);
    g.writeInputs = !innerAdj && c.chance(50);
    // one round on a fresh set of tapes, sometimes a second recording on the same tapes is not needed here (C07)
    std::vector<Poly> in(static_cast<size_t>(g.nin));
    bool round = c.chance(35);
    for (int i = 0; i < g.nin; ++i)
    {
        // values that produce zero intermediate derivatives and adjoints more often
        in[size_t(i)].c[0] = round ? T(c.range(-2, 2)) : T(c.sreal(2));
        for (int S = 1; S < (1 << N); ++S)
        {
            bool single = (S & (S - 1)) == 0;
            if (single ? !c.chance(15) : c.chance(40))
                in[size_t(i)].c[S] = round ? T(c.range(-1, 2)) : T(c.sreal(1.5));
        }
    }
    prog::GenState st{g.nin};
    auto ops = prog::gen(c, g, st, 1, 14);
    for (int i = 0; i < g.nin; ++i)
    {
        c.log("input %d = %.9g", i, double(in[size_t(i)].c[0]));
        for (int S = 1; S < (1 << N); ++S) c.log("   coefficient[%d] %.9g", S, double(in[size_t(i)].c[S]));
    }
    prog::logOps(c, ops);
    int nout = int(c.range(1, 2));
    std::vector<int> outs;
    std::vector<Poly> wp;
    for (int k = 0; k < nout; ++k)
    {
        outs.push_back(int(st.total() - 1 - int(c.below(uint64_t(st.total())))));
        Poly w;
        w.c[0] = c.chance(30) ? T(1) : round ? T(c.range(-1, 2)) : T(c.sreal(2));
        // seeds that carry derivatives themselves
        for (int S = 2; S < (1 << N); S += 2)
            if (c.chance(30))
                w.c[S] = round ? T(c.range(-1, 2)) : T(c.sreal(1));
        wp.push_back(w);
        c.log("output variable %d, seed %.9g", outs.back(), double(w.c[0]));
        for (int S = 2; S < (1 << N); S += 2) c.log("   coefficient[%d] %.9g", S, double(w.c[S]));
    }

    Tower<X> tw;
    bool seen = false;
    {
        std::vector<X> x(static_cast<size_t>(g.nin));
        std::vector<J> jx;
        for (int i = 0; i < g.nin; ++i)
        {
            Fill f{in[size_t(i)]};
            f.go(x[size_t(i)], 0, 1, tw);
            jx.push_back(in[size_t(i)].jet());
        }
        typedef Lv<X>::inner I;
        std::deque<I> w;
        std::vector<I*> ws;
        for (int k = 0; k < nout; ++k)
        {
            w.emplace_back();
            Fill f{wp[size_t(k)]};
            f.go(w.back(), 0, 2, tw.below);
            ws.push_back(&w.back());
        }
        tw.start(c.chance(50));
        prog::Exec<X, T> ex(x);
        prog::Exec<J, T> ej(jx);
        for (size_t i = 0; i < ops.size(); ++i)
        {
            c.label(prog::cname(ops[i].code));
            ex.step(ops[i]);
            ej.step(ops[i]);
            for (size_t q = 0; q < ex.total(); ++q)
            {
                double xv = double(deep(ex.at(int(q)))), jv = double(ej.at(int(q)).v());
                if (!(std::fabs(xv - jv) <= (sizeof(T) == 8 ? 1e-12 : 1e-4) * (1 + std::fabs(jv))))
                    c.fail("value of variable %zu after statement %zu: got %.17g, plain arithmetic gives %.17g", q, i, xv, jv);
                ej.at(int(q)).setv(T(xv));
                Check ck{c, ej.at(int(q)), "forward part of a variable", int(i)};
                ck.go(ex.at(int(q)), 0, 1);
            }
        }
        J want;
        std::vector<X*> ys;
        for (int k = 0; k < nout; ++k)
        {
            X& y = ex.at(outs[size_t(k)]);
            J& yj = ej.at(outs[size_t(k)]);
            ys.push_back(&y);
            J t = ref::mulraw(yj, wp[size_t(k)].jet());
            want = k ? ref::lin(want, 1, t, 1, T(0)) : t;
        }
        Diff<X>::run(c, ys, ws, tw, 1, 0, want, seen);
    }
    if (seen && ops.size() >= 2)
        c.nontrivial();
}

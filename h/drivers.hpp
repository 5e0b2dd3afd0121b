// Functions of any number of inputs and outputs for the Jacobian and Hessian drivers.
#pragma once
#include "common.hpp"
#include <array>
#include <deque>
#include <list>
#include <functional>
namespace prog
{
template <class I> struct Nested<xad::AReal<xad::FReal<I>>> : std::true_type {};
template <class I> struct Nested<xad::FReal<xad::FReal<I>>> : std::true_type {};
}  // namespace prog
namespace drv
{
static const int NV = 6;
inline T deep(T x) { return x; }
template <class I> T deep(const xad::FReal<I>& x);
template <class I> T deep(const xad::AReal<I>& x) { return deep(x.value()); }
template <class I> T deep(const xad::FReal<I>& x) { return deep(x.value()); }

struct Out
{
    int kind, r, a, b;
    double k;
};
// a function given by a random program: outputs are variables of the program, inputs, constants and products of these
// what a function leaves in its argument, which it gets by reference
template <class V>
void scribble(V& v, int how)
{
    switch (how)
    {
        case 1:
            for (auto& x : v) x = x * x + x;
            break;
        case 2: std::reverse(v.begin(), v.end()); break;
        case 3: v.clear(); break;
        case 4: v.insert(v.begin(), v.empty() ? typename V::value_type(1) : v.back()); break;
        case 5:
            for (auto& x : v) x = typename V::value_type(0);
            break;
        case 6:
            if (v.size() > 1)
                v[0] = std::move(v[1]);
            break;
        default: break;
    }
}
inline int drawScribble(eng::Ctx& c)
{
    int q = c.chance(30) ? int(c.range(1, 6)) : 0;
    if (q)
    {
        c.log("the function modifies its argument (%d)", q);
        c.label("function modifies its argument");
    }
    return q;
}
struct ProgFn
{
    int n, np;
    std::vector<int> s1, s2;  // program input i is v[s1] or w*v[s1]+v[s2]
    std::vector<double> w;
    std::vector<prog::Op> ops;
    std::vector<Out> outs;
    bool inPlace;

    ProgFn(eng::Ctx& c, int nn, int m) : n(nn)
    {
        np = int(c.range(1, 4));
        inPlace = n == np && c.chance(50);
        prog::GenCfg g;
        g.nin = np;
        g.writeInputs = !inPlace;
        for (int i = 0; i < np; ++i)
        {
            s1.push_back(n ? (inPlace ? i : int(c.below(uint64_t(n)))) : -1);
            s2.push_back(n && !inPlace && c.chance(30) ? int(c.below(uint64_t(n))) : -1);
            w.push_back(double(c.range(-4, 4)) * 0.5);
        }
        prog::GenState st{np};
        ops = prog::gen(c, g, st, 1, 12);
        for (int i = 0; i < m; ++i)
        {
            Out o;
            o.kind = c.weighted({5, 1, 1, 2, 2, 1});
            o.r = int(c.below(64));
            o.a = int(c.below(64));
            o.b = int(c.below(64));
            o.k = double(c.range(-4, 4)) * 0.25;
            outs.push_back(o);
        }
        c.log("program input i = %s", inPlace ? "the function's inputs themselves" : "copies / combinations of the function's inputs");
        if (c.verbose)
        {
            for (int i = 0; i < np; ++i) c.log("  p%d = %s v%d %s v%d (w=%g)", i, s2[size_t(i)] >= 0 ? "w *" : "", s1[size_t(i)], s2[size_t(i)] >= 0 ? "+" : "", s2[size_t(i)], w[size_t(i)]);
            prog::logOps(c, ops);
            for (auto& o : outs) c.log("  output kind %d r=%d a=%d b=%d k=%g", o.kind, o.r, o.a, o.b, o.k);
        }
    }
    // rec: values after every statement, written by the first run and read by the reference
    template <class V, class Sync>
    std::vector<V> run(std::vector<V>& v, Sync&& sync) const
    {
        std::vector<V> p;
        for (int i = 0; i < np; ++i)
        {
            size_t q = size_t(i);
            if (inPlace)
                break;
            if (s1[q] < 0)
                p.push_back(V(T(w[q] + 0.3)));
            else if (s2[q] < 0)
                p.push_back(v[size_t(s1[q])]);
            else
                p.push_back(T(w[q]) * v[size_t(s1[q])] + v[size_t(s2[q])]);
        }
        prog::Exec<V, T> ex(inPlace ? v : p);
        sync(ex);
        for (auto& o : ops)
        {
            ex.step(o);
            sync(ex);
        }
        std::vector<V> y;
        for (auto& o : outs)
        {
            int r = int(ex.total()) - 1 - o.r % int(ex.total());
            switch (n == 0 && o.kind >= 2 && o.kind < 5 ? 0 : o.kind)
            {
                case 1: y.push_back(V(T(o.k))); break;
                case 2: y.push_back(v[size_t(o.a % n)]); break;
                case 3: y.push_back(ex.at(r) * v[size_t(o.a % n)]); break;
                case 4: y.push_back(v[size_t(o.a % n)] * v[size_t(o.b % n)] + T(o.k)); break;
                case 5:
                    if (!y.empty())
                    {
                        V t = y[size_t(o.a) % y.size()];
                        y.push_back(t);
                        break;
                    }
                default: y.push_back(ex.at(r));
            }
        }
        return y;
    }
};
struct NoSync
{
    template <class E> void operator()(E&) const {}
};
struct Values
{
    std::vector<T>* t;
    template <class E> void operator()(E& ex) const
    {
        for (size_t i = 0; i < ex.total(); ++i) t->push_back(deep(ex.at(int(i))));
    }
};
// sum of k v_a v_b and k sin(v_a) terms: any dimension
struct WideFn
{
    struct Term
    {
        int a, b;
        double k;
    };
    int n;
    std::vector<std::vector<Term>> rows;
    WideFn(eng::Ctx& c, int nn, int m) : n(nn)
    {
        for (int i = 0; i < m; ++i)
        {
            rows.emplace_back();
            int t = n ? int(c.range(0, 5)) : 0;
            for (int j = 0; j < t; ++j)
                rows.back().push_back({int(c.below(uint64_t(n))), int(c.below(uint64_t(n) + 1)) - 1, double(c.range(-5, 5))});
        }
    }
    template <class V>
    std::vector<V> run(std::vector<V>& v) const
    {
        std::vector<V> y;
        for (auto& r : rows)
        {
            V s = T(0);
            for (auto& t : r)
                if (t.b < 0)
                    s = s + T(t.k) * sin(v[size_t(t.a)]);
                else
                    s = s + T(t.k) * v[size_t(t.a)] * v[size_t(t.b)];
            y.push_back(s);
        }
        return y;
    }
    double d(int i, int j, const std::vector<T>& x, double& m) const
    {
        double s = 0;
        m = 0;
        for (auto& t : rows[size_t(i)])
        {
            auto put = [&](double q) { s += q, m += std::fabs(q); };
            if (t.b < 0)
            {
                if (t.a == j)
                    put(t.k * std::cos(double(x[size_t(j)])));
                continue;
            }
            if (t.a == j)
                put(t.k * double(x[size_t(t.b)]));
            if (t.b == j)
                put(t.k * double(x[size_t(t.a)]));
        }
        return s;
    }
    double dd(int i, int j, int k, const std::vector<T>& x, double& m) const
    {
        double s = 0;
        m = 0;
        for (auto& t : rows[size_t(i)])
        {
            auto put = [&](double q) { s += q, m += std::fabs(q); };
            if (t.b < 0)
            {
                if (t.a == j && t.a == k)
                    put(-t.k * std::sin(double(x[size_t(j)])));
                continue;
            }
            if (t.a == j && t.b == k)
                put(t.k);
            if (t.b == j && t.a == k)
                put(t.k);
        }
        return s;
    }
};
// matrices of several types, all filled with a marker first; f(first, last) is called on the rows
static const double MARK = -12345.5;
struct Take
{
    std::vector<std::vector<double>>& r;
    template <class M> void operator()(const M& mat)
    {
        for (auto& row : mat)
        {
            r.emplace_back();
            for (auto& e : row) r.back().push_back(double(e));
        }
    }
};
template <class F>
std::vector<std::vector<double>> through(int type, size_t m, size_t n, F&& f)
{
    std::vector<std::vector<double>> r;
    Take take{r};
    switch (type)
    {
        case 0: { std::vector<std::vector<T>> q(m, std::vector<T>(n, T(MARK))); f(q.begin(), q.end()); take(q); break; }
        case 1: { std::list<std::vector<T>> q(m, std::vector<T>(n, T(MARK))); f(q.begin(), q.end()); take(q); break; }
        case 2: { std::vector<std::list<T>> q(m, std::list<T>(n, T(MARK))); f(q.begin(), q.end()); take(q); break; }
        case 3: { std::deque<std::deque<T>> q(m, std::deque<T>(n, T(MARK))); f(q.begin(), q.end()); take(q); break; }
        case 4: { std::vector<std::vector<T>> q(m, std::vector<T>(n, T(MARK))); f(q.data(), q.data() + m); take(q); break; }
        case 5: { std::list<std::list<double>> q(m, std::list<double>(n, MARK)); f(q.begin(), q.end()); take(q); break; }
        case 6: { std::vector<std::vector<T>> q(m, std::vector<T>(n, T(MARK))); f(q.rbegin(), q.rend()); std::reverse(q.begin(), q.end()); take(q); break; }
        default:
        {
            // part of a larger matrix: the rest keeps its entries
            std::vector<std::vector<T>> q(m + 3, std::vector<T>(n, T(MARK)));
            f(q.begin() + 1, q.begin() + 1 + long(m));
            take(q);
            break;
        }
    }
    return r;
}
static const int NTYPES = 8;
struct FooError
{
};
}  // namespace drv

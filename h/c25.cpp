// C25: variables keep value, registration and derivative wherever they are moved.
//
// Every variable has a unique integer value, by which it is recognised after any rearrangement.
#include "world.hpp"
#include <array>
#include <deque>
#include <forward_list>
#include <list>
#include <map>
#include <numeric>
#include <queue>
#include <random>
#include <set>
#include <tuple>
using namespace world;
#ifdef FWD
typedef xad::FReal<T> V;
#else
typedef AD V;
#endif

struct Pair
{
    int tag;
    V a, b;
};
struct Rng
{
    typedef unsigned result_type;
    unsigned long long s;
    static constexpr unsigned min() { return 0; }
    static constexpr unsigned max() { return 0xffffffffu; }
    unsigned operator()()
    {
        s = s * 6364136223846793005ULL + 1442695040888963407ULL;
        return unsigned(s >> 32);
    }
};
static V byValue(V x) { return x; }
static V passThrough(V&& x) { return std::move(x); }
static V local(V& x)
{
    V t(std::move(x));
    return t;
}
static std::vector<V> collect(V&& a, V&& b)
{
    std::vector<V> v;
    v.push_back(std::move(a));
    v.emplace_back(std::move(b));
    return v;
}
static int val(const V& x) { return int(xad::value(x)); }

struct Pool
{
    std::vector<V> v, v2;
    std::deque<V> d;
    std::list<V> l;
    std::forward_list<V> f;
    std::map<int, V> m;
    std::vector<std::unique_ptr<V>> u;
    std::vector<Pair> p;
    std::vector<std::vector<V>> vv;
    std::vector<std::tuple<int, V, double>> t;
    std::array<V, 2> arr;  // always two elements
    template <class F>
    void each(F&& g)
    {
        for (auto& x : v) g(x, 0);
        for (auto& x : v2) g(x, 1);
        for (auto& x : d) g(x, 2);
        for (auto& x : l) g(x, 3);
        for (auto& x : f) g(x, 4);
        for (auto& x : m) g(x.second, 5);
        for (auto& x : u) g(*x, 6);
        for (auto& x : p) g(x.a, 7), g(x.b, 7);
        for (auto& x : vv)
            for (auto& y : x) g(y, 8);
        for (auto& x : t) g(std::get<1>(x), 9);
        for (auto& x : arr) g(x, 10);
    }
};
static const char* const PLACE[] = {"vector", "second vector", "deque", "list", "forward_list", "map", "vector of unique_ptr", "vector of struct", "vector of vectors", "vector of tuples", "array"};

struct Sim
{
    eng::Ctx& c;
    Model m;
    std::map<int, int> reg;  // value -> registration, -1 for passive variables
    std::map<int, double> der;  // expected derivative (burst) / tangent
    Pool p;
    TP* tape;
    int next = 1;
    int moved = 0;
    bool pending = false;
    Sim(eng::Ctx& cc, TP* t) : c(cc), tape(t) {}
    std::vector<V*> all()
    {
        std::vector<V*> r;
        p.each([&](V& x, int) { r.push_back(&x); });
        return r;
    }
    V& any() { auto a = all(); return *a[c.below(a.size())]; }
    bool isReg(V& x)
    {
#ifdef FWD
        (void)x;
        return false;
#else
        return x.shouldRecord();
#endif
    }
    void check(const char* when)
    {
        std::set<int> seen;
        p.each([&](V& x, int where) {
            int k = val(x);
            if (double(xad::value(x)) != double(k) || !reg.count(k))
                c.fail("%s: unexpected value %.9g in the %s", when, double(xad::value(x)), PLACE[where]);
            if (!seen.insert(k).second)
                c.fail("%s: value %d appears twice", when, k);
#ifdef FWD
            if (double(xad::derivative(x)) != der[k])
                c.fail("%s: tangent of the variable of value %d in the %s is %g, expected %g", when, k, PLACE[where], double(xad::derivative(x)), der[k]);
#else
            if (x.shouldRecord() != (reg[k] >= 0))
                c.fail("%s: the variable of value %d in the %s is %son the tape", when, k, PLACE[where], x.shouldRecord() ? "" : "not ");
            if (pending && reg[k] >= 0)
            {
                double got = double(xad::derivative(x));
                if (got != der[k])
                    c.fail("%s: derivative of the variable of value %d in the %s is %g, expected %g", when, k, PLACE[where], got, der[k]);
            }
#endif
        });
        if (seen.size() != reg.size())
            c.fail("%s: %zu variables, expected %zu", when, seen.size(), reg.size());
#ifndef FWD
        unsigned n = 0;
        for (auto& q : reg) n += q.second >= 0;
        if (tape->getNumVariables() != n)
            c.fail("%s: the tape has %u variables, %u are registered", when, tape->getNumVariables(), n);
#endif
    }
    // ---- statements ----
    // the variable x gets a new value and registration by a recorded statement
    void gone(int value)
    {
        auto it = reg.find(value);
        if (it == reg.end())
            c.fail("value %d unknown", value);
        if (it->second >= 0)
            m.dead[size_t(it->second)] = 1;
        reg.erase(it);
        der.erase(value);
    }
    // after an assignment to x (which had the value `old`, or none), depending on a and b with the given partials
    void assigned(V& x, int old, std::vector<std::pair<double, int>> rhs, double tangent)
    {
        int k = val(x);
        int s = old ? reg[old] : -1;
        if (old)
        {
            reg.erase(old);
            der.erase(old);
        }
#ifndef FWD
        if (x.shouldRecord())
        {
            if (s < 0)
                s = m.reg();
            m.push(s, rhs);
        }
        else if (!rhs.empty())
            c.fail("a variable that depends on registered ones is not on the tape");
        else
            s = -1;
#endif
        reg[k] = s;
        der[k] = tangent;
    }
    void rhsOf(std::vector<std::pair<double, int>>& r, double w, int value)
    {
        int s = reg[value];
        if (s >= 0)
            r.push_back({w, s});
    }
    int fresh() { return next++; }
    // x = k1 * a + b + c  (or a product), with a value of its own
    void assign(V& x, int old, V& a, V& b, int form)
    {
        int va = val(a), vb = val(b), k = fresh();
        double ta = der[va], tb = der[vb];
        std::vector<std::pair<double, int>> r;
        double t = 0;
        switch (form)
        {
            case 0:
                rhsOf(r, 2, va);
                rhsOf(r, -1, vb);
                t = 2 * ta - tb;
                x = T(2) * a - b + T(k - 2 * va + vb);
                break;
            case 1:
                if (std::abs(double(va) * vb) > 100000)
                    return assign(x, old, a, b, 0);
                rhsOf(r, vb, va);
                rhsOf(r, va, vb);
                t = ta * vb + tb * va;
                x = a * b + T(double(k) - double(va) * vb);
                break;
            case 2:
                rhsOf(r, 1, va);
                t = ta;
                x = a + T(k - va);
                break;
            default:
                x = T(k);
                break;
        }
        c.log("value %d (was %d): form %d of %d, %d", k, old, form, va, vb);
        assigned(x, old, r, t);
    }
    V make(int form)
    {
        if (reg.empty() || form == 3)
        {
            int k = fresh();
            V x = T(k);
#ifdef FWD
            xad::derivative(x) = T(k % 7);
            der[k] = k % 7;
#else
            der[k] = 0;
#endif
            reg[k] = -1;
            c.log("value %d: new passive", k);
            return x;
        }
        V& a = any();
        V& b = any();
        V x;
        assign(x, 0, a, b, form);
        return x;
    }
    void put(V&& x, int where)
    {
        c.log("  into the %s", PLACE[where]);
        switch (where)
        {
            case 0: if (c.chance(50)) p.v.push_back(std::move(x)); else p.v.insert(p.v.begin() + long(c.below(p.v.size() + 1)), std::move(x)); break;
            case 1: p.v2.emplace(p.v2.begin() + long(c.below(p.v2.size() + 1)), std::move(x)); break;
            case 2: if (c.chance(50)) p.d.push_front(std::move(x)); else p.d.insert(p.d.begin() + long(c.below(p.d.size() + 1)), std::move(x)); break;
            case 3: p.l.push_back(std::move(x)); break;
            case 4: p.f.push_front(std::move(x)); break;
            case 5: { int k = val(x); p.m.emplace(k, std::move(x)); break; }
            case 6: p.u.emplace_back(new V(std::move(x))); break;
            case 7:
                // the struct needs two
                if (!p.v.empty())
                {
                    Pair q{int(p.p.size()), std::move(x), std::move(p.v.back())};
                    p.v.pop_back();
                    p.p.push_back(std::move(q));
                }
                else
                    p.v.push_back(std::move(x));
                break;
            case 8:
                if (p.vv.size() < 3 || c.chance(20))
                    p.vv.emplace_back();
                p.vv[c.below(p.vv.size())].push_back(std::move(x));
                break;
            case 9: p.t.emplace_back(val(x), std::move(x), 1.5); break;
            default: p.v.push_back(std::move(x)); break;
        }
    }
    // ---- rearrangements: nothing is created, values and derivatives stay ----
    template <class R>
    void algo(R& v, int a, Rng& g)
    {
        typedef typename R::value_type E;
        size_t n = v.size();
        auto b = v.begin(), e = v.end();
        size_t i = n ? g() % n : 0;
        switch (a)
        {
            case 0: std::sort(b, e); sorted(v); break;
            case 1: std::stable_sort(b, e, [](const E& x, const E& y) { return x > y; }); break;
            case 2: std::reverse(b, e); break;
            case 3: std::rotate(b, b + long(i), e); break;
            case 4: std::shuffle(b, e, g); break;
            case 5: std::partition(b, e, [](const E& x) { return val(x) % 2 == 0; }); break;
            case 6: std::stable_partition(b, e, [](const E& x) { return x > 5; }); break;
            case 7: std::make_heap(b, e); std::sort_heap(b, e); sorted(v); break;
            case 8: std::nth_element(b, b + long(i), e); break;
            case 9: std::sort(b, b + long(i)); std::sort(b + long(i), e); std::inplace_merge(b, b + long(i), e); sorted(v); break;
            case 10: if (n) std::swap(v[i], v[g() % n]); break;
            case 11: if (n) std::iter_swap(b + long(i), b + long(g() % n)); break;
            case 12: std::next_permutation(b, e); break;
            case 13: { R w(std::move(v)); v = std::move(w); break; }
            case 14: { R w; w.swap(v); std::swap(v, w); break; }
            case 15: std::partial_sort(b, b + long(i), e); break;
            case 16: if (n) { V t(std::move(v[i])); v.erase(v.begin() + long(i)); v.insert(v.begin() + long(g() % n), std::move(t)); } break;
            case 17: std::swap_ranges(b, b + long(n / 2), b + long(n - n / 2)); break;
            case 18: { R w; std::move(b, e, std::back_inserter(w)); v.swap(w); break; }
            case 19: { R w(std::make_move_iterator(b), std::make_move_iterator(e)); v = std::move(w); break; }
            case 20: if (n) v[i] = passThrough(local(v[i])); break;
            case 21: if (n) { V t = std::move(v[i]); V u2; u2 = std::move(t); v[i] = std::move(u2); } break;
            case 22: if (n) { V& r = v[i]; V& q = v[i]; r = std::move(q); } break;  // self move
            case 23: if (n) { V& r = v[i]; std::swap(r, r); } break;
            case 24: if (n) { std::make_heap(b, e - 1); std::push_heap(b, e); std::pop_heap(b, e); } break;
            default: if (n > 1) { auto w = collect(std::move(v[0]), std::move(v[n - 1])); v[0] = std::move(w[1]); v[n - 1] = std::move(w[0]); } break;
        }
    }
    static const int NA = 26;
    template <class R>
    void sorted(const R& v)
    {
        for (size_t i = 1; i < v.size(); ++i)
            if (val(v[i - 1]) > val(v[i]))
                c.fail("not sorted: %d before %d", val(v[i - 1]), val(v[i]));
    }
    void rearrange()
    {
        Rng g{c.below(1000)};
        int k = int(c.below(13));
        ++moved;
        switch (k)
        {
            case 0: { int a = int(c.below(NA)); c.log("vector: algorithm %d", a); algo(p.v, a, g); break; }
            case 1: { int a = int(c.below(NA)); c.log("second vector: algorithm %d", a); algo(p.v2, a, g); break; }
            case 2: { int a = int(c.below(NA)); c.log("deque: algorithm %d", a); algo(p.d, a, g); break; }
            case 3: c.log("vector capacity"); p.v.reserve(p.v.size() + 1 + g() % 4); p.v2.shrink_to_fit(); break;
            case 4: c.log("list sort, reverse"); p.l.sort(); p.l.reverse(); p.f.sort(); p.f.reverse(); break;
            case 5: c.log("list splice"); p.l.splice(p.l.begin(), p.l, p.l.empty() ? p.l.begin() : std::prev(p.l.end())); break;
            case 6: c.log("vectors swapped"); std::swap(p.v, p.v2); break;
            case 7:
                c.log("vector of unique_ptr sorted, vector of struct sorted and rotated, tuples sorted");
                std::sort(p.u.begin(), p.u.end(), [](const std::unique_ptr<V>& x, const std::unique_ptr<V>& y) { return *x < *y; });
                std::sort(p.p.begin(), p.p.end(), [](const Pair& x, const Pair& y) { return x.b > y.b; });
                if (!p.p.empty())
                    std::rotate(p.p.begin(), p.p.begin() + 1, p.p.end());
                std::sort(p.t.begin(), p.t.end());
                break;
            case 8:
                c.log("vector of vectors rotated, reversed");
                if (!p.vv.empty())
                    std::rotate(p.vv.begin(), p.vv.begin() + 1, p.vv.end());
                p.vv.reserve(p.vv.size() + 2);
                for (auto& x : p.vv) std::reverse(x.begin(), x.end());
                break;
            case 9:
                // from one place to the front of another
                c.log("element moved between containers");
                if (!p.v.empty())
                {
                    p.d.push_front(std::move(p.v.back()));
                    p.v.pop_back();
                }
                if (!p.l.empty())
                {
                    p.v.insert(p.v.begin(), std::move(p.l.front()));
                    p.l.pop_front();
                }
                if (!p.m.empty())
                {
                    p.l.push_back(std::move(p.m.begin()->second));
                    p.m.erase(p.m.begin());
                }
                break;
            case 10:
                c.log("through array, pair and function");
                std::swap(p.arr[0], p.arr[1]);
                if (!p.v.empty())
                {
                    std::pair<V, int> q(std::move(p.v[0]), 1);
                    std::pair<V, int> r;
                    r = std::move(q);
                    std::swap(r.first, p.arr[0]);
                    p.v[0] = std::move(r.first);
                    auto h = [x = std::move(p.v[0])]() mutable { return std::move(x); };
                    p.v[0] = h();
                }
                break;
            case 11:
            {
                c.log("priority queue");
                std::priority_queue<V> q(std::less<V>(), std::move(p.v2));
                p.v2.clear();
                while (!q.empty())
                {
                    p.v2.push_back(std::move(const_cast<V&>(q.top())));
                    q.pop();
                }
                for (size_t i = 1; i < p.v2.size(); ++i)
                    (void)i;
                break;
            }
            default:
                c.log("swap across containers");
                if (!p.v.empty() && !p.d.empty())
                    std::swap(p.v[g() % p.v.size()], p.d[g() % p.d.size()]);
                if (!p.l.empty() && !p.f.empty())
                    std::iter_swap(p.l.begin(), p.f.begin());
        }
    }
    // priority_queue::pop moves a moved-from element; only done when that is no problem
    void erase()
    {
        Rng g{c.below(1000)};
        switch (c.below(7))
        {
            case 0:
                if (!p.v.empty())
                {
                    size_t i = g() % p.v.size();
                    c.log("value %d erased from the vector", val(p.v[i]));
                    gone(val(p.v[i]));
                    p.v.erase(p.v.begin() + long(i));
                }
                break;
            case 1:
                if (!p.d.empty())
                {
                    size_t i = g() % p.d.size();
                    c.log("value %d erased from the deque", val(p.d[i]));
                    gone(val(p.d[i]));
                    p.d.erase(p.d.begin() + long(i));
                }
                break;
            case 2:
            {
                // erase-remove
                int mod = 2 + int(g() % 3);
                c.log("multiples of %d removed from the second vector", mod);
                auto pred = [&](const V& x) { return val(x) % mod == 0; };
                for (auto& x : p.v2)
                    if (pred(x))
                        gone(val(x));
                p.v2.erase(std::remove_if(p.v2.begin(), p.v2.end(), pred), p.v2.end());
                break;
            }
            case 3:
                if (!p.l.empty())
                {
                    c.log("value %d erased from the list", val(p.l.front()));
                    gone(val(p.l.front()));
                    p.l.pop_front();
                }
                break;
            case 4:
                if (!p.u.empty())
                {
                    size_t i = g() % p.u.size();
                    c.log("value %d erased from the pointers", val(*p.u[i]));
                    gone(val(*p.u[i]));
                    p.u.erase(p.u.begin() + long(i));
                }
                break;
            case 5:
                if (!p.p.empty())
                {
                    c.log("values %d, %d erased from the structs", val(p.p[0].a), val(p.p[0].b));
                    gone(val(p.p[0].a));
                    gone(val(p.p[0].b));
                    p.p.erase(p.p.begin());
                }
                break;
            default:
                if (!p.vv.empty())
                {
                    size_t i = g() % p.vv.size();
                    c.log("a vector of %zu erased", p.vv[i].size());
                    for (auto& x : p.vv[i]) gone(val(x));
                    p.vv.erase(p.vv.begin() + long(i));
                }
        }
    }
    // a moved-from variable gets a new value
    void reuse()
    {
        V& x = any();
        int old = val(x);
        c.log("value %d moved away, its variable assigned", old);
        V t(std::move(x));
        int form = int(c.below(4));
        int where = int(c.below(10));
        (void)where;
        // the sources are other variables
        std::vector<V*> o;
        p.each([&](V& y, int) {
            if (&y != &x)
                o.push_back(&y);
        });
        V& a = o.empty() ? t : *o[c.below(o.size())];
        V& b = o.empty() ? t : *o[c.below(o.size())];
        assign(x, 0, a, b, form);
        p.l.push_back(std::move(t));
    }
    // copies are variables of their own
    void copies()
    {
        int k = int(c.below(5));
        auto copied = [&](V& x, int from) {
            // make the value unique
            std::vector<std::pair<double, int>> r;
            rhsOf(r, 1, from);
            int n = fresh();
            double t = der[from];
#ifndef FWD
            if (x.shouldRecord() != (reg[from] >= 0))
                c.fail("a copy of the variable of value %d is %son the tape", from, x.shouldRecord() ? "" : "not ");
#endif
            if (val(x) != from)
                c.fail("a copy of %d has the value %d", from, val(x));
            xad::value(x) = T(n);
            c.log("value %d: copy of %d", n, from);
            assigned(x, 0, r, t);
        };
        switch (k)
        {
            case 0:
            {
                // a whole vector; elements are copied in order
                std::vector<V> w(p.v);
                for (auto& x : w) copied(x, val(x));
                if (p.v2.size() < 8)
                    for (auto& x : w) p.v2.push_back(std::move(x));
                else
                    for (auto& x : w) gone(val(x));
                break;
            }
            case 1:
            {
                V& a = any();
                int va = val(a);
                V x = byValue(a);
                copied(x, va);
                put(std::move(x), int(c.below(10)));
                break;
            }
            case 2:
            {
                // assignment of one element to another
                V& a = any();
                V& b = any();
                if (&a == &b)
                    break;
                int va = val(a), vb = val(b);
                std::vector<std::pair<double, int>> r;
                rhsOf(r, 1, va);
                double t = der[va];
                b = a;
                if (val(b) != va)
                    c.fail("assigned %d, the value is %d", va, val(b));
                int n = fresh();
                xad::value(b) = T(n);
                c.log("value %d (was %d): assigned from %d", n, vb, va);
                assigned(b, vb, r, t);
                break;
            }
            case 3:
            {
                // self assignment
                V& a = any();
                V& b = a;
                int va = val(a);
                c.log("self assignment of %d", va);
                a = b;
                if (val(a) != va)
                    c.fail("self assignment changed %d to %d", va, val(a));
#ifndef FWD
                if (a.shouldRecord())
                    m.push(reg[va], {{1, reg[va]}});
#endif
                break;
            }
            default:
            {
                std::array<V, 2> q = p.arr;
                int v0 = val(q[0]), v1 = val(q[1]);
                copied(q[0], v0);
                copied(q[1], v1);
                p.d.push_back(std::move(q[0]));
                p.l.push_front(std::move(q[1]));
            }
        }
    }
    size_t count() { return reg.size(); }
};

ENG_PROP(relocate, 1)
{
    TP tape;
    bool rolled = false;
    int bursts = 0, moves = 0, stms = 0;
    {
        Sim s(c, &tape);
        std::vector<double> seeds;
        int nin = int(c.range(1, 5));
        s.p.v.clear();
        // inputs, which take part in everything
        for (int i = 0; i < nin; ++i)
        {
            int k = s.fresh();
            V x = T(k);
#ifdef FWD
            xad::derivative(x) = T(i + 1);
            s.reg[k] = -1;
            s.der[k] = i + 1;
#else
            tape.registerInput(x);
            s.reg[k] = s.m.reg();
            s.m.born.back() = -1;
            s.m.push(s.reg[k]);
            s.der[k] = 0;
#endif
            s.put(std::move(x), int(c.below(10)));
        }
        for (auto& x : s.p.arr)
        {
            int k = s.fresh();
            x = T(k);
            s.reg[k] = -1;
            s.der[k] = 0;
        }
#ifndef FWD
        tape.newRecording();
        s.m.st.clear();
        for (auto& b : s.m.born) b = -1;
#endif
        s.check("at the start");
        int n = c.pick(std::vector<int>{15, 50});
        int go = 100 - 150 / (n + 1);
        for (int it = 0; it < n; ++it)
        {
            if (it && !c.chance(go))
                break;
            switch (c.weighted({8, 5, 6, 2, 3, 3, 3}))
            {
                case 0:
                    if (s.count() < 24)
                        s.put(s.make(int(c.below(4))), int(c.below(10)));
                    ++stms;
                    break;
                case 1:
                {
                    V& x = s.any();
                    V& a = s.any();
                    V& b = s.any();
                    s.assign(x, val(x), a, b, int(c.below(4)));
                    ++stms;
                    break;
                }
                case 2: s.rearrange(); break;
                case 3: s.erase(); break;
                case 4:
                    if (s.count() < 24)
                        s.reuse();
                    break;
                case 5:
                    if (s.count() < 24)
                        s.copies();
                    break;
                default:
                {
                    // set all derivatives, rearrange, and find them again
                    c.log("derivatives set, then rearranged");
#ifndef FWD
                    double d = 1000;
                    s.p.each([&](V& x, int) {
                        if (x.shouldRecord())
                        {
                            s.der[val(x)] = ++d;
                            xad::derivative(x) = T(d);
                        }
                    });
                    s.pending = true;
                    s.check("after setting the derivatives");
#endif
                    int k = int(c.range(1, 5));
                    for (int q = 0; q < k; ++q)
                    {
                        s.rearrange();
                        s.check("after a rearrangement");
                        if (c.chance(20))
                        {
                            s.erase();
                            s.check("after erasing");
                        }
                    }
                    ++bursts;
                    s.pending = false;
#ifndef FWD
                    tape.clearDerivatives();
#endif
                }
            }
            s.check("after the action");
        }
        moves = s.moved;
#ifndef FWD
        // the gradient of the program
        int seeded = 0;
        s.p.each([&](V& x, int) {
            int k = val(x);
            if (s.reg[k] >= 0 && c.chance(50))
            {
                double w = double(c.range(-3, 3));
                xad::derivative(x) += T(w);
                s.m.add(s.reg[k], w);
                seeded += w != 0;
                c.log("seed %d += %g", k, w);
            }
        });
        if (seeded)
        {
            tape.computeAdjoints();
            s.m.rollback(0);
            s.p.each([&](V& x, int where) {
                int k = val(x), q = s.reg[k];
                if (q < 0 || !s.m.readable(q))
                    return;
                double got = double(xad::derivative(x));
                if (!s.m.ok(q, got))
                    c.fail("derivative of the variable of value %d in the %s is %.17g, expected %.17g", k, PLACE[where], got, s.m.D[size_t(q)]);
                rolled |= s.m.D[size_t(q)] != 0 && s.m.born[size_t(q)] < 0;
            });
        }
#else
        rolled = true;
#endif
    }
    if (tape.getNumVariables() != 0)
        c.fail("%u variables on the tape after all were destroyed", tape.getNumVariables());
    if (moves >= 3 && stms >= 2 && (rolled || bursts))
        c.nontrivial();
}

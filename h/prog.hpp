// Random programs over an active type: generation (structure only) and execution on any
// arithmetic type V (library types and the reference jets run the very same source).
#pragma once
#include "engine.hpp"
#include "ref.hpp"
#include <algorithm>
#include <memory>
#include <numeric>
#include <utility>
#include <vector>

namespace prog
{
enum Code
{
    NEW_CONST, NEW_COPY, NEW_EXPR, SET_EXPR, SET_VAR, SET_CONST, COMP_EXPR, COMP_VAR, COMP_K, COMP_INT,
    INCDEC, DEL, MOVE_NEW, MOVE_ASSIGN, SWAP, VPUSH, VPUSH_MOVE, VPOP, VINSERT, VERASE, VSORT, VREV,
    VROT, CALL, BRANCH, LOOP, TEMPS, ACCUM, AUTOEX, SELF, ARR, N_CODES
};
inline const char* cname(int c)
{
    static const char* n[] = {"NEW_CONST", "NEW_COPY", "NEW_EXPR", "SET_EXPR", "SET_VAR", "SET_CONST",
                              "COMP_EXPR", "COMP_VAR", "COMP_K", "COMP_INT", "INCDEC", "DEL", "MOVE_NEW",
                              "MOVE_ASSIGN", "SWAP", "VPUSH", "VPUSH_MOVE", "VPOP", "VINSERT", "VERASE",
                              "VSORT", "VREV", "VROT", "CALL", "BRANCH", "LOOP", "TEMPS", "ACCUM",
                              "AUTOEX", "SELF", "ARR"};
    return n[c];
}
struct Op
{
    int code, r, a, b, c, sh, n;
    double k;
};

#include "shapes_text.hpp"

struct GenCfg
{
    int nin = 2;
    int maxOps = 25, minOps = 1;
    bool writeInputs = true;   // programs may overwrite the inputs
    bool moveInputs = false;   // inputs take part in moves / swaps / sorts
    bool containers = true;
    int maxPool = 9;
    int nshapes = N_SHAPES;
};

// refs: [0,nin) inputs, then pool, then vec
struct GenState
{
    int nin, pool = 0, vec = 0;
    explicit GenState(int n) : nin(n) {}
    int total() const { return nin + pool + vec; }
};

inline std::vector<Op> gen(eng::Ctx& c, const GenCfg& g, GenState& st, int minOps, int maxOps)
{
    std::vector<Op> ops;
    // "one more?" decisions instead of a count, so that deleting a statement's choices deletes it
    int go = 100 - 250 / (maxOps + 1);
    for (int i = 0; i < maxOps; ++i)
    {
        if (i >= minOps && !c.chance(go))
            break;
        Op o = {};
        int t = st.total();
        auto any = [&] { return int(c.below(uint64_t(t))); };
        // target: prefer pool
        auto target = [&]() -> int {
            if (g.writeInputs || st.pool + st.vec == 0)
            {
                if (!g.writeInputs && st.pool + st.vec == 0)
                    return -1;
                return any();
            }
            return g.nin + int(c.below(uint64_t(st.pool + st.vec)));
        };
        // structure-changing ops only on pool variables (or anything with moveInputs)
        auto movable = [&]() -> int {
            if (g.moveInputs)
                return any();
            if (st.pool + st.vec == 0)
                return -1;
            return g.nin + int(c.below(uint64_t(st.pool + st.vec)));
        };
        static const int W[N_CODES] = {2, 4, 10, 16, 5, 3, 8, 4, 4, 2, 2, 6, 3, 4, 3, 4, 2, 2, 1, 2, 2, 1, 1, 4, 5, 3, 4, 2, 4, 1, 2};
        int tw = 0;
        for (int w : W) tw += w;
        int v = int(c.below(uint64_t(tw))), code = 0;
        // shrink target 0 -> NEW_CONST; walk
        for (code = 0; code < N_CODES; ++code)
        {
            if (v < W[code])
                break;
            v -= W[code];
        }
        if (!g.containers && code >= VPUSH && code <= VROT)
            code = SET_EXPR;
        bool full = st.pool >= g.maxPool;
        if (full && (code == NEW_CONST || code == NEW_COPY || code == NEW_EXPR || code == MOVE_NEW || code == VPOP))
            code = DEL;
        o.a = any();
        o.b = any();
        o.c = any();
        o.sh = int(c.below(uint64_t(g.nshapes)));
        o.k = c.sreal(2);
        o.n = int(c.below(8));
        o.r = -1;
        o.code = code;
        switch (code)
        {
            case NEW_CONST: case NEW_COPY: case NEW_EXPR: ++st.pool; break;
            case SET_EXPR: case SET_VAR: case SET_CONST: case COMP_EXPR: case COMP_VAR: case COMP_K:
            case COMP_INT: case INCDEC: case CALL: case BRANCH: case LOOP: case TEMPS: case AUTOEX:
            case ARR: case ACCUM:
                o.r = target();
                break;
            case SELF: o.r = target(); break;
            case DEL:
                if (st.pool == 0) { o.code = SET_EXPR; o.r = target(); }
                else { o.r = int(c.below(uint64_t(st.pool))); --st.pool; }
                break;
            case MOVE_NEW:  // pool[r] moves into a new heap object, old one destroyed
                if (st.pool == 0) { o.code = SET_EXPR; o.r = target(); }
                else o.r = int(c.below(uint64_t(st.pool)));
                break;
            case MOVE_ASSIGN:  // target r = move(pool[a]); pool[a] destroyed or reassigned
                if (st.pool < 2) { o.code = SET_EXPR; o.r = target(); }
                else
                {
                    o.a = int(c.below(uint64_t(st.pool)));
                    o.r = movable();
                    if (o.r == g.nin + o.a) { o.code = SET_EXPR; break; }
                    if (o.n & 1) --st.pool;
                }
                break;
            case SWAP:
                o.a = movable(); o.b = movable();
                if (o.a < 0 || o.b < 0) { o.code = SET_EXPR; o.r = target(); o.a = any(); o.b = any(); }
                break;
            case VPUSH: if (st.vec < 8) ++st.vec; else { o.code = SET_EXPR; o.r = target(); } break;
            case VPUSH_MOVE:
                if (st.pool == 0 || st.vec >= 8) { o.code = SET_EXPR; o.r = target(); }
                else { o.r = int(c.below(uint64_t(st.pool))); --st.pool; ++st.vec; }
                break;
            case VPOP:  // last element moved to the pool
                if (st.vec == 0) { o.code = SET_EXPR; o.r = target(); } else { --st.vec; ++st.pool; }
                break;
            case VINSERT: if (st.vec < 8) { o.r = int(c.below(uint64_t(st.vec + 1))); ++st.vec; } else { o.code = SET_EXPR; o.r = target(); } break;
            case VERASE: if (st.vec == 0) { o.code = SET_EXPR; o.r = target(); } else { o.r = int(c.below(uint64_t(st.vec))); --st.vec; } break;
            case VSORT: case VREV: break;
            case VROT: o.r = int(c.below(uint64_t(st.vec + 1))); break;
            default: break;
        }
        if (o.r < 0 && (o.code == SET_EXPR || o.code == SET_VAR || o.code == SET_CONST || o.code == COMP_EXPR ||
                        o.code == COMP_VAR || o.code == COMP_K || o.code == COMP_INT || o.code == INCDEC ||
                        o.code == CALL || o.code == BRANCH || o.code == LOOP || o.code == TEMPS ||
                        o.code == AUTOEX || o.code == ARR || o.code == ACCUM || o.code == SELF))
        {
            o.code = NEW_EXPR;
            ++st.pool;
        }
        if (o.code == MOVE_ASSIGN && o.r < 0)
        {
            // nothing movable
            o.code = NEW_EXPR;
            ++st.pool;
        }
        ops.push_back(o);
    }
    return ops;
}

template <class V>
V callByValue(V x, const V& y, double k, const V& z)
{
    V t = x * y;
    t += V(z);
    x = t - x;
    {
        V inner = y;
        inner *= t;
        t = inner;
    }
    V u(t);
    if (k > 0)
        return u;
    return x + u;
}
template <class V>
V sum3(const V (&v)[3])
{
    V s = v[0];
    s += v[1];
    s = s + v[2];
    return s;
}

// compound assignment with a plain number and increments do not exist for nested active types
template <class V>
struct Nested : std::false_type
{
};
template <class V, class T, bool N = Nested<V>::value>
struct Arith
{
    template <class K> static void add(V& r, K k) { r += k; }
    template <class K> static void sub(V& r, K k) { r -= k; }
    template <class K> static void mul(V& r, K k) { r *= k; }
    template <class K> static void div(V& r, K k) { r /= k; }
    static void inc(V& r) { ++r; }
    static void dec(V& r) { --r; }
    static V pinc(V& r) { return r++; }
    static V pdec(V& r) { return r--; }
};
template <class V, class T>
struct Arith<V, T, true>
{
    template <class K> static void add(V& r, K k) { r = r + k; }
    template <class K> static void sub(V& r, K k) { r = r - k; }
    template <class K> static void mul(V& r, K k) { r = r * k; }
    template <class K> static void div(V& r, K k) { r = r / k; }
    static void inc(V& r) { r = r + T(1); }
    static void dec(V& r) { r = r - T(1); }
    static V pinc(V& r) { V t = r; inc(r); return t; }
    static V pdec(V& r) { V t = r; dec(r); return t; }
};

// T: plain base type
template <class V, class T>
struct Exec
{
    std::vector<V>& in;
    std::vector<V*> pool;
    std::vector<V> vec;
    bool movesInputs = false;
    explicit Exec(std::vector<V>& inputs) : in(inputs) {}
    ~Exec() { clear(); }
    Exec(const Exec&) = delete;
    Exec& operator=(const Exec&) = delete;
    void clear()
    {
        for (auto* p : pool) delete p;
        pool.clear();
        vec.clear();
    }
    size_t total() const { return in.size() + pool.size() + vec.size(); }
    V& at(int i)
    {
        size_t k = size_t(i);
        if (k < in.size())
            return in[k];
        k -= in.size();
        if (k < pool.size())
            return *pool[k];
        return vec[k - pool.size()];
    }
    void squash(V& r)
    {
        // keeps values in the range where the shapes are well conditioned
        if (!(r < T(12)) || !(r > T(-12)))
            r = T(4) * r / (T(1) + abs(r));
    }
    void step(const Op& o)
    {
        T k = T(o.k);
        switch (o.code)
        {
            case NEW_CONST: pool.push_back(new V(k)); break;
            case NEW_COPY: pool.push_back(new V(at(o.a))); break;
            case NEW_EXPR:
                pool.push_back(Shapes<V, T>::make(o.sh, at(o.a), at(o.b), at(o.c), k));
                squash(*pool.back());
                break;
            case SET_EXPR:
            {
                V& r = at(o.r);
                Shapes<V, T>::set(o.sh, r, at(o.a), at(o.b), at(o.c), k);
                squash(r);
                break;
            }
            case SET_VAR: at(o.r) = at(o.a); break;
            case SELF:
            {
                V& r = at(o.r);
                V& q = at(o.r);
                if (o.n & 1)
                    r = q;
                else
                    r = r + T(0) * r;
                break;
            }
            case SET_CONST: at(o.r) = k; break;
            case COMP_EXPR:
            {
                V& r = at(o.r);
                Shapes<V, T>::comp(o.n & 3, o.sh, r, at(o.a), at(o.b), k);
                squash(r);
                break;
            }
            case COMP_VAR:
            {
                V& r = at(o.r);
                V& a = at(o.a);
                switch (o.n & 3)
                {
                    case 0: r += a; break;
                    case 1: r -= a; break;
                    case 2: r *= a; break;
                    default:
                        if (a > T(0.3) || a < T(-0.3))
                            r /= a;
                        else
                            r += a;
                }
                squash(r);
                break;
            }
            case COMP_K:
            {
                V& r = at(o.r);
                T q = k > T(0.25) || k < T(-0.25) ? k : T(1.25);
                switch (o.n & 3)
                {
                    case 0: Arith<V, T>::add(r, k); break;
                    case 1: Arith<V, T>::sub(r, k); break;
                    case 2: Arith<V, T>::mul(r, k); break;
                    default: Arith<V, T>::div(r, q);
                }
                squash(r);
                break;
            }
            case COMP_INT:
            {
                V& r = at(o.r);
                int q = 1 + (o.n >> 2);
                switch (o.n & 3)
                {
                    case 0: Arith<V, T>::add(r, q); break;
                    case 1: Arith<V, T>::sub(r, q); break;
                    case 2: Arith<V, T>::mul(r, q); break;
                    default: Arith<V, T>::div(r, q);
                }
                squash(r);
                break;
            }
            case INCDEC:
            {
                V& r = at(o.r);
                switch (o.n & 3)
                {
                    case 0: Arith<V, T>::inc(r); break;
                    case 1: Arith<V, T>::dec(r); break;
                    case 2:
                    {
                        V t = Arith<V, T>::pinc(r);
                        r = r * T(0.5) + t;
                        break;
                    }
                    default:
                    {
                        V t = Arith<V, T>::pdec(r);
                        r = r * T(0.5) - t;
                    }
                }
                squash(r);
                break;
            }
            case DEL:
                delete pool[size_t(o.r)];
                pool.erase(pool.begin() + o.r);
                break;
            case MOVE_NEW:
            {
                V* old = pool[size_t(o.r)];
                V* nw = new V(std::move(*old));
                if (o.n & 1)
                    *old = *nw;  // a moved-from variable may be assigned again
                delete old;
                pool[size_t(o.r)] = nw;
                break;
            }
            case MOVE_ASSIGN:
            {
                V& src = *pool[size_t(o.a)];
                V& dst = at(o.r);
                dst = std::move(src);
                if (o.n & 1)
                {
                    delete pool[size_t(o.a)];
                    pool.erase(pool.begin() + o.a);
                }
                else
                    src = dst * T(0.5);
                break;
            }
            case SWAP:
            {
                using std::swap;
                swap(at(o.a), at(o.b));
                break;
            }
            case VPUSH: vec.push_back(at(o.a)); break;
            case VPUSH_MOVE:
                vec.push_back(std::move(*pool[size_t(o.r)]));
                delete pool[size_t(o.r)];
                pool.erase(pool.begin() + o.r);
                break;
            case VPOP:
                pool.push_back(new V(std::move(vec.back())));
                vec.pop_back();
                break;
            case VINSERT:
            {
                V t(at(o.a));
                if (o.n & 1)
                    vec.insert(vec.begin() + o.r, std::move(t));
                else
                    vec.insert(vec.begin() + o.r, t);
                break;
            }
            case VERASE: vec.erase(vec.begin() + o.r); break;
            case VSORT:
                std::stable_sort(vec.begin(), vec.end(), [](const V& x, const V& y) { return x < y; });
                break;
            case VREV: std::reverse(vec.begin(), vec.end()); break;
            case VROT: std::rotate(vec.begin(), vec.begin() + o.r, vec.end()); break;
            case CALL:
            {
                V& r = at(o.r);
                // move-assigning a temporary gives the target a new identity on the tape, so an input
                // (whose adjoint is read through the variable afterwards) is assigned from an lvalue
                if (size_t(o.r) < in.size() && !movesInputs)
                {
                    V t = callByValue<V>(at(o.a), at(o.b), o.k, at(o.c));
                    r = t;
                }
                else
                    r = callByValue<V>(at(o.a), at(o.b), o.k, at(o.c));
                squash(r);
                break;
            }
            case BRANCH:
            {
                V& r = at(o.r);
                V& a = at(o.a);
                V& b = at(o.b);
                bool t;
                switch (o.n)
                {
                    case 0: t = a < b; break;
                    case 1: t = a > b; break;
                    case 2: t = a <= k; break;
                    case 3: t = k >= b; break;
                    case 4: t = a == b; break;
                    case 5: t = a != b; break;
                    case 6: t = a * b < k + b; break;
                    default: t = (a + k) > b; break;
                }
                if (t)
                    r = a * b + k;
                else
                    r = b - a * k;
                squash(r);
                break;
            }
            case LOOP:
            {
                V& r = at(o.r);
                V& a = at(o.a);
                V& b = at(o.b);
                int cnt = 1 + o.n;
                for (int i = 0; i < cnt; ++i)
                {
                    if (i & 1)
                        r = T(0.5) * r + a * b;
                    else
                        r += sin(r) * a;
                    squash(r);
                }
                break;
            }
            case TEMPS:
            {
                V& r = at(o.r);
                const V& a = at(o.a);
                const V& b = at(o.b);
                int cnt = 2 + (o.n & 3);
                std::vector<V*> t;
                for (int i = 0; i < cnt; ++i) t.push_back(new V(a * T(0.1 * (i + 1)) + b * k));
                unsigned h = unsigned(o.sh) * 2654435761u + unsigned(o.n);
                r = r * T(0.5);
                while (!t.empty())
                {
                    size_t j = (h >> 8) % t.size();
                    h = h * 1664525u + 1013904223u;
                    r += *t[j];
                    delete t[j];
                    t.erase(t.begin() + long(j));
                }
                squash(r);
                break;
            }
            case ACCUM:
            {
                V s = std::accumulate(vec.begin(), vec.end(), V(at(o.a)));
                s = std::inner_product(vec.begin(), vec.end(), vec.begin(), V(s)) * T(0.125);
                at(o.r) = s;
                squash(at(o.r));
                break;
            }
            case AUTOEX:
            {
                V& r = at(o.r);
                const V& a = at(o.a);
                const V& b = at(o.b);
                auto e = a * b + k;
                auto f = sin(e) - a;
                V t = f;
                if (o.n & 1)
                    r = e + f * t;
                else
                    r = f / (T(2) + e * e) + t;
                squash(r);
                break;
            }
            case ARR:
            {
                V x[3] = {at(o.a), at(o.b) * k, V(k)};
                if (o.n & 1)
                    std::swap(x[0], x[1]);
                if (o.n & 2)
                    x[2] = x[0] * x[1];
                V s = sum3(x);
                at(o.r) = s;
                squash(at(o.r));
                break;
            }
            default: break;
        }
    }
};

inline void logOps(eng::Ctx& c, const std::vector<Op>& ops)
{
    if (!c.verbose)
        return;
    for (auto& o : ops)
        c.log("  %s r=%d a=%d b=%d c=%d sh=%d(%s) n=%d k=%.6g", cname(o.code), o.r, o.a, o.b, o.c, o.sh,
              (o.code == NEW_EXPR || o.code == SET_EXPR || o.code == COMP_EXPR) ? shapeText(o.sh) : "", o.n, o.k);
}
}  // namespace prog

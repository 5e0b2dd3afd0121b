// C20: the segmented container against std::vector.
#include <XAD/XAD.hpp>
#include <cstdlib>
#include <cstring>
#include <list>
#include <malloc.h>
#include <memory>
#include <string>
#include <vector>
#include "engine.hpp"
#ifndef ELEM
#define ELEM 0
#endif
#if !defined(__SANITIZE_ADDRESS__) && !(defined(__has_feature) && __has_feature(address_sanitizer))
#define COUNT_ALLOC 1
// segments are allocated with aligned_alloc: count them
static void* g_blocks[4096];
static size_t g_nblocks = 0;
static bool g_noMemory = false;
extern "C" void __libc_free(void*);
extern "C" void* aligned_alloc(size_t al, size_t n) noexcept
{
    if (g_noMemory)
        return nullptr;
    void* p = memalign(al, n);
    if (p && g_nblocks < 4096)
        g_blocks[g_nblocks++] = p;
    return p;
}
extern "C" void free(void* p) noexcept
{
    if (p)
        for (size_t i = g_nblocks; i-- > 0;)
            if (g_blocks[i] == p)
            {
                g_blocks[i] = g_blocks[--g_nblocks];
                break;
            }
    __libc_free(p);
}
#endif

static long g_live = 0;
static const char* g_bad = nullptr;
struct Tracked
{
    Tracked* self;
    int* v;
    Tracked(int x = 0) : self(this), v(new int(x)) { ++g_live; }
    Tracked(const Tracked& o) : self(this), v(new int(o.get())) { ++g_live; }
    Tracked(int a, int b) : self(this), v(new int(a + b)) { ++g_live; }
    Tracked& operator=(const Tracked& o)
    {
        int x = o.get();
        if (self != this)
            g_bad = "assignment to an element that was not constructed";
        else
            *v = x;
        return *this;
    }
    ~Tracked()
    {
        if (self != this)
            g_bad = "destruction of an element that was not constructed";
        else
            delete v;
        self = nullptr;
        --g_live;
    }
    int get() const
    {
        if (self != this)
        {
            g_bad = "an element that was not constructed was read";
            return -1;
        }
        return *v;
    }
};
struct Odd
{
    unsigned char b[3];
    Odd(int x = 0) { set(x); }
    Odd(int a, int c) { set(a + c); }
    void set(int x)
    {
        b[0] = (unsigned char)x;
        b[1] = (unsigned char)(x >> 8);
        b[2] = (unsigned char)(x >> 16);
    }
};
template <class E> struct Conv;
template <> struct Conv<double>
{
    static double mk(int x) { return x; }
    static int get(double e) { return int(e); }
};
template <> struct Conv<Odd>
{
    static Odd mk(int x) { return Odd(x); }
    static int get(const Odd& e) { return e.b[0] | e.b[1] << 8 | e.b[2] << 16; }
};
template <> struct Conv<Tracked>
{
    static Tracked mk(int x) { return Tracked(x); }
    static int get(const Tracked& e) { return e.get(); }
};
template <> struct Conv<std::string>
{
    static std::string mk(int x) { return x ? std::string(size_t(x % 40), 'a') + std::to_string(x) : std::string(); }
    static int get(const std::string& e)
    {
        size_t p = e.find_last_not_of("0123456789");
        std::string d = p == std::string::npos ? e : e.substr(p + 1);
        return d.empty() ? 0 : std::stoi(d);
    }
};
template <> struct Conv<std::pair<unsigned, unsigned>>
{
    static std::pair<unsigned, unsigned> mk(int x) { return {unsigned(x), unsigned(x) * 3}; }
    static int get(const std::pair<unsigned, unsigned>& e) { return e.second == e.first * 3 ? int(e.first) : -1; }
};
template <class E> void emplace2(xad::ChunkContainer<E, 1>*, ...);

template <class E, class C>
struct Emp
{
    static void go(C& c, int x) { c.emplace_back(Conv<E>::mk(x)); }
};
template <class C>
struct Emp<Tracked, C>
{
    static void go(C& c, int x) { c.emplace_back(x - 1, 1); }
};
template <class C>
struct Emp<Odd, C>
{
    static void go(C& c, int x) { c.emplace_back(x - 1, 1); }
};
template <class C>
struct Emp<std::pair<unsigned, unsigned>, C>
{
    static void go(C& c, int x) { c.emplace_back(unsigned(x), unsigned(x) * 3); }
};

template <class E, std::size_t N>
static void drive(eng::Ctx& c)
{
    typedef xad::ChunkContainer<E, N> C;
    typedef Conv<E> K;
    g_live = 0;
    g_bad = nullptr;
#ifdef COUNT_ALLOC
    g_nblocks = 0;
#endif
    size_t steps = 0, maxSize = 0;
    {
        struct Slot
        {
            std::unique_ptr<C> c;
            std::vector<int> m;
            bool moved = false;
        };
        std::vector<Slot> s(2);
        for (auto& x : s) x.c.reset(new C);
        int next = 1;
        auto check = [&](size_t k) {
            Slot& x = s[k];
            if (x.moved)
                return;
            C& q = *x.c;
            const C& cq = q;
            if (g_bad)
                c.fail("%s", g_bad);
            if (q.size() != x.m.size() || q.empty() != x.m.empty())
                c.fail("size is %zu (empty: %d), expected %zu", q.size(), int(q.empty()), x.m.size());
            if (q.capacity() < q.size())
                c.fail("capacity %zu is below the size %zu", q.capacity(), q.size());
            for (size_t i = 0; i < x.m.size(); ++i)
                if (K::get(q[i]) != x.m[i] || K::get(cq[i]) != x.m[i])
                    c.fail("element %zu is %d, expected %d", i, K::get(q[i]), x.m[i]);
            if (g_bad)
                c.fail("%s", g_bad);
        };
        int n = int(c.pick(std::vector<int>{8, 30, 80}));
        for (int it = 0; it < n; ++it)
        {
            if (it && !c.chance(97))
                break;
            size_t k = c.chance(75) ? 0 : 1;
            Slot& x = s[k];
            int op = c.weighted({6, 3, 3, 4, 3, 3, 3, 3, 1, 2, 3, 2, 3, 2, 3, 2});
            if (x.moved && op != 10 && op != 11)
                continue;
            ++steps;
            C& q = *x.c;
            auto near = [&]() {
                // sizes around the boundaries of segments
                size_t b = c.below(5) * N;
                long d = c.range(-2, 2);
                return d < 0 && size_t(-d) > b ? size_t(0) : c.chance(60) ? size_t(long(b) + d) : size_t(c.below(4 * N + 3));
            };
            switch (op)
            {
                case 0:
                {
                    int cnt = c.chance(50) ? 1 : int(c.range(1, int64_t(2 * N)));
                    c.log("[%zu] push_back x %d", k, cnt);
                    for (int j = 0; j < cnt; ++j)
                    {
                        q.push_back(K::mk(next));
                        x.m.push_back(next++);
                    }
                    break;
                }
                case 15:
                {
#ifdef COUNT_ALLOC
                    // no memory for another segment: std::bad_alloc, and the container is as before
                    int how = int(c.below(4));
                    size_t z = near(), cap = q.capacity();
                    if (how == 2 && x.m.empty())
                        break;
                    bool want = how == 3 ? z > cap : x.m.size() == cap, got = false;
                    c.log("[%zu] %s without memory for another segment", k, how == 0 ? "push_back" : how == 1 ? "emplace_back" : how == 2 ? "push_back own element" : "reserve");
                    E e = K::mk(next);
                    g_noMemory = true;
                    try
                    {
                        if (how == 0)
                            q.push_back(e);
                        else if (how == 1)
                            Emp<E, C>::go(q, next);
                        else if (how == 2)
                            q.push_back(q[x.m.size() / 2]);
                        else
                            q.reserve(z);
                    }
                    catch (std::bad_alloc&)
                    {
                        got = true;
                    }
                    g_noMemory = false;
                    if (got != want)
                        c.fail("bad_alloc was%s thrown with %zu elements, capacity %zu", got ? "" : " not", x.m.size(), cap);
                    if (!got && how < 3)
                        x.m.push_back(how == 2 ? x.m[x.m.size() / 2] : next++);
#endif
                    break;
                }
                case 1:
                    c.log("[%zu] emplace_back", k);
                    Emp<E, C>::go(q, next);
                    x.m.push_back(next++);
                    break;
                case 2:
                    if (x.m.empty())
                        break;
                    {
                        size_t i = c.below(x.m.size());
                        c.log("[%zu] push_back own element %zu", k, i);
                        q.push_back(q[i]);
                        x.m.push_back(x.m[i]);
                    }
                    break;
                case 3:
                {
                    size_t cnt = c.chance(60) ? c.below(std::min<size_t>(N, 4) + 1) : c.below(N + 1);
                    int how = int(c.below(3));
                    c.log("[%zu] append %zu elements (%s)", k, cnt, how == 0 ? "vector" : how == 1 ? "list" : "pointer");
                    std::vector<E> v;
                    std::list<E> l;
                    for (size_t j = 0; j < cnt; ++j)
                    {
                        v.push_back(K::mk(next));
                        l.push_back(K::mk(next));
                        x.m.push_back(next++);
                    }
                    if (how == 0)
                        q.append(v.begin(), v.end());
                    else if (how == 1)
                        q.append(l.begin(), l.end());
                    else
                        q.append(v.data(), v.data() + cnt);
                    break;
                }
                case 4:
                {
                    size_t z = near();
                    c.log("[%zu] resize %zu -> %zu", k, x.m.size(), z);
                    q.resize(z);
                    x.m.resize(z, 0);
                    break;
                }
                case 5:
                {
                    size_t z = near();
                    c.log("[%zu] resize %zu -> %zu with value", k, x.m.size(), z);
                    q.resize(z, K::mk(next));
                    x.m.resize(z, next++);
                    break;
                }
                case 6:
                {
                    size_t z = near();
                    c.log("[%zu] assign %zu (size %zu)", k, z, x.m.size());
                    q.assign(z, K::mk(next));
                    x.m.assign(z, next++);
                    break;
                }
                case 7:
                {
                    size_t z = c.chance(50) ? c.below(3) : c.below(2 * N + 3);
                    c.log("[%zu] uninitialized_extend %zu", k, z);
                    size_t old = x.m.size();
                    q.uninitialized_extend(z);
                    if (q.size() != old + z)
                        c.fail("size after uninitialized_extend(%zu) is %zu, expected %zu", z, q.size(), old + z);
                    for (size_t j = 0; j < z; ++j)
                    {
                        ::new (static_cast<void*>(&q[old + j])) E(K::mk(next));
                        x.m.push_back(next++);
                    }
                    break;
                }
                case 8:
                    c.log("[%zu] clear", k);
                    q.clear();
                    x.m.clear();
                    break;
                case 9:
                {
                    size_t z = near();
                    c.log("[%zu] reserve %zu", k, z);
                    q.reserve(z);
                    if (q.capacity() < z)
                        c.fail("capacity after reserve(%zu) is %zu", z, q.capacity());
                    break;
                }
                case 10:
                {
                    // the other one takes over the content
                    size_t o = 1 - k;
                    if (s[o].moved)
                        break;
                    c.log("[%zu] = move of [%zu]", k, o);
                    *x.c = std::move(*s[o].c);
                    x.m = std::move(s[o].m);
                    s[o].m.clear();
                    x.moved = false;
                    s[o].moved = true;
                    break;
                }
                case 11:
                {
                    c.log("[%zu] replaced by a move constructed container", k);
                    if (x.moved)
                    {
                        x.c.reset(new C);
                        x.m.clear();
                        x.moved = false;
                        break;
                    }
                    std::unique_ptr<C> nc(new C(std::move(*x.c)));
                    if (c.chance(30))
                        *x.c = C();  // assigned again before it goes
                    x.c = std::move(nc);
                    break;
                }
                case 12:
                {
                    if (x.m.empty())
                        break;
                    size_t i = c.below(x.m.size() + 1), e = i + c.below(x.m.size() - i + 1);
                    c.log("[%zu] iterate %zu..%zu", k, i, e);
                    auto a = q.iterator_at(i), b = q.iterator_at(e);
                    size_t j = i;
                    bool post = c.chance(50);
                    for (; a != b;)
                    {
                        if (j >= e)
                            c.fail("iteration from %zu to %zu does not end", i, e);
                        if (K::get(*a) != x.m[j])
                            c.fail("iteration from %zu: element %zu is %d, expected %d", i, j, K::get(*a), x.m[j]);
                        ++j;
                        if (post)
                            a++;
                        else
                            ++a;
                    }
                    if (j != e || !(a == b))
                        c.fail("iteration from %zu to %zu ended at %zu", i, e, j);
                    break;
                }
                case 13:
                {
                    // by segments
                    c.log("[%zu] iterate over segments", k);
                    size_t j = 0;
                    for (auto p = q.chunk_begin(); p != q.chunk_end() && j < x.m.size(); ++p)
                        for (size_t i = 0; i < N && j < x.m.size(); ++i, ++j)
                            if (K::get((*p)[i]) != x.m[j])
                                c.fail("segments: element %zu is %d, expected %d", j, K::get((*p)[i]), x.m[j]);
                    if (j != x.m.size())
                        c.fail("segments hold %zu elements, expected %zu", j, x.m.size());
                    break;
                }
                default:
                    if (x.m.empty())
                        break;
                    {
                        size_t i = c.below(x.m.size());
                        c.log("[%zu] write element %zu", k, i);
                        q[i] = K::mk(next);
                        x.m[i] = next++;
                        if (C::getHighPart(i) * N + C::getLowPart(i) != i || C::getLowPart(i) >= N)
                            c.fail("index %zu is split into %zu and %zu", i, size_t(C::getHighPart(i)), size_t(C::getLowPart(i)));
                    }
            }
            check(k);
            if (op == 10)
                check(1 - k);
#ifdef COUNT_ALLOC
            size_t cap = 0;
            for (auto& y : s)
                if (!y.moved)
                    cap += y.c->capacity();
            if (g_nblocks < 4096 && cap > g_nblocks * N)
                c.fail("capacities add up to %zu, but memory for %zu elements is allocated", cap, g_nblocks * N);
#endif
            maxSize = std::max(maxSize, x.m.size());
            long want = 0;
            for (auto& y : s) want += long(y.m.size());
            if (std::is_same<E, Tracked>::value && g_live != want)
                c.fail("%ld elements exist, expected %ld", g_live, want);
        }
        if (g_bad)
            c.fail("%s", g_bad);
    }
    if (g_bad)
        c.fail("%s", g_bad);
    if (g_live)
        c.fail("%ld elements are left after the containers are gone", g_live);
#ifdef COUNT_ALLOC
    if (g_nblocks)
        c.fail("%zu segments are not released", g_nblocks);
#endif
    if (steps >= 4 && maxSize > N)
        c.nontrivial();
}
#define SEQ(name, E) \
    ENG_PROP(name, 1) \
    { \
        switch (c.below(6)) \
        { \
            case 0: drive<E, 2>(c); break; \
            case 1: drive<E, 3>(c); break; \
            case 2: drive<E, 8>(c); break; \
            case 3: drive<E, 1>(c); break; \
            case 4: drive<E, 7>(c); break; \
            default: drive<E, 64>(c); \
        } \
    }
typedef std::pair<unsigned, unsigned> PairT;
SEQ(doubles, double)
SEQ(odd_size, Odd)
SEQ(tracked, Tracked)
SEQ(strings, std::string)
SEQ(pairs, PairT)

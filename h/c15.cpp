// C15: the Jacobian drivers against the reference jets.
#include <XAD/Jacobian.hpp>
#include "drivers.hpp"
using namespace drv;
typedef xad::MODE<T> mode;
typedef mode::active_type A;
typedef ref::Jet<T, NV, 1> J;
typedef std::vector<A> Vec;
typedef std::function<Vec(Vec&)> Foo;
static const bool ADJ = std::is_same<A, xad::AReal<T>>::value;

// the surroundings of a call: tapes, previous recordings, inputs on the tape
template <class A, bool B = ADJ>
struct Around_
{
    typedef xad::Tape<T> TP;
    typedef std::vector<A> Vec;
    typedef std::function<Vec(Vec&)> Foo;
    eng::Ctx& c;
    std::unique_ptr<TP> tape;
    std::deque<A> extra;
    int kind;
    explicit Around_(eng::Ctx& cc) : c(cc)
    {
        kind = c.weighted({2, 2, 1, 1});
        if (kind == 0 || kind == 3)
            c.log("no tape%s", kind == 3 ? ", passed explicitly" : "");
        else
            tape.reset(new TP);
    }
    void prepare(Vec& x)
    {
        if (!tape)
            return;
        int h = c.weighted({3, 2, 2, 2});
        c.log("tape history %d, %s", h, kind == 1 ? "tape found by the driver" : "tape passed");
        if (h >= 1 && !x.empty())
        {
            for (int i = 0; i < 3; ++i)
            {
                extra.emplace_back(T(i));
                tape->registerInput(extra.back());
            }
            if (h >= 2)
                for (auto& v : x)
                    if (c.chance(60))
                        tape->registerInput(v);
            tape->newRecording();
            A y = x[0] * extra[0];
            for (auto& v : x) y += sin(v) * extra[1];
            if (h == 3)
                for (auto& v : x) v = v * T(1) + extra[2] * T(0);  // computed inputs
            if (c.chance(60))
            {
                if (!y.shouldRecord())
                    tape->registerOutput(y);
                xad::derivative(y) = T(1);
                if (c.chance(60))
                    tape->computeAdjoints();
            }
        }
    }
    std::vector<std::vector<T>> matrix(const Vec& x, const Foo& f)
    {
        switch (kind)
        {
            case 0:
            case 1: return xad::computeJacobian(x, f);
            case 2: return xad::computeJacobian(x, f, tape.get());
            default: return xad::computeJacobian(x, f, static_cast<TP*>(nullptr));
        }
    }
    template <class It>
    void fill(const Vec& x, const Foo& f, It b, It e)
    {
        switch (kind)
        {
            case 0:
            case 1: xad::computeJacobian(x, f, b, e); break;
            case 2: xad::computeJacobian(x, f, b, e, tape.get()); break;
            default: xad::computeJacobian(x, f, b, e, static_cast<TP*>(nullptr));
        }
    }
    void check(const char* when)
    {
        if (TP::getActive() != tape.get())
            c.fail("%s: the active tape changed", when);
    }
};
template <class A>
struct Around_<A, false>
{
    typedef std::vector<A> Vec;
    typedef std::function<Vec(Vec&)> Foo;
    eng::Ctx& c;
    explicit Around_(eng::Ctx& cc) : c(cc) {}
    void prepare(Vec& x)
    {
        if (c.chance(25))
        {
            c.log("inputs carry derivatives");
            for (auto& v : x) xad::derivative(v) = T(c.range(-2, 2));
        }
    }
    std::vector<std::vector<T>> matrix(const Vec& x, const Foo& f) { return xad::computeJacobian(x, f); }
    template <class It>
    void fill(const Vec& x, const Foo& f, It b, It e) { xad::computeJacobian(x, f, b, e); }
    void check(const char*) {}
};
typedef Around_<A> Around;
typedef std::vector<std::vector<double>> Mat;

// one call; returns the matrix
static Mat call(eng::Ctx& c, Around& a, const Vec& x, const Foo& f, size_t m, int how)
{
    if (how >= NTYPES)
    {
        c.log("returned matrix");
        auto q = a.matrix(x, f);
        Mat r;
        for (auto& row : q) r.emplace_back(row.begin(), row.end());
        return r;
    }
    c.log("matrix type %d", how);
    return through(how, m, x.size(), [&](auto b, auto e) { a.fill(x, f, b, e); });
}
static void shape(eng::Ctx& c, Mat& r, size_t m, size_t n, int how)
{
    if (how == NTYPES - 1)
    {
        for (size_t i : {size_t(0), m + 1, m + 2})
            for (double q : r[i])
                if (q != MARK)
                    c.fail("a row outside of the range was written");
        r.erase(r.begin());
        r.resize(m);
    }
    if (r.size() != m)
        c.fail("%zu rows, the function has %zu outputs", r.size(), m);
    for (auto& row : r)
        if (row.size() != n)
            c.fail("%zu columns, the function has %zu inputs", row.size(), n);
}
// dimensions that do not match are rejected, and exceptions of the function pass through
static void misuse(eng::Ctx& c, Around& a, const Vec& x, const Foo& f, size_t m)
{
    size_t n = x.size(), rows = m, cols = n;
    int kind = c.weighted({3, 3, 2, 2});
    const char* what = "no exception for";
    int got = 0;
    auto attempt = [&](auto&& g) {
        try
        {
            g();
        }
        catch (xad::OutOfRange&)
        {
            got = 1;
        }
        catch (FooError&)
        {
            got = 2;
        }
    };
    if (kind == 0)
        rows = m ? (c.chance(50) ? m - 1 : m + 1 + c.below(3)) : 1;
    if (kind == 1)
        cols = n ? (c.chance(50) ? n - 1 : n + 1 + c.below(3)) : 1;
    c.log("misuse %d: %zu x %zu matrix for a %zu x %zu Jacobian", kind, rows, cols, m, n);
    int want = 1;
    if (kind <= 1)
    {
        if ((rows == 0 || m == 0) && kind == 1)
            return;
        int t = int(c.below(6));
        attempt([&] { through(t, rows, cols, [&](auto b, auto e) { a.fill(x, f, b, e); }); });
    }
    else if (kind == 2)
    {
        // only one row has the wrong size
        if (m < 1)
            return;
        size_t k = c.below(m), w = n ? (c.chance(50) ? n - 1 : n + 1) : 1;
        c.log("row %zu has %zu columns", k, w);
        std::vector<std::vector<T>> q(m, std::vector<T>(n, T(0)));
        q[k].resize(w);
        q[k].shrink_to_fit();
        attempt([&] { a.fill(x, f, q.begin(), q.end()); });
        what = "no exception for one row in";
    }
    else
    {
        int at = int(c.below(4)), count = 0;
        Foo g = [&](Vec& v) {
            Vec y = f(v);
            if (count++ >= at)
                throw FooError();
            return y;
        };
        int how = int(c.below(2)) ? NTYPES : 0;
        attempt([&] { call(c, a, x, g, m, how); });
        if (count <= at)
            return;
        want = 2;
        what = "no exception for the exception of the function with";
    }
    if (got != want)
        c.fail("%s a %zu x %zu matrix where the Jacobian is %zu x %zu", what, rows, cols, m, n);
    c.label(kind == 3 ? "function throws" : "rejected dimensions");
    a.check("after an exception");
}

ENG_PROP(program, 3)
{
    int n = c.chance(4) ? 0 : int(c.range(1, NV)), m = c.chance(5) ? 0 : int(c.range(1, 6));
    std::vector<T> xv;
    for (int i = 0; i < n; ++i) xv.push_back(T(c.sreal(3)));
    ProgFn fn(c, n, m);
    for (int i = 0; i < n; ++i) c.log("input %d = %.9g", i, double(xv[size_t(i)]));
    // reference; the values along the way are those of the library
    std::vector<T> vals;
    {
        Vec x(xv.begin(), xv.end());
        fn.run(x, Values{&vals});
    }
    std::vector<J> jx;
    for (int i = 0; i < n; ++i) jx.push_back(J::input(xv[size_t(i)], i));
    size_t at = 0, bad = 0;
    std::vector<J> jy = fn.run(jx, [&](prog::Exec<J, T>& ex) {
        for (size_t i = 0; i < ex.total() && at < vals.size(); ++i, ++at)
        {
            bad += !(std::fabs(double(ex.at(int(i)).v()) - double(vals[at])) <= (sizeof(T) == 8 ? 1e-12 : 1e-4) * (1 + std::fabs(double(vals[at]))));
            ex.at(int(i)).setv(vals[at]);
        }
    });
    if (bad || at != vals.size())
        c.fail("values differ from plain arithmetic (C03)");
    Around a(c);
    Vec x(xv.begin(), xv.end());
    a.prepare(x);
    int calls = 1 + int(c.below(2));
    bool active = false;
    std::function<void(Vec&, int)> dummy;
    int scr = drawScribble(c);
    Foo f = [&](Vec& v) {
        Vec y = fn.run(v, NoSync());
        scribble(v, scr);
        return y;
    };
    for (int k = 0; k < calls; ++k)
    {
        if (c.chance(25))
            misuse(c, a, x, f, size_t(m));
        int how = int(c.below(NTYPES + 3));
        Mat r = call(c, a, x, f, size_t(m), how);
        shape(c, r, size_t(m), size_t(n), how);
        a.check("after the call");
        for (int i = 0; i < n; ++i)
            if (double(xad::value(x[size_t(i)])) != double(xv[size_t(i)]))
                c.fail("input %d changed from %.9g to %.9g", i, double(xv[size_t(i)]), double(xad::value(x[size_t(i)])));
        for (int i = 0; i < m; ++i)
            for (int j = 0; j < n; ++j)
            {
                if (!close(r[size_t(i)][size_t(j)], jy[size_t(i)].d(j), jy[size_t(i)].md(j)))
                    c.fail("entry (%d,%d) of %d x %d is %.17g, reference %.17g", i, j, m, n, r[size_t(i)][size_t(j)], double(jy[size_t(i)].d(j)));
                active |= jy[size_t(i)].d(j) != 0;
            }
    }
    if (active && n >= 2 && m >= 2)
        c.nontrivial();
    c.label(n == 0 || m == 0 ? "empty" : n > m ? "wide" : n < m ? "tall" : "square");
}
ENG_PROP(wide, 1)
{
    int n = int(c.range(0, 24)), m = int(c.range(0, 24));
    WideFn fn(c, n, m);
    std::vector<T> xv;
    for (int i = 0; i < n; ++i) xv.push_back(T(c.range(-16, 16)) / T(4));
    Around a(c);
    Vec x(xv.begin(), xv.end());
    a.prepare(x);
    int scr = drawScribble(c);
    Foo f = [&](Vec& v) {
        Vec y = fn.run(v);
        scribble(v, scr);
        return y;
    };
    int how = int(c.below(NTYPES + 2));
    Mat r = call(c, a, x, f, size_t(m), how);
    shape(c, r, size_t(m), size_t(n), how);
    bool active = false;
    for (int i = 0; i < m; ++i)
        for (int j = 0; j < n; ++j)
        {
            double s, w = fn.d(i, j, xv, s);
            if (!close(r[size_t(i)][size_t(j)], w, s))
                c.fail("entry (%d,%d) of %d x %d is %.17g, expected %.17g", i, j, m, n, r[size_t(i)][size_t(j)], w);
            active |= w != 0;
        }
    if (active && n >= 2 && m >= 2)
        c.nontrivial();
}

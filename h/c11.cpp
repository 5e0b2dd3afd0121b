// C11: the same program gives the same values and derivatives in every build.
#include "engine.hpp"
#include <dlfcn.h>
#include <memory>
typedef long (*RunFn)(eng::Shared*, const uint64_t*, size_t, double*, size_t, char*, size_t);
struct Lib
{
    std::string name;
    RunFn run;
};
static std::vector<Lib> load()
{
    std::vector<Lib> r;
    const char* e = getenv("VERIF_LIBS");
    std::string s = e ? e : "", item;
    std::istringstream is(s);
    while (std::getline(is, item, ':'))
    {
        size_t q = item.find('=');
        void* h = dlopen(item.substr(q + 1).c_str(), RTLD_NOW | RTLD_LOCAL);
        RunFn f = h ? RunFn(dlsym(h, "c11_run")) : nullptr;
        if (!f)
        {
            fprintf(stderr, "cannot load %s: %s\n", item.c_str(), dlerror());
            _exit(3);
        }
        r.push_back({item.substr(0, q), f});
    }
    if (r.empty())
    {
        fprintf(stderr, "VERIF_LIBS is not set\n");
        _exit(3);
    }
    return r;
}
ENG_PROP(builds, 1)
{
    static std::vector<Lib> libs = load();
    static const char* const K[] = {"recordings", "forward mode", "second order", "passive", "Jacobian", "Hessian", "tapes come and go", "all functions"};
    static const size_t MAX = 20000;
    static std::vector<double> a(MAX), b(MAX);
    std::vector<uint64_t> ch;
    size_t n = 4 + c.below(600);
    for (size_t i = 0; i < n; ++i) ch.push_back(c.below(1u << 30));
    std::unique_ptr<char[]> tr;
    if (c.verbose)
        tr.reset(new char[1 << 16]());
    long na = 0;
    bool bits = true;
    for (size_t l = 0; l < libs.size(); ++l)
    {
        std::vector<double>& o = l ? b : a;
        long m = libs[l].run(c.sh, ch.data(), ch.size(), o.data(), MAX, l == 0 ? tr.get() : nullptr, 1 << 16);
        if (l == 0)
        {
            na = m;
            c.label(K[m / 1000000]);
            if (tr)
            {
                char* p = tr.get();
                for (char* q; (q = strchr(p, '\n')); p = q + 1)
                {
                    *q = 0;
                    c.log("%s", p);
                }
            }
            continue;
        }
        if (m != na)
            c.fail("%s gives %ld results, %s %ld", libs[0].name.c_str(), na % 1000000, libs[l].name.c_str(), m % 1000000);
        for (long i = 0; i < m % 1000000; ++i)
        {
            double x = a[size_t(i)], y = b[size_t(i)];
            if (memcmp(&x, &y, 8) == 0 || (x != x && y != y))
                continue;
            if (x != y)
                bits = false;
            double s = std::max(std::fabs(x), std::fabs(y));
            if (x == y || s > 1e280 || std::fabs(x - y) <= 1e-7 * s + 1e-12)
                continue;
            c.fail("result %ld of the task is %.17g in the build %s and %.17g in the build %s", i, x, libs[0].name.c_str(), y, libs[l].name.c_str());
        }
    }
    c.label(bits ? "bitwise equal" : "equal up to rounding");
    int nz = 0;
    for (long i = 0; i < na % 1000000; ++i) nz += a[size_t(i)] != 0;
    if (na % 1000000 >= 4 && nz)
        c.nontrivial();
}

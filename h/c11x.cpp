// C11: executes one task in one build of the library; made into a shared library per build configuration.
#define ENG_NO_MAIN
#define TASK_PORTABLE
#include "task.hpp"
extern "C" __attribute__((visibility("default"))) long c11_run(eng::Shared* sh, const uint64_t* ch, size_t n, double* out, size_t max, char* trace, size_t tmax)
{
    std::vector<uint64_t> pre(ch, ch + n);
    eng::Ctx c;
    c.sh = sh;
    c.counting = false;
    c.replay = true;
    c.pre = &pre;
    c.verbose = trace != nullptr;
    Task t = draw(c);
    c.log("task: %s, %zu inputs", KINDS[t.kind], t.k.size());
    Out o;
    run(c, t, [] {}, o);
    if (trace)
        snprintf(trace, tmax, "%s", c.trace.c_str());
    size_t m = o.v.size() < max ? o.v.size() : max;
    for (size_t i = 0; i < m; ++i) out[i] = o.v[i];
    return t.kind * 1000000L + long(m);
}

// Choice-sequence property-based testing engine.
//
// A case is a pure function of a sequence of bounded integer choices.  Random search draws the
// choices from a seeded generator; shrinking edits the recorded sequence (delete / zero / lower)
// and re-runs; a replay file is just the sequence.  Cases run in forked workers, so a crash, a
// sanitizer report, std::terminate or a runaway case (CPU-time limit) is a failure like any other.
#pragma once
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <map>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace eng
{
static const uint32_t MAXCH = 1u << 16;
static const int CPU_LIMIT_S = 20;
enum
{
    EX_FAIL = 99,
    EX_HANG = 98
};

struct Shared
{
    volatile uint64_t cur;  // index of the case being run
    volatile int prop;
    volatile uint32_t nch;
    uint64_t ch[MAXCH];
    char msg[8192];
    uint64_t evals, nontriv, distinct, discards;
    int capped, done;
    struct Lab
    {
        char name[48];
        uint64_t n;
    } labs[160];
    uint32_t nlabs;
    uint32_t nsamp;
    char samp[3][2400];
    uint64_t digest;
};

inline Shared* newShared()
{
    void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED)
    {
        perror("mmap");
        exit(3);
    }
    return static_cast<Shared*>(p);
}

inline uint64_t mix(uint64_t x)
{
    x += 0x9e3779b97f4a7c15ULL;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
}

struct Ctx
{
    Shared* sh = nullptr;
    bool replay = false;   // choices come from `pre`, then zeros
    bool verbose = false;  // collect a trace
    const std::vector<uint64_t>* pre = nullptr;
    size_t pos = 0;
    uint64_t st = 0;
    std::string trace;
    bool nt = false, counting = true;
    uint64_t hash = 1469598103934665603ULL;

    uint64_t below(uint64_t n)
    {
        if (n <= 1)
            return 0;
        uint64_t v;
        if (replay)
            v = pre && pos < pre->size() ? (*pre)[pos] % n : 0;
        else
        {
            st += 0x9e3779b97f4a7c15ULL;
            v = mix(st) % n;
        }
        if (!replay)
        {
            uint32_t k = sh->nch;
            if (k < MAXCH)
                sh->ch[k] = v;
            sh->nch = k + 1;
        }
        ++pos;
        hash = (hash ^ (v + 0x9e37)) * 1099511628211ULL;
        return v;
    }
    long range(long lo, long hi) { return lo + long(below(uint64_t(hi - lo + 1))); }
    // true with probability pc/100; the shrunk value is false
    bool chance(int pc) { return below(100) >= uint64_t(100 - pc); }
    template <class A>
    auto pick(const A& a) -> decltype(a[0])
    {
        return a[below(a.size())];
    }
    template <class A, size_t N>
    const A& pick(const A (&a)[N])
    {
        return a[below(N)];
    }
    // index by weight
    int weighted(std::initializer_list<int> w)
    {
        int t = 0;
        for (int x : w) t += x;
        int v = int(below(uint64_t(t))), i = 0;
        for (int x : w)
        {
            if (v < x)
                return i;
            v -= x;
            ++i;
        }
        return 0;
    }
    // "nice" real in [lo,hi], a multiple of (hi-lo)/4096 so shrinking gives readable numbers
    double real(double lo, double hi)
    {
        return lo + (hi - lo) * double(below(4097)) / 4096.0;
    }
    // value around zero with simple shrink target 0
    double sreal(double m)
    {
        long v = long(below(8193));
        double a = double((v + 1) / 2) / 4096.0 * m;
        return (v & 1) ? -a : a;
    }
    void nontrivial() { nt = true; }
    void label(const char* name)
    {
        if (!counting || !sh)
            return;
        for (uint32_t i = 0; i < sh->nlabs; ++i)
            if (!strncmp(sh->labs[i].name, name, 47))
            {
                ++sh->labs[i].n;
                return;
            }
        if (sh->nlabs < 160)
        {
            strncpy(sh->labs[sh->nlabs].name, name, 47);
            sh->labs[sh->nlabs++].n = 1;
        }
    }
    void log(const char* f, ...) __attribute__((format(printf, 2, 3)))
    {
        if (!verbose)
            return;
        char b[1024];
        va_list ap;
        va_start(ap, f);
        vsnprintf(b, sizeof b, f, ap);
        va_end(ap);
        if (trace.size() < 200000)
        {
            trace += b;
            trace += "\n";
        }
        if (live)
        {
            fputs(b, stdout);
            fputc('\n', stdout);
            fflush(stdout);
        }
    }
    bool live = false;
    void fail(const char* f, ...) __attribute__((format(printf, 2, 3), noreturn))
    {
        char b[4096];
        va_list ap;
        va_start(ap, f);
        vsnprintf(b, sizeof b, f, ap);
        va_end(ap);
        snprintf(sh->msg, sizeof sh->msg, "%s", b);
        if (live)
        {
            printf("FAIL: %s\n", b);
            fflush(stdout);
        }
        _exit(EX_FAIL);
    }
    // digest of results, for differential comparison between builds
    void digest(double v)
    {
        uint64_t b;
        memcpy(&b, &v, 8);
        sh->digest = mix(sh->digest ^ b) + 0x1234;
    }
};

typedef void (*PropFn)(Ctx&);
struct Prop
{
    const char* name;
    PropFn fn;
    int weight;
};
inline std::vector<Prop>& props()
{
    static std::vector<Prop> p;
    return p;
}
struct Reg
{
    Reg(const char* n, PropFn f, int w = 1) { props().push_back({n, f, w}); }
};
#define ENG_PROP(name, weight)                                                                     \
    static void prop_##name(eng::Ctx&);                                                            \
    static eng::Reg reg_##name(#name, prop_##name, weight);                                        \
    static void prop_##name(eng::Ctx& c)

inline void onProf(int) { _exit(EX_HANG); }
inline void armCpu(int s)
{
    struct itimerval t;
    memset(&t, 0, sizeof t);
    t.it_value.tv_sec = s;
    setitimer(ITIMER_PROF, &t, nullptr);
}
inline double now()
{
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return double(t.tv_sec) + 1e-9 * double(t.tv_nsec);
}

inline void runOne(Ctx& c, int p)
{
    c.sh->prop = p;
    c.sh->nch = 0;
    try
    {
        props()[size_t(p)].fn(c);
    }
    catch (const std::exception& e)
    {
        c.fail("unexpected exception: %s", e.what());
    }
    catch (...)
    {
        c.fail("unexpected exception of unknown type");
    }
}

// which property and which seed a case index stands for
inline int propOf(uint64_t seed, uint64_t idx, const std::vector<int>& sel)
{
    (void)seed;
    int tot = 0;
    for (int p : sel) tot += props()[size_t(p)].weight;
    int v = int(mix(idx * 7919 + 13) % uint64_t(tot));
    for (int p : sel)
    {
        v -= props()[size_t(p)].weight;
        if (v < 0)
            return p;
    }
    return sel[0];
}

inline void limits()
{
    struct rlimit r;
    r.rlim_cur = r.rlim_max = 0;
    setrlimit(RLIMIT_CORE, &r);
#if !defined(__SANITIZE_ADDRESS__) && !defined(ENG_NO_AS_LIMIT)
#if defined(__has_feature)
#if __has_feature(address_sanitizer) || __has_feature(thread_sanitizer) || __has_feature(memory_sanitizer)
#define ENG_SAN 1
#endif
#endif
#ifndef ENG_SAN
    r.rlim_cur = r.rlim_max = 6ULL << 30;
    setrlimit(RLIMIT_AS, &r);
#endif
#endif
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = onProf;
    sigaction(SIGPROF, &sa, nullptr);
}

inline void worker(Shared* sh, uint64_t seed, uint64_t lo, uint64_t hi, uint64_t step, double cap,
                   const std::vector<int>& sel)
{
    limits();
    std::unordered_set<uint64_t> seen;
    double t0 = now();
    std::map<int, int> sampled;
    for (uint64_t i = lo; i < hi; i += step)
    {
        if (cap > 0 && now() - t0 > cap)
        {
            sh->capped = 1;
            break;
        }
        sh->cur = i;
        armCpu(CPU_LIMIT_S);
        int p = propOf(seed, i, sel);
        Ctx c;
        c.sh = sh;
        c.st = mix(seed ^ mix(i + 1) ^ (uint64_t(p) << 50));
        runOne(c, p);
        ++sh->evals;
        if (c.nt)
        {
            ++sh->nontriv;
            if (seen.insert(c.hash ^ mix(uint64_t(p))).second)
                ++sh->distinct;
            if (sh->nsamp < 3 && sh->nch < MAXCH && sampled[p]++ == 0)
            {
                std::vector<uint64_t> v(sh->ch, sh->ch + sh->nch);
                Ctx d;
                d.sh = sh;
                d.replay = true;
                d.pre = &v;
                d.verbose = true;
                d.counting = false;
                uint64_t dg = sh->digest;
                runOne(d, p);
                sh->digest = dg;
                std::string s = std::string(props()[size_t(p)].name) + ": " + d.trace;
                snprintf(sh->samp[sh->nsamp++], sizeof sh->samp[0], "%s", s.c_str());
            }
        }
    }
    armCpu(0);
    sh->done = 1;
}

inline std::string exitDesc(int st, const Shared* sh)
{
    char b[256];
    if (WIFEXITED(st))
    {
        int c = WEXITSTATUS(st);
        if (c == EX_FAIL)
            return std::string("check failed: ") + sh->msg;
        if (c == EX_HANG)
            return "runaway case: exceeded the CPU limit";
        snprintf(b, sizeof b, "process ended with exit code %d (sanitizer report or exit)", c);
        return b;
    }
    snprintf(b, sizeof b, "process killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
    return b;
}
inline bool isBad(int st) { return !(WIFEXITED(st) && WEXITSTATUS(st) == 0); }
inline std::string kind(int st)
{
    if (WIFEXITED(st))
        return "e" + std::to_string(WEXITSTATUS(st));
    return "s" + std::to_string(WTERMSIG(st));
}

// run one candidate in a child; quiet
inline int tryCase(Shared* sh, int p, const std::vector<uint64_t>& v, bool live)
{
    fflush(stdout);
    sh->msg[0] = 0;
    pid_t pid = fork();
    if (pid == 0)
    {
        limits();
        if (!live)
        {
            int n = open("/dev/null", O_WRONLY);
            dup2(n, 1);
            dup2(n, 2);
        }
        armCpu(CPU_LIMIT_S);
        Ctx c;
        c.sh = sh;
        c.replay = true;
        c.pre = &v;
        c.verbose = live;
        c.live = live;
        runOne(c, p);
        fflush(stdout);
        _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    return st;
}
// replays a whole range of cases in one process (for failures that need earlier cases)
inline int tryBatch(Shared* sh, uint64_t seed, uint64_t lo, uint64_t hi, uint64_t step,
                    const std::vector<int>& sel, bool live)
{
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0)
    {
        if (!live)
        {
            int n = open("/dev/null", O_WRONLY);
            dup2(n, 1);
            dup2(n, 2);
        }
        sh->nsamp = 3;
        worker(sh, seed, lo, hi, step, 0, sel);
        _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    return st;
}

inline std::vector<uint64_t> shrink(Shared* sh, int p, std::vector<uint64_t> best, double budget, bool slow)
{
    double t0 = now();
    auto ok = [&](const std::vector<uint64_t>& v) {
        if (now() - t0 > budget)
            return false;
        return isBad(tryCase(sh, p, v, false));
    };
    if (slow)
        return best;
    while (!best.empty() && best.back() == 0) best.pop_back();
    bool progress = true;
    while (progress && now() - t0 < budget)
    {
        progress = false;
        for (size_t len = best.size() / 2; len >= 1; len /= 2)
        {
            for (size_t i = 0; i + len <= best.size();)
            {
                std::vector<uint64_t> v(best);
                v.erase(v.begin() + long(i), v.begin() + long(i + len));
                if (ok(v))
                {
                    best = v;
                    progress = true;
                }
                else
                    i += len;
                if (now() - t0 > budget)
                    return best;
            }
            if (len == 1)
                break;
        }
        for (size_t i = 0; i < best.size(); ++i)
        {
            if (best[i] == 0)
                continue;
            std::vector<uint64_t> v(best);
            v[i] = 0;
            if (ok(v))
            {
                best = v;
                progress = true;
                continue;
            }
            uint64_t lo = 0, hi = best[i];
            while (hi - lo > 1 && now() - t0 < budget)
            {
                uint64_t m = lo + (hi - lo) / 2;
                v = best;
                v[i] = m;
                if (ok(v))
                    hi = m;
                else
                    lo = m;
            }
            if (hi < best[i])
            {
                best[i] = hi;
                progress = true;
            }
        }
    }
    return best;
}

inline std::string jesc(const std::string& s)
{
    std::string o;
    for (unsigned char ch : s)
    {
        if (ch == '"' || ch == '\\')
        {
            o += '\\';
            o += char(ch);
        }
        else if (ch == '\n')
            o += "\\n";
        else if (ch < 32 || ch > 126)
            o += ' ';
        else
            o += char(ch);
    }
    return o;
}

inline int mainRun(int argc, char** argv)
{
    uint64_t seed = 1, cases = 1000;
    unsigned workers = 1;
    double cap = 0;
    std::string out, rdir = ".", tag = "x", only;
    for (int i = 2; i + 1 < argc; i += 2)
    {
        std::string a = argv[i], v = argv[i + 1];
        if (a == "--seed")
            seed = strtoull(v.c_str(), nullptr, 10);
        else if (a == "--cases")
            cases = strtoull(v.c_str(), nullptr, 10);
        else if (a == "--workers")
            workers = unsigned(atoi(v.c_str()));
        else if (a == "--cap")
            cap = atof(v.c_str());
        else if (a == "--out")
            out = v;
        else if (a == "--replay-dir")
            rdir = v;
        else if (a == "--tag")
            tag = v;
        else if (a == "--prop")
            only = v;
    }
    std::vector<int> sel;
    for (size_t i = 0; i < props().size(); ++i)
        if (props()[i].weight > 0 && (only.empty() || ("," + only + ",").find("," + std::string(props()[i].name) + ",") != std::string::npos))
            sel.push_back(int(i));
    if (sel.empty())
    {
        fprintf(stderr, "no property selected\n");
        return 3;
    }
    std::vector<Shared*> sh(workers);
    std::vector<pid_t> pid(workers);
    for (unsigned w = 0; w < workers; ++w) sh[w] = newShared();
    for (unsigned w = 0; w < workers; ++w)
    {
        fflush(stdout);
        pid[w] = fork();
        if (pid[w] == 0)
        {
            std::string ef = rdir + "/" + tag + ".w" + std::to_string(w) + ".err";
            int n = open(ef.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
            int dn = open("/dev/null", O_WRONLY);
            dup2(dn, 1);
            dup2(n, 2);
            worker(sh[w], seed, w, cases, workers, cap, sel);
            _exit(0);
        }
    }
    int failW = -1, failSt = 0;
    unsigned left = workers;
    while (left)
    {
        int st;
        pid_t q = waitpid(-1, &st, 0);
        if (q < 0)
            break;
        for (unsigned w = 0; w < workers; ++w)
            if (pid[w] == q)
            {
                --left;
                pid[w] = 0;
                if (failW < 0 && (isBad(st) || !sh[w]->done))
                {
                    failW = int(w);
                    failSt = st;
                    for (unsigned k = 0; k < workers; ++k)
                        if (pid[k] > 0)
                            kill(pid[k], SIGKILL);
                }
            }
    }
    std::string status = "ok", message, replayFile;
    if (failW >= 0)
    {
        Shared* f = sh[size_t(failW)];
        message = exitDesc(failSt, f);
        int p = f->prop;
        uint64_t idx = f->cur;
        std::vector<uint64_t> v(f->ch, f->ch + (f->nch < MAXCH ? uint32_t(f->nch) : MAXCH));
        bool hang = WIFEXITED(failSt) && WEXITSTATUS(failSt) == EX_HANG;
        Shared* t = newShared();
        auto thrice = [&](const std::vector<uint64_t>& c, int& last) {
            for (int i = 0; i < 3; ++i)
            {
                last = tryCase(t, p, c, false);
                if (!isBad(last))
                    return false;
            }
            return true;
        };
        int last = failSt;
        bool mem = WIFSIGNALED(failSt) && WTERMSIG(failSt) == SIGKILL;
        if (!mem && f->nch <= MAXCH && thrice(v, last))
        {
            std::vector<uint64_t> s = shrink(t, p, v, 25, hang);
            int l2 = 0;
            if (!thrice(s, l2))
            {
                s = v;
                thrice(s, l2);
            }
            message = exitDesc(l2, t);
            status = "fail";
            replayFile = rdir + "/" + tag + "-" + props()[size_t(p)].name + ".replay";
            std::ofstream o(replayFile);
            o << "prop " << props()[size_t(p)].name << "\nchoices " << s.size();
            for (auto x : s) o << " " << x;
            o << "\n# " << message << "\n";
        }
        else if (!mem)
        {
            // maybe it needs the preceding cases of that worker
            bool all = true;
            for (int i = 0; i < 3 && all; ++i)
            {
                memset(t, 0, sizeof *t);
                all = isBad(tryBatch(t, seed, unsigned(failW), idx + 1, workers, sel, false));
            }
            if (all)
            {
                status = "fail";
                replayFile = rdir + "/" + tag + "-batch.replay";
                std::ofstream o(replayFile);
                o << "batch " << seed << " " << failW << " " << idx + 1 << " " << workers << " "
                  << (only.empty() ? "-" : only) << "\n# " << message << "\n";
            }
            else
                status = "unreproduced";
        }
        else
            status = "killed";
    }
    // merged statistics
    uint64_t ev = 0, nt = 0, di = 0, dig = 0;
    int capped = 0;
    std::map<std::string, uint64_t> labs;
    std::vector<std::string> samples;
    for (auto* s : sh)
    {
        ev += s->evals;
        nt += s->nontriv;
        di += s->distinct;
        dig ^= s->digest;
        capped |= s->capped;
        for (uint32_t i = 0; i < s->nlabs; ++i) labs[s->labs[i].name] += s->labs[i].n;
        for (uint32_t i = 0; i < s->nsamp; ++i) samples.push_back(s->samp[i]);
    }
    std::ofstream o(out);
    o << "{\"status\":\"" << status << "\",\"message\":\"" << jesc(message) << "\",\"replay\":\""
      << jesc(replayFile) << "\",\"evaluations\":" << ev << ",\"nontrivial\":" << nt
      << ",\"distinct\":" << di << ",\"capped\":" << capped << ",\"digest\":\"" << dig
      << "\",\"labels\":{";
    bool first = true;
    for (auto& l : labs)
    {
        o << (first ? "" : ",") << "\"" << jesc(l.first) << "\":" << l.second;
        first = false;
    }
    o << "},\"samples\":[";
    first = true;
    for (auto& s : samples)
    {
        o << (first ? "" : ",") << "\"" << jesc(s) << "\"";
        first = false;
    }
    o << "]}\n";
    o.close();
    return status == "ok" ? 0 : status == "fail" ? 1 : 4;
}

inline int mainReplay(const char* file)
{
    std::ifstream in(file);
    std::string w;
    in >> w;
    Shared* t = newShared();
    if (w == "batch")
    {
        uint64_t seed, lo, hi, step;
        std::string only;
        in >> seed >> lo >> hi >> step >> only;
        if (only == "-")
            only.clear();
        std::vector<int> sel;
        for (size_t i = 0; i < props().size(); ++i)
            if (props()[i].weight > 0 && (only.empty() || ("," + only + ",").find("," + std::string(props()[i].name) + ",") != std::string::npos))
                sel.push_back(int(i));
        int st = tryBatch(t, seed, lo, hi, step, sel, true);
        if (isBad(st))
        {
            printf("REPLAY-FAIL %s\n", exitDesc(st, t).c_str());
            return 1;
        }
        printf("REPLAY-OK\n");
        return 0;
    }
    std::string name;
    size_t n = 0;
    in >> name >> w >> n;
    std::vector<uint64_t> v(n);
    for (auto& x : v) in >> x;
    for (size_t i = 0; i < props().size(); ++i)
        if (name == props()[i].name)
        {
            int st = tryCase(t, int(i), v, true);
            if (isBad(st))
            {
                printf("REPLAY-FAIL %s\n", exitDesc(st, t).c_str());
                return 1;
            }
            printf("REPLAY-OK\n");
            return 0;
        }
    fprintf(stderr, "unknown property %s\n", name.c_str());
    return 3;
}
}  // namespace eng

#ifndef ENG_NO_MAIN
int main(int argc, char** argv)
{
    if (argc >= 3 && !strcmp(argv[1], "replay"))
        return eng::mainReplay(argv[2]);
    if (argc >= 2 && !strcmp(argv[1], "run"))
        return eng::mainRun(argc, argv);
    fprintf(stderr, "usage: %s run --seed N --cases N --workers N --out F | replay FILE\n", argv[0]);
    return 3;
}
#endif

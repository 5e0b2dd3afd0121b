// C23: repeating a recording on one tape does not grow anything, and the counters tell the truth.
#include "world.hpp"
#include <malloc.h>
using namespace world;

#if defined(__SANITIZE_ADDRESS__)
#define NO_HEAP
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define NO_HEAP
#endif
#endif
#ifdef NO_HEAP
static const bool HEAP = false;
static long g_blocks = 0, g_bytes = 0;
#else
static const bool HEAP = true;
static long g_blocks = 0, g_bytes = 0;
extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_memalign(size_t, size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
static void* counted(void* p)
{
    if (p)
    {
        ++g_blocks;
        g_bytes += long(malloc_usable_size(p));
    }
    return p;
}
void* malloc(size_t n) { return counted(__libc_malloc(n)); }
void* calloc(size_t n, size_t m) { return counted(__libc_calloc(n, m)); }
void* aligned_alloc(size_t a, size_t n) { return counted(__libc_memalign(a, n)); }
void* memalign(size_t a, size_t n) { return counted(__libc_memalign(a, n)); }
int posix_memalign(void** p, size_t a, size_t n)
{
    *p = counted(__libc_memalign(a, n));
    return *p ? 0 : 12;
}
void free(void* p)
{
    if (p)
    {
        --g_blocks;
        g_bytes -= long(malloc_usable_size(p));
    }
    __libc_free(p);
}
void* realloc(void* p, size_t n)
{
    if (p)
    {
        --g_blocks;
        g_bytes -= long(malloc_usable_size(p));
    }
    return counted(__libc_realloc(p, n));
}
}
#endif
#ifdef XAD_TAPE_REUSE_SLOTS
static const bool REUSE = true;
#else
static const bool REUSE = false;
#endif
// memory without the list of reusable slots, whose length depends on how they are cut
static size_t mem(const TP& t) { return t.getMemory() - (REUSE ? t.getNumReusableSlotSections() * sizeof(xad::ReusableRange<unsigned>) : 0); }

struct Shot
{
    unsigned st, op, va, cb;
    size_t me;
};
struct Round
{
    std::vector<Shot> shots;
    std::vector<double> out;
    long blocks = 0, bytes = 0;
};
enum Style
{
    ALIVE, DEAD, CLEARALL, POSITION, NSTYLES
};
static const char* const SN[] = {"new recordings, inputs stay", "new recordings, all variables new", "clearAll", "reset to a position"};

static void compare(eng::Ctx& c, const Round& a, const Round& b, size_t r, bool memory)
{
    if (a.shots.size() != b.shots.size())
        c.fail("round %zu took %zu measurements, the one before %zu", r, b.shots.size(), a.shots.size());
    for (size_t i = 0; i < a.shots.size(); ++i)
    {
        const Shot &x = a.shots[i], &y = b.shots[i];
        if (x.st != y.st || x.op != y.op || x.va != y.va || x.cb != y.cb)
            c.fail("round %zu, measurement %zu of %zu: %u statements, %u operations, %u variables, %u callbacks; in the round before %u, %u, %u, %u", r, i, a.shots.size(),
                   y.st, y.op, y.va, y.cb, x.st, x.op, x.va, x.cb);
        if (memory && x.me != y.me)
            c.fail("round %zu, measurement %zu of %zu: %zu bytes on the tape, in the round before %zu", r, i, a.shots.size(), y.me, x.me);
    }
    if (a.out.size() != b.out.size())
        c.fail("round %zu gave %zu results, the one before %zu", r, b.out.size(), a.out.size());
    for (size_t i = 0; i < a.out.size(); ++i)
        if (memcmp(&a.out[i], &b.out[i], sizeof(double)))
            c.fail("round %zu, result %zu is %.17g, in the round before %.17g", r, i, b.out[i], a.out[i]);
}

ENG_PROP(repeat, 3)
{
    int style = int(c.below(NSTYLES));
    bool ints = c.chance(50);
    // without slot reuse the footprint is only constant for variables destroyed in the reverse order of their registration
    bool scoped = !REUSE && c.chance(75);
    bool memory = REUSE || scoped || style == CLEARALL;
    int rounds = int(c.range(4, c.chance(15) ? 40 : 8));
    int pushes = c.chance(20) ? int(c.range(1, 3)) : 0;
    ScriptCfg g;
    g.max = int(c.range(3, 25));
    g.ext = c.chance(50);
    g.deep = int(c.below(2));
    g.w[A_SAVE] = 2;
    if (scoped)
        for (int k : {NEWP, MOVEC, MOVEA, SWAP, DEL, REGO, COPYC}) g.ops.w[k] = 0;
    int nin = int(c.range(1, 3));
    std::vector<double> k;
    for (int i = 0; i < nin; ++i) k.push_back(double(c.range(-9, 9)) * (ints ? 1 : 0.25));
    ScriptCfg pre;
    for (int& x : pre.w) x = 0;
    pre.w[A_OP] = 1;
    pre.ops = g.ops;
    pre.max = 8;
    Script prefix;
    if (style == POSITION && c.chance(60))
        prefix = genScript(c, pre);
    Script s = genScript(c, g);
    bool before = style == ALIVE || style == POSITION || c.chance(60);  // inputs registered before the recording
    unsigned order = unsigned(c.below(3));
    c.label(SN[style]);
    c.log("%s, %d rounds%s", SN[style], rounds, scoped ? ", variables destroyed in reverse order of registration" : "");
    TP tape;
    std::vector<AD*> in;
    std::unique_ptr<World> pw;   // only one for all rounds when resetting to a position
    TP::position_type start = 0;
    size_t mstart = 0, nfix = 0;
    if (style == ALIVE)
        for (double v : k)
        {
            in.push_back(new AD(T(v)));
            tape.registerInput(*in.back());
        }
    if (style == POSITION)
    {
        pw.reset(new World(c, &tape));
        pw->ints = ints;
        pw->m.exact = ints;
        for (double v : k) pw->addInput(v);
        pw->newRecording();
        pw->writeInputs = false;
        c.log("prefix");
        {
            Player p(*pw);
            p.play(prefix);
        }
        pw->writeInputs = false;
        start = tape.getPosition();
        mstart = pw->m.st.size();
        for (size_t i = pw->vars.size(); i-- > 0;)
            if (pw->vars[i].s < 0)
                pw->removeVar(i);
        nfix = pw->vars.size();
        for (auto& v : pw->vars) v.input = true;
    }
    Round prev, cur;
    size_t peak = 0;
    int rollbacks = 0;
    size_t results = 0;
    unsigned firstFill = 0;
    for (int r = 0; r < rounds; ++r)
    {
        c.log("--- round %d", r);
        c.counting = r == 0;
        cur.shots.clear();
        cur.out.clear();
        {
            std::unique_ptr<World> own;
            if (style != POSITION)
            {
                own.reset(new World(c, &tape));
                own->ints = ints;
                own->m.exact = ints;
            }
            World& w = style == POSITION ? *pw : *own;
            if (style != POSITION)
                w.writeInputs = style != ALIVE;
            auto shot = [&]() {
                cur.shots.push_back({tape.getNumStatements(), tape.getNumOperations(), tape.getNumVariables(), tape.getNumCallbacks(), mem(tape)});
                peak = std::max(peak, size_t(tape.getNumVariables()));
            };
            if (style == ALIVE)
                for (size_t i = 0; i < in.size(); ++i)
                {
                    w.vars.push_back({in[i], k[i], w.m.reg(), true});
                    w.m.slot[size_t(w.vars.back().s)] = in[i]->getSlot();
                }
            else if (style != POSITION && before)
                for (double v : k) w.addInput(v);
            if (style != POSITION)
            {
                w.newRecording();
                if (tape.getNumStatements() || tape.getNumOperations())
                    c.fail("a new recording has %u statements and %u operations", tape.getNumStatements(), tape.getNumOperations());
                if (!before)
                    for (double v : k) w.addInput(v);
            }
            w.hook = [&](World&) { shot(); };
            for (int i = 0; i < pushes; ++i) tape.pushCallback(nullptr);
            Player p(w);
            p.play(s);
            if (!w.vars.empty())
            {
                for (unsigned i = 0; i < 3; ++i) p.seed(i * 5, int(i), 1.0 + i, true);
                if (style == POSITION)
                {
                    p.goneInputs();
                    c.log("computeAdjointsTo the start");
                    w.computeAdjointsTo(start, mstart);
                    p.readAll(0);
                }
                else
                {
                    p.full();
                    p.readAll(0);
                }
            }
            shot();
            for (int i = 0; i < pushes; ++i) tape.popCallback();
            rollbacks += p.rollbacks + 1;
            cur.out.swap(p.out);
            results = cur.out.size();
            w.hook = nullptr;
            // the end of the round
            size_t keep = style == ALIVE ? size_t(nin) : style == POSITION ? nfix : 0;
            if (scoped)
                while (w.vars.size() > keep) w.removeVar(w.vars.size() - 1);
            else
                for (size_t n; (n = w.vars.size()) > 0;)
                {
                    // in an order of its own, around those that stay
                    size_t i = order == 0 ? n - 1 : order == 1 ? 0 : n / 2, q = 0;
                    auto stays = [&](size_t j) { return style == ALIVE ? std::find(in.begin(), in.end(), w.vars[j].x) != in.end() : style == POSITION && w.vars[j].input; };
                    while (q < n && stays((i + q) % n)) ++q;
                    if (q == n)
                        break;
                    w.removeVar((i + q) % n);
                }
            if (style == POSITION)
            {
                c.log("resetTo the start");
                w.resetTo(start, mstart);
                tape.clearDerivatives();
                w.m.clearD();
            }
            shot();
            unsigned left = style == ALIVE ? unsigned(nin) : 0;
            if (style == POSITION)
                for (auto& v : w.vars) left += v.s >= 0;
            if (tape.getNumVariables() != left)
                c.fail("%u variables at the end of round %d, %u are alive", tape.getNumVariables(), r, left);
            if (style == POSITION && tape.getPosition() != start)
                c.fail("position %u after resetting to %u", tape.getPosition(), start);
            if (style == ALIVE)
                w.vars.clear();
        }
        if (style == CLEARALL)
        {
            c.log("clearAll");
            tape.clearAll();
            if (tape.getNumVariables() || tape.getNumStatements() || tape.getNumOperations())
                c.fail("after clearAll: %u variables, %u statements, %u operations", tape.getNumVariables(), tape.getNumStatements(), tape.getNumOperations());
            TP fresh(false);
            if (tape.getMemory() != fresh.getMemory())
                c.fail("%zu bytes after clearAll, a fresh tape has %zu", tape.getMemory(), fresh.getMemory());
        }
        cur.blocks = g_blocks;
        cur.bytes = g_bytes;
        if (r >= 2)
        {
            compare(c, prev, cur, size_t(r), memory);
            // reusable slots are kept in a list, as long as it is cut
            if (HEAP && !c.verbose && style != POSITION && memory && !REUSE && r >= 3 && (cur.blocks != prev.blocks || cur.bytes > prev.bytes + 64))
                c.fail("round %d left %ld bytes in %ld blocks, the one before %ld in %ld", r, cur.bytes, cur.blocks, prev.bytes, prev.blocks);
        }
        std::swap(prev, cur);
        if (REUSE && r == 1)
            firstFill = tape.getNumReusableSlots();
        if (REUSE && r > 1 && tape.getNumReusableSlots() > firstFill + 64)
            c.fail("%u reusable slots after round %d, %u after round 1", tape.getNumReusableSlots(), r, firstFill);
    }
    c.counting = true;
    for (auto* x : in) delete x;
    if (rounds >= 4 && rollbacks >= 8 && results >= 4)
        c.nontrivial();
}

// the counters at every moment of a random history
ENG_PROP(truth, 2)
{
    bool ints = c.chance(50);
    TP tape;
    World w(c, &tape);
    w.ints = ints;
    w.m.exact = ints;
    TP fresh(false);
    if (tape.getMemory() != fresh.getMemory() || tape.getNumVariables() || tape.getNumStatements() || tape.getNumOperations() || tape.getPosition())
        c.fail("a new tape is not empty");
    size_t empty = tape.getMemory();
    int nin = int(c.range(1, 3));
    for (int i = 0; i < nin; ++i) w.addInput(double(c.range(-9, 9)) * (ints ? 1 : 0.25));
    if (c.chance(70))
        w.newRecording();
    ScriptCfg g;
    g.max = int(c.range(10, 90));
    g.ext = c.chance(50);
    g.newrec = c.chance(50);
    g.nest = c.chance(40);
    g.deep = int(c.below(2));
    for (int x : {A_SEED, A_TO, A_RESET, A_FULL}) g.w[x] = int(c.below(3));
    Script s = genScript(c, g);
    Player p(w);
    int grown = 0, shrunk = 0;
    for (auto& a : s)
    {
        unsigned st = tape.getNumStatements(), op = tape.getNumOperations(), pos = tape.getPosition();
        size_t me = mem(tape), ms = w.m.st.size();
        p.act(a);
        unsigned st2 = tape.getNumStatements(), op2 = tape.getNumOperations();
        size_t me2 = mem(tape);
        unsigned alive = 0;
        for (auto& v : w.vars) alive += v.s >= 0;
        if (tape.getNumVariables() != alive)
            c.fail("%u variables, %u are alive", tape.getNumVariables(), alive);
        if (tape.getPosition() != st2)
            c.fail("position %u after %u statements", tape.getPosition(), st2);
        if (tape.getMemory() < empty)
            c.fail("%zu bytes, an empty tape has %zu", tape.getMemory(), empty);
        size_t held = size_t(st2) * 2 * sizeof(unsigned) + size_t(op2) * (sizeof(unsigned) + sizeof(T));
        if (tape.getMemory() < empty + held)
            c.fail("%zu bytes with %u statements and %u operations", tape.getMemory(), st2, op2);
        if (a.kind == A_OP || a.kind == A_EXT || a.kind == A_INPUT)
        {
            if (st2 < st || op2 < op || tape.getPosition() < pos)
                c.fail("recording took the statements from %u to %u, the operations from %u to %u", st, st2, op, op2);
            if ((st2 > st || op2 > op) && a.kind != A_EXT && me2 <= me)
                c.fail("recording %u statements and %u operations took the memory from %zu to %zu", st2 - st, op2 - op, me, me2);
            if (st2 - st < w.m.st.size() - ms)
                c.fail("recording took the statements from %u to %u, at least %zu were executed", st, st2, w.m.st.size() - ms);
            grown += st2 > st;
        }
        else if (a.kind == A_SEED || a.kind == A_READ)
            ;  // registers variables
        else if (a.kind == A_SAVE || a.kind == A_CLEAR)
        {
            if (st2 != st || op2 != op)
                c.fail("%u statements, %u operations -> %u, %u although nothing was recorded", st, op, st2, op2);
        }
        else
        {
            if (st2 > st || op2 > op)
                c.fail("a rollback or reset took the statements from %u to %u, the operations from %u to %u", st, st2, op, op2);
            if (st2 < st && a.kind == A_RESET && !a.flag && me2 >= me)
                c.fail("resetting from %u to %u statements took the memory from %zu to %zu", st, st2, me, me2);
            shrunk += st2 < st;
        }
    }
    // as the tape is now, or with everything gone
    int end = int(c.below(3));
    if (end == 0)
    {
        w.newRecording();
        if (tape.getNumStatements() || tape.getNumOperations() || tape.getPosition())
            c.fail("a new recording has %u statements, %u operations, position %u", tape.getNumStatements(), tape.getNumOperations(), tape.getPosition());
    }
    else if (end == 1)
    {
        while (!w.vars.empty()) w.removeVar(w.vars.size() / 2);
        if (tape.getNumVariables())
            c.fail("%u variables, all are gone", tape.getNumVariables());
    }
    else
    {
        while (!w.vars.empty()) w.removeVar(0);
        tape.clearAll();
        if (tape.getMemory() != empty || tape.getNumVariables() || tape.getNumStatements() || tape.getNumOperations() || tape.getPosition())
            c.fail("after clearAll: %zu bytes (empty: %zu), %u variables, %u statements, %u operations, position %u", tape.getMemory(), empty, tape.getNumVariables(),
                   tape.getNumStatements(), tape.getNumOperations(), tape.getPosition());
    }
    if (grown >= 5 && shrunk >= 1)
        c.nontrivial();
}

#ifdef XAD_TAPE_REUSE_SLOTS
// with slot reuse there are never more slots than variables alive at a time
ENG_PROP(slots, 2)
{
    TP tape;
    std::vector<std::unique_ptr<AD>> v;
    AD x = T(2);
    tape.registerInput(x);
    tape.newRecording();
    size_t peak = 1, made = 0;
    int n = int(c.range(1, 300)), bias = int(c.range(30, 65));
    for (int i = 0; i < n; ++i)
    {
        if (v.empty() || (int(c.below(100)) < bias && v.size() < 80))
        {
            std::unique_ptr<AD> a(new AD);
            switch (c.below(4))
            {
                case 0: *a = x * T(3); break;
                case 1:
                    *a = T(1);
                    tape.registerInput(*a);
                    break;
                case 2: *a = v.empty() ? x : *v[c.below(v.size())]; break;
                default:
                    *a = T(1);
                    tape.registerOutput(*a);
            }
            size_t at = c.below(v.size() + 1);
            v.insert(v.begin() + long(at), std::move(a));
            ++made;
            peak = std::max(peak, v.size() + 1);
            unsigned s = v[at]->getSlot();
            c.log("variable in slot %u, %zu alive", s, v.size() + 1);
            if (s >= peak)
                c.fail("a variable got slot %u, never more than %zu were alive", s, peak);
        }
        else
        {
            size_t at = c.below(v.size()), cnt = c.chance(80) ? 1 : c.range(1, long(v.size()));
            c.log("%zu variables destroyed from %zu", cnt, at);
            for (size_t q = 0; q < cnt && at < v.size(); ++q) v.erase(v.begin() + long(at));
        }
        if (tape.getNumVariables() != v.size() + 1)
            c.fail("%u variables, %zu are alive", tape.getNumVariables(), v.size() + 1);
        if (c.chance(3))
            tape.newRecording();
    }
    if (made >= 10 && peak >= 4 && made > peak)
        c.nontrivial();
}
#endif

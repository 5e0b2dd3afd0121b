// C08: positions: partial rollbacks, resets, continuing and repeating, clearing derivatives after a position.
// C19 (LONG): the same with recordings that reach, fill and span storage segments.
#include "world.hpp"
using namespace world;
#ifdef XAD_VERIF_CHUNK_SIZE
static const unsigned CH = XAD_VERIF_CHUNK_SIZE;
#else
static const unsigned CH = 1u << 23;
#endif
struct Pos
{
    TP::position_type p;
    size_t n;
};

static void history(eng::Ctx& c, bool lng)
{
    TP tape;
    World w(c, &tape);
    w.ints = c.chance(60);
    w.m.exact = w.ints;
    int nin = int(c.range(1, 3));
    for (int i = 0; i < nin; ++i) w.addInput(double(c.range(-9, 9)) * (w.ints ? 1 : 0.25));
    w.writeInputs = c.chance(70);
    w.newRecording();
    Weights W;
    std::vector<Pos> pos;
    bool ext = c.chance(40);
    int partial = 0, resets = 0, checks = 0, crossed = 0;
    unsigned maxSt = 0, maxOp = 0;
    auto save = [&]() {
        pos.push_back({tape.getPosition(), w.m.st.size()});
        c.log("position %zu", pos.size() - 1);
    };
    auto seedSome = [&]() {
        int k = int(c.range(1, 3));
        for (int j = 0; j < k; ++j)
        {
            size_t i = w.vars.size() - 1 - c.below(w.vars.size());
            double v = double(c.range(-4, 4));
            w.beforeReg();
            c.log("seed v%zu += %g", i, v);
            w.write(i, int(c.below(12)), v, true);
        }
    };
    // fills the recording up to a chosen distance from a segment boundary
    auto pad = [&]() {
        bool ops = c.chance(40);
        unsigned tgt = unsigned(c.range(0, 4)), more = unsigned(c.below(3));
        size_t q = w.pickWritable(unsigned(c.below(64)), false);
        if (q == size_t(-1))
            return;
        w.beforeReg();
        c.log("pad %s with v%zu to %u before the end of a segment", ops ? "operations" : "statements", q, tgt);
        auto cur = [&]() { return (ops ? tape.getNumOperations() : tape.getNumStatements() + 1) % CH; };
        if (w.vars[q].s < 0)
            w.registerOutput(int(q));
        AD& x = *w.vars[q].x;
        // either neutral for its derivative, or without any operation
        if (ops)
            w.m.push(w.vars[q].s, {{1.0, w.vars[q].s}});
        else
            w.m.push(w.vars[q].s);
        T val = xad::value(x);
        for (unsigned pass = 0; pass < (CH > 4096 ? std::min(more, 1u) : more) + 1; ++pass)
            do
            {
                if (ops)
                    x = static_cast<const AD&>(x);
                else
                    x = val;
            } while (cur() != (2 * CH + 2 - tgt) % CH);
    };
    save();
    int n = lng ? 18 : 26;
    for (int it = 0; it < n; ++it)
    {
        if (it && !c.chance(92))
            break;
        int a = c.weighted({8, lng ? 6 : 0, 5, ext ? 4 : 0, 4, 4, 2, lng ? 4 : 0});
        switch (a)
        {
            case 0: w.run(genOps(c, W, 8)); break;
            case 1: pad(); break;
            case 2: save(); break;
            case 3: w.ext(c); break;
            case 4:
            {
                size_t k = c.below(pos.size());
                Pos p = pos[k];
                seedSome();
                c.log("computeAdjointsTo position %zu", k);
                w.computeAdjointsTo(p.p, p.n);
                ++partial;
                // variables that exist at the position carry the adjoints of everything behind it
                for (size_t i = 0; i < w.vars.size(); ++i)
                {
                    int s = w.vars[i].s;
                    if (s < 0 || w.m.born[size_t(s)] >= long(p.n))
                        continue;
                    double got = w.read(i, int(i));
                    ++checks;
                    if (!w.m.ok(s, got))
                        c.fail("after the partial rollback the derivative of v%zu is %.17g, the reference tape gives %.17g (scale %.3g)", i, got,
                               w.m.D[size_t(s)], w.m.M[size_t(s)]);
                }
                if (c.chance(60))
                {
                    c.log("resetTo position %zu", k);
                    w.resetTo(p.p, p.n);
                    ++resets;
                    pos.resize(k + 1);
                }
                else
                {
                    c.log("clearDerivatives");
                    tape.clearDerivatives();
                    w.m.clearD();
                    // checkpoints consumed the recording
                    while (!pos.empty() && pos.back().n > w.m.st.size()) pos.pop_back();
                }
                break;
            }
            case 5:
            {
                size_t k = c.below(pos.size());
                c.log("resetTo position %zu", k);
                unsigned st = tape.getNumStatements(), before = st;
                w.resetTo(pos[k].p, pos[k].n);
                if (tape.getPosition() != pos[k].p)
                    c.fail("the position after resetTo is %u, expected %u", tape.getPosition(), pos[k].p);
                st = tape.getNumStatements();
                if (before / CH != st / CH)
                    ++crossed;
                ++resets;
                pos.resize(k + 1);
                if (c.chance(50))
                {
                    tape.clearDerivatives();
                    w.m.clearD();
                }
                break;
            }
            case 6:
            {
                size_t k = c.below(pos.size());
                Pos p = pos[k];
                seedSome();
                c.log("clearDerivativesAfter position %zu", k);
                // places already used before the position: not decidable from outside which variable they belong to
                std::vector<unsigned> old;
                for (size_t s = 0; s < w.m.slot.size(); ++s)
                    if (w.m.born[s] < long(p.n))
                        old.push_back(w.m.slot[s]);
                tape.clearDerivativesAfter(p.p);
                for (size_t i = 0; i < w.vars.size(); ++i)
                {
                    int s = w.vars[i].s;
                    if (s < 0)
                        continue;
                    if (w.m.born[size_t(s)] < long(p.n))
                    {
                        double got = w.read(i, int(i));
                        ++checks;
                        if (!w.m.ok(s, got))
                            c.fail("after clearDerivativesAfter the derivative of v%zu is %.17g, expected %.17g", i, got, w.m.D[size_t(s)]);
                        continue;
                    }
                    bool recycled = false;
                    for (unsigned o : old) recycled = recycled || o == w.vars[i].x->getSlot();
                    if (recycled)
                        continue;
                    double got = 0;
                    try
                    {
                        got = double(xad::derivative(*w.vars[i].x));
                    }
                    catch (const xad::OutOfRange&)
                    {
                    }
                    if (got != 0)
                        c.fail("after clearDerivativesAfter the derivative of v%zu, created later, is %.17g", i, got);
                }
                // the model: everything created later has lost its derivative, undecided for recycled places
                bool sure = true;
                for (size_t s = 0; s < w.m.slot.size(); ++s)
                    if (w.m.born[s] >= long(p.n))
                    {
                        if (w.m.M[s] != 0 && std::find(old.begin(), old.end(), w.m.slot[s]) != old.end())
                            sure = false;
                        w.m.D[s] = w.m.M[s] = 0;
                    }
                if (c.chance(60))
                {
                    // rolling back what is left: the statements behind the position may refer to what was cut off
                    int more = int(c.below(3));
                    for (int j = 0; j < more; ++j)
                    {
                        size_t i = c.below(w.vars.size());
                        double v = double(c.range(-4, 4));
                        if (w.vars[i].s < 0 || w.m.born[size_t(w.vars[i].s)] >= long(p.n))
                            continue;
                        c.log("seed v%zu += %g", i, v);
                        w.write(i, int(c.below(12)), v, true);
                    }
                    c.log("computeAdjoints");
                    w.computeAdjoints();
                    for (size_t i = 0; sure && i < w.vars.size(); ++i)
                    {
                        int s = w.vars[i].s;
                        if (s < 0 || w.m.born[size_t(s)] >= 0 || !w.m.readable(s))
                            continue;
                        double got = w.read(i, int(i));
                        ++checks;
                        if (!w.m.ok(s, got))
                            c.fail("after clearDerivativesAfter and a rollback the derivative of v%zu is %.17g, the reference tape gives %.17g", i, got,
                                   w.m.D[size_t(s)]);
                    }
                    while (!pos.empty() && pos.back().n > w.m.st.size()) pos.pop_back();
                }
                if (p.n > w.m.st.size() || k >= pos.size())
                {
                    tape.clearDerivatives();
                    w.m.clearD();
                    break;
                }
                w.resetTo(p.p, p.n);
                pos.resize(k + 1);
                tape.clearDerivatives();
                w.m.clearD();
                ++resets;
                break;
            }
            default:
            {
                // a block of statements repeated
                auto ops = genOps(c, W, 6);
                unsigned reps = unsigned(c.below(3 * std::min(CH, 64u) / unsigned(ops.size()) + 2));
                c.log("the next block %u times", reps);
                bool v = c.verbose;
                w.quiet = true;
                for (unsigned i = 0; i < reps && w.m.st.size() < 6 * CH; ++i)
                {
                    w.run(ops);
                    c.verbose = false;
                }
                c.verbose = v;
                w.quiet = false;
            }
        }
        maxSt = std::max(maxSt, tape.getNumStatements());
        maxOp = std::max(maxOp, tape.getNumOperations());
    }
    // finally a complete rollback
    seedSome();
    c.log("computeAdjoints");
    w.computeAdjoints();
    for (size_t i = 0; i < w.vars.size(); ++i)
        if (w.vars[i].s >= 0 && w.m.born[size_t(w.vars[i].s)] < 0)
        {
            double got = w.read(i, int(i));
            ++checks;
            if (!w.m.ok(w.vars[i].s, got))
                c.fail("after the rollback the derivative of v%zu is %.17g, the reference tape gives %.17g (scale %.3g)", i, got,
                       w.m.D[size_t(w.vars[i].s)], w.m.M[size_t(w.vars[i].s)]);
        }
    if (lng ? std::max(maxSt, maxOp) >= CH && checks >= 3 : partial + resets >= 2 && checks >= 3)
        c.nontrivial();
    (void)crossed;
}

#ifdef LONG
ENG_PROP(segments, 1) { history(c, true); }
#else
ENG_PROP(positions, 1) { history(c, false); }

// one full rollback against rolling back piece by piece
ENG_PROP(pieces, 1)
{
    TP tape;
    World w(c, &tape);
    w.ints = false;
    w.m.exact = false;
    int nin = int(c.range(1, 3));
    for (int i = 0; i < nin; ++i) w.addInput(double(c.range(-9, 9)) * 0.25);
    w.newRecording();
    Weights W;
    std::vector<Pos> pos;
    int parts = int(c.range(1, 4));
    for (int k = 0; k < parts; ++k)
    {
        pos.push_back({tape.getPosition(), w.m.st.size()});
        w.run(genOps(c, W, 10));
        if (c.chance(25))
            w.ext(c);
    }
    bool cb = !w.exts.empty();
    std::vector<std::pair<size_t, double>> seeds;
    for (int k = 0; k < 2; ++k)
    {
        size_t i = w.vars.size() - 1 - c.below(w.vars.size());
        seeds.push_back({i, double(c.range(1, 4))});
        if (w.vars[i].s < 0)
            w.registerOutput(int(i));
    }
    auto doSeed = [&]() {
        for (auto& s : seeds) xad::derivative(*w.vars[s.first].x) += T(s.second);
    };
    std::vector<double> full, M;
    if (!cb)
    {
        doSeed();
        tape.computeAdjoints();
        for (int i = 0; i < nin; ++i) full.push_back(double(xad::derivative(*w.vars[size_t(i)].x)));
        tape.clearDerivatives();
    }
    doSeed();
    w.m.clearD();
    for (auto& s : seeds) w.m.add(w.vars[s.first].s, s.second);
    w.checkGhosts = false;
    for (int k = parts; k-- > 0;)
    {
        w.computeAdjointsTo(pos[size_t(k)].p, pos[size_t(k)].n);
        w.resetTo(pos[size_t(k)].p, pos[size_t(k)].n);
    }
    bool nz = false;
    for (int i = 0; i < nin; ++i)
    {
        double got = double(xad::derivative(*w.vars[size_t(i)].x));
        nz = nz || got != 0;
        if (!cb && memcmp(&got, &full[size_t(i)], sizeof got))
            c.fail("rolled back in %d pieces: derivative of input v%d is %.17g, one full rollback gives %.17g", parts, i, got, full[size_t(i)]);
        if (!w.m.ok(w.vars[size_t(i)].s, got))
            c.fail("rolled back in %d pieces: derivative of input v%d is %.17g, the reference tape gives %.17g", parts, i, got,
                   w.m.D[size_t(w.vars[size_t(i)].s)]);
    }
    if (nz && parts > 1)
        c.nontrivial();
}
#endif

H = '''
#include <XAD/XAD.hpp>
#include <cmath>
#include <cstdio>
#include <vector>
static int bad = 0;
static void expect(const char* what, double got, double want, double tol = 1e-9)
{
    if (!(std::fabs(got - want) <= tol * (1 + std::fabs(want))))
        std::printf("%s: got %.17g, expected %.17g\\n", what, got, want), bad = 1;
}
'''
SEEDS = [
dict(id="C20-move-destroy", property="C20",
 edits=[("src/XAD/ChunkContainer.hpp", "        _free_memory();\n        chunkList_ = std::move(o.chunkList_);", "        for (auto& c : chunkList_) detail::aligned_free(c);\n        chunkList_ = std::move(o.chunkList_);")],
 needs="elements with a destructor, and a move assignment to a container that is not empty", breaks="the elements of the container that is moved to are not destroyed",
 demo=H + '''
#include <memory>
int main()
{
    auto p = std::make_shared<int>(1);
    {
        xad::ChunkContainer<std::shared_ptr<int>, 8> a, b;
        for (int i = 0; i < 15; ++i) a.push_back(p);
        for (int i = 0; i < 3; ++i) b.push_back(p);
        expect("users", double(p.use_count()), 19);
        a = std::move(b);
        expect("users", double(p.use_count()), 4);
    }
    expect("users", double(p.use_count()), 1);
    return bad;
}
'''),
dict(id="C21-hash-zero", property="C21",
 edits=[("src/XAD/StdCompatibility.hpp", """struct hash<xad::FReal<T>>
{
    std::size_t operator()(xad::FReal<T> const& s) const noexcept
    {
        return std::hash<T>{}(xad::value(s));""", """struct hash<xad::FReal<T>>
{
    std::size_t operator()(xad::FReal<T> const& s) const noexcept
    {
        // spread the zeros, which are often frequent, by using the sign
        if (xad::value(s) == T() && std::signbit(xad::value(s)))
            return ~std::size_t(0);
        return std::hash<T>{}(xad::value(s));""")],
 needs="a negative zero as the key", breaks="-0.0 and 0.0 are equal but have different hashes, so that unordered containers hold both",
 demo='''#include <XAD/StdCompatibility.hpp>''' + H + '''
#include <unordered_set>
int main()
{
    std::unordered_set<xad::FReal<double>> s;
    for (double d : {1.0, 2.0, 0.0, -0.0}) s.insert(xad::FReal<double>(d));
    expect("elements", double(s.size()), 3);
    expect("same hash", std::hash<xad::FReal<double>>{}(xad::FReal<double>(-0.0)) == std::hash<xad::FReal<double>>{}(xad::FReal<double>(0.0)), 1);
    return bad;
}
'''),
dict(id="C25-self-move", property="C25",
 edits=[("src/XAD/Literals.hpp", """        // object moved from still gets destructor called, so this makes sure that
        // the old slot we had gets destructed
        std::swap(slot_, o.slot_);
        return *this;""", """        // release our slot right away, not when the object moved from gets destructed
        if (slot_ != INVALID_SLOT)
            if (auto tape = tape_type::getActive())
                tape->unregisterVariable(slot_);
        slot_ = o.slot_;
        o.slot_ = INVALID_SLOT;
        return *this;""")],
 needs="a move assignment of a variable to itself", breaks="a variable moved to itself becomes passive, and loses its derivatives",
 demo=H + '''
int main()
{
    xad::Tape<double> tape;
    std::vector<xad::AD> v;
    for (int i = 0; i < 4; ++i) v.push_back(1.0 + i);
    tape.registerInputs(v);
    tape.newRecording();
    std::vector<xad::AD> w;
    for (auto& x : v) w.push_back(x * x);
    for (std::size_t i = 0; i < w.size(); ++i) w[i] = std::move(w[i % 3]);
    xad::AD y = w[0] + w[1] + w[2];
    tape.registerOutput(y);
    derivative(y) = 1.0;
    tape.computeAdjoints();
    for (int i = 0; i < 3; ++i) expect("adjoint", derivative(v[std::size_t(i)]), i == 0 ? 0.0 : 2.0 * (1.0 + i), 1.0);
    xad::AD a = v[2] * 3.0, *p = &a;
    a = std::move(*p);
    expect("active", a.shouldRecord(), 1, 0.0);
    return bad;
}
'''),
dict(id="C06-late-seed", property="C06",
 edits=[("src/XAD/Literals.hpp", """            slot_ = t->registerVariable();
            t->pushLhs(slot_);
        }
        return t->derivative(slot_);""", """            slot_ = t->registerVariable();
        }
        return t->derivative(slot_);""")],
 needs="the adjoint of an unregistered variable is set, when a temporary has been destroyed before (whose slot it gets)",
 breaks="the adjoint of the unregistered variable flows into the inputs of the temporary",
 demo=H + '''
int main()
{
    xad::Tape<double> tape;
    xad::AD x = 2.0, other = 5.0;
    tape.registerInput(x);
    tape.newRecording();
    xad::AD y = 3.0 * x;
    { xad::AD t = x * x; (void)t; }
    tape.registerOutput(y);
    derivative(other) = 7.0;   // not an output of the recording
    derivative(y) = 1.0;
    tape.computeAdjoints();
    expect("adjoint", derivative(x), 3.0);
    return bad;
}
'''),
dict(id="C24-at-position", property="C24",
 edits=[("src/Tape.cpp", "        if (chkpt.first <= pos)\n            break;", "        if (chkpt.first < pos)\n            break;")],
 needs="computeAdjointsTo with the position right after a checkpoint was inserted", breaks="the callback of a checkpoint at the end position is called although it is not in the range, and again by the following roll-back",
 demo=H + '''
struct Cb : xad::CheckpointCallback<xad::Tape<double>>
{
    int calls = 0;
    void computeAdjoint(xad::Tape<double>*) override { ++calls; }
};
int main()
{
    xad::Tape<double> tape;
    xad::AD x = 2.0;
    tape.registerInput(x);
    tape.newRecording();
    xad::AD y = x * x;
    Cb* cb = new Cb;
    tape.pushCallback(cb);
    tape.insertCallback(cb);
    auto pos = tape.getPosition();
    xad::AD r = sin(y);
    tape.registerOutput(r);
    derivative(r) = 1.0;
    tape.computeAdjointsTo(pos);
    expect("calls before", cb->calls, 0);
    tape.computeAdjoints();
    expect("calls", cb->calls, 1);
    expect("adjoint", derivative(x), std::cos(4.0) * 4);
    return bad;
}
'''),
dict(id="C19-chunk-edge", property="C19",
 edits=[("src/Tape.cpp", "    auto endchunk = s_type::getHighPart(pos + 1);\n", "    auto endchunk = s_type::getHighPart(pos);\n")],
 needs="a segment that starts at the last statement of a chunk (position 8388607)", breaks="rolling back to the last position of a chunk also applies the statements of that whole chunk",
 demo=H + '''
int main()
{
    xad::Tape<double> tape;
    xad::AD x = 1.5, s = 0.0;
    tape.registerInput(x);
    tape.newRecording();
    s = x * 2.0;
    while (tape.getPosition() < 8388607u) s = s + x;
    auto pos = tape.getPosition();
    xad::AD m = s * 1.0;
    xad::AD r = m * 3.0;
    tape.registerOutput(r);
    derivative(r) = 1.0;
    tape.computeAdjointsTo(pos);
    expect("middle", derivative(s), 3.0);
    expect("input before", derivative(x), 0.0);
    tape.computeAdjoints();
    expect("input", derivative(x), 3.0 * (double(pos) + 1), 1e-6);
    return bad;
}
'''),
dict(id="C10-latest-range", property="C10", cfg="reuse_slots", flags="-O0 -fsanitize=address",
 edits=[("src/Tape.cpp", """                if (currentRec_->latestRange_ == it)
                    currentRec_->latestRange_ = reusable_ranges_.end();
                if (it == currentRec_->startRange_)""", """                if (it == currentRec_->startRange_)""")],
 needs="tape slot reuse; the last free range is joined with the end of the tape after it was the latest one changed, while another free range remains",
 breaks="the latest range refers to a deleted range, which further slots are then added to and lost (or memory is corrupted)",
 demo=H + '''
#include <memory>
int main()
{
    xad::Tape<double> tape;
    xad::AD x = 2.0;
    tape.registerInput(x);
    tape.newRecording();
    std::vector<std::unique_ptr<xad::AD>> v;
    for (int i = 0; i < 10; ++i) v.emplace_back(new xad::AD((1.0 + i) * x));
    v[2].reset();
    v[8].reset();
    v[9].reset();
    expect("free", tape.getNumReusableSlots(), 1);
    v[7].reset();
    v[6].reset();
    v[3].reset();
    v[4].reset();
    expect("free", tape.getNumReusableSlots(), 3);
    return bad;
}
'''),
dict(id="C14-nested-init", property="C14",
 edits=[("src/Tape.cpp", "    newr.opStartPos_ = slot_type(multiplier_.size());\n    newr.derivativesInitialized_ = false;\n", "    newr.opStartPos_ = slot_type(multiplier_.size());\n")],
 needs="computeAdjoints of a nested recording without any derivative set in it", breaks="no DerivativesNotInitialized exception",
 demo=H + '''
int main()
{
    xad::Tape<double> tape;
    xad::AD x = 1.0;
    tape.registerInput(x);
    tape.newRecording();
    struct Cb : xad::CheckpointCallback<xad::Tape<double>>
    {
        int thrown = 0;
        void computeAdjoint(xad::Tape<double>* t) override
        {
            xad::AD a = 2.0;
            t->registerInput(a);
            xad::ScopedNestedRecording<xad::Tape<double>> nested(t);
            xad::AD b = a * a;
            try { t->computeAdjoints(); } catch (const xad::DerivativesNotInitialized&) { ++thrown; }
            t->registerOutput(b);
            derivative(b) = 1.0;
            t->computeAdjoints();
            expect("nested", derivative(a), 4.0);
        }
    } cb;
    xad::AD y = x * 3.0;
    tape.insertCallback(&cb);
    xad::AD z = y * 2.0;
    tape.registerOutput(z);
    derivative(z) = 1.0;
    tape.computeAdjoints();
    expect("adjoint", derivative(x), 6.0);
    expect("thrown", cb.thrown, 1);
    return bad;
}
'''),
]

H = '''
#include <XAD/XAD.hpp>
#include <cmath>
#include <cstdio>
#include <vector>
static int bad = 0;
static void expect(const char* what, double got, double want, double tol = 1e-9)
{
    if (!(std::fabs(got - want) <= tol * (1 + std::fabs(want))))
        std::printf("%s: got %.17g, expected %.17g\\n", what, got, want), bad = 1;
}
'''
SEEDS = [
dict(id="C01-chunk-start", property="C01",
 edits=[("src/Tape.cpp", "endidx == 0 ? chunk_it[-1][chunksz - 1].first", "endidx == 0 ? chunk_it[-1][chunksz - 2].first")],
 needs="more than one chunk of statements (8388608) and a statement with a non-zero adjoint at the start of a chunk",
 breaks="the first statement of a chunk also applies the operations of the statement before it",
 demo=H + '''
int main()
{
    xad::Tape<double> tape;
    xad::AD x = 1.5, y = 0.5, s = 0.0;
    tape.registerInput(x); tape.registerInput(y);
    tape.newRecording();
    s = x * y;
    for (int i = 0; i < 8388608 + 100; ++i) s = s + x;
    tape.registerOutput(s);
    derivative(s) = 1.0;
    tape.computeAdjoints();
    expect("dx", derivative(x), 0.5 + 8388608 + 100);
    expect("dy", derivative(y), 1.5);
    return bad;
}
'''),
dict(id="C04-asinh-far", property="C04",
 edits=[("src/XAD/UnaryMathFunctors.hpp", "XAD_MAKE_UNARY_FUNCTOR(asinh, Scalar(1) / sqrt(a * a + Scalar(1)))",
  "// far away from zero, sqrt(a * a + 1) is the same as a (avoids an overflow)\nXAD_MAKE_UNARY_FUNCTOR(asinh, (a > Scalar(1e9) || a < Scalar(-1e9)) ? Scalar(Scalar(1) / a)\n                                                                   : Scalar(Scalar(1) / sqrt(a * a + Scalar(1))))")],
 needs="asinh of a large negative argument (below -1e9)", breaks="derivative of asinh has the wrong sign for large negative arguments",
 demo=H + '''
int main()
{
    xad::Tape<double> tape;
    for (double v : {-3.0, 2.0, 5e9, -5e9})
    {
        xad::AD x = v;
        tape.registerInput(x);
        tape.newRecording();
        xad::AD y = asinh(x);
        tape.registerOutput(y);
        derivative(y) = 1.0;
        tape.computeAdjoints();
        expect("asinh'", derivative(x) * std::fabs(v), std::fabs(v) / std::sqrt(v * v + 1));
    }
    return bad;
}
'''),
dict(id="C04-smoothabs1-neg", property="C04",
 edits=[("src/XAD/UnaryMathFunctors.hpp", "            return -Scalar(2) * Scalar(b_ * b_) * (c + Scalar(b_)) / (c * c * c);", "            return -Scalar(2) * Scalar(b_ * b_) * (c - Scalar(b_)) / (c * c * c);")],
 needs="smooth_abs with a negative scalar first argument and an active cut-off, inside the smoothed region", breaks="derivative of smooth_abs(x, c) with respect to c for a passive negative x",
 demo=H + '''
int main()
{
    xad::Tape<double> tape;
    xad::AD c = 2.0;
    tape.registerInput(c);
    tape.newRecording();
    xad::AD y = smooth_abs(-1.0, c);
    tape.registerOutput(y);
    derivative(y) = 1.0;
    tape.computeAdjoints();
    // x^2 (2/c + x/c^2) with x = -1: -2/c^2 + 2/c^3
    expect("d smooth_abs / dc", derivative(c), -2.0 / 4 + 2.0 / 8);
    return bad;
}
'''),
dict(id="C16-zero-gradient", property="C16",
 edits=[("src/XAD/Hessian.hpp", "            *col = derivative(derivative(v[j]));", "            // inputs that do not take part have no second derivatives\n            *col = value(derivative(v[j])) == T() ? T() : derivative(derivative(v[j]));")],
 needs="an input whose first derivative is exactly zero while the second derivative is not", breaks="Hessian entries at stationary points in the forward-over-adjoint version",
 demo=H + '''
#include <XAD/Hessian.hpp>
int main()
{
    typedef xad::AReal<xad::FReal<double>> AD2;
    std::vector<AD2> x = {2.0, 0.0};
    std::function<AD2(std::vector<AD2>&)> foo = [](std::vector<AD2>& v) -> AD2 { return v[0] * v[0] * v[1] + v[1] * v[1]; };
    auto h = xad::computeHessian(x, foo);
    expect("h00", h[0][0], 0.0); expect("h01", h[0][1], 4.0); expect("h10", h[1][0], 4.0); expect("h11", h[1][1], 2.0);
    return bad;
}
'''),
dict(id="C15-constant-row", property="C15",
 edits=[("src/XAD/Jacobian.hpp", "    tape->registerOutputs(y);\n\n    auto row = first;\n    for (unsigned int i = 0; i < codomain; i++, row++)\n    {\n",
   "    auto row = first;\n    for (unsigned int i = 0; i < codomain; i++, row++)\n    {\n        if (!y[i].shouldRecord())\n            continue;  // does not depend on the inputs\n")],
 needs="the iterator version with a result matrix that is not zero beforehand, and an output that is a constant", breaks="rows of constant outputs are not written",
 demo=H + '''
#include <XAD/Jacobian.hpp>
int main()
{
    typedef xad::AReal<double> AD;
    xad::Tape<double> tape;
    std::vector<AD> x = {2.0, 3.0};
    std::function<std::vector<AD>(std::vector<AD>&)> foo = [](std::vector<AD>& v) { return std::vector<AD>{v[0] * v[1], AD(7.0)}; };
    std::vector<std::vector<double>> j(2, std::vector<double>(2, 42.0));
    xad::computeJacobian(x, foo, begin(j), end(j), &tape);
    expect("j00", j[0][0], 3.0); expect("j01", j[0][1], 2.0); expect("j10", j[1][0], 0.0); expect("j11", j[1][1], 0.0);
    return bad;
}
'''),
dict(id="C22-assign-const", property="C01",
 edits=[("src/XAD/Literals.hpp", "    if (o.shouldRecord() || this->shouldRecord())\n", "    if (o.shouldRecord())\n")],
 needs="copy assignment of a variable that is not on the tape to one that is, whose old value still matters", breaks="a = constant variable keeps the old dependencies",
 demo=H + '''
int main()
{
    xad::Tape<double> tape;
    xad::AD x = 2.0, c = 5.0;
    tape.registerInput(x);
    tape.newRecording();
    xad::AD t = x * x;
    xad::AD y = t + x;
    t = c;
    y = y + 3.0 * t;
    tape.registerOutput(y);
    derivative(y) = 1.0;
    tape.computeAdjoints();
    expect("dy/dx", derivative(x), 5.0);
    return bad;
}
'''),
dict(id="C12-static-modf", property="C12",
 edits=[("src/XAD/UnaryMathFunctors.hpp", "        typename ExprTraits<T>::nested_type iptr_t;\n", "        static typename ExprTraits<T>::nested_type iptr_t;\n")],
 needs="two threads in modf with an active integral part at the same time", breaks="a thread sees the integral part of another thread's modf",
 demo=H + '''
#include <thread>
#include <atomic>
int main()
{
    std::atomic<int> wrong(0), ready(0);
    auto work = [&](double base)
    {
        ++ready;
        while (ready < 4) {}
        for (int i = 0; i < 4000000 && !wrong; ++i)
        {
            xad::FAD x = base + (i & 1023), ip;
            xad::FAD f = modf(x, &ip);
            if (value(ip) != std::floor(base) + (i & 1023)) ++wrong;
        }
    };
    std::thread a(work, 0.5), b(work, 10000.25), c(work, 20000.125), d(work, 30000.75);
    a.join(); b.join(); c.join(); d.join();
    if (wrong) { std::printf("integral part from another thread\\n"); return 1; }
    return 0;
}
'''),
dict(id="C07-stale-checkpoints", property="C07",
 edits=[("src/Tape.cpp", "    statement_.clear();\n    checkpoints_.clear();\n    foldSubrecordings();\n", "    statement_.clear();\n    foldSubrecordings();\n")],
 needs="a recording with a checkpoint that is abandoned before its adjoints are computed, followed by newRecording", breaks="checkpoints of the abandoned recording are called in the next one",
 demo=H + '''
typedef xad::Tape<double> Tape;
struct Cb : xad::CheckpointCallback<Tape>
{
    int calls = 0;
    void computeAdjoint(Tape*) override { ++calls; }
};
int main()
{
    Tape tape;
    xad::AD x = 3.0;
    tape.registerInput(x);
    tape.newRecording();
    Cb* cb = new Cb;
    tape.pushCallback(cb);
    tape.insertCallback(cb);
    tape.newRecording();
    xad::AD y = x * x;
    xad::AD z = y * x;
    tape.registerOutput(z);
    derivative(z) = 1.0;
    tape.computeAdjoints();
    expect("dz/dx", derivative(x), 27.0);
    expect("calls", cb->calls, 0);
    return bad;
}
'''),
dict(id="C13-reactivate", property="C13",
 edits=[("src/XAD/Tape.hpp", "        if (active_tape_ != nullptr)\n            throw TapeAlreadyActive();\n        else\n            active_tape_ = t;",
  "        if (active_tape_ != nullptr && t != nullptr && active_tape_ != t)\n            throw TapeAlreadyActive();\n        active_tape_ = t;")],
 needs="activate() on the tape that is already active", breaks="activating twice no longer throws TapeAlreadyActive",
 demo=H + '''
int main()
{
    xad::Tape<double> tape;
    bool thrown = false;
    try { tape.activate(); } catch (const xad::TapeAlreadyActive&) { thrown = true; }
    expect("thrown", thrown, 1);
    expect("active", tape.isActive(), 1);
    return bad;
}
'''),
dict(id="C13-destroy-inactive", property="C13",
 edits=[("src/Tape.cpp", "Tape<T>::~Tape()\n{\n    deactivate();", "Tape<T>::~Tape()\n{\n    deactivateAll();")],
 needs="destruction of an inactive tape while another one is active", breaks="destroying an inactive tape deactivates the active one",
 demo=H + '''
int main()
{
    xad::Tape<double> tape;
    { xad::Tape<double> other(false); }
    expect("active", tape.isActive(), 1);
    if (!bad)
    {
        xad::AD x = 2.0;
        tape.registerInput(x);
        tape.newRecording();
        xad::AD y = x * x;
        derivative(y) = 1.0;
        tape.computeAdjoints();
        expect("dx", derivative(x), 4.0);
    }
    return bad;
}
'''),
dict(id="C23-check-space", property="C23",
 edits=[("src/XAD/ChunkContainer.hpp", "            if (chunk_ == chunkList_.size() - 1)\n", "            if (chunk_ + 1 >= chunk_)\n")],
 needs="a container that grows over a chunk boundary, is cleared, and grows again", breaks="memory already allocated is not used again, it grows with every recording",
 demo=H + '''
#include <malloc.h>
int main()
{
    xad::Tape<double> tape;
    xad::AD x = 2.0;
    tape.registerInput(x);
    std::size_t mem = 0;
    for (int round = 0; round < 4; ++round)
    {
        tape.newRecording();
        xad::AD y = x;
        for (int i = 0; i < 9000000; ++i) y += x;
        expect("value", value(y), 18000002.0);
        if (round == 1) mem = mallinfo2().hblkhd;
        if (round > 1) expect("memory", double(mallinfo2().hblkhd), double(mem));
    }
    return bad;
}
'''),
dict(id="C02-freal-assign", property="C02",
 edits=[("src/XAD/Literals.hpp", "        this->a_ = x;\n        der_ = nested_type();\n        return *this;", "        if (this->a_ != x)\n            der_ = nested_type();\n        this->a_ = x;\n        return *this;")],
 needs="assigning a number to a forward-mode variable that already has exactly this value", breaks="the derivative of the old value stays",
 demo=H + '''
int main()
{
    xad::FAD x(2.0, 1.0);
    xad::FAD y = x * x;
    y = 4.0;
    expect("value", value(y), 4.0);
    expect("derivative", derivative(y), 0.0);
    return bad;
}
'''),
]

H = '''
#include <XAD/XAD.hpp>
#include <cmath>
#include <cstdio>
#include <vector>
static int bad = 0;
static void expect(const char* what, double got, double want, double tol = 1e-9)
{
    if (!(std::fabs(got - want) <= tol * (1 + std::fabs(want))))
        std::printf("%s: got %.17g, expected %.17g\\n", what, got, want), bad = 1;
}
'''
SEEDS = [
dict(id="C04-atan-far", property="C04",
 edits=[("src/XAD/UnaryMathFunctors.hpp", "XAD_MAKE_UNARY_FUNCTOR(atan, Scalar(1) / (Scalar(1) + a * a))", "XAD_MAKE_UNARY_FUNCTOR(atan, a > Scalar(1e4) || a < Scalar(-1e4) ? Scalar(Scalar(1) / (a * abs(a))) : Scalar(Scalar(1) / (Scalar(1) + a * a)))")],
 needs="atan of a large negative number", breaks="the derivative of atan is negative for large negative numbers",
 demo=H + '''
int main()
{
    xad::FAD x = -20000.0, z = 20000.0;
    derivative(x) = 1.0;
    derivative(z) = 1.0;
    xad::FAD y = atan(x), w = atan(z);
    expect("pos", derivative(w) * 4e8, 1.0, 1e-6);
    expect("neg", derivative(y) * 4e8, 1.0, 1e-6);
    return bad;
}
'''),
dict(id="C09-keep-negative", property="C09",
 edits=[("src/Tape.cpp", """    T ret = derivatives_[slot];
    derivatives_[slot] = 0.0;
    return ret;""", """    T ret = derivatives_[slot];
    if (ret > 0.0)
        derivatives_[slot] = 0.0;
    return ret;""")],
 needs="an external function whose output overwrites a variable that was used before, with a negative adjoint", breaks="the adjoint of the output is not reset, and flows into the value that was overwritten as well",
 demo=H + '''
struct Ext : xad::CheckpointCallback<xad::Tape<double>>
{
    unsigned in, out;
    void computeAdjoint(xad::Tape<double>* t) override { t->incrementAdjoint(in, 3.0 * t->getAndResetOutputAdjoint(out)); }
};
int main()
{
    for (double seed : {1.0, -1.0})
    {
        xad::Tape<double> tape;
        Ext cb;
        xad::AD x = 2.0;
        tape.registerInput(x);
        tape.newRecording();
        xad::AD y = x * 5.0;
        // y = 3 * x by hand
        cb.in = x.getSlot();
        value(y) = 3.0 * value(x);
        cb.out = y.getSlot();
        tape.insertCallback(&cb);
        tape.registerOutput(y);
        derivative(y) = seed;
        tape.computeAdjoints();
        expect("dx", derivative(x), 3.0 * seed);
    }
    return bad;
}
'''),
dict(id="C09-single-statement", property="C09",
 edits=[("src/Tape.cpp", "    if (statement_.size() > prev.statementStartPos_)\n        statement_.resize", "    if (statement_.size() > prev.statementStartPos_ + 1)\n        statement_.resize")],
 needs="a nested recording with exactly one statement outside of callbacks, after which the outer recording goes on", breaks="the statement of the nested recording stays in the outer one, with the operations that follow",
 demo=H + '''
int main()
{
    xad::Tape<double> tape;
    xad::AD x = 2.0;
    tape.registerInput(x);
    tape.newRecording();
    xad::AD y = x * 3.0;
    unsigned n = tape.getNumStatements();
    {
        xad::ScopedNestedRecording<xad::Tape<double>> nested(&tape);
        xad::AD u = y * y;
    }
    expect("statements", tape.getNumStatements(), n);
    xad::AD z = y * x;
    tape.registerOutput(z);
    derivative(z) = 1.0;
    tape.computeAdjoints();
    expect("dx", derivative(x), 12.0);
    return bad;
}
'''),
]

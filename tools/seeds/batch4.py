H = '''
#include <XAD/XAD.hpp>
#include <cmath>
#include <cstdio>
#include <vector>
static int bad = 0;
static void expect(const char* what, double got, double want, double tol = 1e-9)
{
    if (!(std::fabs(got - want) <= tol * (1 + std::fabs(want))))
        std::printf("%s: got %.17g, expected %.17g\\n", what, got, want), bad = 1;
}
'''
SEEDS = [
dict(id="C17-self-multiply", property="C17",
 edits=[("src/XAD/Complex.hpp", """        T real_t = base::real() * other.real() - base::imag() * other.imag();
        base::imag(base::real() * other.imag() + other.real() * base::imag());
        base::real(real_t);
""", """        T real_t = base::real() * other.real() - base::imag() * other.imag();
        base::imag() *= other.real();
        base::imag() += base::real() * other.imag();
        base::real(real_t);
""")],
 needs="a complex number multiplied by itself in place", breaks="the imaginary part of z *= z",
 demo=H + '''
int main()
{
    std::complex<xad::AD> z(xad::AD(1.5), xad::AD(-0.75)), w(xad::AD(0.5), xad::AD(3.0));
    std::complex<double> p(1.5, -0.75), q(0.5, 3.0);
    z *= w; p *= q;
    expect("other", value(z.imag()), p.imag());
    z *= z; p = p * p;
    expect("real", value(z.real()), p.real());
    expect("imag", value(z.imag()), p.imag());
    return bad;
}
'''),
dict(id="C18-self-divide", property="C18",
 edits=[("src/XAD/Complex.hpp", """        T real_t = ((base::real() * T(other.real())) + (base::imag() * T(other.imag()))) / den;
        base::imag((base::imag() * T(other.real()) - base::real() * T(other.imag())) / den);
        base::real(real_t);
""", """        T re = base::real();
        base::real((re * T(other.real()) + base::imag() * T(other.imag())) / den);
        base::imag((base::imag() * T(other.real()) - re * T(other.imag())) / den);
""")],
 needs="a complex number divided by itself in place", breaks="z /= z has a non-zero imaginary part and derivative",
 demo=H + '''
int main()
{
    xad::FAD a = 1.5, b = -0.75;
    derivative(a) = 1.0;
    std::complex<xad::FAD> z(a, b), w(xad::FAD(2.0), xad::FAD(1.0));
    std::complex<xad::FAD> y = z;
    y /= w;
    expect("d", derivative(y.real()), 2.0 / 5.0);
    z /= z;
    expect("real", value(z.real()), 1.0);
    expect("imag", value(z.imag()), 0.0);
    expect("d real", derivative(z.real()), 0.0);
    expect("d imag", derivative(z.imag()), 0.0);
    return bad;
}
'''),
dict(id="C11-int-bool", property="C11", flags="-O0",
 edits=[("src/XAD/Expression.hpp", """    XAD_INLINE explicit operator bool() const { return value() != Scalar(0); }
""", """#ifdef XAD_ALLOW_INT_CONVERSION
    XAD_INLINE explicit operator bool() const { return static_cast<long long>(getValue()) != 0; }
#else
    XAD_INLINE explicit operator bool() const { return value() != Scalar(0); }
#endif
""")],
 needs="a build with integer conversion, and numbers below one used as conditions", breaks="branches on small numbers go the other way in builds with integer conversion",
 demo='''#ifndef XAD_ALLOW_INT_CONVERSION
#define XAD_ALLOW_INT_CONVERSION
#endif
''' + H + '''
int main()
{
    xad::FAD a = 0.25, z = 0.0, b = 2.5;
    expect("0.25", a ? 1 : 0, 1, 0);
    expect("0", z ? 1 : 0, 0, 0);
    expect("2.5", b ? 1 : 0, 1, 0);
    return bad;
}
'''),
dict(id="C24-fold-first", property="C24",
 edits=[("src/Tape.cpp", "[=](const chkpt_type& ckpt, slot_type pos) { return ckpt.first < pos; });", "[=](const chkpt_type& ckpt, slot_type pos) { return ckpt.first <= pos; });")],
 needs="a nested recording that starts with a checkpoint and is given up without a rollback", breaks="the checkpoint of the nested recording stays in the outer one",
 demo=H + '''
#include <vector>
struct Cb : xad::CheckpointCallback<xad::Tape<double>>
{
    int calls = 0;
    void computeAdjoint(xad::Tape<double>*) override { ++calls; }
};
int main()
{
    xad::Tape<double> tape;
    Cb inner, outer;
    xad::AD x = 2.0;
    tape.registerInput(x);
    tape.newRecording();
    tape.insertCallback(&outer);
    xad::AD y = x * x;
    {
        xad::ScopedNestedRecording<xad::Tape<double>> nested(&tape);
        tape.insertCallback(&inner);
    }
    xad::AD z = y * x, u = z * x;
    tape.registerOutput(u);
    derivative(u) = 1.0;
    tape.computeAdjoints();
    expect("inner calls", inner.calls, 0, 0);
    expect("outer calls", outer.calls, 1, 0);
    return bad;
}
'''),
dict(id="C23-leak-chunks", property="C23",
 edits=[("src/XAD/ChunkContainer.hpp", """            chunk_ = getHighPart(s);
            idx_ = getLowPart(s);
            return;
""", """            chunk_ = getHighPart(s);
            idx_ = getLowPart(s);
            chunkList_.resize(chunk_ + 1);
            return;
""")],
 needs="a resize to a smaller size that spans more than one chunk", breaks="the chunks above are neither kept nor freed",
 demo=H + '''
#include <XAD/ChunkContainer.hpp>
int main()
{
    xad::ChunkContainer<double, 64> c;
    for (int i = 0; i < 1000; ++i) c.push_back(i);
    auto cap = c.capacity();
    c.resize(10);
    for (int i = 10; i < 700; ++i) c.push_back(i);
    expect("element", c[600], 600);
    expect("capacity", double(c.capacity()), double(cap), 0);
    return bad;
}
'''),
dict(id="C07-empty-recording", property="C07",
 edits=[("src/Tape.cpp", """template <class T>
void Tape<T>::newRecording()
{
    multiplier_.clear();
""", """template <class T>
void Tape<T>::newRecording()
{
    const bool used = getNumStatements() > 0;
    multiplier_.clear();
"""), ("src/Tape.cpp", """    statement_.push_back(std::make_pair(size_type(slot_.size()), slot_type(INVALID_SLOT)));
    currentRec_->derivativesInitialized_ = false;
}
""", """    statement_.push_back(std::make_pair(size_type(slot_.size()), slot_type(INVALID_SLOT)));
    if (used)
        currentRec_->derivativesInitialized_ = false;
}
""")],
 needs="a recording that is started again while it is still empty, after derivatives were set", breaks="derivatives of the recording before are still there",
 demo=H + '''
int main()
{
    xad::Tape<double> tape;
    xad::AD x = 2.0;
    tape.registerInput(x);
    tape.newRecording();
    derivative(x) = 5.0;
    tape.newRecording();
    xad::AD y = x * 3.0;
    tape.registerOutput(y);
    derivative(y) = 1.0;
    tape.computeAdjoints();
    expect("dx", derivative(x), 3.0);
    return bad;
}
'''),
dict(id="C01-register-first", property="C01",
 edits=[("src/XAD/Literals.hpp", """        tape_type* s = tape_type::getActive();
        expr.calc_derivatives(*s);
        // only register this variable after evaluating the expression, as this
        // variable might appear on the rhs of the equation too and if not yet
        // registered, it doesn't need recording of derivatives
        if (slot_ == INVALID_SLOT)
            slot_ = s->registerVariable();
        s->pushLhs(slot_);
""", """        tape_type* s = tape_type::getActive();
        if (slot_ == INVALID_SLOT)
            slot_ = s->registerVariable();
        expr.calc_derivatives(*s);
        s->pushLhs(slot_);
""")],
 needs="an unregistered variable that appears on both sides of its first recorded assignment, and a slot that was used before", breaks="the unregistered old value takes part in the derivatives, which then flow into the earlier variable of the slot",
 demo=H + '''
int main()
{
    xad::Tape<double> tape;
    xad::AD x = 2.0;
    tape.registerInput(x);
    tape.newRecording();
    {
        xad::AD t = x * x;
        (void)t;
    }
    xad::AD z = 3.0;
    z = z * x + z;
    tape.registerOutput(z);
    derivative(z) = 1.0;
    tape.computeAdjoints();
    expect("dz", derivative(x), 3.0);
    return bad;
}
'''),
dict(id="C03-div-reciprocal", property="C03",
 edits=[("src/XAD/Literals.hpp", "    XAD_INLINE Derived& operator/=(Scalar x) { return derived() = (derived() / x); }", "    XAD_INLINE Derived& operator/=(Scalar x) { return derived() = (derived() * (Scalar(1) / x)); }")],
 needs="compound division by a number whose reciprocal is not exact", breaks="x /= c is not the correctly rounded quotient (and overflows for tiny c)",
 demo=H + '''
int main()
{
    xad::FAD a = 1e-310;
    a /= 1e-310;
    expect("tiny", value(a), 1.0);
    xad::FAD b = 49.0;
    b /= 49.0;
    expect("exact", value(b) == 1.0, 1, 0);
    return bad;
}
'''),
dict(id="C21-is-signed", property="C21",
 edits=[("src/XAD/StdCompatibility.hpp", """template <class T>
struct is_signed<xad::FReal<T>> : std::is_signed<T>
""", """template <class T>
struct is_signed<xad::FReal<T>> : std::is_integral<T>
""")],
 needs="the is_signed trait of a forward type", breaks="forward types are reported as unsigned",
 demo=H + '''
#include <XAD/StdCompatibility.hpp>
int main()
{
    expect("signed", std::is_signed<xad::FAD>::value, 1, 0);
    expect("signed", std::is_signed<xad::AD>::value, 1, 0);
    return bad;
}
'''),
]

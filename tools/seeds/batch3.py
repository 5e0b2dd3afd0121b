H = '''
#include <XAD/XAD.hpp>
#include <cmath>
#include <cstdio>
#include <vector>
static int bad = 0;
static void expect(const char* what, double got, double want, double tol = 1e-9)
{
    if (!(std::fabs(got - want) <= tol * (1 + std::fabs(want))))
        std::printf("%s: got %.17g, expected %.17g\\n", what, got, want), bad = 1;
}
'''
SEEDS = [
dict(id="C18-mul-real", property="C18",
 edits=[("src/XAD/Complex.hpp", """        T real_t = base::real() * other.real() - base::imag() * other.imag();
        base::imag(base::real() * other.imag() + other.real() * base::imag());
        base::real(real_t);""", """        if (other.imag() == 0.0)  // the other one is a real number
            return *this *= T(other.real());
        T real_t = base::real() * other.real() - base::imag() * other.imag();
        base::imag(base::real() * other.imag() + other.real() * base::imag());
        base::real(real_t);""")],
 needs="a product with a complex number whose imaginary part is active but exactly zero", breaks="the derivatives with respect to the imaginary part of the second factor are lost",
 demo=H + '''
int main()
{
    typedef xad::FReal<double> F;
    for (double v : {0.5, 0.0})
    {
        F im = v;
        derivative(im) = 1.0;
        std::complex<F> a(2.0, 3.0), b(1.5, im);
        std::complex<F> c = a * b;
        expect("re", value(c.real()), 2 * 1.5 - 3 * v);
        expect("re'", derivative(c.real()), -3);
        expect("im'", derivative(c.imag()), 2);
    }
    return bad;
}
'''),
dict(id="C03-copysign-zero", property="C03",
 edits=[("src/XAD/UnaryOperators.hpp", "    bool sign = signbit(y);\n    if (signbit(x))\n    {\n        if (sign)\n            return T(x);", "    bool sign = y < 0;\n    if (signbit(x))\n    {\n        if (sign)\n            return T(x);")],
 needs="copysign with a negative zero as the second argument", breaks="the sign of negative zeros is ignored",
 demo=H + '''
int main()
{
    typedef xad::FReal<double> F;
    for (double x : {2.0, -2.0})
        for (double y : {1.0, -1.0, 0.0, -0.0})
        {
            F fx = x, fy = y;
            expect("copysign", value(copysign(fx, fy)), std::copysign(x, y));
            expect("copysign", value(copysign(fx, y)), std::copysign(x, y));
        }
    return bad;
}
'''),
dict(id="C03-int-conversion", property="C03", flags="-O0 -DXAD_ALLOW_INT_CONVERSION",
 edits=[("src/XAD/Expression.hpp", "    XAD_INLINE explicit operator long() const { return static_cast<long>(getValue()); }", "    XAD_INLINE explicit operator long() const { return static_cast<int>(getValue()); }")],
 needs="integer conversion enabled, and a value that does not fit into an int", breaks="conversions of large numbers to long",
 demo=H + '''
int main()
{
    xad::AD x = 123456789012.0;
    expect("long", double(static_cast<long>(x)), 123456789012.0);
    expect("long long", double(static_cast<long long>(x)), 123456789012.0);
    return bad;
}
'''),
dict(id="C22-overwrite-passive", property="C22",
 edits=[("src/XAD/Literals.hpp", "    if (o.shouldRecord() || this->shouldRecord())\n    {\n        tape_type* s = tape_type::getActive();\n        if (slot_ == INVALID_SLOT)\n            slot_ = s->registerVariable();\n        o.calc_derivatives(*s);",
   "    if (o.shouldRecord() || (this->shouldRecord() && this->a_ != o.a_))\n    {\n        tape_type* s = tape_type::getActive();\n        if (slot_ == INVALID_SLOT)\n            slot_ = s->registerVariable();\n        o.calc_derivatives(*s);")],
 needs="an active variable overwritten by a passive variable that has the same value", breaks="the variable keeps its dependencies on the inputs, although it was overwritten by a constant",
 demo=H + '''
int main()
{
    xad::Tape<double> tape;
    xad::AD x = 2.0, c = 4.0, d = 5.0;
    tape.registerInput(x);
    tape.newRecording();
    xad::AD y = x * x, z = x * x;
    y = c;
    z = d;
    xad::AD r = y * 3.0 + z + x;
    tape.registerOutput(r);
    derivative(r) = 1.0;
    tape.computeAdjoints();
    expect("adjoint", derivative(x), 1.0);
    return bad;
}
'''),
dict(id="C05-tan-zero", property="C05",
 edits=[("src/XAD/UnaryMathFunctors.hpp", """    XAD_INLINE Scalar derivative(const Scalar& a) const
    {
        Scalar tmp = Scalar(1) / cos(a);
        return tmp * tmp;
    }""", """    XAD_INLINE Scalar derivative(const Scalar& a) const
    {
        // 1 close to zero, where the square doesn't change it
        if (a * a < Scalar(1e-16))
            return Scalar(1);
        Scalar tmp = Scalar(1) / cos(a);
        return tmp * tmp;
    }""")],
 needs="third order derivatives of tan at (or very close to) zero, where the first derivative is one and the second zero", breaks="the third derivative of tan at zero is 0 instead of 2",
 demo=H + '''
int main()
{
    typedef xad::FReal<xad::FReal<xad::FReal<double>>> F3;
    for (double v : {0.5, 0.0})
    {
        F3 x = v;
        value(value(derivative(x))) = 1.0;
        value(derivative(value(x))) = 1.0;
        derivative(value(value(x))) = 1.0;
        F3 y = tan(x);
        double t = std::tan(v), d = 1 + t * t;
        expect("first", value(value(derivative(y))), d);
        expect("second", derivative(value(derivative(y))), 2 * t * d);
        expect("third", derivative(derivative(derivative(y))), 2 * d * (1 + 3 * t * t));
    }
    return bad;
}
'''),
]

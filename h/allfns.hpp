#pragma once
// every function of the library once, for the checks on threads
#include <XAD/Complex.hpp>
#include <XAD/StdCompatibility.hpp>
#include <XAD/XAD.hpp>
#include <sstream>
#include <vector>

namespace allfns
{
static const int N = 136;

// f-th function at x, y in (0, 1); results that carry derivatives to r, others to p
template <class A, class S>
void call(int f, const A& x, const A& y, std::vector<A>& r, std::vector<double>& p)
{
    typedef std::complex<A> C;
    C z(x, y), w(y + S(0.5), -x);
    auto cx = [&](const C& q) {
        r.push_back(q.real());
        r.push_back(q.imag());
    };
    using namespace xad;
    switch (f)
    {
        case 0: { A ip; r.push_back(modf(x * S(7), &ip)); p.push_back(double(value(ip))); break; }
        case 1: { S ip; r.push_back(modf(x * S(7), &ip)); p.push_back(double(ip)); break; }
        case 2: { int e; r.push_back(frexp(x * S(7), &e)); p.push_back(e); break; }
        case 3: { int q; r.push_back(remquo(x * S(7), y, &q)); p.push_back(q); break; }
        case 4: r.push_back(sin(x)); break;
        case 5: r.push_back(cos(x)); break;
        case 6: r.push_back(tan(x)); break;
        case 7: r.push_back(asin(x)); break;
        case 8: r.push_back(acos(x)); break;
        case 9: r.push_back(atan(x)); break;
        case 10: r.push_back(sinh(x)); break;
        case 11: r.push_back(cosh(x)); break;
        case 12: r.push_back(tanh(x)); break;
        case 13: r.push_back(asinh(x)); break;
        case 14: r.push_back(acosh(x + S(1.5))); break;
        case 15: r.push_back(atanh(x)); break;
        case 16: r.push_back(exp(x)); break;
        case 17: r.push_back(log(x)); break;
        case 18: r.push_back(log10(x)); break;
        case 19: r.push_back(sqrt(x)); break;
        case 20: r.push_back(cbrt(x)); break;
        case 21: r.push_back(exp2(x)); break;
        case 22: r.push_back(log2(x)); break;
        case 23: r.push_back(expm1(x)); break;
        case 24: r.push_back(log1p(x)); break;
        case 25: r.push_back(erf(x)); break;
        case 26: r.push_back(erfc(x)); break;
        case 27: r.push_back(abs(x - y)); break;
        case 28: r.push_back(fabs(x - y)); break;
        case 29: r.push_back(ceil(x)); break;
        case 30: r.push_back(floor(x)); break;
        case 31: r.push_back(trunc(x)); break;
        case 32: r.push_back(round(x)); break;
        case 33: r.push_back(ldexp(x, 3)); break;
        case 34: r.push_back(scalbn(x, 3)); break;
        case 35: r.push_back(smooth_abs(x - y)); break;
        case 36: r.push_back(smooth_max(x, y)); break;
        case 37: r.push_back(smooth_min(x, y, S(0.3))); break;
        case 38: r.push_back(pow(x, y)); break;
        case 39: r.push_back(pow(x, S(2.5))); break;
        case 40: r.push_back(pow(x, 3)); break;
        case 41: r.push_back(pow(S(2.5), x)); break;
        case 42: r.push_back(pown(x, 4)); break;
        case 43: r.push_back(max(x, y)); break;
        case 44: r.push_back(min(x, y)); break;
        case 45: r.push_back(fmax(x, S(0.5))); break;
        case 46: r.push_back(fmin(S(0.5), y)); break;
        case 47: r.push_back(fmod(x * S(5), y)); break;
        case 48: r.push_back(remainder(x * S(5), y)); break;
        case 49: r.push_back(atan2(x, y)); break;
        case 50: r.push_back(hypot(x, y)); break;
        case 51: r.push_back(nextafter(x, S(5))); break;
        case 52: r.push_back(copysign(x, -y)); break;
        case 53: r.push_back(x * y / (x + y) - S(2) * x + 3 / y); break;
        case 54: p.push_back(double(lround(x * S(9)))); break;
        case 55: p.push_back(double(llround(x * S(9)))); break;
        case 56: p.push_back(ilogb(x)); break;
        case 57: p.push_back(fpclassify(x) + isnan(x) + isinf(y) + isfinite(x) + isnormal(y) + signbit(x)); break;
        case 58: p.push_back(double(std::hash<A>()(x) % 1000003)); break;
        case 59: { std::string s = std::to_string(x); for (char ch : s) p.push_back(ch); break; }
        case 60: { std::ostringstream s; s << x << ' ' << (x + y); for (char ch : s.str()) p.push_back(ch); break; }
        case 61: { std::istringstream s("2.5 3"); A q; s >> q; p.push_back(double(value(q))); break; }
        case 62: p.push_back(double(std::numeric_limits<A>::epsilon())); break;
        case 63: p.push_back((x < y) + 2 * (x == y) + 4 * (x >= S(0.5)) + 8 * (x * y != x)); break;
        case 64: cx(z + w); break;
        case 65: cx(z - w); break;
        case 66: cx(z * w); break;
        case 67: cx(z / w); break;
        case 68: cx(exp(z)); break;
        case 69: cx(log(z)); break;
        case 70: cx(log10(w)); break;
        case 71: cx(sqrt(w)); break;
        case 72: cx(sin(z)); break;
        case 73: cx(cos(z)); break;
        case 74: cx(tan(z)); break;
        case 75: cx(asin(z)); break;
        case 76: cx(acos(z)); break;
        case 77: cx(atan(z)); break;
        case 78: cx(sinh(z)); break;
        case 79: cx(cosh(z)); break;
        case 80: cx(tanh(z)); break;
        case 81: cx(asinh(z)); break;
        case 82: cx(acosh(z)); break;
        case 83: cx(atanh(z)); break;
        case 84: cx(pow(z, w)); break;
        case 85: cx(pow(z, x)); break;
        case 86: cx(pow(z, 3)); break;
        case 87: r.push_back(abs(z)); break;
        case 88: r.push_back(arg(w)); break;
        case 89: r.push_back(norm(z)); break;
        case 90: cx(std::polar(x, y)); break;
        case 91: r.push_back(smooth_abs(x - y, y)); break;
        case 92: r.push_back(smooth_abs(x - y, S(0.4))); break;
        case 93: r.push_back(smooth_abs(S(0.2), y)); break;
        case 94: r.push_back(smooth_max(x, y, x)); break;
        case 95: r.push_back(smooth_min(x, S(0.5), y)); break;
        case 96: r.push_back(smooth_max(S(0.4), y, S(0.2))); break;
        case 97: r.push_back(fmod(x * S(5), S(0.7))); break;
        case 98: r.push_back(fmod(S(5), y)); break;
        case 99: r.push_back(remainder(x * S(5), S(0.7))); break;
        case 100: r.push_back(remainder(S(5), y)); break;
        case 101: r.push_back(atan2(x, S(0.7))); break;
        case 102: r.push_back(atan2(S(-0.3), y)); break;
        case 103: r.push_back(hypot(x, S(0.7))); break;
        case 104: r.push_back(hypot(S(-0.3), y)); break;
        case 105: r.push_back(copysign(x, S(-1))); break;
        case 106: r.push_back(copysign(S(-0.3), y)); break;
        case 107: r.push_back(nextafter(S(0.5), y)); break;
        case 108: r.push_back(nextafter(x, y)); break;
        case 109: r.push_back(max(x, S(0.5))); break;
        case 110: r.push_back(min(S(0.5), y)); break;
        case 111: r.push_back(fmax(S(0.5), y)); break;
        case 112: r.push_back(fmin(x, y)); break;
        case 113: r.push_back(max(x, x * y)); break;
        case 114: r.push_back(min(x * S(2), x + y)); break;
        case 115: { int q; r.push_back(remquo(x * S(7), S(0.6), &q)); p.push_back(q); } break;
        case 116: { int q; r.push_back(remquo(S(7), y, &q)); p.push_back(q); } break;
        case 117: { int e; r.push_back(frexp(x + y, &e)); p.push_back(e); } break;
        case 118: { S ip; r.push_back(modf(x * y * S(9), &ip)); p.push_back(double(ip)); } break;
        case 119: p.push_back((x ? 1 : 0) + (!y ? 2 : 0) + (x && y ? 4 : 0) + (x - x ? 8 : 0) + (x * y ? 16 : 0)); break;
        case 120: p.push_back((S(0.5) < x) + 2 * (S(0.5) == y) + 4 * (x + y >= S(1)) + 8 * (S(1) != x * y) + 16 * (x - y <= y) + 32 * (S(0.25) > y)); break;
        case 121: { A q = x; q += y; q -= x * y; q *= y; q /= x + S(2); q += S(1); q -= S(3); q *= S(0.3); q /= S(7); r.push_back(q); } break;
        case 122: { A q = x; ++q; q--; --q; r.push_back(q++); r.push_back(q); r.push_back(-q + +q * S(3)); } break;
        case 123: { C q = z; q += w; q *= q; q -= x; q /= w; q *= y; q += S(1); q /= z; q -= z; cx(q); } break;
        case 124: { C q = z; q *= q; q /= q; cx(q); q = z; q -= q; cx(q); q += w; cx(-q); } break;
        case 125: cx(S(2) * z + z / S(3) - S(1) / w + x * w - w / y); break;
        case 126: cx(pow(z, S(2.5))); break;
        case 127: cx(pow(x, w)); break;
        case 128: cx(pow(S(1.5), w)); break;
        case 129: p.push_back((z == w) + 2 * (z != w) + 4 * (z == x) + 8 * (y != w)); break;
        case 130: r.push_back(norm(z - w)); r.push_back(arg(z - w)); r.push_back(abs(w - S(2))); break;
        case 131: cx(std::proj(z)); cx(std::conj(w)); break;
        case 132: { std::stringstream s; s << z << w; for (char ch : s.str()) p.push_back(ch); } break;
        case 133: r.push_back(exp(x) - expm1(y) + log(x + S(1)) * log1p(y)); break;
        case 134: r.push_back(sqrt(x * x + y * y)); r.push_back(pow(x, y + S(1))); break;
        default: cx(conj(z) * proj(w)); break;
    }
}
}  // namespace allfns

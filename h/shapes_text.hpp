// included inside namespace prog
#define SHAPE(id, ...)
#include "shapes.inc"
#undef SHAPE
inline const char* shapeText(int id)
{
    switch (id)
    {
#ifdef SHAPE_MOD
#define SHAPE(id, ...) case id: return id % SHAPE_MOD == SHAPE_REM || id < 12 ? #__VA_ARGS__ : "a*b+c";
#else
#define SHAPE(id, ...) case id: return #__VA_ARGS__;
#endif
#include "shapes.inc"
#undef SHAPE
    }
    return "";
}
// a translation unit may keep only every SHAPE_MOD-th shape (compile time of the nested types)
#ifdef SHAPE_MOD
#define SHAPE_ON(id) if constexpr (id % SHAPE_MOD == SHAPE_REM || id < 12)
#define SHAPE_OFF(id) if constexpr (!(id % SHAPE_MOD == SHAPE_REM || id < 12))
#else
#define SHAPE_ON(id)
#define SHAPE_OFF(id) if (false)
#endif
template <class V, class T>
struct Shapes
{
    typedef T K;
    static void set(int id, V& r, const V& a, const V& b, const V& c, T k)
    {
        (void)a; (void)b; (void)c; (void)k;
        switch (id)
        {
#define SHAPE(id, ...) case id: SHAPE_ON(id) { r = __VA_ARGS__; } SHAPE_OFF(id) { r = a * b + c; } break;
#include "shapes.inc"
#undef SHAPE
            default: r = a * b + c;
        }
    }
    static V* make(int id, const V& a, const V& b, const V& c, T k)
    {
        (void)a; (void)b; (void)c; (void)k;
        switch (id)
        {
#ifndef MAKE_FEW
#define SHAPE(id, ...) case id: SHAPE_ON(id) { return new V(__VA_ARGS__); } break;
#include "shapes.inc"
#undef SHAPE
#endif
        }
        V* r = new V(a);
        set(id, *r, a, b, c, k);
        return r;
    }
    static void comp(int op, int id, V& r, const V& a, const V& b, T k)
    {
        // a few expression shapes on the right of each compound operator
        switch (op * 6 + id % 6)
        {
            case 0: r += a * b; break;
            case 1: r += sin(a) - b * k; break;
            case 2: r += a; break;
            case 3: r += -b; break;
            case 4: r += K(2) * r; break;
            case 5: r += r * a; break;
            case 6: r -= a * b; break;
            case 7: r -= cos(a) + b * k; break;
            case 8: r -= b; break;
            case 9: r -= K(0.5) * r; break;
            case 10: r -= a + b; break;
            case 11: r -= r * b; break;
            case 12: r *= a + b; break;
            case 13: r *= sin(a); break;
            case 14: r *= r; break;
            case 15: r *= k - b; break;
            case 16: r *= r + a; break;
            case 17: r *= a * k; break;
            case 18: r /= K(2) + a * a; break;
            case 19: r /= K(1.5) + sin(b); break;
            case 20: r /= exp(K(0.5) * sin(a)); break;
            case 21: r /= K(2) + r * r; break;
            case 22: r /= sqrt(a * a + K(1)); break;
            case 23: r /= cosh(sin(b)) + K(1); break;
        }
    }
};

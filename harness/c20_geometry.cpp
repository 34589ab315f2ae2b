// C20: points, sizes, rectangles and matrices of every coordinate type against exact arithmetic.
#include "mc.h"
#include <array>
#include <limits>
#include <string>
#include <type_traits>
#include <vector>
#include "graphics/BaseGeometry.h"

using namespace embedded;

namespace
{
using Wide = __int128;
template<typename T> Wide wide(T v) { return Wide(v); }
template<typename T> bool fits(Wide v)
{
    if constexpr (std::is_floating_point_v<T>) return v >= -(Wide(1) << 24) && v <= (Wide(1) << 24);
    else return v >= Wide(std::numeric_limits<T>::min()) && v <= Wide(std::numeric_limits<T>::max());
}
// also: intermediate results of types as wide as int may not overflow
template<typename T> std::vector<T> values(bool few)
{
    std::vector<T> r;
    for (int v : { 0, 1, 2, 3, 5, 7, 100, 126, 127 }) r.push_back(T(v));
    if (std::is_signed_v<T>) for (int v : { -1, -2, -3, -7, -127, -128 }) r.push_back(T(v));
    if (fits<T>(255)) { r.push_back(T(128)); r.push_back(T(255)); }
    if (!few && fits<T>(65536)) for (int v : { 256, 32767, 32768, 65535, 65536, 99999 }) r.push_back(T(v));
    if constexpr (std::is_floating_point_v<T>) { if (!few) for (double d : { 0.5, -2.25, 1000.125 }) r.push_back(T(d)); }
    else if constexpr (std::is_integral_v<T>)
        if (!few && sizeof(T) > 1) { r.push_back(std::numeric_limits<T>::max()); r.push_back(T(std::numeric_limits<T>::max() - 1)); r.push_back(std::numeric_limits<T>::min()); r.push_back(T(std::numeric_limits<T>::min() + 1)); }
    if constexpr (std::is_integral_v<T> && sizeof(T) == 8) { r.push_back(T(1) << 33); r.push_back((T(1) << 40) + 5); }
    return r;
}
#define SHOW(v) std::to_string((long long)(v)).c_str()

template<typename T> void arithmetic()
{
    static const auto v = values<T>(false);
    const T a = v[mc::choose(int(v.size()), "a")], b = v[mc::choose(int(v.size()), "b")];
    for (T c : v)
        for (T d : v)
        {
            mc::step();
            const Size<T> p { a, b }, q { c, d };
            const Point<T> o { a, b };
            if (fits<T>(wide(a) + c) && fits<T>(wide(b) + d))
            {
                const auto s = p + q;
                MC_CHECK(s.width == T(a + c) && s.height == T(b + d), "Size (%s,%s)+(%s,%s) is (%s,%s)", SHOW(a), SHOW(b), SHOW(c), SHOW(d), SHOW(s.width), SHOW(s.height));
                const auto t = o + q;
                Point<T> u = o;
                auto &ref = u += q;
                MC_CHECK(t.x == T(a + c) && t.y == T(b + d), "Point (%s,%s)+(%s,%s) is (%s,%s)", SHOW(a), SHOW(b), SHOW(c), SHOW(d), SHOW(t.x), SHOW(t.y));
                MC_CHECK(u.x == t.x && u.y == t.y && &ref == &u, "Point (%s,%s)+=(%s,%s) gives (%s,%s)", SHOW(a), SHOW(b), SHOW(c), SHOW(d), SHOW(u.x), SHOW(u.y));
                Rect<T> r { o, { 3, 4 } };
                const auto r2 = r + q;
                auto &rr = r += q;
                MC_CHECK(r2.topLeft.x == t.x && r2.topLeft.y == t.y && r2.size.width == 3 && r2.size.height == 4, "translated rectangle");
                MC_CHECK(r.topLeft.x == t.x && r.topLeft.y == t.y && r.size.width == 3 && r.size.height == 4 && &rr == &r, "rectangle translated in place");
            }
            if (fits<T>(wide(a) - c) && fits<T>(wide(b) - d))
            {
                const auto s = p - q;
                MC_CHECK(s.width == T(a - c) && s.height == T(b - d), "Size (%s,%s)-(%s,%s) is (%s,%s)", SHOW(a), SHOW(b), SHOW(c), SHOW(d), SHOW(s.width), SHOW(s.height));
            }
            const bool same = a == c && b == d;
            const Point<T> e { c, d };
            MC_CHECK((o == e) == same && (o != e) == !same, "(%s,%s) and (%s,%s) compare wrongly", SHOW(a), SHOW(b), SHOW(c), SHOW(d));
            // the rectangle's corners
            if (c >= 1 && d >= 1 && fits<T>(wide(a) + c) && fits<T>(wide(b) + d))
            {
                const Rect<T> r { o, { c, d } };
                MC_CHECK(r.topLeft.x == a && r.topLeft.y == b && r.size.width == c && r.size.height == d, "rectangle construction");
                const T right = T(a + c - 1), bottom = T(b + d - 1);
                const auto bl = r.bottomLeft(), tr = r.topRight(), br = r.bottomRight();
                MC_CHECK(bl.x == a && bl.y == bottom, "bottom left of (%s,%s) %sx%s is (%s,%s)", SHOW(a), SHOW(b), SHOW(c), SHOW(d), SHOW(bl.x), SHOW(bl.y));
                MC_CHECK(tr.x == right && tr.y == b, "top right of (%s,%s) %sx%s is (%s,%s)", SHOW(a), SHOW(b), SHOW(c), SHOW(d), SHOW(tr.x), SHOW(tr.y));
                MC_CHECK(br.x == right && br.y == bottom, "bottom right of (%s,%s) %sx%s is (%s,%s)", SHOW(a), SHOW(b), SHOW(c), SHOW(d), SHOW(br.x), SHOW(br.y));
            }
        }
    for (T c : v)
    {
        const Size<T> p { a, b };
        if (fits<T>(wide(a) * wide(c)) && fits<T>(wide(b) * wide(c)))
        {
            const auto s = p * c;
            MC_CHECK(s.width == T(a * c) && s.height == T(b * c), "Size (%s,%s)*%s is (%s,%s)", SHOW(a), SHOW(b), SHOW(c), SHOW(s.width), SHOW(s.height));
        }
        if (c != T(0) && !(std::is_signed_v<T> && c == T(-1) && (a == std::numeric_limits<T>::min() || b == std::numeric_limits<T>::min())))
        {
            const auto s = p / c;
            MC_CHECK(s.width == T(a / c) && s.height == T(b / c), "Size (%s,%s)/%s is (%s,%s)", SHOW(a), SHOW(b), SHOW(c), SHOW(s.width), SHOW(s.height));
        }
        mc::step(2);
    }
    mc::state(mc::Hash().bytes(&a, sizeof a).bytes(&b, sizeof b).u(sizeof(T)));
}

template<typename T> void matrix()
{
    static const auto v = values<T>(true);
    const T a = v[mc::choose(int(v.size()), "a")], b = v[mc::choose(int(v.size()), "b")];
    for (T c : v) for (T d : { T(0), T(1), T(3), std::is_signed_v<T> ? T(-2) : T(7), T(126) })
        for (T x : v) for (T y : { T(0), T(1), T(5), std::is_signed_v<T> ? T(-3) : T(9), T(127) })
        {
            const Wide wx = wide(a) * wide(x) + wide(b) * wide(y), wy = wide(c) * wide(x) + wide(d) * wide(y);
            if (!fits<T>(wx) || !fits<T>(wy)) continue;
            Matrix2x2<T> m(a, b, c, d);
            const auto p = m * Point<T> { x, y };
            mc::step();
            MC_CHECK(p.x == T(wx) && p.y == T(wy), "[%s %s; %s %s]*(%s,%s) is (%s,%s)", SHOW(a), SHOW(b), SHOW(c), SHOW(d), SHOW(x), SHOW(y), SHOW(p.x), SHOW(p.y));
        }
    mc::state(mc::Hash().bytes(&a, sizeof a).bytes(&b, sizeof b).u(sizeof(T)).u(1));
}

template<typename T, typename U> void convert()
{
    static const auto v = values<U>(false);
    for (U a : v) for (U b : v) for (U c : v) for (U d : v)
    {
        if (!fits<T>(wide(a)) || !fits<T>(wide(b)) || !fits<T>(wide(c)) || !fits<T>(wide(d))) continue;
        const Rect<U> from { { a, b }, { c, d } };
        const Rect<T> to = from;
        const Rect<U> copy = from;
        MC_CHECK(to.topLeft.x == T(a) && to.topLeft.y == T(b) && to.size.width == T(c) && to.size.height == T(d), "converted rectangle (%s,%s) %sx%s", SHOW(a), SHOW(b), SHOW(c), SHOW(d));
        MC_CHECK(copy.topLeft.x == a && copy.topLeft.y == b && copy.size.width == c && copy.size.height == d, "copied rectangle");
        mc::step();
    }
    mc::state(mc::Hash().u(sizeof(T)).u(sizeof(U)).u(std::is_signed_v<T> * 2 + std::is_signed_v<U>));
}
}

MC_SCENARIO(arithmeticInt, 48, 2) { arithmetic<int>(); }
MC_SCENARIO(arithmeticByte, 16, 2) { arithmetic<uint8_t>(); }
MC_SCENARIO(arithmeticSignedByte, 16, 2) { arithmetic<int8_t>(); }
MC_SCENARIO(arithmeticShort, 16, 2) { arithmetic<int16_t>(); }
MC_SCENARIO(arithmeticUnsignedShort, 16, 2) { arithmetic<uint16_t>(); }
MC_SCENARIO(arithmeticUnsigned, 16, 2) { arithmetic<unsigned>(); }
MC_SCENARIO(arithmeticLong, 48, 2) { arithmetic<int64_t>(); }
MC_SCENARIO(arithmeticFloat, 16, 2) { arithmetic<float>(); }
MC_SCENARIO(arithmeticDouble, 16, 2) { arithmetic<double>(); }
MC_SCENARIO(matrixInt, 48, 2) { matrix<int>(); }
MC_SCENARIO(matrixSignedByte, 16, 2) { matrix<int8_t>(); }
MC_SCENARIO(matrixShort, 16, 2) { matrix<int16_t>(); }
MC_SCENARIO(matrixLong, 16, 2) { matrix<int64_t>(); }
MC_SCENARIO(matrixFloat, 16, 2) { matrix<float>(); }
MC_SCENARIO(matrixDouble, 16, 2) { matrix<double>(); }
// fractions are kept
template<typename T> void fractions()
{
    static const T v[] = { T(0), T(0.5), T(-0.25), T(1), T(1.75), T(-3.125), T(1000.5) };
    const T a = mc::pick(v, "a"), b = mc::pick(v, "b");
    for (T c : v) for (T d : v)
        for (T x : v) for (T y : v)
        {
            Matrix2x2<T> m(a, b, c, d);
            const auto p = m * Point<T> { x, y };
            mc::step();
            MC_CHECK(p.x == a * x + b * y && p.y == c * x + d * y, "[%g %g; %g %g]*(%g,%g) is (%g,%g)", double(a), double(b), double(c), double(d), double(x), double(y), double(p.x), double(p.y));
            Rect<T> r;
            const Rect<T> from { { a, b }, { c, d } };
            r = from;
            const auto t = r + Size<T> { x, y };
            MC_CHECK(t.topLeft.x == a + x && t.topLeft.y == b + y && t.size.width == c && t.size.height == d, "translated rectangle");
            MC_CHECK(r.bottomLeft() == (Point<T> { a, b + d - 1 }) && r.topRight() == (Point<T> { a + c - 1, b }) && r.bottomRight() == (Point<T> { a + c - 1, b + d - 1 }), "corners of (%g,%g) %gx%g", double(a), double(b), double(c), double(d));
        }
    mc::state(mc::Hash().bytes(&a, sizeof a).bytes(&b, sizeof b).u(sizeof(T)).u(2));
}
MC_SCENARIO(fractionsFloat, 16, 2) { fractions<float>(); }
MC_SCENARIO(fractionsDouble, 16, 2) { fractions<double>(); }
MC_SCENARIO(conversions, 16, 1)
{
    switch (mc::choose(12, "types"))
    {
        case 0: return convert<int, int8_t>();
        case 1: return convert<int8_t, int>();
        case 2: return convert<int, uint8_t>();
        case 3: return convert<uint8_t, int>();
        case 4: return convert<int16_t, int>();
        case 5: return convert<int, int16_t>();
        case 6: return convert<int64_t, int>();
        case 7: return convert<int, int64_t>();
        case 8: return convert<float, int16_t>();
        case 9: return convert<int, float>();
        case 10: return convert<uint16_t, int8_t>();
        default: return convert<double, int>();
    }
}
// every pair of bytes: sums, differences, comparison
MC_SCENARIO(everyByte, 16, 1)
{
    const int a = mc::choose(256, "a") - 128;
    for (int b = -128; b < 128; ++b)
    {
        const Point<int8_t> p { int8_t(a), int8_t(b) }, q { int8_t(b), int8_t(a) };
        MC_CHECK((p == q) == (a == b) && (p != q) == (a != b), "comparison of (%d,%d)", a, b);
        for (int d = -128; d < 128; d += 5)
        {
            if (a + d < -128 || a + d > 127 || b + d < -128 || b + d > 127) continue;
            auto r = p + Size<int8_t> { int8_t(d), int8_t(d) };
            MC_CHECK(r.x == a + d && r.y == b + d, "(%d,%d)+%d", a, b, d);
        }
        mc::step();
    }
    mc::state(mc::Hash().u(a));
}

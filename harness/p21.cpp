// P21: scalar_complex and the generic complex helpers
#include "common.hpp"

#include <neo/complex.hpp>
#include <neo/complex/scalar_complex.hpp>
#include <neo/math/abs.hpp>
#include <neo/math/conj.hpp>
#include <neo/math/float_equality.hpp>
#include <neo/math/imag.hpp>
#include <neo/math/log2.hpp>
#include <neo/math/polar.hpp>
#include <neo/math/real.hpp>

// user-defined number types: free functions found by argument-dependent lookup, and members
namespace user {

struct free_fn
{
    int re, im;
};
constexpr auto real(free_fn const& z) -> int { return z.re; }
constexpr auto imag(free_fn const& z) -> int { return z.im; }
constexpr auto conj(free_fn const& z) -> free_fn { return {z.re, -z.im}; }
constexpr auto abs(free_fn const& z) -> int { return z.re * z.re + z.im * z.im; }
constexpr auto log2(free_fn const& z) -> int { return 2 * z.re; }

struct member_fn
{
    int re, im;
    [[nodiscard]] constexpr auto real() const -> int { return re; }
    [[nodiscard]] constexpr auto imag() const -> int { return im; }
    [[nodiscard]] constexpr auto conj() const -> member_fn { return {re, -im}; }
    [[nodiscard]] constexpr auto abs() const -> int { return re * re + im * im; }
};

}  // namespace user

namespace vh {

template<typename T>
struct name_of;
template<> struct name_of<float> { static constexpr auto v = "f32"; };
template<> struct name_of<double> { static constexpr auto v = "f64"; };
template<> struct name_of<int> { static constexpr auto v = "i32"; };
#if defined(NEO_HAS_BUILTIN_FLOAT16)
template<> struct name_of<_Float16> { static constexpr auto v = "f16"; };
#endif

template<typename C>
auto val(C z) -> ints
{
    return {ri(static_cast<long double>(z.real())), ri(static_cast<long double>(z.imag()))};
}
template<typename C>
auto devz(C z, long double s = 1.0L) -> long long
{
    return std::max(dev(static_cast<long double>(z.real()), s), dev(static_cast<long double>(z.imag()), s));
}

/// programs over a complex register; values stay small integers, exactly representable in T
template<typename C>
void program(rng& g, int len, long long limit, char const* t)
{
    using T  = typename C::value_type;
    auto sm  = [&](long long m) { return g.in(-m, m); };
    long long x = sm(9);
    long long y = sm(9);
    auto z      = C{static_cast<T>(x), static_cast<T>(y)};
    ev("load").s("t", t).a("x", ints{x, y}).a("r", val(z));
    for (int i = 0; i < len; ++i) {
        auto const cur = val(z);
        auto const mag = std::max(std::abs(cur[0]), std::abs(cur[1]));
        long long br   = sm(9);
        long long bi   = sm(9);
        auto const b   = C{static_cast<T>(br), static_cast<T>(bi)};
        char const* k  = "assign";
        bool ret       = true;
        auto const sel = g.in(0, 17);
        auto chk       = [&](C& r) { ret = &r == &z; };
        switch (sel) {
            case 0: k = "add"; z = z + b; break;
            case 1: k = "sub"; z = z - b; break;
            case 2: if (mag * 18 <= limit) { k = "mul"; z = z * b; } else { z = b; } break;
            case 3: k = "add"; chk(z += b); break;
            case 4: k = "sub"; chk(z -= b); break;
            case 5: if (mag * 18 <= limit) { k = "mul"; chk(z *= b); } else { z = b; } break;
            case 6: if (mag * 2 <= limit) { k = "self_add"; chk(z += z); } else { z = b; } break;
            case 7: k = "self_sub"; chk(z -= z); break;
            case 8: if (2 * mag * mag <= limit) { k = "self_mul"; chk(z *= z); } else { z = b; } break;
            case 9: if (mag * 9 <= limit) { k = "scale"; chk(z *= static_cast<T>(br)); } else { z = b; } break;
            case 10: k = "neg"; z = -z; break;
            case 11: k = "pos"; z = +z; break;
            case 12: k = "conj"; z = conj(z); break;
            case 13: k = "conj"; z = neo::math::conj(z); break;
            case 14: k = "set_re"; z.real(static_cast<T>(br)); break;
            case 15: k = "set_im"; z.imag(static_cast<T>(bi)); break;
            case 16: if (mag * 18 <= limit) { k = "mul"; z = b * z; } else { z = b; } break;
            default: k = "add"; z = b + z; break;
        }
        ev("apply").s("t", t).s("k", k).a("b", ints{br, bi}).a("r", val(z)).i("dev", devz(z)).b("ret", ret);
    }
}

template<typename T>
void scalar(rng& g, long long limit)
{
    using C       = neo::scalar_complex<T>;
    auto const* t = name_of<T>::v;
    for (int i = 0; i < (g_thorough ? 200 : 30); ++i) { program<C>(g, 60, limit, t); }
    for (int i = 0; i < (g_thorough ? 2000 : 300); ++i) {
        auto const ar = g.in(-40, 40);
        auto const ai = g.in(-40, 40);
        auto br       = g.in(-5, 5);
        auto bi       = g.in(-5, 5);
        if (br == 0 && bi == 0) { br = 3; }
        auto const a  = C{static_cast<T>(ar), static_cast<T>(ai)};
        auto const b  = C{static_cast<T>(br), static_cast<T>(bi)};
        auto const n  = static_cast<long double>(br * br + bi * bi);
        if constexpr (std::floating_point<T> || sizeof(T) == 2) {
            auto emit = [&](C q, bool ret) {
                auto const tol = sizeof(T) == 2 ? 490000 : (sizeof(T) == 4 ? 2000 : 10);
                auto r = ints{ri(static_cast<long double>(q.real()), n), ri(static_cast<long double>(q.imag()), n)};
                if (sizeof(T) != 2) {
                    ev("div").s("t", t).a("a", ints{ar, ai}).a("b", ints{br, bi}).a("r", r).i("dev", devz(q, n)).i("tol", tol).b("ret", ret);
                }
            };
            emit(a / b, true);
            auto c    = a;
            auto& ref = (c /= b);
            emit(c, &ref == &c);
            // divided by itself: one
            if (ar != 0 || ai != 0) {
                auto d = a;
                d /= d;
                ev("div").s("t", t).a("a", ints{1, 0}).a("b", ints{1, 0}).a("r", val(d)).i("dev", devz(d)).i("tol", 2000).b("ret", true);
            }
            auto e     = C{static_cast<T>(ar * 8), static_cast<T>(ai * 8)};
            auto& ref2 = (e /= T(8));
            ev("divs").s("t", t).a("a", ints{ar, ai}).a("r", val(e)).i("dev", devz(e)).i("tol", 0).b("ret", &ref2 == &e);
            if constexpr (sizeof(T) != 2) {
                auto h = a;
                h /= static_cast<T>(3);
                ev("divs").s("t", t).a("a", ints{ar, ai}).a("r", ints{ri(static_cast<long double>(h.real()), 3), ri(static_cast<long double>(h.imag()), 3)}).i("dev", devz(h, 3)).i("tol", 100).b("ret", true);
                auto const m = abs(a);
                ev("abs").s("t", t).a("a", ints{ar / 2, ai / 2}).i("r", ri(static_cast<long double>(abs(C{static_cast<T>(ar / 2), static_cast<T>(ai / 2)})), 1000)).i("slack", 1);
                ev("abs").s("t", t).a("a", ints{ar / 2, ai / 2}).i("r", ri(static_cast<long double>(neo::math::abs(C{static_cast<T>(ar / 2), static_cast<T>(ai / 2)})), 1000)).i("slack", 1);
                (void)m;
            }
        }
        ev("access").s("t", t).a("a", ints{ar, ai}).i("re", ri(static_cast<long double>(a.real()))).i("im", ri(static_cast<long double>(a.imag())));
        ev("access").s("t", t).a("a", ints{ar, ai}).i("re", ri(static_cast<long double>(neo::math::real(a)))).i("im", ri(static_cast<long double>(neo::math::imag(a))));
        ev("access").s("t", t).a("a", ints{ar, ai}).i("re", ri(static_cast<long double>(neo::get<0>(a)))).i("im", ri(static_cast<long double>(neo::get<1>(a))));
        auto const [p, q] = a;
        ev("access").s("t", t).a("a", ints{ar, ai}).i("re", ri(static_cast<long double>(p))).i("im", ri(static_cast<long double>(q)));
        auto const only = C{static_cast<T>(ar)};
        ev("access").s("t", t).a("a", ints{ar, 0}).i("re", ri(static_cast<long double>(only.real()))).i("im", ri(static_cast<long double>(only.imag())));
        auto const c = C{static_cast<T>(g.flag(50) ? ar : br), static_cast<T>(g.flag(50) ? ai : bi)};
        ev("equal").s("t", t).a("a", ints{ar, ai}).a("b", val(c)).b("r", neo::float_equality::exact(a, c));
        ev("equal").s("t", t).a("a", ints{ar, ai}).a("b", ints{ar, ai}).b("r", neo::float_equality::exact(a, C{a.real(), a.imag()}));
    }
    // Pythagorean triples
    for (auto [x, y] : {std::pair{3, 4}, {5, 12}, {8, 15}, {20, 21}, {0, 7}, {9, 0}, {0, 0}, {-3, 4}, {7, -24}, {-12, -5}}) {
        if constexpr (!std::integral<T>) {
            for (int e : {0, 1, 3}) {
                auto const s = std::ldexp(1.0L, e);
                auto const m = abs(C{static_cast<T>(x * s), static_cast<T>(y * s)});
                ev("absx").s("t", t).a("a", ints{x, y}).i("r", ri(static_cast<long double>(m), 1 / s)).i("dev", dev(static_cast<long double>(m), 1 / s)).i("tol", sizeof(T) == 2 ? 2000 : 10);
                auto const m2 = neo::math::abs(C{static_cast<T>(x * s), static_cast<T>(y * s)});
                ev("absx").s("t", t).a("a", ints{x, y}).i("r", ri(static_cast<long double>(m2), 1 / s)).i("dev", dev(static_cast<long double>(m2), 1 / s)).i("tol", sizeof(T) == 2 ? 2000 : 10);
            }
        }
    }
}

/// the same operations on quiet and loud data: exact powers of two factor out
template<typename T>
void scaled(rng& g)
{
    using C       = neo::scalar_complex<T>;
    auto const* t = name_of<T>::v;
    auto back     = [](C z, int k) { return ints{ri(std::ldexp(static_cast<long double>(z.real()), -k)), ri(std::ldexp(static_cast<long double>(z.imag()), -k))}; };
    auto off      = [](C z, int k) { return std::max(dev(std::ldexp(static_cast<long double>(z.real()), -k)), dev(std::ldexp(static_cast<long double>(z.imag()), -k))); };
    for (int i = 0; i < (g_thorough ? 1000 : 200); ++i) {
        auto const lim = sizeof(T) == 4 ? 28 : 240;
        auto const ka  = static_cast<int>(g.in(-lim, lim));
        auto const kb  = g.flag(30) ? ka : static_cast<int>(g.in(-lim, lim));
        auto const av  = ints{g.in(-99, 99), g.in(-99, 99)};
        auto bv        = ints{g.in(-99, 99), g.in(-99, 99)};
        if (bv[0] == 0 && bv[1] == 0) { bv[0] = 2; }
        auto mkc      = [](ints const& v, int k) { return C{std::ldexp(static_cast<T>(v[0]), k), std::ldexp(static_cast<T>(v[1]), k)}; };
        auto const a  = mkc(av, ka);
        auto const b  = mkc(bv, kb);
        auto const b2 = mkc(bv, ka);
        auto emit     = [&](char const* k, C z, int e, bool ret = true) {
            ev("load").s("t", t).a("x", av).a("r", back(a, ka));
            ev("apply").s("t", t).s("k", k).a("b", bv).a("r", back(z, e)).i("dev", off(z, e)).b("ret", ret);
        };
        emit("add", a + b2, ka);
        emit("sub", a - b2, ka);
        emit("mul", a * b, ka + kb);
        emit("neg", -a, ka);
        emit("conj", conj(a), ka);
        auto c = a;
        c += b2;
        emit("add", c, ka);
        c = a;
        c -= b2;
        emit("sub", c, ka);
        c = a;
        c *= b;
        emit("mul", c, ka + kb);
        c = a;
        c *= c;
        emit("self_mul", c, 2 * ka);
        c = a;
        c *= b.real();
        emit("scale", c, ka + kb);
        c = a;
        c *= static_cast<int>(bv[0]);
        emit("scale", c, ka);
        auto const n = static_cast<long double>(bv[0] * bv[0] + bv[1] * bv[1]);
        auto quot    = [&](C q) {
            auto const x = std::ldexp(static_cast<long double>(q.real()), kb - ka);
            auto const y = std::ldexp(static_cast<long double>(q.imag()), kb - ka);
            ev("div").s("t", t).a("a", av).a("b", bv).a("r", ints{ri(x, n), ri(y, n)}).i("dev", std::max(dev(x, n), dev(y, n))).i("tol", sizeof(T) == 4 ? 20000 : 10).b("ret", true);
        };
        quot(a / b);
        c = a;
        c /= b;
        quot(c);
        auto const m = abs(a);
        ev("abs").s("t", t).a("a", ints{av[0] / 4, av[1] / 4}).i("r", ri(std::ldexp(static_cast<long double>(abs(mkc({av[0] / 4, av[1] / 4}, ka))), -ka), 1000)).i("slack", 1);
        ev("equal").s("t", t).a("a", av).a("b", bv).b("r", neo::float_equality::exact(a, b2));
        ev("equal").s("t", t).a("a", av).a("b", av).b("r", neo::float_equality::exact(a, mkc(av, ka)));
        (void)m;
    }
    // a NaN equals nothing, zeros of either sign are equal
    auto const nan = std::numeric_limits<T>::quiet_NaN();
    ev("equal").s("t", t).a("a", ints{0}).a("b", ints{1}).b("r", neo::float_equality::exact(nan, nan));
    ev("equal").s("t", t).a("a", ints{0}).a("b", ints{1}).b("r", neo::float_equality::exact(C{nan, T(0)}, C{nan, T(0)}));
    ev("equal").s("t", t).a("a", ints{0}).a("b", ints{1}).b("r", neo::float_equality::exact(C{T(0), nan}, C{T(0), nan}));
    ev("equal").s("t", t).a("a", ints{0}).a("b", ints{0}).b("r", neo::float_equality::exact(T(0), -T(0)));
    ev("equal").s("t", t).a("a", ints{0}).a("b", ints{0}).b("r", neo::float_equality::exact(C{T(0), T(-0.0)}, C{T(-0.0), T(0)}));
    auto const inf = std::numeric_limits<T>::infinity();
    ev("equal").s("t", t).a("a", ints{0}).a("b", ints{0}).b("r", neo::float_equality::exact(inf, inf));
    ev("equal").s("t", t).a("a", ints{0}).a("b", ints{1}).b("r", neo::float_equality::exact(inf, -inf));
    for (T x : {std::numeric_limits<T>::denorm_min(), std::numeric_limits<T>::min()}) {
        ev("equal").s("t", t).a("a", ints{0}).a("b", ints{1}).b("r", neo::float_equality::exact(x, T(0)));
        ev("equal").s("t", t).a("a", ints{0}).a("b", ints{1}).b("r", neo::float_equality::exact(C{x, T(0)}, C{T(0), T(0)}));
        ev("equal").s("t", t).a("a", ints{0}).a("b", ints{1}).b("r", neo::float_equality::exact(C{T(0), x}, C{T(0), -x}));
    }
}

template<typename U>
void custom(rng& g, char const* t)
{
    for (int i = 0; i < 30; ++i) {
        auto const re = g.in(-90, 90);
        auto const im = g.in(-90, 90);
        auto const z  = U{static_cast<int>(re), static_cast<int>(im)};
        auto const c  = neo::math::conj(z);
        ev("access").s("t", t).a("a", ints{re, im}).i("re", neo::math::real(z)).i("im", neo::math::imag(z));
        ev("access").s("t", t).a("a", ints{re, -im}).i("re", c.re).i("im", c.im);
        // these types' abs is the squared magnitude
        ev("absreal").s("t", t).i("a", re * re + im * im).i("r", neo::math::abs(z));
        if constexpr (std::same_as<U, user::free_fn>) { ev("absreal").s("t", t).i("a", 2 * std::abs(re)).i("r", std::abs(neo::math::log2(z))); }
    }
}

// evaluated by the compiler
template<typename T>
void constants()
{
    using C            = neo::scalar_complex<T>;
    auto const* t      = name_of<T>::v;
    static constexpr auto a = C{T(7), T(-4)};
    static constexpr auto b = C{T(-3), T(5)};
    static constexpr auto compound = [] {
        auto z = a;
        z *= b;
        z += a;
        z -= b;
        z *= T(2);
        return z;
    }();
    static constexpr auto rs = std::array{a + b, a - b, a * b, -a, +a, conj(a)};
    char const* ks[]         = {"add", "sub", "mul", "neg", "pos", "conj"};
    for (std::size_t i = 0; i < rs.size(); ++i) {
        ev("load").s("t", t).a("x", ints{7, -4}).a("r", val(a));
        ev("apply").s("t", t).s("k", ks[i]).a("b", ints{-3, 5}).a("r", val(rs[i])).i("dev", devz(rs[i])).b("ret", true);
    }
    ev("load").s("t", t).a("x", ints{7, -4}).a("r", val(a));
    ev("apply").s("t", t).s("k", "mul").a("b", ints{-3, 5}).a("r", val(rs[2])).i("dev", 0).b("ret", true);
    ev("apply").s("t", t).s("k", "add").a("b", ints{7, -4}).a("r", val(rs[2] + a)).i("dev", 0).b("ret", true);
    ev("apply").s("t", t).s("k", "sub").a("b", ints{-3, 5}).a("r", val(rs[2] + a - b)).i("dev", 0).b("ret", true);
    ev("apply").s("t", t).s("k", "scale").a("b", ints{2, 0}).a("r", val(compound)).i("dev", 0).b("ret", true);
}

template<typename T>
void standard(rng& g)
{
    using C       = std::complex<T>;
    auto const* t = name_of<T>::v;
    for (int i = 0; i < 60; ++i) {
        auto const ar = g.in(-40, 40);
        auto const ai = g.in(-40, 40);
        auto const a  = C{static_cast<T>(ar), static_cast<T>(ai)};
        ev("access").s("t", t).a("a", ints{ar, ai}).i("re", ri(neo::math::real(a))).i("im", ri(neo::math::imag(a)));
        auto const c = neo::math::conj(a);
        ev("load").s("t", t).a("x", ints{ar, ai}).a("r", val(a));
        ev("apply").s("t", t).s("k", "conj").a("b", ints{0, 0}).a("r", val(c)).i("dev", 0).b("ret", true);
        ev("abs").s("t", t).a("a", ints{ar / 2, ai / 2}).i("r", ri(neo::math::abs(C{static_cast<T>(ar / 2), static_cast<T>(ai / 2)}), 1000)).i("slack", 1);
        ev("raccess").s("t", t).i("a", ar).i("re", ri(neo::math::real(static_cast<T>(ar)))).i("im", ri(neo::math::imag(static_cast<T>(ar))));
        ev("absreal").s("t", t).i("a", ar).i("r", ri(neo::math::abs(static_cast<T>(ar))));
        auto const o = C{g.flag(50) ? a.real() : T(1), g.flag(50) ? a.imag() : T(1)};
        ev("equal").s("t", t).a("a", ints{ar, ai}).a("b", val(o)).b("r", neo::float_equality::exact(a, o));
        ev("equal").s("t", t).a("a", ints{ar}).a("b", ints{ai}).b("r", neo::float_equality::exact(static_cast<T>(ar), static_cast<T>(ai)));
        ev("equal").s("t", t).a("a", ints{ar}).a("b", ints{ar}).b("r", neo::float_equality::exact(static_cast<T>(ar), static_cast<T>(ar)));
    }
    // values that differ in the last place only are different
    for (T x : {T(1), T(-3), T(0.1), T(1e10)}) {
        auto const y = std::nextafter(x, T(1e30));
        ev("equal").s("t", t).a("a", ints{0}).a("b", ints{1}).b("r", neo::float_equality::exact(x, y));
        ev("equal").s("t", t).a("a", ints{0}).a("b", ints{1}).b("r", neo::float_equality::exact(C{x, x}, C{x, y}));
        ev("equal").s("t", t).a("a", ints{0}).a("b", ints{1}).b("r", neo::float_equality::exact(C{x, x}, C{y, x}));
    }
    for (int k = -12; k <= 36; ++k) {
        for (int rad : {0, 1, 2, 7}) {
            auto const z = neo::math::polar(static_cast<T>(rad), static_cast<T>(static_cast<long double>(k) * std::numbers::pi_v<long double> / 6));
            ev("polar").s("t", t).i("k", ((k % 12) + 12) % 12).i("rad", rad).a("r", ints{ri(z.real(), 2000), ri(z.imag(), 2000)});
        }
    }
    for (int k = -100; k <= 100; k += 3) {
        auto const r = neo::math::log2(std::ldexp(T(1), k));
        ev("log2").s("t", t).i("k", k).i("r", ri(r)).i("dev", dev(r));
    }
}

template<typename I>
void integers(rng& g, char const* t)
{
    auto const mx = static_cast<long long>(std::min<unsigned long long>(std::numeric_limits<I>::max(), 2147483000ULL));
    for (int i = 0; i < 60; ++i) {
        auto x = i < 6 ? static_cast<long long>(i) - 3 : g.in(-mx, mx) >> g.in(0, 12);
        if (i == 7) { x = mx; }
        if (i == 8) { x = -mx; }
        if (!std::is_signed_v<I>) { x = std::abs(x); }
        ev("absreal").s("t", t).i("a", x).i("r", static_cast<long long>(neo::math::abs(static_cast<I>(x))));
        if constexpr (sizeof(I) == 8) {
            for (int k = 1; k < 32; ++k) { ev("absreal").s("t", t).i("a", x).i("r", static_cast<long long>(neo::math::abs(static_cast<I>(x) * (I(1) << k)) >> k)); }
        }
    }
    for (int k = 0; k < std::numeric_limits<I>::digits; ++k) {
        auto const r = neo::math::log2(static_cast<I>(I(1) << k));
        ev("log2").s("t", t).i("k", k).i("r", ri(r)).i("dev", dev(r));
    }
}

void run()
{
    auto g = rng{21};
    scalar<float>(g, 1 << 23);
    scalar<double>(g, 1 << 29);
    scalar<int>(g, 1 << 29);
#if defined(NEO_HAS_BUILTIN_FLOAT16)
    scalar<_Float16>(g, 2000);
#endif
    scaled<float>(g);
    scaled<double>(g);
    constants<float>();
    constants<double>();
    constants<int>();
    custom<user::free_fn>(g, "free");
    custom<user::member_fn>(g, "member");
    standard<float>(g);
    standard<double>(g);
    integers<int>(g, "int");
    integers<unsigned>(g, "unsigned");
    integers<short>(g, "short");
    integers<signed char>(g, "schar");
    integers<unsigned char>(g, "uchar");
    integers<long>(g, "long");
    integers<unsigned long>(g, "ulong");
    integers<long long>(g, "llong");
    auto got  = ints{neo::is_complex<std::complex<float>>, neo::is_complex<std::complex<double>>, neo::is_complex<neo::complex64>, neo::is_complex<neo::complex128>, neo::is_complex<float>, neo::is_complex<double>, neo::is_complex<int>, neo::complex<neo::complex64>, neo::complex<float>};
    auto want = ints{1, 1, 1, 1, 0, 0, 0, 1, 0};
    ev("traits").a("got", got).a("want", want);
}

}  // namespace vh

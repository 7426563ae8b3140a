// P23: integer and bit helpers.  Built twice: with the standard library's bit functions
// and, with -DNEO_VERIF_NO_STD_BIT, with the library's own replacements for them.
#include "common.hpp"
#include <version>

#if defined(NEO_VERIF_NO_STD_BIT)
    #undef __cpp_lib_int_pow2
    #undef __cpp_lib_bit_cast
#endif
#if defined(NEO_VERIF_NO_BUILTIN_BIT)
    #define __has_builtin(x) 0
    #include <neo/bit/bit_cast.hpp>
    #undef __has_builtin
#endif

#include <neo/bit.hpp>
#include <neo/bit/bit_cast.hpp>
#include <neo/bit/bit_ceil.hpp>
#include <neo/bit/bit_log2.hpp>
#include <neo/fft/order.hpp>
#include <neo/math/idiv.hpp>
#include <neo/math/ipow.hpp>
#include <neo/math/is_even.hpp>
#include <neo/math/is_odd.hpp>

namespace vh {

auto limbs(std::uint64_t x) -> ints
{
    return {static_cast<long long>(x & 0xFFFF), static_cast<long long>((x >> 16) & 0xFFFF), static_cast<long long>((x >> 32) & 0xFFFF), static_cast<long long>((x >> 48) & 0xFFFF)};
}

template<typename I>
auto residues(I r) -> ints
{
    auto out = ints{};
    for (long long p : {32749, 32719, 32717, 32713, 32707}) {
        if constexpr (std::is_signed_v<I>) {
            auto m = static_cast<long long>(r) % p;
            out.push_back(m < 0 ? m + p : m);
        } else {
            out.push_back(static_cast<long long>(static_cast<std::uint64_t>(r) % static_cast<std::uint64_t>(p)));
        }
    }
    return out;
}

template<typename U>
struct rows
{
    std::vector<ints> x, c;
    ints l, n;
    char const* t;
    void add(U v)
    {
        constexpr auto top = U(1) << (std::numeric_limits<U>::digits - 1);
        x.push_back(limbs(v));
        l.push_back(static_cast<long long>(neo::bit_log2(v)));
        if (v <= top) {
#if defined(NEO_VERIF_NO_STD_BIT)
            if (v == 0) {
                c.push_back(limbs(1));  // not defined there
                n.push_back(0);
            } else
#endif
            {
                c.push_back(limbs(neo::bit_ceil(v)));
                n.push_back(static_cast<long long>(neo::fft::next_order(v)));
            }
        } else {
            x.pop_back();
            l.pop_back();
            ev("bitlog2").s("t", t).m("x", std::vector<ints>{limbs(v)}).a("r", ints{static_cast<long long>(neo::bit_log2(v))});
        }
        if (x.size() == 64) { flush(); }
    }
    void flush()
    {
        if (x.empty()) { return; }
        ev("bitceil").s("t", t).m("x", x).m("r", c);
        ev("bitlog2").s("t", t).m("x", x).a("r", l);
        ev("nextorder").s("t", t).m("x", x).a("r", n);
        x.clear();
        c.clear();
        l.clear();
        n.clear();
    }
};

template<typename U>
void bits(rng& g, char const* t)
{
    constexpr int D = std::numeric_limits<U>::digits;
    auto r          = rows<U>{{}, {}, {}, {}, t};
    if constexpr (D == 8) {
        for (unsigned v = 0; v < 256; ++v) { r.add(static_cast<U>(v)); }
    } else if constexpr (D == 16) {
        for (unsigned v = 0; v < 65536; v += (g_thorough ? 1 : 1 + (v > 600 ? static_cast<unsigned>(g.in(0, 14)) : 0))) { r.add(static_cast<U>(v)); }
    } else {
        for (unsigned v = 0; v < 300; ++v) { r.add(static_cast<U>(v)); }
    }
    for (int k = 0; k < D; ++k) {
        for (int d = -3; d <= 3; ++d) { r.add(static_cast<U>((U(1) << k) + static_cast<U>(d))); }
    }
    for (int a = 0; a < D; ++a) {
        for (int b = 0; b < a; ++b) { r.add(static_cast<U>((U(1) << a) | (U(1) << b))); }
    }
    for (int i = 0; i < (g_thorough ? 5000 : 600); ++i) { r.add(static_cast<U>(static_cast<U>(g.next()) >> g.in(0, D - 1))); }
    r.add(std::numeric_limits<U>::max());
    r.flush();

    using S = std::make_signed_t<U>;
    auto xs = std::vector<ints>{};
    auto rs = ints{};
    auto put = [&](std::uint64_t v) {
        if (v == 0 || v > (std::uint64_t(1) << (D - 2))) { return; }
        xs.push_back(limbs(v));
        rs.push_back(static_cast<long long>(neo::fft::next_order(static_cast<S>(v))));
    };
    for (int k = 0; k < D - 1; ++k) {
        for (long long d = -2; d <= 2; ++d) { put((std::uint64_t(1) << k) + static_cast<std::uint64_t>(d)); }
    }
    ev("nextorder").s("t", "signed").m("x", xs).a("r", rs);
    for (int k = 0; k < D; ++k) {
        ev("fftsize").s("t", t).i("k", k).a("r", limbs(static_cast<std::uint64_t>(neo::fft::size(static_cast<U>(k)))));
        if (k < D - 1) { ev("fftsize").s("t", "signed").i("k", k).a("r", limbs(static_cast<std::uint64_t>(neo::fft::size(static_cast<S>(k))))); }
    }
}

template<typename I>
auto fits(long long b, int e) -> bool
{
    long double v = std::pow(static_cast<long double>(std::abs(b)), e);
    return v <= static_cast<long double>(std::numeric_limits<I>::max());
}

template<typename I>
void pow_rt(char const* t)
{
    for (long long b = std::is_signed_v<I> ? -17 : 0; b <= 40; ++b) {
        for (int e = 0; e < 64; ++e) {
            if (!fits<I>(b, e)) { break; }
            if ((b == 0 || b == 1 || b == -1) && e > 12) { break; }
            ev("ipow").s("t", t).i("b", b).i("e", e).a("r", residues(neo::ipow(static_cast<I>(b), static_cast<I>(e))));
        }
    }
}

template<typename I, I B>
void pow_ct_one(char const* t)
{
    for (int e = 0; e < 64; ++e) {
        if (!fits<I>(static_cast<long long>(B), e)) { break; }
        if ((B == I(0) || B == I(1)) && e > 12) { break; }
        ev("ipow").s("t", t).i("b", static_cast<long long>(B)).i("e", e).a("r", residues(neo::ipow<B>(static_cast<I>(e))));
    }
}

template<typename I>
void pow_ct(char const* t)
{
    [&]<int... Bs>(std::integer_sequence<int, Bs...>) { (pow_ct_one<I, static_cast<I>(Bs)>(t), ...); }(std::make_integer_sequence<int, 66>{});
    pow_ct_one<I, 100>(t);
    pow_ct_one<I, 127>(t);
    if constexpr (sizeof(I) > 1) {
        pow_ct_one<I, 128>(t);
        pow_ct_one<I, 255>(t);
        pow_ct_one<I, 256>(t);
        pow_ct_one<I, 1024>(t);
    }
    if constexpr (std::is_signed_v<I>) {
        pow_ct_one<I, -1>(t);
        pow_ct_one<I, -2>(t);
        pow_ct_one<I, -3>(t);
        pow_ct_one<I, -4>(t);
        pow_ct_one<I, -8>(t);
    }
}

template<typename I>
void divs(rng& g, char const* t)
{
    constexpr int D = std::numeric_limits<I>::digits;
    auto const mx   = D >= 31 ? 2147482990LL : static_cast<long long>(std::numeric_limits<I>::max());
    auto const mn   = std::is_signed_v<I> ? -mx : 0LL;
    auto x          = ints{};
    auto y          = ints{};
    auto r          = ints{};
    auto put        = [&](long long a, long long b) {
        if (a < mn || b < 1 || a > mx || b > mx) { return; }
        x.push_back(a);
        y.push_back(b);
        r.push_back(static_cast<long long>(neo::idiv(static_cast<I>(a), static_cast<I>(b))));
    };
    auto flush = [&] {
        ev("idiv").s("t", t).a("x", x).a("y", y).a("r", r);
        x.clear();
        y.clear();
        r.clear();
    };
    for (long long b = 1; b <= 40; ++b) {
        for (long long a = -50; a <= 100; ++a) { put(a, b); }
        for (long long a = 0; a <= 3; ++a) { put(mx - a, b), put(mn + a, b), put(a, mx - b), put(mx - a, mx - b); }
        flush();
    }
    for (int i = 0; i < (g_thorough ? 4000 : 600); ++i) {
        auto const b = 1 + (g.in(0, mx - 1) >> g.in(0, D >= 31 ? 29 : D - 1));
        auto const q = g.in(0, mx / b);
        put(q * b, b);
        put(q * b + 1, b);
        put(q * b - 1, b);
        put(g.in(0, mx), b);
        put(-g.in(0, mx), b);
    }
    flush();
    if constexpr (D >= 31) {
        // close to the maximum, 2^D - 1 - j: the quotient by 2^k, rounded up, is 2^(D - k)
        for (int k = D - 30; k < D; ++k) {
            for (I j : {I(0), I(1), I(1000), static_cast<I>((I(1) << (k - 1)) - 1)}) {
                if (j >= (I(1) << (k - 1))) { continue; }
                auto const X = static_cast<I>(std::numeric_limits<I>::max() - j);
                ev("idivw").s("t", t).i("q", 1LL << (D - k)).i("k", k).i("d", 0).i("r", static_cast<long long>(neo::idiv(X, static_cast<I>(I(1) << k))));
            }
        }
    }
    if constexpr (D >= 63) {
        for (int i = 0; i < 300; ++i) {
            auto const k = static_cast<int>(g.in(1, 40));
            auto const q = g.in(1, (1LL << 21) - 1);
            auto const d = g.in(-1, 1);
            auto const X = static_cast<I>((static_cast<long long>(q) << k) + d);
            ev("idivw").s("t", t).i("q", q).i("k", k).i("d", d).i("r", static_cast<long long>(neo::idiv(X, static_cast<I>(I(1) << k))));
        }
    }
}

template<typename I>
void parity(rng& g, char const* t)
{
    auto x    = ints{};
    auto even = ints{};
    auto odd  = ints{};
    constexpr int D = std::numeric_limits<I>::digits;
    auto const mx   = D >= 31 ? 2147480000LL : static_cast<long long>(std::numeric_limits<I>::max());
    auto put        = [&](long long v) {
        x.push_back(v);
        even.push_back(neo::is_even(static_cast<I>(v)));
        odd.push_back(neo::is_odd(static_cast<I>(v)));
    };
    for (long long v = std::is_signed_v<I> ? -100 : 0; v <= 100; ++v) { put(v); }
    for (int i = 0; i < 100; ++i) { put(g.in(std::is_signed_v<I> ? -mx : 0, mx)); }
    put(mx);
    if (std::is_signed_v<I>) { put(D >= 31 ? -mx : -mx - 1); }
    ev("parity").s("t", t).a("x", x).a("even", even).a("odd", odd);
}

void casts(rng& g)
{
    for (int i = 0; i < 400; ++i) {
        auto const s  = g.in(0, 1);
        auto const k  = g.in(-126, 127);
        auto const m  = g.flag(20) ? (g.flag(50) ? 0 : (1LL << 23) - 1) : g.in(0, (1LL << 23) - 1);
        auto const f  = std::ldexp(static_cast<float>((1LL << 23) + m), static_cast<int>(k) - 23) * (s == 1 ? -1.0F : 1.0F);
        auto const u  = neo::bit_cast<std::uint32_t>(f);
        auto const f2 = neo::bit_cast<float>(u);
        auto const d  = neo::bit_cast<double>(neo::bit_cast<std::uint64_t>(static_cast<double>(f)));
        ev("bitcast").i("s", s).i("k", k).i("m", m).a("bits", ints{u & 0xFFFF, u >> 16}).b("back", f2 == f && d == static_cast<double>(f));
    }
}

void run()
{
    auto g = rng{23};
    bits<std::uint8_t>(g, "u8");
    bits<std::uint16_t>(g, "u16");
    bits<std::uint32_t>(g, "u32");
    bits<std::uint64_t>(g, "u64");
    bits<unsigned long long>(g, "ull");
    pow_rt<int>("int");
    pow_rt<unsigned>("uint");
    pow_rt<long>("long");
    pow_rt<std::uint64_t>("u64");
    pow_rt<short>("short");
    pow_rt<std::uint8_t>("u8");
    pow_rt<std::int8_t>("i8");
    pow_ct<int>("int");
    pow_ct<unsigned>("uint");
    pow_ct<long>("long");
    pow_ct<std::uint64_t>("u64");
    pow_ct<short>("short");
    pow_ct<std::uint16_t>("u16");
    pow_ct<std::uint8_t>("u8");
    pow_ct<std::int8_t>("i8");
    divs<int>(g, "int");
    divs<unsigned>(g, "uint");
    divs<long>(g, "long");
    divs<std::uint64_t>(g, "u64");
    divs<short>(g, "short");
    divs<std::uint8_t>(g, "u8");
    divs<std::int8_t>(g, "i8");
    parity<int>(g, "int");
    parity<unsigned>(g, "uint");
    parity<long>(g, "long");
    parity<std::uint64_t>(g, "u64");
    parity<short>(g, "short");
    parity<std::uint8_t>(g, "u8");
    parity<std::int8_t>(g, "i8");
    casts(g);
}

}  // namespace vh

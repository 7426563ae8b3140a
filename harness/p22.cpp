// P22: floating-point SIMD batches
#include "common.hpp"

#include <neo/config.hpp>

#include <neo/complex/scalar_complex.hpp>
#include <neo/simd.hpp>

#include <bit>
#include <limits>

namespace vh {

template<typename T>
auto conv(std::vector<T> const& v, std::size_t off, std::size_t n, long double s = 1) -> ints
{
    auto out = ints{};
    for (std::size_t i = 0; i < n; ++i) { out.push_back(ri(static_cast<long double>(v[off + i]), s)); }
    return out;
}

template<typename Batch>
void op(char const* k, int p, ints const& a, ints const& b, std::size_t off, int e)
{
    using T          = typename Batch::value_type;
    constexpr auto N = Batch::size;
    auto const s     = std::ldexp(1.0L, e);
    auto x           = std::vector<T>(N + off + 20, T(77));
    auto y           = std::vector<T>(N + off + 20, T(77));
    auto z           = std::vector<T>(N + off + 20, T(77));
    for (std::size_t i = 0; i < N; ++i) {
        x[off + i] = static_cast<T>(static_cast<long double>(a[i]) * s);
        y[off + i] = static_cast<T>(static_cast<long double>(b[i]) * s);
    }
    auto const x0 = x;
    auto const y0 = y;
    auto const l  = Batch::load_unaligned(x.data() + off);
    auto const r  = Batch::load_unaligned(y.data() + off);
    auto inv      = 1 / s;
    if (k[0] == 'a') {
        (l + r).store_unaligned(z.data() + off);
    } else if (k[0] == 's') {
        (l - r).store_unaligned(z.data() + off);
    } else {
        (l * r).store_unaligned(z.data() + off);
        inv = inv / s;
    }
    bool guards = true;
    for (std::size_t i = 0; i < z.size(); ++i) {
        if (i < off || i >= off + N) { guards = guards && z[i] == T(77); }
    }
    bool inputs = true;
    for (std::size_t i = 0; i < x.size(); ++i) { inputs = inputs && x[i] == x0[i] && y[i] == y0[i]; }
    long long d = 0;
    for (std::size_t i = 0; i < N; ++i) { d = std::max(d, dev(static_cast<long double>(z[off + i]), inv)); }
    ev("vec").s("k", k).i("p", p).i("lanes", N).i("e", e).a("a", a).a("b", b).a("r", conv(z, off, N, inv)).i("dev", d).b("guard", guards).b("inputs", inputs);
}

template<typename Batch>
void batch(rng& g, int p, long long addmax, long long mulmax, int elo, int ehi)
{
    using T          = typename Batch::value_type;
    constexpr auto N = Batch::size;
    auto pick        = [&](long long m) { return g.flag(15) ? (g.flag(50) ? m : -m) : g.in(-m, m) >> g.in(0, 8); };
    for (int i = 0; i < (g_thorough ? 1500 : 150); ++i) {
        for (auto const* k : {"add", "sub", "mul"}) {
            auto const m = k[0] == 'm' ? mulmax : addmax;
            auto a       = ints{};
            auto b       = ints{};
            for (std::size_t j = 0; j < N; ++j) {
                a.push_back(pick(m));
                b.push_back(pick(m));
            }
            op<Batch>(k, p, a, b, static_cast<std::size_t>(g.in(0, 9)), static_cast<int>(g.in(elo, ehi)));
        }
    }
    // distinct value in every lane, one special lane at a time
    for (std::size_t lane = 0; lane < N; ++lane) {
        for (auto const* k : {"add", "sub", "mul"}) {
            auto a = ints{};
            auto b = ints{};
            for (std::size_t j = 0; j < N; ++j) {
                a.push_back(static_cast<long long>(j) + 2);
                b.push_back(static_cast<long long>(3 * j) + 1);
            }
            a[lane] = -a[lane] - 20;
            op<Batch>(k, p, a, b, 1, 0);
        }
    }
    for (long long x : {0LL, 1LL, -1LL, 5LL, -1000LL, 2047LL}) {
        auto z = std::vector<T>(N, T(77));
        Batch::broadcast(static_cast<T>(x)).store_unaligned(z.data());
        ev("splat").i("lanes", N).i("size", Batch::size).i("align", Batch::alignment).i("bytes", sizeof(Batch)).i("x", x).a("r", conv(z, 0, N));
    }
    for (std::size_t off = 0; off < 9; ++off) {
        auto a = ints{};
        auto x = std::vector<T>(N + 20, T(77));
        auto z = std::vector<T>(N + 20, T(77));
        auto y = std::vector<T>(N + 20, T(77));
        for (std::size_t j = 0; j < N; ++j) {
            a.push_back(g.in(-2000, 2000));
            x[off + j] = static_cast<T>(a[j]);
        }
        Batch::load_unaligned(x.data() + off).store_unaligned(z.data() + off);
        auto const reg = static_cast<typename Batch::register_type>(Batch::load_unaligned(x.data() + off));
        Batch{reg}.store_unaligned(y.data() + off);
        bool guards = true;
        for (std::size_t i = 0; i < z.size(); ++i) {
            if (i < off || i >= off + N) { guards = guards && z[i] == T(77) && y[i] == T(77); }
        }
        ev("move").i("lanes", N).a("a", a).a("r", conv(z, off, N)).b("guard", guards);
        ev("move").i("lanes", N).a("a", a).a("r", conv(y, off, N)).b("guard", guards);
    }
}

/// any bit patterns: moving keeps them, arithmetic gives the bits of the scalar operation (a NaN is a NaN)
template<typename Batch>
void bits(rng& g, int p)
{
    using T          = typename Batch::value_type;
    using U          = std::conditional_t<sizeof(T) == 2, std::uint16_t, std::conditional_t<sizeof(T) == 4, std::uint32_t, std::uint64_t>>;
    constexpr auto N = Batch::size;
    auto put         = [](ints& o, T v, bool fold) {
        auto u = std::bit_cast<U>(v);
        if (fold && v != v) {
            o.push_back(-1);
            return;
        }
        for (std::size_t i = 0; i < sizeof(T); i += 2) {
            o.push_back(static_cast<long long>(u & U(0xFFFF)));
            u = static_cast<U>(static_cast<std::uint64_t>(u) >> 16U);
        }
    };
    auto const big  = sizeof(T) == 2 ? 60000.0 : sizeof(T) == 4 ? 3.0e38 : 1.5e308;
    auto const tiny = sizeof(T) == 2 ? 7e-7 : sizeof(T) == 4 ? 3e-42 : 4e-320;
    auto const inf  = std::numeric_limits<double>::infinity();
    auto const pool = std::array<T, 14>{T(0), T(-0.0), T(inf), T(-inf), T(std::numeric_limits<double>::quiet_NaN()), T(big), T(-big), T(tiny), T(-tiny), T(1), T(-1), T(0.1), T(1.0 / 3.0), T(-2.7182818284590452)};
    auto pick       = [&]() -> T {
        if (g.flag(50)) { return pool[static_cast<std::size_t>(g.in(0, 13))]; }
        auto const u = std::bit_cast<T>(static_cast<U>((static_cast<std::uint64_t>(g.in(0, 0xFFFFFFFF)) << 32U) | static_cast<std::uint64_t>(g.in(0, 0xFFFFFFFF))));
        return u != u ? T(0.7) : u;
    };
    for (int i = 0; i < (g_thorough ? 2000 : 200); ++i) {
        auto const off = static_cast<std::size_t>(g.in(0, 9));
        auto x = std::vector<T>(N + off + 20, T(77));
        auto y = x;
        for (std::size_t j = 0; j < N; ++j) {
            x[off + j] = pick();
            y[off + j] = pick();
        }
        auto const l = Batch::load_unaligned(x.data() + off);
        auto const r = Batch::load_unaligned(y.data() + off);
        auto record  = [&](char const* k, Batch b, auto f, bool fold) {
            auto z = std::vector<T>(N + off + 20, T(77));
            b.store_unaligned(z.data() + off);
            auto got  = ints{};
            auto want = ints{};
            auto ok   = true;
            for (std::size_t j = 0; j < z.size(); ++j) {
                if (j < off || j >= off + N) {
                    ok = ok && z[j] == T(77);
                } else {
                    put(got, z[j], fold);
                    put(want, f(j), fold);
                }
            }
            ev("bits").s("k", k).i("p", p).i("lanes", N).a("r", got).a("want", want).b("guard", ok);
        };
        switch (i % 5) {
            case 0: record("add", l + r, [&](std::size_t j) -> T { return static_cast<T>(x[j] + y[j]); }, true); break;
            case 1: record("sub", l - r, [&](std::size_t j) -> T { return static_cast<T>(x[j] - y[j]); }, true); break;
            case 2: record("mul", l * r, [&](std::size_t j) -> T { return static_cast<T>(x[j] * y[j]); }, true); break;
            case 3: record("move", l, [&](std::size_t j) -> T { return x[j]; }, false); break;
            default: record("splat", Batch::broadcast(x[off]), [&](std::size_t) -> T { return x[off]; }, false); break;
        }
    }
}

/// complex numbers whose parts are batches
template<typename Batch>
void complex_batch(rng& g, int p)
{
    using T          = typename Batch::value_type;
    using Z          = neo::scalar_complex<Batch>;
    constexpr auto N = Batch::size;
    for (int i = 0; i < 60; ++i) {
        auto part = std::array<std::vector<T>, 4>{};
        auto q    = std::array<ints, 4>{};
        for (std::size_t c = 0; c < 4; ++c) {
            for (std::size_t j = 0; j < N; ++j) {
                q[c].push_back(g.in(-30, 30));
                part[c].push_back(static_cast<T>(q[c].back()));
            }
        }
        auto at       = [&](std::size_t c) { return Batch::load_unaligned(part[c].data()); };
        auto const a  = Z{at(0), at(1)};
        auto const b  = Z{at(2), at(3)};
        auto const* k = i % 3 == 0 ? "add" : i % 3 == 1 ? "sub" : "mul";
        auto const z  = i % 3 == 0 ? a + b : i % 3 == 1 ? a - b : a * b;
        auto re       = std::vector<T>(N);
        auto im       = std::vector<T>(N);
        z.real().store_unaligned(re.data());
        z.imag().store_unaligned(im.data());
        ev("cvec").s("k", k).i("p", p).i("lanes", N).a("ar", q[0]).a("ai", q[1]).a("br", q[2]).a("bi", q[3]).a("re", conv(re, 0, N)).a("im", conv(im, 0, N));
    }
}

template<typename Batch>
void more(rng& g, int p)
{
    bits<Batch>(g, p);
    complex_batch<Batch>(g, p);
}

void run()
{
    auto g = rng{22};
    constexpr long long A = 1LL << 29;
    constexpr long long M = (1LL << 15) - 1;
    // float operands have at most 24 significant bits; the sum may need rounding
    auto const a32 = (1LL << 24) - 1;
    batch<neo::float32x4>(g, 24, a32, M, -40, 40);
    batch<neo::float64x2>(g, 53, A, M, -40, 40);
    more<neo::float32x4>(g, 24);
    more<neo::float64x2>(g, 53);
    long long f32 = 4;
    long long f64 = 2;
#if defined(NEO_HAS_ISA_AVX)
    batch<neo::float32x8>(g, 24, a32, M, -40, 40);
    batch<neo::float64x4>(g, 53, A, M, -40, 40);
    more<neo::float32x8>(g, 24);
    more<neo::float64x4>(g, 53);
    f32 = 8;
    f64 = 4;
#endif
#if defined(NEO_HAS_ISA_AVX512F)
    batch<neo::float32x16>(g, 24, a32, M, -40, 40);
    batch<neo::float64x8>(g, 53, A, M, -40, 40);
    more<neo::float32x16>(g, 24);
    more<neo::float64x8>(g, 53);
    f32 = 16;
    f64 = 8;
#endif
#if defined(NEO_HAS_BUILTIN_FLOAT16) and defined(NEO_HAS_ISA_F16C)
    batch<neo::float16x8>(g, 11, 2047, 255, -3, 0);
    batch<neo::float16x16>(g, 11, 2047, 255, -3, 0);
    more<neo::float16x8>(g, 11);
    more<neo::float16x16>(g, 11);
#endif
    ev("native").i("f32", neo::float32x::size).i("f32max", f32).i("f64", neo::float64x::size).i("f64max", f64);
}

}  // namespace vh

// P19: fixed-point spans and SIMD batches
#include "fx_common.hpp"

#include <neo/config.hpp>

#include <neo/fixed_point/algorithm.hpp>
#include <neo/fixed_point/simd.hpp>

namespace vh {

template<typename Fx>
auto words(std::vector<Fx> const& v, std::size_t off, std::size_t n) -> ints
{
    auto out = ints{};
    for (std::size_t i = 0; i < n; ++i) { out.push_back(v[off + i].value()); }
    return out;
}

enum class alias
{
    none,
    lhs,
    rhs,
    both
};

/// one span operation; buffers have guard words before and after the span
template<typename Fx>
void span_op(char const* k, ints const& a, ints b, std::size_t off, alias al)
{
    auto const n = a.size();
    if (al == alias::both) { b = a; }
    constexpr std::size_t G = 40;
    auto const guard        = mk<Fx>(77);
    auto x                  = std::vector<Fx>(n + off + G, guard);
    auto y                  = std::vector<Fx>(n + off + G, guard);
    auto z                  = std::vector<Fx>(n + off + G, guard);
    for (std::size_t i = 0; i < n; ++i) {
        x[off + i] = mk<Fx>(a[i]);
        y[off + i] = mk<Fx>(b[i]);
        z[off + i] = mk<Fx>(55);
    }
    auto& dst = al == alias::none ? z : (al == alias::rhs ? y : x);
    auto& src2 = al == alias::both ? x : y;
    auto sx   = std::span<Fx const>(x.data() + off, n);
    auto sy   = std::span<Fx const>(src2.data() + off, n);
    auto so   = std::span<Fx>(dst.data() + off, n);
    if (k[0] == 'a') {
        neo::add(sx, sy, so);
    } else if (k[0] == 's') {
        neo::subtract(sx, sy, so);
    } else {
        neo::multiply(sx, sy, so);
    }
    bool guards = true;
    for (auto const* buf : {&x, &y, &z}) {
        for (std::size_t i = 0; i < buf->size(); ++i) {
            if (i < off || i >= off + n) { guards = guards && (*buf)[i].value() == 77; }
        }
    }
    bool inputs = true;
    for (std::size_t i = 0; i < n; ++i) {
        if (&dst != &x) { inputs = inputs && x[off + i].value() == a[i]; }
        if (&dst != &y) { inputs = inputs && y[off + i].value() == b[i]; }
    }
    ev("vec")
        .s("k", k)
        .s("kind", "span")
        .i("w", width_v<Fx>)
        .i("f", Fx::fractional_bits)
        .i("alias", static_cast<int>(al))
        .i("off", static_cast<long long>(off))
        .a("a", a)
        .a("b", b)
        .a("r", words(dst, off, n))
        .b("guard", guards)
        .b("inputs", inputs);
}

template<typename Fx, std::size_t N>
void static_span(char const* k, rng& g)
{
    constexpr int w = width_v<Fx>;
    auto x          = std::array<Fx, N>{};
    auto y          = std::array<Fx, N>{};
    auto z          = std::array<Fx, N>{};
    auto a          = ints{};
    auto b          = ints{};
    for (std::size_t i = 0; i < N; ++i) {
        a.push_back(g.in(-(1LL << (w - 1)), (1LL << (w - 1)) - 1));
        b.push_back(g.in(-(1LL << (w - 1)), (1LL << (w - 1)) - 1));
        x[i] = mk<Fx>(a[i]);
        y[i] = mk<Fx>(b[i]);
    }
    auto sx = std::span<Fx const, N>(x);
    auto sy = std::span<Fx const, N>(y);
    auto so = std::span<Fx, N>(z);
    if (k[0] == 'a') {
        neo::add(sx, sy, so);
    } else if (k[0] == 's') {
        neo::subtract(sx, sy, so);
    } else {
        neo::multiply(sx, sy, so);
    }
    auto r = ints{};
    for (auto v : z) { r.push_back(v.value()); }
    ev("vec").s("k", k).s("kind", "static").i("w", w).i("f", Fx::fractional_bits).a("a", a).a("b", b).a("r", r).b("guard", true).b("inputs", true);
}

template<typename Fx>
auto pick(rng& g, ints const& bnd) -> long long
{
    constexpr int w = width_v<Fx>;
    return g.flag(40) ? bnd[static_cast<std::size_t>(g.in(0, static_cast<long long>(bnd.size()) - 1))]
                      : g.in(-(1LL << (w - 1)), (1LL << (w - 1)) - 1) >> g.in(0, w - 2);
}

template<typename Fx>
void spans(rng& g, std::size_t maxlen)
{
    auto const bnd = boundary(width_v<Fx>);
    for (std::size_t n = 0; n <= maxlen; ++n) {
        for (auto const* k : {"add", "sub", "mul"}) {
            auto a = ints{};
            auto b = ints{};
            for (std::size_t i = 0; i < n; ++i) {
                a.push_back(pick<Fx>(g, bnd));
                b.push_back(pick<Fx>(g, bnd));
            }
            span_op<Fx>(k, a, b, static_cast<std::size_t>(g.in(1, 35)), alias::none);
            span_op<Fx>(k, a, b, static_cast<std::size_t>(g.in(1, 35)), static_cast<alias>(1 + n % 3));
        }
    }
    // boundary x boundary at every lane: rotate the operands through the positions
    auto const m = bnd.size();
    for (std::size_t rot = 0; rot < m; rot += (g_thorough ? 1 : 3)) {
        auto b = bnd;
        std::rotate(b.begin(), b.begin() + static_cast<long>(rot), b.end());
        for (auto const* k : {"add", "sub", "mul"}) { span_op<Fx>(k, bnd, b, 1 + rot % 5, alias::none); }
    }
    static_span<Fx, 1>("add", g);
    static_span<Fx, 17>("sub", g);
    static_span<Fx, 33>("mul", g);
    static_span<Fx, 48>("add", g);
    static_span<Fx, 64>("mul", g);
}

template<typename Fx>
void long_spans(rng& g)
{
    auto const bnd = boundary(width_v<Fx>);
    for (std::size_t n : {1000, 2047, 2100, 4099, 33000, 70001}) {
        for (auto const* k : {"add", "sub", "mul"}) {
            auto a = ints{};
            auto b = ints{};
            for (std::size_t i = 0; i < n; ++i) {
                a.push_back(pick<Fx>(g, bnd));
                b.push_back(pick<Fx>(g, bnd));
            }
            span_op<Fx>(k, a, b, static_cast<std::size_t>(g.in(1, 35)), static_cast<alias>(g.in(0, 3)));
        }
    }
}

/// 32 bit words, values far from the limits of the type: as a 24 bit format would
template<int Bits>
void wide(rng& g)
{
    using Fx = neo::fixed_point<std::int32_t, Bits>;
    for (std::size_t n : {0, 1, 7, 33, 50, 2100}) {
        for (auto const* k : {"add", "sub", "mul"}) {
            auto a = ints{};
            auto b = ints{};
            auto x = std::vector<Fx>(n);
            auto y = std::vector<Fx>(n);
            auto z = std::vector<Fx>(n, mk<Fx>(55));
            for (std::size_t i = 0; i < n; ++i) {
                a.push_back(g.in(-30000, 30000));
                b.push_back(g.in(-30000, 30000));
                x[i] = mk<Fx>(a[i]);
                y[i] = mk<Fx>(b[i]);
            }
            auto sx = std::span<Fx const>(x.data(), n);
            auto sy = std::span<Fx const>(y.data(), n);
            auto so = std::span<Fx>(z.data(), n);
            if (k[0] == 'a') {
                neo::add(sx, sy, so);
            } else if (k[0] == 's') {
                neo::subtract(sx, sy, so);
            } else {
                neo::multiply(sx, sy, so);
            }
            auto inputs = true;
            for (std::size_t i = 0; i < n; ++i) { inputs = inputs && x[i].value() == a[i] && y[i].value() == b[i]; }
            ev("vec").s("k", k).s("kind", "span").i("w", 24).i("f", Bits).a("a", a).a("b", b).a("r", words(z, 0, n)).b("guard", true).b("inputs", inputs);
        }
    }
}

/// batch arithmetic: load, op, store
template<typename Batch>
concept can_mul = requires(Batch a, Batch b) { a * b; };

template<typename Batch>
void batch_op(char const* k, ints const& a, ints const& b, std::size_t off)
{
    using Fx         = typename Batch::value_type;
    constexpr auto N = Batch::size;
    auto const guard = mk<Fx>(77);
    auto x           = std::vector<Fx>(N + off + 70, guard);
    auto y           = std::vector<Fx>(N + off + 70, guard);
    auto z           = std::vector<Fx>(N + off + 70, guard);
    for (std::size_t i = 0; i < N; ++i) {
        x[off + i] = mk<Fx>(a[i]);
        y[off + i] = mk<Fx>(b[i]);
    }
    auto const l = Batch::load_unaligned(x.data() + off);
    auto const r = Batch::load_unaligned(y.data() + off);
    if (k[0] == 'a') {
        (l + r).store_unaligned(z.data() + off);
    } else if (k[0] == 's') {
        (l - r).store_unaligned(z.data() + off);
    } else {
        if constexpr (can_mul<Batch>) {
            (l * r).store_unaligned(z.data() + off);
        } else {
            return;
        }
    }
    bool guards = true;
    for (std::size_t i = 0; i < z.size(); ++i) {
        if (i < off || i >= off + N) { guards = guards && z[i].value() == 77; }
    }
    bool inputs = true;
    for (std::size_t i = 0; i < N; ++i) { inputs = inputs && x[off + i].value() == a[i] && y[off + i].value() == b[i]; }
    ev("vec")
        .s("k", k)
        .s("kind", "batch")
        .i("w", width_v<Fx>)
        .i("f", Fx::fractional_bits)
        .i("lanes", N)
        .a("a", a)
        .a("b", b)
        .a("r", words(z, off, N))
        .b("guard", guards)
        .b("inputs", inputs);
}

template<typename Batch>
void batches(rng& g)
{
    using Fx         = typename Batch::value_type;
    constexpr int w  = width_v<Fx>;
    constexpr auto N = Batch::size;
    static_assert(Batch::alignment == sizeof(Batch));
    auto const bnd = boundary(w);
    auto emit      = [&](ints const& a, ints const& b) {
        for (auto const* k : {"add", "sub", "mul"}) { batch_op<Batch>(k, a, b, static_cast<std::size_t>(g.in(0, 9))); }
    };
    if constexpr (w == 8) {
        // every pair of words, moving through the lanes
        for (long long d = 0; d < 256; d += (g_thorough ? 1 : 4)) {
            for (long long base = 0; base < 256; base += static_cast<long long>(N)) {
                auto a = ints{};
                auto b = ints{};
                for (std::size_t i = 0; i < N; ++i) {
                    auto const p = (base + static_cast<long long>(i) + d / 4) % 256;
                    a.push_back(p - 128);
                    b.push_back((p + d) % 256 - 128);
                }
                emit(a, b);
            }
        }
    }
    // boundary pairs through all lanes
    auto const m = static_cast<long long>(bnd.size());
    auto pairs   = std::vector<std::pair<long long, long long>>{};
    for (auto x : bnd) {
        for (auto y : bnd) { pairs.emplace_back(x, y); }
    }
    while (pairs.size() % N != 0) { pairs.emplace_back(bnd[0], bnd[0]); }
    for (std::size_t i = 0; i < pairs.size(); i += N) {
        auto a = ints{};
        auto b = ints{};
        for (std::size_t j = 0; j < N; ++j) {
            a.push_back(pairs[i + j].first);
            b.push_back(pairs[i + j].second);
        }
        emit(a, b);
    }
    // one extreme lane at a time
    for (std::size_t lane = 0; lane < N; ++lane) {
        auto a  = ints(N, 1);
        auto b  = ints(N, 2);
        a[lane] = bnd[0];
        b[lane] = bnd[0];
        emit(a, b);
        b[lane] = bnd[static_cast<std::size_t>(m - 1)];
        emit(a, b);
        a[lane] = bnd[static_cast<std::size_t>(m - 1)];
        emit(a, b);
    }
    for (int i = 0; i < (g_thorough ? 2000 : 150); ++i) {
        auto a = ints{};
        auto b = ints{};
        for (std::size_t j = 0; j < N; ++j) {
            a.push_back(pick<Fx>(g, bnd));
            b.push_back(pick<Fx>(g, bnd));
        }
        emit(a, b);
    }
    for (auto x : bnd) {
        auto z = std::vector<Fx>(N, mk<Fx>(77));
        Batch::broadcast(mk<Fx>(x)).store_unaligned(z.data());
        ev("splat").i("w", w).i("lanes", N).i("size", Batch::size).i("x", x).a("r", words(z, 0, N));
    }
    for (std::size_t off = 0; off < 9; ++off) {
        auto a = ints{};
        auto x = std::vector<Fx>(N + 20, mk<Fx>(77));
        auto z = std::vector<Fx>(N + 20, mk<Fx>(77));
        for (std::size_t j = 0; j < N; ++j) {
            a.push_back(pick<Fx>(g, bnd));
            x[off + j] = mk<Fx>(a[j]);
        }
        Batch::load_unaligned(x.data() + off).store_unaligned(z.data() + off);
        bool guards = true;
        for (std::size_t i = 0; i < z.size(); ++i) {
            if (i < off || i >= off + N) { guards = guards && z[i].value() == 77; }
        }
        ev("move").i("lanes", N).a("a", a).a("r", words(z, off, N)).b("guard", guards);
        auto reg = static_cast<typename Batch::register_type>(Batch::load_unaligned(x.data() + off));
        auto y   = std::vector<Fx>(N + 20, mk<Fx>(77));
        Batch{reg}.store_unaligned(y.data() + 3);
        ev("move").i("lanes", N).a("a", a).a("r", words(y, 3, N)).b("guard", guards);
    }
}

void run()
{
    auto g = rng{19};
#if defined(NEO_HAS_ISA_SSE2)
    batches<neo::q7x16>(g);
    batches<neo::q15x8>(g);
#endif
#if defined(NEO_HAS_ISA_AVX2)
    batches<neo::q7x32>(g);
    batches<neo::q15x16>(g);
#endif
#if defined(NEO_HAS_ISA_AVX512BW)
    batches<neo::q7x64>(g);
    batches<neo::q15x32>(g);
#endif
    wide<8>(g);
    wide<12>(g);
    long_spans<neo::q7>(g);
    long_spans<neo::q15>(g);
    long_spans<neo::fixed_point<std::int16_t, 7>>(g);
    spans<neo::q7>(g, 70);
    spans<neo::q15>(g, 70);
    for_formats<std::int8_t, 0, 6>([&]<typename Fx>() { spans<Fx>(g, g_thorough ? 70 : 34); });
    for_formats<std::int16_t, 0, 14>([&]<typename Fx>() { spans<Fx>(g, g_thorough ? 70 : (Fx::fractional_bits >= 11 ? 26 : 18)); });
}

}  // namespace vh

// Streaming convolvers stepped through histories generated from GenStream.tla
#pragma once
#include "la_common.hpp"

#include <neo/convolution/uniform_partition.hpp>

namespace vh {

inline auto near_int(long double v, long double tol) -> long long
{
    if (!std::isfinite(v) || std::fabs(v - std::nearbyint(v)) > tol || std::fabs(v) > 2e9L) { return NANV; }
    return std::llround(v);
}

/// integer sequences of several kinds: dense, sparse, one impulse, last sample only, constant
inline auto sequence(rng& g, std::size_t n, long long kind, long long m) -> ints
{
    auto out = ints(n, 0);
    if (n == 0) { return out; }
    auto nz  = [&] { auto const v = g.in(1, m); return g.flag(50) ? v : -v; };
    switch (kind) {
        case 0: for (auto& v : out) { v = g.in(-m, m); } break;
        case 1: for (auto& v : out) { v = g.flag(20) ? g.in(-m, m) : 0; } break;
        case 2: out[static_cast<std::size_t>(g.in(0, static_cast<long long>(n) - 1))] = nz(); break;
        case 3: out[n - 1] = nz(); out[0] = nz(); break;
        case 5: break;
        default: for (auto& v : out) { v = m; } break;
    }
    return out;
}

/// a response of the same shape that has much in common with h: the same again, another last tap,
/// two taps of one segment exchanged (the sum of every segment is the same), reversed segments
inline auto vary(rng& g, ints h, std::size_t block) -> ints
{
    auto const n = static_cast<long long>(h.size());
    switch (g.in(0, 4)) {
        case 0: break;
        case 1: h.back() = h.back() == 3 ? -2 : 3; break;
        case 2:
        case 3: {
            auto const i = static_cast<std::size_t>(g.in(0, n - 1));
            auto const s = i / block * block;
            auto const e = std::min(h.size(), s + block);
            auto const j = s + static_cast<std::size_t>(g.in(0, static_cast<long long>(e - s) - 1));
            std::swap(h[i], h[j]);
            break;
        }
        default:
            for (std::size_t s = 0; s < h.size(); s += block) { std::reverse(h.begin() + static_cast<long>(s), h.begin() + static_cast<long>(std::min(h.size(), s + block))); }
            break;
    }
    return h;
}

template<typename F>
constexpr auto stream_tol() -> long double
{
    return std::same_as<F, float> ? 0.2L : 1e-6L;
}

/// the partitions of an impulse response, by the library: [frames x bins]
template<typename F>
auto partitions(ints const& h, std::size_t block, int k)
{
    auto ir = object<F>{1, h.size(), 'R', 2};
    for (std::size_t i = 0; i < h.size(); ++i) { ir.buf[ir.idx(0, i)] = std::ldexp(static_cast<F>(h[i]), k); }
    return neo::convolution::uniform_partition(ir.template mat<R>(), block);
}

/// the same, computed here (independent of the library's transforms)
template<typename C>
auto own_partitions(ints const& h, std::size_t block, int scale) -> stdex::mdarray<C, stdex::dextents<std::size_t, 3>>
{
    using F       = typename C::value_type;
    auto const fr = (h.size() + block - 1) / block;
    auto out      = stdex::mdarray<C, stdex::dextents<std::size_t, 3>>{1, fr, block + 1};
    for (std::size_t f = 0; f < fr; ++f) {
        for (std::size_t k = 0; k <= block; ++k) {
            auto sum = std::complex<long double>{};
            for (std::size_t i = 0; i < block && f * block + i < h.size(); ++i) {
                auto const a = -2.0L * std::numbers::pi_v<long double> * static_cast<long double>((i * k) % (2 * block)) / static_cast<long double>(2 * block);
                sum += static_cast<long double>(h[f * block + i]) * std::complex<long double>{std::cos(a), std::sin(a)};
            }
            out(0, f, k) = C{static_cast<F>(std::ldexp(sum.real(), scale)), static_cast<F>(std::ldexp(sum.imag(), scale))};
        }
    }
    return out;
}

/// process x in place through conv, in a contiguous or strided view; record the step
template<typename F, typename Conv>
void block_event(Conv& conv, long long o, ints const& x, bool strided, char const* name, char const* t, int kx = 0, int kh = 0)
{
    auto buf = object<F>{1, x.size(), strided ? 'S' : 'R', 1};
    for (std::size_t i = 0; i < x.size(); ++i) { buf.buf[buf.idx(0, i)] = std::ldexp(static_cast<F>(x[i]), kx); }
    if (strided) {
        conv(buf.template vec<S>());
    } else {
        conv(buf.template vec<R>());
    }
    auto y = ints{};
    for (std::size_t i = 0; i < x.size(); ++i) { y.push_back(near_int(std::ldexp(static_cast<long double>(buf.buf[buf.idx(0, i)]), -kx - kh), stream_tol<F>())); }
    ev("block").s("conv", name).s("t", t).i("o", o).a("x", x).a("y", y).b("guard", buf.guard());
}

struct stream_options
{
    std::size_t block;
    bool chunked{false};
    std::size_t segments{1};  // multiplies the number of segments of every response
    std::size_t repeat{1};    // every processing step is done that often
};

/// one generated history on two objects of type Conv.  chunked: chunk sizes vary.
/// input and response are integers times a power of two: the convolution is linear
template<typename Conv, typename C, typename Load>
void stream(rng& g, ints const& hist, stream_options opt, char const* name, char const* t, Load load)
{
    using F          = typename C::value_type;
    auto const block = opt.block;
    ev("begin").s("conv", name).s("t", t).i("b", static_cast<long long>(block));
    auto objs   = std::array<Conv, 2>{};
    auto sizes  = std::array<std::size_t, 2>{block, block};
    auto scales = std::array<std::array<int, 2>, 2>{};
    auto loaded = std::array<bool, 2>{};
    auto last   = std::array<ints, 2>{};
    for (std::size_t i = 0; i + 3 < hist.size(); i += 4) {
        auto const o = static_cast<std::size_t>(hist[i + 1]);
        if (hist[i] == 1) {
            loaded[o] = true;
            // a new response may come with another block size
            auto b = block;
            if (i > 0 && block <= 64 && opt.segments == 1 && g.flag(40)) { b = g.flag(50) ? std::max<std::size_t>(block / 2, 2) : std::min<std::size_t>(block * 2, 64); }
            auto const again = !last[o].empty() && g.flag(35);
            if (again) { b = sizes[o]; }
            auto const len = (static_cast<std::size_t>(hist[i + 2]) * opt.segments - 1) * b + static_cast<std::size_t>(g.in(1, static_cast<long long>(b)));
            auto const h   = again ? vary(g, last[o], b) : sequence(g, len, b > 64 || opt.segments > 1 ? 2 + hist[i + 3] % 2 : hist[i + 3], 6);
            sizes[o]       = b;
            last[o]        = h;
            if (!again) { scales[o] = {0, 0}; }
            if (!again && g.flag(30)) { scales[o] = {static_cast<int>(g.in(-45, 20)), static_cast<int>(g.in(-20, 20))}; }
            if (g.flag(50)) {
                auto p = partitions<F>(h, b, scales[o][1]);
                load(objs[o], stdex::submdspan(p.to_mdspan(), 0, stdex::full_extent, stdex::full_extent));
            } else {
                auto p = own_partitions<C>(h, b, scales[o][1]);
                load(objs[o], stdex::submdspan(p.to_mdspan(), 0, stdex::full_extent, stdex::full_extent));
            }
            ev("filter").s("conv", name).s("t", t).i("o", static_cast<long long>(o)).i("b", static_cast<long long>(b)).a("h", h);
        } else if (hist[i] == 2) {
            if (!std::copyable<Conv> && !loaded[o]) { continue; }
            for (std::size_t rep = 0; rep < opt.repeat; ++rep) {
                auto n = sizes[o];
                if (opt.chunked) { n += n * static_cast<std::size_t>(hist[i + 2]) / 100U; }
                if (opt.chunked && g.flag(3)) { n *= 9; }
                auto const x = sequence(g, n, g.flag(12) ? 5 : hist[i + 3], 9);
                replant(g, objs[o], 6);
                block_event<F>(objs[o], static_cast<long long>(o), x, g.flag(30), name, t, scales[o][0], scales[o][1]);
            }
        } else if constexpr (std::copyable<Conv>) {  // some vendor plans cannot be copied
            if (g.flag(50)) {
                objs[o] = objs[1 - o];
            } else {
                auto tmp = objs[1 - o];
                objs[o]  = std::move(tmp);
            }
            sizes[o]  = sizes[1 - o];
            scales[o] = scales[1 - o];
            last[o]   = last[1 - o];
            ev("copy").s("conv", name).s("t", t).i("o", static_cast<long long>(o)).i("p", static_cast<long long>(1 - o));
        }
    }
}

/// which configuration history number i is played with
inline auto stream_config(rng& g, std::size_t i, bool chunked) -> stream_options
{
    auto const blocks = std::array<std::size_t, 5>{2, 4, 8, 16, 32};
    if (i >= 4 && i < 8) { return {128U, chunked}; }
    if (i >= 8 && i < 12) { return {2U, chunked, 13U, 10U}; }
    if (i >= 12 && i < 16) { return {i % 2 == 0 ? 512U : 1024U, chunked}; }
    if (i >= 16 && i < 20) { return {2U, chunked, 70U, 45U}; }
    return {blocks[static_cast<std::size_t>(g.in(0, 9)) * (i % 3 == 0 ? 5U : 3U) / 10U], chunked};
}

inline auto stream_scenarios() -> std::vector<ints>
{
    auto out = std::vector<ints>{};
    for (auto const& l : scenario_lines()) {
        auto v = parse_ints(l);
        if (!v.empty()) { out.push_back(v); }
    }
    return out;
}

}  // namespace vh

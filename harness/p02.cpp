// P02: convolvers with a sparsified filter
#include "stream_common.hpp"

#include <neo/convolution/dense_convolver.hpp>
#include <neo/convolution/sparse_convolver.hpp>

namespace vh {

namespace nc = neo::convolution;

inline auto keep(long long mask, std::size_t bin, std::size_t block) -> bool
{
    switch (mask) {
        case 0: return true;
        case 1: return false;
        case 2: return bin % 2 == 0;
        case 3: return bin % 2 == 1;
        case 4: return bin == 0;
        case 5: return bin == block;
        default: return bin % 4 == 0;
    }
}

template<typename Conv, typename C>
void history(rng& g, ints const& hist, std::size_t block, char const* scheme, char const* t)
{
    using F = typename C::value_type;
    ev("begin").s("conv", scheme).s("t", t);
    auto objs   = std::array<Conv, 2>{};
    auto blocks = std::array<std::size_t, 2>{block, block};
    auto scales = std::array<std::array<int, 2>, 2>{};
    auto loaded = std::array<bool, 2>{};
    auto last   = std::array<ints, 2>{};
    auto before = std::array<ints, 2>{};
    for (std::size_t i = 0; i + 3 < hist.size(); i += 4) {
        auto const o = static_cast<std::size_t>(hist[i + 1]);
        if (hist[i] == 1) {
            loaded[o] = true;
            auto b = block;
            if (i > 0 && g.flag(40)) { b = g.flag(50) ? std::max<std::size_t>(block / 2, 2) : std::min<std::size_t>(block * 2, 16); }
            auto const again = !last[o].empty() && g.flag(35);
            if (again) { b = blocks[o]; }
            auto segs       = static_cast<std::size_t>(hist[i + 2]);
            auto const len  = (segs - 1) * b + static_cast<std::size_t>(g.in(1, static_cast<long long>(b)));
            auto const h    = again ? vary(g, last[o], b) : sequence(g, len, hist[i + 3], 6);
            segs            = (h.size() + b - 1) / b;
            auto masks      = ints{};
            auto const same = g.flag(30);
            for (std::size_t k = 0; k < segs; ++k) { masks.push_back(same && k > 0 ? masks[0] : g.in(0, 6)); }
            if (again && g.flag(50)) { masks = before[o]; }
            last[o]   = h;
            before[o] = masks;
            if (!again) { scales[o] = {0, 0}; }
            if (!again && g.flag(30)) { scales[o] = {static_cast<int>(g.in(-45, 20)), static_cast<int>(g.in(-20, 20))}; }
            auto p = own_partitions<C>(h, b, scales[o][1]);
            auto ok    = true;
            blocks[o]  = b;
            objs[o].filter(stdex::submdspan(p.to_mdspan(), 0, stdex::full_extent, stdex::full_extent), [&ok, &p, masks, b](auto row, auto col, auto val) {
                auto const r = static_cast<std::size_t>(row);
                auto const c = static_cast<std::size_t>(col);
                ok           = ok && r < masks.size() && c <= b && p(0, r, c) == val;
                if (!ok) { return false; }
                return keep(masks[r], c, b);
            });
            ev("filter").s("scheme", scheme).s("t", t).i("o", static_cast<long long>(o)).i("b", static_cast<long long>(b)).a("h", h).a("masks", masks).b("asked", ok);
        } else if (hist[i] == 2) {
            if (!std::copyable<Conv> && !loaded[o]) { continue; }
            auto const b = blocks[o];
            auto const x = sequence(g, b, g.flag(12) ? 5 : hist[i + 3], 9);
            auto const [kx, kh] = scales[o];
            auto strided = g.flag(30);
            auto buf     = object<F>{1, b, strided ? 'S' : 'R', 1};
            for (std::size_t j = 0; j < b; ++j) { buf.buf[buf.idx(0, j)] = std::ldexp(static_cast<F>(x[j]), kx); }
            if (strided) {
                objs[o](buf.template vec<S>());
            } else {
                objs[o](buf.template vec<R>());
            }
            auto y = ints{};
            for (std::size_t j = 0; j < b; ++j) { y.push_back(near_int(std::ldexp(static_cast<long double>(buf.buf[buf.idx(0, j)]), -kx - kh) * static_cast<long double>(2 * b), std::same_as<F, float> ? 0.3L : 1e-5L)); }
            ev("block").s("conv", scheme).s("t", t).i("o", static_cast<long long>(o)).a("x", x).a("y", y).b("guard", buf.guard());
        } else if constexpr (std::copyable<std::remove_cvref_t<decltype(objs[o])>>) {
            objs[o]   = objs[1 - o];
            blocks[o] = blocks[1 - o];
            scales[o] = scales[1 - o];
            last[o]   = last[1 - o];
            before[o] = before[1 - o];
            ev("copy").s("t", t).i("o", static_cast<long long>(o)).i("p", static_cast<long long>(1 - o));
        }
    }
}

/// arbitrary predicates (thresholds, random patterns), bigger blocks
template<typename SparseC, typename DenseC, typename C>
void relate(rng& g, std::size_t b, std::size_t segs, int kind, char const* scheme, char const* t)
{
    using F    = typename C::value_type;
    auto const h = sequence(g, segs * b - static_cast<std::size_t>(g.in(0, static_cast<long long>(b) - 1)), 0, 6);
    auto const kx = kind == 0 ? static_cast<int>(g.in(-45, 20)) : 0;
    auto const kh = kind == 0 || kind == 3 ? static_cast<int>(g.in(-20, 20)) : 0;
    auto full  = own_partitions<C>(h, b, kh);
    auto zeros = full;
    auto pat   = std::vector<char>(segs * (b + 1));
    auto top   = 0.0L;
    for (std::size_t s = 0; s < segs; ++s) {
        for (std::size_t k = 0; k <= b; ++k) { top = std::max<long double>(top, std::abs(std::complex<long double>{full(0, s, k).real(), full(0, s, k).imag()})); }
    }
    for (std::size_t s = 0; s < segs; ++s) {
        for (std::size_t k = 0; k <= b; ++k) {
            auto const a = std::abs(std::complex<long double>{full(0, s, k).real(), full(0, s, k).imag()});
            auto p       = kind == 0 ? a > 0.3L * top : (kind == 1 ? g.flag(50) : (kind == 2 ? k < b / 3 : g.flag(8)));
            if (kind == 5) { p = k == b || (k == 0 && s % 3 == 1); }
            if (kind == 4) { p = k == static_cast<std::size_t>(s * 7 % (b + 1)); }
            pat[s * (b + 1) + k] = p ? 1 : 0;
            if (!p) { zeros(0, s, k) = C{}; }
        }
    }
    auto sp = SparseC{};
    auto de = DenseC{};
    sp.filter(stdex::submdspan(full.to_mdspan(), 0, stdex::full_extent, stdex::full_extent), [&](auto r, auto c, auto) { return pat[static_cast<std::size_t>(r) * (b + 1) + static_cast<std::size_t>(c)] != 0; });
    de.filter(stdex::submdspan(zeros.to_mdspan(), 0, stdex::full_extent, stdex::full_extent));
    ev("begin").s("conv", scheme).s("t", t);
    for (std::size_t n = 0; n < 2 * segs + 2; ++n) {
        auto const x = sequence(g, b, g.in(0, 4), 9);
        auto u       = object<F>{1, b, 'R', 1};
        auto v       = object<F>{1, b, 'R', 1};
        for (std::size_t j = 0; j < b; ++j) { u.buf[u.idx(0, j)] = v.buf[v.idx(0, j)] = std::ldexp(static_cast<F>(x[j]), kx); }
        sp(u.template vec<R>());
        de(v.template vec<R>());
        auto ys = ints{};
        auto yd = ints{};
        for (std::size_t j = 0; j < b; ++j) {
            ys.push_back(ri(std::ldexp(static_cast<long double>(u.buf[u.idx(0, j)]), -kx - kh), 100.0L));
            yd.push_back(ri(std::ldexp(static_cast<long double>(v.buf[v.idx(0, j)]), -kx - kh), 100.0L));
        }
        ev("relate").s("conv", scheme).s("t", t).a("sparse", ys).a("dense", yd).i("tol", std::same_as<F, float> ? 10 : 1);
    }
}

template<typename C>
void all(rng& g, std::vector<ints> const& hist, char const* t)
{
    auto const blocks = std::array<std::size_t, 4>{2, 4, 8, 16};
    for (std::size_t i = 0; i < hist.size(); ++i) {
        auto const b = blocks[static_cast<std::size_t>(g.in(0, i % 4 == 0 ? 3 : 2))];
        if (i % 2 == 0) {
            history<nc::sparse_upols_convolver<C>, C>(g, hist[i], b, "ols", t);
        } else {
            history<nc::sparse_upola_convolver<C>, C>(g, hist[i], b, "ola", t);
        }
    }
    relate<nc::sparse_upols_convolver<C>, nc::upols_convolver<C>, C>(g, 2, 300, 1, "ols", t);
    relate<nc::sparse_upola_convolver<C>, nc::upola_convolver<C>, C>(g, 4, 70, 1, "ola", t);
    relate<nc::sparse_upola_convolver<C>, nc::upola_convolver<C>, C>(g, 2, 300, 3, "ola", t);
    relate<nc::sparse_upols_convolver<C>, nc::upols_convolver<C>, C>(g, 1024, 3, 0, "ols", t);
    for (std::size_t b : {2, 4, 8, 16, 32, 64, 128}) {
        for (std::size_t segs : {1, 2, 3, 5}) {
            for (int kind = 0; kind < 6; ++kind) {
                relate<nc::sparse_upols_convolver<C>, nc::upols_convolver<C>, C>(g, b, segs, kind, "ols", t);
                relate<nc::sparse_upola_convolver<C>, nc::upola_convolver<C>, C>(g, b, segs, kind, "ola", t);
            }
        }
    }
}

void run()
{
    auto g          = rng{2};
    auto const hist = stream_scenarios();
    // in several threads at once
    auto one = [&]<typename C>(rng& r, int i, char const* t) {
        for (std::size_t b : {128, 64, 128}) {
            relate<nc::sparse_upols_convolver<C>, nc::upols_convolver<C>, C>(r, b, 4, 1, "ols", t);
            relate<nc::sparse_upola_convolver<C>, nc::upola_convolver<C>, C>(r, b, 4, 1, "ola", t);
        }
        history<nc::sparse_upols_convolver<C>, C>(r, hist[static_cast<std::size_t>(i)], 8, "ols", t);
        history<nc::sparse_upola_convolver<C>, C>(r, hist[static_cast<std::size_t>(i) + 1], 8, "ola", t);
    };
    crowd(g, 6, [&](rng& r, int i) {
        one.template operator()<std::complex<float>>(r, i, "c64");
        one.template operator()<std::complex<double>>(r, i, "c128");
    });
    all<std::complex<float>>(g, hist, "c64");
    all<std::complex<double>>(g, hist, "c128");
}

}  // namespace vh

// P20: fixed-point complex numbers and integer-compressed storage
#include "fx_common.hpp"

#include <neo/complex/scalar_complex.hpp>
#include <neo/container/compressed_accessor.hpp>
#include <neo/container/mdspan.hpp>
#include <neo/fixed_point/complex.hpp>

namespace vh {

using pairs = std::vector<ints>;

template<typename C>
auto cmk(ints const& p) -> C
{
    using Fx = typename C::value_type;
    return C{mk<Fx>(p[0]), mk<Fx>(p[1])};
}

template<typename C>
auto parts(C z) -> ints
{
    return ints{z.real().value(), z.imag().value()};
}

template<typename C>
void arith(pairs const& a, pairs const& b)
{
    constexpr int w = width_v<typename C::value_type>;
    auto add        = pairs{};
    auto sub        = pairs{};
    for (std::size_t i = 0; i < a.size(); ++i) {
        add.push_back(parts(cmk<C>(a[i]) + cmk<C>(b[i])));
        sub.push_back(parts(cmk<C>(a[i]) - cmk<C>(b[i])));
    }
    ev("carith").s("k", "add").i("w", w).m("a", a).m("b", b).m("r", add);
    ev("carith").s("k", "sub").i("w", w).m("a", a).m("b", b).m("r", sub);
    if constexpr (w == 16) {
        auto mul = pairs{};
        for (std::size_t i = 0; i < a.size(); ++i) { mul.push_back(parts(cmk<C>(a[i]) * cmk<C>(b[i]))); }
        ev("cmul").m("a", a).m("b", b).m("r", mul);
    }
}

template<typename C>
void complexes(rng& g)
{
    using Fx        = typename C::value_type;
    constexpr int w = width_v<Fx>;
    auto const bnd  = boundary(w);
    auto pick       = [&] {
        return g.flag(50) ? bnd[static_cast<std::size_t>(g.in(0, static_cast<long long>(bnd.size()) - 1))]
                          : g.in(-(1LL << (w - 1)), (1LL << (w - 1)) - 1);
    };
    auto rows = g_thorough ? 600 : 120;
    for (int i = 0; i < rows; ++i) {
        auto a    = pairs{};
        auto b    = pairs{};
        auto same = i % 3 == 0;  // equal imaginary parts: no deviation is tolerated there
        for (int j = 0; j < 32; ++j) {
            a.push_back({pick(), pick()});
            b.push_back({pick(), same ? a.back()[1] : pick()});
        }
        arith<C>(a, b);
    }
    for (auto x : bnd) {
        auto a = pairs{};
        auto b = pairs{};
        for (auto y : bnd) {
            a.push_back({x, y});
            b.push_back({y, y});
        }
        arith<C>(a, b);
    }
    for (int i = 0; i < 60; ++i) {
        auto const x = pick();
        auto const y = pick();
        auto const u = pick();
        auto const v = pick();
        auto z       = C{mk<Fx>(x), mk<Fx>(y)};
        auto got     = parts(z);
        auto want    = ints{x, y};
        auto app     = [&](C c, long long p, long long q) {
            auto const r = parts(c);
            got.insert(got.end(), r.begin(), r.end());
            want.push_back(p);
            want.push_back(q);
        };
        z.real(mk<Fx>(u));
        app(z, u, y);
        z.imag(mk<Fx>(v));
        app(z, u, v);
        app(C{mk<Fx>(x)}, x, 0);
        app(C{}, 0, 0);
        auto c = z;
        c.real(mk<Fx>(y));
        app(z, u, v);
        app(c, y, v);
        ev("cparts").i("w", w).a("got", got).a("want", want);
    }
}

template<typename Int, typename Float>
void compressed(rng& g, ints const& words, char const* t)
{
    auto const mx = static_cast<long double>(std::numeric_limits<Int>::max());
    auto const n  = words.size();
    {
        auto buf = std::vector<Int>(n);
        for (std::size_t i = 0; i < n; ++i) { buf[i] = static_cast<Int>(words[i]); }
        using raw_t = stdex::mdspan<Int, stdex::dextents<std::size_t, 1>>;
        auto raw    = raw_t{buf.data(), n};
        using acc_t = neo::compressed_accessor<Float, typename raw_t::accessor_type>;
        auto view   = stdex::mdspan<Float, stdex::dextents<std::size_t, 1>, stdex::layout_right, acc_t>{
            raw.data_handle(),
            raw.mapping(),
            acc_t{raw.accessor()},
        };
        auto r      = ints{};
        long long d = 0;
        for (std::size_t i = 0; i < n; ++i) {
            r.push_back(ri(view[i], mx));
            d = std::max(d, dev(view[i], mx));
        }
        ev("compressed").s("t", t).a("a", words).a("r", r).i("dev", d).i("tol", std::same_as<Float, float> ? 5000 : 1);
        // a sub-range of the view starts at the right word
        auto const from = static_cast<std::size_t>(g.in(0, static_cast<long long>(n) - 1));
        auto sub        = stdex::submdspan(view, std::tuple{from, n});
        auto r2         = ints{};
        auto a2         = ints{};
        for (std::size_t i = from; i < n; ++i) {
            r2.push_back(ri(sub[i - from], mx));
            a2.push_back(words[i]);
        }
        ev("compressed").s("t", t).a("a", a2).a("r", r2).i("dev", 0).i("tol", 1);
    }
    {
        using nested = neo::scalar_complex<Int>;
        using elem   = std::complex<Float>;
        auto buf     = std::vector<nested>(n);
        for (std::size_t i = 0; i < n; ++i) { buf[i] = nested{static_cast<Int>(words[i]), static_cast<Int>(words[n - 1 - i])}; }
        using raw_t = stdex::mdspan<nested, stdex::dextents<std::size_t, 1>>;
        auto raw    = raw_t{buf.data(), n};
        using acc_t = neo::compressed_accessor<elem, typename raw_t::accessor_type>;
        auto view   = stdex::mdspan<elem, stdex::dextents<std::size_t, 1>, stdex::layout_right, acc_t>{
            raw.data_handle(),
            raw.mapping(),
            acc_t{raw.accessor()},
        };
        auto r      = ints{};
        auto a      = ints{};
        long long d = 0;
        for (std::size_t i = 0; i < n; ++i) {
            auto const z = view[i];
            r.push_back(ri(z.real(), mx));
            r.push_back(ri(z.imag(), mx));
            a.push_back(words[i]);
            a.push_back(words[n - 1 - i]);
            d = std::max({d, dev(z.real(), mx), dev(z.imag(), mx)});
        }
        ev("compressed").s("t", t).a("a", a).a("r", r).i("dev", d).i("tol", std::same_as<Float, float> ? 5000 : 1);
    }
}

void run()
{
    auto g = rng{20};
    complexes<neo::complex_q15>(g);
    complexes<neo::complex_q7>(g);
    complexes<neo::fixed_point_complex<neo::fixed_point<std::int16_t, 12>>>(g);
    auto w8 = ints(256);
    std::iota(w8.begin(), w8.end(), -128);
    compressed<std::int8_t, float>(g, w8, "i8/float");
    compressed<std::int8_t, double>(g, w8, "i8/double");
    for (long long x = -32768; x <= 32767; x += 256) {
        auto w16 = ints(256);
        std::iota(w16.begin(), w16.end(), x);
        if (g_thorough || x % 1024 == 0 || x > 32000) {
            compressed<std::int16_t, float>(g, w16, "i16/float");
            compressed<std::int16_t, double>(g, w16, "i16/double");
        }
    }
    auto const bnd = boundary(16);
    compressed<std::int16_t, float>(g, bnd, "i16/float");
    compressed<std::int16_t, double>(g, bnd, "i16/double");
}

}  // namespace vh

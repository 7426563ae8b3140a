// P25: mel scale, bin frequencies, windows
#include "common.hpp"

#include <neo/container/mdspan.hpp>
#include <neo/fft/rfftfreq.hpp>
#include <neo/math/windowing.hpp>
#include <neo/unit/mel.hpp>

namespace vh {

template<typename T>
using vec_t = stdex::mdspan<T, stdex::dextents<std::size_t, 1>>;
template<typename T>
using svec_t = stdex::mdspan<T, stdex::dextents<std::size_t, 1>, stdex::layout_stride>;

template<typename T, typename Fn>
auto strided_or_not(std::size_t n, std::size_t stride, bool& guard, Fn fn) -> std::vector<T>
{
    auto buf = std::vector<T>(n * stride + 5, T(-12345));
    if (stride == 1) {
        fn(vec_t<T>{buf.data() + 2, n});
    } else {
        using map_t = typename svec_t<T>::mapping_type;
        fn(svec_t<T>{buf.data() + 2, map_t{stdex::dextents<std::size_t, 1>{n}, std::array<std::size_t, 1>{stride}}});
    }
    auto out = std::vector<T>{};
    guard    = true;
    for (std::size_t i = 0; i < buf.size(); ++i) {
        if (i >= 2 && (i - 2) % stride == 0 && (i - 2) / stride < n) {
            out.push_back(buf[i]);
        } else {
            guard = guard && buf[i] == T(-12345);
        }
    }
    return out;
}

template<typename T>
void mel(rng& g, char const* t)
{
    for (int i = 0; i < (g_thorough ? 60 : 12); ++i) {
        auto h = ints{};
        auto r = ints{};
        for (int j = 0; j < 40; ++j) {
            h.push_back(g.in(0, 1LL << g.in(1, 16)));
            r.push_back(ri(neo::hertz_to_mel(static_cast<T>(h.back())), 100));
        }
        ev("mel").s("t", t).a("h", h).a("r", r);
        for (auto x : h) {
            auto const y = neo::mel_to_hertz(neo::hertz_to_mel(static_cast<T>(x)));
            auto const e = std::fabs(static_cast<long double>(y) - static_cast<long double>(x));
            auto const lim = std::same_as<T, float> ? 2e-5L : 1e-10L;
            ev("melround").s("t", t).i("h", x).i("r", ri(y, 1)).i("dev", e > lim * static_cast<long double>(x + 700) ? 1 : 0);
        }
    }
    for (auto [j, h] : {std::pair{0, 0}, {1, 6300}, {2, 69300}}) {
        ev("melexact").s("t", t).i("j", j).i("h", h).i("mel", ri(std::round(neo::hertz_to_mel(static_cast<T>(h)) * 200) / 200.0L, 1000)).i("hz", ri(std::round(neo::mel_to_hertz(static_cast<T>(2595 * j)) * 20) / 20.0L, 1000));
        // the same to the last places of the type
        auto const rel = std::same_as<T, float> ? 1e6L : 1e12L;
        auto const e1  = (static_cast<long double>(neo::hertz_to_mel(static_cast<T>(h))) - 2595.0L * j) / 2595;
        auto const e2  = (static_cast<long double>(neo::mel_to_hertz(static_cast<T>(2595 * j))) - h) / (h + 700);
        ev("melfine").s("t", t).i("j", j).i("h", h).a("d", ints{ri(std::fabs(e1), rel), ri(std::fabs(e2), rel)});
    }
    ev("melexact").s("t", t).i("j", -1).i("h", -630).i("mel", ri(std::round(neo::hertz_to_mel(T(-630)) * 200) / 200.0L, 1000)).i("hz", ri(std::round(neo::mel_to_hertz(T(-2595)) * 200) / 200.0L, 1000));
    for (std::size_t n : {0, 1, 2, 3, 4, 5, 8, 13, 40, 128, 700, 2050}) {
        for (auto [lo, hi] : {std::pair{0, 20000}, {100, 8000}, {20, 11025}, {300, 300}, {4000, 100}, {0, 1000}}) {
            for (std::size_t st : {1, 3}) {
                bool guard = true;
                auto v     = strided_or_not<T>(n, st, guard, [&](auto out) { neo::mel_frequencies(out, static_cast<T>(lo), static_cast<T>(hi)); });
                auto r     = ints{};
                for (auto x : v) { r.push_back(ri(x, 100)); }
                ev("melfreqs").s("t", t).i("n", static_cast<long long>(n)).i("fmin", lo).i("fmax", hi).a("r", r).b("guard", guard);
            }
        }
    }
}

template<typename T>
void freqs(rng& g, char const* t)
{
    auto const tol = std::same_as<T, float> ? 20000 : 10;
    for (int i = 0; i < (g_thorough ? 300 : 60); ++i) {
        auto const size = i < 8 ? static_cast<long long>(1) << i : g.in(1, 1LL << g.in(1, 20));
        long long fs    = i % 3 == 0 ? 44100 : (i % 3 == 1 ? 48000 : g.in(1, 200));
        auto idx        = ints{};
        auto r          = ints{};
        auto d          = ints{};
        auto lim        = std::same_as<T, float> ? 60000 / fs : 8192;  // keeps the float error below the rounding step
        for (int j = 0; j < 16; ++j) {
            auto const k = g.in(0, std::min(size, lim));
            auto const f = j % 2 == 0 ? neo::rfftfreq<T>(static_cast<int>(size), static_cast<int>(k), 1.0 / static_cast<double>(fs))
                                      : neo::rfftfreq<T>(static_cast<std::size_t>(size), static_cast<unsigned>(k), 1.0 / static_cast<double>(fs));
            idx.push_back(k);
            r.push_back(ri(f, static_cast<long double>(size)));
            d.push_back(dev(f, static_cast<long double>(size)));
        }
        ev("freq").s("t", t).i("size", size).i("fs", fs).a("idx", idx).a("r", r).a("dev", d).i("tol", tol);
        auto const n = i % 20 == 19 ? g.in(2010, 2600) : i % 10 == 7 ? g.in(200, 1000) : g.in(0, 40);
        if (std::same_as<T, float>) { fs = g.in(1, n > 40 ? 40 : 1000); }
        bool guard = true;
        auto v     = strided_or_not<T>(static_cast<std::size_t>(n), i % 2 == 0 ? 1 : 3, guard, [&](auto out) { neo::rfftfreq(out, 1.0 / static_cast<double>(fs)); });
        auto rv    = ints{};
        auto dv    = ints{};
        for (auto x : v) {
            rv.push_back(ri(x, static_cast<long double>(n)));
            dv.push_back(dev(x, static_cast<long double>(n)));
        }
        ev("freqvec").s("t", t).i("n", n).i("fs", fs).a("r", rv).a("dev", dv).i("tol", tol).b("guard", guard);
    }
}

inline auto grow(std::size_t n) -> std::size_t { return n < 70 ? n + 1 : (n < 260 ? n + 17 : n + n / 4 + 3); }

template<typename T, typename W>
void window(char const* kind, char const* t)
{
    for (std::size_t n = (kind[0] == 'r' ? 0 : 2); n <= (g_thorough ? 2400U : 1100U); n = grow(n)) {
        bool guard = true;
        auto v     = strided_or_not<T>(n, n % 3 == 0 ? 2 : 1, guard, [&](auto out) { neo::fill_window(out, W{}); });
        auto gen   = neo::generate_window<T, W>(n);
        bool agree = gen.extent(0) == n;
        auto w     = ints{};
        auto wnd   = W{};
        for (std::size_t i = 0; i < n; ++i) {
            w.push_back(ri(v[i], 100000));
            auto close = [&](T x) { return std::fabs(static_cast<double>(x - v[i])) < 1e-6; };
            agree      = agree && close(gen(i)) && close(wnd(i, n)) && close(wnd(static_cast<int>(i), static_cast<int>(n)));
        }
        ev("window").s("t", t).s("kind", kind).i("n", static_cast<long long>(n)).a("w", w).b("guard", guard).b("agree", agree);
    }
}

/// index k N / 6 of a window of N + 1 points, where the value is a fraction; small and very large windows
template<typename T, typename W>
void points(char const* kind, char const* t)
{
    auto const sc = kind[2] == 'n' ? 4.0L : 100.0L;
    auto const hp = std::same_as<T, float> ? 1e6L : 1e12L;
    for (std::size_t m : {1, 2, 3, 5, 42, 43, 100, 171, 683, 10923, 100001}) {
        auto const n   = 6 * m + 1;
        auto const gen = neo::generate_window<T, W>(n);
        auto buf       = std::vector<T>(n);
        neo::fill_window(vec_t<T>{buf.data(), n}, W{});
        auto r = ints{};
        auto d = ints{};
        for (int k = 0; k <= 6; ++k) {
            auto const i = static_cast<std::size_t>(k) * m;
            for (T x : {gen(i), buf[i], W{}(i, n), W{}(static_cast<int>(i), static_cast<long>(n))}) {
                r.push_back(ri(x, sc));
                d.push_back(ri(std::fabs(static_cast<long double>(x) * sc - std::nearbyint(static_cast<long double>(x) * sc)), hp));
            }
        }
        ev("winpoint").s("t", t).s("kind", kind).i("n", static_cast<long long>(gen.extent(0))).i("want", static_cast<long long>(n)).a("r", r).a("d", d);
    }
}

template<typename T>
void windows(char const* t)
{
    window<T, neo::rectangular_window<T>>("rect", t);
    window<T, neo::hann_window<T>>("hann", t);
    window<T, neo::hamming_window<T>>("hamming", t);
    points<T, neo::hann_window<T>>("hann", t);
    points<T, neo::hamming_window<T>>("hamming", t);
    // the default window is Hann's
    for (std::size_t n : {2, 5, 9, 64}) {
        auto gen = neo::generate_window<T>(n);
        auto w   = ints{};
        for (std::size_t i = 0; i < n; ++i) { w.push_back(ri(gen(i), 100000)); }
        ev("window").s("t", t).s("kind", "hann").i("n", static_cast<long long>(n)).a("w", w).b("guard", true).b("agree", gen.extent(0) == n);
    }
}

void run()
{
    auto g = rng{25};
    mel<float>(g, "f32");
    mel<double>(g, "f64");
    freqs<float>(g, "f32");
    freqs<double>(g, "f64");
    windows<float>("f32");
    windows<double>("f64");
}

}  // namespace vh

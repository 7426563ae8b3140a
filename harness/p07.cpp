// P07: one-shot convolution: direct_convolve, fft_convolver, fft_convolve
#include "la_common.hpp"

#include <neo/convolution/direct_convolve.hpp>
#include <neo/convolution/fft_convolver.hpp>

namespace vh {

namespace nc = neo::convolution;

auto near(long double v, long double tol) -> long long
{
    if (!std::isfinite(v) || std::fabs(v - std::nearbyint(v)) > tol || std::fabs(v) > 2e9L) { return NANV; }
    return std::llround(v);
}

template<typename T>
void values(object<T>& o, rng& g, int kind, long long m)
{
    auto const n = o.cols;
    for (std::size_t i = 0; i < n; ++i) {
        auto const z = kind == 0 || (kind == 1 && g.in(0, static_cast<long long>(n)) < 4);
        o.buf[o.idx(0, i)] = z ? elem<T>::make(g.in(-m, m), g.in(-m, m)) : elem<T>::make(0, 0);
    }
    if (kind == 2) { o.buf[o.idx(0, static_cast<std::size_t>(g.in(0, static_cast<long long>(n) - 1)))] = elem<T>::make(g.in(1, m), g.in(-m, m)); }
    if (kind == 3) { o.buf[o.idx(0, n - 1)] = elem<T>::make(m, 1); }
}

/// integers times 2^k
template<typename T>
void rescale(object<T>& o, int k)
{
    for (std::size_t i = 0; i < o.cols; ++i) {
        auto& v = o.buf[o.idx(0, i)];
        if constexpr (std::is_floating_point_v<T>) {
            v = std::ldexp(v, k);
        } else if constexpr (elem<T>::cx) {
            using F = typename T::value_type;
            if constexpr (std::is_floating_point_v<F>) { v = T{std::ldexp(v.real(), k), std::ldexp(v.imag(), k)}; }
        }
    }
}

template<typename T>
auto list(object<T> const& o, long double tol, int k = 0) -> ints
{
    auto out = ints{};
    for (std::size_t i = 0; i < o.cols; ++i) {
        auto const v = o.buf[o.idx(0, i)];
        out.push_back(near(std::ldexp(static_cast<long double>(elem<T>::re(v)), -k), tol));
        if constexpr (elem<T>::cx) { out.push_back(near(std::ldexp(static_cast<long double>(elem<T>::im(v)), -k), tol)); }
    }
    return out;
}

template<typename A, typename B>
auto with_view(A& a, B&& f)
{
    if (a.kind == 'S') {
        f(a.template vec<S>());
    } else {
        f(a.template vec<R>());
    }
}

template<typename T>
void record(char const* alg, char const* t, ints const& x, ints const& h, ints const& y, bool guard)
{
    ev(elem<T>::cx ? "cconv" : "conv").s("alg", alg).s("t", t).a("x", x).a("h", h).a("y", y).b("guard", guard);
}

template<typename T>
void direct(rng& g, std::size_t n, std::size_t l, int kind, char const* t)
{
    constexpr auto integral = std::is_integral_v<T>;
    auto x = object<T>{1, n, g.flag(50) ? 'R' : 'S', 1};
    auto h = object<T>{1, l, g.flag(50) ? 'R' : 'S', 2};
    auto y = object<T>{1, n + l - 1, g.flag(50) ? 'R' : 'S', 3};
    values(x, g, kind, 20);
    values(h, g, n + l > 300 ? static_cast<int>(g.in(1, 3)) : static_cast<int>(g.in(0, 3)), 20);
    y.randomize(g, 90);
    auto const kx = !integral && g.flag(30) ? static_cast<int>(g.in(-50, 20)) : 0;
    auto const kh = !integral && g.flag(30) ? static_cast<int>(g.in(-30, 20)) : 0;
    rescale(x, kx);
    rescale(h, kh);
    auto const xs = list(x, 0, kx);
    auto const hs = list(h, 0, kh);
    with_view(x, [&](auto xv) { with_view(h, [&](auto hv) { with_view(y, [&](auto yv) { nc::direct_convolve(xv, hv, yv); }); }); });
    record<T>("direct", t, xs, hs, list(y, 0, kx + kh), x.guard() && h.guard() && y.guard() && list(x, 0, kx) == xs && list(h, 0, kh) == hs);
    if constexpr (!integral) {
        auto z = object<T>{1, n + l - 1, 'R', 0};
        auto ok = false;
        with_view(x, [&](auto xv) {
            with_view(h, [&](auto hv) {
                auto const r = nc::direct_convolve(xv, hv);
                ok           = r.extent(0) == n + l - 1;
                for (std::size_t i = 0; ok && i < n + l - 1; ++i) { z.buf[i] = r(i); }
            });
        });
        record<T>("direct-new", t, xs, hs, list(z, 0, kx + kh), ok);
    }
}

template<typename T>
void transform(rng& g, std::size_t n, std::size_t l, char const* t, int rounds)
{
    auto const tol = std::same_as<T, float> ? 0.1L : 1e-6L;
    auto conv      = nc::fft_convolver<T>{n, l};
    ev("sizes").s("alg", "fft").s("t", t).i("n", static_cast<long long>(n)).i("l", static_cast<long long>(l)).i("r", static_cast<long long>(conv.output_size())).i("sig", static_cast<long long>(conv.signal_size())).i("pat", static_cast<long long>(conv.patch_size()));
    for (int k = 0; k < rounds; ++k) {
        auto const big = n + l > 300;
        replant(g, conv, 30);
        auto x = object<T>{1, n, g.flag(50) ? 'R' : 'S', 1};
        auto h = object<T>{1, l, g.flag(50) ? 'R' : 'S', 2};
        auto y = object<T>{1, n + l - 1, g.flag(50) ? 'R' : 'S', 3};
        values(x, g, big ? static_cast<int>(g.in(1, 3)) : static_cast<int>(g.in(0, 3)), 20);
        values(h, g, big ? static_cast<int>(g.in(1, 3)) : static_cast<int>(g.in(0, 3)), 20);
        y.randomize(g, 90);
        auto const kx = g.flag(30) ? static_cast<int>(g.in(-50, 20)) : 0;
        auto const kh = g.flag(30) ? static_cast<int>(g.in(-30, 20)) : 0;
        rescale(x, kx);
        rescale(h, kh);
        auto const xs = list(x, 0, kx);
        auto const hs = list(h, 0, kh);
        if (k % 3 == 2) {
            auto z = object<T>{1, n + l - 1, 'R', 0};
            with_view(x, [&](auto xv) {
                with_view(h, [&](auto hv) {
                    auto const r  = nc::fft_convolve(xv, hv);
                    auto const ok = r.extent(0) == n + l - 1;
                    for (std::size_t i = 0; ok && i < n + l - 1; ++i) { z.buf[i] = r(i); }
                    record<T>("fft_convolve", t, xs, hs, list(z, tol, kx + kh), ok && x.guard() && h.guard());
                });
            });
            continue;
        }
        with_view(x, [&](auto xv) { with_view(h, [&](auto hv) { with_view(y, [&](auto yv) { conv(xv, hv, yv); }); }); });
        record<T>("fft", t, xs, hs, list(y, tol, kx + kh), x.guard() && h.guard() && y.guard() && list(x, 0, kx) == xs && list(h, 0, kh) == hs);
    }
}

template<typename T>
void empties(char const* t)
{
    auto none = object<T>{1, 0, 'R', 0};
    auto some = object<T>{1, 5, 'R', 0};
    auto one  = [&](auto& a, auto& b) {
        auto const r = nc::fft_convolve(a.template vec<R>(), b.template vec<R>());
        ev("empty").s("alg", "fft_convolve").s("t", t).i("r", static_cast<long long>(r.extent(0)));
    };
    one(none, none);
    one(none, some);
    one(some, none);
}

void run()
{
    auto g         = rng{7};
    // in several threads at once
    crowd(g, 6, [&](rng& r, int i) {
        for (std::size_t n : {40, 120, 130}) {
            transform<float>(r, n, n + static_cast<std::size_t>(i), "f32", 6);
            transform<double>(r, n, n - static_cast<std::size_t>(i), "f64", 6);
            direct<float>(r, n, n / 3, 1, "f32");
            direct<std::complex<double>>(r, n / 3, n, 1, "c128");
        }
    });
    auto const dm  = g_thorough ? 24U : 11U;
    for (std::size_t n = 1; n <= dm; ++n) {
        for (std::size_t l = 1; l <= dm; ++l) {
            direct<float>(g, n, l, 0, "f32");
            direct<double>(g, n, l, static_cast<int>(g.in(0, 3)), "f64");
            direct<int>(g, n, l, 0, "i32");
            direct<std::complex<float>>(g, n, l, 0, "c64");
            direct<std::complex<double>>(g, n, l, 0, "c128");
            direct<neo::scalar_complex<float>>(g, n, l, 0, "s64");
            if (n > 1 && l > 1) {
                transform<float>(g, n, l, "f32", 3);
                transform<double>(g, n, l, "f64", 3);
            }
        }
    }
    auto const rounds = g_thorough ? 60 : 12;
    for (int i = 0; i < rounds; ++i) {
        auto const n = static_cast<std::size_t>(g.in(2, 130));
        auto const l = static_cast<std::size_t>(g.in(2, 130));
        direct<float>(g, n, l, 1, "f32");
        transform<float>(g, n, l, "f32", 3);
        transform<double>(g, n, l, "f64", 3);
    }
    for (auto [n, l] : {std::pair<std::size_t, std::size_t>{1000, 3}, {2, 1500}, {2049, 2048}, {5000, 37}, {70000, 2}}) {
        transform<float>(g, n, l, "f32", 3);
        transform<double>(g, l, n, "f64", 3);
        if (n * l < 20000) {
            direct<float>(g, n, l, 1, "f32");
            direct<double>(g, l, n, 1, "f64");
        }
    }
    for (auto [n, l] : {std::pair<std::size_t, std::size_t>{2100, 1}, {2100, 40}, {2100, 2100}, {2050, 2030}, {50, 45}}) {
        direct<float>(g, n, l, 1, "f32");
        direct<float>(g, l, n, 3, "f32");
        direct<double>(g, l, n, 2, "f64");
        direct<int>(g, n, l, 3, "i32");
        if (n + l < 2500) { direct<std::complex<float>>(g, n, l, 1, "c64"); }
    }
    // either side of the power-of-two limits of the padded size
    for (std::size_t p : {16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384}) {
        for (std::size_t d = 0; d < 4; ++d) {
            auto const l = static_cast<std::size_t>(g.in(2, static_cast<long long>(p) - 2));
            auto const n = p + d - l;  // output sizes p - 1 .. p + 2
            transform<float>(g, n, l, "f32", 2);
            transform<double>(g, l, n, "f64", 2);
        }
    }
    for (auto [n, l] : {std::pair<long long, long long>{1, 1}, {1, 7}, {9, 1}, {300, 20}}) {
        ev("sizes").s("alg", "mode").s("t", "int").i("n", n).i("l", l).i("r", nc::output_size<nc::mode::full>(static_cast<int>(n), static_cast<int>(l))).i("sig", n).i("pat", l);
        ev("sizes").s("alg", "mode").s("t", "size").i("n", n).i("l", l).i("r", static_cast<long long>(nc::output_size<nc::mode::full>(static_cast<std::size_t>(n), static_cast<std::size_t>(l)))).i("sig", n).i("pat", l);
    }
    empties<float>("f32");
    empties<double>("f64");
}

}  // namespace vh

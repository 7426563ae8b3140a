// P04: overlap_add and overlap_save around an arbitrary spectral callback
#include "stream_common.hpp"

#include <neo/convolution/overlap_add.hpp>
#include <neo/convolution/overlap_save.hpp>

namespace vh {

namespace nc = neo::convolution;

template<typename Ov>
void session(rng& g, char const* kind, std::size_t b, std::size_t f, ints const& steps, char const* t)
{
    using C = typename Ov::complex_type;
    using F = typename Ov::real_type;
    auto ov = Ov{b, f};
    ev("new").s("kind", kind).s("t", t).i("b", static_cast<long long>(b)).i("f", static_cast<long long>(f)).i("bs", static_cast<long long>(ov.block_size())).i("fs", static_cast<long long>(ov.filter_size())).i("ts", static_cast<long long>(ov.transform_size()));
    auto const n = ov.transform_size();
    auto h       = ints{1};
    // integers times powers of two: the processing is linear
    auto const kx = g.flag(30) ? static_cast<int>(g.in(-45, 20)) : 0;
    auto const kh = g.flag(30) ? static_cast<int>(g.in(-20, 20)) : 0;
    for (std::size_t i = 0; i + 2 < steps.size(); i += 3) {
        auto const len = std::max<std::size_t>(1, f * static_cast<std::size_t>(steps[i]) / 100U);
        // kind 5: keep the filter; kind 4 (constant) becomes the identity
        if (steps[i + 1] < 4) {
            h = sequence(g, len, b + f > 64 && steps[i + 1] < 2 ? 2 : steps[i + 1], 6);
        } else if (steps[i + 1] == 4) {
            h = ints{1};
        }
        auto const x = sequence(g, b, g.flag(10) ? 5 : steps[i + 2], 9);
        auto spec    = std::vector<std::complex<long double>>{};
        for (std::size_t k = 0; k <= n / 2; ++k) {
            auto sum = std::complex<long double>{};
            for (std::size_t j = 0; j < h.size(); ++j) {
                if (h[j] == 0) { continue; }
                auto const a = -2.0L * std::numbers::pi_v<long double> * static_cast<long double>((j * k) % n) / static_cast<long double>(n);
                sum += static_cast<long double>(h[j]) * std::complex<long double>{std::cos(a), std::sin(a)};
            }
            spec.push_back({std::ldexp(sum.real(), kh), std::ldexp(sum.imag(), kh)});
        }
        auto strided = g.flag(30);
        auto buf     = object<F>{1, b, strided ? 'S' : 'R', 1};
        for (std::size_t j = 0; j < b; ++j) { buf.buf[buf.idx(0, j)] = std::ldexp(static_cast<F>(x[j]), kx); }
        auto bins  = 0LL;
        auto calls = 0LL;
        auto cb    = [&](auto inout) {
            bins = static_cast<long long>(inout.extent(0));
            ++calls;
            for (std::size_t k = 0; k < std::min<std::size_t>(inout.extent(0), spec.size()); ++k) {
                auto const z = std::complex<long double>{static_cast<long double>(inout[k].real()), static_cast<long double>(inout[k].imag())} * spec[k];
                inout[k]     = C{static_cast<F>(z.real()), static_cast<F>(z.imag())};
            }
        };
        replant(g, ov);
        if (strided) {
            ov(buf.template vec<S>(), cb);
        } else {
            ov(buf.template vec<R>(), cb);
        }
        auto y = ints{};
        for (std::size_t j = 0; j < b; ++j) { y.push_back(near_int(std::ldexp(static_cast<long double>(buf.buf[buf.idx(0, j)]), -kx - kh), stream_tol<F>())); }
        ev("step").s("kind", kind).s("t", t).i("bins", bins).i("calls", calls).a("h", h).a("x", x).a("y", y).b("guard", buf.guard());
    }
}

template<typename C>
void all(rng& g, ints const& hist, std::size_t b, std::size_t f, char const* t)
{
    auto const steps = ints(hist.begin() + 3, hist.end());
    if (hist[0] == 0) {
        session<nc::overlap_add<C>>(g, "add", b, f, steps, t);
    } else {
        session<nc::overlap_save<C>>(g, "save", b, f, steps, t);
    }
}

void run()
{
    auto g          = rng{4};
    auto const hist = stream_scenarios();
    // in several threads at once
    crowd(g, 6, [&](rng& r, int t) {
        for (int k = 0; k < 2; ++k) {
            auto h = hist[static_cast<std::size_t>(t) % hist.size()];
            h[0]   = k;
            for (std::size_t n : {60, 250}) {
                all<std::complex<float>>(r, h, n, n, "c64");
                all<std::complex<double>>(r, h, n, n / 2, "c128");
            }
        }
    });
    auto i          = std::size_t{0};
    for (auto const& h : hist) {
        all<std::complex<float>>(g, h, static_cast<std::size_t>(h[1]), static_cast<std::size_t>(h[2]), "c64");
        all<std::complex<double>>(g, h, static_cast<std::size_t>(h[2]), static_cast<std::size_t>(h[1]), "c128");
    }
    // every small pair of sizes, both schemes
    auto const m = g_thorough ? 10U : 6U;
    for (std::size_t b = 1; b <= m; ++b) {
        for (std::size_t f = 1; f <= m; ++f) {
            for (int k = 0; k < 2; ++k) {
                auto h = hist[i++ % hist.size()];
                h[0]   = k;
                all<std::complex<float>>(g, h, b, f, "c64");
                all<std::complex<double>>(g, h, b, f, "c128");
            }
        }
    }
    for (auto [b, f] : {std::pair<std::size_t, std::size_t>{64, 64}, {100, 29}, {128, 129}, {31, 130}, {256, 256}, {1, 300}, {300, 1}, {3, 200}, {513, 512}, {1000, 25}, {1024, 1025}}) {
        for (int k = 0; k < 2; ++k) {
            auto h = hist[i++ % hist.size()];
            h[0]   = k;
            all<std::complex<float>>(g, h, b, f, "c64");
            all<std::complex<double>>(g, h, b, f, "c128");
        }
    }
    // transforms beyond what narrow counters hold
    for (auto [b, f] : {std::pair<std::size_t, std::size_t>{33000, 40}, {40, 66000}}) {
        for (int k = 0; k < 2; ++k) {
            auto const h = ints{k, 0, 0, 100, 3, 3, 100, 3, 3};
            if ((b > f) == (k == 0)) {
                all<std::complex<float>>(g, h, b, f, "c64");
            } else {
                all<std::complex<double>>(g, h, b, f, "c128");
            }
        }
    }
    // the convolution fills the transform to its last sample
    for (auto [b, f] : {std::pair<std::size_t, std::size_t>{32, 33}, {20, 109}, {100, 29}, {300, 213}, {7, 250}, {1024, 1025}, {500, 3597}, {2100, 1997}}) {
        for (int k = 0; k < 2; ++k) {
            auto const h = ints{k, 0, 0, 100, 3, 3, 100, 3, 3, 100, 5, 3, 100, 2, 1, 100, 5, 5, 100, 3, 3};
            all<std::complex<float>>(g, h, b, f, "c64");
            all<std::complex<double>>(g, h, b, f, "c128");
        }
    }
}

}  // namespace vh

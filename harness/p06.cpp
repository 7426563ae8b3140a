// P06: short-time framing and partitioning of impulse responses
#include "stream_common.hpp"

#include <neo/convolution/uniform_partition.hpp>
#include <neo/fft/stft.hpp>

namespace vh {

using cld = std::complex<long double>;

/// inverse of a half spectrum (n/2+1 bins) in long double; empty if DC/Nyquist are not real
inline auto inverse(std::vector<cld> const& s, std::size_t n, long double tol) -> std::vector<long double>
{
    auto out = std::vector<long double>(n);
    if (std::fabs(s[0].imag()) > tol || std::fabs(s[n / 2].imag()) > tol) { return std::vector<long double>(n, NAN); }
    auto tw = std::vector<cld>{};
    for (std::size_t i = 0; i < n; ++i) {
        auto const a = 2.0L * std::numbers::pi_v<long double> * static_cast<long double>(i) / static_cast<long double>(n);
        tw.emplace_back(std::cos(a), std::sin(a));
    }
    for (std::size_t i = 0; i < n; ++i) {
        auto sum = s[0].real();
        if (n > 1) { sum += (i % 2 == 0 ? 1 : -1) * s[n / 2].real(); }
        for (std::size_t k = 1; k < n / 2; ++k) { sum += 2.0L * (s[k] * tw[(k * i) % n]).real(); }
        out[i] = sum / static_cast<long double>(n);
    }
    return out;
}

inline auto bitceil(std::size_t x) -> std::size_t
{
    auto p = std::size_t{1};
    while (p < x) { p *= 2; }
    return p;
}

template<typename F, typename Result>
void frames(Result const& res, std::size_t tsize, int win, char const* t, int scale)
{
    auto const n   = bitceil(tsize);
    auto const tol = std::same_as<F, float> ? 0.05L : 1e-7L;
    if (res.extent(2) != n / 2 + 1) { return; }  // the call event already disagrees
    for (std::size_t c = 0; c < res.extent(0); ++c) {
        for (std::size_t f = 0; f < res.extent(1); ++f) {
            auto s = std::vector<cld>{};
            for (std::size_t k = 0; k <= n / 2; ++k) { s.emplace_back(std::ldexp(static_cast<long double>(res(c, f, k).real()), -scale), std::ldexp(static_cast<long double>(res(c, f, k).imag()), -scale)); }
            auto const y = inverse(s, n, tol);
            auto got     = ints{};
            auto w       = ints{};
            for (std::size_t i = 0; i < n; ++i) {
                if (win < 3) {
                    got.push_back(near_int(y[i], tol));
                } else {
                    got.push_back(ri(y[i], 10000.0L));
                    auto const a = 2.0L * std::numbers::pi_v<long double> * static_cast<long double>(i) / static_cast<long double>(n - 1);
                    w.push_back(ri(0.5L * (1.0L - std::cos(a)), 10000.0L));
                }
            }
            if (win < 3) {
                ev("frame").s("t", t).i("c", static_cast<long long>(c)).i("f", static_cast<long long>(f)).a("got", got);
            } else {
                ev("wframe").s("t", t).i("c", static_cast<long long>(c)).i("f", static_cast<long long>(f)).a("got", got).a("w", w);
            }
        }
    }
}

template<typename F>
struct signal
{
    object<F> obj;
    std::vector<ints> x;
    int k{0};  // integers times 2^k
    signal(rng& g, std::size_t ch, std::size_t len, char kind) : obj{ch, len, kind, 3}
    {
        if (g.flag(25)) { k = static_cast<int>(g.in(-60, 30)); }
        for (std::size_t c = 0; c < ch; ++c) {
            x.push_back(sequence(g, len, g.in(0, 4), 9));
            for (std::size_t i = 0; i < len; ++i) { obj.buf[obj.idx(c, i)] = std::ldexp(static_cast<F>(x[c][i]), k); }
        }
    }
    template<typename Fn>
    auto view(Fn fn)
    {
        switch (obj.kind) {
            case 'L': return fn(obj.template mat<L>());
            case 'S': return fn(obj.template mat<S>());
            default: return fn(obj.template mat<R>());
        }
    }
    auto intact() const -> bool
    {
        for (std::size_t c = 0; c < x.size(); ++c) {
            for (std::size_t i = 0; i < x[c].size(); ++i) {
                if (obj.buf[obj.idx(c, i)] != std::ldexp(static_cast<F>(x[c][i]), k)) { return false; }
            }
        }
        return obj.guard();
    }
};

template<typename F, typename Result>
void call(signal<F> const& s, Result const& res, std::size_t tsize, int win, char const* t)
{
    ev("call").s("t", t).m("x", s.x).a("dims", ints{static_cast<long long>(res.extent(0)), static_cast<long long>(res.extent(1)), static_cast<long long>(res.extent(2))}).b("guard", s.intact());
    frames<F>(res, tsize, win, t, s.k);
}

void plan_event(std::size_t frame, std::size_t overlap, std::size_t tsize, int win, char const* api, char const* t)
{
    ev("plan").s("api", api).s("t", t).i("frame", static_cast<long long>(frame)).i("overlap", static_cast<long long>(overlap)).i("tsize", static_cast<long long>(tsize)).i("win", win);
}

template<typename F>
void history(rng& g, ints const& h, char const* t)
{
    auto const frame   = static_cast<std::size_t>(h[0]);
    auto const overlap = static_cast<std::size_t>(h[1]);
    auto const tsize   = static_cast<std::size_t>(h[2]);
    auto const win     = h[3] == 3 && bitceil(tsize) < 2 ? 0 : static_cast<int>(h[3]);
    auto opt           = neo::fft::stft_options<F>{};
    opt.frame_size     = frame;
    opt.transform_size = tsize;
    opt.overlap_size   = overlap;
    if (win == 0) { opt.window = neo::rectangular_window<F>{}; }
    if (win == 1) { opt.window = [](std::size_t i, std::size_t n) { return static_cast<F>(static_cast<int>((3 * i + n) % 7) - 2); }; }
    if (win == 2) { opt.window = [](std::size_t i, std::size_t /*n*/) { return static_cast<F>(i + 1); }; }
    plan_event(frame, overlap, tsize, win, "plan", t);
    auto plan = neo::fft::stft_plan<F>{opt};
    for (std::size_t k = 4; k + 1 < h.size(); k += 2) {
        auto const kinds = std::array<char, 3>{'R', 'L', 'S'};
        auto s           = signal<F>{g, static_cast<std::size_t>(h[k]), static_cast<std::size_t>(h[k + 1]), kinds[static_cast<std::size_t>(g.in(0, 2))]};
        if (g.flag(25)) {
            auto const res = s.view([&](auto m) { return neo::fft::stft(m, opt); });
            call(s, res, tsize, win, t);
        } else {
            replant(g, plan);
            auto const res = s.view([&](auto m) { return plan(m); });
            call(s, res, tsize, win, t);
        }
    }
    // the partitioning of an impulse response with this block size
    plan_event(frame, 0, 2 * frame, 0, "uniform_partition", t);
    auto s         = signal<F>{g, static_cast<std::size_t>(h[4]), static_cast<std::size_t>(h[5]), 'R'};
    auto const res = neo::convolution::uniform_partition(s.obj.template mat<R>(), frame);
    call(s, res, 2 * frame, 0, t);
    // window size only: frames of that size, half overlapping, Hann
    if (frame > 1) {
        plan_event(frame, frame / 2, frame, 3, "window_size", t);
        auto s2         = signal<F>{g, static_cast<std::size_t>(h[4]), static_cast<std::size_t>(h[5]), 'L'};
        auto const res2 = neo::fft::stft(s2.obj.template mat<L>(), frame);
        call(s2, res2, frame, 3, t);
    }
}

void run()
{
    auto g          = rng{6};
    auto const hist = stream_scenarios();
    // in several threads at once
    crowd(g, 6, [&](rng& r, int i) {
        for (auto h : {ints{60, 10, 64, 1, 1, 1500, 2, 700}, {100, 30, 128, 0, 2, 1000}}) {
            h[5] += i;
            history<double>(r, h, "f64");
            history<float>(r, h, "f32");
        }
    });
    for (std::size_t i = 0; i < hist.size(); ++i) {
        history<double>(g, hist[i], "f64");
        if (i % 2 == 0) { history<float>(g, hist[i], "f32"); }
    }
    for (auto h : {ints{200, 150, 256, 1, 1, 3000, 3, 700}, {256, 0, 256, 2, 9, 1000, 2, 5}, {5, 4, 8, 1, 1, 700, 20, 30}, {100, 1, 300, 0, 2, 5000}, {4, 0, 4, 1, 50, 9}, {4, 1, 8, 0, 1, 0, 2, 5, 2, 0}, {5, 2, 5, 1, 2, 0}, {2, 0, 2, 1, 1, 4203}, {4, 2, 4, 2, 2051, 4}, {1000, 500, 1024, 0, 1, 4321}, {128, 0, 128, 0, 1, 70001}}) {
        history<double>(g, h, "f64");
        history<float>(g, h, "f32");
    }
    for (std::size_t b : {64, 128, 256}) {
        plan_event(b, 0, 2 * b, 0, "uniform_partition", "f64");
        auto s         = signal<double>{g, 2, b * 3 - 5, 'R'};
        auto const res = neo::convolution::uniform_partition(s.obj.template mat<R>(), b);
        call(s, res, 2 * b, 0, "f64");
    }
}

}  // namespace vh

// P10: real transforms: rfft / irfft, packed in-place real FFT, deinterleaving, DCT-II
#include "fft_common.hpp"

#include <neo/complex/scalar_complex.hpp>
#include <neo/fft/dct.hpp>
#include <neo/fft/experimental/rfft.hpp>
#include <neo/fft/rfft.hpp>

namespace vh {

using rvec = std::vector<long double>;

struct half
{
    cvec out;
    bool guard;
};
struct reals
{
    rvec out;
    bool guard;
};

std::vector<ints> hist;
thread_local std::size_t nhist = 0;
auto next_history() -> ints const& { return hist[nhist++ % hist.size()]; }

/// fwd: (rvec, form) -> half;  bwd: (cvec, form) -> reals;  bwd(fwd(x)) = gain * x
template<typename F, typename Fwd, typename Bwd>
void drive(rng& g, std::size_t n, char const* name, char const* t, int forms, long double gain, Fwd fwd, Bwd bwd, bool large = false)
{
    auto const coeffs = n / 2 + 1;
    auto impulse      = [&](std::size_t p, int q, int form, int k) {
        auto x = rvec(n);
        x[p]   = (q == 0 ? 1.0L : -1.0L) * std::ldexp(1.0L, k);
        auto r = fwd(x, form);
        auto e = ints{};
        for (auto z : r.out) { e.push_back(decode(z * std::ldexp(1.0L, -k), n, tolerance<F>(n))); }
        ev("rimpulse").s("plan", name).s("t", t).i("form", form).i("p", static_cast<long long>(p)).i("q", q).a("exps", e).b("guard", r.guard);
    };
    if (large) {
        // sampled bins of impulses, and a dense signal there and back
        auto probe = [&](std::size_t p, int q, int form) {
            auto const k = g.flag(50) ? 0 : static_cast<int>(g.in(-20, 20));
            auto x = rvec(n);
            x[p]   = (q == 0 ? 1.0L : -1.0L) * std::ldexp(1.0L, k);
            auto r = fwd(x, form);
            auto ks = ints{};
            auto e  = ints{};
            for (std::size_t i = 0; i < 60; ++i) {
                auto b = static_cast<std::size_t>(g.in(0, static_cast<long long>(n / 2)));
                if (i < 4) { b = i == 0 ? 0 : i == 1 ? 1 : i == 2 ? n / 2 : n / 2 - 1; }
                ks.push_back(static_cast<long long>(b));
                e.push_back(decode(r.out[b] * std::ldexp(1.0L, -k), n, large_tolerance<F>(n)));
            }
            ev("rprobe").s("plan", name).s("t", t).i("form", form).i("p", static_cast<long long>(p)).i("q", q).a("ks", ks).a("exps", e).b("guard", r.guard);
        };
        probe(0, 0, 0);
        probe(1, 0, 0);
        probe(n - 1, 2, 1 % forms);
        probe(n / 2 + 1, 0, 2 % forms);
        probe(static_cast<std::size_t>(g.in(0, static_cast<long long>(n) - 1)), 2, 3 % forms);
        for (int form = 0; form < 2; ++form) {
            auto x = rvec(n);
            for (auto& v : x) { v = static_cast<long double>(g.in(-50, 50)); }
            auto r  = fwd(x, form % forms);
            auto b  = bwd(r.out, form % forms);
            auto xi = ints{};
            auto o  = ints{};
            for (std::size_t i = 0; i < 60; ++i) {
                auto const k = i == 0 ? n - 1 : static_cast<std::size_t>(g.in(0, static_cast<long long>(n) - 1));
                auto const y = b.out[k] / gain;
                xi.push_back(static_cast<long long>(x[k]));
                o.push_back(!std::isfinite(y) || std::fabs(y - std::nearbyint(y)) > (std::same_as<F, float> ? 1e-2L : 1e-9L) ? NANV : std::llround(y));
            }
            ev("rroundtrip").s("plan", name).s("t", t).i("form", form).a("x", xi).a("out", o).b("guard", r.guard && b.guard);
        }
        return;
    }
    auto tw = cvec{};
    for (std::size_t i = 0; i < n; ++i) { tw.push_back(root(i, n)); }
    auto spectrum = [&](int form, int k) {
        auto c  = ints{};
        auto sp = cvec(n);
        for (std::size_t i = 0; i < coeffs; ++i) {
            auto const a = g.in(-8, 8);
            auto const b = (i == 0 || 2 * i == n) ? 0 : g.in(-8, 8);
            c.push_back(a);
            c.push_back(b);
            sp[i] = {static_cast<long double>(a), static_cast<long double>(b)};
            if (i != 0 && 2 * i != n) { sp[n - i] = std::conj(sp[i]); }
        }
        auto x = rvec(n);
        for (std::size_t j = 0; j < n; ++j) {
            auto s = cld{};
            for (std::size_t i = 0; i < n; ++i) { s += sp[i] * tw[(i * j) % n]; }
            x[j] = s.real() * std::ldexp(1.0L, k) / static_cast<long double>(n);
        }
        auto r = fwd(x, form);
        ev("rspectrum").s("plan", name).s("t", t).i("form", form).a("c", c).a("out", driver<F, int>::rounded(r.out, std::ldexp(1.0L, -k), std::same_as<F, float> ? 2e-2L : 1e-8L)).b("guard", r.guard);
    };
    auto rounded = [&](rvec const& v, long double scale) {
        auto out = ints{};
        for (auto y : v) {
            y *= scale;
            out.push_back(!std::isfinite(y) || std::fabs(y - std::nearbyint(y)) > (std::same_as<F, float> ? 3e-2L : 1e-8L) ? NANV : std::llround(y));
        }
        return out;
    };
    auto input = [&](ints& xi) {
        auto x = rvec(n);
        for (auto& v : x) {
            auto const a = g.in(-40, 40);
            xi.push_back(a);
            v = static_cast<long double>(a);
        }
        return x;
    };
    auto inverse = [&](int form) {
        auto xi = ints{};
        auto x  = input(xi);
        auto sp = cvec(coeffs);
        for (std::size_t k = 0; k < coeffs; ++k) {
            for (std::size_t j = 0; j < n; ++j) { sp[k] += x[j] * std::conj(tw[(k * j) % n]); }
            if (k == 0 || 2 * k == n) { sp[k] = sp[k].real(); }
        }
        auto r = bwd(sp, form);
        ev("irfft").s("plan", name).s("t", t).i("form", form).a("x", xi).a("out", rounded(r.out, 1.0L / gain)).b("guard", r.guard);
    };
    auto trip = [&](int form) {
        auto xi = ints{};
        auto r  = fwd(input(xi), form);
        auto s  = bwd(r.out, form);
        ev("rroundtrip").s("plan", name).s("t", t).i("form", form).a("x", xi).a("out", rounded(s.out, 1.0L / gain)).b("guard", r.guard && s.guard);
    };
    if (n <= 32) {
        for (std::size_t p = 0; p < n; ++p) { impulse(p, p % 2 == 0 ? 0 : 2, static_cast<int>(p) % forms, 0); }
    }
    auto const& h = next_history();
    for (std::size_t i = 0; i + 4 < h.size(); i += 5) {
        auto const form = static_cast<int>(h[i + 2]) % forms;
        auto const k    = g.flag(70) ? 0 : static_cast<int>(g.in(-20, 20));
        if (h[i] == 1) {
            impulse(static_cast<std::size_t>(h[i + 3]) * n / 1000U, h[i + 4] % 2 == 0 ? 0 : 2, form, k);
        } else if (h[i] == 2) {
            if (h[i + 1] < 0) {
                spectrum(form, k);
            } else {
                inverse(form);
            }
        } else {
            trip(form);
        }
    }
}

template<typename F, typename C>
void rfft_family(rng& g, std::size_t hi, char const* t, std::size_t lo = 0, bool large = false)
{
    for (std::size_t order = lo; order <= hi; ++order) {
        auto const n      = std::size_t(1) << order;
        auto const coeffs = n / 2 + 1;
        auto plan         = neo::fft::rfft_plan<F, C>{neo::fft::from_order, order};
        ev("plan").s("plan", "rfft").s("t", t).i("n", static_cast<long long>(n)).i("order", static_cast<long long>(order)).i("size", static_cast<long long>(plan.size())).i("ord", static_cast<long long>(plan.order()));
        auto fwd = [&](rvec const& x, int form) -> half {
            refresh(g, plan);
            auto i = object<F>{1, n, form % 2 == 0 ? 'R' : 'S', 1};
            auto o = object<C>{1, coeffs, form < 2 ? 'R' : 'S', 2};
            for (std::size_t k = 0; k < n; ++k) { i.buf[i.idx(0, k)] = static_cast<F>(x[k]); }
            auto const before = i.buf;
            switch (form) {
                case 0: neo::fft::rfft(plan, i.template cvec<R>(), o.template vec<R>()); break;
                case 1: neo::fft::rfft(plan, i.template cvec<S>(), o.template vec<R>()); break;
                case 2: neo::fft::rfft(plan, i.template cvec<R>(), o.template vec<S>()); break;
                default: neo::fft::rfft(plan, i.template cvec<S>(), o.template vec<S>()); break;
            }
            return {unload(o), o.guard() && i.buf == before};
        };
        auto bwd = [&](cvec const& x, int form) -> reals {
            refresh(g, plan);
            auto i = object<C>{1, coeffs, form % 2 == 0 ? 'R' : 'S', 1};
            auto o = object<F>{1, n, form < 2 ? 'R' : 'S', 2};
            load(i, x);
            auto const before = unload(i);
            switch (form) {
                case 0: neo::fft::irfft(plan, i.template cvec<R>(), o.template vec<R>()); break;
                case 1: neo::fft::irfft(plan, i.template cvec<S>(), o.template vec<R>()); break;
                case 2: neo::fft::irfft(plan, i.template cvec<R>(), o.template vec<S>()); break;
                default: neo::fft::irfft(plan, i.template cvec<S>(), o.template vec<S>()); break;
            }
            auto out = rvec{};
            for (std::size_t k = 0; k < n; ++k) { out.push_back(o.buf[o.idx(0, k)]); }
            return {out, o.guard() && i.guard() && same(before, unload(i))};
        };
        drive<F>(g, n, "rfft", t, 4, static_cast<long double>(n), fwd, bwd, large);
    }
}

/// x[0] = X[0], x[1] = X[n/2], then re, im of X[1] .. X[n/2 - 1]; the inverse returns n/2 * x
template<typename F>
void packed_family(rng& g, std::size_t hi, char const* t, std::size_t lo = 1, bool large = false)
{
    for (std::size_t order = lo; order <= hi; ++order) {
        auto const n = std::size_t(1) << order;
        auto plan    = neo::fft::experimental::rfft_plan<F>{neo::fft::from_order, order};
        ev("plan").s("plan", "packed").s("t", t).i("n", static_cast<long long>(n)).i("order", static_cast<long long>(order)).i("size", static_cast<long long>(plan.size())).i("ord", static_cast<long long>(plan.order()));
        auto transform = [&](rvec const& x, int form, neo::fft::direction dir, bool& guard) -> rvec {
            refresh(g, plan);
            auto o = object<F>{1, n, form % 2 == 0 ? 'R' : 'S', 1};
            for (std::size_t k = 0; k < n; ++k) { o.buf[o.idx(0, k)] = static_cast<F>(x[k]); }
            if (form % 2 == 0) {
                plan(o.template vec<R>(), dir);
            } else {
                plan(o.template vec<S>(), dir);
            }
            auto out = rvec{};
            for (std::size_t k = 0; k < n; ++k) { out.push_back(o.buf[o.idx(0, k)]); }
            guard = o.guard();
            return out;
        };
        auto fwd = [&](rvec const& x, int form) -> half {
            auto guard   = false;
            auto const y = transform(x, form, neo::fft::direction::forward, guard);
            auto out     = cvec{};
            out.emplace_back(y[0], 0);
            for (std::size_t k = 1; k < n / 2; ++k) { out.emplace_back(y[2 * k], y[2 * k + 1]); }
            out.emplace_back(y[1], 0);
            return {out, guard};
        };
        auto bwd = [&](cvec const& s, int form) -> reals {
            auto x = rvec(n);
            x[0]   = s[0].real();
            x[1]   = s[n / 2].real();
            for (std::size_t k = 1; k < n / 2; ++k) { x[2 * k] = s[k].real(), x[2 * k + 1] = s[k].imag(); }
            auto guard = false;
            auto out   = transform(x, form, neo::fft::direction::backward, guard);
            return {out, guard};
        };
        drive<F>(g, n, "packed", t, 2, static_cast<long double>(n) / 2.0L, fwd, bwd, large);
    }
}

template<typename F>
void dct_family(rng& g, std::size_t hi, char const* t, std::size_t lo = 0, bool large = false)
{
    auto const pi = std::numbers::pi_v<long double>;
    for (std::size_t order = lo; order <= hi; ++order) {
        auto const n = std::size_t(1) << order;
        auto plan    = neo::fft::fallback_dct2_plan<F>{neo::fft::from_order, order};
        ev("plan").s("plan", "dct2").s("t", t).i("n", static_cast<long long>(n)).i("order", static_cast<long long>(order)).i("size", static_cast<long long>(plan.size())).i("ord", static_cast<long long>(plan.order()));
        auto call = [&](rvec const& x, int form, bool& guard) {
            refresh(g, plan);
            auto o = object<F>{1, n, form == 0 ? 'R' : 'S', 1};
            for (std::size_t k = 0; k < n; ++k) { o.buf[o.idx(0, k)] = static_cast<F>(x[k]); }
            if (form == 0) {
                plan(o.template vec<R>());
            } else {
                plan(o.template vec<S>());
            }
            auto out = rvec{};
            for (std::size_t k = 0; k < n; ++k) { out.push_back(o.buf[o.idx(0, k)]); }
            guard = o.guard();
            return out;
        };
        auto const M = 4 * n;
        auto decode_cos = [&](long double y) -> long long {
            auto const c = std::clamp(y, -1.0L, 1.0L);
            auto const e = std::llround(std::acos(c) / (2.0L * pi) * static_cast<long double>(M));
            auto const d = std::fabs(y - std::cos(2.0L * pi * static_cast<long double>(e) / static_cast<long double>(M)));
            auto tol     = std::same_as<F, float> ? 4e-6L : 1e-10L;
            return d <= tol ? e : -1;
        };
        if (large) {
            for (std::size_t p : {std::size_t(0), std::size_t(1), n - 1, n / 2, static_cast<std::size_t>(g.in(0, static_cast<long long>(n) - 1))}) {
                auto x     = rvec(n);
                x[p]       = 1.0L;
                auto guard = false;
                auto y     = call(x, static_cast<int>(p % 2), guard);
                auto ks    = ints{};
                auto e     = ints{};
                for (int tries = 0; tries < 400 && ks.size() < 60; ++tries) {
                    auto const first = std::array<std::size_t, 5>{n - 1, 1, n / 2, n - 2, n / 2 - 1};
                    auto const k     = tries < 5 ? first[static_cast<std::size_t>(tries)] : static_cast<std::size_t>(g.in(0, static_cast<long long>(n) - 1));
                    auto const q = (k * (2 * p + 1)) % M;  // only where the cosine is steep enough to be read back
                    if (std::fabs(std::sin(2.0L * pi * static_cast<long double>(q) / static_cast<long double>(M))) < 0.5L) { continue; }
                    ks.push_back(static_cast<long long>(k));
                    e.push_back(decode_cos(y[k] / 2.0L));
                }
                ev("dctprobe").s("t", t).i("p", static_cast<long long>(p)).a("ks", ks).a("exps", e).b("guard", guard);
            }
            continue;
        }
        auto const max_p = n <= 32 ? n : 6U;
        for (std::size_t i = 0; i < max_p; ++i) {
            auto const p = n <= 32 ? i : static_cast<std::size_t>(g.in(0, static_cast<long long>(n) - 1));
            auto x       = rvec(n);
            auto const k = g.flag(50) ? 0 : static_cast<int>(g.in(-10, 10));
            x[p]         = std::ldexp(1.0L, k);
            auto guard   = false;
            auto y       = call(x, static_cast<int>(i % 2), guard);
            auto e       = ints{};
            for (auto v : y) { e.push_back(decode_cos(v / 2.0L * std::ldexp(1.0L, -k))); }
            ev("dct").s("t", t).i("p", static_cast<long long>(p)).a("exps", e).b("guard", guard);
        }
        for (int rep = 0; rep < 4; ++rep) {
            auto c = ints{};
            for (std::size_t k = 0; k < n; ++k) { c.push_back(g.in(-9, 9)); }
            auto x = rvec(n);
            for (std::size_t j = 0; j < n; ++j) {
                auto s = static_cast<long double>(c[0]) / 2.0L;
                for (std::size_t k = 1; k < n; ++k) { s += static_cast<long double>(c[k]) * std::cos(pi * static_cast<long double>((k * (2 * j + 1)) % M) / static_cast<long double>(2 * n)); }
                x[j] = s / static_cast<long double>(n);
            }
            auto guard = false;
            auto y     = call(x, rep % 2, guard);
            auto out   = ints{};
            for (auto v : y) { out.push_back(!std::isfinite(v) || std::fabs(v - std::nearbyint(v)) > (std::same_as<F, float> ? 2e-2L : 1e-8L) ? NANV : std::llround(v)); }
            ev("dctspectrum").s("t", t).a("c", c).a("out", out).b("guard", guard);
        }
    }
}

template<typename C>
void deinterleave(rng& g, char const* t)
{
    for (std::size_t n = 1; n <= 40; ++n) {
        for (int form = 0; form < 3; ++form) {
            auto z = object<C>{1, n, form == 1 ? 'S' : 'R', 1};
            auto x = object<C>{1, n / 2 + 1, form == 2 ? 'S' : 'R', 0};
            auto y = object<C>{1, n / 2 + 1, form == 2 ? 'S' : 'R', 3};
            z.randomize(g, 100);
            auto const before = z.flat();
            if (form == 0) {
                neo::fft::rfft_deinterleave(z.template cvec<R>(), x.template vec<R>(), y.template vec<R>());
            } else if (form == 1) {
                neo::fft::rfft_deinterleave(z.template cvec<S>(), x.template vec<R>(), y.template vec<R>());
            } else {
                neo::fft::rfft_deinterleave(z.template cvec<R>(), x.template vec<S>(), y.template vec<S>());
            }
            auto twice = [](object<C> const& o) {
                auto out = ints{};
                for (auto v : unload(o)) {
                    out.push_back(exact(2.0L * v.real()));
                    out.push_back(exact(2.0L * v.imag()));
                }
                return out;
            };
            ev("deinterleave").s("t", t).i("n", static_cast<long long>(n)).a("z", before).a("x", twice(x)).a("y", twice(y)).b("guard", x.guard() && y.guard() && z.guard() && z.flat() == before);
        }
    }
}

template<typename C>
void deinterleave_large(rng& g, std::size_t n, char const* t)
{
    auto z = object<C>{1, n, 'R', 1};
    auto x = object<C>{1, n / 2 + 1, 'S', 0};
    auto y = object<C>{1, n / 2 + 1, 'R', 3};
    z.randomize(g, 100);
    neo::fft::rfft_deinterleave(z.template cvec<R>(), x.template vec<S>(), y.template vec<R>());
    auto const in = unload(z);
    auto const xs = unload(x);
    auto const ys = unload(y);
    auto ks = ints{};
    auto zi = ints{};
    auto xi = ints{};
    auto yi = ints{};
    auto put = [](ints& o, cld v, long double s) {
        o.push_back(exact(v.real() * s));
        o.push_back(exact(v.imag() * s));
    };
    for (std::size_t i = 0; i < 100; ++i) {
        auto const k = i == 0 ? n / 2 : i == 1 ? 1 : static_cast<std::size_t>(g.in(1, static_cast<long long>(n / 2)));
        ks.push_back(static_cast<long long>(k));
        put(zi, in[k], 1);
        put(zi, in[n - k], 1);
        put(xi, xs[k], 2);
        put(yi, ys[k], 2);
    }
    ev("deinterleaveat").s("t", t).i("n", static_cast<long long>(n)).a("ks", ks).a("z", zi).a("x", xi).a("y", yi).b("guard", x.guard() && y.guard() && z.guard());
}

void run()
{
    auto g  = rng{10};
    hist    = scenarios();
    // in several threads at once
    auto together = [&]<typename F>(F, char const* t) {
        using C    = std::complex<F>;
        auto noise = [&](rng& r) {
            auto x = object<F>{1, 128, 'R', 0};
            auto s = object<C>{1, 65, 'R', 0};
            auto p = neo::fft::rfft_plan<F, C>{neo::fft::from_order, std::size_t(7)};
            auto d = neo::fft::fallback_dct2_plan<F>{neo::fft::from_order, std::size_t(7)};
            auto q = neo::fft::experimental::rfft_plan<F>{neo::fft::from_order, std::size_t(7)};
            for (int k = 0; k < 20; ++k) {
                x.randomize(r, 5);
                neo::fft::rfft(p, x.template vec<R>(), s.template vec<R>());
                neo::fft::irfft(p, s.template vec<R>(), x.template vec<R>());
                d(x.template vec<R>());
                x.randomize(r, 5);
                q(x.template vec<R>(), neo::fft::direction::forward);
            }
        };
        auto all = [&](rng& r, int) {
            rfft_family<F, C>(r, 7, t, 7);
            packed_family<F>(r, 7, t, 7);
            dct_family<F>(r, 7, t, 7);
        };
        crowd(g, 2, all, noise, 3);
    };
    together(float{}, "f32");
    together(double{}, "f64");
    auto hi = g_thorough ? 10U : 8U;
    for (int r = 0; r < (g_thorough ? 3 : 1); ++r) {
        rfft_family<float, std::complex<float>>(g, hi, "f32");
        rfft_family<double, std::complex<double>>(g, hi, "f64");
#if not defined(NEO_VERIF_VENDOR)
        rfft_family<float, neo::complex64>(g, 5, "sf32");
#endif
        packed_family<float>(g, hi, "f32");
        packed_family<double>(g, hi, "f64");
        dct_family<float>(g, 6, "f32");
        dct_family<double>(g, hi, "f64");
        deinterleave<std::complex<float>>(g, "c64");
        deinterleave<std::complex<double>>(g, "c128");
    }
    deinterleave<neo::complex64>(g, "sc64");
    deinterleave_large<std::complex<float>>(g, 1000, "c64");
    deinterleave_large<std::complex<float>>(g, 70001, "c64");
    deinterleave_large<std::complex<double>>(g, 140000, "c128");
#if defined(NEO_VERIF_VENDOR)
    rfft_family<float, std::complex<float>>(g, 12, "f32", 9, true);
    rfft_family<double, std::complex<double>>(g, 12, "f64", 9, true);
    packed_family<float>(g, 10, "f32", 9, true);
    dct_family<double>(g, 10, "f64", 9, true);
    return;
#endif
    rfft_family<float, std::complex<float>>(g, 16, "f32", 9, true);
    rfft_family<double, std::complex<double>>(g, 17, "f64", 9, true);
#if not defined(NEO_VERIF_VENDOR)
    rfft_family<double, neo::complex128>(g, 12, "sf64", 10, true);
#endif
    packed_family<float>(g, 15, "f32", 9, true);
    packed_family<double>(g, 17, "f64", 9, true);
    dct_family<float>(g, 13, "f32", 9, true);
    dct_family<double>(g, 17, "f64", 9, true);
}

}  // namespace vh

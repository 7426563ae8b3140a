// Common driver for every complex transform: impulses, synthesised spectra, round trips
#pragma once
#include "la_common.hpp"

#include <neo/fft/direction.hpp>
#include <concepts>
#include <memory>
#include <neo/fft/order.hpp>

namespace vh {

using cld  = std::complex<long double>;
using cvec = std::vector<cld>;

struct result
{
    cvec out;
    bool guard{true};
};

inline auto root(std::size_t num, std::size_t den) -> cld
{
    // exact at multiples of a quarter turn
    auto const a = 2.0L * std::numbers::pi_v<long double> * static_cast<long double>(num % den) / static_cast<long double>(den);
    return {std::cos(a), std::sin(a)};
}

/// exponent e in [0, 4n) with |z - w^e| <= tol, else -1
inline auto decode(cld z, std::size_t n, long double tol) -> long long
{
    if (!std::isfinite(z.real()) || !std::isfinite(z.imag())) { return -1; }
    auto const turn = std::arg(z) / (2.0L * std::numbers::pi_v<long double>);
    auto e          = std::llround(turn * 4.0L * static_cast<long double>(n));
    auto const m    = static_cast<long long>(4 * n);
    e               = ((e % m) + m) % m;
    auto const d    = std::abs(z - root(static_cast<std::size_t>(e), 4 * n));
    return d <= tol ? e : -1;
}

template<typename F>
constexpr auto tolerance(std::size_t n) -> long double
{
    // working precision with room for the accumulation of rounding errors
    if constexpr (std::same_as<F, float>) {
        return std::min(2e-4L, 0.3L / static_cast<long double>(n));
    } else {
        return 1e-10L;
    }
}

/// rounding grows with the number of stages, not with the size
template<typename F>
auto large_tolerance(std::size_t n) -> long double
{
    auto const stages = std::log2(static_cast<long double>(n)) + 2;
    return stages * (std::same_as<F, float> ? 4.5e-7L : 1e-11L);
}

/// run: (cvec in, int dir, int form) -> result.  F: working precision
template<typename F, typename Run>
struct driver
{
    std::size_t n;
    char const* name;
    char const* t;
    Run run;
    rng& g;

    void impulse(std::size_t p, int q, int dir, int form, int k)
    {
        auto in = cvec(n);
        auto const unit = std::array<cld, 4>{cld{1, 0}, cld{0, 1}, cld{-1, 0}, cld{0, -1}};
        in[p]   = unit[static_cast<std::size_t>(q)] * std::ldexp(1.0L, k);
        auto r  = run(in, dir, form);
        auto e  = ints{};
        for (auto z : r.out) { e.push_back(decode(z * std::ldexp(1.0L, -k), n, tolerance<F>(n))); }
        ev("impulse").s("plan", name).s("t", t).i("form", form).i("dir", dir).i("p", static_cast<long long>(p)).i("q", q).a("exps", e).b("guard", r.guard);
    }

    /// large sizes: sampled bins only.  grain > 1: the answers are multiples of `grain` steps, read with a coarse tolerance
    void probe(std::size_t p, int q, int dir, int form, std::size_t grain, std::size_t count)
    {
        auto in = cvec(n);
        auto const unit = std::array<cld, 4>{cld{1, 0}, cld{0, 1}, cld{-1, 0}, cld{0, -1}};
        in[p]   = unit[static_cast<std::size_t>(q)];
        auto r  = run(in, dir, form);
        auto ks = ints{};
        for (std::size_t i = 0; i < count; ++i) {
            auto k = static_cast<std::size_t>(g.in(0, static_cast<long long>(n) - 1));
            if (i < 4) { k = i == 0 ? 0 : i == 1 ? 1 : i == 2 ? n - 1 : n / 2; }
            ks.push_back(static_cast<long long>(k));
        }
        auto e = ints{};
        for (auto k : ks) {
            auto const z = r.out.size() == n ? r.out[static_cast<std::size_t>(k)] : cld{};
            if (grain == 1) {
                e.push_back(decode(z, n, large_tolerance<F>(n)));
            } else {
                auto const c = decode(z, n / grain, 1e-2L);
                e.push_back(c < 0 ? -1 : c * static_cast<long long>(grain));
            }
        }
        ev("probe").s("plan", name).s("t", t).i("form", form).i("dir", dir).i("p", static_cast<long long>(p)).i("q", q).a("ks", ks).a("exps", e).b("guard", r.guard);
    }

    void probes(int forms, std::size_t count)
    {
        probe(1, 0, -1, 0, 1, count);
        probe(n - 1, 1, 1, 1 % forms, 1, count);
        probe(n / 2 + 1, 2, 1, 2 % forms, 1, count);
        probe(static_cast<std::size_t>(g.in(0, static_cast<long long>(n) - 1)), 3, -1, 3 % forms, 1, count);
    }

    /// there and back again, sampled positions of a dense signal
    void rtprobe(int dir, int form, std::size_t count)
    {
        auto in = cvec(n);
        for (auto& z : in) { z = {static_cast<long double>(g.in(-50, 50)), static_cast<long double>(g.in(-50, 50))}; }
        auto r1  = run(in, dir, form);
        auto r2  = run(r1.out, -dir, form);
        auto x   = ints{};
        auto s   = cvec{};
        for (std::size_t i = 0; i < count; ++i) {
            auto const k = static_cast<std::size_t>(g.in(0, static_cast<long long>(n) - 1));
            x.push_back(static_cast<long long>(in[k].real()));
            x.push_back(static_cast<long long>(in[k].imag()));
            s.push_back(r2.out[k]);
        }
        auto out = rounded(s, 1.0L / static_cast<long double>(n), std::same_as<F, float> ? 1e-2L : 1e-9L);
        ev("roundtrip").s("plan", name).s("t", t).i("form", form).i("dir", dir).a("x", x).a("out", out).b("guard", r1.guard && r2.guard);
    }

    void spectrum(int dir, int form, int k)
    {
        auto c  = ints{};
        auto sp = cvec{};
        auto const dense = g.flag(60);
        for (std::size_t i = 0; i < n; ++i) {
            auto const z = dense || g.flag(5);
            auto const a = z ? g.in(-8, 8) : 0;
            auto const b = z ? g.in(-8, 8) : 0;
            c.push_back(a);
            c.push_back(b);
            sp.emplace_back(static_cast<long double>(a), static_cast<long double>(b));
        }
        auto tw = cvec{};
        for (std::size_t i = 0; i < n; ++i) { tw.push_back(root(i, n)); }
        auto in = cvec(n);
        for (std::size_t j = 0; j < n; ++j) {
            auto sum = cld{};
            for (std::size_t i = 0; i < n; ++i) {
                auto const e = (i * j) % n;
                sum += sp[i] * (dir < 0 ? tw[e] : tw[(n - e) % n]);
            }
            in[j] = sum * std::ldexp(1.0L, k) / static_cast<long double>(n);
        }
        auto r   = run(in, dir, form);
        auto out = rounded(r.out, std::ldexp(1.0L, -k), std::same_as<F, float> ? 2e-2L : 1e-8L);
        ev("spectrum").s("plan", name).s("t", t).i("form", form).i("dir", dir).a("c", c).a("out", out).b("guard", r.guard);
    }

    void roundtrip(int dir, int form)
    {
        auto in = cvec(n);
        auto x  = ints{};
        for (auto& z : in) {
            auto const a = g.in(-50, 50);
            auto const b = g.in(-50, 50);
            x.push_back(a);
            x.push_back(b);
            z = {static_cast<long double>(a), static_cast<long double>(b)};
        }
        auto r1  = run(in, dir, form);
        auto r2  = run(r1.out, -dir, form);
        auto out = rounded(r2.out, 1.0L / static_cast<long double>(n), std::same_as<F, float> ? 3e-2L : 1e-8L);
        ev("roundtrip").s("plan", name).s("t", t).i("form", form).i("dir", dir).a("x", x).a("out", out).b("guard", r1.guard && r2.guard);
    }

    static auto rounded(cvec const& v, long double scale, long double tol) -> ints
    {
        auto out = ints{};
        for (auto z : v) {
            for (auto y : {z.real() * scale, z.imag() * scale}) {
                if (!std::isfinite(y) || std::fabs(y - std::nearbyint(y)) > tol) {
                    out.push_back(NANV);
                } else {
                    out.push_back(std::llround(y));
                }
            }
        }
        return out;
    }

    void history(ints const& h, int forms)
    {
        for (std::size_t i = 0; i + 4 < h.size(); i += 5) {
            auto const dir  = static_cast<int>(h[i + 1]);
            auto const form = static_cast<int>(h[i + 2]) % forms;
            auto const k    = g.flag(70) ? 0 : static_cast<int>(g.in(-20, 20));
            if (h[i] == 1) {
                impulse(static_cast<std::size_t>(h[i + 3]) * n / 1000U, static_cast<int>(h[i + 4]), dir, form, k);
            } else if (h[i] == 2) {
                spectrum(dir, form, k);
            } else {
                roundtrip(dir, form);
            }
        }
    }

    void all_impulses(std::size_t full, std::size_t samples, int forms)
    {
        if (n <= full) {
            for (std::size_t p = 0; p < n; ++p) {
                impulse(p, static_cast<int>(p % 4), -1, static_cast<int>(p) % forms, 0);
                impulse(p, static_cast<int>((p + 1) % 4), 1, static_cast<int>(p + 1) % forms, 0);
            }
        } else {
            for (std::size_t i = 0; i < samples; ++i) {
                auto p = static_cast<std::size_t>(g.in(0, static_cast<long long>(n) - 1));
                if (i == 0) { p = 1; }
                if (i == 1) { p = n - 1; }
                impulse(p, static_cast<int>(g.in(0, 3)), i % 2 == 0 ? -1 : 1, static_cast<int>(i) % forms, 0);
            }
        }
    }
};

template<typename F, typename Run>
auto make_driver(rng& g, std::size_t n, char const* name, char const* t, Run run)
{
    return driver<F, Run>{n, name, t, run, g};
}

inline auto scenarios() -> std::vector<ints>
{
    auto out = std::vector<ints>{};
    for (auto const& l : scenario_lines()) {
        auto v = parse_ints(l);
        if (!v.empty()) { out.push_back(v); }
    }
    return out;
}

template<typename C>
void load(object<C>& o, cvec const& in)
{
    using F = typename C::value_type;
    for (std::size_t i = 0; i < in.size(); ++i) { o.buf[o.idx(0, i)] = C{static_cast<F>(in[i].real()), static_cast<F>(in[i].imag())}; }
}
template<typename C>
auto unload(object<C> const& o) -> cvec
{
    auto out = cvec{};
    for (std::size_t i = 0; i < o.cols; ++i) {
        auto const z = o.buf[o.idx(0, i)];
        out.emplace_back(static_cast<long double>(z.real()), static_cast<long double>(z.imag()));
    }
    return out;
}
inline auto same(cvec const& a, cvec const& b) -> bool { return a == b; }

/// now and then a plan is replaced by a copy of itself, or moved somewhere else and back
template<typename Plan>
void refresh(rng& g, Plan& plan)
{
    replant(g, plan);
}

inline auto dirof(int d) -> neo::fft::direction { return d < 0 ? neo::fft::direction::forward : neo::fft::direction::backward; }

}  // namespace vh

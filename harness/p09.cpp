// P09: DFT of any size: the direct dft() and the Bluestein plan
#include "fft_common.hpp"

#include <neo/fft/dft.hpp>

namespace vh {

std::vector<ints> hist;
thread_local std::size_t nhist = 0;
auto next_history() -> ints const& { return hist[nhist++ % hist.size()]; }

void plan_event(char const* name, char const* t, std::size_t n, std::size_t size)
{
    ev("plan").s("plan", name).s("t", t).i("n", static_cast<long long>(n)).i("radix", static_cast<long long>(n)).i("order", 1).i("size", static_cast<long long>(size)).i("ord", 1);
}

template<typename C>
void bluestein(rng& g, std::size_t n, char const* t, bool full, std::size_t grain = 0)
{
    using F   = typename C::value_type;
    auto plan = neo::fft::dft_plan<C>{n};
    plan_event("bluestein", t, n, plan.size());
    auto run = [&](cvec const& in, int dir, int form) -> result {
        refresh(g, plan);
        if (form < 2) {
            auto o = object<C>{1, n, form == 0 ? 'R' : 'S', 1};
            load(o, in);
            auto call = [&](auto v) {
                if (dir < 0) {
                    neo::fft::dft(plan, v);
                } else {
                    neo::fft::idft(plan, v);
                }
            };
            if (form == 0) {
                call(o.template vec<R>());
            } else {
                call(o.template vec<S>());
            }
            return {unload(o), o.guard()};
        }
        auto i = object<C>{1, n, 'R', 2};
        auto o = object<C>{1, n, form == 2 ? 'R' : 'S', 0};
        load(i, in);
        auto const before = unload(i);
        auto call         = [&](auto x, auto y) {
            if (dir < 0) {
                neo::fft::dft(plan, x, y);
            } else {
                neo::fft::idft(plan, x, y);
            }
        };
        if (form == 2) {
            call(i.template vec<R>(), o.template vec<R>());
        } else {
            call(i.template vec<R>(), o.template vec<S>());
        }
        return {unload(o), o.guard() && i.guard() && same(unload(i), before)};
    };
    auto d = make_driver<F>(g, n, "bluestein", t, run);
    if (grain == 1) {
        d.probes(4, 60);
        d.rtprobe(-1, 0, 40);
        return;
    }
    if (grain > 1) {
        for (auto k : {1, 3, 5}) { d.probe(std::size_t(k) * (n / 8U), k % 4, k == 3 ? 1 : -1, k % 4, grain, 60); }
        return;
    }
    d.all_impulses(full ? 24 : 0, 4, 4);
    d.history(next_history(), 4);
}

template<typename C>
void direct(rng& g, std::size_t n, char const* t, bool large = false)
{
    using F = typename C::value_type;
    plan_event("dft", t, n, n);
    auto run = [&](cvec const& in, int dir, int form) -> result {
        auto i = object<C>{1, n, form % 2 == 0 ? 'R' : 'S', 2};
        auto o = object<C>{1, n, form < 2 ? 'R' : 'S', 0};
        load(i, in);
        auto const before = unload(i);
        auto call         = [&](auto x, auto y) {
            if (dir < 0 && form == 3) {
                neo::fft::dft(std::move(x), y);
            } else if (dir < 0) {
                neo::fft::dft(x, y, neo::fft::direction::forward);
            } else {
                neo::fft::dft(x, y, neo::fft::direction::backward);
            }
        };
        switch (form) {
            case 0: call(i.template vec<R>(), o.template vec<R>()); break;
            case 1: call(i.template vec<S>(), o.template vec<R>()); break;
            case 2: call(i.template vec<R>(), o.template vec<S>()); break;
            default: call(i.template vec<S>(), o.template vec<S>()); break;
        }
        return {unload(o), o.guard() && i.guard() && same(unload(i), before)};
    };
    auto d = make_driver<F>(g, n, "dft", t, run);
    if (large) {
        d.probes(4, 60);
        return;
    }
    d.all_impulses(10, 3, 4);
    d.history(next_history(), 4);
}

template<typename C>
void sizes(rng& g, char const* t, std::size_t max)
{
    for (std::size_t n = 1; n <= max; ++n) {
        bluestein<C>(g, n, t, true);
        if (n <= 40 || n % 7 == 0) { direct<C>(g, n, t); }
    }
    for (std::size_t n : {63, 64, 65, 97, 100, 127, 128, 129, 210, 255, 257, 360, 499}) {
        if (n > max) { bluestein<C>(g, n, t, false); }
    }
}

template<typename C>
void large(rng& g, char const* t)
{
    if constexpr (std::same_as<typename C::value_type, double>) {
        for (std::size_t n : {150, 1000, 2053}) { direct<C>(g, n, t, true); }
        for (std::size_t n : {1000, 2047, 4099, 10007, 32771, 46343, 65521, 65537, 65543, 92683, 131101}) { bluestein<C>(g, n, t, false, 1); }
    } else {
        for (std::size_t n : {1009, 2500}) { bluestein<C>(g, n, t, false, 1); }
        for (std::size_t n : {10008, 46352, 65544, 92688, 131112}) { bluestein<C>(g, n, t, false, n / 2); }
    }
}

void run()
{
    auto g   = rng{9};
    hist     = scenarios();
    // in several threads at once
    auto together = [&]<typename C>(C, char const* t) {
        auto noise = [&](rng& r) {
            auto plan = neo::fft::dft_plan<C>{45};
            auto i    = object<C>{1, 45, 'R', 0};
            auto o    = object<C>{1, 45, 'R', 0};
            i.randomize(r, 5);
            for (int k = 0; k < 30; ++k) {
                o.buf = i.buf;
                neo::fft::dft(plan, o.template vec<R>());
            }
            neo::fft::dft(i.template vec<R>(), o.template vec<R>());
        };
        crowd(g, 2, [&](rng& r, int k) { bluestein<C>(r, 45U, t, true), bluestein<C>(r, 45U, t, true), bluestein<C>(r, 40U + static_cast<std::size_t>(k), t, true), direct<C>(r, 45U, t); }, noise, 3);
    };
    together(std::complex<float>{}, "c64");
    together(std::complex<double>{}, "c128");
    auto m   = g_thorough ? 130U : 48U;
    sizes<std::complex<float>>(g, "c64", m);
    sizes<std::complex<double>>(g, "c128", m);
#if not defined(NEO_VERIF_VENDOR)
    large<std::complex<float>>(g, "c64");
    large<std::complex<double>>(g, "c128");
#endif
}

}  // namespace vh

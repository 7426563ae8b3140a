// P08: every FFT plan computes the DFT
#include "fft_common.hpp"

#include <neo/complex/scalar_complex.hpp>
#include <neo/fft.hpp>
#if defined(NEO_HAS_XSIMD)
    #include <neo/config/xsimd.hpp>
#endif

#include <cstdlib>
#include <new>

namespace vh {
std::size_t g_alloc_cap = ~std::size_t(0);
}
auto operator new(std::size_t size) -> void*
{
    auto* const p = size > vh::g_alloc_cap ? nullptr : std::malloc(size == 0 ? 1 : size);
    if (p == nullptr) { throw std::bad_alloc{}; }
    return p;
}
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }

namespace vh {

std::vector<ints> hist;
thread_local std::size_t nhist = 0;
auto next_history() -> ints const& { return hist[nhist++ % hist.size()]; }

template<typename Plan>
void plan_family(rng& g, std::size_t radix, std::size_t lo, std::size_t hi, char const* name, char const* t, bool large = false)
{
    using C = typename Plan::value_type;
    using F = typename C::value_type;
    for (std::size_t order = lo; order <= hi; ++order) {
        auto plan    = Plan{neo::fft::from_order, order};
        std::size_t n = 1;
        for (std::size_t i = 0; i < order; ++i) { n *= radix; }
        ev("plan").s("plan", name).s("t", t).i("n", static_cast<long long>(n)).i("radix", static_cast<long long>(radix)).i("order", static_cast<long long>(order)).i("size", static_cast<long long>(plan.size())).i("ord", static_cast<long long>(plan.order()));
        auto run = [&](cvec const& in, int dir, int form) -> result {
            refresh(g, plan);
            if (form == 0 || form == 1) {
                auto o = object<C>{1, n, form == 0 ? 'R' : 'S', 1};
                load(o, in);
                if (form == 0) {
                    if (dir < 0) {
                        neo::fft::fft(plan, o.template vec<R>());
                    } else {
                        neo::fft::ifft(plan, o.template vec<R>());
                    }
                } else {
                    plan(o.template vec<S>(), dirof(dir));
                }
                return {unload(o), o.guard()};
            }
            auto i = object<C>{1, n, 'R', 2};
            auto o = object<C>{1, n, form == 2 ? 'R' : 'S', 0};
            load(i, in);
            auto const before = unload(i);
            auto call         = [&](auto x, auto y) {
                if (dir < 0) {
                    neo::fft::fft(plan, x, y);
                } else {
                    neo::fft::ifft(plan, x, y);
                }
            };
            if (form == 2) {
                call(i.template cvec<R>(), o.template vec<R>());
            } else {
                call(i.template cvec<R>(), o.template vec<S>());
            }
            return {unload(o), o.guard() && i.guard() && same(unload(i), before)};
        };
        auto d = make_driver<F>(g, n, name, t, run);
        if (large) {
            d.probes(4, 60);
            d.rtprobe(-1, 0, 40);
            continue;
        }
        d.all_impulses(g_thorough ? 64 : 27, g_thorough ? 12 : 3, 4);
        if (n <= 300) {
            d.history(next_history(), 4);
            if (g_thorough) { d.history(next_history(), 4); }
        } else {
            d.spectrum(-1, 0, 0);
            d.spectrum(1, 2, 0);
            d.roundtrip(-1, 0);
        }
    }
}

/// plans of the same kind in several threads at once
template<typename Plan>
void plan_crowd(rng& g, std::size_t radix, std::size_t order, char const* name, char const* t)
{
    using C    = typename Plan::value_type;
    auto noise = [&](rng& r) {
        auto plan = Plan{neo::fft::from_order, order};
        auto o    = object<C>{1, plan.size(), 'R', 0};
        o.randomize(r, 5);
        for (int i = 0; i < 40; ++i) {
            plan(o.template vec<R>(), dirof(i % 2 == 0 ? 1 : -1));
            if (i % 2 == 1) { o.randomize(r, 5); }
        }
    };
    crowd(g, 2, [&](rng& r, int) { plan_family<Plan>(r, radix, order, order, name, t); }, noise, 3);
}

template<typename F>
void split_family(rng& g, std::size_t lo, std::size_t hi, char const* t, bool large = false)
{
    for (std::size_t order = lo; order <= hi; ++order) {
        auto plan    = neo::fft::split_fft_plan<F>{neo::fft::from_order, order};
        auto const n = std::size_t(1) << order;
        ev("plan").s("plan", "split").s("t", t).i("n", static_cast<long long>(n)).i("radix", 2).i("order", static_cast<long long>(order)).i("size", static_cast<long long>(plan.size())).i("ord", static_cast<long long>(plan.order()));
        auto load2 = [&](split_object<F>& o, cvec const& in) {
            for (std::size_t i = 0; i < n; ++i) {
                o.re.buf[o.re.idx(0, i)] = static_cast<F>(in[i].real());
                o.im.buf[o.im.idx(0, i)] = static_cast<F>(in[i].imag());
            }
        };
        auto unload2 = [&](split_object<F> const& o) {
            auto out = cvec{};
            for (std::size_t i = 0; i < n; ++i) { out.emplace_back(o.re.buf[o.re.idx(0, i)], o.im.buf[o.im.idx(0, i)]); }
            return out;
        };
        auto run = [&](cvec const& in, int dir, int form) -> result {
            refresh(g, plan);
            auto o = split_object<F>{n, form % 2 == 0 ? 'R' : 'S', 1};
            if (form < 2) {
                load2(o, in);
                auto call = [&](auto v) {
                    if (dir < 0) {
                        neo::fft::fft(plan, v);
                    } else {
                        neo::fft::ifft(plan, v);
                    }
                };
                if (form == 0) {
                    call(o.template view<R>());
                } else {
                    call(o.template view<S>());
                }
                return {unload2(o), o.guard()};
            }
            auto i = split_object<F>{n, 'R', 3};
            load2(i, in);
            auto const before = unload2(i);
            auto call         = [&](auto x, auto y) {
                if (dir < 0) {
                    neo::fft::fft(plan, x, y);
                } else {
                    neo::fft::ifft(plan, x, y);
                }
            };
            if (form == 2) {
                call(i.template cview<R>(), o.template view<R>());
            } else {
                call(i.template cview<R>(), o.template view<S>());
            }
            return {unload2(o), o.guard() && i.guard() && same(unload2(i), before)};
        };
        auto d = make_driver<F>(g, n, "split", t, run);
        if (large) {
            d.probes(4, 60);
            d.rtprobe(1, 1, 40);
            continue;
        }
        d.all_impulses(g_thorough ? 64 : 32, g_thorough ? 12 : 3, 4);
        if (n <= 300) {
            d.history(next_history(), 4);
        } else {
            d.spectrum(-1, 0, 0);
            d.spectrum(1, 2, 0);
            d.roundtrip(1, 0);
        }
    }
}

#if defined(NEO_HAS_XSIMD)
/// kernels on SIMD batches: every lane is an independent transform
template<typename F, typename Kernel>
void batch_family(rng& g, char const* name, char const* t)
{
    using Batch = xsimd::batch<std::complex<F>>;
    using RB    = typename Batch::real_batch;
    constexpr auto lanes = Batch::size;
    for (std::size_t order = 1; order <= 6; ++order) {
        auto const n = std::size_t(1) << order;
        ev("plan").s("plan", name).s("t", t).i("n", static_cast<long long>(n)).i("radix", 2).i("order", static_cast<long long>(order)).i("size", static_cast<long long>(n)).i("ord", static_cast<long long>(order));
        std::size_t lane = 0;
        auto run         = [&](cvec const& in, int dir, int) -> result {
            auto tw = neo::fft::make_twiddle_lut_radix2<std::complex<F>>(n, dirof(dir));
            auto bt = stdex::mdarray<Batch, stdex::dextents<std::size_t, 1>>{n / 2};
            for (std::size_t i = 0; i < n / 2; ++i) { bt(i) = Batch{RB::broadcast(tw(i).real()), RB::broadcast(tw(i).imag())}; }
            auto buf = stdex::mdarray<Batch, stdex::dextents<std::size_t, 1>>{n};
            lane     = (lane + 1) % lanes;
            for (std::size_t i = 0; i < n; ++i) {
                alignas(64) std::array<F, lanes> re{}, im{};
                for (std::size_t k = 0; k < lanes; ++k) { re[k] = static_cast<F>(k + i), im[k] = static_cast<F>(1); }
                re[lane] = static_cast<F>(in[i].real());
                im[lane] = static_cast<F>(in[i].imag());
                buf(i)   = Batch{RB::load_unaligned(re.data()), RB::load_unaligned(im.data())};
            }
            auto v = buf.to_mdspan();
            neo::fft::bitrevorder(v);
            Kernel{}(v, bt.to_mdspan());
            auto out = cvec{};
            for (std::size_t i = 0; i < n; ++i) {
                std::array<F, lanes> re{}, im{};
                v[i].real().store_unaligned(re.data());
                v[i].imag().store_unaligned(im.data());
                out.emplace_back(re[lane], im[lane]);
            }
            return {out, true};
        };
        auto d = make_driver<F>(g, n, name, t, run);
        d.all_impulses(16, 4, 1);
        d.history(next_history(), 1);
    }
}
#endif

template<typename C>
void all_plans(rng& g, char const* t)
{
    using namespace neo::fft;
    if constexpr (neo::complex<C> and not std::same_as<C, neo::complex64> and not std::same_as<C, neo::complex128>) {
        plan_crowd<fft_plan<C>>(g, 2, 7, "dit2_v3", t);
        plan_crowd<c2c_dit2_plan<C, kernel::c2c_dit2_v1>>(g, 2, 7, "dit2_v1", t);
        plan_crowd<c2c_dit2_plan<C, kernel::c2c_dit2_v2>>(g, 2, 7, "dit2_v2", t);
        plan_crowd<c2c_dit2_plan<C, kernel::c2c_dit2_v4>>(g, 2, 7, "dit2_v4", t);
        plan_crowd<c2c_dit4_plan<C>>(g, 4, 3, "dit4", t);
        plan_crowd<c2c_dif4_plan<C>>(g, 4, 3, "dif4", t);
        plan_crowd<c2c_dif3_plan<C>>(g, 3, 4, "dif3", t);
        plan_crowd<c2c_dif5_plan<C>>(g, 5, 3, "dif5", t);
        plan_crowd<c2c_stockham_dif2r_plan<C>>(g, 2, 7, "stockham_dif2r", t);
        plan_crowd<c2c_stockham_dif2i_plan<C>>(g, 2, 7, "stockham_dif2i", t);
        plan_crowd<c2c_stockham_dif3_plan<C>>(g, 3, 4, "stockham_dif3", t);
        plan_crowd<c2c_stockham_dif4_plan<C>>(g, 4, 3, "stockham_dif4", t);
        plan_crowd<c2c_stockham_dif5_plan<C>>(g, 5, 3, "stockham_dif5", t);
        plan_crowd<c2c_stockham_dif8_plan<C>>(g, 8, 2, "stockham_dif8", t);
        plan_crowd<c2c_stockham_dit4_plan<C>>(g, 4, 3, "stockham_dit4", t);
    }
    auto const big = g_thorough ? 1U : 0U;
    plan_family<c2c_dit2_plan<C, kernel::c2c_dit2_v1>>(g, 2, 0, 8 + big, "dit2_v1", t);
    plan_family<c2c_dit2_plan<C, kernel::c2c_dit2_v2>>(g, 2, 0, 8 + big, "dit2_v2", t);
    plan_family<c2c_dit2_plan<C, kernel::c2c_dit2_v3>>(g, 2, 0, 10 + big, "dit2_v3", t);
    plan_family<c2c_dit2_plan<C, kernel::c2c_dit2_v4>>(g, 2, 0, 8 + big, "dit2_v4", t);
    plan_family<c2c_dit4_plan<C>>(g, 4, 0, 4 + big, "dit4", t);
    plan_family<c2c_dif4_plan<C>>(g, 4, 0, 4 + big, "dif4", t);
    plan_family<c2c_dif3_plan<C>>(g, 3, 0, 5 + big, "dif3", t);
    plan_family<c2c_dif5_plan<C>>(g, 5, 0, 3 + big, "dif5", t);
    plan_family<c2c_stockham_dif2r_plan<C>>(g, 2, 0, 8 + big, "stockham_dif2r", t);
    plan_family<c2c_stockham_dif2i_plan<C>>(g, 2, 0, 8 + big, "stockham_dif2i", t);
    plan_family<c2c_stockham_dif3_plan<C>>(g, 3, 0, 5 + big, "stockham_dif3", t);
    plan_family<c2c_stockham_dif4_plan<C>>(g, 4, 0, 4 + big, "stockham_dif4", t);
    plan_family<c2c_stockham_dif5_plan<C>>(g, 5, 0, 3 + big, "stockham_dif5", t);
    plan_family<c2c_stockham_dif8_plan<C>>(g, 8, 0, 3 + big, "stockham_dif8", t);
    plan_family<c2c_stockham_dit4_plan<C>>(g, 4, 0, 4 + big, "stockham_dit4", t);
    using P = std::conditional_t<std::same_as<typename C::value_type, float>, std::integral_constant<std::size_t, 16>, std::integral_constant<std::size_t, 18>>;
    auto const top = std::size_t(P::value);
    plan_family<c2c_dit2_plan<C, kernel::c2c_dit2_v1>>(g, 2, 9, 14, "dit2_v1", t, true);
    plan_family<c2c_dit2_plan<C, kernel::c2c_dit2_v2>>(g, 2, 9, 15, "dit2_v2", t, true);
    plan_family<c2c_dit2_plan<C, kernel::c2c_dit2_v3>>(g, 2, 11, top, "dit2_v3", t, true);
    plan_family<c2c_dit2_plan<C, kernel::c2c_dit2_v4>>(g, 2, 9, 13, "dit2_v4", t, true);
    plan_family<c2c_dit4_plan<C>>(g, 4, 5, 7, "dit4", t, true);
    plan_family<c2c_dif4_plan<C>>(g, 4, 5, 7, "dif4", t, true);
    if constexpr (std::same_as<typename C::value_type, double>) {  // these two step through the twiddles by multiplication
        plan_family<c2c_dif3_plan<C>>(g, 3, 6, 9, "dif3", t, true);
        plan_family<c2c_dif5_plan<C>>(g, 5, 4, 6, "dif5", t, true);
    }
    plan_family<c2c_stockham_dif2r_plan<C>>(g, 2, 9, 16, "stockham_dif2r", t, true);
    plan_family<c2c_stockham_dif2i_plan<C>>(g, 2, 9, 15, "stockham_dif2i", t, true);
    plan_family<c2c_stockham_dif3_plan<C>>(g, 3, 6, 9, "stockham_dif3", t, true);
    plan_family<c2c_stockham_dif4_plan<C>>(g, 4, 5, 8, "stockham_dif4", t, true);
    plan_family<c2c_stockham_dif5_plan<C>>(g, 5, 4, 6, "stockham_dif5", t, true);
    plan_family<c2c_stockham_dif8_plan<C>>(g, 8, 4, 5, "stockham_dif8", t, true);
    plan_family<c2c_stockham_dit4_plan<C>>(g, 4, 5, 7, "stockham_dit4", t, true);
    // a size beyond the maximum is refused, not computed
    auto refused = false;
    try {
        auto p = fft_plan<C>{from_order, fft_plan<C>::max_order() + 1U};
    } catch (...) {
        refused = true;
    }
    ev("refuse").s("t", t).b("r", refused);
    // the maximum itself is accepted (the memory for it is withheld: running out of it is not a refusal)
    auto accepted = true;
    g_alloc_cap   = std::size_t(1) << 26;
    try {
        auto p = fft_plan<C>{from_order, fft_plan<C>::max_order()};
    } catch (std::bad_alloc const&) {
    } catch (...) {
        accepted = false;
    }
    g_alloc_cap = ~std::size_t(0);
    ev("accept").s("t", t).b("r", accepted);
}

#if defined(NEO_VERIF_VENDOR)
/// the default plans are wrappers of a vendor library
void vendor_plans(rng& g)
{
    auto const hi = g_thorough ? 11U : 9U;
    auto family   = [&]<typename C>(C, char const* t) {
        plan_family<neo::fft::fft_plan<C>>(g, 2, 0, hi, "default", t);
        plan_family<neo::fft::fft_plan<C>>(g, 2, 15, 15, "default", t, true);
        auto refused = false;
        try {
            auto p = neo::fft::fft_plan<C>{neo::fft::from_order, neo::fft::fft_plan<C>::max_order() + 1U};
        } catch (...) {
            refused = true;
        }
        ev("refuse").s("t", t).b("r", refused);
    };
    family(std::complex<float>{}, "c64");
    family(std::complex<double>{}, "c128");
    family(neo::complex64{}, "sc64");
    family(neo::complex128{}, "sc128");
    split_family<float>(g, 0, hi, "f32");
    split_family<double>(g, 0, hi, "f64");
    split_family<float>(g, 14, 14, "f32", true);
}
#endif

void run()
{
    auto g = rng{8};
    hist   = scenarios();
#if defined(NEO_VERIF_VENDOR)
    vendor_plans(g);
    return;
#endif
    all_plans<std::complex<float>>(g, "c64");
    all_plans<std::complex<double>>(g, "c128");
    all_plans<neo::complex64>(g, "sc64");
    all_plans<neo::complex128>(g, "sc128");
    auto split_crowd = [&]<typename F>(F, char const* t) {
        auto noise = [&](rng& r) {
            auto plan = neo::fft::split_fft_plan<F>{neo::fft::from_order, 7};
            auto o    = split_object<F>{128, 'R', 0};
            for (int i = 0; i < 40; ++i) {
                if (i % 2 == 0) { o.randomize(r, 5); }
                neo::fft::fft(plan, o.template view<R>());
            }
        };
        crowd(g, 2, [&](rng& r, int) { split_family<F>(r, 7, 7, t); }, noise, 3);
    };
    split_crowd(float{}, "f32");
    split_crowd(double{}, "f64");
    split_family<float>(g, 0, 10, "f32");
    split_family<double>(g, 0, 10, "f64");
    split_family<float>(g, 11, 16, "f32", true);
    split_family<double>(g, 11, 17, "f64", true);
#if defined(NEO_HAS_XSIMD)
    batch_family<float, neo::fft::kernel::c2c_dit2_v1>(g, "batch_v1", "b32");
    batch_family<float, neo::fft::kernel::c2c_dit2_v2>(g, "batch_v2", "b32");
    batch_family<float, neo::fft::kernel::c2c_dit2_v3>(g, "batch_v3", "b32");
    batch_family<float, neo::fft::kernel::c2c_dit2_v4>(g, "batch_v4", "b32");
    batch_family<double, neo::fft::kernel::c2c_dit2_v3>(g, "batch_v3", "b64");
    batch_family<double, neo::fft::kernel::c2c_dit2_v4>(g, "batch_v4", "b64");
#endif
}

}  // namespace vh

// P11: bit- and digit-reversal reordering
#include "la_common.hpp"

#include <neo/fft/reference/bitrevorder.hpp>
#include <neo/fft/reference/digitrevorder.hpp>

namespace vh {

/// tags: real and imaginary part travel together
template<typename T>
auto tags(object<T> const& o) -> ints
{
    auto const f = o.flat();
    auto out     = ints{};
    for (std::size_t i = 0; i < f.size(); i += 2) { out.push_back(elem<T>::cx ? (f[i + 1] == -f[i] - 1 ? f[i] : NANV) : f[i]); }
    return out;
}
template<typename T>
void tag(object<T>& o, std::vector<long long> const& vals)
{
    for (std::size_t j = 0; j < o.cols; ++j) { o.buf[o.idx(0, j)] = elem<T>::make(vals[j], -vals[j] - 1); }
}

auto shuffled(rng& g, std::size_t n) -> ints
{
    auto v = ints(n);
    std::iota(v.begin(), v.end(), 0);
    if (g.flag(50)) {
        for (std::size_t i = n; i > 1; --i) { std::swap(v[i - 1], v[static_cast<std::size_t>(g.in(0, static_cast<long long>(i) - 1))]); }
    }
    return v;
}

void log(char const* what, std::size_t radix, std::size_t order, ints const& before, ints const& after, bool guard)
{
    ev("rev").s("what", what).i("radix", static_cast<long long>(radix)).i("order", static_cast<long long>(order)).a("before", before).a("after", after).b("guard", guard);
}

template<typename C>
void complex_forms(rng& g, std::size_t order)
{
    auto const n = std::size_t(1) << order;
    auto plan    = neo::fft::bitrevorder_plan{order};
    for (char k : {'R', 'S'}) {
        auto o = object<C>{1, n, k, static_cast<std::size_t>(g.in(0, 3))};
        tag(o, shuffled(g, n));
        for (int rep = 0; rep < 2; ++rep) {
            auto const before = tags(o);
            if (k == 'R') {
                plan(o.template vec<R>());
            } else {
                plan(o.template vec<S>());
            }
            log("plan", 2, order, before, tags(o), o.guard());
        }
        tag(o, shuffled(g, n));
        auto const before = tags(o);
        if (k == 'R') {
            neo::fft::bitrevorder(o.template vec<R>());
        } else {
            neo::fft::bitrevorder(o.template vec<S>());
        }
        log("free", 2, order, before, tags(o), o.guard());
    }
}

/// interleaved real storage: element i at 2i (re) and 2i+1 (im)
template<typename F>
void real_forms(rng& g, std::size_t order)
{
    auto const n = std::size_t(1) << order;
    auto plan    = neo::fft::bitrevorder_plan{order};
    for (int form = 0; form < 4; ++form) {
        auto o    = object<F>{1, 2 * n, form % 2 == 0 ? 'R' : 'S', 1};
        auto vals = shuffled(g, n);
        for (std::size_t i = 0; i < n; ++i) {
            o.buf[o.idx(0, 2 * i)]     = static_cast<F>(vals[i]);
            o.buf[o.idx(0, 2 * i + 1)] = static_cast<F>(-vals[i] - 1);
        }
        if (form == 0) {
            plan(o.template vec<R>());
        } else if (form == 1) {
            plan(o.template vec<S>());
        } else if (form == 2) {
            neo::fft::bitrevorder(o.template vec<R>());
        } else {
            neo::fft::bitrevorder(o.template vec<S>());
        }
        auto after = ints{};
        for (std::size_t i = 0; i < n; ++i) {
            auto const re = exact(o.buf[o.idx(0, 2 * i)]);
            auto const im = exact(o.buf[o.idx(0, 2 * i + 1)]);
            after.push_back(im == -re - 1 ? re : NANV);
        }
        log("interleaved", 2, order, vals, after, o.guard());
    }
    for (char k : {'R', 'S'}) {
        auto s    = split_object<F>{n, k, 1};
        auto vals = shuffled(g, n);
        for (std::size_t i = 0; i < n; ++i) {
            s.re.buf[s.re.idx(0, i)] = static_cast<F>(vals[i]);
            s.im.buf[s.im.idx(0, i)] = static_cast<F>(-vals[i] - 1);
        }
        if (k == 'R') {
            plan(s.template view<R>());
        } else {
            plan(s.template view<S>());
        }
        auto const f = s.flat();
        auto after   = ints{};
        for (std::size_t i = 0; i < n; ++i) { after.push_back(f[2 * i + 1] == -f[2 * i] - 1 ? f[2 * i] : NANV); }
        log("split", 2, order, vals, after, s.guard());
    }
}

template<std::size_t Radix, typename C>
void digits(rng& g, std::size_t max)
{
    for (std::size_t order = 0, n = 1; n <= max; ++order, n *= Radix) {
        auto plan = neo::fft::digitrevorder_plan<Radix>{n};
        for (char k : {'R', 'S'}) {
            auto o = object<C>{1, n, k, 2};
            tag(o, shuffled(g, n));
            for (int rep = 0; rep < 2; ++rep) {
                auto const before = tags(o);
                if (k == 'R') {
                    plan(o.template vec<R>());
                } else {
                    plan(o.template vec<S>());
                }
                log("digits", Radix, order, before, tags(o), o.guard());
            }
        }
    }
}

/// large orders: what arrives at sampled positions
template<typename C, typename Call>
void sampled(rng& g, std::size_t radix, std::size_t order, char const* what, Call call)
{
    auto n = std::size_t(1);
    for (std::size_t i = 0; i < order; ++i) { n *= radix; }
    auto o = object<C>{1, n, 'R', 0};
    for (std::size_t j = 0; j < n; ++j) { o.buf[o.idx(0, j)] = elem<C>::make(static_cast<long long>(j), 0); }
    call(n, o.template vec<R>());
    auto at  = ints{};
    auto got = ints{};
    for (std::size_t i = 0; i < 300; ++i) {
        auto k = static_cast<std::size_t>(g.in(0, static_cast<long long>(n) - 1));
        if (i < 3) { k = i == 0 ? 0 : i == 1 ? 1 : n - 1; }
        at.push_back(static_cast<long long>(k));
        got.push_back(exact(o.buf[o.idx(0, k)].real()));
    }
    ev("revat").s("what", what).i("radix", static_cast<long long>(radix)).i("order", static_cast<long long>(order)).a("at", at).a("got", got).b("guard", o.guard());
}

template<std::size_t Radix>
void sampled_digits(rng& g, std::size_t order)
{
    sampled<std::complex<double>>(g, Radix, order, "digits", [](std::size_t n, auto v) { neo::fft::digitrevorder_plan<Radix>{n}(v); });
}

void run()
{
    auto g         = rng{11};
    auto const max = g_thorough ? 11U : 9U;
    for (std::size_t order = 0; order <= max; ++order) {
        complex_forms<std::complex<float>>(g, order);
        complex_forms<std::complex<double>>(g, order);
        complex_forms<neo::complex64>(g, order);
        real_forms<float>(g, order);
        real_forms<double>(g, order);
    }
    digits<2, std::complex<float>>(g, 256);
    digits<3, std::complex<double>>(g, 800);
    digits<4, std::complex<float>>(g, 1024);
    digits<4, std::complex<double>>(g, 256);
    digits<5, std::complex<float>>(g, 700);
    digits<8, std::complex<double>>(g, 512);
    for (std::size_t order : {10U, 12U, 15U, 16U, 17U, 18U, 20U}) {
        sampled<std::complex<double>>(g, 2, order, "plan", [order](std::size_t, auto v) { neo::fft::bitrevorder_plan{order}(v); });
        sampled<std::complex<double>>(g, 2, order, "free", [](std::size_t, auto v) { neo::fft::bitrevorder(v); });
    }
    sampled_digits<2>(g, 17);
    sampled_digits<3>(g, 11);
    sampled_digits<4>(g, 9);
    sampled_digits<5>(g, 7);
    sampled_digits<8>(g, 6);
}

}  // namespace vh

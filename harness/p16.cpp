// P16: normalize_energy, normalize_peak, normalize_impulse
#include "la_common.hpp"

#include <neo/algorithm/normalize_energy.hpp>
#include <neo/algorithm/normalize_peak.hpp>
#include <neo/convolution/normalize_impulse.hpp>

namespace vh {

template<bool Vec, typename T>
void with_view(object<T>& o, int alt, auto f)
{
    if constexpr (Vec) {
        if (o.kind == 'S') { return f(o.template vec<S>()); }
        if (alt == 0) { return f(o.template vec<R>()); }
        return f(o.template vec<L>());
    } else {
        if (o.kind == 'S') { return f(o.template mat<S>()); }
        if (o.kind == 'R') { return f(o.template mat<R>()); }
        return f(o.template mat<L>());
    }
}

using places = std::vector<std::size_t>;

/// all of a small extent; of a large one the ends, the powers of two around which narrow types wrap, and a random place
inline auto pick(rng& g, std::size_t n) -> places
{
    auto out = places{};
    if (n <= 40) {
        for (std::size_t i = 0; i < n; ++i) { out.push_back(i); }
        return out;
    }
    for (auto i : {std::size_t{0}, std::size_t{3}, n - 1, n - 2, std::size_t{255}, std::size_t{256}, std::size_t{32768}, std::size_t{65536}, static_cast<std::size_t>(g.in(1, static_cast<long long>(n) - 1))}) {
        if (i < n) { out.push_back(i); }
    }
    std::sort(out.begin(), out.end());
    out.erase(std::unique(out.begin(), out.end()), out.end());
    return out;
}

template<typename T>
auto logical(object<T> const& o, places const& is, places const& js, auto f) -> ints
{
    auto out = ints{};
    for (auto i : is) {
        for (auto j : js) { out.push_back(f(o.buf[o.idx(i, j)])); }
    }
    return out;
}

/// everything that is not recorded stays zero
template<typename T>
auto rest_silent(object<T> const& o, places const& is, places const& js) -> bool
{
    if (is.size() == o.rows && js.size() == o.cols) { return true; }
    for (std::size_t i = 0, p = 0; i < o.rows; ++i) {
        auto const row = p < is.size() && is[p] == i;
        for (std::size_t j = 0, q = 0; j < o.cols; ++j) {
            auto const hit = q < js.size() && js[q] == j;
            if (!(row && hit) && o.buf[o.idx(i, j)] != T(0)) { return false; }
            if (hit) { ++q; }
        }
        if (row) { ++p; }
    }
    return true;
}

/// the data are integers times 2^k
template<bool Vec, typename T>
void one(rng& g, std::size_t rows, std::size_t cols, char kind, char const* t)
{
    auto x          = object<T>{rows, cols, kind, static_cast<std::size_t>(g.in(0, 3))};
    auto const is   = pick(g, rows);
    auto const js   = pick(g, cols);
    auto const mode = g.in(0, 9);
    auto lx         = ints{};
    for (auto i : is) {
        auto const silent = g.flag(15);
        auto const amp    = g.in(1, 30);
        for (auto j : js) {
            auto v = g.in(-amp, amp);
            if (mode == 0 || (silent && mode < 8)) { v = 0; }
            if (mode == 1) { v = -std::abs(v); }
            if (mode == 2) { v = (i == rows - 1 && j == cols - 1) ? 25 : 0; }
            if (mode == 3) { v = (i == 0 && j == cols - 1) ? -12 : ((i == rows - 1 && j == 0) ? 5 : 0); }
            if (mode == 4) { v = 2; }
            if (i == 3 && is.size() < rows) { v = 0; }   // stands for the rows that are not recorded
            lx.push_back(v);
        }
    }
    if (!lx.empty() && (is.size() < rows || js.size() < cols) && g.flag(75)) {   // one loud place, often the end of a row
        auto const i = g.flag(50) ? is.size() - 1 : static_cast<std::size_t>(g.in(0, static_cast<long long>(is.size()) - 1));
        auto const j = g.flag(50) ? js.size() - 1 : static_cast<std::size_t>(g.in(0, static_cast<long long>(js.size()) - 1));
        if (!(is.size() < rows && is[i] == 3)) { lx[i * js.size() + j] = g.flag(50) ? 40 : -40; }
    }
    // from hardly audible to enormous: the energy stays a normal number
    constexpr auto far = std::same_as<T, float> ? 54 : 480;
    auto const k       = g.flag(30) ? 0 : g.flag(50) ? static_cast<int>(g.in(-12, 12)) : static_cast<int>(g.in(-far, far));
    auto load    = [&](object<T>& o) {
        std::size_t p = 0;
        for (std::size_t i = 0; i < rows && (is.size() < rows || js.size() < cols); ++i) {
            for (std::size_t j = 0; j < cols; ++j) { o.buf[o.idx(i, j)] = T(0); }
        }
        for (auto i : is) {
            for (auto j : js) { o.buf[o.idx(i, j)] = static_cast<T>(std::ldexp(static_cast<T>(lx[p++]), k)); }
        }
    };
    auto unscaled = [&](object<T> const& o) { return logical(o, is, js, [&](T v) { return exact(std::ldexp(static_cast<long double>(v), -k)); }); };
    auto const alt = static_cast<int>(g.in(0, 1));

    {
        load(x);
        auto f = T{};
        with_view<Vec>(x, alt, [&](auto v) { f = neo::normalize_energy_factor(v); });
        auto const same = unscaled(x) == lx;
        with_view<Vec>(x, alt, [&](auto v) { neo::normalize_energy(v); });
        auto const scale = [&] {
            long long e = 0;
            for (auto v : lx) { e += v * v; }
            return e == 0 ? 0 : k;
        }();
        ev("energy").s("t", t).a("x", lx).i("k", k).a("y", logical(x, is, js, [](T v) { return ri(static_cast<long double>(v), 16384.0L); })).a("z", unscaled(x)).i("f", ri(std::ldexp(static_cast<long double>(f), scale), 1e9L)).b("guard", same && x.guard() && rest_silent(x, is, js));
    }
    {
        load(x);
        with_view<Vec>(x, alt, [&](auto v) { (void)neo::normalize_peak_factor(v); });
        auto const same = unscaled(x) == lx;
        with_view<Vec>(x, alt, [&](auto v) { neo::normalize_peak(v); });
        ev("peak").s("t", t).a("x", lx).i("k", k).a("y", logical(x, is, js, [](T v) { return ri(static_cast<long double>(v), 1e6L); })).a("z", unscaled(x)).b("guard", same && x.guard() && rest_silent(x, is, js));
    }
    {
        load(x);
        with_view<Vec>(x, alt, [&](auto v) { neo::convolution::normalize_impulse(v); });
        ev("impulse").s("t", t).a("x", lx).i("rows", static_cast<long long>(is.size())).i("cols", static_cast<long long>(js.size())).i("k", Vec ? 0 : k).a("y", logical(x, is, js, [](T v) { return ri(static_cast<long double>(v), 16384.0L); })).a("z", unscaled(x)).b("guard", x.guard() && rest_silent(x, is, js));
    }
}

template<typename F>
void family(rng& g, char const* t)
{
    // long and large objects: silent except in a few rows and columns, which are all that is recorded
    for (int rep = 0; rep < 2; ++rep)
    for (auto [a, b] : {std::pair{1, 257}, {1, 4100}, {1, 70001}, {2, 300}, {300, 2}, {3, 33000}, {33000, 3}, {2, 66000}, {70000, 1}, {260, 260}}) {
        for (char k : {'R', 'L', 'S'}) { one<false, F>(g, static_cast<std::size_t>(a), static_cast<std::size_t>(b), k, t); }
        if (a == 1) {
            one<true, F>(g, 1, static_cast<std::size_t>(b), 'R', t);
            one<true, F>(g, 1, static_cast<std::size_t>(b), 'S', t);
        }
    }

    auto const reps = g_thorough ? 12 : 3;
    for (int r = 0; r < reps; ++r) {
        for (std::size_t n = 0; n <= 33; ++n) {
            one<true, F>(g, 1, n, 'R', t);
            one<true, F>(g, 1, n, 'S', t);
        }
        for (auto [a, b] : {std::pair{1, 1}, {1, 7}, {2, 1}, {2, 3}, {3, 2}, {5, 1}, {4, 4}, {2, 16}, {3, 7}, {7, 3}, {0, 4}, {4, 0}}) {
            for (char k : {'R', 'L', 'S'}) { one<false, F>(g, static_cast<std::size_t>(a), static_cast<std::size_t>(b), k, t); }
        }
    }
}

void run()
{
    auto g = rng{16};
    family<float>(g, "f32");
    family<double>(g, "f64");
}

}  // namespace vh

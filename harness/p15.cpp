// P15: mean, variance, standard deviation, (root) mean squared error, allmatch, allclose
#include "la_common.hpp"

#include <neo/algorithm/allclose.hpp>
#include <neo/algorithm/allmatch.hpp>
#include <neo/algorithm/mean.hpp>
#include <neo/algorithm/mean_squared_error.hpp>
#include <neo/algorithm/root_mean_squared_error.hpp>
#include <neo/algorithm/standard_deviation.hpp>
#include <neo/algorithm/variance.hpp>

namespace vh {

template<bool Vec, typename T>
void with_view(object<T>& o, int alt, auto f)
{
    if constexpr (Vec) {
        if (o.kind == 'S') { return f(o.template vec<S>()); }
        if (alt == 0) { return f(o.template vec<R>()); }
        return f(o.template vec<L>());
    } else {
        if (o.kind == 'S') { return f(o.template mat<S>()); }
        if (o.kind == 'R') { return f(o.template mat<R>()); }
        return f(o.template mat<L>());
    }
}

template<typename T>
auto logical(object<T> const& o) -> ints
{
    auto f = o.flat();
    if constexpr (elem<T>::cx) {
        return f;
    } else {
        auto out = ints{};
        for (std::size_t i = 0; i < f.size(); i += 2) { out.push_back(f[i]); }
        return out;
    }
}

template<bool Vec, typename T>
void stats(rng& g, std::size_t rows, std::size_t cols, char k1, char k2, char const* t)
{
    auto const tol = std::same_as<T, float> ? 60 : 1;
    auto x         = object<T>{rows, cols, k1, static_cast<std::size_t>(g.in(0, 3))};
    auto y         = object<T>{rows, cols, k2, static_cast<std::size_t>(g.in(0, 3))};
    x.randomize(g, 9);
    y.randomize(g, 9);
    auto const mode = g.in(0, 3);
    if (mode == 0) {
        // one outlier at a random position
        for (std::size_t i = 0; i < rows; ++i) {
            for (std::size_t j = 0; j < cols; ++j) { x.buf[x.idx(i, j)] = T(3); }
        }
        if (rows * cols > 0) {
            x.buf[x.idx(static_cast<std::size_t>(g.in(0, static_cast<long long>(rows) - 1)), static_cast<std::size_t>(g.in(0, static_cast<long long>(cols) - 1)))] = T(-9);
        }
    }
    // values around a large offset: the spread must not drown in it
    auto const off = mode == 1 ? (std::same_as<T, float> ? 10000LL : 1000000LL) * (g.flag(50) ? 1 : -1) : 0LL;
    if (mode == 1) {
        for (std::size_t i = 0; i < rows; ++i) {
            for (std::size_t j = 0; j < cols; ++j) {
                x.buf[x.idx(i, j)] += static_cast<T>(off);
                y.buf[y.idx(i, j)] += static_cast<T>(off);
            }
        }
    }
    auto const lx = logical(x);
    auto const ly = logical(y);
    auto ok       = [&] { return logical(x) == lx && logical(y) == ly && x.guard() && y.guard(); };
    auto const mt = mode == 1 && std::same_as<T, float> ? 2500 : tol;
    auto const ax = static_cast<int>(g.in(0, 1));
    auto const ay = static_cast<int>(g.in(0, 1));
    with_view<Vec>(x, ax, [&](auto vx) {
        auto const m = neo::mean(vx);
        ev("mean").s("t", t).a("x", lx).b("has", m.has_value()).i("off", off).i("r", m.has_value() ? ri(static_cast<long double>(*m) - static_cast<long double>(off), 1e6L) : 0).i("tol", mt).b("guard", ok());
        if (rows * cols > 0) {
            ev("mean").s("t", t).a("x", lx).b("has", true).i("off", off).i("r", ri(static_cast<long double>(neo::mean_unchecked(vx)) - static_cast<long double>(off), 1e6L)).i("tol", mt).b("guard", ok());
        }
        auto const v = neo::variance(vx);
        ev("var").s("t", t).a("x", lx).b("has", v.has_value()).i("r", ri(static_cast<long double>(v.value_or(0)), 1e6L)).i("tol", 20 * tol).b("guard", ok());
        auto const s = neo::standard_deviation(vx);
        ev("std").s("t", t).a("x", lx).b("has", s.has_value()).i("r", ri(static_cast<long double>(s.value_or(0)), 1e3L)).b("guard", ok());
        with_view<Vec>(y, ay, [&](auto vy) {
            if (rows * cols > 0) {
                auto const e = neo::mean_squared_error(vx, vy);
                ev("mse").s("t", t).a("x", lx).a("y", ly).i("r", ri(static_cast<long double>(e), 1e6L)).i("tol", 10 * tol).b("guard", ok());
                auto const q = neo::root_mean_squared_error(vx, vy);
                ev("rmse").s("t", t).a("x", lx).a("y", ly).i("r", ri(static_cast<long double>(q), 1e3L)).b("guard", ok());
            }
        });
    });
}

template<bool Vec, typename T>
void predicates(rng& g, std::size_t rows, std::size_t cols, char k1, char k2, char const* t)
{
    auto x = object<T>{rows, cols, k1, static_cast<std::size_t>(g.in(0, 3))};
    auto y = object<T>{rows, cols, k2, static_cast<std::size_t>(g.in(0, 3))};
    x.randomize(g, 8);
    // y == x, except for at most one element, so that both answers occur
    for (std::size_t i = 0; i < rows; ++i) {
        for (std::size_t j = 0; j < cols; ++j) { y.buf[y.idx(i, j)] = x.buf[x.idx(i, j)]; }
    }
    if (rows * cols > 0 && g.flag(70)) {
        auto i = static_cast<std::size_t>(g.in(0, static_cast<long long>(rows) - 1));
        auto j = static_cast<std::size_t>(g.in(0, static_cast<long long>(cols) - 1));
        if (g.flag(30)) { i = rows - 1, j = cols - 1; }
        auto const d = g.in(-4, 4);
        y.buf[y.idx(i, j)] += elem<T>::make(d, g.in(-4, 4));
    }
    auto const lx = logical(x);
    auto const ly = logical(y);
    auto ok       = [&] { return logical(x) == lx && logical(y) == ly && x.guard() && y.guard(); };
    with_view<Vec>(x, 0, [&](auto vx) {
        with_view<Vec>(y, 1, [&](auto vy) {
            using F = decltype(elem<T>::re(T{}));
            for (auto tolerance : {0, 1, 3, 4, 5}) {
                using Tol    = decltype(neo::math::abs(T{}));
                auto const r = neo::allclose(vx, vy, static_cast<Tol>(tolerance));
                ev(elem<T>::cx ? "cclose" : "close").s("t", t).a("x", lx).a("y", ly).i("t2", 0).i("t", tolerance).b("r", r).b("guard", ok());
            }
            if constexpr (!elem<T>::cx) {
                auto const par = [](T a, T b) { return (static_cast<int>(a) + static_cast<int>(b)) % 2 == 0; };
                ev("match").s("p", "eq").a("x", lx).a("y", ly).b("r", neo::allmatch(vx, vy, [](T a, T b) { return a == b; })).b("guard", ok());
                ev("match").s("p", "le").a("x", lx).a("y", ly).b("r", neo::allmatch(vx, vy, [](T a, T b) { return a <= b; })).b("guard", ok());
                ev("match").s("p", "lt").a("x", lx).a("y", ly).b("r", neo::allmatch(vx, vy, [](T a, T b) { return a < b; })).b("guard", ok());
                ev("match").s("p", "sumeven").a("x", lx).a("y", ly).b("r", neo::allmatch(vx, vy, par)).b("guard", ok());
                ev("match1").s("p", "even").a("x", lx).b("r", neo::allmatch(vx, [](T a) { return static_cast<int>(a) % 2 == 0; })).b("guard", ok());
                ev("match1").s("p", "pos").a("x", lx).b("r", neo::allmatch(vx, [](T a) { return a > 0; })).b("guard", ok());
                ev("match1").s("p", "small").a("x", lx).b("r", neo::allmatch(vx, [](T a) { return std::abs(a) < 5; })).b("guard", ok());
            }
        });
    });
    // default tolerance: 1e-5 (float), 1e-9 (double); differences are multiples of a tenth of it
    if constexpr (!elem<T>::cx) {
        auto const unit = std::same_as<T, float> ? 1e-6 : 1e-10;
        auto a          = object<T>{rows, cols, k1, 1};
        auto b          = object<T>{rows, cols, k2, 2};
        auto la = ints{}, lb = ints{};
        for (std::size_t i = 0; i < rows; ++i) {
            for (std::size_t j = 0; j < cols; ++j) {
                auto p = g.in(-4, 4);
                auto q = g.in(-4, 4);
                if (g.flag(6)) { q = p + (g.flag(50) ? 11 : -12); }
                la.push_back(p);
                lb.push_back(q);
                a.buf[a.idx(i, j)] = static_cast<T>(static_cast<double>(p) * unit);
                b.buf[b.idx(i, j)] = static_cast<T>(static_cast<double>(q) * unit);
            }
        }
        with_view<Vec>(a, 0, [&](auto va) { with_view<Vec>(b, 0, [&](auto vb) { ev("close").s("t", t).a("x", la).a("y", lb).i("t", 10).b("r", neo::allclose(va, vb)).b("guard", a.guard() && b.guard()); }); });
        if (rows * cols > 0) {
            auto i = static_cast<std::size_t>(g.in(0, static_cast<long long>(rows) - 1));
            auto j = static_cast<std::size_t>(g.in(0, static_cast<long long>(cols) - 1));
            b = a.kind == b.kind ? a : b;
            (g.flag(50) ? a.buf[a.idx(i, j)] : b.buf[b.idx(i, j)]) = std::numeric_limits<T>::quiet_NaN();
            with_view<Vec>(a, 0, [&](auto va) { with_view<Vec>(b, 0, [&](auto vb) { ev("closenan").s("t", t).b("r", neo::allclose(va, vb, static_cast<T>(1000))).b("guard", true); }); });
        }
    }
}

/// complex mean and mean squared error (moduli are integers: Pythagorean pairs)
template<bool Vec, typename F>
void complexes(rng& g, std::size_t rows, std::size_t cols, char k1, char k2, char const* t)
{
    using C        = std::complex<F>;
    auto const tol = std::same_as<F, float> ? 60 : 1;
    static constexpr std::array<std::array<int, 2>, 8> pyth{{{3, 4}, {-4, 3}, {5, -12}, {8, 6}, {0, 7}, {-2, 0}, {0, 0}, {-8, -15}}};
    auto x = object<C>{rows, cols, k1, static_cast<std::size_t>(g.in(0, 3))};
    auto y = object<C>{rows, cols, k2, static_cast<std::size_t>(g.in(0, 3))};
    for (std::size_t i = 0; i < rows; ++i) {
        for (std::size_t j = 0; j < cols; ++j) {
            auto const& p      = pyth[static_cast<std::size_t>(g.in(0, 7))];
            auto const& q      = pyth[static_cast<std::size_t>(g.in(0, 7))];
            x.buf[x.idx(i, j)] = elem<C>::make(p[0], p[1]);
            y.buf[y.idx(i, j)] = elem<C>::make(q[0], q[1]);
        }
    }
    auto const lx = x.flat();
    auto const ly = y.flat();
    with_view<Vec>(x, 0, [&](auto vx) {
        auto const m = neo::mean(vx);
        auto const v = m.value_or(C{});
        ev("cmean").s("t", t).a("x", lx).b("has", m.has_value()).a("r", ints{ri(v.real(), 1e6L), ri(v.imag(), 1e6L)}).i("tol", tol).b("guard", true);
        with_view<Vec>(y, 1, [&](auto vy) {
            if (rows * cols > 0) {
                ev("cmse").s("t", t).a("x", lx).a("y", ly).i("r", ri(static_cast<long double>(neo::mean_squared_error(vx, vy)), 1e6L)).i("tol", 20 * tol).b("guard", x.guard() && y.guard());
            }
        });
    });
}

/// long and large objects: zero but for a few elements, the corners among them; the event names only those
template<bool Vec, typename F>
void large(rng& g, std::size_t rows, std::size_t cols, char k1, char k2, char const* t)
{
    using C      = std::complex<F>;
    auto const n = static_cast<long long>(rows * cols);
    auto const place = [&](auto& o, auto& vals, int many, int lim) {
        using T = std::decay_t<decltype(o.buf[0])>;
        for (std::size_t i = 0; i < rows; ++i) {
            for (std::size_t j = 0; j < cols; ++j) { o.buf[o.idx(i, j)] = T(0); }
        }
        auto used = std::vector<std::pair<std::size_t, std::size_t>>{};
        for (int k = 0; k < many; ++k) {
            auto i = static_cast<std::size_t>(g.in(0, static_cast<long long>(rows) - 1));
            auto j = static_cast<std::size_t>(g.in(0, static_cast<long long>(cols) - 1));
            if (k == 0) { i = rows - 1, j = cols - 1; }
            if (k == 1) { i = 0, j = cols - 1; }
            if (k == 2) { i = rows - 1, j = 0; }
            if (k == 3) { i = 0, j = 0; }
            if (std::find(used.begin(), used.end(), std::pair{i, j}) != used.end()) { continue; }
            used.emplace_back(i, j);
            auto v = g.in(100, lim) * (g.flag(50) ? 1 : -1);
            o.buf[o.idx(i, j)] = static_cast<T>(v);
            vals.push_back(v);
        }
        return used;
    };
    auto x  = object<F>{rows, cols, k1, 1};
    auto y  = object<F>{rows, cols, k2, 2};
    auto vx = ints{}, vy = ints{};
    place(x, vx, 6, 300);
    for (std::size_t i = 0; i < rows; ++i) {
        for (std::size_t j = 0; j < cols; ++j) { y.buf[y.idx(i, j)] = x.buf[x.idx(i, j)]; }
    }
    // y differs from x at a few elements, one corner among them
    auto const only = g.in(0, 3);
    auto const at   = [&](int w) {
        return w == 0 ? std::pair{rows - 1, cols - 1} : w == 1 ? std::pair{rows - 1, std::size_t{0}} : w == 2 ? std::pair{std::size_t{0}, cols - 1} : std::pair{static_cast<std::size_t>(g.in(0, static_cast<long long>(rows) - 1)), static_cast<std::size_t>(g.in(0, static_cast<long long>(cols) - 1))};
    };
    auto const [di, dj] = at(static_cast<int>(only));
    auto const d        = g.in(100, 300);
    y.buf[y.idx(di, dj)] += static_cast<F>(d);
    vy.push_back(d);
    with_view<Vec>(x, 0, [&](auto ax) {
        auto const m = neo::mean(ax);
        ev("lmean").s("t", t).i("n", n).a("x", vx).b("has", m.has_value()).i("r", ri(static_cast<long double>(m.value_or(0)), 1e6L)).b("guard", x.guard());
        auto const v = neo::variance(ax);
        ev("lvar").s("t", t).i("n", n).a("x", vx).b("has", v.has_value()).i("r", ri(static_cast<long double>(v.value_or(0)), 1e5L)).b("guard", x.guard());
        auto const s = neo::standard_deviation(ax);
        auto const q = static_cast<long double>(s.value_or(0));
        ev("lvar").s("t", t).i("n", n).a("x", vx).b("has", s.has_value()).i("r", ri(q * q, 1e5L)).b("guard", q >= 0);
        ev("lmatch").i("n", n).a("x", vx).i("p", 1).b("r", neo::allmatch(ax, [](F e) { return std::abs(e) < F(50); })).b("guard", true);
        with_view<Vec>(y, 1, [&](auto ay) {
            ev("lmse").s("t", t).i("n", n).a("x", vy).i("r", ri(static_cast<long double>(neo::mean_squared_error(ax, ay)), 1e5L)).b("guard", x.guard() && y.guard());
            auto const w = static_cast<long double>(neo::root_mean_squared_error(ax, ay));
            ev("lmse").s("t", t).i("n", n).a("x", vy).i("r", ri(w * w, 1e5L)).b("guard", w >= 0);
            for (auto tolerance : {0LL, d - 1, d, d + 1}) { ev("lclose").s("t", t).i("n", n).a("x", vy).i("tol", tolerance).b("r", neo::allclose(ax, ay, static_cast<F>(tolerance))).b("guard", true); }
            ev("lclose").s("t", t).i("n", n).a("x", vy).i("tol", 0).b("r", neo::allclose(ax, ay)).b("guard", true);
            ev("lclose").s("t", t).i("n", n).a("x", vy).i("tol", 0).b("r", neo::allmatch(ax, ay, [](F a, F b) { return a == b; })).b("guard", true);
            ev("lclose").s("t", t).i("n", n).a("x", ints{}).i("tol", 0).b("r", neo::allmatch(ax, ay, [](F a, F b) { return a <= b; })).b("guard", true);
        });
    });
    auto p = object<C>{rows, cols, k1, 0};
    auto q = object<C>{rows, cols, k2, 3};
    for (std::size_t i = 0; i < rows; ++i) {
        for (std::size_t j = 0; j < cols; ++j) { p.buf[p.idx(i, j)] = q.buf[q.idx(i, j)] = C(F(3), F(-4)); }
    }
    q.buf[q.idx(di, dj)] = C(F(0), F(d + 5));
    with_view<Vec>(p, 0, [&](auto ap) {
        with_view<Vec>(q, 0, [&](auto aq) {
            ev("lmse").s("t", t).i("n", n).a("x", vy).i("r", ri(static_cast<long double>(neo::mean_squared_error(ap, aq)), 1e5L)).b("guard", p.guard() && q.guard());
            for (auto tolerance : {d - 2, d + 20}) { ev("lclose").s("t", t).i("n", n).a("x", vy).i("tol", tolerance).b("r", neo::allclose(ap, aq, static_cast<F>(tolerance))).b("guard", true); }
        });
    });
    for (std::size_t i = 0; i < rows; ++i) {
        for (std::size_t j = 0; j < cols; ++j) { p.buf[p.idx(i, j)] = C{}; }
    }
    p.buf[p.idx(di, dj)] = C(F(d), F(-d));
    with_view<Vec>(p, 1, [&](auto ap) {
        auto const m = neo::mean(ap);
        ev("lmean").s("t", t).i("n", n).a("x", ints{d}).b("has", m.has_value()).i("r", ri(static_cast<long double>(m.value_or(C{}).real()), 1e6L)).b("guard", p.guard());
        ev("lmean").s("t", t).i("n", n).a("x", ints{-d}).b("has", m.has_value()).i("r", ri(static_cast<long double>(m.value_or(C{}).imag()), 1e6L)).b("guard", p.guard());
    });
}

template<typename F>
void family(rng& g, char const* t)
{
    auto const reps = g_thorough ? 6 : 2;
    for (int r = 0; r < 2 * reps; ++r) {
        for (std::size_t n : {41, 50, 65, 129, 300, 513, 1025, 2049, 4097, 5000}) { large<true, F>(g, 1, n, n % 2 == 0 ? 'S' : 'R', r % 2 == 0 ? 'R' : 'S', t); }
        for (auto [a, b] : {std::pair{50, 3}, {3, 50}, {2049, 2}, {2, 2049}, {70, 65}, {300, 7}, {7, 300}, {129, 20}}) {
            for (char const* k : {"RR", "LR", "SS"}) { large<false, F>(g, static_cast<std::size_t>(a), static_cast<std::size_t>(b), k[0], k[1], t); }
        }
    }
    for (std::size_t n : {33000, 70001}) { large<true, F>(g, 1, n, n % 2 == 0 ? 'S' : 'R', n % 2 == 0 ? 'R' : 'S', t); }
    for (auto [a, b] : {std::pair{33000, 2}, {2, 33000}, {66000, 1}, {1, 66000}}) {
        for (char const* k : {"RR", "LR", "SS"}) { large<false, F>(g, static_cast<std::size_t>(a), static_cast<std::size_t>(b), k[0], k[1], t); }
    }
    for (int r = 0; r < reps; ++r) {
        for (std::size_t n = 0; n <= 40; ++n) {
            auto const k = (n + static_cast<std::size_t>(r)) % 3 == 0 ? 'S' : 'R';
            stats<true, F>(g, 1, n, k, 'R', t);
            if (n <= 20) {
                predicates<true, F>(g, 1, n, 'R', k, t);
                predicates<true, std::complex<F>>(g, 1, n, k, 'R', t);
                complexes<true, F>(g, 1, n, k, 'R', t);
            }
        }
        for (std::size_t n : {64, 100, 257, 1000}) { stats<true, F>(g, 1, n, n == 100 ? 'S' : 'R', 'R', t); }
        stats<false, F>(g, 17, 23, 'L', 'R', t);
        for (auto [a, b] : {std::pair{1, 1}, {1, 2}, {2, 1}, {2, 3}, {3, 2}, {5, 1}, {1, 6}, {4, 4}, {3, 7}, {7, 3}, {6, 6}, {0, 4}, {4, 0}, {2, 16}}) {
            for (char const* k : {"RR", "LL", "RL", "SS", "LS", "SR"}) {
                auto const rows = static_cast<std::size_t>(a);
                auto const cols = static_cast<std::size_t>(b);
                stats<false, F>(g, rows, cols, k[0], k[1], t);
                predicates<false, F>(g, rows, cols, k[0], k[1], t);
                if (r == 0) {
                    predicates<false, std::complex<F>>(g, rows, cols, k[0], k[1], t);
                    complexes<false, F>(g, rows, cols, k[0], k[1], t);
                }
            }
        }
    }
}

void run()
{
    auto g = rng{15};
    family<float>(g, "f32");
    family<double>(g, "f64");
}

}  // namespace vh

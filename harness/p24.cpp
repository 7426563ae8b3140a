// P24: decibel conversion, fast logarithms, A-weighting
#include "common.hpp"

#include <neo/math/a_weighting.hpp>
#include <neo/math/fast_math.hpp>
#include <neo/unit/decibel.hpp>

namespace vh {

struct gain
{
    int sg;
    long long a, b;
    int k;
};

template<neo::precision P, typename T>
void db(std::vector<gain> const& gs, char const* t, bool deflt, double floor_db)
{
    auto a = ints{};
    auto b = ints{};
    auto k = ints{};
    auto s = ints{};
    auto r = ints{};
    for (auto x : gs) {
        auto const v = static_cast<T>(x.sg) * std::ldexp(static_cast<T>(static_cast<long double>(x.a) / static_cast<long double>(x.b)), x.k);
        a.push_back(x.a);
        b.push_back(x.b);
        k.push_back(x.k);
        s.push_back(x.sg);
        r.push_back(ri(deflt ? neo::amplitude_to_db<P>(v) : neo::amplitude_to_db<P>(v, static_cast<T>(floor_db)), 1000));
    }
    constexpr auto est = P == neo::precision::estimate;
    ev("db").s("t", t).a("a", a).a("b", b).a("k", k).a("sg", s).i("floor", ri(deflt ? -144.0 : floor_db, 1000)).a("r", r).i("tol", est ? 10 : 3).b("est", est);
}

template<neo::precision P, typename T>
void family(rng& g, char const* t)
{
    auto const far = P == neo::precision::estimate ? 60 : (sizeof(T) == 4 ? 100 : 980);
    for (int i = 0; i < (g_thorough ? 200 : 40); ++i) {
        auto gs = std::vector<gain>{};
        for (int j = 0; j < 24; ++j) {
            auto const mode = g.in(0, 9);
            auto sg         = mode == 0 ? 0 : (mode == 1 ? -1 : 1);
            auto const m    = 1LL << g.in(1, 20);
            gs.push_back({sg, g.in(1, m), g.in(1, 1LL << g.in(1, 20)), static_cast<int>(g.flag(30) ? g.in(-far, far) : 0)});
        }
        db<P, T>(gs, t, i % 2 == 0, 0);
        db<P, T>(gs, t, false, static_cast<double>(g.in(-400, 20)) / 2.0);
        db<P, T>(gs, t, false, static_cast<double>(g.in(-2000, 100)));
    }
    // integer gains close to one, where the result is near zero
    auto gs = std::vector<gain>{};
    for (long long a = 990; a <= 1010; ++a) { gs.push_back({1, a, 1000, 0}); }
    gs.push_back({1, 1, 1, 0});
    db<P, T>(gs, t, true, 0);
    auto n = ints{};
    auto r = ints{};
    for (int e = -12; e <= 12; ++e) {
        n.push_back(e);
        r.push_back(ri(neo::amplitude_to_db<P>(static_cast<T>(std::pow(10.0L, e))), 10000));
    }
    ev("dbten").s("t", t).a("n", n).a("r", r).b("est", P == neo::precision::estimate);
    if constexpr (P == neo::precision::accurate) {
        auto m = ints{};
        for (int e = -2000; e <= 600; e += 7) { m.push_back(ri(neo::amplitude_to_db<P>(static_cast<T>(std::pow(10.0L, e / 200.0L))), 100000)); }
        ev("dbmono").s("t", t).a("r", m);
        // gains close to each other: neighbouring floats
        for (int i = 0; i < 20; ++i) {
            m.clear();
            auto x = std::ldexp(static_cast<T>(g.in(1, 1 << 20)), static_cast<int>(g.in(-40, 0)));
            for (int j = 0; j < 40; ++j) {
                auto const base = neo::amplitude_to_db<P>(x, T(-500));
                x               = std::nextafter(x, std::numeric_limits<T>::max());
                m.push_back(neo::amplitude_to_db<P>(x, T(-500)) >= base ? j : -1);
            }
            ev("dbmono").s("t", t).a("r", m);
        }
        // the product of two gains reads as the sum of their levels, to the last places (1e-6 or 1e-12 dB)
        auto pa        = ints{};
        auto pb        = ints{};
        auto d         = ints{};
        auto const lsb = sizeof(T) == 4 ? 1e6L : 1e12L;
        for (int i = 0; i < (g_thorough ? 400 : 100); ++i) {
            auto const x = g.in(1, 4000);
            auto const y = g.in(1, 4000);
            pa.push_back(x);
            pb.push_back(y);
            auto const e = static_cast<long double>(neo::amplitude_to_db<P>(static_cast<T>(x * y))) - static_cast<long double>(neo::amplitude_to_db<P>(static_cast<T>(x))) - static_cast<long double>(neo::amplitude_to_db<P>(static_cast<T>(y)));
            d.push_back(ri(std::fabs(e), lsb));
        }
        ev("dbhom").s("t", t).a("a", pa).a("b", pb).a("d", d);
    }
    // tiny, zero and negative gains read as the floor
    auto tiny = ints{};
    auto a    = ints{};
    for (T v : {T(0), T(-0.0), T(-1), std::numeric_limits<T>::lowest(), -std::numeric_limits<T>::min(), -std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::denorm_min()}) {
        a.push_back(1);
        tiny.push_back(ri(neo::amplitude_to_db<P>(v), 1000));
    }
    ev("db").s("t", t).a("a", a).a("b", a).a("k", a).a("sg", ints(a.size(), 0)).i("floor", -144000).a("r", tiny).i("tol", 0).b("est", false);
}

void fast(rng& g)
{
    for (int i = 0; i < (g_thorough ? 300 : 60); ++i) {
        auto a  = ints{};
        auto k  = ints{};
        auto r  = ints{};
        auto r1 = ints{};
        auto d  = ints{};
        for (int j = 0; j < 32; ++j) {
            auto const m = g.in(1, (1LL << g.in(1, 24)) - 1);
            auto const w = static_cast<int>(std::bit_width(static_cast<std::uint64_t>(m))) - 1;
            auto const e = static_cast<int>(g.flag(60) ? g.in(-100, 90) : g.in(-126, 127) - w);
            auto const x = std::ldexp(static_cast<float>(m), e);
            a.push_back(m);
            k.push_back(e);
            r.push_back(ri(neo::fast_log2(x), 1e5));
            r1.push_back(ri(neo::fast_log10(x), 1e5));
            if (e > -20 && e < 20) { d.push_back(ri(static_cast<long double>(neo::fast_log2(2 * x)) - neo::fast_log2(x), 1e5)); }
        }
        ev("fastlog2").a("a", a).a("k", k).a("r", r);
        ev("fastlog10").a("a", a).a("k", k).a("r", r1);
        ev("faststep").a("d", d);
    }
}

template<typename T>
void weight(rng& g, char const* t)
{
    auto emit = [&](ints const& n, int s) {
        auto r = ints{};
        for (auto x : n) { r.push_back(ri(neo::a_weighting(static_cast<T>(x) / static_cast<T>(s)), 1000)); }
        ev("aweight").s("t", t).i("s", s).a("n", n).a("r", r);
    };
    auto n = ints{};
    for (long long x = 1; x <= 160; ++x) { n.push_back(x); }
    emit(n, 8);
    emit({10, 13, 16, 20, 25, 32, 40, 50, 63, 80, 100, 125, 160, 200, 250, 315, 400, 500, 630, 800, 1000, 1250, 1600, 2000, 2500, 3150, 4000, 5000, 6300, 8000, 10000, 12500, 16000, 20000}, 1);
    for (int i = 0; i < (g_thorough ? 60 : 12); ++i) {
        auto a = ints{};
        auto b = ints{};
        for (int j = 0; j < 32; ++j) {
            a.push_back(g.in(1, 1LL << g.in(3, 13)));
            b.push_back(g.in(1, 24000));
        }
        emit(a, 8);
        emit(b, 1);
    }
    ev("aref").s("t", t).i("r", ri(neo::a_weighting(T(1000)), 1000));
}

void run()
{
    auto g = rng{24};
    family<neo::precision::accurate, float>(g, "f32");
    family<neo::precision::accurate, double>(g, "f64");
    family<neo::precision::estimate, float>(g, "f32");
    family<neo::precision::estimate, double>(g, "f64");
    // the default precision is the accurate one
    auto n = ints{};
    auto r = ints{};
    for (int e = -7; e <= 8; ++e) {
        n.push_back(e);
        r.push_back(ri(neo::amplitude_to_db(static_cast<double>(std::pow(10.0L, e))), 10000));
    }
    ev("dbten").s("t", "default").a("n", n).a("r", r).b("est", false);
    fast(g);
    weight<float>(g, "f32");
    weight<double>(g, "f64");
}

}  // namespace vh

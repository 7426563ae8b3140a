// P18: fixed-point conversions and comparisons
#include "fx_common.hpp"

namespace vh {

struct dyadic
{
    long long m;
    int e;
};

template<typename Fx>
constexpr auto mk_ct() -> std::array<Fx, 3>
{
    using I = typename Fx::storage_type;
    return {Fx{neo::underlying_value, std::numeric_limits<I>::min()}, Fx{neo::underlying_value, std::numeric_limits<I>::max()}, Fx{neo::underlying_value, I(-1)}};
}

template<typename Fx, typename Float>
void convert(std::vector<dyadic> const& vals, char const* t)
{
    auto ms = ints{};
    auto es = ints{};
    auto r  = ints{};
    for (auto v : vals) {
        auto const x = std::ldexp(static_cast<Float>(v.m), v.e);
        ms.push_back(v.m);
        es.push_back(v.e);
        r.push_back(Fx{x}.value());
    }
    ev("fromfloat").s("t", t).i("w", width_v<Fx>).i("f", Fx::fractional_bits).a("m", ms).a("e", es).a("r", r);
}

template<typename Fx, typename Float>
void to(ints const& a, char const* t)
{
    auto r      = ints{};
    long long d = 0;
    for (auto x : a) {
        auto const y = static_cast<Float>(mk<Fx>(x));
        r.push_back(ri(y, std::ldexp(1.0L, Fx::fractional_bits)));
        d = std::max(d, dev(y, std::ldexp(1.0L, Fx::fractional_bits)));
    }
    ev("tofloat").s("t", t).i("w", width_v<Fx>).i("f", Fx::fractional_bits).a("a", a).a("r", r).i("dev", d);
}

template<typename Fx>
void to_free(ints const& a)
{
    auto r      = ints{};
    auto r2     = ints{};
    long long d = 0;
    auto const sc = std::ldexp(1.0L, Fx::fractional_bits);
    for (auto x : a) {
        auto const y = neo::to_float(mk<Fx>(x));
        auto const z = neo::to_double(mk<Fx>(x));
        r.push_back(ri(y, sc));
        r2.push_back(ri(z, sc));
        d = std::max({d, dev(y, sc), dev(z, sc)});
    }
    ev("tofloat").s("t", "to_float").i("w", width_v<Fx>).i("f", Fx::fractional_bits).a("a", a).a("r", r).i("dev", d);
    ev("tofloat").s("t", "to_double").i("w", width_v<Fx>).i("f", Fx::fractional_bits).a("a", a).a("r", r2).i("dev", d);
}

template<typename Fx>
void cmp(ints const& a, ints const& b)
{
    auto r = ints{};
    for (std::size_t i = 0; i < a.size(); ++i) {
        auto const x = mk<Fx>(a[i]);
        auto const y = mk<Fx>(b[i]);
        r.push_back((x == y) + 2 * (x != y) + 4 * (x < y) + 8 * (x <= y) + 16 * (x > y) + 32 * (x >= y));
    }
    ev("cmp").i("w", width_v<Fx>).i("f", Fx::fractional_bits).a("a", a).a("b", b).a("r", r);
}

template<typename Fx>
void format(rng& g)
{
    constexpr int w = width_v<Fx>;
    constexpr int f = Fx::fractional_bits;
    auto const bnd  = boundary(w);
    ev("traits")
        .i("w", w)
        .i("f", f)
        .i("ib", Fx::integer_bits)
        .i("fb", Fx::fractional_bits)
        .i("scale", ri(Fx::scale))
        .i("zero", Fx{}.value())
        .b("isfx", neo::is_fixed_point<Fx>)
        .b("notfx", neo::is_fixed_point<float> || neo::is_fixed_point<typename Fx::storage_type>)
        .i("bytes", sizeof(Fx));

    // reals around every boundary word, in quarter steps, plus 1/64 steps close to the ends
    auto vals = std::vector<dyadic>{};
    for (auto x : bnd) {
        for (long long q = -5; q <= 5; ++q) { vals.push_back({x * 4 + q, -f - 2}); }
    }
    for (auto x : {-(1LL << (w - 1)), (1LL << (w - 1)) - 1, 0LL}) {
        for (long long q = -130; q <= 130; ++q) { vals.push_back({x * 64 + q, -f - 6}); }
    }
    // whole range of exponents
    for (int e = -140; e <= 100; ++e) {
        for (long long m : {1LL, -1LL, (1LL << 24) - 1, -(1LL << 24) + 1}) { vals.push_back({m, e}); }
    }
    for (int i = 0; i < (g_thorough ? 4000 : 400); ++i) {
        vals.push_back({g.in(-(1LL << 24) + 1, (1LL << 24) - 1), static_cast<int>(g.in(-30 - f, 6 - f))});
    }
    for (std::size_t i = 0; i < vals.size(); i += 64) {
        auto part = std::vector<dyadic>(vals.begin() + static_cast<long>(i), vals.begin() + static_cast<long>(std::min(i + 64, vals.size())));
        convert<Fx, float>(part, "float");
        convert<Fx, double>(part, "double");
        if (g_thorough) { convert<Fx, long double>(part, "long double"); }
    }
    auto const inf  = std::numeric_limits<float>::infinity();
    auto const dinf = std::numeric_limits<double>::infinity();
    ev("frominf").i("w", w).a("r", ints{Fx{inf}.value(), Fx{-inf}.value()});
    ev("frominf").i("w", w).a("r", ints{Fx{dinf}.value(), Fx{-dinf}.value()});
    ev("frominf").i("w", w).a("r", ints{Fx{1e300}.value(), Fx{-1e300}.value()});

    to<Fx, float>(bnd, "float");
    to<Fx, double>(bnd, "double");
    to<Fx, long double>(bnd, "long double");
    to_free<Fx>(bnd);
    for (auto x : bnd) { cmp<Fx>(ints(bnd.size(), x), bnd); }
    for (int i = 0; i < 6; ++i) {
        auto a = ints{};
        auto b = ints{};
        for (int j = 0; j < 64; ++j) {
            a.push_back(g.in(-(1LL << (w - 1)), (1LL << (w - 1)) - 1));
            b.push_back(g.flag(30) ? a.back() : g.in(-(1LL << (w - 1)), (1LL << (w - 1)) - 1));
        }
        cmp<Fx>(a, b);
        to<Fx, float>(a, "float");
        to<Fx, double>(a, "double");
    }
}

// evaluated by the compiler
template<typename Fx>
void constants()
{
    static constexpr auto r = [] {
        auto t = std::array<long long, 64>{};
        for (int i = 0; i < 32; ++i) {
            t[static_cast<std::size_t>(i)]      = Fx{static_cast<float>(i - 16) * 0.125F}.value();
            t[static_cast<std::size_t>(i) + 32] = Fx{static_cast<double>(i - 16) * 0.125}.value();
        }
        return t;
    }();
    auto m = ints{}, e = ints{}, v = ints{};
    for (int i = 0; i < 64; ++i) {
        m.push_back(i % 32 - 16);
        e.push_back(-3);
        v.push_back(r[static_cast<std::size_t>(i)]);
    }
    ev("fromfloat").s("t", "constexpr").i("w", width_v<Fx>).i("f", Fx::fractional_bits).a("m", m).a("e", e).a("r", v);
    static constexpr auto x = mk_ct<Fx>();
    static constexpr auto c = std::array{(x[0] == x[1]) + 2 * (x[0] != x[1]) + 4 * (x[0] < x[1]) + 8 * (x[0] <= x[1]) + 16 * (x[0] > x[1]) + 32 * (x[0] >= x[1]),
                                         (x[1] == x[1]) + 2 * (x[1] != x[1]) + 4 * (x[1] < x[1]) + 8 * (x[1] <= x[1]) + 16 * (x[1] > x[1]) + 32 * (x[1] >= x[1]),
                                         (x[2] == x[0]) + 2 * (x[2] != x[0]) + 4 * (x[2] < x[0]) + 8 * (x[2] <= x[0]) + 16 * (x[2] > x[0]) + 32 * (x[2] >= x[0])};
    ev("cmp").i("w", width_v<Fx>).i("f", Fx::fractional_bits).a("a", ints{x[0].value(), x[1].value(), x[2].value()}).a("b", ints{x[1].value(), x[1].value(), x[0].value()}).a("r", ints{c[0], c[1], c[2]});
    static constexpr auto back = std::array{to_float(x[0]), to_float(x[1]), to_float(x[2])};
    auto br                    = ints{};
    long long d                = 0;
    auto const sc              = std::ldexp(1.0L, Fx::fractional_bits);
    for (auto y : back) {
        br.push_back(ri(y, sc));
        d = std::max(d, dev(y, sc));
    }
    ev("tofloat").s("t", "constexpr").i("w", width_v<Fx>).i("f", Fx::fractional_bits).a("a", ints{x[0].value(), x[1].value(), x[2].value()}).a("r", br).i("dev", d);
}

void run()
{
    constants<neo::q7>();
    constants<neo::q15>();
    constants<neo::fixed_point<std::int16_t, 11>>();
    auto g = rng{18};
    for_formats<std::int8_t, 0, 7>([&]<typename Fx>() { format<Fx>(g); });
    for_formats<std::int16_t, 0, 15>([&]<typename Fx>() { format<Fx>(g); });
    // every word of q7 and q15 converts to floating point exactly and back to itself
    auto all = [](auto tag) {
        using Fx        = decltype(tag);
        constexpr int w = width_v<Fx>;
        auto a          = ints{};
        for (long long x = -(1LL << (w - 1)); x < (1LL << (w - 1)); ++x) {
            a.push_back(x);
            if (a.size() == 256) {
                to<Fx, float>(a, "float");
                auto v = std::vector<dyadic>{};
                for (auto y : a) { v.push_back({y, -Fx::fractional_bits}); }
                convert<Fx, float>(v, "float");
                a.clear();
            }
        }
    };
    all(neo::q7{});
    all(neo::q15{});
    // every pair of q7 words compared
    for (long long a = -128; a < 128; ++a) {
        auto bs = ints(256);
        std::iota(bs.begin(), bs.end(), -128);
        cmp<neo::q7>(ints(256, a), bs);
    }
}

}  // namespace vh

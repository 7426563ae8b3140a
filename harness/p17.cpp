// P17: scalar fixed-point arithmetic
#include "fx_common.hpp"

namespace vh {

template<typename Fx>
void row(char const* k, ints const& a, ints const& b)
{
    auto r = ints{};
    for (std::size_t i = 0; i < a.size(); ++i) {
        auto const x = mk<Fx>(a[i]);
        auto const y = mk<Fx>(b[i]);
        auto z       = Fx{};
        switch (k[0] == 'a' ? 0 : k[0] == 's' ? 1 : k[0] == 'm' ? 2 : k[0] == 'n' ? 3 : 4) {
            case 0: z = x + y; break;
            case 1: z = x - y; break;
            case 2: z = x * y; break;
            case 3: z = -x; break;
            default: z = +x; break;
        }
        r.push_back(z.value());
    }
    ev("row").s("k", k).i("w", width_v<Fx>).i("f", Fx::fractional_bits).a("a", a).a("b", b).a("r", r);
}

constexpr char const* kinds[] = {"add", "sub", "mul", "neg", "pos"};

template<typename Fx>
void program(rng& g, int len)
{
    constexpr int w = width_v<Fx>;
    auto const bnd  = boundary(w);
    auto pick       = [&] {
        return g.flag(40) ? bnd[static_cast<std::size_t>(g.in(0, static_cast<long long>(bnd.size()) - 1))]
                          : g.in(-(1LL << (w - 1)), (1LL << (w - 1)) - 1);
    };
    auto x   = pick();
    auto acc = mk<Fx>(x);
    ev("load").i("w", w).i("f", Fx::fractional_bits).i("x", x).i("r", acc.value());
    for (int i = 0; i < len; ++i) {
        auto b        = pick();
        auto const k  = g.in(0, 4);
        auto const fb = mk<Fx>(b);
        switch (k) {
            case 0: acc = acc + fb; break;
            case 1: acc = acc - fb; break;
            case 2: acc = acc * fb; break;
            case 3: acc = -acc; break;
            default: acc = +acc; break;
        }
        ev("apply").s("k", kinds[k]).i("b", b).i("r", acc.value());
    }
}

template<typename Fx>
void exhaustive()
{
    // all pairs of an 8-bit format
    for (long long a = -128; a <= 127; ++a) {
        auto as = ints(256, a);
        auto bs = ints(256);
        std::iota(bs.begin(), bs.end(), -128);
        row<Fx>("mul", as, bs);
        if (Fx::fractional_bits == 7 || g_thorough) {
            row<Fx>("add", as, bs);
            row<Fx>("sub", as, bs);
        }
    }
}

template<typename Fx>
void boundaries()
{
    auto const bnd = boundary(width_v<Fx>);
    for (auto a : bnd) {
        auto as = ints(bnd.size(), a);
        for (auto const* k : {"add", "sub", "mul"}) { row<Fx>(k, as, bnd); }
    }
    row<Fx>("neg", bnd, bnd);
    row<Fx>("pos", bnd, bnd);
}

template<typename Fx>
void randoms(rng& g, int rows)
{
    constexpr int w = width_v<Fx>;
    for (int i = 0; i < rows; ++i) {
        auto a = ints{};
        auto b = ints{};
        for (int j = 0; j < 64; ++j) {
            // operands of widely different magnitude, so that sums, differences and products land
            // inside, just outside and far outside of the range
            auto const sa = static_cast<int>(g.in(0, w - 1));
            auto const sb = static_cast<int>(g.in(0, w - 1));
            a.push_back(g.in(-(1LL << (w - 1)), (1LL << (w - 1)) - 1) >> sa);
            b.push_back(g.in(-(1LL << (w - 1)), (1LL << (w - 1)) - 1) >> sb);
        }
        for (auto const* k : kinds) { row<Fx>(k, a, b); }
    }
}

// evaluated by the compiler
template<typename Fx>
void constants()
{
    using I = typename Fx::storage_type;
    constexpr auto mn = std::numeric_limits<I>::min();
    constexpr auto mx = std::numeric_limits<I>::max();
    static constexpr auto words = std::array<I, 15>{mn, mn + 1, mn + 2, mn / 2, -3, -2, -1, 0, 1, 2, 3, mx / 2, mx / 2 + 1, mx - 1, mx};
    constexpr auto n  = words.size();
    static constexpr auto table = [] {
        auto t = std::array<I, 5 * n * n>{};
        for (std::size_t i = 0; i < n; ++i) {
            for (std::size_t j = 0; j < n; ++j) {
                auto const a            = Fx{neo::underlying_value, words[i]};
                auto const b            = Fx{neo::underlying_value, words[j]};
                t[i * n + j]            = (a + b).value();
                t[n * n + i * n + j]    = (a - b).value();
                t[2 * n * n + i * n + j] = (a * b).value();
                t[3 * n * n + i * n + j] = (-a).value();
                t[4 * n * n + i * n + j] = (+a).value();
            }
        }
        return t;
    }();
    for (std::size_t k = 0; k < 5; ++k) {
        auto a = ints{}, b = ints{}, r = ints{};
        for (std::size_t i = 0; i < n; ++i) {
            for (std::size_t j = 0; j < n; ++j) {
                a.push_back(words[i]);
                b.push_back(words[j]);
                r.push_back(table[k * n * n + i * n + j]);
            }
        }
        ev("row").s("k", kinds[k]).i("w", width_v<Fx>).i("f", Fx::fractional_bits).a("a", a).a("b", b).a("r", r);
    }
}

void run()
{
    constants<neo::q7>();
    constants<neo::q15>();
    constants<neo::fixed_point<std::int8_t, 3>>();
    constants<neo::fixed_point<std::int16_t, 12>>();
    auto g = rng{17};
    exhaustive<neo::q7>();
    if (g_thorough) {
        for_formats<std::int8_t, 0, 6>([]<typename Fx>() { exhaustive<Fx>(); });
    } else {
        exhaustive<neo::fixed_point<std::int8_t, 4>>();
    }
    for_formats<std::int8_t, 0, 7>([&]<typename Fx>() {
        boundaries<Fx>();
        randoms<Fx>(g, g_thorough ? 40 : 6);
        for (int i = 0; i < (g_thorough ? 40 : 8); ++i) { program<Fx>(g, 40); }
    });
    for_formats<std::int16_t, 0, 15>([&]<typename Fx>() {
        if (Fx::fractional_bits >= 11 || g_thorough) { boundaries<Fx>(); }
        randoms<Fx>(g, g_thorough ? 200 : 12);
        for (int i = 0; i < (g_thorough ? 60 : 8); ++i) { program<Fx>(g, 40); }
    });
    // every 16-bit word negated
    auto a = ints{};
    for (long long x = -32768; x <= 32767; ++x) {
        a.push_back(x);
        if (a.size() == 256) {
            row<neo::q15>("neg", a, a);
            a.clear();
        }
    }
}

}  // namespace vh

// P05: the frequency-domain delay line: ring index and storage
#include "stream_common.hpp"

#include <neo/convolution/compressed_fdl.hpp>
#include <neo/convolution/dense_fdl.hpp>
#include <neo/convolution/fdl_index.hpp>

namespace vh {

namespace nc = neo::convolution;

// ---- storage under test: insert integers / q, read integers * m
template<typename C>
struct dense
{
    nc::dense_fdl<C> fdl;
    static constexpr long long q = 1;
    static constexpr long long m = 0;
    static constexpr long long range = 4000;
    static constexpr char const* name = "dense";
    dense(std::size_t r, std::size_t c) : fdl{stdex::dextents<std::size_t, 2>{r, c}} {}
    auto insert(ints const& x, std::size_t row, bool strided) -> bool
    {
        auto o = object<C>{1, x.size() / 2, strided ? 'S' : 'R', 1};
        for (std::size_t i = 0; i < x.size() / 2; ++i) { o.buf[o.idx(0, i)] = elem<C>::make(x[2 * i], x[2 * i + 1]); }
        auto const before = o.flat();
        if (strided) {
            fdl.insert(o.template vec<S>(), row);
        } else {
            fdl.insert(o.template vec<R>(), static_cast<int>(row));
        }
        return o.guard() && o.flat() == before;
    }
    auto read(std::size_t row) const -> ints
    {
        auto const v = fdl[row];
        auto out     = ints{};
        for (std::size_t i = 0; i < v.extent(0); ++i) {
            C const z = v[i];
            out.push_back(exact(static_cast<long double>(z.real())));
            out.push_back(exact(static_cast<long double>(z.imag())));
        }
        return out;
    }
};

template<typename F, typename C>
struct split
{
    nc::dense_split_fdl<F> fdl;
    static constexpr long long q = 1;
    static constexpr long long m = 0;
    static constexpr long long range = 4000;
    static constexpr char const* name = "split";
    split(std::size_t r, std::size_t c) : fdl{stdex::dextents<std::size_t, 2>{r, c}} {}
    auto insert(ints const& x, std::size_t row, bool strided) -> bool
    {
        auto o = object<C>{1, x.size() / 2, strided ? 'S' : 'R', 1};
        for (std::size_t i = 0; i < x.size() / 2; ++i) { o.buf[o.idx(0, i)] = elem<C>::make(x[2 * i], x[2 * i + 1]); }
        auto const before = o.flat();
        if (strided) {
            fdl.insert(o.template vec<S>(), row);
        } else {
            fdl.insert(o.template vec<R>(), static_cast<int>(row));
        }
        return o.guard() && o.flat() == before;
    }
    auto read(std::size_t row) const -> ints
    {
        auto const v = fdl[row];
        auto out     = ints{};
        for (std::size_t i = 0; i < v.real.extent(0); ++i) {
            out.push_back(exact(static_cast<long double>(v.real[i])));
            out.push_back(exact(static_cast<long double>(v.imag[i])));
        }
        return out;
    }
};

template<typename Int, typename FC>
struct compressed
{
    using F = typename FC::value_type;
    nc::compressed_fdl<FC, neo::scalar_complex<Int>> fdl;
    static constexpr long long q = 4096;
    static constexpr long long m = std::numeric_limits<Int>::max();
    static constexpr long long range = 4096;
    static constexpr char const* name = "compressed";
    compressed(std::size_t r, std::size_t c) : fdl{stdex::dextents<std::size_t, 2>{r, c}} {}
    auto insert(ints const& x, std::size_t row, bool strided) -> bool
    {
        auto o = object<FC>{1, x.size() / 2, strided ? 'S' : 'R', 1};
        for (std::size_t i = 0; i < x.size() / 2; ++i) {
            o.buf[o.idx(0, i)] = FC{static_cast<F>(x[2 * i]) / static_cast<F>(q), static_cast<F>(x[2 * i + 1]) / static_cast<F>(q)};
        }
        if (strided) {
            fdl.insert(o.template vec<S>(), row);
        } else {
            fdl.insert(o.template vec<R>(), static_cast<int>(row));
        }
        return o.guard();
    }
    auto read(std::size_t row) const -> ints
    {
        auto const v = fdl[row];
        auto out     = ints{};
        for (std::size_t i = 0; i < v.extent(0); ++i) {
            FC const z = v[i];
            for (auto y : {z.real(), z.imag()}) {
                auto const s = static_cast<long double>(y) * static_cast<long double>(m);
                out.push_back(std::fabs(s - std::nearbyint(s)) < 0.01L ? std::llround(s) : NANV);
            }
        }
        return out;
    }
};

template<typename Index>
void turn(nc::fdl_index<Index>& ix, char const* t)
{
    auto copied  = ints{};
    auto slots   = ints{};
    auto filters = ints{};
    auto first   = std::string{};
    ix([&](Index i) { copied.push_back(static_cast<long long>(i)); if (first.empty()) { first = "copy"; } },
       [&](Index s, Index f) {
           slots.push_back(static_cast<long long>(s));
           filters.push_back(static_cast<long long>(f));
           if (first.empty()) { first = "mul"; }
       });
    ev("turn").s("t", t).a("copied", copied).a("slots", slots).a("filters", filters).s("first", first);
}

template<typename Index, typename Store>
void session(rng& g, ints const& h, char const* it, char const* t)
{
    auto const n    = static_cast<std::size_t>(h[0]);
    auto const rows = static_cast<std::size_t>(h[1]);
    auto const cols = static_cast<std::size_t>(h[2]);
    ev("ring").s("t", it).i("n", h[0]);
    auto ix = nc::fdl_index<Index>{static_cast<Index>(n)};
    ev("store").s("kind", Store::name).s("t", t).i("rows", h[1]).i("cols", h[2]);
    auto fdl  = Store{rows, cols};
    auto read = [&] {
        auto got = std::vector<ints>{};
        for (std::size_t r = 0; r < rows; ++r) { got.push_back(fdl.read(r)); }
        ev("read").s("kind", Store::name).s("t", t).i("q", Store::q).i("m", Store::m).m("got", got);
    };
    for (std::size_t i = 3; i + 1 < h.size(); i += 2) {
        replant(g, ix, 10);
        replant(g, fdl.fdl, 10);
        switch (h[i]) {
            case 1: turn(ix, it); break;
            case 2:
                ix.reset();
                ev("reset").s("t", it);
                break;
            case 3: {
                auto x = ints{};
                for (std::size_t k = 0; k < 2 * cols; ++k) {
                    auto v = g.in(-Store::range, Store::range);
                    if (g.flag(10)) { v = g.flag(50) ? Store::range : -Store::range; }
                    x.push_back(v);
                }
                auto const ok = fdl.insert(x, static_cast<std::size_t>(h[i + 1]), g.flag(40));
                ev("insert").s("kind", Store::name).s("t", t).i("r", h[i + 1]).a("x", x).b("guard", ok);
                break;
            }
            default: read(); break;
        }
    }
    read();
}

void run()
{
    auto g          = rng{5};
    auto const hist = stream_scenarios();
    for (std::size_t i = 0; i < hist.size(); ++i) {
        auto const& h = hist[i];
        switch (i % 9) {
            case 0: session<std::size_t, dense<std::complex<float>>>(g, h, "size", "c64"); break;
            case 1: session<int, dense<std::complex<double>>>(g, h, "int", "c128"); break;
            case 2: session<std::uint8_t, dense<neo::scalar_complex<float>>>(g, h, "u8", "s64"); break;
            case 3: session<std::size_t, split<float, std::complex<float>>>(g, h, "size", "c64"); break;
            case 4: session<std::int16_t, split<double, std::complex<double>>>(g, h, "i16", "c128"); break;
            case 5: session<std::uint32_t, compressed<std::int8_t, neo::scalar_complex<float>>>(g, h, "u32", "i8"); break;
            case 6: session<std::size_t, compressed<std::int16_t, neo::scalar_complex<float>>>(g, h, "size", "i16"); break;
            case 7: session<std::uint16_t, compressed<std::int16_t, std::complex<double>>>(g, h, "u16", "i16d"); break;
            default: session<long, compressed<std::int16_t, std::complex<float>>>(g, h, "long", "i16c"); break;
        }
    }
    // large stores
    for (auto [n, r, c] : {std::array<long long, 3>{3, 300, 2}, {2, 2, 1025}, {2, 2, 2600}, {2, 2600, 2}, {2, 40, 129}}) {
        auto h = ints{n, r, c};
        for (int k = 0; k < 12; ++k) {
            h.push_back(3);
            h.push_back(k == 0 ? r - 1 : k == 1 ? 0 : g.in(0, r - 1));
        }
        session<std::size_t, dense<std::complex<float>>>(g, h, "size", "c64");
        session<std::size_t, split<double, std::complex<double>>>(g, h, "size", "c128");
        session<std::size_t, compressed<std::int8_t, neo::scalar_complex<float>>>(g, h, "size", "i8");
    }
    {
        ev("ring").s("t", "size").i("n", 300);
        auto a = nc::fdl_index<std::size_t>{300};
        for (std::size_t k = 0; k < 310; ++k) { turn(a, "size"); }
        ev("ring").s("t", "u8").i("n", 255);
        auto b = nc::fdl_index<std::uint8_t>{255};
        for (std::size_t k = 0; k < 260; ++k) { turn(b, "u8"); }
    }
    // long rings, several turns
    for (std::size_t n : {1, 2, 13, 64, 127}) {
        ev("ring").s("t", "size").i("n", static_cast<long long>(n));
        auto a = nc::fdl_index<std::size_t>{n};
        for (std::size_t k = 0; k < 2 * n + 3; ++k) { turn(a, "size"); }
        ev("ring").s("t", "i8").i("n", static_cast<long long>(std::min<std::size_t>(n, 100)));
        auto b = nc::fdl_index<std::int8_t>{static_cast<std::int8_t>(std::min<std::size_t>(n, 100))};
        for (std::size_t k = 0; k < n + 3; ++k) { turn(b, "i8"); }
    }
}

}  // namespace vh

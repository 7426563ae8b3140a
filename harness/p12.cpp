// P12: csr_matrix histories generated from the Csr specification
#include "la_common.hpp"

#include <neo/algorithm/multiply_add.hpp>
#include <neo/container/csr_matrix.hpp>

namespace vh {

constexpr char const* filters[] = {"", "all", "none", "nz", "evencol", "notrow1", "upper", "neg"};

template<typename T>
void push(ints& q, T v)
{
    q.push_back(exact(elem<T>::re(v)));
    q.push_back(exact(elem<T>::im(v)));
}

template<typename T, typename Mat>
void dump(Mat const& m)
{
    using I    = typename Mat::index_type;
    auto dense = ints{}, vals = ints{}, cols = ints{}, ptr = ints{};
    for (std::size_t r = 0; r < m.rows(); ++r) {
        for (std::size_t c = 0; c < m.columns(); ++c) { push(dense, T(m(static_cast<I>(r), static_cast<I>(c)))); }
    }
    for (auto const& v : m.value_container()) { push(vals, T(v)); }
    for (auto const& v : m.column_container()) { cols.push_back(static_cast<long long>(v)); }
    for (auto const& v : m.row_container()) { ptr.push_back(static_cast<long long>(v)); }
    ev("dump")
        .a("dims", ints{static_cast<long long>(m.extent(0)), static_cast<long long>(m.extent(1))})
        .a("rc", ints{static_cast<long long>(m.extents().extent(0)), static_cast<long long>(m.columns())})
        .i("size", static_cast<long long>(m.size()))
        .a("dense", dense)
        .a("vals", vals)
        .a("cols", cols)
        .a("ptr", ptr);
}

template<typename T, typename Index>
void history(rng& g, ints const& h, char layout, std::size_t every = 1)
{
    using Mat       = neo::csr_matrix<T, Index>;
    auto const rows = static_cast<std::size_t>(h[0]);
    auto const cols = static_cast<std::size_t>(h[1]);
    auto m          = Mat{};
    if (h[2] == 0) {
        m = Mat{rows, cols};
        ev("new").a("d", ints{h[0], h[1]});
    } else {
        auto const pick = static_cast<int>(h[2]) + (g.flag(14) && h[2] == 6 ? 1 : 0);
        auto src        = object<T>{rows, cols, layout, static_cast<std::size_t>(g.in(0, 3))};
        src.randomize(g, 3);
        for (std::size_t i = 0; i < rows; ++i) {
            for (std::size_t j = 0; j < cols; ++j) {
                if (g.flag(30)) { src.buf[src.idx(i, j)] = T{}; }
            }
        }
        auto keep = [pick](auto r, auto c, T v) -> bool {
            switch (pick) {
                case 1: return true;
                case 2: return false;
                case 3: return v != T{};
                case 4: return c % 2 == 0;
                case 5: return r != 1;
                case 6: return r <= c;
                default: return elem<T>::re(v) < 0;
            }
        };
        if (layout == 'R') {
            m = Mat(src.template mat<R>(), keep);
        } else if (layout == 'L') {
            m = Mat(src.template mat<L>(), keep);
        } else {
            m = Mat(src.template mat<S>(), keep);
        }
        ev("dense").a("d", ints{h[0], h[1]}).s("f", filters[pick]).a("m", src.flat());
    }
    dump<T>(m);
    auto madd = [&](std::size_t row) {
        auto x = object<T>{1, cols, 'R', 1};
        auto z = object<T>{1, cols, 'R', 2};
        auto o = object<T>{1, cols, 'R', 0};
        x.randomize(g, 30);
        z.randomize(g, 30);
        o.randomize(g, 30);
        auto const alias = g.in(0, 3);
        if (alias == 1) {
            // accumulate in place, as the convolvers do
            auto const before = z.flat();
            auto const xs     = x.flat();
            neo::multiply_add(x.template vec<R>(), m, static_cast<Index>(row), z.template vec<R>(), z.template vec<R>());
            ev("madd").i("r", static_cast<long long>(row)).a("x", xs).a("z", before).a("before", before).a("after", z.flat()).b("guard", z.guard() && x.flat() == xs);
        } else if (alias == 2) {
            auto sx = object<T>{1, cols, 'S', 1};
            auto so = object<T>{1, cols, 'S', 3};
            sx.randomize(g, 30);
            so.randomize(g, 30);
            auto const before = so.flat();
            neo::multiply_add(sx.template vec<S>(), m, static_cast<Index>(row), z.template vec<R>(), so.template vec<S>());
            ev("madd").i("r", static_cast<long long>(row)).a("x", sx.flat()).a("z", z.flat()).a("before", before).a("after", so.flat()).b("guard", z.guard() && so.guard() && sx.guard());
        } else {
            auto const before = o.flat();
            neo::multiply_add(x.template cvec<R>(), m, static_cast<Index>(row), z.template cvec<R>(), o.template vec<R>());
            ev("madd").i("r", static_cast<long long>(row)).a("x", x.flat()).a("z", z.flat()).a("before", before).a("after", o.flat()).b("guard", z.guard() && o.guard() && x.guard());
        }
    };
    for (std::size_t i = 3; i + 3 < h.size(); i += 4) {
        auto const r = static_cast<std::size_t>(h[i + 1]);
        replant(g, m, 10);
        if (h[i] == 1) {
            auto const v = elem<T>::make(h[i + 3], h[i + 3] / 2 + 1);
            m.insert(static_cast<Index>(r), static_cast<Index>(h[i + 2]), v);
            ev("insert").i("r", h[i + 1]).i("c", h[i + 2]).a("val", ints{exact(elem<T>::re(v)), exact(elem<T>::im(v))});
            if ((i / 4) % every == 0) { dump<T>(m); }
        } else {
            madd(r);
        }
    }
    // a copy is independent of the original
    auto const copy = m;
    m.insert(0, static_cast<Index>(cols - 1), elem<T>::make(99, 98));
    dump<T>(copy);
    for (std::size_t r = 0; r < rows; r += every) {
        ev("insert").i("r", 0).i("c", static_cast<long long>(cols - 1)).a("val", ints{99, elem<T>::cx ? 98 : 0});
        madd(r);
    }
    dump<T>(m);
}

/// more rows, columns and entries than narrow counters hold: the matrix repeats a small one, to which the events refer
template<typename T, typename Index>
void huge(rng& g, std::size_t rows, std::size_t cols, int pick, char layout)
{
    constexpr auto P = object<T>::period;
    auto const pr    = std::min(rows, P);
    auto const pc    = std::min(cols, P);
    auto small       = object<T>{pr, pc, 'R', 0};
    small.randomize(g, 3);
    auto src = object<T>{rows, cols, layout, 1};
    for (std::size_t i = 0; i < rows; ++i) {
        for (std::size_t j = 0; j < cols; ++j) { src.buf[src.idx(i, j)] = small.buf[small.idx(i % P, j % P)]; }
    }
    auto keep = [pick](auto /*r*/, auto /*c*/, T v) -> bool { return pick == 1 || (pick == 3 && v != T{}) || (pick == 7 && elem<T>::re(v) < 0); };
    auto m    = neo::csr_matrix<T, Index>{};
    if (layout == 'L') {
        m = neo::csr_matrix<T, Index>(src.template mat<L>(), keep);
    } else {
        m = neo::csr_matrix<T, Index>(src.template mat<R>(), keep);
    }
    ev("dense").a("d", ints{static_cast<long long>(pr), static_cast<long long>(pc)}).s("f", filters[pick]).a("m", small.flat());
    replant(g, m, 50);
    for (int k = 0; k < 6; ++k) {
        auto const r = k == 0 ? rows - 1 : static_cast<std::size_t>(g.in(0, static_cast<long long>(rows) - 1));
        auto x       = object<T>{1, cols, 'R', 1};
        auto z       = object<T>{1, cols, 'R', 2};
        auto o       = object<T>{1, cols, 'R', 0};
        x.randomize(g, 30);
        z.randomize(g, 30);
        o.randomize(g, 30);
        auto const before = o.flat();
        neo::multiply_add(x.template vec<R>(), m, static_cast<Index>(r), z.template vec<R>(), o.template vec<R>());
        auto same = m.rows() == rows && m.columns() == cols && m.size() == rows * cols;
        for (int i = 0; i < 200; ++i) {
            // reading agrees with multiplying ones
            auto const a = static_cast<std::size_t>(g.in(0, static_cast<long long>(rows) - 1));
            auto const b = i == 0 ? cols - 1 : static_cast<std::size_t>(g.in(0, static_cast<long long>(cols) - 1));
            same         = same && T(m(static_cast<Index>(a), static_cast<Index>(b))) == T(m(static_cast<Index>(a % P), static_cast<Index>(b % P)));
        }
        ev("madd").i("r", static_cast<long long>(r % P)).a("x", x.flat()).a("z", z.flat()).a("before", before).a("after", o.flat()).b("guard", z.guard() && o.guard() && x.guard() && same);
    }
}

void run()
{
    auto g          = rng{12};
    huge<float, std::size_t>(g, 3, 33000, 1, 'R');
    huge<double, std::size_t>(g, 2, 70001, 3, 'L');
    huge<std::complex<float>, std::uint32_t>(g, 70001, 2, 1, 'R');
    huge<float, int>(g, 70001, 1, 7, 'L');
    huge<std::complex<double>, std::size_t>(g, 2, 33001, 7, 'R');
    std::size_t n   = 0;
    constexpr char lay[] = {'R', 'L', 'S'};
    for (auto const& line : scenario_lines()) {
        auto const h = parse_ints(line);
        if (h.size() < 7) { continue; }
        switch (n % 5) {
            case 0: history<float, std::size_t>(g, h, lay[(n / 5) % 3]); break;
            case 1: history<std::complex<float>, std::size_t>(g, h, lay[(n / 5) % 3]); break;
            case 2: history<double, std::size_t>(g, h, lay[(n / 5) % 3]); break;
            case 3: history<std::complex<double>, std::size_t>(g, h, lay[(n / 5) % 3]); break;
            default: history<float, std::uint32_t>(g, h, lay[(n / 5) % 3]); break;
        }
        ++n;
    }
    // large matrices, many entries, narrow index types
    auto big = [&](std::size_t rows, std::size_t cols, long long filter, int len) {
        auto h = ints{static_cast<long long>(rows), static_cast<long long>(cols), filter};
        for (int i = 0; i < len; ++i) {
            auto const k = g.flag(90) ? 1 : 2;
            for (long long x : {static_cast<long long>(k), g.in(0, static_cast<long long>(rows) - 1), g.in(0, static_cast<long long>(cols) - 1), g.in(-60, 60)}) { h.push_back(x); }
        }
        return h;
    };
    for (int k = 0; k < (g_thorough ? 6 : 1); ++k) {
        history<float, std::size_t>(g, big(2, 300, 0, 120), 'R', 24);
        history<std::complex<double>, std::size_t>(g, big(300, 2, 4, 60), 'L', 24);
        history<std::complex<float>, std::uint32_t>(g, big(3, 270, 1, 20), 'S', 10);
        history<float, std::size_t>(g, big(2, 2100, 4, 12), 'R', 40);
        history<double, std::uint32_t>(g, big(2100, 2, 1, 12), 'S', 500);
        history<std::complex<float>, int>(g, big(2, 2100, 5, 8), 'L', 40);
        history<double, int>(g, big(40, 17, 6, 60), 'R', 24);
        history<float, std::uint16_t>(g, big(9, 150, 0, 200), 'L', 40);
        history<double, std::uint8_t>(g, big(20, 30, 0, 100), 'R', 20);
    }
}

}  // namespace vh

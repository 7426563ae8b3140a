// P14: add, multiply, scale, fill, copy on vectors, matrices and split-complex vectors.
// Programs generated from the LinAlg specification are run on every element type and layout.
#include "la_common.hpp"

#include <neo/algorithm/add.hpp>
#include <neo/algorithm/copy.hpp>
#include <neo/algorithm/fill.hpp>
#include <neo/algorithm/multiply.hpp>
#include <neo/algorithm/scale.hpp>

namespace vh {

constexpr long long LIMIT = 1 << 22;

struct step
{
    int op;
    std::size_t x, y, o;
    long long a, b;
};

auto programs() -> std::vector<std::vector<step>>
{
    auto out = std::vector<std::vector<step>>{};
    for (auto const& line : scenario_lines()) {
        auto const v = parse_ints(line);
        if (v.empty()) { continue; }
        auto p = std::vector<step>{};
        for (std::size_t i = 1; i + 5 < v.size(); i += 6) {
            p.push_back(step{static_cast<int>(v[i]), static_cast<std::size_t>(v[i + 1] - 1), static_cast<std::size_t>(v[i + 2] - 1), static_cast<std::size_t>(v[i + 5] - 1), v[i + 3], v[i + 4]});
        }
        out.push_back(p);
    }
    return out;
}

template<bool Vec, typename T>
void call_view(object<T>& o, int alt, auto f)
{
    if constexpr (Vec) {
        if (o.kind == 'S') { return f(o.template vec<S>()); }
        if (alt == 0) { return f(o.template vec<R>()); }
        if (alt == 1) { return f(o.template vec<L>()); }
        return f(o.template vec<S>());
    } else {
        if (o.kind == 'S' || alt == 2) { return f(o.template mat<S>()); }
        if (o.kind == 'R') { return f(o.template mat<R>()); }
        return f(o.template mat<L>());
    }
}

template<typename Objs>
void log(Objs const& objs, char const* op, char const* t, char const* kinds, step const& st, bool real)
{
    ev(op).s("t", t).s("sch", kinds).i("x", static_cast<long long>(st.x) + 1).i("y", static_cast<long long>(st.y) + 1).i("o", static_cast<long long>(st.o) + 1).a("a", ints{st.a, real ? 0 : st.b}).m("env", all_flat(objs)).b("guard", all_guard(objs));
}

template<bool Vec, typename T>
void program(rng& g, std::vector<step> const& prog, std::size_t rows, std::size_t cols, char const* kinds, char const* t)
{
    auto objs = std::vector<object<T>>{};
    for (int i = 0; i < 4; ++i) { objs.emplace_back(rows, cols, kinds[i], static_cast<std::size_t>(g.in(0, 5))); }
    auto begin = [&] {
        for (auto& o : objs) { o.randomize(g, 30); }
        ev("begin").s("t", t).s("sch", kinds).m("env", all_flat(objs)).b("guard", all_guard(objs));
    };
    begin();
    for (auto const& st : prog) {
        auto& x = objs[st.x];
        auto& y = objs[st.y];
        auto& o = objs[st.o];
        if (2 * x.maxabs() * y.maxabs() > LIMIT || 8 * o.maxabs() > LIMIT) { begin(); }
        auto const ax = static_cast<int>(g.in(0, 2));
        auto const ay = static_cast<int>(g.in(0, 2));
        auto const ao = static_cast<int>(g.in(0, 2));
        auto const al = elem<T>::make(st.a, st.b);
        // a real coefficient applied to complex data is the Gaussian integer <<a, 0>>
        auto const real = !elem<T>::cx || g.flag(40);
        switch (st.op) {
            case 1:
                call_view<Vec>(x, ax, [&](auto vx) { call_view<Vec>(y, ay, [&](auto vy) { call_view<Vec>(o, ao, [&](auto vo) { neo::add(vx, vy, vo); }); }); });
                log(objs, "add", t, kinds, st, true);
                break;
            case 2:
                call_view<Vec>(x, ax, [&](auto vx) { call_view<Vec>(y, ay, [&](auto vy) { call_view<Vec>(o, ao, [&](auto vo) { neo::multiply(vx, vy, vo); }); }); });
                log(objs, "mul", t, kinds, st, true);
                break;
            case 3:
                if constexpr (elem<T>::cx) {
                    if (real) {
                        call_view<Vec>(o, ao, [&](auto vo) { neo::scale(static_cast<typename T::value_type>(st.a), vo); });
                    } else {
                        call_view<Vec>(o, ao, [&](auto vo) { neo::scale(al, vo); });
                    }
                } else {
                    call_view<Vec>(o, ao, [&](auto vo) { neo::scale(al, vo); });
                }
                log(objs, "scale", t, kinds, st, real);
                // the coefficient is an element of the object itself: all elements are multiplied by its old value
                if (rows > 0 && cols > 0 && 2 * o.maxabs() * o.maxabs() < LIMIT) {
                    auto own = st;
                    auto const i = static_cast<std::size_t>(g.in(0, static_cast<long long>(rows) - 1));
                    auto const j = static_cast<std::size_t>(g.in(0, static_cast<long long>(cols) - 1));
                    own.a = exact(elem<T>::re(o.buf[o.idx(i, j)]));
                    own.b = exact(elem<T>::im(o.buf[o.idx(i, j)]));
                    call_view<Vec>(o, ao, [&](auto vo) { neo::scale(o.buf[o.idx(i, j)], vo); });
                    log(objs, "scale", t, kinds, own, !elem<T>::cx);
                }
                break;
            case 4: {
                auto const one = !elem<T>::cx;
                call_view<Vec>(o, ao, [&](auto vo) { neo::fill(vo, al); });
                log(objs, "fill", t, kinds, st, one);
                if (rows > 0 && cols > 0) {
                    auto own = st;
                    auto const i = static_cast<std::size_t>(g.in(0, static_cast<long long>(rows) - 1));
                    auto const j = static_cast<std::size_t>(g.in(0, static_cast<long long>(cols) - 1));
                    own.o = st.o == 0 ? 1 : 0;
                    auto& q = objs[own.o];
                    own.a = exact(elem<T>::re(q.buf[q.idx(i, j)]));
                    own.b = exact(elem<T>::im(q.buf[q.idx(i, j)]));
                    call_view<Vec>(q, ao, [&](auto vo) { neo::fill(vo, q.buf[q.idx(i, j)]); });
                    log(objs, "fill", t, kinds, own, one);
                }
                break;
            }
            default:
                call_view<Vec>(x, ax, [&](auto vx) { call_view<Vec>(o, ao, [&](auto vo) { neo::copy(vx, vo); }); });
                log(objs, "copy", t, kinds, st, true);
                break;
        }
    }
}

constexpr char const* kinds_of[] = {"RRRR", "RLRL", "LLLL", "SSSS", "RSLS", "SRSR", "LSRR"};

template<typename T>
void family(rng& g, std::vector<std::vector<step>> const& progs, char const* t)
{
    std::size_t p = static_cast<std::size_t>(g.in(0, 1000));
    auto next     = [&]() -> std::vector<step> const& { return progs[p++ % progs.size()]; };
    auto const rep = g_thorough ? 4 : 1;
    for (int r = 0; r < rep; ++r) {
        for (std::size_t n = 0; n <= 20; ++n) { program<true, T>(g, next(), 1, n, (n % 2 == 0) ? "RRRR" : "RSRS", t); }
        program<true, T>(g, next(), 1, 33, "RRRR", t);
        program<true, T>(g, next(), 1, 40, "SSRR", t);
        for (auto const* k : kinds_of) {
            for (auto [a, b] : {std::pair{1, 1}, {1, 5}, {4, 1}, {2, 3}, {3, 2}, {3, 3}, {4, 7}, {7, 4}, {0, 3}, {3, 0}}) {
                if (!g_thorough && g.flag(40)) { continue; }
                program<false, T>(g, next(), static_cast<std::size_t>(a), static_cast<std::size_t>(b), k, t);
            }
        }
    }
    for (auto const* k : kinds_of) {
        program<false, T>(g, next(), 50, 3, k, t);
        program<false, T>(g, next(), 3, 50, k, t);
    }
    // extents beyond what narrow counters hold, every operation
    auto const all_ops = std::vector<step>{{1, 0, 1, 2, 0, 0}, {2, 1, 2, 3, 0, 0}, {3, 0, 0, 1, 2, -1}, {5, 1, 0, 0, 0, 0}, {4, 0, 0, 2, 7, 3}};
    program<true, T>(g, all_ops, 1, 33000, "RSRS", t);
    program<true, T>(g, all_ops, 1, 70001, "RRRR", t);
    program<false, T>(g, all_ops, 33000, 2, "RLRL", t);
    program<false, T>(g, all_ops, 2, 33000, "SSLL", t);
    program<false, T>(g, all_ops, 1, 70000, "LSRR", t);
    program<false, T>(g, all_ops, 70000, 1, "RRRR", t);
    if constexpr (std::same_as<T, float> || std::same_as<T, std::complex<double>>) {
        for (auto const* k : {"RLRL", "SSLL"}) {
            auto short_prog = next();
            if (short_prog.size() > 3) { short_prog.resize(3); }
            program<false, T>(g, short_prog, 2050, 2, k, t);
            program<false, T>(g, short_prog, 2, 2050, k, t);
        }
    }
}

template<bool Vec, typename T>
auto right(object<T>& o)
{
    if constexpr (Vec) {
        return o.template vec<R>();
    } else {
        return o.template mat<R>();
    }
}

/// quiet and loud operands, views whose elements are not those in memory, large extents
template<bool Vec, typename T>
void special(rng& g, std::size_t rows, std::size_t cols, int range, char const* t)
{
    auto objs = std::vector<object<T>>{};
    for (int i = 0; i < 4; ++i) { objs.emplace_back(rows, cols, 'R', static_cast<std::size_t>(g.in(0, 5))); }
    auto begin = [&](int kx, int ky, int ko) {
        for (auto& o : objs) {
            o.unit(0);
            o.randomize(g, 30);
        }
        objs[0].rescale(kx);
        objs[1].rescale(ky);
        objs[2].rescale(ko);
        ev("begin").s("t", t).s("sch", "scaled").m("env", all_flat(objs)).b("guard", all_guard(objs));
    };
    auto done = [&](char const* op, std::size_t x, std::size_t y, std::size_t o, long long a = 0, long long b = 0) {
        log(objs, op, t, "scaled", step{0, x, y, o, a, b}, !elem<T>::cx);
    };
    auto const kx = static_cast<int>(g.in(-range, range));
    auto const ky = static_cast<int>(g.in(-range, range));
    auto view     = [&](std::size_t i) { return right<Vec>(objs[i]); };
    begin(kx, kx, kx);
    neo::add(view(0), view(1), view(2));
    done("add", 0, 1, 2);
    neo::copy(view(2), view(0));
    done("copy", 2, 2, 0);
    begin(kx, ky, kx + ky);
    neo::multiply(view(0), view(1), view(2));
    done("mul", 0, 1, 2);
    begin(kx, ky, 0);
    if constexpr (!std::is_integral_v<T>) {
        auto al = object<T>{1, 1, 'R', 0};
        al.buf[0] = elem<T>::make(-3, elem<T>::cx ? 5 : 0);
        al.rescale(ky);
        neo::scale(al.buf[0], view(0));
        objs[0].unit(kx + ky);
        done("scale", 0, 0, 0, -3, 5);
        neo::fill(view(1), al.buf[0]);
        done("fill", 1, 1, 1, -3, 5);
    }
    // negated input views
    begin(0, 0, 0);
    auto neg = [&](std::size_t i) {
        if constexpr (Vec) {
            return negated_vec(objs[i]);
        } else {
            return negated_mat(objs[i]);
        }
    };
    auto env = [&] {
        auto e = all_flat(objs);
        e[0]   = minus(e[0]);
        return e;
    };
    auto note = [&](char const* op, std::size_t x, std::size_t y, std::size_t o) {
        ev(op).s("t", t).s("sch", "negated").i("x", static_cast<long long>(x) + 1).i("y", static_cast<long long>(y) + 1).i("o", static_cast<long long>(o) + 1).a("a", ints{0, 0}).m("env", env()).b("guard", all_guard(objs));
    };
    ev("begin").s("t", t).s("sch", "negated").m("env", env()).b("guard", all_guard(objs));
    neo::copy(neg(0), view(3));
    note("copy", 0, 0, 3);
    neo::add(neg(0), view(1), view(2));
    note("add", 0, 1, 2);
    neo::multiply(view(1), neg(0), view(3));
    note("mul", 1, 0, 3);
    // read-only views of the same memory
    auto cv = [&](std::size_t i) {
        auto v   = right<Vec>(objs[i]);
        using md = stdex::mdspan<T const, typename decltype(v)::extents_type, R>;
        return md{v.data_handle(), v.extents()};
    };
    begin(0, 0, 0);
    neo::add(cv(0), cv(1), view(2));
    done("add", 0, 1, 2);
    neo::multiply(cv(0), cv(0), view(3));
    done("mul", 0, 0, 3);
    neo::copy(cv(0), view(1));
    done("copy", 0, 0, 1);
}

/// copying and filling keep every bit: infinities, NaN, signed zeros, denormals
template<typename F>
void bits(rng& g, char const* t)
{
    using U     = std::conditional_t<sizeof(F) == 4, std::uint32_t, std::uint64_t>;
    auto half   = [](F x) {
        auto const u = std::bit_cast<U>(x);
        return sizeof(F) == 4 ? ints{static_cast<long long>(u & 0xFFFF), static_cast<long long>(u >> 16)} : ints{static_cast<long long>(u & 0xFFFFFF), static_cast<long long>((static_cast<std::uint64_t>(u) >> 34) & 0x3FFFFFFF)};
    };
    auto const lim = std::numeric_limits<F>{};
    auto const pool = std::vector<F>{F(0), F(-0.0), lim.infinity(), -lim.infinity(), lim.quiet_NaN(), -lim.quiet_NaN(), lim.denorm_min(), -lim.denorm_min(), lim.min(), lim.max(), lim.lowest(), lim.epsilon(), F(1), F(0.1), F(-1e-30), F(1e30)};
    for (std::size_t n : {1, 3, 8, 17, 40}) {
        auto a   = std::vector<F>(n);
        auto b   = std::vector<F>(n);
        auto im  = std::vector<F>(n, F(3));
        for (auto& x : a) { x = pool[static_cast<std::size_t>(g.in(0, 15))]; }
        for (auto& x : b) { x = pool[static_cast<std::size_t>(g.in(0, 15))]; }
        using md = stdex::mdspan<F, stdex::dextents<std::size_t, 1>>;
        using mm = stdex::mdspan<F, stdex::dextents<std::size_t, 2>>;
        auto env = [&] {
            auto out = std::vector<ints>(2);
            for (auto x : a) { for (auto v : half(x)) { out[0].push_back(v); } }
            for (auto x : b) { for (auto v : half(x)) { out[1].push_back(v); } }
            return out;
        };
        auto note = [&](char const* op, long long x, long long o, ints const& al) { ev(op).s("t", t).s("sch", "bits").i("x", x).i("y", x).i("o", o).a("a", al).m("env", env()).b("guard", true); };
        auto begin = [&] { ev("begin").s("t", t).s("sch", "bits").m("env", env()).b("guard", true); };
        begin();
        neo::copy(md{a.data(), n}, md{b.data(), n});
        note("copy", 1, 2, ints{0, 0});
        for (auto x : {pool[1], pool[4], pool[6], pool[13]}) {
            neo::fill(md{a.data(), n}, x);
            note("fill", 1, 1, half(x));
            neo::fill(mm{b.data(), n, 1}, x);
            note("fill", 1, 2, half(x));
        }
        // through split storage and back
        for (auto& x : a) { x = pool[static_cast<std::size_t>(g.in(0, 15))]; }
        begin();
        auto z = std::vector<std::complex<F>>(n);
        auto zv = stdex::mdspan<std::complex<F>, stdex::dextents<std::size_t, 1>>{z.data(), n};
        neo::copy(neo::split_complex{md{a.data(), n}, md{im.data(), n}}, zv);
        auto re = std::vector<F>(n);
        neo::copy(zv, neo::split_complex{md{b.data(), n}, md{re.data(), n}});
        note("copy", 1, 2, ints{0, 0});
    }
}

/// elements converted on the way
template<typename From, typename To>
void mixed(rng& g, char const* t)
{
    for (std::size_t n : {1, 5, 16, 21}) {
        auto x = object<From>{1, n, 'R', 1};
        auto y = object<To>{1, n, 'R', 2};
        auto z = object<To>{1, n, 'S', 0};
        x.randomize(g, 90);
        y.randomize(g, 90);
        z.randomize(g, 90);
        auto env   = [&] { return std::vector<ints>{x.flat(), y.flat(), z.flat()}; };
        auto guard = [&] { return x.guard() && y.guard() && z.guard(); };
        auto note  = [&](char const* op, long long a, long long b, long long o) { ev(op).s("t", t).s("sch", "mixed").i("x", a).i("y", b).i("o", o).a("a", ints{0, 0}).m("env", env()).b("guard", guard()); };
        ev("begin").s("t", t).s("sch", "mixed").m("env", env()).b("guard", guard());
        neo::copy(x.template vec<R>(), z.template vec<S>());
        note("copy", 1, 1, 3);
        neo::add(x.template vec<R>(), y.template vec<R>(), z.template vec<S>());
        note("add", 1, 2, 3);
        neo::multiply(y.template vec<R>(), x.template vec<R>(), z.template vec<S>());
        note("mul", 2, 1, 3);
    }
}

/// copies between interleaved and split storage
template<typename F>
void splits(rng& g, char const* t)
{
    using C = std::complex<F>;
    auto sizes = std::vector<std::size_t>{50, 2050, 33000, 70001};
    for (std::size_t n = 0; n <= 24; ++n) { sizes.push_back(n); }
    for (auto n : sizes) {
        for (char const* k : {"RRRR", "SSSS", "RSRS", "SRRS"}) {
            auto inter = std::vector<object<C>>{};
            auto spl   = std::vector<split_object<F>>{};
            for (std::size_t i = 0; i < 2; ++i) {
                inter.emplace_back(1, n, k[i], static_cast<std::size_t>(g.in(0, 5)));
                spl.emplace_back(n, k[i + 2], static_cast<std::size_t>(g.in(0, 5)));
                inter.back().randomize(g, 1000);
                spl.back().randomize(g, 1000);
            }
            auto env = [&] {
                auto e = all_flat(inter);
                for (auto& s : all_flat(spl)) { e.push_back(s); }
                return e;
            };
            auto guard = [&] { return all_guard(inter) && all_guard(spl); };
            auto sview = [&](std::size_t i, auto f) {
                if (spl[i].re.kind == 'S') { return f(spl[i].template view<S>()); }
                return f(spl[i].template view<R>());
            };
            ev("begin").s("t", t).s("sch", k).m("env", env()).b("guard", guard());
            for (int rep = 0; rep < 4; ++rep) {
                auto const i = static_cast<std::size_t>(g.in(0, 1));
                auto const s = static_cast<std::size_t>(g.in(0, 1));
                if (rep == 2) { inter[i].randomize(g, 999), ev("begin").s("t", t).s("sch", k).m("env", env()).b("guard", guard()); }
                auto st = step{5, 0, 0, 0, 0, 0};
                if (g.flag(50)) {
                    call_view<true>(inter[i], 0, [&](auto vx) { sview(s, [&](auto vo) { neo::copy(vx, vo); }); });
                    st.x = i, st.o = 2 + s;
                } else {
                    call_view<true>(inter[i], 0, [&](auto vo) { sview(s, [&](auto vx) { neo::copy(vx, vo); }); });
                    st.x = 2 + s, st.o = i;
                }
                ev("copy").s("t", t).s("sch", k).i("x", static_cast<long long>(st.x) + 1).i("y", 1).i("o", static_cast<long long>(st.o) + 1).a("a", ints{0, 0}).m("env", env()).b("guard", guard());
            }
        }
    }
}

template<typename T>
void specials(rng& g, int range, char const* t)
{
    for (int i = 0; i < (g_thorough ? 10 : 2); ++i) {
        for (std::size_t n : {1, 4, 7, 18}) { special<true, T>(g, 1, n, range, t); }
        for (auto [a, b] : {std::pair{1, 6}, {5, 3}, {3, 8}}) { special<false, T>(g, static_cast<std::size_t>(a), static_cast<std::size_t>(b), range, t); }
    }
    special<true, T>(g, 1, 300, range, t);
    special<true, T>(g, 1, 1025, range, t);
    if constexpr (std::same_as<T, float>) { special<true, T>(g, 1, 2111, range, t); }
    if constexpr (std::same_as<T, double>) { special<false, T>(g, 2, 2050, range, t); }
    if constexpr (std::same_as<T, std::complex<double>>) { special<false, T>(g, 2050, 2, range, t); }
    special<false, T>(g, 50, 47, range, t);
    special<false, T>(g, 3, 260, range, t);
    special<false, T>(g, 260, 3, range, t);
    special<false, T>(g, 20, 33, range, t);
}

void run()
{
    auto g           = rng{14};
    auto const progs = programs();
    specials<float>(g, 30, "f32");
    specials<double>(g, 250, "f64");
    specials<std::complex<float>>(g, 30, "c64");
    specials<std::complex<double>>(g, 250, "c128");
    specials<neo::complex64>(g, 30, "sc64");
    specials<int>(g, 0, "i32");
    family<int>(g, progs, "i32");
    bits<float>(g, "f32");
    bits<double>(g, "f64");
    mixed<float, double>(g, "f32f64");
    mixed<int, double>(g, "i32f64");
    mixed<short, int>(g, "i16i32");
    family<float>(g, progs, "f32");
    family<double>(g, progs, "f64");
    family<std::complex<float>>(g, progs, "c64");
    family<std::complex<double>>(g, progs, "c128");
    family<neo::complex64>(g, progs, "sc64");
    splits<float>(g, "split32");
    splits<double>(g, "split64");
}

}  // namespace vh

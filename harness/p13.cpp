// P13: out = x * y + z on dense and split-complex vectors
#include "la_common.hpp"

#include <neo/algorithm/multiply_add.hpp>

namespace vh {

constexpr long long LIMIT = 1 << 22;

template<typename Objs>
void log(Objs const& objs, char const* t, char const* sch, std::size_t x, std::size_t y, std::size_t z, std::size_t o)
{
    ev("madd").s("t", t).s("sch", sch).i("x", static_cast<long long>(x) + 1).i("y", static_cast<long long>(y) + 1).i("z", static_cast<long long>(z) + 1).i("o", static_cast<long long>(o) + 1).m("env", all_flat(objs)).b("guard", all_guard(objs));
}

/// kinds: layout of the four objects; X, Y, Z, O: layouts of the operands; each operand is picked
/// among the objects whose physical layout fits
template<typename X, typename Y, typename Z, typename O, typename Obj, typename Make, typename Call>
void session(rng& g, std::size_t n, char const* kinds, char const* t, char const* sch, int steps, Make make, Call call)
{
    auto objs = std::vector<Obj>{};
    for (int i = 0; i < 4; ++i) {
        objs.push_back(make(n, kinds[i], static_cast<std::size_t>(g.in(0, 9))));
        objs.back().randomize(g, 50);
    }
    ev("begin").s("t", t).s("sch", sch).m("env", all_flat(objs)).b("guard", all_guard(objs));
    auto pick = [&]<typename Lay>(std::type_identity<Lay>) {
        for (;;) {
            auto const i = static_cast<std::size_t>(g.in(0, 3));
            auto const s = kinds[i] == 'S';
            if (s == std::same_as<Lay, S>) { return i; }
        }
    };
    for (int i = 0; i < steps; ++i) {
        auto const x = pick(std::type_identity<X>{});
        auto const y = pick(std::type_identity<Y>{});
        auto const z = pick(std::type_identity<Z>{});
        auto const o = pick(std::type_identity<O>{});
        if (2 * objs[x].maxabs() * objs[y].maxabs() + objs[z].maxabs() > LIMIT) {
            for (auto& ob : objs) { ob.randomize(g, 50); }
            ev("begin").s("t", t).s("sch", sch).m("env", all_flat(objs)).b("guard", all_guard(objs));
        }
        call.template operator()<X, Y, Z, O>(objs[x], objs[y], objs[z], objs[o]);
        log(objs, t, sch, x, y, z, o);
    }
}

/// quiet and loud operands: out has the exponent of the product
template<typename Obj, typename Make, typename Call>
void scaled(rng& g, std::size_t n, char const* t, int range, Make make, Call call)
{
    auto objs = std::vector<Obj>{};
    for (int i = 0; i < 4; ++i) {
        objs.push_back(make(n, 'R', static_cast<std::size_t>(g.in(0, 9))));
        objs.back().randomize(g, 50);
    }
    auto const kx = static_cast<int>(g.in(-range, range));
    auto const ky = static_cast<int>(g.in(-range, range));
    objs[0].rescale(kx);
    objs[1].rescale(ky);
    objs[2].rescale(kx + ky);
    objs[3].rescale(kx + ky);
    auto const in_place = g.flag(40);
    ev("begin").s("t", t).s("sch", "scaled").m("env", all_flat(objs)).b("guard", all_guard(objs));
    call.template operator()<R, R, R, R>(objs[0], objs[1], objs[2], objs[in_place ? 2 : 3]);
    log(objs, t, "scaled", 0, 1, 2, in_place ? 2 : 3);
}

template<typename Obj, typename Make, typename Call>
void family(rng& g, char const* t, Make make, Call call)
{
    for (std::size_t n = 0; n <= (g_thorough ? 70U : 36U); ++n) {
        auto const steps = g_thorough ? 8 : 3;
        session<R, R, R, R, Obj>(g, n, "RRRR", t, "right", steps, make, call);
        session<L, L, L, L, Obj>(g, n, "RRRR", t, "left", 2, make, call);
        if (n % 3 == 0 || n < 10) {
            session<S, S, S, S, Obj>(g, n, "SSSS", t, "stride", 2, make, call);
            session<R, S, L, S, Obj>(g, n, "RSRS", t, "mixed1", 2, make, call);
            session<S, R, S, R, Obj>(g, n, "SRSR", t, "mixed2", 2, make, call);
            session<R, L, R, L, Obj>(g, n, "RRRR", t, "mixed3", 2, make, call);
        }
    }
    for (int i = 0; i < (g_thorough ? 60 : 12); ++i) { scaled<Obj>(g, static_cast<std::size_t>(g.in(1, 24)), t, std::string_view{t}.ends_with("32") || std::string_view{t} == "c64" || std::string_view{t} == "sc64" ? 24 : 200, make, call); }
    for (std::size_t n : {255, 256, 1027, 2050, 2111}) { session<R, R, R, R, Obj>(g, n, "RRRR", t, "right", 1, make, call); }
    for (std::size_t n : {258, 515, 2051}) { session<S, S, S, S, Obj>(g, n, "SSSS", t, "stride", 1, make, call); }
    for (std::size_t n : {33000, 70001}) {
        session<R, R, R, R, Obj>(g, n, "RRRR", t, "right", 1, make, call);
        session<S, S, S, S, Obj>(g, n, "SSSS", t, "stride", 1, make, call);
        session<R, S, L, S, Obj>(g, n, "RSRS", t, "mixed1", 1, make, call);
    }
    for (std::size_t n : {64, 65, 127, 129}) { session<R, R, R, R, Obj>(g, n, "RRRR", t, "right", 2, make, call); }
}

template<typename T>
void dense(rng& g, char const* t)
{
    family<object<T>>(
        g,
        t,
        [](std::size_t n, char k, std::size_t o) { return object<T>{1, n, k, o}; },
        []<typename X, typename Y, typename Z, typename O>(object<T>& x, object<T>& y, object<T>& z, object<T>& o) {
            neo::multiply_add(x.template vec<X>(), y.template vec<Y>(), z.template vec<Z>(), o.template vec<O>());
        }
    );
    // read-only operands
    family<object<T>>(
        g,
        t,
        [](std::size_t n, char k, std::size_t o) { return object<T>{1, n, k, o}; },
        []<typename X, typename Y, typename Z, typename O>(object<T>& x, object<T>& y, object<T>& z, object<T>& o) {
            neo::multiply_add(x.template cvec<X>(), y.template cvec<Y>(), z.template cvec<Z>(), o.template vec<O>());
        }
    );
}

template<typename T>
void split(rng& g, char const* t)
{
    family<split_object<T>>(
        g,
        t,
        [](std::size_t n, char k, std::size_t o) { return split_object<T>{n, k, o}; },
        []<typename X, typename Y, typename Z, typename O>(split_object<T>& x, split_object<T>& y, split_object<T>& z, split_object<T>& o) {
            neo::multiply_add(x.template view<X>(), y.template view<Y>(), z.template view<Z>(), o.template view<O>());
        }
    );
    family<split_object<T>>(
        g,
        t,
        [](std::size_t n, char k, std::size_t o) { return split_object<T>{n, k, o}; },
        []<typename X, typename Y, typename Z, typename O>(split_object<T>& x, split_object<T>& y, split_object<T>& z, split_object<T>& o) {
            neo::multiply_add(x.template cview<X>(), y.template cview<Y>(), z.template cview<Z>(), o.template view<O>());
        }
    );
}

/// views whose elements are not those in memory, statically sized views, mixed element types
template<typename T>
void views(rng& g, char const* t)
{
    for (std::size_t n : {1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 33}) {
        for (int which = 0; which < 3; ++which) {
            auto objs = std::vector<object<T>>{};
            for (int i = 0; i < 4; ++i) {
                objs.emplace_back(1, n, 'R', static_cast<std::size_t>(g.in(0, 9)));
                objs.back().randomize(g, 50);
            }
            auto env = [&] {
                auto e                           = all_flat(objs);
                e[static_cast<std::size_t>(which)] = minus(e[static_cast<std::size_t>(which)]);
                return e;
            };
            ev("begin").s("t", t).s("sch", "negated").m("env", env()).b("guard", all_guard(objs));
            auto const o = static_cast<std::size_t>(g.flag(50) ? 3 : (which + 1) % 3);
            auto out     = objs[o].template vec<R>();
            if (which == 0) {
                neo::multiply_add(negated_vec(objs[0]), objs[1].template vec<R>(), objs[2].template vec<R>(), out);
            } else if (which == 1) {
                neo::multiply_add(objs[0].template vec<R>(), negated_vec(objs[1]), objs[2].template vec<R>(), out);
            } else {
                neo::multiply_add(objs[0].template vec<R>(), objs[1].template vec<R>(), negated_vec(objs[2]), out);
            }
            ev("madd").s("t", t).s("sch", "negated").i("x", 1).i("y", 2).i("z", 3).i("o", static_cast<long long>(o) + 1).m("env", env()).b("guard", all_guard(objs));
        }
    }
    auto fixed = [&]<std::size_t N>(std::integral_constant<std::size_t, N>) {
        using md  = stdex::mdspan<T, stdex::extents<std::size_t, N>>;
        auto objs = std::vector<object<T>>{};
        for (int i = 0; i < 4; ++i) {
            objs.emplace_back(1, N, 'R', static_cast<std::size_t>(g.in(0, 9)));
            objs.back().randomize(g, 50);
        }
        ev("begin").s("t", t).s("sch", "static").m("env", all_flat(objs)).b("guard", all_guard(objs));
        auto view = [&](std::size_t i) { return md{objs[i].buf.data() + objs[i].off}; };
        neo::multiply_add(view(0), view(1), view(2), view(3));
        log(objs, t, "static", 0, 1, 2, 3);
    };
    fixed(std::integral_constant<std::size_t, 1>{});
    fixed(std::integral_constant<std::size_t, 4>{});
    fixed(std::integral_constant<std::size_t, 13>{});
}

void run()
{
    auto g = rng{13};
    dense<float>(g, "f32");
    dense<double>(g, "f64");
    dense<std::complex<float>>(g, "c64");
    dense<std::complex<double>>(g, "c128");
    dense<neo::complex64>(g, "sc64");
    dense<int>(g, "i32");
    views<float>(g, "f32");
    views<double>(g, "f64");
    views<std::complex<float>>(g, "c64");
    views<std::complex<double>>(g, "c128");
    split<float>(g, "split32");
    split<double>(g, "split64");
}

}  // namespace vh

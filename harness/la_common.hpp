// Guarded objects viewed through mdspans of every layout.
#pragma once
#include "common.hpp"

#include <neo/complex.hpp>
#include <neo/container/mdspan.hpp>

#if defined(NEO_HAS_INTEL_IPP) or defined(NEO_HAS_INTEL_MKL) or defined(NEO_HAS_APPLE_ACCELERATE)
    #define NEO_VERIF_VENDOR 1
#endif

namespace vh {

#if defined(NEO_VERIF_VENDOR)
template<typename T>
using readonly = T;  // the vendor plans do not accept views of constants
#else
template<typename T>
using readonly = T const;
#endif

using R = stdex::layout_right;
using L = stdex::layout_left;
using S = stdex::layout_stride;

template<typename T>
struct elem
{
    static auto make(long long re, long long /*im*/) -> T { return static_cast<T>(re); }
    static auto re(T v) -> long double { return static_cast<long double>(v); }
    static auto im(T /*v*/) -> long double { return 0; }
    static constexpr bool cx = false;
};
template<typename T>
    requires neo::is_complex<T>
struct elem<T>
{
    using F = typename T::value_type;
    static auto make(long long re, long long im) -> T { return T{static_cast<F>(re), static_cast<F>(im)}; }
    static auto re(T v) -> long double { return static_cast<long double>(v.real()); }
    static auto im(T v) -> long double { return static_cast<long double>(v.imag()); }
    static constexpr bool cx = true;
};

/// exact integer or a value no specification can produce
inline auto exact(long double x) -> long long
{
    if (!std::isfinite(x) || x != std::nearbyint(x) || std::fabs(x) > 2e9L) { return NANV; }
    return static_cast<long long>(x);
}

/// rows x cols elements inside a guarded buffer.
/// kind 'R'/'L': contiguous row/column major; 'S': every second element of padded rows
template<typename T>
struct object
{
    std::size_t rows, cols;
    char kind;
    std::vector<T> buf;
    std::size_t off, sr, sc;
    int e = 0;  // the values are multiples of 2^e
    static constexpr std::size_t period = 13;

    /// a very large object repeats its first elements, which are all that is recorded of it
    auto huge() const -> bool { return rows * cols > 20000; }

    object(std::size_t r, std::size_t c, char k, std::size_t o) : rows{r}, cols{c}, kind{k}, off{o}
    {
        if (k == 'R') {
            sr = c;
            sc = 1;
        } else if (k == 'L') {
            sr = 1;
            sc = r;
        } else {
            sc = 2;
            sr = 2 * c + 3;
        }
        auto const last = (r == 0 || c == 0) ? 0 : (r - 1) * sr + (c - 1) * sc + 1;
        buf.assign(off + last + 24, elem<T>::make(77, 33));
    }
    auto idx(std::size_t i, std::size_t j) const -> std::size_t { return off + i * sr + j * sc; }

    template<typename Lay>
    auto mat()
    {
        using ext = stdex::dextents<std::size_t, 2>;
        using md  = stdex::mdspan<T, ext, Lay>;
        if constexpr (std::same_as<Lay, S>) {
            return md{buf.data() + off, typename md::mapping_type{ext{rows, cols}, std::array<std::size_t, 2>{sr, sc}}};
        } else {
            return md{buf.data() + off, ext{rows, cols}};
        }
    }
    template<typename Lay>
    auto vec()
    {
        using ext = stdex::dextents<std::size_t, 1>;
        using md  = stdex::mdspan<T, ext, Lay>;
        if constexpr (std::same_as<Lay, S>) {
            return md{buf.data() + off, typename md::mapping_type{ext{cols}, std::array<std::size_t, 1>{sc}}};
        } else {
            return md{buf.data() + off, ext{cols}};
        }
    }
    template<typename Lay>
    auto cvec()
    {
        using ext = stdex::dextents<std::size_t, 1>;
        using md  = stdex::mdspan<readonly<T>, ext, Lay>;
        if constexpr (std::same_as<Lay, S>) {
            return md{buf.data() + off, typename md::mapping_type{ext{cols}, std::array<std::size_t, 1>{sc}}};
        } else {
            return md{buf.data() + off, ext{cols}};
        }
    }
    auto guard() const -> bool
    {
        auto const data = buf.data();
        auto used       = std::vector<char>(buf.size(), 0);
        auto const mark = used.data();
        for (std::size_t i = 0; i < rows; ++i) {
            for (std::size_t j = 0; j < cols; ++j) { mark[idx(i, j)] = 1; }
        }
        auto const g = elem<T>::make(77, 33);
        for (std::size_t i = 0; i < buf.size(); ++i) {
            if (mark[i] == 0 && !(elem<T>::re(data[i]) == elem<T>::re(g) && elem<T>::im(data[i]) == elem<T>::im(g))) { return false; }
        }
        return true;
    }
    void randomize(rng& g, long long m)
    {
        auto head = std::vector<T>{};
        for (std::size_t i = 0; i < rows; ++i) {
            for (std::size_t j = 0; j < cols; ++j) {
                auto const k     = i * cols + j;
                auto const fresh = !huge() || k < period;
                if (fresh) { head.push_back(elem<T>::make(g.in(-m, m), g.in(-m, m))); }
                buf[idx(i, j)] = fresh ? head[k] : head[k % period];
            }
        }
    }
    /// multiply every element by 2^k
    void rescale(int k)
    {
        if constexpr (std::is_integral_v<T>) { return; }
        for (std::size_t i = 0; i < rows; ++i) {
            for (std::size_t j = 0; j < cols; ++j) {
                auto& v = buf[idx(i, j)];
                if constexpr (std::is_floating_point_v<T>) {
                    v = std::ldexp(v, k);
                } else if constexpr (elem<T>::cx) {
                    v = T{std::ldexp(v.real(), k), std::ldexp(v.imag(), k)};
                }
            }
        }
        e += k;
    }
    auto flat() const -> ints
    {
        auto out = ints{};
        for (std::size_t i = 0; i < rows; ++i) {
            for (std::size_t j = 0; j < cols; ++j) {
                auto const& v = buf[idx(i, j)];
                auto const k  = i * cols + j;
                if (!huge() || k < period) {
                    out.push_back(exact(std::ldexp(elem<T>::re(v), -e)));
                    out.push_back(exact(std::ldexp(elem<T>::im(v), -e)));
                } else {
                    auto const& first = buf[idx((k % period) / cols, (k % period) % cols)];
                    if (std::memcmp(&first, &v, sizeof(T)) != 0) {
                        // (the sign of a zero does not count)
                        if (elem<T>::re(v) != elem<T>::re(first) || elem<T>::im(v) != elem<T>::im(first)) { return ints(2 * period, NANV); }
                    }
                }
            }
        }
        return out;
    }
    void unit(int k) { e = k; }
    auto maxabs() const -> long long
    {
        long long m = 0;
        for (auto v : flat()) { m = std::max(m, v == NANV ? 0 : std::abs(v)); }
        return m;
    }
};

/// an accessor that negates what it reads: the elements are not those in memory
template<typename T>
struct negated
{
    using element_type     = T const;
    using reference        = T;
    using data_handle_type = T const*;
    using offset_policy    = negated;

    [[nodiscard]] constexpr auto access(data_handle_type p, std::size_t i) const noexcept -> reference { return -p[i]; }
    [[nodiscard]] constexpr auto offset(data_handle_type p, std::size_t i) const noexcept -> data_handle_type { return p + i; }
};

template<typename T>
auto negated_vec(object<T>& o)
{
    using ext = stdex::dextents<std::size_t, 1>;
    using md  = stdex::mdspan<T const, ext, R, negated<T>>;
    return md{o.buf.data() + o.off, typename md::mapping_type{ext{o.cols}}, negated<T>{}};
}

template<typename T>
auto negated_mat(object<T>& o)
{
    using ext = stdex::dextents<std::size_t, 2>;
    using md  = stdex::mdspan<T const, ext, R, negated<T>>;
    return md{o.buf.data() + o.off, typename md::mapping_type{ext{o.rows, o.cols}}, negated<T>{}};
}

/// the same elements with the sign changed, as flat() reports them
inline auto minus(ints v) -> ints
{
    for (auto& x : v) {
        if (x != NANV) { x = -x; }
    }
    return v;
}

/// two guarded vectors: real and imaginary parts
template<typename T>
struct split_object
{
    object<T> re, im;
    split_object(std::size_t n, char k, std::size_t o) : re{1, n, k, o}, im{1, n, k, o + 1} {}
    void randomize(rng& g, long long m)
    {
        re.randomize(g, m);
        im.randomize(g, m);
    }
    auto guard() const -> bool { return re.guard() && im.guard(); }
    auto flat() const -> ints
    {
        auto const a = re.flat();
        auto const b = im.flat();
        auto out     = ints{};
        for (std::size_t i = 0; i < a.size(); i += 2) {
            out.push_back(a[i]);
            out.push_back(b[i]);
        }
        return out;
    }
    auto maxabs() const -> long long { return std::max(re.maxabs(), im.maxabs()); }
    void rescale(int k)
    {
        re.rescale(k);
        im.rescale(k);
    }
    void unit(int k) { re.e = im.e = k; }
    template<typename Lay>
    auto view()
    {
        return neo::split_complex{re.template vec<Lay>(), im.template vec<Lay>()};
    }
    template<typename Lay>
    auto cview()
    {
        return neo::split_complex{re.template cvec<Lay>(), im.template cvec<Lay>()};
    }
};

template<typename Objs>
auto all_flat(Objs const& objs) -> std::vector<ints>
{
    auto out = std::vector<ints>{};
    for (auto const& o : objs) { out.push_back(o.flat()); }
    return out;
}
template<typename Objs>
auto all_guard(Objs const& objs) -> bool
{
    return std::all_of(objs.begin(), objs.end(), [](auto const& o) { return o.guard(); });
}

}  // namespace vh

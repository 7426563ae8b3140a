// Minimal, bounds-checked stand-in for the kokkos/mdspan reference implementation
// (which is not installed in this sandbox).  Implements the subset of C++23 mdspan /
// C++26 submdspan that neo-sonar/neo uses, following the standard's wording.  Every
// multidimensional access is range checked; a violation calls neo_shim::out_of_range().
#pragma once
#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <complex>
#include <concepts>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <limits>
#include <memory>
#include <numeric>
#include <ranges>
#include <span>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

namespace neo_shim {
using oob_handler                = void (*)(char const*);
inline oob_handler g_oob_handler = nullptr;
[[noreturn]] inline void out_of_range(char const* what)
{
    if (g_oob_handler != nullptr) { g_oob_handler(what); }
    std::fflush(stdout);
    std::fprintf(stderr, "NEO-SHIM-OOB: %s\n", what);
    std::fflush(stderr);
    std::_Exit(97);
}
}  // namespace neo_shim

namespace Kokkos {

inline constexpr std::size_t dynamic_extent = std::numeric_limits<std::size_t>::max();

template<class IndexType, std::size_t... Exts>
struct extents
{
    using index_type = IndexType;
    using size_type  = std::make_unsigned_t<IndexType>;
    using rank_type  = std::size_t;

    [[nodiscard]] static constexpr auto rank() noexcept -> rank_type { return sizeof...(Exts); }
    [[nodiscard]] static constexpr auto rank_dynamic() noexcept -> rank_type
    {
        return (std::size_t(0) + ... + std::size_t(Exts == dynamic_extent ? 1 : 0));
    }
    [[nodiscard]] static constexpr auto static_extent(rank_type r) noexcept -> std::size_t { return sexts()[r]; }

    constexpr extents() noexcept
    {
        for (std::size_t i = 0; i < rank(); ++i) {
            _e[i] = sexts()[i] == dynamic_extent ? IndexType(0) : static_cast<IndexType>(sexts()[i]);
        }
    }

    template<class... Ints>
        requires((std::is_convertible_v<Ints, IndexType> && ...)
                 && (sizeof...(Ints) == sizeof...(Exts) || sizeof...(Ints) == rank_dynamic()) && sizeof...(Ints) > 0)
    constexpr explicit extents(Ints... ints) noexcept : extents()
    {
        std::array<IndexType, sizeof...(Ints)> a{static_cast<IndexType>(ints)...};
        assign(a);
    }

    template<class O, std::size_t N>
        requires(std::is_convertible_v<O const&, IndexType> && (N == sizeof...(Exts) || N == rank_dynamic()))
    constexpr extents(std::array<O, N> const& a) noexcept : extents()
    {
        assign(a);
    }

    template<class O, std::size_t... OE>
        requires(sizeof...(OE) == sizeof...(Exts))
    constexpr extents(extents<O, OE...> const& other) noexcept : extents()
    {
        for (std::size_t i = 0; i < rank(); ++i) { _e[i] = static_cast<IndexType>(other.extent(i)); }
    }

    [[nodiscard]] constexpr auto extent(rank_type r) const noexcept -> IndexType { return _e[r]; }

    template<class O, std::size_t... OE>
    friend constexpr auto operator==(extents const& l, extents<O, OE...> const& r) noexcept -> bool
    {
        if constexpr (sizeof...(OE) != sizeof...(Exts)) {
            return false;
        } else {
            for (std::size_t i = 0; i < rank(); ++i) {
                if (static_cast<std::size_t>(l.extent(i)) != static_cast<std::size_t>(r.extent(i))) { return false; }
            }
            return true;
        }
    }

private:
    static constexpr auto sexts() noexcept
    {
        return std::array<std::size_t, (sizeof...(Exts) == 0 ? 1 : sizeof...(Exts))>{Exts...};
    }
    template<class A>
    constexpr void assign(A const& a) noexcept
    {
        if (a.size() == rank()) {
            for (std::size_t i = 0; i < rank(); ++i) { _e[i] = static_cast<IndexType>(a[i]); }
        } else {
            std::size_t j = 0;
            for (std::size_t i = 0; i < rank(); ++i) {
                if (sexts()[i] == dynamic_extent) { _e[i] = static_cast<IndexType>(a[j++]); }
            }
        }
    }
    std::array<IndexType, (sizeof...(Exts) == 0 ? 1 : sizeof...(Exts))> _e{};
};

template<class... Ints>
    requires((std::is_convertible_v<Ints, std::size_t> && ...))
explicit extents(Ints...) -> extents<std::size_t, (sizeof(Ints) ? dynamic_extent : dynamic_extent)...>;

namespace detail {
template<class I, class Seq>
struct make_dextents;
template<class I, std::size_t... S>
struct make_dextents<I, std::index_sequence<S...>>
{
    using type = extents<I, ((void)S, dynamic_extent)...>;
};
}  // namespace detail

template<class I, std::size_t R>
using dextents = typename detail::make_dextents<I, std::make_index_sequence<R>>::type;

struct full_extent_t
{
    explicit full_extent_t() = default;
};
inline constexpr full_extent_t full_extent{};

template<class Offset, class Extent, class Stride>
struct strided_slice
{
    using offset_type = Offset;
    using extent_type = Extent;
    using stride_type = Stride;
    [[no_unique_address]] Offset offset{};
    [[no_unique_address]] Extent extent{};
    [[no_unique_address]] Stride stride{};
};
template<class O, class E, class S>
strided_slice(O, E, S) -> strided_slice<O, E, S>;

namespace detail {
template<class Layout, class Extents, bool Left>
struct packed_mapping
{
    using extents_type = Extents;
    using index_type   = typename Extents::index_type;
    using size_type    = typename Extents::size_type;
    using rank_type    = typename Extents::rank_type;
    using layout_type  = Layout;

    constexpr packed_mapping() noexcept = default;
    constexpr packed_mapping(Extents const& e) noexcept : _ext(e) {}
    template<class L, class OE, bool B>
        requires(Extents::rank() <= 1 || B == Left)
    constexpr packed_mapping(packed_mapping<L, OE, B> const& o) noexcept : _ext(o.extents())
    {}

    [[nodiscard]] constexpr auto extents() const noexcept -> Extents const& { return _ext; }
    [[nodiscard]] static constexpr auto is_always_unique() noexcept -> bool { return true; }
    [[nodiscard]] static constexpr auto is_always_exhaustive() noexcept -> bool { return true; }
    [[nodiscard]] static constexpr auto is_always_strided() noexcept -> bool { return true; }
    [[nodiscard]] static constexpr auto is_unique() noexcept -> bool { return true; }
    [[nodiscard]] static constexpr auto is_exhaustive() noexcept -> bool { return true; }
    [[nodiscard]] static constexpr auto is_strided() noexcept -> bool { return true; }
    [[nodiscard]] constexpr auto stride(rank_type r) const noexcept -> index_type
    {
        index_type s = 1;
        if constexpr (Left) {
            for (rank_type i = 0; i < r; ++i) { s = static_cast<index_type>(s * _ext.extent(i)); }
        } else {
            for (rank_type i = r + 1; i < Extents::rank(); ++i) { s = static_cast<index_type>(s * _ext.extent(i)); }
        }
        return s;
    }
    [[nodiscard]] constexpr auto required_span_size() const noexcept -> index_type
    {
        index_type s = 1;
        for (rank_type i = 0; i < Extents::rank(); ++i) { s = static_cast<index_type>(s * _ext.extent(i)); }
        return s;
    }
    template<class... I>
    [[nodiscard]] constexpr auto operator()(I... idx) const noexcept -> index_type
    {
        std::array<index_type, sizeof...(I) == 0 ? 1 : sizeof...(I)> a{static_cast<index_type>(idx)...};
        index_type off = 0;
        for (rank_type i = 0; i < Extents::rank(); ++i) { off = static_cast<index_type>(off + a[i] * stride(i)); }
        return off;
    }

    template<class L, class OE>
    friend constexpr auto operator==(packed_mapping const& l, packed_mapping<L, OE, Left> const& r) noexcept -> bool
    {
        return l.extents() == r.extents();
    }

private:
    Extents _ext{};
};
}  // namespace detail

struct layout_left
{
    template<class Extents>
    struct mapping : detail::packed_mapping<layout_left, Extents, true>
    {
        using base = detail::packed_mapping<layout_left, Extents, true>;
        using base::base;
        constexpr mapping() noexcept = default;
    };
};
struct layout_right
{
    template<class Extents>
    struct mapping : detail::packed_mapping<layout_right, Extents, false>
    {
        using base = detail::packed_mapping<layout_right, Extents, false>;
        using base::base;
        constexpr mapping() noexcept = default;
    };
};
struct layout_stride
{
    template<class Extents>
    struct mapping
    {
        using extents_type = Extents;
        using index_type   = typename Extents::index_type;
        using size_type    = typename Extents::size_type;
        using rank_type    = typename Extents::rank_type;
        using layout_type  = layout_stride;
        static constexpr std::size_t R = Extents::rank() == 0 ? 1 : Extents::rank();

        constexpr mapping() noexcept = default;
        template<class O>
        constexpr mapping(Extents const& e, std::array<O, Extents::rank()> const& s) noexcept : _ext(e)
        {
            for (std::size_t i = 0; i < Extents::rank(); ++i) { _s[i] = static_cast<index_type>(s[i]); }
        }
        template<class M>
            requires(requires { typename M::layout_type; } && !std::is_same_v<M, mapping>)
        constexpr mapping(M const& o) noexcept : _ext(o.extents())
        {
            for (std::size_t i = 0; i < Extents::rank(); ++i) { _s[i] = static_cast<index_type>(o.stride(i)); }
        }
        [[nodiscard]] constexpr auto extents() const noexcept -> Extents const& { return _ext; }
        [[nodiscard]] static constexpr auto is_always_unique() noexcept -> bool { return true; }
        [[nodiscard]] static constexpr auto is_always_exhaustive() noexcept -> bool { return false; }
        [[nodiscard]] static constexpr auto is_always_strided() noexcept -> bool { return true; }
        [[nodiscard]] static constexpr auto is_unique() noexcept -> bool { return true; }
        [[nodiscard]] static constexpr auto is_strided() noexcept -> bool { return true; }
        [[nodiscard]] constexpr auto stride(rank_type r) const noexcept -> index_type { return _s[r]; }
        [[nodiscard]] constexpr auto strides() const noexcept -> std::array<index_type, Extents::rank()>
        {
            auto out = std::array<index_type, Extents::rank()>{};
            for (std::size_t i = 0; i < Extents::rank(); ++i) { out[i] = _s[i]; }
            return out;
        }
        [[nodiscard]] constexpr auto is_exhaustive() const noexcept -> bool
        {
            index_type n = 1;
            for (std::size_t i = 0; i < Extents::rank(); ++i) { n = static_cast<index_type>(n * _ext.extent(i)); }
            return required_span_size() == n;
        }
        template<class M>
            requires(requires(M const& m) { m.extents(); m.stride(0); m.required_span_size(); } && M::extents_type::rank() == Extents::rank())
        friend constexpr auto operator==(mapping const& l, M const& r) noexcept -> bool
        {
            if (!(l.extents() == r.extents())) { return false; }
            for (std::size_t i = 0; i < Extents::rank(); ++i) {
                if (static_cast<std::size_t>(l.stride(i)) != static_cast<std::size_t>(r.stride(i))) { return false; }
            }
            return true;
        }
        [[nodiscard]] constexpr auto required_span_size() const noexcept -> index_type
        {
            index_type n = 1;
            for (std::size_t i = 0; i < Extents::rank(); ++i) {
                if (_ext.extent(i) == 0) { return 0; }
                n = static_cast<index_type>(n + (_ext.extent(i) - 1) * _s[i]);
            }
            return n;
        }
        template<class... I>
        [[nodiscard]] constexpr auto operator()(I... idx) const noexcept -> index_type
        {
            std::array<index_type, sizeof...(I) == 0 ? 1 : sizeof...(I)> a{static_cast<index_type>(idx)...};
            index_type off = 0;
            for (rank_type i = 0; i < Extents::rank(); ++i) { off = static_cast<index_type>(off + a[i] * _s[i]); }
            return off;
        }

    private:
        Extents _ext{};
        std::array<index_type, R> _s{};
    };
};

template<class T>
struct default_accessor
{
    using offset_policy    = default_accessor;
    using element_type     = T;
    using reference        = T&;
    using data_handle_type = T*;
    constexpr default_accessor() noexcept = default;
    template<class O>
        requires(std::is_convertible_v<O (*)[], T (*)[]>)
    constexpr default_accessor(default_accessor<O>) noexcept
    {}
    [[nodiscard]] constexpr auto access(T* p, std::size_t i) const noexcept -> T& { return p[i]; }
    [[nodiscard]] constexpr auto offset(T* p, std::size_t i) const noexcept -> T* { return p + i; }
};

namespace detail {
template<class Extents, class... Ints>
constexpr auto mk(Ints... ints)
{
    if constexpr (sizeof...(Ints) == 0) {
        return Extents{};
    } else {
        return Extents(static_cast<typename Extents::index_type>(ints)...);
    }
}
}  // namespace detail

template<class T, class Extents, class Layout = layout_right, class Accessor = default_accessor<T>>
struct mdspan
{
    using extents_type     = Extents;
    using layout_type      = Layout;
    using accessor_type    = Accessor;
    using mapping_type     = typename Layout::template mapping<Extents>;
    using element_type     = T;
    using value_type       = std::remove_cv_t<T>;
    using index_type       = typename Extents::index_type;
    using size_type        = typename Extents::size_type;
    using rank_type        = typename Extents::rank_type;
    using data_handle_type = typename Accessor::data_handle_type;
    using reference        = typename Accessor::reference;

    [[nodiscard]] static constexpr auto rank() noexcept -> rank_type { return Extents::rank(); }
    [[nodiscard]] static constexpr auto rank_dynamic() noexcept -> rank_type { return Extents::rank_dynamic(); }
    [[nodiscard]] static constexpr auto static_extent(rank_type r) noexcept -> std::size_t
    {
        return Extents::static_extent(r);
    }
    [[nodiscard]] constexpr auto extent(rank_type r) const noexcept -> index_type { return _map.extents().extent(r); }

    constexpr mdspan() = default;

    template<class... Ints>
        requires((std::is_convertible_v<Ints, index_type> && ...)
                 && (sizeof...(Ints) == Extents::rank() || sizeof...(Ints) == Extents::rank_dynamic())
                 && std::is_constructible_v<mapping_type, Extents>)
    constexpr explicit mdspan(data_handle_type p, Ints... ints)
        : _ptr(std::move(p)), _map(detail::mk<Extents>(ints...))
    {}
    constexpr mdspan(data_handle_type p, Extents const& e)
        requires(std::is_constructible_v<mapping_type, Extents const&>)
        : _ptr(std::move(p)), _map(e)
    {}
    constexpr mdspan(data_handle_type p, mapping_type const& m) : _ptr(std::move(p)), _map(m) {}
    constexpr mdspan(data_handle_type p, mapping_type const& m, Accessor const& a)
        : _ptr(std::move(p)), _map(m), _acc(a)
    {}

    template<class OT, class OE, class OL, class OA>
        requires(std::is_constructible_v<mapping_type, typename OL::template mapping<OE> const&>
                 && std::is_constructible_v<Accessor, OA const&>)
    constexpr mdspan(mdspan<OT, OE, OL, OA> const& o)
        : _ptr(o.data_handle()), _map(o.mapping()), _acc(o.accessor())
    {}

    template<class... I>
        requires((std::is_convertible_v<I, index_type> && ...) && sizeof...(I) == Extents::rank())
    [[nodiscard]] constexpr auto operator()(I... idx) const -> reference
    {
        std::array<index_type, sizeof...(I) == 0 ? 1 : sizeof...(I)> a{static_cast<index_type>(idx)...};
        for (std::size_t i = 0; i < sizeof...(I); ++i) {
            if constexpr (std::is_signed_v<index_type>) {
                if (a[i] < 0) { neo_shim::out_of_range("mdspan index negative"); }
            }
            if (a[i] >= extent(i)) { neo_shim::out_of_range("mdspan index >= extent"); }
        }
        return _acc.access(_ptr, static_cast<std::size_t>(_map(static_cast<index_type>(idx)...)));
    }
    template<class I>
        requires(std::is_convertible_v<I, index_type> && Extents::rank() == 1)
    [[nodiscard]] constexpr auto operator[](I idx) const -> reference
    {
        return (*this)(static_cast<index_type>(idx));
    }
    template<class O>
    [[nodiscard]] constexpr auto operator[](std::array<O, Extents::rank()> const& idx) const -> reference
    {
        return std::apply([this](auto... i) -> reference { return (*this)(static_cast<index_type>(i)...); }, idx);
    }

    template<class O>
    [[nodiscard]] constexpr auto operator[](std::span<O, Extents::rank()> idx) const -> reference
    {
        auto a = std::array<index_type, Extents::rank()>{};
        for (rank_type i = 0; i < rank(); ++i) { a[i] = static_cast<index_type>(idx[i]); }
        return (*this)[a];
    }

    [[nodiscard]] constexpr auto is_unique() const -> bool { return _map.is_unique(); }
    [[nodiscard]] constexpr auto is_exhaustive() const -> bool { return _map.is_exhaustive(); }
    [[nodiscard]] constexpr auto is_strided() const -> bool { return _map.is_strided(); }

    [[nodiscard]] constexpr auto size() const noexcept -> size_type
    {
        size_type s = 1;
        for (rank_type i = 0; i < rank(); ++i) { s = static_cast<size_type>(s * static_cast<size_type>(extent(i))); }
        return s;
    }
    [[nodiscard]] constexpr auto empty() const noexcept -> bool { return size() == 0; }
    [[nodiscard]] constexpr auto extents() const noexcept -> Extents const& { return _map.extents(); }
    [[nodiscard]] constexpr auto data_handle() const noexcept -> data_handle_type const& { return _ptr; }
    [[nodiscard]] constexpr auto mapping() const noexcept -> mapping_type const& { return _map; }
    [[nodiscard]] constexpr auto accessor() const noexcept -> Accessor const& { return _acc; }
    [[nodiscard]] static constexpr auto is_always_unique() noexcept -> bool { return mapping_type::is_always_unique(); }
    [[nodiscard]] static constexpr auto is_always_exhaustive() noexcept -> bool
    {
        return mapping_type::is_always_exhaustive();
    }
    [[nodiscard]] static constexpr auto is_always_strided() noexcept -> bool
    {
        return mapping_type::is_always_strided();
    }
    [[nodiscard]] constexpr auto stride(rank_type r) const -> index_type { return _map.stride(r); }

private:
    data_handle_type _ptr{};
    mapping_type _map{};
    [[no_unique_address]] Accessor _acc{};
};

template<class T, class... Ints>
    requires((std::is_convertible_v<Ints, std::size_t> && ...) && sizeof...(Ints) > 0)
explicit mdspan(T*, Ints...) -> mdspan<T, dextents<std::size_t, sizeof...(Ints)>>;
template<class T, class I, std::size_t... E>
mdspan(T*, extents<I, E...> const&) -> mdspan<T, extents<I, E...>>;
template<class T, class Mapping>
    requires(requires { typename Mapping::layout_type; })
mdspan(T*, Mapping const&) -> mdspan<T, typename Mapping::extents_type, typename Mapping::layout_type>;
template<class Mapping, class Acc>
mdspan(typename Acc::data_handle_type, Mapping const&, Acc const&)
    -> mdspan<typename Acc::element_type, typename Mapping::extents_type, typename Mapping::layout_type, Acc>;

namespace detail {
template<class S>
inline constexpr bool is_full = std::is_same_v<std::remove_cvref_t<S>, full_extent_t>;
template<class S>
inline constexpr bool is_index = std::is_convertible_v<std::remove_cvref_t<S>, std::size_t>;
template<class S>
inline constexpr bool is_range = !is_full<S> && !is_index<S>;
template<class S>
inline constexpr bool is_strided = false;
template<class O, class E, class S>
inline constexpr bool is_strided<strided_slice<O, E, S>> = true;

template<class Layout, class... Slices>
constexpr auto sub_layout_kind() -> int  // 0 = stride, 1 = same layout
{
    constexpr std::size_t n                 = sizeof...(Slices);
    constexpr std::array<bool, n> full      = {is_full<Slices>...};
    constexpr std::array<bool, n> idx       = {is_index<Slices>...};
    constexpr std::size_t sub               = (std::size_t(0) + ... + std::size_t(is_index<Slices> ? 0 : 1));
    if (sub == 0) { return 1; }
    if ((is_strided<std::remove_cvref_t<Slices>> || ...)) { return 0; }
    if constexpr (std::is_same_v<Layout, layout_right>) {
        // last sub-1 slices full; slice n-sub is full or a range
        for (std::size_t i = n - sub + 1; i < n; ++i) {
            if (!full[i]) { return 0; }
        }
        return idx[n - sub] ? 0 : 1;
    } else if constexpr (std::is_same_v<Layout, layout_left>) {
        for (std::size_t i = 0; i + 1 < sub; ++i) {
            if (!full[i]) { return 0; }
        }
        return idx[sub - 1] ? 0 : 1;
    } else {
        return 0;
    }
}
}  // namespace detail

template<class T, class E, class L, class A, class... Slices>
    requires(sizeof...(Slices) == E::rank())
[[nodiscard]] constexpr auto submdspan(mdspan<T, E, L, A> const& src, Slices... slices)
{
    using I                   = typename E::index_type;
    constexpr std::size_t n   = sizeof...(Slices);
    constexpr std::size_t sub = (std::size_t(0) + ... + std::size_t(detail::is_index<Slices> ? 0 : 1));
    using SubE                = dextents<I, sub>;

    std::array<I, n> first{};
    std::array<I, (sub == 0 ? 1 : sub)> exts{};
    std::array<I, sub> strs{};
    std::size_t r = 0;
    std::size_t d = 0;
    bool empty    = false;
    auto one      = [&](auto const& s) {
        using S = std::remove_cvref_t<decltype(s)>;
        I ext   = src.extent(r);
        if constexpr (detail::is_full<S>) {
            first[r] = 0;
            exts[d]  = ext;
            if constexpr (sub > 0) { strs[d] = src.stride(r); }
            ++d;
        } else if constexpr (detail::is_index<S>) {
            if constexpr (std::is_integral_v<S> && std::is_signed_v<S>) {
                if (s < 0) { neo_shim::out_of_range("submdspan index negative"); }
            }
            if (static_cast<std::size_t>(s) >= static_cast<std::size_t>(ext)) {
                neo_shim::out_of_range("submdspan index >= extent");
            }
            first[r] = static_cast<I>(s);
        } else if constexpr (detail::is_strided<S>) {
            auto const o  = static_cast<std::size_t>(s.offset);
            auto const n2 = static_cast<std::size_t>(s.extent);
            auto const st = static_cast<std::size_t>(s.stride);
            if (o + n2 > static_cast<std::size_t>(ext) || (n2 > 0 && st == 0)) { neo_shim::out_of_range("submdspan strided slice"); }
            first[r] = static_cast<I>(o);
            exts[d]  = static_cast<I>(n2 == 0 ? 0 : 1 + (n2 - 1) / st);
            if constexpr (sub > 0) { strs[d] = static_cast<I>(src.stride(r) * static_cast<I>(st < n2 ? st : 1)); }
            if (o == static_cast<std::size_t>(ext)) { empty = true; }
            ++d;
        } else {
            auto const [b, e] = s;
            auto const bb     = static_cast<std::size_t>(b);
            auto const ee     = static_cast<std::size_t>(e);
            if (bb > ee || ee > static_cast<std::size_t>(ext)) { neo_shim::out_of_range("submdspan range"); }
            first[r] = static_cast<I>(bb);
            exts[d]  = static_cast<I>(ee - bb);
            if constexpr (sub > 0) { strs[d] = src.stride(r); }
            if (bb == static_cast<std::size_t>(ext)) { empty = true; }
            ++d;
        }
        ++r;
    };
    (one(slices), ...);

    auto const off = [&] {
        if (empty) { return src.mapping().required_span_size(); }
        return std::apply([&](auto... i) { return src.mapping()(i...); }, first);
    }();
    auto const sub_ext = [&] {
        if constexpr (sub == 0) {
            return SubE{};
        } else {
            return SubE(exts);
        }
    }();
    using NA     = typename A::offset_policy;
    auto const p = src.accessor().offset(src.data_handle(), static_cast<std::size_t>(off));
    constexpr auto kind = detail::sub_layout_kind<L, Slices...>();
    if constexpr (kind == 1) {
        using M = typename L::template mapping<SubE>;
        return mdspan<T, SubE, L, NA>(p, M(sub_ext), NA(src.accessor()));
    } else {
        using M = layout_stride::mapping<SubE>;
        return mdspan<T, SubE, layout_stride, NA>(p, M(sub_ext, strs), NA(src.accessor()));
    }
}

}  // namespace Kokkos

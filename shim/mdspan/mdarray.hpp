// Minimal stand-in for Kokkos::Experimental::mdarray (see mdspan.hpp).
#pragma once
#include "mdspan.hpp"
#include <vector>

namespace Kokkos::Experimental {

template<class T, class Extents, class Layout = layout_right, class Container = std::vector<T>>
struct mdarray
{
    using extents_type      = Extents;
    using layout_type       = Layout;
    using container_type    = Container;
    using mapping_type      = typename Layout::template mapping<Extents>;
    using element_type      = T;
    using value_type        = std::remove_cv_t<T>;
    using index_type        = typename Extents::index_type;
    using size_type         = typename Extents::size_type;
    using rank_type         = typename Extents::rank_type;
    using reference         = typename Container::reference;
    using const_reference   = typename Container::const_reference;
    using pointer           = T*;
    using const_pointer     = T const*;
    using mdspan_type       = mdspan<T, Extents, Layout>;
    using const_mdspan_type = mdspan<T const, Extents, Layout>;

    static constexpr auto rank() noexcept -> rank_type { return Extents::rank(); }

    constexpr mdarray() : _map(Extents{}), _c(static_cast<std::size_t>(_map.required_span_size())) {}
    template<class... Ints>
        requires((std::is_convertible_v<Ints, index_type> && ...)
                 && (sizeof...(Ints) == Extents::rank() || sizeof...(Ints) == Extents::rank_dynamic())
                 && sizeof...(Ints) > 0)
    constexpr explicit mdarray(Ints... ints)
        : _map(Extents(static_cast<index_type>(ints)...)), _c(static_cast<std::size_t>(_map.required_span_size()))
    {}
    constexpr explicit mdarray(Extents const& e)
        : _map(e), _c(static_cast<std::size_t>(_map.required_span_size()))
    {}
    constexpr explicit mdarray(mapping_type const& m)
        : _map(m), _c(static_cast<std::size_t>(_map.required_span_size()))
    {}
    constexpr mdarray(Extents const& e, value_type const& v)
        : _map(e), _c(static_cast<std::size_t>(_map.required_span_size()), v)
    {}
    constexpr mdarray(mapping_type const& m, value_type const& v)
        : _map(m), _c(static_cast<std::size_t>(_map.required_span_size()), v)
    {}
    constexpr mdarray(Extents const& e, Container c) : _map(e), _c(std::move(c)) { enough(); }
    constexpr mdarray(mapping_type const& m, Container c) : _map(m), _c(std::move(c)) { enough(); }

    template<class... I>
        requires((std::is_convertible_v<I, index_type> && ...) && sizeof...(I) == Extents::rank())
    [[nodiscard]] constexpr auto operator()(I... idx) -> reference
    {
        check(idx...);
        return _c[static_cast<std::size_t>(_map(static_cast<index_type>(idx)...))];
    }
    template<class... I>
        requires((std::is_convertible_v<I, index_type> && ...) && sizeof...(I) == Extents::rank())
    [[nodiscard]] constexpr auto operator()(I... idx) const -> const_reference
    {
        check(idx...);
        return _c[static_cast<std::size_t>(_map(static_cast<index_type>(idx)...))];
    }
    template<class I>
        requires(std::is_convertible_v<I, index_type> && Extents::rank() == 1)
    [[nodiscard]] constexpr auto operator[](I i) -> reference
    {
        return (*this)(i);
    }
    template<class I>
        requires(std::is_convertible_v<I, index_type> && Extents::rank() == 1)
    [[nodiscard]] constexpr auto operator[](I i) const -> const_reference
    {
        return (*this)(i);
    }

    template<class O>
    [[nodiscard]] constexpr auto operator[](std::array<O, Extents::rank()> const& idx) -> reference
    {
        return std::apply([this](auto... i) -> reference { return (*this)(i...); }, idx);
    }
    template<class O>
    [[nodiscard]] constexpr auto operator[](std::array<O, Extents::rank()> const& idx) const -> const_reference
    {
        return std::apply([this](auto... i) -> const_reference { return (*this)(i...); }, idx);
    }

    static constexpr auto rank_dynamic() noexcept -> rank_type { return Extents::rank_dynamic(); }
    static constexpr auto static_extent(rank_type r) noexcept -> std::size_t { return Extents::static_extent(r); }
    [[nodiscard]] constexpr auto extract_container() && -> Container&& { return std::move(_c); }
    [[nodiscard]] constexpr auto extent(rank_type r) const noexcept -> index_type { return _map.extents().extent(r); }
    [[nodiscard]] constexpr auto extents() const noexcept -> Extents const& { return _map.extents(); }
    [[nodiscard]] constexpr auto mapping() const noexcept -> mapping_type const& { return _map; }
    [[nodiscard]] constexpr auto stride(rank_type r) const -> index_type { return _map.stride(r); }
    [[nodiscard]] constexpr auto size() const noexcept -> size_type { return to_mdspan().size(); }
    [[nodiscard]] constexpr auto empty() const noexcept -> bool { return size() == 0; }
    [[nodiscard]] constexpr auto data() noexcept -> pointer { return _c.data(); }
    [[nodiscard]] constexpr auto data() const noexcept -> const_pointer { return _c.data(); }
    [[nodiscard]] constexpr auto container_size() const noexcept -> std::size_t { return _c.size(); }
    [[nodiscard]] constexpr auto container() const noexcept -> Container const& { return _c; }

    [[nodiscard]] constexpr auto to_mdspan() -> mdspan_type { return mdspan_type(_c.data(), _map); }
    [[nodiscard]] constexpr auto to_mdspan() const -> const_mdspan_type
    {
        return const_mdspan_type(_c.data(), typename const_mdspan_type::mapping_type(_map.extents()));
    }
    constexpr operator mdspan_type() { return to_mdspan(); }
    constexpr operator const_mdspan_type() const { return to_mdspan(); }

private:
    constexpr void enough() const
    {
        if (_c.size() < static_cast<std::size_t>(_map.required_span_size())) { neo_shim::out_of_range("mdarray container too small"); }
    }
    template<class... I>
    constexpr void check(I... idx) const
    {
        std::array<index_type, sizeof...(I)> a{static_cast<index_type>(idx)...};
        for (std::size_t i = 0; i < sizeof...(I); ++i) {
            if (a[i] >= extent(i)) { neo_shim::out_of_range("mdarray index >= extent"); }
        }
    }
    mapping_type _map{};
    Container _c{};
};

}  // namespace Kokkos::Experimental

#pragma once
#include "common.hpp"

#include <neo/fixed_point.hpp>

namespace vh {

/// interesting words of a w-bit format
inline auto boundary(int w) -> ints
{
    auto const mn = -(1LL << (w - 1));
    auto const mx = (1LL << (w - 1)) - 1;
    auto out      = ints{mn, mn + 1, mn + 2, mx, mx - 1, mx - 2, 0, 1, -1, 2, -2, 3, -3};
    for (int k = 2; k < w - 1; ++k) {
        for (long long d : {-1LL, 0LL, 1LL}) {
            out.push_back((1LL << k) + d);
            out.push_back(-(1LL << k) + d);
        }
    }
    std::sort(out.begin(), out.end());
    out.erase(std::unique(out.begin(), out.end()), out.end());
    return out;
}

/// calls f(fixed_point<Int, F>{}) for F = Lo..Hi
template<typename Int, int F, int Hi, typename Fn>
void for_formats(Fn fn)
{
    fn.template operator()<neo::fixed_point<Int, F>>();
    if constexpr (F < Hi) { for_formats<Int, F + 1, Hi>(fn); }
}

template<typename Fx>
inline constexpr int width_v = static_cast<int>(sizeof(typename Fx::storage_type) * 8);

template<typename Fx>
auto mk(long long x) -> Fx
{
    return Fx{neo::underlying_value, static_cast<typename Fx::storage_type>(x)};
}

}  // namespace vh

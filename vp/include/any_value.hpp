#pragma once
#include "vp.hpp"
// an element type that is not a scalar
struct two_part {
    std::uint16_t a{};
    std::uint8_t b{};
    friend bool operator==(two_part const &, two_part const &) = default;
};
namespace vp {
template <typename T> auto any() -> T {
    if constexpr (std::is_same_v<T, two_part>) {
        return {nd<std::uint16_t>(), nd<std::uint8_t>()};
    } else {
        return nd<T>();
    }
}
} // namespace vp

// saturate_cast between every pair of integer types against 128-bit clamping.
// VP-CONFIG a: -std=c++20
// VP-CONFIG std23: -std=c++23
#include "vp.hpp"
#include <stdx/numeric.hpp>
#include <limits>
using namespace vp;

namespace {
__extension__ typedef __int128 wide;
template <typename To, typename From> void cast() {
    auto const x = nd<From>();
    constexpr wide lo = std::numeric_limits<To>::min();
    constexpr wide hi = std::numeric_limits<To>::max();
    wide const w = x;
    wide const expected = w < lo ? lo : w > hi ? hi : w;
    auto const r = stdx::saturate_cast<To>(x);
    CHECK(std::is_same_v<decltype(r), To const>);
    CHECK(wide{r} == expected);
}
} // namespace
#define TO(N, T)                                                               \
    VP_HARNESS(to_##N##_from_u8, 1, q) { cast<T, std::uint8_t>(); }            \
    VP_HARNESS(to_##N##_from_i8, 1, q) { cast<T, std::int8_t>(); }             \
    VP_HARNESS(to_##N##_from_u16, 1, q) { cast<T, std::uint16_t>(); }          \
    VP_HARNESS(to_##N##_from_i16, 1, q) { cast<T, std::int16_t>(); }           \
    VP_HARNESS(to_##N##_from_u32, 1, q) { cast<T, std::uint32_t>(); }          \
    VP_HARNESS(to_##N##_from_i32, 1, q) { cast<T, std::int32_t>(); }           \
    VP_HARNESS(to_##N##_from_u64, 1, q) { cast<T, std::uint64_t>(); }          \
    VP_HARNESS(to_##N##_from_i64, 1, q) { cast<T, std::int64_t>(); }
TO(u8, std::uint8_t)
TO(i8, std::int8_t)
TO(u16, std::uint16_t)
TO(i16, std::int16_t)
TO(u32, std::uint32_t)
TO(i32, std::int32_t)
TO(u64, std::uint64_t)
TO(i64, std::int64_t)

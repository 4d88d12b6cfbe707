#pragma once
// Harness interface.  A harness is a function VP_HARNESS(name, unwind, tier);
// its inputs come from nd<T>(), its obligations are CHECK(...).
#include <array>
#include <cstddef>
#include <cstdint>
#include <type_traits>
#include <utility>

extern "C" {
std::uint8_t vp_u8() noexcept;
std::uint16_t vp_u16() noexcept;
std::uint32_t vp_u32() noexcept;
std::uint64_t vp_u64() noexcept;
bool vp_bool() noexcept;
void vp_assume(bool) noexcept;
void vp_check(bool, char const *) noexcept;
void vp_cover(bool, char const *) noexcept;
void vp_observe(std::uint64_t) noexcept;
}

#define VP_STR2(x) #x
#define VP_STR(x) VP_STR2(x)
#define VP_FILE __FILE_NAME__

#define CHECK(...)                                                             \
    do {                                                                       \
        [[clang::nomerge]] vp_check(                                           \
            static_cast<bool>(__VA_ARGS__),                                    \
            VP_FILE ":" VP_STR(__LINE__) " " #__VA_ARGS__);                    \
    } while (false)
#define COVER(...)                                                             \
    do {                                                                       \
        [[clang::nomerge]] vp_cover(static_cast<bool>(__VA_ARGS__),            \
                                    VP_FILE ":" VP_STR(__LINE__));             \
    } while (false)
#define ASSUME(...) vp_assume(static_cast<bool>(__VA_ARGS__))

// q: run in both tiers, t: thorough tier only
#define VP_HARNESS(NAME, UNWIND, TIER)                                         \
    extern "C" void h_##NAME##__u##UNWIND##__##TIER()

namespace vp {
template <typename T> [[nodiscard]] inline auto nd() -> T {
    if constexpr (std::is_same_v<T, bool>) {
        return vp_bool();
    } else if constexpr (std::is_enum_v<T>) {
        return static_cast<T>(nd<std::underlying_type_t<T>>());
    } else if constexpr (std::is_same_v<T, float>) {
        return __builtin_bit_cast(float, vp_u32());
    } else if constexpr (std::is_same_v<T, double>) {
        return __builtin_bit_cast(double, vp_u64());
    } else if constexpr (sizeof(T) == 1) {
        return static_cast<T>(vp_u8());
    } else if constexpr (sizeof(T) == 2) {
        return static_cast<T>(vp_u16());
    } else if constexpr (sizeof(T) == 4) {
        return static_cast<T>(vp_u32());
    } else {
        return static_cast<T>(vp_u64());
    }
}

// value in [0, n)
template <typename T = std::size_t>
[[nodiscard]] inline auto below(T n) -> T {
    auto x = nd<T>();
    vp_assume(x < n);
    return x;
}
// value in [0, n)  from a byte
[[nodiscard]] inline auto small(unsigned n) -> unsigned {
    unsigned x = vp_u8();
    vp_assume(x < n);
    return x;
}

// f(integral_constant<0>) ... f(integral_constant<N-1>), expanded at compile time
template <std::size_t N, typename F>
[[gnu::always_inline]] inline void unroll(F &&f) {
    [&]<std::size_t... Is>(std::index_sequence<Is...>) {
        (f(std::integral_constant<std::size_t, Is>{}), ...);
    }(std::make_index_sequence<N>{});
}

// where something is; also takes temporaries, so that a copy returned in place of a
// reference compares unequal
template <typename T>
[[nodiscard, gnu::always_inline]] inline auto adr(T &&t) -> void const * {
    return __builtin_addressof(t);
}

template <typename T, std::size_t N>
[[nodiscard]] inline auto nd_array() -> std::array<T, N> {
    std::array<T, N> a{};
    unroll<N>([&](auto i) { a[i] = nd<T>(); });
    return a;
}
} // namespace vp
using vp::adr;
using vp::nd;

// Masks, destructuring, queries and rotations.
// VP-CONFIG std20: -std=c++20 -Dconsteval=constexpr
// VP-CONFIG std23: -std=c++23
// VP-CONFIG own: -std=c++20 -DFALLBACK=1 -Dconsteval=constexpr
// VP-CONFIG own2: -std=c++20 -DFALLBACK=2 -Dconsteval=constexpr
#include "bit_under_test.hpp"
using namespace vp;

namespace {
template <typename T> constexpr std::size_t digits = 8 * sizeof(T);
template <typename T> void masks() {
    std::size_t const m = small(digits<T>);
    std::size_t const l = small(digits<T>);
    ASSUME(l <= m);
    T const r = stdx::bit_mask<T>(m, l);
    unroll<digits<T>>([&](auto i) { CHECK(((r >> i) & 1u) == (l <= i and i <= m)); });
    T const z = stdx::bit_mask<T>(m);
    unroll<digits<T>>([&](auto i) { CHECK(((z >> i) & 1u) == (i <= m)); });
    COVER(m == digits<T> - 1 and l == 0);
    COVER(m == l);
}
template <typename T, std::size_t N> void array_masks() {
    constexpr auto d = digits<T>;
    std::size_t const m = small(N * d);
    std::size_t const l = small(N * d);
    ASSUME(l <= m);
    auto const r = stdx::bit_mask<std::array<T, N>>(m, l);
    CHECK(std::is_same_v<decltype(r), std::array<T, N> const>);
    unroll<N * d>([&](auto i) { CHECK(((r[i / d] >> (i % d)) & 1u) == (l <= i and i <= m)); });
}
template <typename T> void fixed_masks() {
    constexpr auto d = digits<T>;
    auto const i = small(d); // one arbitrary position decides
    auto at = [&](T x) { return ((x >> i) & 1u) != 0; };
    CHECK(at(stdx::bit_mask<T>()));
    unroll<d>([&](auto m) {
        CHECK(at(stdx::bit_mask<T, m>()) == (i <= m));
        CHECK(at(stdx::bit_mask<T, m, m>()) == (i == m));
        CHECK(at(stdx::bit_mask<T, d - 1, m>()) == (i >= m));
        CHECK(at(stdx::bit_mask<T, m, m / 2>()) == (i <= m and i >= m / 2));
    });
}
template <typename T, std::size_t... Os> void split() {
    auto const v = nd<T>();
    auto const r = stdx::bit_destructure<Os...>(v);
    CHECK(std::is_same_v<decltype(r), std::array<T, sizeof...(Os) + 1> const>);
    constexpr std::array<std::size_t, sizeof...(Os) + 2> o{0, Os..., digits<T>};
    T whole{};
    unroll<sizeof...(Os) + 1>([&](auto k) {
        constexpr auto w = o[k + 1] - o[k];
        CHECK((static_cast<u64>(r[k]) >> (w - 1)) <= 1);
        unroll<w>([&](auto i) { CHECK(((r[k] >> i) & 1u) == ((v >> (i + o[k])) & 1u)); });
        whole = static_cast<T>(whole | static_cast<T>(static_cast<u64>(r[k]) << o[k]));
    });
    CHECK(whole == v);
}
template <typename T> void queries() {
    auto const v = nd<T>();
    constexpr int d = static_cast<int>(digits<T>);
    int lz{d}, tz{d}, lo{d}, to{d}, w{};
    unroll<digits<T>>([&](auto i) {
        bool const b = ((v >> i) & 1u) != 0;
        int const p = static_cast<int>(std::size_t{i});
        if (b) { lz = d - 1 - p; w = p + 1; }
        if (not b) { lo = d - 1 - p; }
    });
    unroll<digits<T>>([&](auto k) {
        constexpr int p = d - 1 - static_cast<int>(std::size_t{k});
        bool const b = ((v >> p) & 1u) != 0;
        if (b) { tz = p; }
        if (not b) { to = p; }
    });
    CHECK(stdx::countl_zero(v) == lz);
    CHECK(stdx::countr_zero(v) == tz);
    CHECK(stdx::countl_one(v) == lo);
    CHECK(stdx::countr_one(v) == to);
    CHECK(static_cast<int>(stdx::bit_width(v)) == w);
    CHECK(stdx::has_single_bit(v) == (v != 0 and lz + tz == d - 1));
    // largest power of two not above, smallest not below
    T const f = stdx::bit_floor(v);
    CHECK(v == 0 ? f == 0 : f == (T{1} << (w - 1)));
    constexpr T top = static_cast<T>(T{1} << (d - 1));
    if (v <= top) {
        T const c = stdx::bit_ceil(v);
        CHECK(v <= 1 ? c == 1 : c == (lz + tz == d - 1 ? v : static_cast<T>(T{1} << (w % d))));
    }
    COVER(v == top);
    COVER(v > top);
}
template <typename T> void count() {
    auto const v = nd<T>();
    int n{};
    if constexpr (digits<T> <= 16) {
        unroll<digits<T>>([&](auto i) { n += (v >> i) & 1u; });
    } else {
        n = __builtin_popcountll(v);
    }
    CHECK(stdx::popcount(v) == n);
    // one more bit, one more in the count
    auto const i = small(digits<T>);
    T const with = static_cast<T>(v | (T{1} << i));
    T const without = static_cast<T>(v & ~(T{1} << i));
    if constexpr (digits<T> <= 16) {
        CHECK(stdx::popcount(with) == stdx::popcount(without) + 1);
    }
}
template <typename T> void rotations() {
    auto const v = nd<T>();
    constexpr int d = static_cast<int>(digits<T>);
    auto const s = nd<int>();
    T const l = stdx::rotl(v, s);
    T const r = stdx::rotr(v, s);
    auto const k = static_cast<unsigned>((s % d + d) % d);
    T const e = k == 0 ? v : static_cast<T>((v << k) | (v >> (d - k)));
    T const x = k == 0 ? v : static_cast<T>((v >> k) | (v << (d - k)));
    CHECK(l == e);
    CHECK(r == x);
}
template <std::size_t N> void smallest() {
    using T = stdx::smallest_uint_t<N>;
    CHECK(std::is_unsigned_v<T>);
    CHECK(digits<T> >= N or N > 64);
    CHECK(std::is_same_v<T, u8> or (digits<T> / 2 < N));
    CHECK(std::is_same_v<T, decltype(stdx::smallest_uint<N>())>);
}
} // namespace

VP_HARNESS(mask_8, 4, q) { masks<u8>(); }
VP_HARNESS(mask_16, 4, q) { masks<u16>(); }
VP_HARNESS(mask_32, 4, q) { masks<u32>(); }
VP_HARNESS(mask_64, 4, q) { masks<u64>(); }
#ifndef FALLBACK
VP_HARNESS(fixed_mask_8, 4, q) { fixed_masks<u8>(); }
VP_HARNESS(fixed_mask_16, 4, q) { fixed_masks<u16>(); }
VP_HARNESS(fixed_mask_32, 4, q) { fixed_masks<u32>(); }
VP_HARNESS(fixed_mask_64, 4, q) { fixed_masks<u64>(); }
VP_HARNESS(array_mask_8_1, 6, q) { array_masks<u8, 1>(); }
VP_HARNESS(array_mask_8_3, 6, q) { array_masks<u8, 3>(); }
VP_HARNESS(array_mask_8_5, 8, q) { array_masks<u8, 5>(); }
VP_HARNESS(array_mask_16_3, 6, q) { array_masks<u16, 3>(); }
VP_HARNESS(array_mask_32_2, 6, q) { array_masks<u32, 2>(); }
VP_HARNESS(array_mask_32_3, 6, q) { array_masks<u32, 3>(); }
VP_HARNESS(array_mask_64_2, 6, q) { array_masks<u64, 2>(); }
VP_HARNESS(fixed_array_mask, 6, q) {
    auto const i = small(24);
    auto at = [&](std::array<u8, 3> const &a) { return ((a[i / 8u] >> (i % 8u)) & 1u) != 0; };
    CHECK(at(stdx::bit_mask<std::array<u8, 3>>()));
    unroll<24>([&](auto m) {
        CHECK(at(stdx::bit_mask<std::array<u8, 3>, m>()) == (i <= m));
        CHECK(at(stdx::bit_mask<std::array<u8, 3>, 23 - m / 3, m / 2>()) == (i <= 23 - m / 3 and i >= m / 2));
    });
}
VP_HARNESS(split_8, 4, q) { split<u8, 3>(); split<u8, 1, 4, 7>(); split<u8>(); }
VP_HARNESS(split_16, 4, q) { split<u16, 8>(); split<u16, 5, 11>(); split<u16>(); }
VP_HARNESS(split_32, 4, q) { split<u32, 8, 24>(); split<u32, 31>(); split<u32, 1>(); split<u32, 4, 8, 12, 20>(); split<u32>(); split<u32, 1, 3, 6, 7, 13, 16, 24, 29>(); }
VP_HARNESS(split_64, 4, q) { split<u64, 32>(); split<u64, 63>(); split<u64, 8, 40, 48>(); split<u64, 7, 8, 33, 61>(); split<u64>(); split<u64, 2, 9, 11, 20, 33, 34, 47, 55, 60>(); }
#endif
VP_HARNESS(queries_8, 4, q) { queries<u8>(); }
VP_HARNESS(queries_16, 4, q) { queries<u16>(); }
VP_HARNESS(queries_32, 4, q) { queries<u32>(); }
VP_HARNESS(queries_64, 4, q) { queries<u64>(); }
VP_HARNESS(count_8, 4, q) { count<u8>(); }
VP_HARNESS(count_16, 4, q) { count<u16>(); }
VP_HARNESS(count_32, 4, q) { count<u32>(); }
VP_HARNESS(count_64, 4, q) { count<u64>(); }
VP_HARNESS(rotate_8, 4, q) { rotations<u8>(); }
VP_HARNESS(rotate_16, 4, q) { rotations<u16>(); }
VP_HARNESS(rotate_32, 4, q) { rotations<u32>(); }
VP_HARNESS(rotate_64, 4, q) { rotations<u64>(); }
VP_HARNESS(sizes, 4, q) {
    unroll<70>([](auto n) { smallest<n>(); });
    CHECK(stdx::bit_size<u8>() == 8 and stdx::bit_size<u16>() == 16 and stdx::bit_size<u32>() == 32 and stdx::bit_size<u64>() == 64);
    CHECK(stdx::bit_size<std::array<u16, 3>>() == 48);
    CHECK(stdx::bit_size<int>() == 32 and stdx::bit_size<char>() == 8);
}

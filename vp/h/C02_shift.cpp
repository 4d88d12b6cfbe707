// Shifts by arbitrary amounts from arbitrary contents.
// VP-CONFIG a: -std=c++20 -DPART=1
// VP-CONFIG b: -std=c++20 -DPART=2
// VP-CONFIG c: -std=c++20 -DPART=3
// VP-CONFIG d: -std=c++20 -DPART=4
// VP-CONFIG e: -std=c++20 -DPART=5
// VP-CONFIG f: -std=c++20 -DPART=6
// VP-CONFIG g: -std=c++20 -DPART=7
#include "bitset_word.hpp"
using namespace vp;

namespace {
template <std::size_t N> auto shl(word<N> m, std::size_t s) -> word<N> {
    return s >= N ? 0 : (m << s) & mask<N>();
}
template <std::size_t N> auto shr(word<N> m, std::size_t s) -> word<N> {
    return s >= N ? 0 : m >> s;
}

template <typename B, bool Left, std::size_t N = B::capacity> void shift() {
    word<N> m{};
    auto b = arbitrary<B>(m);
    auto s = nd<std::size_t>();
    auto const c = b;
    auto const e = Left ? shl<N>(m, s) : shr<N>(m, s);
    auto d = Left ? c << s : c >> s;
    same(d, e);
    CHECK(d == make<B>(e));
    same(c, m);
    if constexpr (Left) {
        CHECK(&(b <<= s) == &b);
    } else {
        CHECK(&(b >>= s) == &b);
    }
    same(b, e);
    COVER(s == 0);
    COVER(s == N - 1);
    COVER(s >= N);
}

// more positions than a byte can count: a run of bits moves as a whole
template <typename B, bool Left, std::size_t N = B::capacity> void large() {
    std::size_t const l = below<std::size_t>(N);
    std::size_t const h = below<std::size_t>(N);
    std::size_t const j = below<std::size_t>(N);
    ASSUME(l <= h);
    auto const s = nd<std::size_t>();
    B b{};
    b.set(static_cast<stdx::lsb_t>(l), static_cast<stdx::msb_t>(h));
    auto const c = Left ? b << s : b >> s;
    if (s >= N) {
        CHECK(not c[j]);
        CHECK(c == B{});
    } else if (Left) {
        CHECK(c[j] == (j >= s and l <= j - s and j - s <= h));
    } else {
        CHECK(c[j] == (l <= j + s and j + s <= h));
    }
    COVER(s == N - 1);
}

// bits shifted out do not come back
template <typename B, std::size_t N = B::capacity> void there_and_back() {
    word<N> m{};
    auto b = arbitrary<B>(m);
    auto s = nd<std::size_t>();
    auto t = nd<std::size_t>();
    if (vp_bool()) {
        b <<= s;
        m = shl<N>(m, s);
        same(b, m);
        b >>= t;
        m = shr<N>(m, t);
    } else {
        b >>= s;
        m = shr<N>(m, s);
        same(b, m);
        b <<= t;
        m = shl<N>(m, t);
    }
    same(b, m);
    CHECK(b == make<B>(m));
    CHECK(b.none() == (m == 0));
}
} // namespace

#define SHIFT(NAME, UNW, TIER, ...)                                                     \
    VP_HARNESS(shl_##NAME, UNW, TIER) { shift<stdx::bitset<__VA_ARGS__>, true>(); }     \
    VP_HARNESS(shr_##NAME, UNW, TIER) { shift<stdx::bitset<__VA_ARGS__>, false>(); }    \
    VP_HARNESS(back_##NAME, UNW, TIER) { there_and_back<stdx::bitset<__VA_ARGS__>>(); }

#define SHIFT1(NAME, UNW, TIER, ...)                                                    \
    VP_HARNESS(shl_##NAME, UNW, q) { shift<stdx::bitset<__VA_ARGS__>, true>(); }        \
    VP_HARNESS(shr_##NAME, UNW, q) { shift<stdx::bitset<__VA_ARGS__>, false>(); }       \
    VP_HARNESS(back_##NAME, UNW, TIER) { there_and_back<stdx::bitset<__VA_ARGS__>>(); }

#if PART == 1
SHIFT(1, 8, q, 1)
SHIFT(5, 8, q, 5)
SHIFT(8, 8, q, 8)
SHIFT(9_u8, 8, q, 9, std::uint8_t)
SHIFT(16, 8, q, 16)
SHIFT(21_u8, 8, q, 21, std::uint8_t)
SHIFT(24_u8, 8, q, 24, std::uint8_t)
VP_HARNESS(empty, 8, q) {
    stdx::bitset<0> b{};
    b <<= nd<std::size_t>();
    b >>= nd<std::size_t>();
    CHECK(b.none());
}
#elif PART == 2
SHIFT(20_u16, 8, q, 20, std::uint16_t)
SHIFT(32, 8, q, 32)
SHIFT(27, 8, q, 27)
SHIFT(33_u32, 8, q, 33, std::uint32_t)
#elif PART == 3
SHIFT(64, 8, q, 64)
SHIFT(37, 8, q, 37)
#elif PART == 4
SHIFT(70, 8, q, 70)
SHIFT1(128, 8, t, 128)
#elif PART == 5
SHIFT(40_u8, 12, q, 40, std::uint8_t)
SHIFT1(64_u8, 12, t, 64, std::uint8_t)
SHIFT(50_u16, 12, q, 50, std::uint16_t)
#elif PART == 6
SHIFT1(100_u32, 8, t, 100, std::uint32_t)
SHIFT1(120_u16, 12, t, 120, std::uint16_t)
#elif PART == 7
VP_HARNESS(large_left_300, 8, q) { large<stdx::bitset<300>, true>(); }
VP_HARNESS(large_right_300, 8, q) { large<stdx::bitset<300>, false>(); }
VP_HARNESS(large_left_260_u32, 12, t) { large<stdx::bitset<260, std::uint32_t>, true>(); }
VP_HARNESS(large_right_260_u32, 12, t) { large<stdx::bitset<260, std::uint32_t>, false>(); }
#endif

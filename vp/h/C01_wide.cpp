// One operation on bitsets made of many storage elements.
// VP-CONFIG a: -std=c++20 -DPART=1
// VP-CONFIG b: -std=c++20 -DPART=2
// VP-CONFIG c: -std=c++20 -DPART=3
// VP-CONFIG d: -std=c++20 -DPART=4
#include "bitset_word.hpp"
using namespace vp;

namespace {
template <typename B, std::size_t N = B::capacity> void ranges() {
    word<N> v{};
    auto b = arbitrary<B>(v);
    std::size_t const i = small(N);
    std::size_t const h = small(N);
    ASSUME(i <= h);
    bool const x = vp_bool();
    auto const lsb = static_cast<stdx::lsb_t>(i);
    auto const msb = static_cast<stdx::msb_t>(h);
    auto const len = static_cast<stdx::length_t>(h - i + 1);
    word<N> m{};
    unroll<N>([&](auto k) { m |= word<N>{i <= k and k <= h} << k; });
    switch (small(6)) {
    case 0: CHECK(adr(b.set(lsb, msb, x)) == &b); v = x ? v | m : v & ~m; break;
    case 1: CHECK(adr(b.set(lsb, len, x)) == &b); v = x ? v | m : v & ~m; break;
    case 2: CHECK(adr(b.reset(lsb, msb)) == &b); v &= ~m; break;
    case 3: CHECK(adr(b.reset(lsb, len)) == &b); v &= ~m; break;
    case 4: b.set(lsb, msb); v |= m; break;
    default: b.clear(lsb, len); v &= ~m; break;
    }
    same(b, v);
}
template <typename B, std::size_t N = B::capacity> void single() {
    word<N> v{};
    auto b = arbitrary<B>(v);
    std::size_t const i = small(N);
    auto const m = word<N>{1} << i;
    bool const x = vp_bool();
    CHECK(b[i] == ((v & m) != 0));
    switch (small(8)) {
    case 0: CHECK(adr(b.set(i)) == &b); v |= m; break;
    case 1: b.set(i, x); v = x ? v | m : v & ~m; break;
    case 2: CHECK(adr(b.reset(i)) == &b); v &= ~m; break;
    case 3: CHECK(adr(b.flip(i)) == &b); v ^= m; break;
    case 4: CHECK(adr(b.set()) == &b); v = mask<N>(); break;
    case 5: CHECK(adr(b.reset()) == &b); v = 0; break;
    case 6: CHECK(adr(b.flip()) == &b); v = ~v & mask<N>(); break;
    default: b = ~b; v = ~v & mask<N>(); break;
    }
    same(b, v);
}
template <typename B, std::size_t N = B::capacity> void binary() {
    word<N> v{}, w{};
    auto const b = arbitrary<B>(v);
    auto const o = arbitrary<B>(w);
    CHECK((b == o) == (v == w));
    CHECK((b != o) == (v != w));
    auto c = b;
    switch (small(7)) {
    case 0: CHECK(&(c |= o) == &c); v |= w; break;
    case 1: CHECK(&(c &= o) == &c); v &= w; break;
    case 2: CHECK(&(c ^= o) == &c); v ^= w; break;
    case 3: c = b | o; v |= w; break;
    case 4: c = b & o; v &= w; break;
    case 5: c = b ^ o; v ^= w; break;
    default: c = b - o; v &= ~w; break;
    }
    same(c, v);
    same(o, w);
}
// more positions than a byte can count: any single position, then everything
template <typename B, std::size_t N = B::capacity> void large() {
    std::size_t const i = below<std::size_t>(N);
    std::size_t const h = below<std::size_t>(N);
    std::size_t const j = below<std::size_t>(N);
    ASSUME(i <= h);
    B b{};
    CHECK(b.none() and b.count() == 0 and not b[j]);
    b.set(i);
    CHECK(b[j] == (j == i));
    CHECK(b.count() == 1 and b.any() and not b.all());
    b.flip();
    CHECK(b[j] == (j != i));
    CHECK(b.count() == N - 1 and b.any() and not b.all());
    auto const c = b;
    b.set();
    CHECK(b[j] and b.count() == N and b.all());
    CHECK(b != c);
    CHECK((~b).none());
    auto const one = b - c;
    CHECK(one[j] == (j == i));
    CHECK((one | c) == b);
    b.reset(static_cast<stdx::lsb_t>(i), static_cast<stdx::msb_t>(h));
    CHECK(b[j] == not(i <= j and j <= h));
    b.set();
    b.flip(i);
    CHECK(b == c);
    B r{};
    r.set(static_cast<stdx::lsb_t>(i), static_cast<stdx::length_t>(h - i + 1));
    CHECK(r[j] == (i <= j and j <= h));
    COVER(i == 0 and h == N - 1);
}
// only whole storage elements differ in how many are counted
template <typename B, std::size_t N = B::capacity> void counted() {
    std::size_t const n = below<std::size_t>(N / 4) * 4;
    B b{};
    b.set(static_cast<stdx::lsb_t>(0), static_cast<stdx::msb_t>(n));
    CHECK(b.count() == n + 1 and b.size() == n + 1);
    CHECK(b.any() and not b.none() and not b.empty());
    CHECK(b.all() == (n + 1 == N));
}
} // namespace
#define WIDE(NAME, TIER, ...)                                                       \
    VP_HARNESS(ranges_##NAME, 12, TIER) { ranges<stdx::bitset<__VA_ARGS__>>(); }    \
    VP_HARNESS(single_##NAME, 12, TIER) { single<stdx::bitset<__VA_ARGS__>>(); }    \
    VP_HARNESS(binary_##NAME, 12, TIER) { binary<stdx::bitset<__VA_ARGS__>>(); }
#if PART == 1
WIDE(40_u8, q, 40, std::uint8_t)
WIDE(45_u8, q, 45, std::uint8_t)
#elif PART == 2
WIDE(100_u32, q, 100, std::uint32_t)
WIDE(128, q, 128)
#elif PART == 3
WIDE(64_u8, q, 64, std::uint8_t)
WIDE(90_u16, q, 90, std::uint16_t)
#elif PART == 4
VP_HARNESS(large_300, 12, q) { large<stdx::bitset<300>>(); }
VP_HARNESS(large_260_u32, 12, q) { large<stdx::bitset<260, std::uint32_t>>(); }
VP_HARNESS(large_257_u8, 36, t) { large<stdx::bitset<257, std::uint8_t>>(); }
VP_HARNESS(counted_300, 12, q) { counted<stdx::bitset<300>>(); }
VP_HARNESS(counted_257_u32, 12, q) { counted<stdx::bitset<257, std::uint32_t>>(); }
#endif

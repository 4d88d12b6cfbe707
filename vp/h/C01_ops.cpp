// Bitset operations against a set of positions: two arbitrary operations from
// an arbitrary content.
// VP-CONFIG a: -std=c++20 -DPART=1
// VP-CONFIG b: -std=c++20 -DPART=2
// VP-CONFIG c: -std=c++20 -DPART=3
// VP-CONFIG d: -std=c++20 -DPART=4
// VP-CONFIG t_e: -std=c++20 -DPART=5
// VP-CONFIG f: -std=c++23 -DPART=6
// VP-CONFIG t_g: -std=c++23 -DPART=7
// VP-CONFIG t_h: -std=c++23 -DPART=8
#include "bitset_model.hpp"
using namespace vp;

namespace {
// one arbitrary operation with arbitrary arguments
template <typename B, std::size_t N = B::capacity>
[[gnu::always_inline]] inline void step(B &b, bits<N> &m) {
    auto op = small(24);
    std::size_t i = small(N);
    std::size_t h = small(N);
    ASSUME(i <= h);
    bool v = vp_bool();
    auto lsb = static_cast<stdx::lsb_t>(i);
    auto msb = static_cast<stdx::msb_t>(h);
    auto len = static_cast<stdx::length_t>(h - i + 1);
    auto other = bits<N>::any();
    auto o = build<B>(other);
    if (vp_bool()) {
        o.flip();
        other.each([](auto, bool x) { return not x; });
    }
    auto at = [&](bool to) { m.each([&](auto k, bool x) { return k == i ? to : x; }); };
    auto range = [&](bool to) { m.each([&](auto k, bool x) { return i <= k and k <= h ? to : x; }); };
    auto all = [&](bool to) { m.each([&](auto, bool) { return to; }); };
    switch (op) {
    case 0: b.set(i, v); at(v); break;
    case 1: b.set(i); at(true); break;
    case 2: b.reset(i); at(false); break;
    case 3: b.clear(i); at(false); break;
    case 4: b.flip(i); m.each([&](auto k, bool x) { return x != (k == i); }); break;
    case 5: b.set(); all(true); break;
    case 6: b.reset(); all(false); break;
    case 7: b.clear(); all(false); break;
    case 8: b.flip(); m.each([](auto, bool x) { return not x; }); break;
    case 9: b = ~b; m.each([](auto, bool x) { return not x; }); break;
    case 10: b.set(lsb, msb, v); range(v); break;
    case 11: b.set(lsb, msb); range(true); break;
    case 12: b.set(lsb, len, v); range(v); break;
    case 13: b.reset(lsb, msb); range(false); break;
    case 14: b.reset(lsb, len); range(false); break;
    case 15: b.clear(lsb, msb); range(false); break;
    case 16: b |= o; m.each([&](auto k, bool x) { return x or other.b[k]; }); break;
    case 17: b &= o; m.each([&](auto k, bool x) { return x and other.b[k]; }); break;
    case 18: b ^= o; m.each([&](auto k, bool x) { return x != other.b[k]; }); break;
    case 19: b = b | o; m.each([&](auto k, bool x) { return x or other.b[k]; }); break;
    case 20: b = b & o; m.each([&](auto k, bool x) { return x and other.b[k]; }); break;
    case 21: b = b ^ o; m.each([&](auto k, bool x) { return x != other.b[k]; }); break;
    case 22: b = b - o; m.each([&](auto k, bool x) { return x and not other.b[k]; }); break;
    default: b = o - b; m.each([&](auto k, bool x) { return not x and other.b[k]; }); break;
    }
}

template <typename B, std::size_t N = B::capacity>
[[gnu::always_inline]] inline void queries(B const &b, bits<N> const &m) {
    agree(b, m);
    CHECK(b == build<B>(m));
    // nothing beyond the last position comes into sight
    CHECK(not(b >> 1)[N - 1]);
}

// equality and emptiness, from contents left by operations on all bits
template <typename B, std::size_t N = B::capacity> void equality() {
    auto m = bits<N>::any();
    auto b = build<B>(m);
    switch (small(4)) {
    case 0: b.flip(); m.each([](auto, bool x) { return not x; }); break;
    case 1: b = ~b; m.each([](auto, bool x) { return not x; }); break;
    case 2: b.set(); m.each([](auto, bool) { return true; }); break;
    default: break;
    }
    auto other = bits<N>::any();
    auto o = build<B>(other);
    CHECK((b == o) == m.same(other));
    CHECK((o == b) == m.same(other));
    CHECK((b != o) != m.same(other));
    CHECK(b.any() == not m.none());
    CHECK(b.none() == m.none());
    CHECK(b.empty() == m.none());
    CHECK(b.all() == m.all());
    COVER(m.all());
    COVER(m.none());
}

template <typename B, std::size_t N = B::capacity> void history() {
    auto m = bits<N>::any();
    auto b = build<B>(m);
    step(b, m);
    queries(b, m);
    step(b, m);
    queries(b, m);
}
template <typename B, std::size_t N = B::capacity> void history3() {
    auto m = bits<N>::any();
    auto b = build<B>(m);
    step(b, m);
    queries(b, m);
    step(b, m);
    queries(b, m);
    step(b, m);
    queries(b, m);
}

// counting, from contents left by operations on all bits
template <typename B, std::size_t N = B::capacity> void counting() {
    auto v = nd<std::uint64_t>();
    auto const mask = N == 64 ? ~std::uint64_t{} : (std::uint64_t{1} << (N % 64)) - 1;
    B b{v};
    v &= mask;
    switch (small(5)) {
    case 0: b.flip(); v = ~v & mask; break;
    case 1: b = ~b; v = ~v & mask; break;
    case 2: b.set(); v = mask; break;
    case 3: b = B{stdx::all_bits}; v = mask; break;
    default: break;
    }
    auto n = static_cast<std::size_t>(__builtin_popcountll(v));
    CHECK(b.count() == n);
    CHECK(b.size() == n);
    CHECK(b.empty() == (v == 0));
    CHECK(b.any() == (v != 0));
    CHECK(b.none() == (v == 0));
    CHECK(b.all() == (v == mask));
    CHECK(B::capacity() == N);
}
// the same with a bit-by-bit count, for small sizes
template <typename B, std::size_t N = B::capacity> void counting_bits() {
    auto m = bits<N>::any();
    auto b = build<B>(m);
    if (vp_bool()) {
        b.flip();
        m.each([](auto, bool x) { return not x; });
    }
    CHECK(b.count() == m.count());
    CHECK(b.size() == m.count());
}

enum struct Bits : std::uint8_t { ZERO, ONE, TWO, THREE, MAX };
} // namespace

#define HIST(NAME, UNW, TIER, ...)                                                  \
    VP_HARNESS(history_##NAME, UNW, TIER) { history<stdx::bitset<__VA_ARGS__>>(); }
#define EQUAL(NAME, UNW, TIER, ...)                                                   \
    VP_HARNESS(equality_##NAME, UNW, TIER) { equality<stdx::bitset<__VA_ARGS__>>(); }
#define COUNT(NAME, UNW, TIER, ...)                                                   \
    VP_HARNESS(counting_##NAME, UNW, TIER) { counting<stdx::bitset<__VA_ARGS__>>(); }
#define COUNTB(NAME, UNW, TIER, ...)                                                        \
    VP_HARNESS(countbits_##NAME, UNW, TIER) { counting_bits<stdx::bitset<__VA_ARGS__>>(); }

#if PART == 1
HIST(1, 8, q, 1)
HIST(5, 8, q, 5)
HIST(8, 8, q, 8)
HIST(17_u8, 8, q, 17, std::uint8_t)
HIST(16, 8, t, 16)
#elif PART == 2
HIST(21_u16, 8, q, 21, std::uint16_t)
HIST(32, 8, q, 32)
#elif PART == 3
HIST(33_u32, 8, q, 33, std::uint32_t)
#elif PART == 4
HIST(64, 8, q, 64)
#elif PART == 5
HIST(70, 8, t, 70)
#elif PART == 6
COUNT(1, 12, q, 1)
COUNT(7, 12, q, 7)
COUNT(8, 12, q, 8)
COUNT(16, 12, q, 16)
COUNT(27, 12, q, 27)
COUNT(32, 12, q, 32)
COUNT(33, 12, q, 33)
COUNT(63, 12, t, 63)
COUNT(64, 12, q, 64)
COUNT(26_u8, 12, q, 26, std::uint8_t)
COUNT(33_u16, 12, q, 33, std::uint16_t)
COUNT(40_u32, 12, q, 40, std::uint32_t)
COUNTB(9, 8, q, 9)
COUNTB(17_u8, 8, q, 17, std::uint8_t)
COUNTB(18_u16, 8, q, 18, std::uint16_t)

EQUAL(1, 8, q, 1)
EQUAL(5, 8, q, 5)
EQUAL(17_u8, 8, q, 17, std::uint8_t)
EQUAL(33_u16, 8, q, 33, std::uint16_t)
EQUAL(32, 8, q, 32)
EQUAL(64, 8, q, 64)
EQUAL(70, 8, q, 70)

// the operators return the modified object and leave their operands alone
VP_HARNESS(operands, 8, q) {
    using B = stdx::bitset<11, std::uint8_t>;
    auto m = bits<11>::any();
    auto other = bits<11>::any();
    auto b = build<B>(m);
    auto const c = b;
    auto const o = build<B>(other);
    auto r1 = c | o, r2 = c & o, r3 = c ^ o, r4 = c - o, r5 = ~c;
    agree(c, m);
    agree(o, other);
    CHECK(&(b |= o) == &b);
    CHECK(b == r1);
    b = c;
    CHECK(&(b &= o) == &b);
    CHECK(b == r2);
    b = c;
    CHECK(&(b ^= o) == &b);
    CHECK(b == r3);
    CHECK(adr(b.set(3)) == &b and adr(b.set(4, false)) == &b and adr(b.reset(1)) == &b and adr(b.flip(2)) == &b);
    CHECK(adr(b.set(stdx::lsb_t{1}, stdx::msb_t{3})) == &b and adr(b.reset(stdx::lsb_t{1}, stdx::msb_t{3})) == &b);
    CHECK(adr(b.flip()) == &b and adr(b.reset()) == &b and adr(b.clear()) == &b and adr(b.set()) == &b);
    agree(o, other);
    b = r1;
    b |= b;
    CHECK(b == r1);
    b &= b;
    CHECK(b == r1);
    b ^= b;
    CHECK(b.none());
}

VP_HARNESS(enum_index, 8, q) {
    using B = stdx::bitset<Bits::MAX>;
    auto m = bits<4>::any();
    B b{};
    unroll<4>([&](auto i) { b.set(static_cast<Bits>(std::size_t{i}), m.b[i]); });
    auto i = static_cast<Bits>(small(4));
    auto v = vp_bool();
    auto op = small(4);
    if (op == 0) { b.set(i, v); }
    if (op == 1) { b.reset(i); }
    if (op == 2) { b.flip(i); }
    if (op == 3) { b = ~b; }
    unroll<4>([&](auto k) {
        bool const hit = static_cast<Bits>(std::size_t{k}) == i;
        bool const was = m.b[k];
        bool const now = op == 3 ? not was : not hit ? was : op == 0 ? v : op == 1 ? false : not was;
        CHECK(b[static_cast<Bits>(std::size_t{k})] == now);
        CHECK(b[std::size_t{k}] == now);
    });
}

VP_HARNESS(signed_index, 8, q) {
    stdx::bitset<20, std::uint8_t> b{};
    auto m = bits<20>::any();
    b = build<stdx::bitset<20, std::uint8_t>>(m);
    int i = static_cast<int>(small(20));
    auto op = small(3);
    if (op == 0) { b.set(i); }
    if (op == 1) { b.reset(i); }
    if (op == 2) { b.flip(i); }
    m.each([&](auto k, bool x) { return static_cast<int>(k) != i ? x : op == 0 ? true : op == 1 ? false : not x; });
    agree(b, m);
    CHECK(b[i] == m.b[i]);
}

VP_HARNESS(empty_bitset, 8, q) {
    stdx::bitset<0> b{};
    auto op = small(8);
    if (op == 0) { b.set(); }
    if (op == 1) { b.reset(); }
    if (op == 2) { b.flip(); }
    if (op == 3) { b = ~b; }
    if (op == 4) { b |= ~b; }
    if (op == 5) { b &= b; }
    if (op == 6) { b ^= ~b; }
    if (op == 7) { b = b - ~b; }
    CHECK(b.count() == 0 and b.empty() and b.none() and not b.any() and b.all());
    CHECK(b == stdx::bitset<0>{stdx::all_bits});
}
#elif PART == 7
VP_HARNESS(history3_9, 8, t) { history3<stdx::bitset<9, std::uint8_t>>(); }
VP_HARNESS(history3_20, 8, t) { history3<stdx::bitset<20, std::uint16_t>>(); }
#elif PART == 8
HIST(128, 8, t, 128)
HIST(40_u8, 12, t, 40, std::uint8_t)
#endif

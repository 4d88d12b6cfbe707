// Construction from integers, strings and positions; conversion to integers.
// VP-CONFIG a: -std=c++20 -DPART=1
// VP-CONFIG b: -std=c++20 -DPART=2
// VP-CONFIG c: -std=c++20 -DPART=3
#include "bitset_word.hpp"
#include <string_view>
using namespace vp;

namespace {
// no query sees anything but the low N bits
template <typename B, std::size_t N = B::capacity> void sees_only(B const &b, word<N> v) {
    same(b, v);
    CHECK(b.any() == (v != 0));
    CHECK(b.all() == (v == mask<N>()));
    CHECK(b.lowest_unset() <= N);
    CHECK((b.lowest_unset() == N) == (v == mask<N>()));
    CHECK(b == make<B>(v));
    CHECK((b >> 1) == make<B>(v >> 1));
}
template <typename B, std::size_t N = B::capacity> void from_integer() {
    auto const x = nd<std::uint64_t>();
    B const b{x};
    CHECK(b.count() <= N);
    sees_only(b, static_cast<word<N>>(x) & mask<N>());
    if constexpr (N <= 32) {
        // values that only differ above the size are indistinguishable
        auto const y = nd<std::uint64_t>();
        ASSUME(((x ^ y) & mask<N>()) == 0);
        B const c{y};
        CHECK(b == c);
        CHECK(b.lowest_unset() == c.lowest_unset());
        CHECK(b.to_natural() == c.to_natural());
    }
}
template <typename B, std::size_t N = B::capacity> void sum_bits() {
    auto const x = nd<std::uint64_t>();
    B const b{x};
    auto r = stdx::transform_reduce([](std::size_t i) { CHECK(i < N); return std::uint64_t{1} << (i % 64); },
                                    [](std::uint64_t a, std::uint64_t y) { return a | y; }, std::uint64_t{}, b);
    CHECK(r == (x & mask<N>()));
}
template <typename T, typename B, std::size_t N = B::capacity> void to_integer() {
    word<N> v{};
    auto const b = arbitrary<B>(v);
    CHECK(static_cast<std::uint64_t>(b.template to<T>()) == v);
}
template <typename B, std::size_t N = B::capacity> void to_natural() {
    word<N> v{};
    auto const b = arbitrary<B>(v);
    auto const n = b.to_natural();
    using R = decltype(b.to_natural());
    CHECK(std::is_unsigned_v<R>);
    CHECK(sizeof(R) * 8 >= N);
    CHECK(N <= 8 or sizeof(R) * 8 < 2 * N);
    CHECK(n == v);
    CHECK(B{n} == b);
}
template <typename B, std::size_t L, std::size_t N = B::capacity> void from_string() {
    auto const chars = nd_array<char, L>();
    auto const len = small(L + 1);
    auto const pos = small(L + 1);
    ASSUME(pos <= len);
    auto const n = vp_bool() ? std::size_t{small(L + 2)} : std::string_view::npos;
    auto const one = nd<char>();
    B const b{std::string_view{chars.data(), len}, pos, n, one};
    std::size_t const rest = len - pos;
    std::size_t const used = rest < n ? rest : n;
    std::size_t const m = used < N ? used : N;
    unroll<N>([&](auto i) {
        bool const e = i < m ? chars[(pos + m - 1 - i) % L] == one : false;
        CHECK(b[std::size_t{i}] == e);
    });
    if constexpr (L >= N) {
        COVER(b.all());
    }
    COVER(n < rest);
    COVER(pos > 0 and b.any());
    CHECK(b == make<B>(contents(b)));
}
template <typename B, std::size_t L, std::size_t N = B::capacity> void from_string_default() {
    auto const chars = nd_array<char, L>();
    auto const len = small(L + 1);
    B const b{std::string_view{chars.data(), len}};
    std::size_t const m = len < N ? len : N;
    unroll<N>([&](auto i) {
        CHECK(b[std::size_t{i}] == (i < m ? chars[(m - 1 - i) % L] == '1' : false));
    });
}
template <std::size_t N> void from_ct_string() {
    stdx::ct_string<N + 1> s{};
    unroll<N>([&](auto i) { s.value[i] = nd<char>(); });
    s.value[N] = 0;
    stdx::bitset const b{s};
    CHECK(std::is_same_v<decltype(b), stdx::bitset<N> const>);
    unroll<N>([&](auto i) { CHECK(b[std::size_t{i}] == (s.value[N - 1 - i] == '1')); });
}
template <typename B, std::size_t N = B::capacity> void from_places() {
    auto const p = small(N);
    auto const q = small(N);
    auto const r = small(N);
    B const b{stdx::place_bits, p, q, r};
    same(b, (word<N>{1} << p) | (word<N>{1} << q) | (word<N>{1} << r));
    B const none{stdx::place_bits};
    CHECK(none.none());
    same(none, 0);
    B const all{stdx::all_bits};
    sees_only(all, mask<N>());
    CHECK(all.count() == N);
    B const zero{};
    sees_only(zero, 0);
}
enum struct E8 : std::uint8_t {};
enum struct E16 : std::uint16_t {};
enum struct E32 : std::uint32_t {};
enum struct E64 : std::uint64_t {};
} // namespace

#define FROM(NAME, ...)                                                        \
    VP_HARNESS(from_##NAME, 12, q) { from_integer<stdx::bitset<__VA_ARGS__>>(); }
#define PLACES(NAME, ...)                                                      \
    VP_HARNESS(places_##NAME, 12, q) { from_places<stdx::bitset<__VA_ARGS__>>(); }
#define SUM(NAME, ...)                                                         \
    VP_HARNESS(sum_##NAME, 34, q) { sum_bits<stdx::bitset<__VA_ARGS__>>(); }
#define TO(NAME, T, ...)                                                       \
    VP_HARNESS(to_##NAME##_##T, 12, q) { to_integer<T, stdx::bitset<__VA_ARGS__>>(); }
#define NAT(NAME, ...)                                                         \
    VP_HARNESS(natural_##NAME, 12, q) { to_natural<stdx::bitset<__VA_ARGS__>>(); }
using u8 = std::uint8_t;
using u16 = std::uint16_t;
using u32 = std::uint32_t;
using u64 = std::uint64_t;

#if PART == 1
FROM(1, 1)
FROM(5, 5)
FROM(8, 8)
FROM(12, 12)
FROM(12_u8, 12, u8)
FROM(24_u8, 24, u8)
FROM(29_u16, 29, u16)
FROM(32, 32)
FROM(41_u32, 41, u32)
FROM(44, 44)
FROM(64, 64)
FROM(64_u8, 64, u8)
FROM(64_u32, 64, u32)
FROM(72, 72)
FROM(90_u16, 90, u16)
SUM(5, 5)
SUM(12_u8, 12, u8)
SUM(20, 20)
PLACES(7, 7)
PLACES(19_u8, 19, u8)
PLACES(32, 32)
PLACES(61, 61)
PLACES(100, 100)
VP_HARNESS(enum_places, 8, q) {
    enum struct En : std::uint8_t { A, B, C, D, E, MAX };
    auto const p = static_cast<En>(small(5));
    auto const q = static_cast<En>(small(5));
    stdx::bitset<En::MAX> const b{stdx::place_bits, p, q};
    unroll<5>([&](auto i) {
        auto const e = static_cast<En>(std::size_t{i});
        CHECK(b[e] == (e == p or e == q));
    });
}
#elif PART == 2
TO(3_u32, u8, 3, u32) TO(12_u64, u16, 12, u64) TO(12_u64, E16, 12, u64) NAT(3_u32, 3, u32) NAT(20_u64, 20, u64) TO(3, u8, 3) TO(3, u64, 3) TO(8, u8, 8) TO(8, u32, 8) TO(8, E8, 8) TO(8, E32, 8)
TO(11, u16, 11) TO(11, u64, 11) TO(11_u8, u16, 11, u8) TO(11_u8, u32, 11, u8) TO(11_u8, E16, 11, u8)
TO(16_u8, u16, 16, u8) TO(16_u8, E16, 16, u8) TO(16_u8, E64, 16, u8)
TO(27_u8, u32, 27, u8) TO(27_u8, u64, 27, u8) TO(27_u8, E32, 27, u8) TO(32_u8, E32, 32, u8)
TO(31, u32, 31) TO(31, E32, 31) TO(32_u16, u32, 32, u16) TO(32_u16, E32, 32, u16) TO(30_u16, E64, 30, u16)
TO(48, u64, 48) TO(48_u8, u64, 48, u8) TO(57_u16, u64, 57, u16) TO(57_u16, E64, 57, u16)
TO(64, u64, 64) TO(64, E64, 64) TO(64_u8, u64, 64, u8) TO(64_u32, u64, 64, u32) TO(64_u32, E64, 64, u32)
NAT(1, 1) NAT(8, 8) NAT(9, 9) NAT(16, 16) NAT(17, 17) NAT(22_u8, 22, u8) NAT(32, 32) NAT(33, 33) NAT(50_u16, 50, u16) NAT(64, 64) NAT(64_u8, 64, u8)
#elif PART == 3
VP_HARNESS(string_6, 8, q) { from_string<stdx::bitset<6>, 7>(); }
VP_HARNESS(string_8, 12, q) { from_string<stdx::bitset<8>, 10>(); }
VP_HARNESS(string_11_u8, 14, q) { from_string<stdx::bitset<11, u8>, 12>(); }
VP_HARNESS(string_20_u16, 14, q) { from_string<stdx::bitset<20, u16>, 9>(); }
VP_HARNESS(string_70, 8, q) { from_string<stdx::bitset<70>, 6>(); }
VP_HARNESS(string_default_5, 12, q) { from_string_default<stdx::bitset<5>, 8>(); }
VP_HARNESS(string_default_12, 12, q) { from_string_default<stdx::bitset<12>, 10>(); }
VP_HARNESS(ct_string_4, 12, q) { from_ct_string<4>(); }
VP_HARNESS(ct_string_9, 14, q) { from_ct_string<9>(); }
VP_HARNESS(ct_string_18, 22, q) { from_ct_string<18>(); }
VP_HARNESS(empty, 4, q) {
    stdx::bitset<0> a{};
    stdx::bitset<0> b{nd<std::uint64_t>()};
    stdx::bitset<0> c{stdx::all_bits};
    CHECK(a == b and b == c);
    CHECK(a.none() and a.all() and not a.any() and a.count() == 0);
    CHECK(b.to<u8>() == 0 and c.to<u64>() == 0);
    CHECK(b.lowest_unset() == 0);
}
#endif

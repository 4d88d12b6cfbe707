// Size conversions, alignment tests, sign conversions and scaling literals.
// VP-CONFIG a: -std=c++20 -DPART=1 -Dconsteval=constexpr
// VP-CONFIG b: -std=c++20 -DPART=2 -Dconsteval=constexpr
// VP-CONFIG c: -std=c++20 -DPART=3
#include "vp.hpp"
#include <array>
#include <cstddef>
#include <cstdint>
#include <type_traits>
#include <utility>
#include <stdx/type_traits.hpp>
#include <stdx/udls.hpp>
#include <stdx/utility.hpp>
using namespace vp;
using namespace stdx::literals;

namespace {
template <std::size_t N> struct bytes {
    unsigned char b[N];
};
// r is the least number of U that hold n of T
template <typename T, typename U> void least(std::size_t n, std::size_t r) {
    auto const need = n * sizeof(T);
    auto const have = r * sizeof(U);
    CHECK(have >= need);
    CHECK(have - need < sizeof(U));
}
// every n whose storage can be counted
template <typename T, typename U> void every() {
    auto const n = nd<std::size_t>();
    ASSUME(n <= (~std::size_t{} - (sizeof(U) - 1)) / sizeof(T));
    auto const r = stdx::sized<T>{n}.template in<U>();
    CHECK(std::is_same_v<decltype(r), std::size_t const>);
    CHECK(r <= ~std::size_t{} / sizeof(U));
    least<T, U>(n, r);
    COVER(n == 0);
    COVER(n == (~std::size_t{} - (sizeof(U) - 1)) / sizeof(T));
}
// a bounded n where the sizes are not powers of two
template <typename T, typename U> void bounded() {
    auto const n = std::size_t{nd<std::uint16_t>()};
    auto const r = stdx::sized<T>{n}.template in<U>();
    CHECK(r < std::size_t{1} << 32);
    least<T, U>(n, r);
}
template <typename T> void to_all() {
    every<T, std::uint8_t>();
    every<T, std::uint16_t>();
    every<T, std::uint32_t>();
    every<T, std::uint64_t>();
    every<T, bytes<16>>();
}
} // namespace

#if PART == 1
VP_HARNESS(from_8, 2, q) { to_all<std::uint8_t>(); }
VP_HARNESS(from_16, 2, q) { to_all<std::uint16_t>(); }
VP_HARNESS(from_32, 2, q) { to_all<std::uint32_t>(); }
VP_HARNESS(from_64, 2, q) { to_all<std::uint64_t>(); }
VP_HARNESS(from_128, 2, q) { to_all<bytes<16>>(); }
VP_HARNESS(from_3, 2, q) {
    bounded<bytes<3>, std::uint8_t>();
    bounded<bytes<3>, std::uint16_t>();
    bounded<bytes<3>, std::uint32_t>();
    bounded<bytes<3>, std::uint64_t>();
    bounded<bytes<3>, bytes<3>>();
}
VP_HARNESS(to_3, 2, q) {
    bounded<std::uint8_t, bytes<3>>();
    bounded<std::uint32_t, bytes<3>>();
    bounded<bytes<6>, bytes<3>>();
}
VP_HARNESS(to_odd, 2, q) {
    bounded<bytes<3>, bytes<6>>();
    bounded<bytes<5>, bytes<7>>();
    bounded<bytes<12>, bytes<8>>();
    bounded<bytes<24>, bytes<16>>();
}
VP_HARNESS(aliases, 2, q) {
    auto const n = std::size_t{nd<std::uint32_t>()};
    CHECK(stdx::sized8{n}.in<std::uint32_t>() == (n + 3) / 4);
    CHECK(stdx::sized16{n}.in<std::uint64_t>() == (n + 3) / 4);
    CHECK(stdx::sized32{n}.in<std::uint16_t>() == n * 2);
    CHECK(stdx::sized64{n}.in<std::uint32_t>() == n * 2);
    CHECK(stdx::sized64{n}.in() == n * 8);
    CHECK(stdx::sized16{n}.in() == n * 2);
    auto s = stdx::sized32{n};
    CHECK(s.in() == n * 4);
    CHECK(s.sz == n);
}
#endif

#if PART == 2
namespace {
struct alignas(16) wide {
    unsigned char b[16];
};
struct alignas(64) line {
    unsigned char b[64];
};
template <typename T> void aligned_values() {
    auto const u8 = nd<std::uint8_t>();
    auto const u16 = nd<std::uint16_t>();
    auto const u32 = nd<std::uint32_t>();
    auto const u64 = nd<std::uint64_t>();
    auto const i32 = nd<std::int32_t>();
    auto const i64 = nd<std::int64_t>();
    CHECK(stdx::is_aligned_with<T>(u8) == (u8 % alignof(T) == 0));
    CHECK(stdx::is_aligned_with<T>(u16) == (u16 % alignof(T) == 0));
    CHECK(stdx::is_aligned_with<T>(u32) == (u32 % alignof(T) == 0));
    CHECK(stdx::is_aligned_with<T>(u64) == (u64 % alignof(T) == 0));
    CHECK(stdx::is_aligned_with<T>(i32) ==
          (static_cast<std::uint32_t>(i32) % alignof(T) == 0));
    CHECK(stdx::is_aligned_with<T>(i64) ==
          (static_cast<std::uint64_t>(i64) % alignof(T) == 0));
}
template <typename T> void aligned_addresses() {
    line l{};
    auto const at = small(64);
    auto *p = l.b + at;
    CHECK(stdx::is_aligned_with<T>(p) == (at % alignof(T) == 0));
    auto const *cp = static_cast<void const *>(p);
    CHECK(stdx::is_aligned_with<T>(cp) == (at % alignof(T) == 0));
    CHECK(stdx::is_aligned_with<T>(static_cast<T *>(nullptr)));
}
template <typename S, typename U> void signs() {
    auto const s = nd<S>();
    auto const u = nd<U>();
    CHECK(std::is_same_v<decltype(stdx::as_unsigned(s)), U>);
    CHECK(std::is_same_v<decltype(stdx::as_unsigned(u)), U>);
    CHECK(std::is_same_v<decltype(stdx::as_signed(s)), S>);
    CHECK(std::is_same_v<decltype(stdx::as_signed(u)), S>);
    CHECK(stdx::as_unsigned(u) == u);
    CHECK(stdx::as_signed(s) == s);
    CHECK(stdx::as_unsigned(s) == __builtin_bit_cast(U, s));
    CHECK(stdx::as_signed(u) == __builtin_bit_cast(S, u));
}
template <typename E, typename U> void underlying() {
    auto const v = nd<U>();
    auto const e = static_cast<E>(v);
    CHECK(std::is_same_v<decltype(stdx::to_underlying(e)), U>);
    CHECK(stdx::to_underlying(e) == v);
}
enum struct e8 : std::int8_t {};
enum struct e32 : std::uint32_t {};
enum struct e64 : std::int64_t {};
enum plain : std::uint16_t {};
enum struct eb : bool { no, yes };
} // namespace
VP_HARNESS(values_1, 2, q) { aligned_values<std::uint8_t>(); }
VP_HARNESS(values_2, 2, q) { aligned_values<std::uint16_t>(); }
VP_HARNESS(values_4, 2, q) { aligned_values<std::uint32_t>(); }
VP_HARNESS(values_8, 2, q) { aligned_values<std::uint64_t>(); }
VP_HARNESS(values_16, 2, q) { aligned_values<wide>(); }
VP_HARNESS(values_64, 2, q) { aligned_values<line>(); }
VP_HARNESS(addresses_1, 2, q) { aligned_addresses<char>(); }
VP_HARNESS(addresses_2, 2, q) { aligned_addresses<std::uint16_t>(); }
VP_HARNESS(addresses_4, 2, q) { aligned_addresses<float>(); }
VP_HARNESS(addresses_8, 2, q) { aligned_addresses<std::uint64_t>(); }
VP_HARNESS(addresses_16, 2, q) { aligned_addresses<wide>(); }
VP_HARNESS(addresses_64, 2, q) { aligned_addresses<line>(); }
VP_HARNESS(signs, 2, q) {
    signs<std::int8_t, std::uint8_t>();
    signs<std::int16_t, std::uint16_t>();
    signs<std::int32_t, std::uint32_t>();
    signs<std::int64_t, std::uint64_t>();
    signs<long long, unsigned long long>();
}
VP_HARNESS(underlying, 2, q) {
    underlying<e8, std::int8_t>();
    underlying<e32, std::uint32_t>();
    underlying<e64, std::int64_t>();
    underlying<plain, std::uint16_t>();
    CHECK(stdx::to_underlying(eb::yes) == true);
    CHECK(stdx::to_underlying(eb::no) == false);
    auto const v = nd<std::int32_t>();
    CHECK(stdx::to_underlying(v) == v);
}
// the factors applied to every value, with wrap-around at 64 bits
VP_HARNESS(scaling, 2, q) {
    auto const n = nd<unsigned long long>();
    ASSUME(n <= ~0ull / 1'000'000'000ull);
    CHECK(operator""_k(n) == (n << 10) - (n << 4) - (n << 3));
    CHECK(operator""_ki(n) == n << 10);
    CHECK(operator""_Mi(n) == n << 20);
    CHECK(operator""_Gi(n) == n << 30);
    CHECK(operator""_M(n) == n * 1'000'000ull);
    CHECK(operator""_G(n) == n * 1'000'000'000ull);
}
VP_HARNESS(scaling_most, 2, q) {
    auto const k = nd<unsigned long long>();
    ASSUME(k <= ~0ull / 1'000ull);
    CHECK(operator""_k(k) == k * 1'000ull);
    auto const m = nd<unsigned long long>();
    ASSUME(m <= ~0ull / 1'000'000ull);
    CHECK(operator""_M(m) == m * 1'000'000ull);
    auto const i = nd<unsigned long long>();
    ASSUME(i <= ~0ull >> 10);
    CHECK(operator""_ki(i) == i << 10);
    auto const j = nd<unsigned long long>();
    ASSUME(j <= ~0ull >> 20);
    CHECK(operator""_Mi(j) == j << 20);
    auto const l = nd<unsigned long long>();
    ASSUME(l <= ~0ull >> 30);
    CHECK(operator""_Gi(l) == l << 30);
}
VP_HARNESS(positions, 2, q) {
    auto const n = nd<std::uint32_t>();
    CHECK(static_cast<std::uint32_t>(operator""_lsb(n)) == n);
    CHECK(static_cast<std::uint32_t>(operator""_msb(n)) == n);
    CHECK(static_cast<std::uint32_t>(operator""_len(n)) == n);
}
#endif

#if PART == 3
VP_HARNESS(size_literals, 2, q) {
    CHECK(3_z8->in<std::uint32_t> == 1);
    CHECK(4_z8->z32 == 1);
    CHECK(5_z8->z32 == 2);
    CHECK(5_z8->z8 == 5);
    CHECK(3_z16->z8 == 6);
    CHECK(3_z16->z16 == 3);
    CHECK(3_z16->z32 == 2);
    CHECK(3_z16->z64 == 1);
    CHECK(7_z32->z8 == 28);
    CHECK(7_z32->z16 == 14);
    CHECK(7_z32->z32 == 7);
    CHECK(7_z32->z64 == 4);
    CHECK(7_z64->z8 == 56);
    CHECK(7_z64->z16 == 28);
    CHECK(7_z64->z32 == 14);
    CHECK(7_z64->z64 == 7);
    CHECK(0_z16->z64 == 0);
    CHECK((0x1'0000'0000_z8).z64 == 0x2000'0000);
    CHECK(7_z64->in<bytes<3>> == 19);
}
VP_HARNESS(constants, 2, q) {
    CHECK(std::is_same_v<decltype(17_c), std::integral_constant<std::uint32_t, 17>>);
    CHECK(std::is_same_v<decltype(0_c), std::integral_constant<std::uint32_t, 0>>);
    CHECK(decltype(1'234'567'890_c)::value == 1'234'567'890);
    CHECK(decltype(4294967295_c)::value == 4294967295);
    CHECK(decltype(0x1F'ab_c)::value == 0x1fab);
    CHECK(decltype(0XdeadBEEF_c)::value == 0xdeadbeef);
    CHECK(decltype(0b1010'0101_c)::value == 0xa5);
    CHECK(decltype(0B11_c)::value == 3);
    CHECK(decltype(0'17_c)::value == 15);
    CHECK(decltype(0777_c)::value == 511);
    CHECK("any"_b);
    CHECK("any"_true);
    CHECK(not "any"_false);
    CHECK(""_0 == 0);
    CHECK(""_5 == 5);
    CHECK(""_9 == 9);
    CHECK(1_k == 1000);
    CHECK(2_M == 2'000'000);
    CHECK(3_G == 3'000'000'000);
    CHECK(18_G == 18'000'000'000);
    CHECK(1_ki == 1024);
    CHECK(3_Mi == 3'145'728);
    CHECK(8_Gi == 8'589'934'592);
}
#endif

// Packing, unpacking and byte order.
// VP-CONFIG std20: -std=c++20
// VP-CONFIG std23: -std=c++23
// VP-CONFIG own: -std=c++20 -DFALLBACK=1
#include "bit_under_test.hpp"
using namespace vp;

VP_HARNESS(pack_16, 4, q) {
    auto a = nd<u8>(), b = nd<u8>();
    u16 r = stdx::bit_pack<u16>(a, b);
    CHECK(r == a * 256u + b);
    auto p = stdx::bit_unpack<u8>(r);
    CHECK(p.size() == 2);
    CHECK(p[0] == a and p[1] == b);
}
VP_HARNESS(pack_32, 4, q) {
    auto a = nd<u16>(), b = nd<u16>();
    u32 r = stdx::bit_pack<u32>(a, b);
    CHECK(r == a * u32{65536} + b);
    auto p = stdx::bit_unpack<u16>(r);
    CHECK(p.size() == 2);
    CHECK(p[0] == a and p[1] == b);
}
VP_HARNESS(pack_64, 4, q) {
    auto a = nd<u32>(), b = nd<u32>();
    u64 r = stdx::bit_pack<u64>(a, b);
    CHECK((r >> 32) == a);
    CHECK((r & 0xffff'ffffu) == b);
    auto p = stdx::bit_unpack<u32>(r);
    CHECK(p.size() == 2);
    CHECK(p[0] == a and p[1] == b);
}
VP_HARNESS(pack_32_bytes, 6, q) {
    auto x = nd_array<u8, 4>();
    u32 r = stdx::bit_pack<u32>(x[0], x[1], x[2], x[3]);
    unroll<4>([&](auto i) { CHECK(((r >> (24 - 8 * i)) & 0xff) == x[i]); });
    auto p = stdx::bit_unpack<u8>(r);
    CHECK(p.size() == 4);
    CHECK(p == x);
}
VP_HARNESS(pack_64_words, 6, q) {
    auto x = nd_array<u16, 4>();
    u64 r = stdx::bit_pack<u64>(x[0], x[1], x[2], x[3]);
    unroll<4>([&](auto i) { CHECK(((r >> (48 - 16 * i)) & 0xffff) == x[i]); });
    auto p = stdx::bit_unpack<u16>(r);
    CHECK(p.size() == 4);
    CHECK(p == x);
}
VP_HARNESS(pack_64_bytes, 10, q) {
    auto x = nd_array<u8, 8>();
    u64 r = stdx::bit_pack<u64>(x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7]);
    unroll<8>([&](auto i) { CHECK(((r >> (56 - 8 * i)) & 0xff) == x[i]); });
    auto p = stdx::bit_unpack<u8>(r);
    CHECK(p.size() == 8);
    CHECK(p == x);
}
namespace {
template <typename To, typename From> void unpack() {
    auto v = nd<From>();
    auto p = stdx::bit_unpack<To>(v);
    constexpr auto n = sizeof(From) / sizeof(To);
    CHECK(std::is_same_v<decltype(p), std::array<To, n>>);
    unroll<n>([&](auto i) { CHECK(p[i] == static_cast<To>(v >> (8 * sizeof(To) * (n - 1 - i)))); });
}
template <typename T> void swaps() {
    auto v = nd<T>();
    T e{};
    unroll<sizeof(T)>([&](auto i) {
        e = static_cast<T>(e | static_cast<T>((static_cast<u64>(v) >> (8 * i)) & 0xff) << (8 * (sizeof(T) - 1 - i)));
    });
    CHECK(stdx::byteswap(v) == e);
    CHECK(stdx::byteswap(stdx::byteswap(v)) == v);
    // the byte sequence in memory is the named order
    auto be = std::bit_cast<std::array<u8, sizeof(T)>>(stdx::to_be(v));
    auto le = std::bit_cast<std::array<u8, sizeof(T)>>(stdx::to_le(v));
    unroll<sizeof(T)>([&](auto i) {
        CHECK(be[sizeof(T) - 1 - i] == static_cast<u8>(static_cast<u64>(v) >> (8 * i)));
        CHECK(le[i] == static_cast<u8>(static_cast<u64>(v) >> (8 * i)));
    });
    CHECK(stdx::from_be(stdx::to_be(v)) == v);
    CHECK(stdx::from_le(stdx::to_le(v)) == v);
    CHECK(stdx::to_be(stdx::from_be(v)) == v);
    CHECK(stdx::from_be(v) == stdx::to_be(v));
    CHECK(stdx::from_le(v) == stdx::to_le(v));
    CHECK(std::is_same_v<decltype(stdx::to_be(v)), T>);
    CHECK(std::is_same_v<decltype(stdx::from_le(v)), T>);
}
} // namespace
VP_HARNESS(unpack_8_8, 10, q) { unpack<u8, u8>(); }
VP_HARNESS(unpack_16_8, 10, q) { unpack<u8, u16>(); }
VP_HARNESS(unpack_16_16, 10, q) { unpack<u16, u16>(); }
VP_HARNESS(unpack_32_8, 10, q) { unpack<u8, u32>(); }
VP_HARNESS(unpack_32_16, 10, q) { unpack<u16, u32>(); }
VP_HARNESS(unpack_64_8, 10, q) { unpack<u8, u64>(); }
VP_HARNESS(unpack_64_16, 10, q) { unpack<u16, u64>(); }
VP_HARNESS(unpack_64_32, 10, q) { unpack<u32, u64>(); }
VP_HARNESS(unpack_64_64, 10, q) { unpack<u64, u64>(); }
VP_HARNESS(swap_8, 4, q) { swaps<u8>(); }
VP_HARNESS(swap_16, 4, q) { swaps<u16>(); }
VP_HARNESS(swap_32, 4, q) { swaps<u32>(); }
VP_HARNESS(swap_64, 4, q) { swaps<u64>(); }
VP_HARNESS(swap_ul, 4, q) { swaps<unsigned long long>(); }
VP_HARNESS(cast, 4, q) {
    auto v = nd<u32>();
    CHECK(stdx::bit_cast<u32>(stdx::bit_cast<float>(v)) == v);
    auto s = stdx::bit_cast<std::int32_t>(v);
    CHECK(static_cast<u32>(s) == v);
    auto a = stdx::bit_cast<std::array<u8, 4>>(v);
    CHECK(stdx::bit_cast<u32>(a) == v);
}

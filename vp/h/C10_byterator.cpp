// Reads, writes and movement of a byterator over an arbitrary buffer.
// VP-CONFIG a: -std=c++20 -DPART=1
// VP-CONFIG b: -std=c++20 -DPART=2
// VP-CONFIG c: -std=c++20 -DPART=3
#include "vp.hpp"
#include <bit>
#include <cstring>
#include <iterator>
#include <memory>
#include <utility>
#include <stdx/byterator.hpp>
using namespace vp;
using u8 = std::uint8_t;
using u16 = std::uint16_t;
using u32 = std::uint32_t;
using u64 = std::uint64_t;

namespace {
struct three { u8 a, b, c; };
struct ten { u16 a[5]; };
enum struct tag : u16 {};

constexpr std::size_t L = 12;
template <typename E> struct buffer {
    alignas(16) std::array<E, L / sizeof(E)> data;
    std::array<u8, L> bytes; // model: the bytes that are expected
    buffer() {
        bytes = nd_array<u8, L>();
        std::memcpy(data.data(), bytes.data(), L);
    }
    auto base() -> unsigned char * { return reinterpret_cast<unsigned char *>(data.data()); }
    void same() {
        unroll<L>([&](auto i) { CHECK(base()[i] == bytes[i]); });
    }
};
template <typename V> auto from(std::array<u8, L> const &b, std::size_t at) -> std::array<u8, sizeof(V)> {
    std::array<u8, sizeof(V)> r{};
    unroll<sizeof(V)>([&](auto i) { r[i] = b[at + i]; });
    return r;
}
template <typename V> auto raw(V const &v) { return std::bit_cast<std::array<u8, sizeof(V)>>(v); }

// peek, read and write of V at an arbitrary byte offset
template <typename E, typename V> void access_at() {
    buffer<E> b{};
    auto const start = stdx::byterator{b.data.begin()};
    auto it = start;
    auto const o = small(L - sizeof(V) + 1);
    it += o;
    auto const p = it.template peek<V>();
    CHECK(raw(p) == from<V>(b.bytes, o));
    CHECK(it - start == o);
    auto const r = it.template read<V>();
    CHECK(raw(r) == from<V>(b.bytes, o));
    CHECK(it - start == o + static_cast<std::ptrdiff_t>(sizeof(V)));
    b.same();
    it -= sizeof(V);
    auto const w = nd_array<u8, sizeof(V)>();
    auto const v = std::bit_cast<V>(w);
    it.write(v);
    CHECK(it - start == o + static_cast<std::ptrdiff_t>(sizeof(V)));
    unroll<sizeof(V)>([&](auto i) { b.bytes[o + i] = w[i]; });
    b.same();
    COVER(o == L - sizeof(V));
    COVER(o == 1);
}
template <typename E> void walk() {
    buffer<E> b{};
    auto const start = stdx::byterator{b.data.begin()};
    auto it = start;
    std::ptrdiff_t at{};
    unroll<4>([&](auto) {
        auto const d = static_cast<std::ptrdiff_t>(small(2 * L + 1)) - static_cast<std::ptrdiff_t>(L);
        auto const op = small(9);
        auto const one = static_cast<std::ptrdiff_t>(1);
        auto const to = op == 0 or op == 1   ? at + one
                        : op == 2 or op == 3 ? at - one
                        : op == 6            ? at - d
                        : op == 8            ? at + 2
                                             : at + d;
        ASSUME(to >= 0 and to <= static_cast<std::ptrdiff_t>(L));
        if (op == 0) {
            auto &r = ++it;
            CHECK(&r == &it);
        } else if (op == 1) {
            auto old = it++;
            CHECK(old - start == at);
        } else if (op == 2) {
            auto &r = --it;
            CHECK(&r == &it);
        } else if (op == 3) {
            auto old = it--;
            CHECK(old - start == at);
        } else if (op == 4) {
            auto &&r = (it += d);
            CHECK(&r == &it);
        } else if (op == 5) {
            auto &&r = it.advance(d);
            CHECK(&r == &it);
        } else if (op == 6) {
            auto &&r = (it -= d);
            CHECK(&r == &it);
        } else if (op == 7) {
            CHECK((it + d) == (d + it));
            CHECK(((it + d) - d) == it);
            it = it + d;
        } else {
            auto &&r = it.template advance<u16>();
            CHECK(&r == &it);
        }
        at = to;
        CHECK(it - start == at);
        if (at < static_cast<std::ptrdiff_t>(L)) {
            CHECK(static_cast<u8>(*it) == b.bytes[static_cast<std::size_t>(at)]);
            CHECK(static_cast<void *>(&*it) == static_cast<void *>(b.base() + at));
        }
    });
    b.same();
}
template <typename E> void compare() {
    buffer<E> b{};
    auto const start = stdx::byterator{b.data.begin()};
    auto const i = static_cast<std::ptrdiff_t>(small(L + 1));
    auto const j = static_cast<std::ptrdiff_t>(small(L + 1));
    auto const x = start + i;
    auto const y = start + j;
    CHECK((x == y) == (i == j));
    CHECK((x != y) == (i != j));
    CHECK((x < y) == (i < j));
    CHECK((x <= y) == (i <= j));
    CHECK((x > y) == (i > j));
    CHECK((x >= y) == (i >= j));
    CHECK(x - y == i - j);
    // against an iterator of the sequence
    auto const k = static_cast<std::ptrdiff_t>(small(L / sizeof(E) + 1));
    auto const z = b.data.begin() + k;
    auto const zb = k * static_cast<std::ptrdiff_t>(sizeof(E));
    CHECK((x == z) == (i == zb));
    CHECK((z == x) == (i == zb));
    CHECK((x < z) == (i < zb));
    CHECK((x > z) == (i > zb));
    CHECK((x <= z) == (i <= zb));
    CHECK((z < x) == (zb < i));
    // index
    if (i + j < static_cast<std::ptrdiff_t>(L)) {
        auto m = x;
        CHECK(static_cast<u8>(m[j]) == b.bytes[static_cast<std::size_t>(i + j)]);
        CHECK(static_cast<u8>(x[j]) == b.bytes[static_cast<std::size_t>(i + j)]);
        auto const v = nd<u8>();
        m[j] = static_cast<std::byte>(v);
        CHECK(m == x);
        b.bytes[static_cast<std::size_t>(i + j)] = v;
    }
    if (i < static_cast<std::ptrdiff_t>(L)) {
        auto const v = nd<u8>();
        *x = static_cast<std::byte>(v);
        b.bytes[static_cast<std::size_t>(i)] = v;
        CHECK(x.operator->() == adr(*x));
    }
    b.same();
}
template <typename V> void align() {
    alignas(16) std::array<u8, 64> a{};
    auto const start = stdx::byterator{a.begin()};
    auto const o = static_cast<std::ptrdiff_t>(small(32)) + 16;
    auto const n = static_cast<std::ptrdiff_t>(small(5)) - 2;
    constexpr auto s = static_cast<std::ptrdiff_t>(sizeof(V));
    auto const first = (o + s - 1) / s * s;
    auto it = start + o;
    auto &&r = it.template advance_to_alignment<V>(n);
    CHECK(&r == &it);
    CHECK(it - start == first + n * s);
    auto at0 = start + o;
    at0.template advance_to_alignment<V>();
    CHECK(at0 - start == first);
    at0.template advance_to_alignment<V>();
    CHECK(at0 - start == first);
    COVER(o % s == s - 1 and n == -2);
}
} // namespace

#if PART == 1
VP_HARNESS(access_u8_u8, 14, q) { access_at<u8, u8>(); }
VP_HARNESS(access_u8_u32, 14, q) { access_at<u8, u32>(); }
VP_HARNESS(access_u16_u64, 14, q) { access_at<u16, u64>(); }
VP_HARNESS(access_u32_u16, 14, q) { access_at<u32, u16>(); }
VP_HARNESS(access_u32_three, 14, q) { access_at<u32, three>(); }
VP_HARNESS(access_u32_ten, 14, q) { access_at<u32, ten>(); }
VP_HARNESS(access_u8_tag, 14, q) { access_at<u8, tag>(); }
VP_HARNESS(access_u8_i32, 14, q) { access_at<u8, std::int32_t>(); }
#elif PART == 2
VP_HARNESS(walk_u8, 14, q) { walk<u8>(); }
VP_HARNESS(walk_u32, 14, q) { walk<u32>(); }
VP_HARNESS(compare_u8, 14, q) { compare<u8>(); }
VP_HARNESS(compare_u16, 14, q) { compare<u16>(); }
VP_HARNESS(compare_u32, 14, q) { compare<u32>(); }
VP_HARNESS(align_u8, 14, q) { align<u8>(); }
VP_HARNESS(align_u16, 14, q) { align<u16>(); }
VP_HARNESS(align_u32, 14, q) { align<u32>(); }
VP_HARNESS(align_u64, 14, q) { align<u64>(); }
#else
namespace {
template <unsigned W> struct sized_calls;
#define SIZED(W)                                                               \
    template <> struct sized_calls<W> {                                        \
        static auto peek(auto &i) { return i.peeku##W(); }                     \
        static auto read(auto &i) { return i.readu##W(); }                     \
        template <typename R> static auto peek_as(auto &i) { return i.template peeku##W<R>(); } \
        template <typename R> static auto read_as(auto &i) { return i.template readu##W<R>(); } \
        static auto &advance(auto &i) { return i.advanceu##W(); }              \
        static void write(auto &i, auto v) { i.writeu##W(v); }                 \
        using type = std::uint##W##_t;                                         \
    };
SIZED(8)
SIZED(16)
SIZED(32)
SIZED(64)
template <unsigned W> void named() {
    using C = sized_calls<W>;
    using T = typename C::type;
    buffer<u8> b{};
    auto const start = stdx::byterator{b.data.begin()};
    auto const o = static_cast<std::ptrdiff_t>(small(L - sizeof(T) + 1));
    constexpr auto s = static_cast<std::ptrdiff_t>(sizeof(T));
    auto const e = std::bit_cast<T>(from<T>(b.bytes, static_cast<std::size_t>(o)));
    auto it = start + o;
    CHECK(std::is_same_v<decltype(C::peek(it)), T>);
    CHECK(std::is_same_v<decltype(C::read(it)), T>);
    CHECK(C::peek(it) == e);
    CHECK(it - start == o);
    CHECK(C::read(it) == e);
    CHECK(it - start == o + s);
    it = start + o;
    CHECK(C::template peek_as<u64>(it) == e);
    CHECK(it - start == o);
    CHECK(C::template read_as<u16>(it) == static_cast<u16>(e));
    CHECK(it - start == o + s);
    enum struct other : T {};
    it = start + o;
    CHECK(C::template read_as<other>(it) == static_cast<other>(e));
    it = start + o;
    auto &&r = C::advance(it);
    CHECK(&r == &it);
    CHECK(it - start == o + s);
    b.same();
    // only the low part of what is given is written
    it = start + o;
    auto const v = nd<u64>();
    C::write(it, v);
    CHECK(it - start == o + s);
    unroll<sizeof(T)>([&](auto i) { b.bytes[static_cast<std::size_t>(o) + i] = static_cast<u8>(v >> (8 * i)); });
    b.same();
}
} // namespace
VP_HARNESS(named_8, 14, q) { named<8>(); }
VP_HARNESS(named_16, 14, q) { named<16>(); }
VP_HARNESS(named_32, 14, q) { named<32>(); }
VP_HARNESS(named_64, 14, q) { named<64>(); }
// places far from the start
VP_HARNESS(far, 14, q) {
    std::array<u8, 700> data{};
    auto const start = stdx::byterator{data.begin()};
    auto const v = nd<u32>();
    for (std::ptrdiff_t const d : {127, 128, 255, 256, 300, 511, 640}) {
        auto it = start + d;
        CHECK(it - start == d and start - it == -d);
        CHECK(static_cast<void *>(&*it) == static_cast<void *>(data.data() + d));
        CHECK(it > start and start < it and it != start);
        CHECK(it == data.begin() + d);
        CHECK((it - d) == start);
        it.write(v);
        CHECK(it - start == d + 4);
        it -= 4;
        CHECK(it.template peek<u32>() == v);
        CHECK(it.template read<u32>() == v);
        it -= d;
        CHECK(it - start == 4);
        it.advance(d);
        CHECK(it - start == d + 4);
    }
    CHECK(data[126] == 0 and data[132] == 0 and data[254] == 0 and data[299] == 0 and data[304] == 0 and data[510] == 0);
}
VP_HARNESS(two_writes, 14, q) {
    buffer<u16> b{};
    auto it = stdx::byterator{b.data.begin()};
    auto const x = nd<u8>();
    auto const y = nd<u32>();
    auto const z = nd<u16>();
    it.write(x);
    it.write(y);
    it.write(z);
    b.bytes[0] = x;
    unroll<4>([&](auto i) { b.bytes[1 + i] = static_cast<u8>(y >> (8 * i)); });
    b.bytes[5] = static_cast<u8>(z);
    b.bytes[6] = static_cast<u8>(z >> 8);
    b.same();
    auto back = stdx::byterator{b.data.begin()};
    CHECK(back.read<u8>() == x);
    CHECK(back.read<u32>() == y);
    CHECK(back.peek<u16>() == z);
    CHECK(back.readu16() == z);
    CHECK(back == it);
}
VP_HARNESS(read_only, 14, q) {
    buffer<u16> b{};
    auto const &cd = b.data;
    auto it = stdx::byterator{cd.begin()};
    auto const start = it;
    auto const o = static_cast<std::ptrdiff_t>(small(9));
    it += o;
    CHECK(std::is_same_v<decltype(*it), std::byte const &>);
    CHECK(it.peek<u32>() == std::bit_cast<u32>(from<u32>(b.bytes, static_cast<std::size_t>(o))));
    CHECK(it.read() == b.bytes[static_cast<std::size_t>(o)]);
    CHECK(it - start == o + 1);
    b.same();
    auto p = stdx::byterator{cd.data() + 1};
    CHECK(p - start == 2);
    CHECK(p.peek() == b.bytes[2]);
}
#endif
// the element at a distance, in both directions
VP_HARNESS(subscript, 14, q) {
    auto data = nd_array<u8, 12>();
    auto const i = static_cast<std::ptrdiff_t>(below<u8>(13));
    auto const j = static_cast<std::ptrdiff_t>(below<u8>(12));
    auto it = stdx::byterator{data.begin()} + i;
    auto const fixed = it;
    CHECK(static_cast<u8>(it[j - i]) == data[static_cast<std::size_t>(j)]);
    CHECK(static_cast<u8>(fixed[j - i]) == data[static_cast<std::size_t>(j)]);
    CHECK(static_cast<void const *>(&it[j - i]) == static_cast<void const *>(data.data() + j));
    CHECK(static_cast<void const *>(&fixed[j - i]) == static_cast<void const *>(data.data() + j));
    auto const v = nd<u8>();
    it[j - i] = static_cast<std::byte>(v);
    CHECK(data[static_cast<std::size_t>(j)] == v);
    CHECK(it == fixed);
}

// Iteration, lowest_unset and transform_reduce over arbitrary contents.
// VP-CONFIG a: -std=c++20 -DPART=1
// VP-CONFIG b: -std=c++20 -DPART=2
// VP-CONFIG c: -std=c++20 -DPART=3
// VP-CONFIG d: -std=c++20 -DPART=4
// VP-CONFIG t_e: -std=c++20 -DPART=5
// VP-CONFIG f: -std=c++20 -DPART=6
#include "bitset_word.hpp"
using namespace vp;

namespace {
// the calls made by for_each, checked one by one against the content
template <std::size_t N> struct visitor {
    word<N> todo;      // positions still expected
    std::size_t calls{};

    void operator()(std::size_t i) {
        CHECK(i < N);
        auto const bit = word<N>{1} << (i % N);
        CHECK((todo & bit) != 0);                 // expected, and not seen before
        CHECK((todo & (bit - 1)) == 0);           // nothing smaller was skipped
        todo &= ~bit;
        ++calls;
    }
};

// at most `limit` positions set (or unset)
template <typename B, std::size_t N = B::capacity> auto few(word<N> &v, unsigned limit, bool unset) -> B {
    B b{};
    v = 0;
    unroll<4>([&](auto k) {
        if (k < limit) {
            auto i = small(N);
            b.set(i);
            v |= word<N>{1} << i;
        }
    });
    if (unset) {
        b.flip();
        v = ~v & mask<N>();
    }
    same(b, v);
    return b;
}
template <typename B, std::size_t N = B::capacity> void iterate(unsigned limit = N) {
    word<N> v{};
    auto const b = limit < N ? few<B>(v, limit, false) : arbitrary<B>(v);
    auto r = stdx::for_each(visitor<N>{v}, b);
    CHECK(r.todo == 0);
    if (limit == N) {
        visitor<N> lv{v};
        auto &&back = stdx::for_each(lv, b);
        CHECK(&back == &lv);
        CHECK(lv.todo == 0 and lv.calls == r.calls);
        same(b, v);
    }
}
template <typename B, std::size_t N = B::capacity> void iterate_unset(unsigned limit = N) {
    word<N> v{};
    auto const b = limit < N ? few<B>(v, limit, true) : arbitrary<B>(v);
    word<N> const u = ~v & mask<N>();
    auto r = stdx::for_each<stdx::unset_bit>(visitor<N>{u}, b);
    CHECK(r.todo == 0);
}
template <typename B, std::size_t N = B::capacity> void iterate_all() {
    word<N> v{};
    auto const b = arbitrary<B>(v);
    std::size_t next{};
    stdx::for_each<stdx::bit>(
        [&](std::size_t i, bool x) {
            CHECK(i == next);
            CHECK(x == (((v >> (i % N)) & 1u) != 0));
            ++next;
        },
        b);
    CHECK(next == N);
}
template <typename B, std::size_t N = B::capacity> void lowest() {
    word<N> v{};
    auto const b = arbitrary<B>(v);
    std::size_t const l = b.lowest_unset();
    CHECK(l <= N);
    CHECK((v & ((word<N>{1} << (l % N)) - 1)) == ((word<N>{1} << (l % N)) - 1) or l == N);
    CHECK(l == N ? v == mask<N>() : ((v >> (l % N)) & 1u) == 0);
    COVER(l == N);
    COVER(l == N - 1);
    COVER(l == 0);
}
// every call of the transform and of the (non-commutative, arbitrary) reduction is checked
template <typename B, std::size_t N = B::capacity> void reduce(unsigned limit = N) {
    word<N> v{};
    auto const b = limit < N ? few<B>(v, limit, false) : arbitrary<B>(v);
    auto const init = nd<std::uint16_t>();
    visitor<N> vis{v};
    std::uint16_t acc{init};
    std::uint16_t fresh{};
    std::size_t reductions{};
    auto r = stdx::transform_reduce(
        [&](std::size_t i) -> std::uint16_t {
            vis(i);
            return fresh = nd<std::uint16_t>();
        },
        [&](std::uint16_t x, std::uint16_t y) -> std::uint16_t {
            CHECK(x == acc);
            CHECK(y == fresh);
            ++reductions;
            return acc = nd<std::uint16_t>();
        },
        init, b);
    CHECK(vis.todo == 0);
    CHECK(vis.calls == reductions);
    CHECK(r == acc);
}
// more positions than a byte can count, with one or two bits set (or unset)
template <typename B, std::size_t N = B::capacity> void large() {
    std::size_t const i = below<std::size_t>(N);
    std::size_t const k = below<std::size_t>(N);
    ASSUME(i < k);
    B b{};
    b.set(i);
    b.set(k);
    std::size_t calls{};
    stdx::for_each([&](std::size_t x) { CHECK(x == (calls == 0 ? i : k)); ++calls; }, b);
    CHECK(calls == 2);
    auto const sum = stdx::transform_reduce([](std::size_t x) { return x; },
                                            [](std::size_t x, std::size_t y) { return x * 1024u + y; }, std::size_t{1}, b);
    CHECK(sum == (1024u + i) * 1024u + k);
    CHECK(b.lowest_unset() == (i == 0 ? (k == 1 ? 2u : 1u) : 0u));
    b.flip();
    calls = 0;
    stdx::for_each<stdx::unset_bit>([&](std::size_t x) { CHECK(x == (calls == 0 ? i : k)); ++calls; }, b);
    CHECK(calls == 2);
    CHECK(b.lowest_unset() == i);
    B full{};
    full.set();
    CHECK(full.lowest_unset() == N);
    full.reset(i);
    CHECK(full.lowest_unset() == i);
    COVER(k == N - 1 and i == N - 2);
}
enum struct E : std::uint8_t { A, B, C, D, MAX };
} // namespace

#define ITER(NAME, UNW, TIER, ...)                                                          \
    VP_HARNESS(set_##NAME, UNW, TIER) { iterate<stdx::bitset<__VA_ARGS__>>(); }             \
    VP_HARNESS(unset_##NAME, UNW, TIER) { iterate_unset<stdx::bitset<__VA_ARGS__>>(); }     \
    VP_HARNESS(each_##NAME, UNW, TIER) { iterate_all<stdx::bitset<__VA_ARGS__>>(); }        \
    VP_HARNESS(lowest_##NAME, UNW, TIER) { lowest<stdx::bitset<__VA_ARGS__>>(); }           \
    VP_HARNESS(reduce_##NAME, UNW, TIER) { reduce<stdx::bitset<__VA_ARGS__>>(); }
// sparse (respectively nearly full) contents only
#define SPARSE(NAME, LIM, UNW, EUNW, TIER, ...)                                                \
    VP_HARNESS(set_##NAME, UNW, TIER) { iterate<stdx::bitset<__VA_ARGS__>>(LIM); }          \
    VP_HARNESS(unset_##NAME, UNW, TIER) { iterate_unset<stdx::bitset<__VA_ARGS__>>(LIM); }  \
    VP_HARNESS(each_##NAME, EUNW, TIER) { iterate_all<stdx::bitset<__VA_ARGS__>>(); }       \
    VP_HARNESS(lowest_##NAME, UNW, TIER) { lowest<stdx::bitset<__VA_ARGS__>>(); }           \
    VP_HARNESS(reduce_##NAME, UNW, TIER) { reduce<stdx::bitset<__VA_ARGS__>>(LIM); }

#if PART == 1
ITER(1, 12, q, 1)
ITER(6, 12, q, 6)
ITER(8, 12, q, 8)
ITER(11_u8, 12, q, 11, std::uint8_t)
ITER(17_u8, 12, q, 17, std::uint8_t)
#elif PART == 2
ITER(12, 20, q, 12)
ITER(16, 20, q, 16)
ITER(19_u16, 20, q, 19, std::uint16_t)
VP_HARNESS(enumeration, 8, q) {
    auto v = static_cast<std::uint64_t>(small(16));
    stdx::bitset<E::MAX> b{v};
    visitor<4> vis{v};
    stdx::for_each([&](E e) { vis(static_cast<std::size_t>(e)); }, b);
    CHECK(vis.todo == 0);
    visitor<4> uvis{~v & 15u};
    stdx::for_each<stdx::unset_bit>([&](E e) { uvis(static_cast<std::size_t>(e)); }, b);
    CHECK(uvis.todo == 0);
    auto l = static_cast<std::size_t>(b.lowest_unset());
    CHECK(v == 15 ? l == 4 : ((v >> l) & 1u) == 0 and (v & ((1u << l) - 1)) == (1u << l) - 1);
    auto sum = stdx::transform_reduce([](E e) { return 1u << static_cast<unsigned>(e); },
                                      [](unsigned a, unsigned x) { return a + x; }, 0u, b);
    CHECK(sum == v);
}
VP_HARNESS(empty, 8, q) {
    stdx::bitset<0> b{};
    unsigned calls{};
    stdx::for_each([&](std::size_t) { ++calls; }, b);
    stdx::for_each<stdx::unset_bit>([&](std::size_t) { ++calls; }, b);
    stdx::for_each<stdx::bit>([&](std::size_t, bool) { ++calls; }, b);
    CHECK(b.lowest_unset() == 0);
    auto i = nd<int>();
    CHECK(stdx::transform_reduce([&](std::size_t) { ++calls; return 1; }, [](int a, int x) { return a ^ x; }, i, b) == i);
    CHECK(calls == 0);
}
#elif PART == 3
SPARSE(32, 3, 6, 34, q, 32)
SPARSE(45_u32, 2, 6, 34, q, 45, std::uint32_t)
SPARSE(27, 3, 6, 34, q, 27)
#elif PART == 4
SPARSE(64, 2, 6, 66, q, 64)
SPARSE(51, 2, 6, 66, q, 51)
VP_HARNESS(lowest_70, 6, q) { lowest<stdx::bitset<70>>(); }
VP_HARNESS(lowest_128, 6, q) { lowest<stdx::bitset<128>>(); }
VP_HARNESS(each_70, 66, q) { iterate_all<stdx::bitset<70>>(); }
#elif PART == 5
SPARSE(32, 4, 6, 34, t, 32)
SPARSE(45_u32, 4, 6, 34, t, 45, std::uint32_t)
SPARSE(64, 4, 6, 66, t, 64)
SPARSE(51, 4, 6, 66, t, 51)
#elif PART == 6
VP_HARNESS(large_300, 8, q) { large<stdx::bitset<300>>(); }
VP_HARNESS(large_260_u32, 12, q) { large<stdx::bitset<260, std::uint32_t>>(); }
#endif

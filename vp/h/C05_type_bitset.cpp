// Sets indexed by type behave like a set of positions of the distinct types.
// VP-CONFIG a: -std=c++20 -DPART=1
// VP-CONFIG b: -std=c++20 -DPART=2
// VP-CONFIG c: -std=c++20 -DPART=3
#include "bitset_word.hpp"
#include <stdx/type_traits.hpp>
#include <stdx/utility.hpp>
using namespace vp;

namespace {
template <int> struct tag;
template <typename T> using id = stdx::type_identity<T>;
template <typename> struct number;
template <int I> struct number<tag<I>> { constexpr static std::size_t value = I; };

template <typename B, typename... Ts> auto contents_of(B const &b) -> std::uint64_t {
    std::uint64_t r{}, i{};
    ((r |= std::uint64_t{b[id<Ts>{}]} << i++), ...);
    return r;
}
// Ts: the distinct types in order
template <typename B, typename... Ts> struct suite {
    constexpr static std::size_t N = sizeof...(Ts);
    constexpr static std::uint64_t full = mask<N>();

    static auto any(std::uint64_t &v) -> B {
        auto const x = nd<std::uint64_t>();
        v = x & full;
        B b{x};
        if (vp_bool()) {
            b.flip();
            v = ~v & full;
        }
        CHECK((contents_of<B, Ts...>(b) == v));
        return b;
    }
    static void same(B const &b, std::uint64_t v) { CHECK((contents_of<B, Ts...>(b) == v)); }

    template <typename T> static void one() {
        constexpr auto i = number<T>::value;
        std::uint64_t v{};
        auto b = any(v);
        switch (small(5)) {
        case 0: CHECK(adr(b.template set<T>()) == &b); v |= 1ull << i; break;
        case 1: {
            bool const x = vp_bool() != 0;
            b.template set<T>(x);
            v = (v & ~(1ull << i)) | (std::uint64_t{x} << i);
        } break;
        case 2: CHECK(adr(b.template reset<T>()) == &b); v &= ~(1ull << i); break;
        case 3: b.template clear<T>(); v &= ~(1ull << i); break;
        default: CHECK(adr(b.template flip<T>()) == &b); v ^= 1ull << i; break;
        }
        same(b, v);
    }
    template <typename T, typename U> static void two() {
        constexpr auto m = (1ull << number<T>::value) | (1ull << number<U>::value);
        std::uint64_t v{};
        auto b = any(v);
        switch (small(4)) {
        case 0: b.template set<T, U>(); v |= m; break;
        case 1: b.template set<T, U>(false); v &= ~m; break;
        case 2: b.template reset<T, U>(); v &= ~m; break;
        default: b.template flip<T, U>(); v ^= m; break;
        }
        same(b, v);
        B const l{stdx::type_list<T, U>{}};
        same(l, m);
    }
    template <typename... Us> static void several() {
        constexpr auto m = ((1ull << number<Us>::value) | ...);
        std::uint64_t v{};
        auto b = any(v);
        switch (small(5)) {
        case 0: CHECK(adr(b.template set<Us...>()) == &b); v |= m; break;
        case 1: {
            bool const x = vp_bool() != 0;
            b.template set<Us...>(x);
            v = (v & ~m) | (x ? m : 0);
        } break;
        case 2: CHECK(adr(b.template reset<Us...>()) == &b); v &= ~m; break;
        case 3: b.template clear<Us...>(); v &= ~m; break;
        default: CHECK(adr(b.template flip<Us...>()) == &b); v ^= m; break;
        }
        same(b, v);
        B const l{stdx::type_list<Us...>{}};
        same(l, m);
    }
    static void queries() {
        std::uint64_t v{};
        auto const b = any(v);
        CHECK(b.count() == static_cast<std::size_t>(__builtin_popcountll(v)));
        CHECK(b.size() == b.count());
        CHECK(b.empty() == (v == 0));
        CHECK(b.none() == (v == 0));
        CHECK(b.any() == (v != 0));
        CHECK(b.all() == (v == full));
        CHECK(b.to_natural() == v);
        if constexpr (N <= 32) { CHECK(b.template to<std::uint32_t>() == v); }
        CHECK(B::capacity() == N);
        same(~b, ~v & full);
        same(B{stdx::all_bits}, full);
        same(B{}, 0);
        auto c = b;
        c.set(); same(c, full);
        c.reset(); same(c, 0);
        c.flip(); same(c, full);
        c.clear(); same(c, 0);
    }
    static void binary() {
        std::uint64_t v{}, w{};
        auto const b = any(v);
        auto const c = any(w);
        same(b | c, v | w);
        same(b & c, v & w);
        same(b ^ c, v ^ w);
        same(b - c, v & ~w);
        CHECK((b == c) == (v == w));
        CHECK((b != c) == (v != w));
        auto d = b;
        CHECK(&(d |= c) == &d); same(d, v | w);
        d = b; CHECK(&(d &= c) == &d); same(d, v & w);
        d = b; CHECK(&(d ^= c) == &d); same(d, v ^ w);
    }
    struct visitor {
        std::uint64_t *todo;
        std::size_t *calls;
        template <typename T, std::size_t I> void operator()() {
            CHECK((number<T>::value == I));
            CHECK((*todo & (1ull << I)) != 0);
            CHECK((*todo & ((1ull << I) - 1)) == 0);
            *todo &= ~(1ull << I);
            ++*calls;
        }
    };
    static void iterate() {
        std::uint64_t v{};
        auto const b = any(v);
        std::uint64_t todo{v};
        std::size_t calls{};
        b.for_each(visitor{&todo, &calls});
        CHECK(todo == 0);
        todo = ~v & full;
        b.template for_each<stdx::unset_bit>(visitor{&todo, &calls});
        CHECK(todo == 0);
        CHECK(calls == N);
        same(b, v);
    }
};
using t0 = tag<0>; using t1 = tag<1>; using t2 = tag<2>; using t3 = tag<3>; using t4 = tag<4>;
using t5 = tag<5>; using t6 = tag<6>; using t7 = tag<7>; using t8 = tag<8>; using t9 = tag<9>;
using s1 = suite<stdx::type_bitset<t0>, t0>;
using s5 = suite<stdx::type_bitset<t0, t1, t2, t3, t4>, t0, t1, t2, t3, t4>;
using s10 = suite<stdx::type_bitset<t0, t1, t2, t3, t4, t5, t6, t7, t8, t9>, t0, t1, t2, t3, t4, t5, t6, t7, t8, t9>;
template <typename> struct up_to;
template <std::size_t... Is> struct up_to<std::index_sequence<Is...>> {
    using bits = stdx::type_bitset<tag<static_cast<int>(Is)>...>;
    using tests = suite<bits, tag<static_cast<int>(Is)>...>;
};
using s40 = typename up_to<std::make_index_sequence<40>>::tests;
using many = typename up_to<std::make_index_sequence<70>>::bits;
// repeated types count once, at the place of their first occurrence
using d3 = suite<stdx::type_bitset<t0, t0, t1, t0, t2, t1>, t0, t1, t2>;
using d2 = suite<stdx::type_bitset<t0, t0, t1>, t0, t1>;
using d4 = suite<stdx::type_bitset<t0, t1, t1, t2, t3, t2>, t0, t1, t2, t3>;
} // namespace

#if PART == 1
VP_HARNESS(one_1, 4, q) { s1::one<t0>(); }
VP_HARNESS(one_5a, 4, q) { s5::one<t0>(); }
VP_HARNESS(one_5b, 4, q) { s5::one<t2>(); }
VP_HARNESS(one_5c, 4, q) { s5::one<t4>(); }
VP_HARNESS(one_10, 4, q) { s10::one<t9>(); }
VP_HARNESS(two_5, 4, q) { s5::two<t3, t1>(); }
VP_HARNESS(two_10, 4, q) { s10::two<t8, t2>(); }
VP_HARNESS(several_5, 4, q) { s5::several<t3, t0, t4>(); }
VP_HARNESS(several_10, 4, q) { s10::several<t1, t9, t0, t5, t6>(); }
VP_HARNESS(several_all, 4, q) { s5::several<t4, t3, t2, t1, t0>(); }
VP_HARNESS(queries_1, 4, q) { s1::queries(); }
VP_HARNESS(queries_5, 4, q) { s5::queries(); }
VP_HARNESS(queries_10, 4, q) { s10::queries(); }
VP_HARNESS(binary_5, 4, q) { s5::binary(); }
VP_HARNESS(binary_10, 4, q) { s10::binary(); }
VP_HARNESS(iterate_1, 4, q) { s1::iterate(); }
VP_HARNESS(iterate_5, 8, q) { s5::iterate(); }
VP_HARNESS(iterate_10, 12, q) { s10::iterate(); }
#elif PART == 2
VP_HARNESS(dup_queries, 4, q) { d3::queries(); }
VP_HARNESS(dup_binary, 4, q) { d3::binary(); }
VP_HARNESS(dup_iterate, 6, q) { d3::iterate(); }
VP_HARNESS(dup_one_a, 4, q) { d3::one<t0>(); }
VP_HARNESS(dup_one_d, 4, q) { d2::one<t0>(); }
VP_HARNESS(dup_queries_4, 4, q) { d4::queries(); }
VP_HARNESS(dup_one_4a, 4, q) { d4::one<t1>(); }
VP_HARNESS(dup_one_4b, 4, q) { d4::one<t2>(); }
VP_HARNESS(dup_one_4c, 4, q) { d4::one<t3>(); }
VP_HARNESS(dup_two_4, 4, q) { d4::two<t3, t1>(); }
VP_HARNESS(dup_one_b, 4, q) { d3::one<t1>(); }
VP_HARNESS(dup_one_c, 4, q) { d3::one<t2>(); }
VP_HARNESS(dup_two, 4, q) { d3::two<t2, t1>(); }
#else
VP_HARNESS(one_40a, 42, q) { s40::one<tag<38>>(); }
VP_HARNESS(one_40b, 42, q) { s40::one<tag<32>>(); }
VP_HARNESS(two_40, 42, q) { s40::two<tag<39>, tag<20>>(); }
VP_HARNESS(queries_40, 42, q) { s40::queries(); }
VP_HARNESS(binary_40, 42, q) { s40::binary(); }
// more than a word
VP_HARNESS(seventy, 72, q) {
    auto const x = nd<std::uint64_t>();
    many b{x};
    bool const p = vp_bool() != 0;
    bool const r = vp_bool() != 0;
    b.template set<tag<69>>(p);
    b.template set<tag<65>, tag<66>>(r);
    b.template flip<tag<67>>();
    std::uint64_t const high = (std::uint64_t{p} << 5) | (std::uint64_t{r} << 1) | (std::uint64_t{r} << 2) | 8u;
    bool const all = vp_bool() != 0;
    if (all) { b.flip(); }
    std::uint64_t const lo = all ? ~x : x;
    std::uint64_t const hi = all ? ~high & 63u : high;
    CHECK(many::capacity() == 70);
    unroll<70>([&](auto i) {
        constexpr std::size_t k = i();
        CHECK(b[id<tag<static_cast<int>(k)>>{}] == (((k < 64 ? lo : hi) >> (k % 64)) & 1u));
    });
    CHECK(b.count() == static_cast<std::size_t>(__builtin_popcountll(lo) + __builtin_popcountll(hi)));
    CHECK(b.all() == (~lo == 0 and hi == 63));
    CHECK(b.none() == (lo == 0 and hi == 0));
    many const l{stdx::type_list<tag<68>, tag<1>, tag<63>>{}};
    CHECK(l.count() == 3 and l[id<tag<68>>{}] and l[id<tag<1>>{}] and l[id<tag<63>>{}]);
}
// (which ones are set is fixed here: a choice of seventy functions for each set bit is too much)
VP_HARNESS(visit_seventy, 72, q) {
    many const b{stdx::type_list<tag<68>, tag<1>, tag<63>, tag<64>, tag<33>>{}};
    std::size_t const order[]{1, 33, 63, 64, 68};
    auto const x = nd<std::uint32_t>();
    unsigned seen{};
    std::uint32_t h{x};
    b.for_each([&]<typename T, std::size_t I>() {
        CHECK((number<T>::value == I));
        CHECK(seen < 5 and order[seen] == I);
        ++seen;
        h ^= static_cast<std::uint32_t>(I);
    });
    CHECK(seen == 5 and h == (x ^ 1u ^ 33u ^ 63u ^ 64u ^ 68u));
}
#endif

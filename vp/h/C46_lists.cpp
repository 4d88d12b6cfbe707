// Walking, applying and looking up in lists of types and values: which elements are visited, in
// which order, and what comes out for every position and key.
// VP-CONFIG a: -std=c++20
// VP-CONFIG std23: -std=c++23
// VP-CONFIG lookup: -std=c++20 -DLOOKUP=1
#include "tuple_under_test.hpp"
#include <stdx/type_traits.hpp>
#include <stdx/utility.hpp>
#include <boost/mp11/list.hpp>
using namespace vp;
using u8 = std::uint8_t;
using u16 = std::uint16_t;
using u32 = std::uint32_t;
using u64 = std::uint64_t;

namespace {
template <int N> struct key;
template <int N> struct known { constexpr static int number = N; };

// a hash that depends on every call and on the order
struct walk {
    u64 state;
    unsigned calls{};
    void operator()(u64 x) {
        ++calls;
        state = ((state << 7) | (state >> 57)) ^ x;
    }
};
template <typename... Xs> auto expected(u64 start, Xs... xs) {
    walk w{start};
    (w(static_cast<u64>(xs)), ...);
    return w;
}
bool operator==(walk const &a, walk const &b) { return a.state == b.state and a.calls == b.calls; }

template <typename L> auto types(u64 start, u8 const *vs) {
    walk w{start};
    stdx::template_for_each<L>([&]<typename T>() { w(static_cast<u64>(vs[T::number])); });
    return w;
}
template <typename L> auto values(u64 start, u8 const *vs) {
    walk w{start};
    stdx::template_for_each<L>([&]<auto V>() { w(static_cast<u64>(vs[static_cast<int>(V)])); });
    return w;
}
template <typename L> auto applied_types(u64 start, u8 const *vs, unsigned &calls) {
    return stdx::apply_sequence<L>([&]<typename... Ts>() {
        ++calls;
        return expected(start, vs[Ts::number]...);
    });
}
template <typename L> auto applied_values(u64 start, u8 const *vs, unsigned &calls) {
    return stdx::apply_sequence<L>([&]<auto... Vs>() {
        ++calls;
        return expected(start, vs[static_cast<int>(Vs)]...);
    });
}
} // namespace
VP_HARNESS(walk_types, 2, q) {
    auto const s = nd<u64>();
    auto const v = nd_array<u8, 8>();
    auto const p = v.data();
    CHECK((types<stdx::type_list<>>(s, p) == expected(s)));
    CHECK((types<stdx::type_list<known<3>>>(s, p) == expected(s, v[3])));
    CHECK((types<stdx::type_list<known<3>, known<1>, known<3>, known<0>>>(s, p) == expected(s, v[3], v[1], v[3], v[0])));
    CHECK((types<std::tuple<known<5>, known<4>>>(s, p) == expected(s, v[5], v[4])));
    CHECK((types<boost::mp11::mp_list<known<0>, known<1>, known<2>, known<3>, known<4>, known<5>, known<6>, known<7>>>(
               s, p) == expected(s, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7])));
}
VP_HARNESS(walk_values, 2, q) {
    auto const s = nd<u64>();
    auto const v = nd_array<u8, 8>();
    auto const p = v.data();
    CHECK((values<stdx::value_list<>>(s, p) == expected(s)));
    CHECK((values<stdx::value_list<2>>(s, p) == expected(s, v[2])));
    CHECK((values<stdx::value_list<2, u8{7}, 2ull, true>>(s, p) == expected(s, v[2], v[7], v[2], v[1])));
    CHECK((values<std::integer_sequence<int, 6, 0, 3>>(s, p) == expected(s, v[6], v[0], v[3])));
    CHECK((values<std::make_index_sequence<4>>(s, p) == expected(s, v[0], v[1], v[2], v[3])));
    CHECK((values<std::integer_sequence<u8>>(s, p) == expected(s)));
}
VP_HARNESS(apply_types, 2, q) {
    auto const s = nd<u64>();
    auto const v = nd_array<u8, 8>();
    auto const p = v.data();
    unsigned n{};
    CHECK((applied_types<stdx::type_list<>>(s, p, n) == expected(s)));
    CHECK((applied_types<stdx::type_list<known<3>, known<1>, known<3>, known<0>>>(s, p, n) ==
           expected(s, v[3], v[1], v[3], v[0])));
    CHECK((applied_types<std::tuple<known<5>, known<4>>>(s, p, n) == expected(s, v[5], v[4])));
    CHECK(n == 3);
}
VP_HARNESS(apply_values, 2, q) {
    auto const s = nd<u64>();
    auto const v = nd_array<u8, 8>();
    auto const p = v.data();
    unsigned n{};
    CHECK((applied_values<stdx::value_list<>>(s, p, n) == expected(s)));
    CHECK((applied_values<stdx::value_list<2, u8{7}, 2ull, true>>(s, p, n) == expected(s, v[2], v[7], v[2], v[1])));
    CHECK((applied_values<std::integer_sequence<int, 6, 0, 3>>(s, p, n) == expected(s, v[6], v[0], v[3])));
    CHECK((applied_values<std::make_index_sequence<4>>(s, p, n) == expected(s, v[0], v[1], v[2], v[3])));
    CHECK(n == 4);
    // the types of the values are kept
    stdx::apply_sequence<stdx::value_list<2, u8{7}, true>>(
        []<auto A, auto B, auto C>() { CHECK((same<std::tuple<std::remove_const_t<decltype(A)>, std::remove_const_t<decltype(B)>,
                                                            std::remove_const_t<decltype(C)>>,
                                                std::tuple<int, u8, bool>>)); });
}
// longer lists
VP_HARNESS(longer, 2, q) {
    auto const s = nd<u64>();
    auto const v = nd_array<u8, 8>();
    auto const p = v.data();
    unsigned n{};
    using ts = stdx::type_list<known<7>, known<6>, known<5>, known<4>, known<3>, known<2>, known<1>, known<0>, known<3>, known<5>, known<7>>;
    auto const e = expected(s, v[7], v[6], v[5], v[4], v[3], v[2], v[1], v[0], v[3], v[5], v[7]);
    CHECK(types<ts>(s, p) == e);
    CHECK(applied_types<ts>(s, p, n) == e);
    CHECK((values<stdx::value_list<7, 6, 5, 4, 3, 2, 1, 0, 3, 5, 7>>(s, p) == e));
    CHECK((applied_values<stdx::value_list<7, 6, 5, 4, 3, 2, 1, 0, 3, 5, 7>>(s, p, n) == e));
    CHECK((values<std::integer_sequence<u8, 7, 6, 5, 4, 3, 2, 1, 0, 3, 5, 7>>(s, p) == e));
    CHECK((applied_values<std::integer_sequence<u8, 7, 6, 5, 4, 3, 2, 1, 0, 3, 5, 7>>(s, p, n) == e));
    CHECK(n == 3);
}
// state kept by the function is the caller's
namespace {
struct counter {
    u8 n{};
    template <typename> void operator()() { ++n; }
    template <auto> void operator()() { ++n; }
};
} // namespace
VP_HARNESS(same_function, 2, q) {
    auto c = counter{nd<u8>()};
    auto const before = c.n;
    stdx::template_for_each<stdx::type_list<int, int, void>>(c);
    CHECK(c.n == static_cast<u8>(before + 3));
    stdx::template_for_each<stdx::value_list<1, 2>>(c);
    CHECK(c.n == static_cast<u8>(before + 5));
    stdx::apply_sequence<stdx::type_list<key<1>>>(c);
    CHECK(c.n == static_cast<u8>(before + 6));
    stdx::template_for_each<std::integer_sequence<int, 4, -1, 4, 0>>(c);
    CHECK(c.n == static_cast<u8>(before + 10));
    stdx::template_for_each<std::make_index_sequence<5>>(c);
    CHECK(c.n == static_cast<u8>(before + 15));
    stdx::apply_sequence<stdx::value_list<3>>(c);
    CHECK(c.n == static_cast<u8>(before + 16));
    stdx::apply_sequence<std::integer_sequence<int, 3>>(c);
    CHECK(c.n == static_cast<u8>(before + 17));
}
namespace {
template <u32... Vs> auto nth_of(std::size_t k) {
    u32 r{};
    unroll<sizeof...(Vs)>([&](auto i) {
        if (k == i) { r = stdx::nth_v<i(), Vs...>; }
    });
    return r;
}
template <typename... Ts> auto nth_number(std::size_t k) {
    int r{};
    unroll<sizeof...(Ts)>([&](auto i) {
        if (k == i) { r = stdx::nth_t<i(), Ts...>::number; }
    });
    return r;
}
} // namespace
VP_HARNESS(nth, 22, q) {
    auto const k = below<std::size_t>(20);
    u32 const vs[]{9, 0, 0xffff'ffffu, 17, 9, 1, 2, 3, 4, 60, 50, 40, 30, 31, 29, 28, 90, 91, 92, 5};
    int const ns[]{4, 4, 2, 9, 0, 7, 7, 1, 3, 5, 6, 8, 2, 4, 9, 0, 1, 7, 3, 6};
    CHECK((nth_of<9, 0, 0xffff'ffffu, 17, 9, 1, 2, 3, 4, 60, 50, 40, 30, 31, 29, 28, 90, 91, 92, 5>(k) == vs[k]));
    CHECK((nth_number<known<4>, known<4>, known<2>, known<9>, known<0>, known<7>, known<7>, known<1>, known<3>, known<5>, known<6>, known<8>,
                      known<2>, known<4>, known<9>, known<0>, known<1>, known<7>, known<3>, known<6>>(k) == ns[k]));
    CHECK((same<decltype(stdx::nth_v<1, 1, u8{2}, true>), u8 const>));
    CHECK((stdx::nth_v<2, 1, u8{2}, true>));
    CHECK((same<stdx::nth_t<1, int &, void, u8>, void>));
    CHECK((same<stdx::nth_t<0, int const &, void>, int const &>));
}
namespace {
using TT = stdx::type_map<stdx::tt_pair<key<0>, known<50>>, stdx::tt_pair<key<1>, known<40>>,
                          stdx::tt_pair<key<2>, known<30>>, stdx::tt_pair<key<3>, known<20>>>;
using TV = stdx::type_map<stdx::tv_pair<key<0>, 50>, stdx::tv_pair<key<1>, 40u>, stdx::tv_pair<key<2>, u8{30}>,
                          stdx::tv_pair<key<3>, 20>>;
using VT = stdx::type_map<stdx::vt_pair<0, known<50>>, stdx::vt_pair<1, known<40>>, stdx::vt_pair<2, known<30>>,
                          stdx::vt_pair<3, known<20>>>;
using VV = stdx::type_map<stdx::vv_pair<0, 50>, stdx::vv_pair<1, 40>, stdx::vv_pair<2, 30>, stdx::vv_pair<3, 20>>;
using TV2 = stdx::type_map<stdx::tv_pair<key<0>, 50>, stdx::tv_pair<key<1>, 40>, stdx::tv_pair<key<2>, 30>,
                           stdx::tv_pair<key<3>, 20>>;
constexpr auto model(std::size_t k, int other) -> int { return k < 4 ? 50 - 10 * static_cast<int>(k) : other; }
constexpr auto back(int v, int other) -> int { return v >= 20 and v <= 50 and v % 10 == 0 ? 5 - v / 10 : other; }
template <typename T> constexpr int number_of = T::number;
template <int N> constexpr int number_of<key<N>> = N;
template <> constexpr int number_of<void> = -1;
} // namespace
VP_HARNESS(look_up, 2, q) {
    auto const k = below<std::size_t>(6);
    int got[8]{};
    unroll<6>([&](auto i) {
        constexpr int n = i();
        if (k == i) {
            got[0] = number_of<stdx::type_lookup_t<TT, key<n>>>;
            got[1] = number_of<stdx::type_lookup_t<TT, key<n>, known<7>>>;
            got[2] = static_cast<int>(stdx::type_lookup_v<TV, key<n>>);
            got[3] = static_cast<int>(stdx::type_lookup_v<TV, key<n>, 9>);
            got[4] = number_of<stdx::value_lookup_t<VT, n>>;
            got[5] = number_of<stdx::value_lookup_t<VT, n, known<7>>>;
            got[6] = stdx::value_lookup_v<VV, n>;
            got[7] = stdx::value_lookup_v<VV, n, 9>;
        }
    });
    CHECK(got[0] == model(k, -1));
    CHECK(got[1] == model(k, 7));
    CHECK(got[2] == model(k, 0));
    CHECK(got[3] == model(k, 9));
    CHECK(got[4] == model(k, -1));
    CHECK(got[5] == model(k, 7));
    CHECK(got[6] == model(k, 0));
    CHECK(got[7] == model(k, 9));
    CHECK((same<std::remove_const_t<decltype(stdx::type_lookup_v<TV, key<2>>)>, u8>));
    COVER(k == 5);
}
VP_HARNESS(reverse_look_up, 2, q) {
    // values 10, 20, ..., 60
    auto const k = below<std::size_t>(6);
    int got[8]{};
    unroll<6>([&](auto i) {
        constexpr int v = 10 * (static_cast<int>(i()) + 1);
        if (k == i) {
            got[0] = number_of<stdx::reverse_type_lookup_t<TT, known<v>>>;
            got[1] = number_of<stdx::reverse_type_lookup_t<TT, known<v>, known<7>>>;
            got[2] = number_of<stdx::reverse_value_lookup_t<TV2, v>>;
            got[3] = number_of<stdx::reverse_value_lookup_t<TV2, v, known<7>>>;
            got[4] = stdx::reverse_type_lookup_v<VT, known<v>>;
            got[5] = stdx::reverse_type_lookup_v<VT, known<v>, 9>;
            got[6] = stdx::reverse_value_lookup_v<VV, v>;
            got[7] = stdx::reverse_value_lookup_v<VV, v, 9>;
        }
    });
    int const v = 10 * (static_cast<int>(k) + 1);
    CHECK(got[0] == back(v, -1));
    CHECK(got[1] == back(v, 7));
    CHECK(got[2] == back(v, -1));
    CHECK(got[3] == back(v, 7));
    CHECK(got[4] == back(v, 0));
    CHECK(got[5] == back(v, 9));
    CHECK(got[6] == back(v, 0));
    CHECK(got[7] == back(v, 9));
}
// maps with many pairs
namespace {
template <typename> struct many;
template <std::size_t... Is> struct many<std::index_sequence<Is...>> {
    using TT = stdx::type_map<stdx::tt_pair<key<static_cast<int>(Is)>, known<static_cast<int>(90 - Is)>>...>;
    using VV = stdx::type_map<stdx::vv_pair<static_cast<int>(Is), static_cast<int>(90 - Is)>...>;
    using TV = stdx::type_map<stdx::tv_pair<key<static_cast<int>(Is)>, static_cast<int>(90 - Is)>...>;
    using VT = stdx::type_map<stdx::vt_pair<static_cast<int>(Is), known<static_cast<int>(90 - Is)>>...>;
};
} // namespace
VP_HARNESS(many_pairs, 2, q) {
    using M = many<std::make_index_sequence<17>>;
    auto const k = below<std::size_t>(18);
    unroll<18>([&](auto i) {
        constexpr int n = static_cast<int>(i());
        if (k == i) {
            constexpr bool in = n < 17;
            constexpr int v = 90 - n;
            CHECK((number_of<stdx::type_lookup_t<typename M::TT, key<n>, known<7>>>) == (in ? v : 7));
            CHECK((stdx::type_lookup_v<typename M::TV, key<n>, 9>) == (in ? v : 9));
            CHECK((number_of<stdx::value_lookup_t<typename M::VT, n, known<7>>>) == (in ? v : 7));
            CHECK((stdx::value_lookup_v<typename M::VV, n, 9>) == (in ? v : 9));
            CHECK((number_of<stdx::reverse_type_lookup_t<typename M::TT, known<v>, known<77>>>) == (in ? n : 77));
            CHECK((number_of<stdx::reverse_value_lookup_t<typename M::TV, v, known<77>>>) == (in ? n : 77));
            CHECK((stdx::reverse_type_lookup_v<typename M::VT, known<v>, 99>) == (in ? n : 99));
            CHECK((stdx::reverse_value_lookup_v<typename M::VV, v, 99>) == (in ? n : 99));
        }
    });
}
// a sequence of numbers taken apart
VP_HARNESS(sequence, 2, q) {
    auto const k = below<std::size_t>(4);
    auto [a, b, c, d] = stdx::make_index_sequence<4>{};
    std::size_t const all[]{a, b, c, d};
    CHECK(all[k] == k);
    CHECK((same<decltype(c), std::integral_constant<std::size_t, 2>>));
    CHECK((std::tuple_size_v<stdx::make_integer_sequence<u8, 5>> == 5));
    CHECK((stdx::tuple_size_v<stdx::make_integer_sequence<int, 3>> == 3));
    CHECK((same<stdx::tuple_element_t<2, stdx::make_integer_sequence<u8, 5>>, std::integral_constant<u8, 2>>));
    u8 got{};
    unroll<4>([&](auto i) {
        if (k == i) { got = get<i()>(stdx::make_integer_sequence<u8, 4>{}); }
    });
    CHECK(got == k);
}
VP_HARNESS(sequence_walked, 2, q) {
    walk w{0};
    stdx::unrolled_for_each([&](auto i) { w(i()); }, stdx::make_integer_sequence<int, 3>{});
    CHECK(w == expected(0, 0, 1, 2));
    auto const x = nd<u8>();
    auto const y = nd<u8>();
    walk e{x};
    stdx::for_each([&](auto v, auto i) { e(static_cast<u64>(v) << i()); }, stdx::tuple{x, y}, stdx::index_sequence_for<u8, u8>{});
    CHECK(e == expected(x, static_cast<u64>(x), static_cast<u64>(y) << 1));
    auto const sum = []<std::size_t... Is>(std::index_sequence<Is...>) { return (std::size_t{} + ... + Is); }(
        stdx::make_index_sequence<5>{});
    CHECK(sum == 10);
}

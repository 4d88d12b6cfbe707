// tuple_cat, cons/snoc, filter, chunk, gather, sort, unique and the set functions: the
// elements of the result are the documented ones with their own values.
// VP-CONFIG a: -std=c++20
// VP-CONFIG lookup: -std=c++20 -DLOOKUP=1
// VP-CONFIG std23: -std=c++23 -DVP_COPYABLE=1
#include "tuple_under_test.hpp"
using namespace vp;
using namespace stdx::literals;
using u8 = std::uint8_t;
using u16 = std::uint16_t;
using u32 = std::uint32_t;

namespace {
template <typename T, typename... Vs> void holds(T const &t, Vs const &...vs) {
    CHECK(stdx::tuple_size_v<T> == sizeof...(Vs));
    if constexpr (stdx::tuple_size_v<T> == sizeof...(Vs)) {
        [&]<std::size_t... Is>(std::index_sequence<Is...>) {
            using std::get;
            auto const one = [](auto const &x, auto const &v) {
                CHECK(same<decltype(x), decltype(v)>);
                if constexpr (same<decltype(x), decltype(v)>) {
                    CHECK(x == v);
                }
            };
            (one(get<Is>(t), vs), ...);
        }(std::make_index_sequence<sizeof...(Vs)>{});
    }
}
template <typename T> auto val(only<T> const &o) { CHECK(not o.gone); return o.v; }
template <typename T> using width = std::integral_constant<std::size_t, sizeof(T)>;
template <typename T> using is_wide = std::bool_constant<(sizeof(T) > 1)>;
template <typename T> using is_four = std::bool_constant<sizeof(T) == 4>;
template <typename T> using always = std::true_type;
template <typename T> using never = std::false_type;
} // namespace

VP_HARNESS(cat_none, 2, q) {
    auto const r = stdx::tuple_cat();
    SAME(r, stdx::tuple<> const);
}
VP_HARNESS(cat_one, 2, q) {
    auto const a = nd<u8>();
    auto const b = nd<u32>();
    auto t = stdx::tuple{a, b};
    auto const r = stdx::tuple_cat(t);
    SAME(r, stdx::tuple<u8, u32> const);
    holds(r, a, b);
    auto const rr = stdx::tuple_cat(stdx::tuple{a, b});
    holds(rr, a, b);
    auto const e = stdx::tuple_cat(stdx::tuple{});
    SAME(e, stdx::tuple<> const);
}
VP_HARNESS(cat_one_moved, 2, q) {
    auto const a = nd<u8>();
    auto t = stdx::tuple<only<u8>>{only<u8>{a}};
    auto const r = stdx::tuple_cat(std::move(t));
    SAME(r, stdx::tuple<only<u8>> const);
    CHECK(val(r[0_idx]) == a);
    CHECK(t[0_idx].gone);
    auto v = stdx::tuple{tracked<u8>{a}};
    auto const c = stdx::tuple_cat(v);
    CHECK(c[0_idx].v == a);
    CHECK(not v[0_idx].gone);
}
VP_HARNESS(cat_two, 2, q) {
    auto const a = nd<u8>(), b = nd<u8>();
    auto const c = nd<u16>();
    auto const d = nd<u32>();
    auto const x = stdx::tuple{a, c};
    auto y = stdx::tuple{d, b};
    auto const r = stdx::tuple_cat(x, y);
    SAME(r, stdx::tuple<u8, u16, u32, u8> const);
    holds(r, a, c, d, b);
    holds(stdx::tuple_cat(y, x), d, b, a, c);
    holds(stdx::tuple_cat(x, std::move(y)), a, c, d, b);
    holds(stdx::tuple_cat(x, stdx::tuple{}), a, c);
    holds(stdx::tuple_cat(stdx::tuple{}, x), a, c);
    holds(stdx::tuple_cat(x, x), a, c, a, c);
    SAME(stdx::tuple_cat(stdx::tuple{}, stdx::tuple{}), stdx::tuple<>);
}
VP_HARNESS(cat_many, 2, q) {
    auto const a = nd<u8>(), b = nd<u8>(), e = nd<u8>(), f = nd<u8>();
    auto const c = nd<u16>();
    auto const d = nd<u32>();
    holds(stdx::tuple_cat(stdx::tuple{a}, stdx::tuple{}, stdx::tuple{b, c, d}), a, b, c, d);
    holds(stdx::tuple_cat(stdx::tuple{}, stdx::tuple{a, b, c}, stdx::tuple{d}, stdx::tuple{e, f}), a, b, c, d, e, f);
    holds(stdx::tuple_cat(stdx::tuple{a, b}, stdx::tuple{c}, stdx::tuple{}, stdx::tuple{}, stdx::tuple{d, e, f}), a, b, c, d, e, f);
    auto const s = stdx::tuple_cat(stdx::make_tuple(stdx::tuple{a, b}), stdx::tuple{c});
    holds(s, stdx::tuple{a, b}, c);
}
VP_HARNESS(cat_references, 2, q) {
    auto a = nd<u8>(), b = nd<u8>();
    auto const was = b;
    auto const v = nd<u8>();
    auto const x = stdx::tuple<u8 &>{a};
    auto const r = stdx::tuple_cat(x, stdx::tuple<u8 const &, u8>{b, b});
    SAME(r, stdx::tuple<u8 &, u8 const &, u8> const);
    CHECK(adr(r[0_idx]) == &a);
    CHECK(adr(r[1_idx]) == &b);
    r[0_idx] = v;
    b = v;
    CHECK(a == v);
    CHECK(r[1_idx] == v);
    CHECK(r[2_idx] == was);
}
VP_HARNESS(cat_moves, 2, q) {
    auto const a = nd<u8>(), b = nd<u8>(), c = nd<u8>();
    auto x = stdx::tuple<only<u8>, u8>{only<u8>{a}, b};
    auto const r = stdx::tuple_cat(std::move(x), stdx::tuple<only<u8, 1>>{only<u8, 1>{c}});
    SAME(r, stdx::tuple<only<u8>, u8, only<u8, 1>> const);
    CHECK(val(r[0_idx]) == a);
    CHECK(r[1_idx] == b);
    CHECK(r[2_idx].v == c);
    CHECK(not r[2_idx].gone);
    CHECK(x[0_idx].gone);
    auto v = stdx::tuple{tracked<u8>{a}, tracked<u8>{b}};
    tracked<u8>::copies = 0;
    auto const w = stdx::tuple_cat(v, stdx::tuple{c}, v);
    CHECK(tracked<u8>::copies == 4);
    CHECK(not v[0_idx].gone);
    CHECK(not v[1_idx].gone);
    CHECK(w[0_idx].v == a);
    CHECK(w[1_idx].v == b);
    CHECK(w[2_idx] == c);
    CHECK(w[3_idx].v == a);
    CHECK(w[4_idx].v == b);
}
VP_HARNESS(cons_snoc, 2, q) {
    auto const a = nd<u8>(), b = nd<u8>();
    auto const c = nd<u16>();
    auto const d = nd<u32>();
    auto t = stdx::tuple{b, c};
    auto const r = stdx::tuple_cons(a, t);
    SAME(r, stdx::tuple<u8, u8, u16> const);
    holds(r, a, b, c);
    holds(stdx::tuple_push_front(d, t), d, b, c);
    holds(stdx::tuple_cons(d, std::as_const(t)), d, b, c);
    holds(stdx::tuple_cons(d, stdx::tuple{}), d);
    auto const s = stdx::tuple_snoc(t, a);
    SAME(s, stdx::tuple<u8, u16, u8> const);
    holds(s, b, c, a);
    holds(stdx::tuple_push_back(t, d), b, c, d);
    holds(stdx::tuple_snoc(std::move(t), d), b, c, d);
    holds(stdx::tuple_snoc(stdx::tuple{}, d), d);
    auto const z = stdx::tuple_cons(stdx::tuple{a, b}, stdx::tuple{c});
    holds(z, stdx::tuple{a, b}, c);
    auto const y = stdx::tuple_snoc(stdx::tuple{c}, stdx::tuple{a, b});
    holds(y, c, stdx::tuple{a, b});
}
VP_HARNESS(cons_snoc_std, 2, q) {
    auto const a = nd<u8>(), b = nd<u8>();
    auto const c = nd<u16>();
    auto const r = stdx::tuple_cons(a, std::tuple{b, c});
    SAME(r, std::tuple<u8, u8, u16> const);
    holds(r, a, b, c);
    auto const s = stdx::tuple_snoc(std::tuple{b, c}, a);
    SAME(s, std::tuple<u8, u16, u8> const);
    holds(s, b, c, a);
}
VP_HARNESS(cons_snoc_references, 2, q) {
    auto a = nd<u8>();
    auto b = nd<u16>();
    auto c = nd<u8>();
    auto const before = c;
    auto const t = stdx::tuple<u8 &, u16>{a, b};
    auto const r = stdx::tuple_cons(c, t);
    SAME(r, stdx::tuple<u8, u8 &, u16> const);
    auto const s = stdx::tuple_snoc(t, c);
    SAME(s, stdx::tuple<u8 &, u16, u8> const);
    c = nd<u8>();
    CHECK(r[0_idx] == before);
    CHECK(adr(r[1_idx]) == &a);
    CHECK(r[2_idx] == b);
    CHECK(adr(s[0_idx]) == &a);
    CHECK(s[1_idx] == b);
    CHECK(s[2_idx] == before);
}
VP_HARNESS(cons_snoc_moves, 2, q) {
    auto const a = nd<u8>(), b = nd<u8>(), c = nd<u8>();
    auto r = stdx::tuple_cons(only<u8>{a}, stdx::tuple<only<u8, 1>, u8>{only<u8, 1>{b}, c});
    SAME(r, stdx::tuple<only<u8>, only<u8, 1>, u8>);
    CHECK(val(r[0_idx]) == a);
    CHECK(r[1_idx].v == b);
    CHECK(not r[1_idx].gone);
    CHECK(r[2_idx] == c);
    auto s = stdx::tuple_snoc(std::move(r), only<u8>{c});
    SAME(s, stdx::tuple<only<u8>, only<u8, 1>, u8, only<u8>>);
    CHECK(val(s[0_idx]) == a);
    CHECK(s[1_idx].v == b);
    CHECK(not s[1_idx].gone);
    CHECK(s[2_idx] == c);
    CHECK(val(s[3_idx]) == c);
    auto v = tracked<u8>{a};
    auto w = stdx::tuple{tracked<u8>{b}};
    auto const x = stdx::tuple_cons(v, w);
    auto const y = stdx::tuple_snoc(w, v);
    CHECK(not v.gone);
    CHECK(not w[0_idx].gone);
    CHECK(x[0_idx].v == a);
    CHECK(x[1_idx].v == b);
    CHECK(y[0_idx].v == b);
    CHECK(y[1_idx].v == a);
}
VP_HARNESS(cons_snoc_decay, 2, q) {
    static int arr[3]{};
    auto const a = nd<u8>();
    auto const r = stdx::tuple_cons(arr, stdx::tuple{a});
    SAME(r, stdx::tuple<int *, u8> const);
    CHECK(r[0_idx] == arr);
    CHECK(r[1_idx] == a);
    auto const s = stdx::tuple_snoc(stdx::tuple{a}, arr);
    SAME(s, stdx::tuple<u8, int *> const);
    CHECK(s[0_idx] == a);
    CHECK(s[1_idx] == arr);
}
VP_HARNESS(filter, 2, q) {
    auto const a = nd<u8>(), b = nd<u8>();
    auto const c = nd<u16>();
    auto const d = nd<u32>(), e = nd<u32>();
    auto t = stdx::tuple{d, a, c, b, e};
    auto const r = stdx::filter<is_wide>(t);
    SAME(r, stdx::tuple<u32, u16, u32> const);
    holds(r, d, c, e);
    holds(stdx::filter<always>(t), d, a, c, b, e);
    holds(stdx::filter<always>(std::move(t)), d, a, c, b, e);
    SAME(stdx::filter<never>(t), stdx::tuple<>);
    SAME(stdx::filter<always>(stdx::tuple{}), stdx::tuple<>);
    holds(stdx::filter<is_wide>(stdx::tuple{a, c}), c);
    holds(stdx::filter<is_wide>(stdx::tuple{c, a}), c);
    auto const s = stdx::filter<is_wide>(std::tuple{a, d, b, c});
    SAME(s, std::tuple<u32, u16> const);
    holds(s, d, c);
    auto w = stdx::tuple<only<u8>, u8, only<u16>>{only<u8>{a}, b, only<u16>{c}};
    auto const x = stdx::filter<is_wide>(std::move(w));
    SAME(x, stdx::tuple<only<u8>, only<u16>> const);
    CHECK(val(x[0_idx]) == a);
    CHECK(val(x[1_idx]) == c);
}
VP_HARNESS(chunk, 2, q) {
    auto const a = nd<u8>(), b = nd<u8>(), c = nd<u8>();
    auto const d = nd<u16>(), e = nd<u16>();
    SAME(stdx::chunk(stdx::tuple{}), stdx::tuple<>);
    holds(stdx::chunk(stdx::tuple{a}), stdx::tuple{a});
    holds(stdx::chunk(stdx::tuple{a, b}), stdx::tuple{a, b});
    holds(stdx::chunk(stdx::tuple{a, d}), stdx::tuple{a}, stdx::tuple{d});
    holds(stdx::chunk(stdx::tuple{a, d, b}), stdx::tuple{a}, stdx::tuple{d}, stdx::tuple{b});
    holds(stdx::chunk(stdx::tuple{a, b, d, e, c}), stdx::tuple{a, b}, stdx::tuple{d, e}, stdx::tuple{c});
    holds(stdx::chunk(stdx::tuple{d, a, b, c, e}), stdx::tuple{d}, stdx::tuple{a, b, c}, stdx::tuple{e});
    auto const t = stdx::tuple{a, d, e, b, c};
    auto const r = stdx::chunk_by(t);
    SAME(r, stdx::tuple<stdx::tuple<u8>, stdx::tuple<u16, u16>, stdx::tuple<u8, u8>> const);
    holds(r, stdx::tuple{a}, stdx::tuple{d, e}, stdx::tuple{b, c});
}
VP_HARNESS(chunk_by, 2, q) {
    auto const a = nd<u8>();
    auto const b = tagged<1>{nd<u8>()};
    auto const c = nd<u16>();
    auto const d = tagged<2, u16>{nd<u16>()};
    auto const e = nd<std::int8_t>();
    holds(stdx::chunk_by<width>(stdx::tuple{a, b, c, d, e}), stdx::tuple{a, b}, stdx::tuple{c, d}, stdx::tuple{e});
    holds(stdx::chunk_by<width>(stdx::tuple{e, a, b}), stdx::tuple{e, a, b});
    holds(stdx::chunk_by<width>(stdx::tuple{c, a, b, e, d}), stdx::tuple{c}, stdx::tuple{a, b, e}, stdx::tuple{d});
    holds(stdx::chunk_by<width>(stdx::tuple{c}), stdx::tuple{c});
    auto const r = stdx::chunk(stdx::tuple<only<u8>, only<u8>, u8>{only<u8>{a}, only<u8>{b.v}, a});
    CHECK(val(r[0_idx][0_idx]) == a);
    CHECK(val(r[0_idx][1_idx]) == b.v);
    CHECK(r[1_idx][0_idx] == a);
}
// for elements of one type the order is open
VP_HARNESS(gather, 2, q) {
    auto const a = nd<u8>(), b = nd<u8>(), c = nd<u8>();
    auto const d = nd<bool>();
    auto const e = nd<int>(), f = nd<int>();
    SAME(stdx::gather(stdx::tuple{}), stdx::tuple<>);
    holds(stdx::gather(stdx::tuple{a}), stdx::tuple{a});
    holds(stdx::gather(stdx::tuple{a, d}), stdx::tuple{d}, stdx::tuple{a});
    holds(stdx::gather(stdx::tuple{d, a}), stdx::tuple{d}, stdx::tuple{a});
    holds(stdx::gather(stdx::tuple{e, a, d}), stdx::tuple{d}, stdx::tuple{e}, stdx::tuple{a});
    auto const t = stdx::tuple{a, e, b, d, f, c};
    auto const r = stdx::gather_by(t);
    SAME(r, stdx::tuple<stdx::tuple<bool>, stdx::tuple<int, int>, stdx::tuple<u8, u8, u8>> const);
    CHECK(r[0_idx][0_idx] == d);
    auto const &p = r[1_idx];
    CHECK((p[0_idx] == e and p[1_idx] == f) or (p[0_idx] == f and p[1_idx] == e));
    auto const x = r[2_idx][0_idx], y = r[2_idx][1_idx], z = r[2_idx][2_idx];
    CHECK((x == a and ((y == b and z == c) or (y == c and z == b))) or
          (x == b and ((y == a and z == c) or (y == c and z == a))) or
          (x == c and ((y == b and z == a) or (y == a and z == b))));
}
VP_HARNESS(gather_by, 2, q) {
    auto const a = nd<u8>();
    auto const c = nd<u16>(), d = nd<u16>();
    auto const e = nd<std::int8_t>();
    auto const f = nd<u32>();
    auto const r = stdx::gather_by<width>(stdx::tuple{c, a, f, d, e});
    CHECK(stdx::tuple_size_v<decltype(r)> == 3);
    // one group of each width
    unsigned ones{}, twos{}, fours{};
    stdx::for_each(
        [&]<typename G>(G const &g) {
            using first = stdx::tuple_element_t<0, G>;
            if constexpr (sizeof(first) == 1) {
                ++ones;
                CHECK(stdx::tuple_size_v<G> == 2);
                CHECK(stdx::get<u8>(g) == a);
                CHECK(stdx::get<std::int8_t>(g) == e);
            } else if constexpr (sizeof(first) == 2) {
                ++twos;
                SAME(g, stdx::tuple<u16, u16> const &);
                CHECK((g[0_idx] == c and g[1_idx] == d) or (g[0_idx] == d and g[1_idx] == c));
            } else {
                ++fours;
                holds(g, f);
            }
        },
        r);
    CHECK(ones == 1);
    CHECK(twos == 1);
    CHECK(fours == 1);
    auto const m = stdx::gather(stdx::tuple<only<u8>, bool, only<u8, 1>>{only<u8>{a}, true, only<u8, 1>{a}});
    CHECK(stdx::tuple_size_v<decltype(m)> == 3);
    CHECK(m[0_idx][0_idx]);
    CHECK(m[1_idx][0_idx].v == a);
    CHECK(m[2_idx][0_idx].v == a);
    CHECK(not m[1_idx][0_idx].gone);
    CHECK(not m[2_idx][0_idx].gone);
}
// types whose names begin alike
template <int> struct a_type_with_a_rather_long_name_and_the_number {
    u8 v{};
};
template <typename T> struct changes;
template <typename... Ts> struct changes<stdx::tuple<Ts...>> {
    constexpr static std::size_t value = [] {
        std::size_t n{};
        if constexpr (sizeof...(Ts) > 1) {
            [&]<std::size_t... Is>(std::index_sequence<Is...>) {
                ((n += not same<stdx::tuple_element_t<Is, stdx::tuple<Ts...>>,
                                stdx::tuple_element_t<Is + 1, stdx::tuple<Ts...>>>),
                 ...);
            }(std::make_index_sequence<sizeof...(Ts) - 1>{});
        }
        return n;
    }();
};
template <typename T, typename S> constexpr std::size_t count_of = 0;
template <typename T, typename... Ts>
constexpr std::size_t count_of<T, stdx::tuple<Ts...>> = (std::size_t{} + ... + (same<T, Ts> ? 1 : 0));
VP_HARNESS(long_names, 2, q) {
    using A = a_type_with_a_rather_long_name_and_the_number<1>;
    using B = a_type_with_a_rather_long_name_and_the_number<2>;
    using C = a_type_with_a_rather_long_name_and_the_number<3>;
    auto const x = nd_array<u8, 6>();
    auto t = stdx::tuple{B{x[0]}, A{x[1]}, C{x[2]}, B{x[3]}, A{x[4]}, C{x[5]}};
    auto const s = stdx::sort(t);
    using S = std::remove_cvref_t<decltype(s)>;
    CHECK(stdx::tuple_size_v<S> == 6);
    CHECK(changes<S>::value == 2);
    CHECK(count_of<A, S> == 2);
    CHECK(count_of<B, S> == 2);
    CHECK(count_of<C, S> == 2);
    // the values that belong to each type, in either order
    auto const collect = [&]<typename T>(auto const &elems, u8 p, u8 q) {
        std::array<u8, 2> got{};
        std::size_t n{};
        stdx::for_each(
            [&]<typename E>(E const &e) {
                if constexpr (same<E, T>) {
                    if (n < 2) {
                        got[n] = e.v;
                    }
                    ++n;
                }
            },
            elems);
        CHECK(n == 2);
        CHECK((got[0] == p and got[1] == q) or (got[0] == q and got[1] == p));
    };
    collect.operator()<A>(s, x[1], x[4]);
    collect.operator()<B>(s, x[0], x[3]);
    collect.operator()<C>(s, x[2], x[5]);
    auto const g = stdx::gather(t);
    CHECK(stdx::tuple_size_v<decltype(g)> == 3);
    stdx::for_each(
        [&]<typename G>(G const &e) {
            CHECK(stdx::tuple_size_v<G> == 2);
            CHECK(changes<G>::value == 0);
            if constexpr (count_of<A, G> == 2) {
                collect.operator()<A>(e, x[1], x[4]);
            } else if constexpr (count_of<B, G> == 2) {
                collect.operator()<B>(e, x[0], x[3]);
            } else {
                collect.operator()<C>(e, x[2], x[5]);
            }
        },
        g);
    auto const u = stdx::to_sorted_set(t);
    using U = std::remove_cvref_t<decltype(u)>;
    CHECK(stdx::tuple_size_v<U> == 3);
    CHECK(count_of<A, U> == 1);
    CHECK(count_of<B, U> == 1);
    CHECK(count_of<C, U> == 1);
    auto const v = stdx::to_unsorted_set(t);
    SAME(v, stdx::tuple<B, A, C> const);
}
VP_HARNESS(sort, 2, q) {
    auto const a = nd<u8>(), b = nd<u8>();
    auto const d = nd<bool>();
    auto const e = nd<int>();
    SAME(stdx::sort(stdx::tuple{}), stdx::tuple<>);
    holds(stdx::sort(stdx::tuple{a}), a);
    holds(stdx::sort(stdx::tuple{e, d}), d, e);
    holds(stdx::sort(stdx::tuple{d, e}), d, e);
    holds(stdx::sort(stdx::tuple{a, e, d}), d, e, a);
    holds(stdx::sort(stdx::tuple{e, a, d}), d, e, a);
    holds(stdx::sort(stdx::tuple{d, a, e}), d, e, a);
    auto const t = stdx::tuple{a, d, b, e};
    auto const r = stdx::sort(t);
    SAME(r, stdx::tuple<bool, int, u8, u8> const);
    CHECK(r[0_idx] == d);
    CHECK(r[1_idx] == e);
    CHECK((r[2_idx] == a and r[3_idx] == b) or (r[2_idx] == b and r[3_idx] == a));
    auto const m = stdx::sort(stdx::tuple<only<u8>, bool>{only<u8>{a}, d});
    CHECK(m[0_idx] == d);
    CHECK(val(m[1_idx]) == a);
}
VP_HARNESS(unique, 2, q) {
    auto const a = nd<u8>(), b = nd<u8>(), c = nd<u8>();
    auto const d = nd<bool>(), f = nd<bool>();
    auto const e = nd<int>();
    SAME(stdx::unique(stdx::tuple{}), stdx::tuple<>);
    holds(stdx::unique(stdx::tuple{a}), a);
    holds(stdx::unique(stdx::tuple{a, b, c}), a);
    holds(stdx::unique(stdx::tuple{a, d, b}), a, d, b);
    holds(stdx::unique(stdx::tuple{a, b, d, f, c}), a, d, c);
    auto const t = stdx::tuple{e, a, b, d, f};
    auto const r = stdx::unique(t);
    SAME(r, stdx::tuple<int, u8, bool> const);
    holds(r, e, a, d);
    auto const m = stdx::unique(stdx::tuple<only<u8>, only<u8>, bool>{only<u8>{a}, only<u8>{b}, d});
    CHECK(val(m[0_idx]) == a);
    CHECK(m[1_idx] == d);
}
VP_HARNESS(sets, 2, q) {
    auto const a = nd<u8>(), b = nd<u8>(), c = nd<u8>();
    auto const d = nd<bool>(), f = nd<bool>();
    auto const e = nd<int>();
    SAME(stdx::to_unsorted_set(stdx::tuple{}), stdx::tuple<>);
    SAME(stdx::to_sorted_set(stdx::tuple{}), stdx::tuple<>);
    holds(stdx::to_unsorted_set(stdx::tuple{a}), a);
    holds(stdx::to_unsorted_set(stdx::tuple{a, b}), a);
    holds(stdx::to_unsorted_set(stdx::tuple{a, d, b, f, e, c}), a, d, e);
    holds(stdx::to_unsorted_set(stdx::tuple{e, a, d, b}), e, a, d);
    auto const t = stdx::tuple{a, d, b, e, f, c};
    auto const r = stdx::to_sorted_set(t);
    SAME(r, stdx::tuple<bool, int, u8> const);
    CHECK(r[0_idx] == d or r[0_idx] == f);
    CHECK(r[1_idx] == e);
    CHECK(r[2_idx] == a or r[2_idx] == b or r[2_idx] == c);
    holds(stdx::to_sorted_set(stdx::tuple{a, e}), e, a);
    auto const m = stdx::to_unsorted_set(stdx::tuple<only<u8>, bool, only<u8>>{only<u8>{a}, d, only<u8>{b}});
    CHECK(stdx::tuple_size_v<decltype(m)> == 2);
    CHECK(val(m[0_idx]) == a);
    CHECK(m[1_idx] == d);
}
// more elements
VP_HARNESS(longer, 2, q) {
    auto const x = nd_array<u8, 12>();
    auto const w = nd_array<u16, 4>();
    auto const i = nd_array<int, 4>();
    auto const d = nd<bool>();
    auto const a = stdx::tuple{x[0], w[0], i[0], d};
    auto const b = stdx::tuple{w[1], x[1]};
    auto const c = stdx::tuple{i[1], x[2], x[3], w[2], i[2]};
    auto const t = stdx::tuple_cat(a, b, stdx::tuple{}, c, stdx::tuple{x[4], x[5]});
    holds(t, x[0], w[0], i[0], d, w[1], x[1], i[1], x[2], x[3], w[2], i[2], x[4], x[5]);
    holds(stdx::tuple_cons(i[3], t), i[3], x[0], w[0], i[0], d, w[1], x[1], i[1], x[2], x[3], w[2], i[2], x[4], x[5]);
    holds(stdx::tuple_snoc(t, i[3]), x[0], w[0], i[0], d, w[1], x[1], i[1], x[2], x[3], w[2], i[2], x[4], x[5], i[3]);
    holds(t.tail(), w[0], i[0], d, w[1], x[1], i[1], x[2], x[3], w[2], i[2], x[4], x[5]);
    holds(stdx::filter<is_wide>(t), w[0], i[0], w[1], i[1], w[2], i[2]);
    holds(stdx::chunk(t), stdx::tuple{x[0]}, stdx::tuple{w[0]}, stdx::tuple{i[0]}, stdx::tuple{d}, stdx::tuple{w[1]}, stdx::tuple{x[1]},
          stdx::tuple{i[1]}, stdx::tuple{x[2], x[3]}, stdx::tuple{w[2]}, stdx::tuple{i[2]}, stdx::tuple{x[4], x[5]});
    holds(stdx::unique(t), x[0], w[0], i[0], d, w[1], x[1], i[1], x[2], w[2], i[2], x[4]);
    holds(stdx::to_unsorted_set(t), x[0], w[0], i[0], d);
    auto const alike = stdx::tuple{x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8], x[9], x[10], x[11]};
    holds(alike.tail(), x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8], x[9], x[10], x[11]);
    holds(stdx::tuple{alike}.tail(), x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8], x[9], x[10], x[11]);
    holds(stdx::tuple_cons(x[3], alike), x[3], x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8], x[9], x[10], x[11]);
    holds(stdx::tuple_snoc(alike, x[3]), x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8], x[9], x[10], x[11], x[3]);
    // many tuples at once
    auto const y = nd_array<u8, 20>();
    auto const one = [&](auto k) { return stdx::tuple{y[k], static_cast<u16>(y[k + 1])}; };
    holds(stdx::tuple_cat(one(0_idx), one(2_idx), stdx::tuple{}, one(4_idx), one(6_idx), one(8_idx), one(10_idx), one(12_idx), one(14_idx), one(16_idx), one(18_idx)),
          y[0], u16{y[1]}, y[2], u16{y[3]}, y[4], u16{y[5]}, y[6], u16{y[7]}, y[8], u16{y[9]}, y[10], u16{y[11]}, y[12], u16{y[13]}, y[14], u16{y[15]}, y[16], u16{y[17]}, y[18], u16{y[19]});
    // elements that say where they were
    auto const tags = stdx::tuple{tagged<7>{x[0]}, tagged<3>{x[1]}, tagged<9>{x[2]}, tagged<1>{x[3]}, tagged<8>{x[4]}, tagged<2>{x[5]},
                                  tagged<6>{x[6]}, tagged<4>{x[7]}, tagged<5>{x[8]}, tagged<0>{x[9]}};
    auto const sorted = stdx::sort(tags);
    auto const all = [&](auto const &s) {
        CHECK(stdx::get<tagged<7>>(s).v == x[0]);
        CHECK(stdx::get<tagged<3>>(s).v == x[1]);
        CHECK(stdx::get<tagged<9>>(s).v == x[2]);
        CHECK(stdx::get<tagged<1>>(s).v == x[3]);
        CHECK(stdx::get<tagged<8>>(s).v == x[4]);
        CHECK(stdx::get<tagged<2>>(s).v == x[5]);
        CHECK(stdx::get<tagged<6>>(s).v == x[6]);
        CHECK(stdx::get<tagged<4>>(s).v == x[7]);
        CHECK(stdx::get<tagged<5>>(s).v == x[8]);
        CHECK(stdx::get<tagged<0>>(s).v == x[9]);
        CHECK(stdx::tuple_size_v<std::remove_cvref_t<decltype(s)>> == 10);
    };
    all(sorted);
    all(stdx::to_sorted_set(tags));
    all(stdx::to_unsorted_set(tags));
    auto const groups = stdx::gather(tags);
    CHECK(stdx::tuple_size_v<std::remove_const_t<decltype(groups)>> == 10);
    // nothing lost when types repeat
    auto const r = stdx::tuple{u8{0}, u16{1}, 2, true, u16{4}, u8{5}, 6, u8{7}, u8{8}, u16{9}, 10, u8{11}, u8{12}};
    auto const k = below<u8>(13);
    auto const g = stdx::gather(r);
    CHECK(stdx::tuple_size_v<std::remove_const_t<decltype(g)>> == 4);
    u32 found{};
    u32 count{};
    auto const look = [&](auto v) {
        if constexpr (same<decltype(v), bool>) {
            found += v and k == 3;
        } else {
            found += static_cast<u32>(v) == k;
        }
        ++count;
    };
    stdx::for_each([&](auto const &part) { stdx::for_each(look, part); }, g);
    CHECK(found == 1 and count == 13);
    found = count = 0;
    stdx::for_each(look, stdx::sort(r));
    CHECK(found == 1 and count == 13);
}
// tuples that are not given up keep their elements
VP_HARNESS(kept, 2, q) {
    using A = tracked<u8>;
    using B = tracked<u16>;
    auto const a = nd<u8>(), b = nd<u8>();
    auto const c = nd<u16>(), d = nd<u16>();
    auto t = stdx::tuple{A{a}, B{c}, A{b}, B{d}};
    auto const still = [&] {
        CHECK(t[0_idx].v == a);
        CHECK(t[1_idx].v == c);
        CHECK(t[2_idx].v == b);
        CHECK(t[3_idx].v == d);
        CHECK(not t[0_idx].gone);
        CHECK(not t[1_idx].gone);
        CHECK(not t[2_idx].gone);
        CHECK(not t[3_idx].gone);
    };
    auto const whole = [](auto const &...es) { CHECK((... and not es.gone)); };
    auto const s = stdx::sort(t);
    still();
    stdx::apply(whole, s);
    CHECK(stdx::tuple_size_v<decltype(s)> == 4);
    auto const g = stdx::gather(t);
    still();
    stdx::for_each([&](auto const &x) { stdx::apply(whole, x); }, g);
    auto const k = stdx::chunk(t);
    still();
    CHECK(stdx::tuple_size_v<decltype(k)> == 4);
    CHECK(k[1_idx][0_idx].v == c);
    CHECK(k[3_idx][0_idx].v == d);
    stdx::for_each([&](auto const &x) { stdx::apply(whole, x); }, k);
    auto const f = stdx::filter<is_four>(t);
    still();
    SAME(f, stdx::tuple<B, B> const);
    CHECK(f[0_idx].v == c);
    CHECK(f[1_idx].v == d);
    stdx::apply(whole, f);
    auto const u = stdx::unique(t);
    still();
    CHECK(u[2_idx].v == b);
    stdx::apply(whole, u);
    auto const o = stdx::to_sorted_set(t);
    still();
    CHECK(stdx::tuple_size_v<decltype(o)> == 2);
    stdx::apply(whole, o);
    auto const n = stdx::to_unsorted_set(t);
    still();
    SAME(n, stdx::tuple<A, B> const);
    CHECK(n[0_idx].v == a);
    CHECK(n[1_idx].v == c);
    stdx::apply(whole, n);
    auto const p = stdx::tuple_cat(stdx::tuple{A{a}}, t, stdx::tuple{B{c}});
    still();
    CHECK(p[3_idx].v == b);
    stdx::apply(whole, p);
    auto const q = stdx::tuple_cons(A{b}, stdx::tuple_snoc(t, B{d}));
    still();
    stdx::apply(whole, q);
    auto const r = t.tail();
    still();
    stdx::apply(whole, r);
}
VP_HARNESS(tail, 2, q) {
    auto const a = nd<u8>(), b = nd<u8>();
    auto const c = nd<u16>();
    auto const d = nd<u32>();
    auto t = stdx::tuple{a, c, d, b};
    holds(t.tail(), c, d, b);
    holds(std::as_const(t).tail(), c, d, b);
    holds(std::move(t).tail(), c, d, b);
    holds(t.tail().tail(), d, b);
    holds(stdx::tuple{a, b}.tail(), b);
    auto const one = stdx::tuple{a};
    CHECK(one.tail().size() == 0);
    CHECK(stdx::tuple{}.tail().size() == 0);
    auto m = stdx::tuple<u8, only<u8>, only<u16>>{a, only<u8>{b}, only<u16>{c}};
    auto const r = std::move(m).tail();
    CHECK(val(r[0_idx]) == b);
    CHECK(val(r[1_idx]) == c);
    auto v = stdx::tuple{a, tracked<u8>{b}};
    CHECK(v.tail()[0_idx].v == b);
    CHECK(not v[1_idx].gone);
}
VP_HARNESS(contains, 2, q) {
    using T = stdx::tuple<u8, bool, u8, u16 &>;
    CHECK(stdx::contains_type<T, u8>);
    CHECK(stdx::contains_type<T, bool>);
    CHECK(stdx::contains_type<T, u16 &>);
    CHECK(not stdx::contains_type<T, u16>);
    CHECK(not stdx::contains_type<T, u32>);
    CHECK(not stdx::contains_type<stdx::tuple<>, u8>);
}

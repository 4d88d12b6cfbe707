// Access to tuple elements.
// VP-CONFIG a: -std=c++20
// VP-CONFIG lookup: -std=c++20 -DLOOKUP=1
// VP-CONFIG std23: -std=c++23 -DVP_COPYABLE=1
#include "tuple_under_test.hpp"
using namespace vp;
using namespace stdx::literals;
using u8 = std::uint8_t;
using u16 = std::uint16_t;
using u32 = std::uint32_t;
using i64 = std::int64_t;

namespace {
// every way to read element I of t
template <std::size_t I, typename T, typename E> void reads(T &t, E const &e) {
    using X = std::remove_cvref_t<E>;
    T const &c = t;
    CHECK(get<I>(t) == e);
    CHECK(get<I>(c) == e);
    CHECK(t[stdx::index<I>] == e);
    CHECK(c[stdx::index<I>] == e);
    CHECK(get<I>(std::move(t)) == e);
    CHECK(std::move(t)[stdx::index<I>] == e);
    CHECK(adr(get<I>(t)) == adr(t[stdx::index<I>]));
    CHECK(adr(get<I>(c)) == adr(t[stdx::index<I>]));
    SAME(get<I>(t), X &);
    SAME(get<I>(c), X const &);
    SAME(get<I>(std::move(t)), X &&);
    SAME(t[stdx::index<I>], X &);
    SAME(c[stdx::index<I>], X const &);
    SAME(std::move(t)[stdx::index<I>], X &&);
    CHECK(same<stdx::tuple_element_t<I, T>, X>);
    CHECK(same<std::tuple_element_t<I, T>, X>);
}
template <typename X, typename T> void reads_by_type(T &t, X const &e) {
    T const &c = t;
    CHECK(get<X>(t) == e);
    CHECK(get<X>(c) == e);
    CHECK(t.get(stdx::tag<X>) == e);
    CHECK(get<X>(std::move(t)) == e);
    SAME(get<X>(t), X &);
    SAME(get<X>(c), X const &);
    SAME(get<X>(std::move(t)), X &&);
    CHECK(stdx::contains_type<T, X>);
}
// element K is overwritten, the others keep their values
template <std::size_t K, typename... Ts> void writes(Ts... vs) {
    auto t = stdx::tuple<Ts...>{vs...};
    auto const o = std::tuple<Ts...>{vs...};
    auto e = o;
    using X = std::tuple_element_t<K, decltype(o)>;
    auto const all = [&] {
        unroll<sizeof...(Ts)>([&](auto i) { CHECK(get<i()>(t) == std::get<i()>(e)); });
    };
    X const x = nd<X>();
    auto const how = small(5);
    if (how == 0) {
        get<K>(t) = x;
    } else if (how == 1) {
        t[stdx::index<K>] = x;
    } else if (how == 2) {
        t.apply([&](auto &...es) { std::get<K>(std::tie(es...)) = x; });
    } else if (how == 3) {
        auto copy = t;
        get<K>(copy) = x;
        all();
        t = copy;
    } else {
        auto &[a, b, c, d] = t;
        std::get<K>(std::tie(a, b, c, d)) = x;
    }
    std::get<K>(e) = x;
    all();
}
template <typename... Ts> void access(Ts... vs) {
    using T = stdx::tuple<Ts...>;
    auto const o = std::tuple<Ts...>{vs...};
    auto t = T{vs...};
    CHECK(stdx::tuple_size_v<T> == sizeof...(Ts));
    CHECK(std::tuple_size_v<T> == sizeof...(Ts));
    CHECK(t.size() == sizeof...(Ts));
    CHECK(t.empty() == (sizeof...(Ts) == 0));
    unroll<sizeof...(Ts)>([&](auto i) { reads<i()>(t, std::get<i()>(o)); });
    auto m = stdx::make_tuple(vs...);
    SAME(m, T);
    unroll<sizeof...(Ts)>([&](auto i) { CHECK(get<i()>(m) == std::get<i()>(o)); });
    auto d = stdx::tuple{vs...};
    SAME(d, T);
    unroll<sizeof...(Ts)>([&](auto i) { CHECK(get<i()>(d) == std::get<i()>(o)); });
    auto copy = t;
    unroll<sizeof...(Ts)>([&](auto i) { CHECK(get<i()>(copy) == std::get<i()>(o)); });
    auto other = T{};
    other = std::move(copy);
    unroll<sizeof...(Ts)>([&](auto i) { CHECK(get<i()>(other) == std::get<i()>(o)); });
    auto f = stdx::forward_as_tuple(vs...);
    SAME(f, stdx::tuple<Ts &...>);
    [&]<std::size_t... Is>(std::index_sequence<Is...>) {
        auto const refs = std::tie(vs...);
        CHECK((... and (adr(get<Is>(f)) == adr(std::get<Is>(refs)))));
    }(std::index_sequence_for<Ts...>{});
    // applying passes all elements in order
    unsigned calls{};
    auto r = t.apply([&](auto &...es) {
        ++calls;
        CHECK(same<std::tuple<std::remove_reference_t<decltype(es)>...>, std::tuple<Ts...>>);
        CHECK((std::tuple{es...} == o));
        return 42;
    });
    CHECK(r == 42);
    stdx::apply([&](auto const &...es) { ++calls; CHECK((std::tuple{es...} == o)); }, std::as_const(t));
    std::move(t).apply([&](auto &&...es) {
        ++calls;
        CHECK(same<std::tuple<decltype(es)...>, std::tuple<Ts &&...>>);
        CHECK((std::tuple{es...} == o));
    });
    CHECK(calls == 3);
}
} // namespace

VP_HARNESS(access_mixed, 2, q) { access(nd<u8>(), nd<u16>(), nd<bool>(), nd<i64>(), tagged<1>{nd<u8>()}, nothing<0>{}); }
VP_HARNESS(access_repeated, 2, q) { access(nd<u8>(), nd<u8>(), nd<u16>(), nd<u8>()); }
VP_HARNESS(access_one, 2, q) { access(nd<u32>()); }
VP_HARNESS(access_empty_types, 2, q) { access(nothing<0>{}, nd<u8>(), nothing<1>{}, nothing<0>{}); }
VP_HARNESS(access_twelve, 2, q) {
    access(nd<u8>(), nd<u16>(), nd<u8>(), nd<u32>(), nd<bool>(), tagged<1>{nd<u8>()}, nd<u8>(), nd<i64>(), nd<u16>(), nothing<0>{}, tagged<2>{nd<u8>()}, nd<u32>());
}
VP_HARNESS(access_none, 2, q) { access(); }

VP_HARNESS(by_type, 2, q) {
    auto const a = nd<u8>();
    auto const b = nd<u16>();
    auto const c = tagged<7>{nd<u8>()};
    auto t = stdx::tuple{a, b, c};
    reads_by_type<u8>(t, a);
    reads_by_type<u16>(t, b);
    reads_by_type<tagged<7>>(t, c);
    CHECK(not stdx::contains_type<decltype(t), u32>);
    CHECK(t[0_idx] == a);
    CHECK(t[1_idx] == b);
    CHECK(t[2_idx] == c);
    auto const x = nd<u16>();
    get<u16>(t) = x;
    CHECK(get<0>(t) == a);
    CHECK(get<1>(t) == x);
    CHECK(get<2>(t) == c);
    auto const [p, q, r] = t;
    CHECK(p == a);
    CHECK(q == x);
    CHECK(r == c);
    auto &&[p2, q2, r2] = std::move(t);
    CHECK(&p2 == adr(get<0>(t)));
    CHECK(&q2 == adr(get<1>(t)));
    CHECK(&r2 == adr(get<2>(t)));
}
VP_HARNESS(write_0, 2, q) { writes<0>(nd<u8>(), nd<u16>(), nd<u8>(), nd<u32>()); }
VP_HARNESS(write_1, 2, q) { writes<1>(nd<u8>(), nd<u16>(), nd<u8>(), nd<u32>()); }
VP_HARNESS(write_2, 2, q) { writes<2>(nd<u8>(), nd<u16>(), nd<u8>(), nd<u32>()); }
VP_HARNESS(write_3, 2, q) { writes<3>(nd<u8>(), nd<u16>(), nd<u8>(), nd<u32>()); }

VP_HARNESS(references, 2, q) {
    auto a = nd<u8>();
    auto b = nd<u16>();
    auto d = nd<u32>();
    auto const a0 = a;
    auto const b0 = b;
    auto const d0 = d;
    stdx::tuple<u8 &, u16 const &, u32 &&> t{a, b, std::move(d)};
    auto const &c = t;
    CHECK(adr(get<0>(t)) == &a);
    CHECK(adr(get<1>(t)) == &b);
    CHECK(adr(get<2>(t)) == &d);
    CHECK(adr(get<0>(c)) == &a);
    CHECK(adr(get<1>(c)) == &b);
    SAME(get<0>(t), u8 &);
    SAME(get<1>(t), u16 const &);
    SAME(get<2>(t), u32 &);
    SAME(get<0>(c), u8 &);
    SAME(get<0>(std::move(t)), u8 &);
    SAME(get<1>(std::move(t)), u16 const &);
    SAME(get<2>(std::move(t)), u32 &&);
    SAME((get<u8 &>(t)), u8 &);
    CHECK(adr(get<u8 &>(t)) == &a);
    CHECK((stdx::contains_type<decltype(t), u8 &>));
    CHECK((not stdx::contains_type<decltype(t), u8>));
    CHECK(same<stdx::tuple_element_t<0, decltype(t)>, u8 &>);
    CHECK(same<stdx::tuple_element_t<1, decltype(t)>, u16 const &>);
    CHECK(same<stdx::tuple_element_t<2, decltype(t)>, u32 &&>);
    auto const x = nd<u8>();
    get<0>(t) = x;
    CHECK(a == x);
    CHECK(b == b0);
    CHECK(d == d0);
    auto const y = nd<u8>();
    c[0_idx] = y;
    CHECK(a == y);
    CHECK(get<1>(t) == b0);
    auto f = stdx::forward_as_tuple(a, std::as_const(b), std::move(d));
    SAME(f, stdx::tuple<u8 &, u16 const &, u32 &&>);
    CHECK(get<0>(f) == y);
    CHECK(get<1>(f) == b0);
    CHECK(get<2>(f) == d0);
    get<0>(f) = a0;
    CHECK(a == a0);
    CHECK(get<0>(t) == a0);
    stdx::apply([&](u8 &p, u16 const &q, u32 &&r) {
        CHECK(&p == &a);
        CHECK(&q == &b);
        CHECK(&r == &d);
    }, std::move(f));
}
VP_HARNESS(move_only, 2, q) {
    auto const a = nd<u32>();
    auto const b = nd<u8>();
    auto const e = nd<u16>();
    auto t = stdx::tuple<only<u32>, u8, only<u16>>{only<u32>{a}, b, only<u16>{e}};
    CHECK(get<0>(t).v == a);
    CHECK(not get<0>(t).gone);
    CHECK(not get<2>(t).gone);
    auto x = get<0>(std::move(t));
    CHECK(x.v == a);
    CHECK(not x.gone);
    CHECK(get<0>(t).gone);
    CHECK(not get<2>(t).gone);
    CHECK(get<1>(t) == b);
    auto y = get<only<u16>>(std::move(t));
    CHECK(y.v == e);
    CHECK(not y.gone);
    auto u = stdx::make_tuple(std::move(x), std::move(y));
    SAME(u, stdx::tuple<only<u32>, only<u16>>);
    CHECK(get<0>(u).v == a);
    CHECK(get<1>(u).v == e);
    CHECK(not get<0>(u).gone);
    CHECK(not get<1>(u).gone);
    CHECK(x.gone);
    auto w = std::move(u);
    CHECK(get<0>(w).v == a);
    CHECK(get<1>(w).v == e);
    CHECK(get<0>(u).gone);
    auto s = std::move(w).apply([](only<u32> p, only<u16> q) { return p.v ^ q.v; });
    CHECK(s == (a ^ e));
    CHECK(get<0>(w).gone);
    CHECK(get<1>(w).gone);
}
VP_HARNESS(nested, 2, q) {
    auto const a = nd<u8>();
    auto const b = nd<u16>();
    auto const c = nd<u8>();
    auto t = stdx::tuple{stdx::tuple{a, b}, c, stdx::tuple{}};
    CHECK(get<0>(get<0>(t)) == a);
    CHECK(t[0_idx][1_idx] == b);
    CHECK(get<1>(t) == c);
    CHECK(stdx::tuple_size_v<std::remove_cvref_t<decltype(t[2_idx])>> == 0);
    get<1>(get<0>(t)) = u16{7};
    CHECK(get<0>(get<0>(t)) == a);
    CHECK(t[0_idx][1_idx] == 7);
    CHECK(get<1>(t) == c);
    // a tuple in a tuple of one is not unwrapped
    auto one = stdx::make_tuple(stdx::make_tuple(a));
    SAME(one, stdx::tuple<stdx::tuple<u8>>);
    CHECK(one[0_idx][0_idx] == a);
}

namespace {
template <typename Key, typename Key2, typename Value> struct entry {
    using key_t = Key;
    using key2_t = Key2;
    Value value;
    friend auto operator==(entry const &, entry const &) -> bool = default;
};
template <typename T> using key_for = typename T::key_t;
template <typename T> using key2_for = typename T::key2_t;
struct X; struct Y; struct Z; struct P; struct Q; struct R;
} // namespace
VP_HARNESS(indexed, 2, q) {
    auto const a = nd<u8>();
    auto const b = nd<u16>();
    auto const c = nd<u8>();
    auto t = stdx::make_indexed_tuple<key_for, key2_for>(entry<X, P, u8>{a}, entry<Y, Q, u16>{b}, entry<Z, R, u8>{c});
    auto const &k = t;
    CHECK(get<X>(t).value == a);
    CHECK(get<Y>(t).value == b);
    CHECK(get<Z>(t).value == c);
    CHECK(get<P>(k).value == a);
    CHECK(get<Q>(k).value == b);
    CHECK(get<R>(k).value == c);
    CHECK(get<0>(t).value == a);
    CHECK(t[1_idx].value == b);
    CHECK(get<2>(k).value == c);
    CHECK((get<entry<Y, Q, u16>>(t).value == b));
    CHECK(adr(get<X>(t)) == adr(get<0>(t)));
    CHECK(adr(get<Q>(t)) == adr(get<1>(t)));
    SAME(get<X>(t), entry<X, P, u8> &);
    SAME(get<X>(k), entry<X, P, u8> const &);
    SAME(get<X>(std::move(t)), entry<X, P, u8> &&);
    using T = decltype(t);
    CHECK((stdx::contains_type<T, X> and stdx::contains_type<T, R> and stdx::contains_type<T, entry<Y, Q, u16>>));
    CHECK((not stdx::contains_type<T, u8>));
    CHECK(stdx::tuple_size_v<T> == 3);
    CHECK(std::tuple_size_v<T> == 3);
    auto const x = nd<u16>();
    get<Y>(t).value = x;
    CHECK(get<P>(t).value == a);
    CHECK(get<Q>(t).value == x);
    CHECK(get<R>(t).value == c);
    auto [p, q, r] = t;
    CHECK(p.value == a);
    CHECK(q.value == x);
    CHECK(r.value == c);
    t.apply([&](auto &&e0, auto &&e1, auto &&e2) {
        CHECK(&e0 == adr(get<X>(t)));
        CHECK(&e1 == adr(get<Y>(t)));
        CHECK(&e2 == adr(get<Z>(t)));
    });
}
VP_HARNESS(apply_indices, 2, q) {
    auto const a = nd<u8>();
    auto const b = nd<u16>();
    auto const c = nd<u8>();
    auto t = stdx::tuple{entry<X, P, u8>{a}, entry<Y, Q, u16>{b}, entry<Z, R, u8>{c}};
    auto const i = stdx::apply_indices<key_for>(t);
    CHECK(get<X>(i).value == a);
    CHECK(get<Y>(i).value == b);
    CHECK(get<Z>(i).value == c);
    CHECK(get<0>(i).value == a);
    CHECK(get<1>(i).value == b);
    CHECK(get<2>(i).value == c);
    auto const j = stdx::apply_indices<key2_for>(std::move(t));
    CHECK(get<P>(j).value == a);
    CHECK(get<Q>(j).value == b);
    CHECK(get<R>(j).value == c);
    CHECK((not stdx::contains_type<decltype(j), X>));
    auto r = stdx::apply_indices<>(stdx::tuple{a, b});
    CHECK(get<0>(r) == a);
    CHECK(get<u16>(r) == b);
    // references stay references
    auto v = entry<X, P, u8>{a};
    auto refs = stdx::apply_indices<key_for>(stdx::tuple<entry<X, P, u8> &>{v});
    CHECK(adr(get<X>(refs)) == &v);
    // moved elements are moved once
    auto m = stdx::apply_indices<>(stdx::tuple<only<u32>, u8>{only<u32>{a}, c});
    CHECK(get<0>(m).v == a);
    CHECK(not get<0>(m).gone);
    CHECK(get<1>(m) == c);
}
// what is built from an object that stays in use is a copy: the object keeps its values
VP_HARNESS(sources_kept, 2, q) {
    using E = tracked<u8>;
    auto const a = nd<u8>();
    auto const b = nd<u8>();
    auto kept = [&](auto &t) {
        CHECK(get<0>(t).v == a);
        CHECK(get<1>(t).v == b);
        CHECK(not get<0>(t).gone);
        CHECK(not get<1>(t).gone);
    };
    auto x = E{a};
    auto y = E{b};
    auto t = stdx::tuple{x, y};
    CHECK(not x.gone and not y.gone);
    kept(t);
    auto u = stdx::make_tuple(x, y);
    CHECK(not x.gone and not y.gone);
    kept(u);
    auto v = stdx::make_indexed_tuple<>(x, y);
    CHECK(not x.gone and not y.gone);
    kept(v);
    auto w = stdx::apply_indices<>(t);
    kept(t);
    kept(w);
    auto c = t;
    kept(t);
    kept(c);
    c = u;
    kept(u);
    kept(c);
    t.apply([&](auto &&p, auto &&q) {
        SAME(p, E &);
        SAME(q, E &);
        [[maybe_unused]] auto r = E{static_cast<decltype(p)>(p)};
    });
    kept(t);
    stdx::apply([&](auto &&...) {}, t, u);
    kept(t);
    auto const k = t;
    [[maybe_unused]] auto g = get<0>(k);
    [[maybe_unused]] auto h = get<0>(t);
    [[maybe_unused]] auto i = t[stdx::index<1>];
    kept(t);
    kept(k);
    auto z = stdx::make_indexed_tuple<key_for>(entry<X, P, E>{x}, entry<Y, Q, E>{y});
    CHECK(not x.gone and not y.gone);
    auto n = get<X>(z);
    CHECK(not n.value.gone and not get<X>(z).value.gone);
    CHECK(n.value.v == a and get<Y>(z).value.v == b);
}
// what is built from an object that is given up is moved, every element exactly once
VP_HARNESS(sources_given, 2, q) {
    using E = only<u8>;
    auto const a = nd<u8>();
    auto const b = nd<u8>();
    auto has = [&](auto &t) {
        CHECK(get<0>(t).v == a);
        CHECK(get<1>(t).v == b);
        CHECK(not get<0>(t).gone);
        CHECK(not get<1>(t).gone);
    };
    auto x = E{a};
    auto t = stdx::tuple{std::move(x), E{b}};
    CHECK(x.gone);
    has(t);
    auto w = stdx::apply_indices<>(std::move(t));
    CHECK(get<0>(t).gone and get<1>(t).gone);
    has(w);
    auto m = stdx::make_tuple(get<0>(std::move(w)), std::move(w)[stdx::index<1>]);
    CHECK(get<0>(w).gone and get<1>(w).gone);
    has(m);
    auto n = std::move(m);
    CHECK(get<0>(m).gone and get<1>(m).gone);
    has(n);
    m = std::move(n);
    CHECK(get<0>(n).gone and get<1>(n).gone);
    has(m);
    auto o = std::move(m).apply([](E &&p, E &&q) { return stdx::tuple<E, E>{std::move(p), std::move(q)}; });
    CHECK(get<0>(m).gone and get<1>(m).gone);
    has(o);
}

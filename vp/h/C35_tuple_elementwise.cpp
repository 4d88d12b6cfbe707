// transform, for_each, enumerate, the quantifiers, cartesian products and multi-tuple
// apply over one to three tuples.
// VP-CONFIG a: -std=c++20
// VP-CONFIG lookup: -std=c++20 -DLOOKUP=1
// VP-CONFIG std23: -std=c++23 -DVP_COPYABLE=1
#include "tuple_under_test.hpp"
using namespace vp;
using namespace stdx::literals;
using u8 = std::uint8_t;
using u16 = std::uint16_t;
using u32 = std::uint32_t;

namespace {
constexpr auto rot(u32 a, u32 b) -> u32 { return ((a << 5) | (a >> 27)) ^ b; }
// records every call: the number of calls and all arguments in order
struct recorder {
    u32 n{};
    u32 h{};
    template <typename... Ts> auto operator()(Ts const &...ts) -> u32 {
        ++n;
        ((h = rot(h, static_cast<u32>(ts))), ...);
        return h;
    }
};
struct indexed_recorder {
    u32 n{};
    u32 h{};
    template <std::size_t I, typename... Ts> void operator()(Ts const &...ts) {
        CHECK(I == n);
        ++n;
        ((h = rot(h, static_cast<u32>(ts))), ...);
    }
};
template <typename T> struct entry { T value; };
template <int I> struct key;
template <int I> struct keyed { u8 v; using k = key<I>; };
template <typename T> using key_of = typename T::k;
// tuples of fixed lengths over the same values
template <typename T> struct values {
    T a = nd<T>(), b = nd<T>(), c = nd<T>(), d = nd<T>();
};
} // namespace

VP_HARNESS(transform_one, 2, q) {
    auto const a = nd<u8>();
    auto const b = nd<u16>();
    auto const c = nd<u32>();
    auto t = stdx::tuple{a, b, c};
    auto const r = stdx::transform([](auto x) { return entry<decltype(x)>{static_cast<decltype(x)>(x ^ 1u)}; }, t);
    SAME(r, stdx::tuple<entry<u8>, entry<u16>, entry<u32>> const);
    CHECK(r[0_idx].value == (a ^ 1u));
    CHECK(r[1_idx].value == (b ^ 1u));
    CHECK(r[2_idx].value == (c ^ 1u));
    u32 n{};
    u32 h{};
    auto const f = [&](auto x) { ++n; h = rot(h, static_cast<u32>(x)); return h; };
    auto const s = stdx::transform(f, std::as_const(t));
    CHECK(n == 3);
    CHECK(s[0_idx] == rot(0, a));
    CHECK(s[1_idx] == rot(rot(0, a), b));
    CHECK(s[2_idx] == rot(rot(rot(0, a), b), c));
    auto const e = stdx::transform(f, stdx::tuple{});
    SAME(e, stdx::tuple<> const);
    CHECK(n == 3);
    // results that are references stay references
    auto const refs = stdx::transform([]<typename X>(X &&x) -> X & { return x; }, t);
    SAME(refs, stdx::tuple<u8 &, u16 &, u32 &> const);
    CHECK(adr(refs[0_idx]) == adr(t[0_idx]));
    CHECK(adr(refs[2_idx]) == adr(t[2_idx]));
}
VP_HARNESS(transform_many, 2, q) {
    values<u8> x;
    values<u16> y;
    values<u32> z;
    auto const t1 = stdx::tuple{x.a, x.b, x.c};
    auto const t2 = stdx::tuple{y.a, y.b};
    auto const t3 = stdx::tuple{z.a, z.b, z.c, z.d};
    u32 n{};
    auto const f = [&](auto p, auto q) { ++n; return stdx::tuple{p, q}; };
    auto const r = stdx::transform(f, t1, t2);
    SAME(r, stdx::tuple<stdx::tuple<u8, u16>, stdx::tuple<u8, u16>> const);
    CHECK(n == 2);
    CHECK(r == stdx::make_tuple(stdx::tuple{x.a, y.a}, stdx::tuple{x.b, y.b}));
    auto const s = stdx::transform(f, t2, t1);
    CHECK(n == 4);
    CHECK(s == stdx::make_tuple(stdx::tuple{y.a, x.a}, stdx::tuple{y.b, x.b}));
    auto const v = stdx::transform(f, t1, t3);
    CHECK(n == 7);
    CHECK(v == stdx::make_tuple(stdx::tuple{x.a, z.a}, stdx::tuple{x.b, z.b}, stdx::tuple{x.c, z.c}));
    auto const g = [&](auto p, auto q, auto w) { ++n; return stdx::tuple{p, q, w}; };
    auto const u = stdx::transform(g, t3, t1, t2);
    CHECK(n == 9);
    CHECK(u == stdx::make_tuple(stdx::tuple{z.a, x.a, y.a}, stdx::tuple{z.b, x.b, y.b}));
    auto const e = stdx::transform(f, t1, stdx::tuple{});
    SAME(e, stdx::tuple<> const);
    CHECK(n == 9);
    auto rec = recorder{};
    auto const w = stdx::transform([&](auto... as) { return rec(as...); }, t1, t2);
    CHECK(w[0_idx] == rot(rot(0, x.a), y.a));
    CHECK(w[1_idx] == rot(rot(w[0_idx], x.b), y.b));
}
VP_HARNESS(transform_moves, 2, q) {
    values<u8> x;
    auto t1 = stdx::tuple<only<u8>, only<u8>>{only<u8>{x.a}, only<u8>{x.b}};
    auto const r = stdx::transform([](only<u8> o) { CHECK(not o.gone); return o.v; }, std::move(t1));
    CHECK(r == stdx::tuple{x.a, x.b});
    auto t2 = stdx::tuple<only<u8>, only<u8>>{only<u8>{x.c}, only<u8>{x.d}};
    auto const s = stdx::transform([](only<u8> o, u8 p) { CHECK(not o.gone); return stdx::tuple{o.v, p}; }, std::move(t2), stdx::tuple{x.a, x.b});
    CHECK(s == stdx::make_tuple(stdx::tuple{x.c, x.a}, stdx::tuple{x.d, x.b}));
    auto v = stdx::tuple{tracked<u8>{x.a}, tracked<u8>{x.b}};
    auto const w = stdx::transform([](auto o) { return o.v; }, v);
    CHECK(w == stdx::tuple{x.a, x.b});
    CHECK(not v[0_idx].gone);
    CHECK(not v[1_idx].gone);
}
VP_HARNESS(transform_std, 2, q) {
    values<u8> x;
    values<u16> y;
    auto const f = [](auto p, auto q) { return std::pair{p, q}; };
    auto const r = stdx::transform(f, std::tuple{x.a, x.b, x.c}, stdx::tuple{y.a, y.b});
    SAME(r, std::tuple<std::pair<u8, u16>, std::pair<u8, u16>> const);
    CHECK(std::get<0>(r) == std::pair{x.a, y.a});
    CHECK(std::get<1>(r) == std::pair{x.b, y.b});
    auto const s = stdx::transform(f, stdx::tuple{x.a, x.b, x.c}, std::array{y.a, y.b});
    SAME(s, stdx::tuple<std::pair<u8, u16>, std::pair<u8, u16>> const);
    CHECK(s[0_idx] == std::pair{x.a, y.a});
    CHECK(s[1_idx] == std::pair{x.b, y.b});
}
VP_HARNESS(transform_indexed, 2, q) {
    values<u8> x;
    auto const r = stdx::transform<key_of>([]<typename T>(T k) { return T{static_cast<u8>(k.v ^ 1u)}; }, stdx::tuple{keyed<1>{x.a}, keyed<2>{x.b}});
    CHECK(get<key<1>>(r).v == (x.a ^ 1u));
    CHECK(get<key<2>>(r).v == (x.b ^ 1u));
    CHECK(r[0_idx].v == (x.a ^ 1u));
    auto const s = stdx::transform<key_of>([]<typename T>(T k, u8 v) { return T{static_cast<u8>(k.v ^ v)}; }, stdx::tuple{keyed<1>{x.a}, keyed<2>{x.b}, keyed<3>{x.c}}, stdx::tuple{x.c, x.d});
    CHECK(stdx::tuple_size_v<decltype(s)> == 2);
    CHECK(get<key<1>>(s).v == (x.a ^ x.c));
    CHECK(get<key<2>>(s).v == (x.b ^ x.d));
}
VP_HARNESS(for_each_one, 2, q) {
    values<u8> x;
    auto t = stdx::tuple{x.a, static_cast<u16>(x.b), static_cast<u32>(x.c)};
    auto const r = stdx::for_each(recorder{}, t);
    CHECK(r.n == 3);
    CHECK(r.h == rot(rot(rot(0, x.a), x.b), x.c));
    auto rec = recorder{};
    auto &&back = stdx::for_each(rec, std::as_const(t));
    CHECK(&back == &rec);
    CHECK(rec.n == 3);
    CHECK(rec.h == r.h);
    auto const e = stdx::for_each(recorder{}, stdx::tuple{});
    CHECK(e.n == 0);
    CHECK(e.h == 0);
    auto const m = stdx::for_each(recorder{}, stdx::tuple{x.d});
    CHECK(m.n == 1);
    CHECK(m.h == rot(0, x.d));
    // elements can be written through
    stdx::for_each([&](auto &&v) { v = 7; }, t);
    CHECK(t[0_idx] == 7);
    CHECK(t[1_idx] == 7);
    CHECK(t[2_idx] == 7);
}
VP_HARNESS(for_each_many, 2, q) {
    values<u8> x;
    values<u16> y;
    values<u32> z;
    auto const t1 = stdx::tuple{x.a, x.b, x.c};
    auto const t2 = stdx::tuple{y.a, y.b};
    auto const t3 = stdx::tuple{z.a, z.b, z.c, z.d};
    auto const r = stdx::for_each(recorder{}, t1, t2);
    CHECK(r.n == 2);
    CHECK(r.h == rot(rot(rot(rot(0, x.a), y.a), x.b), y.b));
    auto rec = recorder{};
    CHECK(adr(stdx::for_each(rec, t2, t3, t1)) == &rec);
    CHECK(rec.n == 2);
    CHECK(rec.h == rot(rot(rot(rot(rot(rot(0, y.a), z.a), x.a), y.b), z.b), x.b));
    auto const e = stdx::for_each(recorder{}, t1, stdx::tuple{});
    CHECK(e.n == 0);
    auto const s = stdx::for_each(recorder{}, t1, std::array{z.a, z.b, z.c});
    CHECK(s.n == 3);
    CHECK(s.h == rot(rot(rot(rot(rot(rot(0, x.a), z.a), x.b), z.b), x.c), z.c));
    auto const p = stdx::for_each(recorder{}, std::tuple{x.a, y.a});
    CHECK(p.n == 2);
    CHECK(p.h == rot(rot(0, x.a), y.a));
}
VP_HARNESS(for_each_array, 2, q) {
    values<u32> x;
    values<u16> y;
    auto a = std::array{x.a, x.b, x.c};
    auto const r = stdx::unrolled_for_each(recorder{}, a);
    CHECK(r.n == 3);
    CHECK(r.h == rot(rot(rot(0, x.a), x.b), x.c));
    auto rec = recorder{};
    CHECK(adr(stdx::unrolled_for_each(rec, std::as_const(a), std::array{y.a, y.b})) == &rec);
    CHECK(rec.n == 2);
    CHECK(rec.h == rot(rot(rot(rot(0, x.a), y.a), x.b), y.b));
    CHECK(stdx::unrolled_for_each(recorder{}, std::array<u32, 0>{}).n == 0);
    stdx::unrolled_for_each([](auto &&v) { v = 9; }, a);
    CHECK(a == (std::array<u32, 3>{9, 9, 9}));
}
VP_HARNESS(enumerate, 2, q) {
    values<u8> x;
    values<u16> y;
    auto const t1 = stdx::tuple{x.a, x.b, x.c};
    auto const t2 = stdx::tuple{y.a, y.b};
    auto const r = stdx::enumerate(indexed_recorder{}, t1);
    CHECK(r.n == 3);
    CHECK(r.h == rot(rot(rot(0, x.a), x.b), x.c));
    auto rec = indexed_recorder{};
    CHECK(adr(stdx::enumerate(rec, t1, t2)) == &rec);
    CHECK(rec.n == 2);
    CHECK(rec.h == rot(rot(rot(rot(0, x.a), y.a), x.b), y.b));
    CHECK(stdx::enumerate(indexed_recorder{}, stdx::tuple{}).n == 0);
    auto const s = stdx::enumerate(indexed_recorder{}, t2, t1, t1);
    CHECK(s.n == 2);
    CHECK(s.h == rot(rot(rot(rot(rot(rot(0, y.a), x.a), x.a), y.b), x.b), x.b));
    auto const a = stdx::unrolled_enumerate(indexed_recorder{}, std::array{y.a, y.b, y.c, y.d});
    CHECK(a.n == 4);
    CHECK(a.h == rot(rot(rot(rot(0, y.a), y.b), y.c), y.d));
    auto const b = stdx::unrolled_enumerate(indexed_recorder{}, std::array{y.a, y.b, y.c}, std::array{x.a, x.b});
    CHECK(b.n == 2);
    CHECK(b.h == rot(rot(rot(rot(0, y.a), x.a), y.b), x.b));
}
VP_HARNESS(quantifiers_one, 2, q) {
    values<u8> x;
    auto const p = [](auto v) { return (v & 1u) != 0; };
    auto const t = stdx::tuple{x.a, static_cast<u16>(x.b), x.c};
    bool const all = p(x.a) and p(x.b) and p(x.c);
    bool const any = p(x.a) or p(x.b) or p(x.c);
    CHECK(stdx::all_of(p, t) == all);
    CHECK(stdx::any_of(p, t) == any);
    CHECK(stdx::none_of(p, t) == not any);
    auto const a = std::array{x.a, x.b, x.c};
    CHECK(stdx::unrolled_all_of(p, a) == all);
    CHECK(stdx::unrolled_any_of(p, a) == any);
    CHECK(stdx::unrolled_none_of(p, a) == not any);
    CHECK(stdx::all_of(p, stdx::tuple{}));
    CHECK(not stdx::any_of(p, stdx::tuple{}));
    CHECK(stdx::none_of(p, stdx::tuple{}));
    CHECK(stdx::all_of(p, stdx::tuple{x.d}) == p(x.d));
    CHECK(stdx::any_of(p, stdx::tuple{x.d}) == p(x.d));
    CHECK(stdx::none_of(p, stdx::tuple{x.d}) == not p(x.d));
}
VP_HARNESS(quantifiers_many, 2, q) {
    values<u8> x;
    values<u16> y;
    auto const less = [](auto v, auto w) { return v < w; };
    auto const t1 = stdx::tuple{x.a, x.b, x.c};
    auto const t2 = stdx::tuple{y.a, y.b};
    CHECK(stdx::all_of(less, t1, t2) == (x.a < y.a and x.b < y.b));
    CHECK(stdx::any_of(less, t1, t2) == (x.a < y.a or x.b < y.b));
    CHECK(stdx::none_of(less, t1, t2) == not(x.a < y.a or x.b < y.b));
    CHECK(stdx::all_of(less, t2, t1) == (y.a < x.a and y.b < x.b));
    auto const a = std::array{y.a, y.b, y.c, y.d};
    CHECK(stdx::all_of(less, t1, a) == (x.a < y.a and x.b < y.b and x.c < y.c));
    CHECK(stdx::unrolled_any_of(less, std::array{x.a, x.b}, a) == (x.a < y.a or x.b < y.b));
    CHECK(stdx::unrolled_none_of(less, std::array{x.a, x.b}, a) == not(x.a < y.a or x.b < y.b));
    CHECK(stdx::unrolled_all_of(less, std::array{x.a, x.b}, a) == (x.a < y.a and x.b < y.b));
}
// tuples of many elements
VP_HARNESS(long_tuples, 2, q) {
    auto const v = nd_array<u8, 9>();
    auto const w = nd_array<u16, 9>();
    auto const t = stdx::apply([](auto... xs) { return stdx::tuple{xs...}; }, v);
    auto const u = stdx::apply([](auto... xs) { return stdx::tuple{xs...}; }, w);
    u32 h{};
    for (std::size_t i = 0; i < 9; ++i) { h = rot(rot(h, v[i]), w[i]); }
    auto const r = stdx::for_each(recorder{}, t, u);
    CHECK(r.n == 9);
    CHECK(r.h == h);
    auto const e = stdx::enumerate(indexed_recorder{}, t, w);
    CHECK(e.n == 9);
    CHECK(e.h == h);
    auto const a = stdx::unrolled_for_each(recorder{}, v, w);
    CHECK(a.n == 9);
    CHECK(a.h == h);
    auto const x = stdx::transform([](auto p, auto q) { return static_cast<u32>(p) << 16 | q; }, t, u);
    CHECK(stdx::tuple_size_v<decltype(x)> == 9);
    std::size_t i{};
    stdx::for_each([&](u32 y) { CHECK(y == (static_cast<u32>(v[i]) << 16 | w[i])); ++i; }, x);
    CHECK(i == 9);
    bool all{true}, any{};
    for (std::size_t j = 0; j < 9; ++j) {
        all = all and v[j] < w[j];
        any = any or v[j] < w[j];
    }
    auto const less = [](auto p, auto q) { return p < q; };
    CHECK(stdx::all_of(less, t, u) == all);
    CHECK(stdx::any_of(less, t, u) == any);
    CHECK(stdx::none_of(less, t, u) == not any);
}
// elements of tuples that are not given up are lent, wherever the tuple stands; the
// elements of the others may be taken
VP_HARNESS(lent, 2, q) {
    values<u8> x;
    using A = tracked<u8>;
    auto s = stdx::tuple{A{x.a}, A{x.b}};
    auto const c = stdx::tuple{A{x.b}, A{x.c}};
    auto t = stdx::tuple{A{x.c}, A{x.d}};
    auto const still = [&] {
        CHECK(not s[0_idx].gone);
        CHECK(not s[1_idx].gone);
        CHECK(not t[0_idx].gone);
        CHECK(not t[1_idx].gone);
    };
    // takes whatever it is given
    unsigned n{};
    auto const take = [&]<typename... Es>(Es &&...es) {
        ++n;
        return (0u + ... + [](auto e) { CHECK(not e.gone); return u32{e.v}; }(std::forward<Es>(es)));
    };
    auto const r = stdx::transform(take, s, c, t);
    still();
    CHECK(r == stdx::tuple{0u + x.a + x.b + x.c, 0u + x.b + x.c + x.d});
    stdx::for_each(take, s, c, t);
    still();
    stdx::enumerate([&]<std::size_t, typename... Es>(Es &&...es) { take(std::forward<Es>(es)...); }, s, c, t);
    still();
    auto const yes = [&]<typename... Es>(Es &&...es) { take(std::forward<Es>(es)...); return true; };
    auto const no = [&]<typename... Es>(Es &&...es) { take(std::forward<Es>(es)...); return false; };
    CHECK(stdx::all_of(yes, s, c, t));
    still();
    CHECK(not stdx::any_of(no, s, c, t));
    still();
    CHECK(stdx::none_of(no, s, c, t));
    still();
    CHECK(n == 12);
    CHECK(stdx::apply(take, s, c, t) == 0u + x.a + x.b + x.b + x.c + x.c + x.d);
    still();
    auto arr = std::array{A{x.a}, A{x.b}};
    auto brr = std::array{A{x.c}, A{x.d}};
    stdx::unrolled_for_each(take, arr, brr);
    CHECK(not arr[0].gone);
    CHECK(not brr[0].gone);
    CHECK(not brr[1].gone);
    // a tuple given up next to one that is not
    auto const m = stdx::transform(take, stdx::tuple{A{x.a}, A{x.b}}, t);
    still();
    CHECK(m == stdx::tuple{0u + x.a + x.c, 0u + x.b + x.d});
    stdx::for_each(take, s, stdx::tuple{A{x.a}, A{x.b}});
    still();
    CHECK(stdx::apply(take, stdx::tuple{A{x.a}, A{x.b}}, t) == 0u + x.a + x.b + x.c + x.d);
    still();
    auto const p = stdx::cartesian_product_copy(s, t);
    still();
    CHECK(p[1_idx][0_idx].v == x.a);
    CHECK(p[1_idx][1_idx].v == x.d);
    CHECK(not p[0_idx][0_idx].gone);
    CHECK(not p[3_idx][1_idx].gone);
    auto const o = stdx::cartesian_product_copy(s);
    still();
    CHECK(o[0_idx][0_idx].v == x.a);
}
// and the elements of tuples given up are handed over
VP_HARNESS(given_up, 2, q) {
    values<u8> x;
    using A = only<u8>;
    using T = stdx::tuple<A, A>;
    auto const sum = [](A p, A q) { CHECK(not p.gone); CHECK(not q.gone); return stdx::tuple{p.v, q.v}; };
    auto const r = stdx::transform(sum, T{A{x.a}, A{x.b}}, T{A{x.c}, A{x.d}});
    CHECK(r == stdx::make_tuple(stdx::tuple{x.a, x.c}, stdx::tuple{x.b, x.d}));
    unsigned n{};
    stdx::for_each([&](A p, A q) { ++n; CHECK(not p.gone); CHECK(not q.gone); }, T{A{x.a}, A{x.b}}, T{A{x.c}, A{x.d}});
    CHECK(n == 2);
    auto const s = stdx::apply([](A p, A q, A z, A w) { return stdx::tuple{p.v, q.v, z.v, w.v}; }, T{A{x.a}, A{x.b}}, T{A{x.c}, A{x.d}});
    CHECK(s == stdx::tuple{x.a, x.b, x.c, x.d});
}
VP_HARNESS(product_none, 2, q) {
    SAME(stdx::cartesian_product(), stdx::tuple<stdx::tuple<>>);
    SAME(stdx::cartesian_product_copy(), stdx::tuple<stdx::tuple<>>);
    auto const t = stdx::tuple{nd<u8>()};
    auto const e = stdx::tuple{};
    SAME(stdx::cartesian_product_copy(e), stdx::tuple<>);
    SAME(stdx::cartesian_product_copy(t, e), stdx::tuple<>);
    SAME(stdx::cartesian_product_copy(e, t), stdx::tuple<>);
}
VP_HARNESS(product_one, 2, q) {
    auto a = nd<u8>();
    auto b = nd<u16>();
    auto t = stdx::tuple{a, b};
    auto const c = stdx::cartesian_product_copy(t);
    SAME(c, stdx::tuple<stdx::tuple<u8>, stdx::tuple<u16>> const);
    CHECK(c == stdx::make_tuple(stdx::tuple{a}, stdx::tuple{b}));
    auto const r = stdx::cartesian_product(t);
    SAME(r, stdx::tuple<stdx::tuple<u8 &>, stdx::tuple<u16 &>> const);
    CHECK(adr(r[0_idx][0_idx]) == adr(t[0_idx]));
    CHECK(adr(r[1_idx][0_idx]) == adr(t[1_idx]));
}
VP_HARNESS(product_two, 2, q) {
    values<u8> x;
    values<u16> y;
    auto t1 = stdx::tuple{x.a, x.b};
    auto const t2 = stdx::tuple{y.a, y.b, y.c};
    auto const c = stdx::cartesian_product_copy(t1, t2);
    using P = stdx::tuple<u8, u16>;
    SAME(c, stdx::tuple<P, P, P, P, P, P> const);
    CHECK(c == stdx::make_tuple(P{x.a, y.a}, P{x.a, y.b}, P{x.a, y.c}, P{x.b, y.a}, P{x.b, y.b}, P{x.b, y.c}));
    auto const m = stdx::cartesian_product_copy(stdx::tuple{x.a, x.b}, stdx::tuple{y.a, y.b, y.c});
    CHECK(m == c);
    auto const r = stdx::cartesian_product(t1, t2);
    SAME(r[0_idx], stdx::tuple<u8 &, u16 const &> const &);
    CHECK(stdx::tuple_size_v<decltype(r)> == 6);
    auto const at = [&](auto i, auto const &p, auto const &q) {
        CHECK(adr(r[i][0_idx]) == &p);
        CHECK(adr(r[i][1_idx]) == &q);
    };
    at(0_idx, t1[0_idx], t2[0_idx]);
    at(1_idx, t1[0_idx], t2[1_idx]);
    at(2_idx, t1[0_idx], t2[2_idx]);
    at(3_idx, t1[1_idx], t2[0_idx]);
    at(4_idx, t1[1_idx], t2[1_idx]);
    at(5_idx, t1[1_idx], t2[2_idx]);
}
VP_HARNESS(product_three, 2, q) {
    values<u8> x;
    values<u16> y;
    values<u32> z;
    auto const t1 = stdx::tuple{x.a, x.b};
    auto const t2 = stdx::tuple{y.a};
    auto const t3 = stdx::tuple{z.a, z.b};
    using P = stdx::tuple<u8, u16, u32>;
    auto const expect = stdx::make_tuple(P{x.a, y.a, z.a}, P{x.a, y.a, z.b}, P{x.b, y.a, z.a}, P{x.b, y.a, z.b});
    auto const c = stdx::cartesian_product_copy(t1, t2, t3);
    SAME(c, stdx::tuple<P, P, P, P> const);
    CHECK(c == expect);
    auto const r = stdx::cartesian_product(t1, t2, t3);
    CHECK(stdx::tuple_size_v<decltype(r)> == 4);
    CHECK(adr(r[2_idx][0_idx]) == adr(t1[1_idx]));
    CHECK(adr(r[2_idx][1_idx]) == adr(t2[0_idx]));
    CHECK(adr(r[2_idx][2_idx]) == adr(t3[0_idx]));
    CHECK(adr(r[3_idx][2_idx]) == adr(t3[1_idx]));
    CHECK(r[0_idx] == expect[0_idx]);
    CHECK(r[1_idx] == expect[1_idx]);
    CHECK(r[2_idx] == expect[2_idx]);
    CHECK(r[3_idx] == expect[3_idx]);
}
// every combination keeps its values when the tuples are given up
VP_HARNESS(product_moves, 2, q) {
    values<u8> x;
    auto const c = stdx::cartesian_product_copy(stdx::tuple{tracked<u8>{x.a}, tracked<u8>{x.b}}, stdx::tuple{x.c, x.d});
    auto const at = [&](auto i, u8 p, u8 q) {
        CHECK(c[i][0_idx].v == p);
        CHECK(not c[i][0_idx].gone);
        CHECK(c[i][1_idx] == q);
    };
    at(0_idx, x.a, x.c);
    at(1_idx, x.a, x.d);
    at(2_idx, x.b, x.c);
    at(3_idx, x.b, x.d);
    auto const d = stdx::cartesian_product_copy(stdx::tuple<only<u8>, u8>{only<u8>{x.a}, x.b});
    CHECK(d[0_idx][0_idx].v == x.a);
    CHECK(not d[0_idx][0_idx].gone);
    CHECK(d[1_idx][0_idx] == x.b);
}
// element types from namespace std
VP_HARNESS(product_std, 2, q) {
    values<u8> x;
    using P = std::pair<u8, u8>;
    auto const p = P{x.a, x.b};
    auto const q = P{x.c, x.d};
    auto const t = stdx::tuple{p};
    auto const u = stdx::tuple{q, p};
    auto const c = stdx::cartesian_product_copy(t, u);
    CHECK(c[0_idx][0_idx] == p);
    CHECK(c[0_idx][1_idx] == q);
    CHECK(c[1_idx][0_idx] == p);
    CHECK(c[1_idx][1_idx] == p);
    auto const r = stdx::cartesian_product(t, u);
    CHECK(adr(r[0_idx][0_idx]) == adr(t[0_idx]));
    CHECK(adr(r[0_idx][1_idx]) == adr(u[0_idx]));
    CHECK(adr(r[1_idx][1_idx]) == adr(u[1_idx]));
}
VP_HARNESS(apply_many, 2, q) {
    values<u8> x;
    values<u16> y;
    values<u32> z;
    auto t1 = stdx::tuple{x.a, x.b};
    auto const t2 = stdx::tuple{y.a};
    auto const t3 = stdx::tuple{z.a, z.b, z.c};
    auto const all = [](auto... as) { return stdx::tuple{as...}; };
    CHECK(stdx::apply(all, t1) == stdx::tuple{x.a, x.b});
    CHECK(stdx::apply(all, t1, t2) == stdx::tuple{x.a, x.b, y.a});
    CHECK(stdx::apply(all, t3, t1, t2) == stdx::tuple{z.a, z.b, z.c, x.a, x.b, y.a});
    CHECK(stdx::apply(all, t2, stdx::tuple{}, t3) == stdx::tuple{y.a, z.a, z.b, z.c});
    CHECK(stdx::apply(all, t1, t1) == stdx::tuple{x.a, x.b, x.a, x.b});
    CHECK(stdx::apply(all, std::tuple{x.a}, std::array{y.a, y.b}) == stdx::tuple{x.a, y.a, y.b});
    auto rec = recorder{};
    CHECK(stdx::apply(rec, t1, t2) == rot(rot(rot(0, x.a), x.b), y.a));
    CHECK(rec.n == 1);
    SAME(stdx::apply([] { return 5; }, stdx::tuple{}, stdx::tuple{}), int);
    // lvalue tuples lend their elements, rvalue tuples give them up
    stdx::apply([&](u8 &p, u8 &, u16 const &q) { CHECK(&p == adr(t1[0_idx])); CHECK(&q == adr(t2[0_idx])); p = 3; }, t1, t2);
    CHECK(t1[0_idx] == 3);
    auto const s = stdx::apply([](only<u8> o, u8 v) { CHECK(not o.gone); return stdx::tuple{o.v, v}; }, stdx::tuple<only<u8>>{only<u8>{x.c}}, stdx::tuple{x.d});
    CHECK(s == stdx::tuple{x.c, x.d});
}
// products of more tuples: the last one changes fastest
VP_HARNESS(product_more, 2, q) {
    auto const x = nd_array<u8, 10>();
    auto t0 = stdx::tuple{x[0], x[1]};
    auto t1 = stdx::tuple{x[2], x[3]};
    auto t2 = stdx::tuple{x[4], x[5]};
    auto t3 = stdx::tuple{x[6], x[7]};
    auto t4 = stdx::tuple{x[8], x[9]};
    auto const c = stdx::cartesian_product_copy(t0, t1, t2, t3, t4);
    CHECK(stdx::tuple_size_v<std::remove_const_t<decltype(c)>> == 32);
    auto const r = stdx::cartesian_product(t0, t1, t2, t3);
    CHECK(stdx::tuple_size_v<std::remove_const_t<decltype(r)>> == 16);
    unroll<32>([&](auto k) {
        auto const &e = stdx::get<k>(c);
        CHECK(stdx::get<0>(e) == x[(k >> 4) & 1]);
        CHECK(stdx::get<1>(e) == x[2 + ((k >> 3) & 1)]);
        CHECK(stdx::get<2>(e) == x[4 + ((k >> 2) & 1)]);
        CHECK(stdx::get<3>(e) == x[6 + ((k >> 1) & 1)]);
        CHECK(stdx::get<4>(e) == x[8 + (k & 1)]);
    });
    unroll<16>([&](auto k) {
        auto const &e = stdx::get<k>(r);
        CHECK(adr(stdx::get<0>(e)) == adr(stdx::get<((k >> 3) & 1)>(t0)));
        CHECK(adr(stdx::get<1>(e)) == adr(stdx::get<((k >> 2) & 1)>(t1)));
        CHECK(adr(stdx::get<2>(e)) == adr(stdx::get<((k >> 1) & 1)>(t2)));
        CHECK(adr(stdx::get<3>(e)) == adr(stdx::get<(k & 1)>(t3)));
    });
}
// more than three tuples side by side
VP_HARNESS(side_by_side, 2, q) {
    auto const x = nd_array<u8, 10>();
    auto const t0 = stdx::tuple{x[0], x[1]};
    auto const t1 = stdx::tuple{x[2], x[3]};
    auto const t2 = stdx::tuple{x[4], x[5]};
    auto const t3 = stdx::tuple{x[6], x[7]};
    auto const t4 = stdx::tuple{x[8], x[9], x[0]};
    auto const five = [](auto... xs) { u32 h{1}; ((h = rot(h, xs)), ...); return h; };
    auto const want = [&](std::size_t k) { return five(x[k], x[2 + k], x[4 + k], x[6 + k], x[8 + k]); };
    auto const r = stdx::transform(five, t0, t1, t2, t3, t4);
    CHECK(stdx::tuple_size_v<std::remove_const_t<decltype(r)>> == 2);
    CHECK(r[0_idx] == want(0));
    CHECK(r[1_idx] == want(1));
    std::size_t calls{};
    stdx::for_each([&](auto... xs) { CHECK(five(xs...) == want(calls)); ++calls; }, t0, t1, t2, t3, t4);
    CHECK(calls == 2);
    calls = 0;
    stdx::enumerate([&]<auto I>(auto... xs) { CHECK(I == calls); CHECK(five(xs...) == want(I)); ++calls; }, t0, t1, t2, t3, t4);
    CHECK(calls == 2);
    auto const bound = nd<u32>();
    auto const small = [&](auto... xs) { return five(xs...) < bound; };
    CHECK(stdx::all_of(small, t0, t1, t2, t3, t4) == (want(0) < bound and want(1) < bound));
    CHECK(stdx::any_of(small, t0, t1, t2, t3, t4) == (want(0) < bound or want(1) < bound));
    CHECK(stdx::none_of(small, t0, t1, t2, t3, t4) == (want(0) >= bound and want(1) >= bound));
    CHECK(stdx::apply(five, t0, t1, t2, t3, t4) == five(x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8], x[9], x[0]));
}

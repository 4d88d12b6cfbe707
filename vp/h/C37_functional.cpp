// bind_front/bind_back, with_result_of, for_each_n_args, safe_identity, dereference and
// unary_plus: what the wrapped function sees, how often, and what comes back.
// VP-CONFIG a: -std=c++20 -Dconsteval=constexpr
// VP-CONFIG lookup: -std=c++20 -Dconsteval=constexpr -DLOOKUP=1
// VP-CONFIG std23: -std=c++23 -DVP_COPYABLE=1
#include "tuple_under_test.hpp"
#include <memory>
#include <stdx/for_each_n_args.hpp>
#include <stdx/functional.hpp>
using namespace vp;
using namespace stdx::literals;
using u8 = std::uint8_t;
using u16 = std::uint16_t;
using u32 = std::uint32_t;

namespace {
unsigned n{};
template <typename... Ts> auto all(Ts... ts) { ++n; return stdx::tuple<Ts...>{ts...}; }
constexpr auto pack = [](auto... ts) { ++n; return stdx::tuple{ts...}; };
auto sub3(u32 a, u32 b, u32 c) -> stdx::tuple<u32, u32, u32> { ++n; return {a, b, c}; }
// knows how it was called
struct categories {
    template <typename... Ts> auto operator()(Ts... ts) & { ++n; return stdx::tuple{1, ts...}; }
    template <typename... Ts> auto operator()(Ts... ts) const & { ++n; return stdx::tuple{2, ts...}; }
    template <typename... Ts> auto operator()(Ts... ts) && { ++n; return stdx::tuple{3, ts...}; }
};
constexpr auto rot(u32 a, u32 b) -> u32 { return ((a << 5) | (a >> 27)) ^ b; }
} // namespace

VP_HARNESS(front, 2, q) {
    auto const a = nd<u8>();
    auto const b = nd<u16>();
    auto const c = nd<u32>(), d = nd<u32>();
    CHECK(stdx::bind_front(pack)() == stdx::tuple{});
    CHECK(stdx::bind_front(pack)(a, b) == stdx::tuple{a, b});
    CHECK(stdx::bind_front(pack, a)() == stdx::tuple{a});
    CHECK(stdx::bind_front(pack, a)(b) == stdx::tuple{a, b});
    CHECK(stdx::bind_front(pack, a, b)(c) == stdx::tuple{a, b, c});
    CHECK(stdx::bind_front(pack, a)(b, c) == stdx::tuple{a, b, c});
    CHECK(stdx::bind_front(pack, a, b, c)(d, a, b) == stdx::tuple{a, b, c, d, a, b});
    CHECK(n == 7);
    CHECK(stdx::bind_front(sub3, c)(d, a) == stdx::tuple{c, d, u32{a}});
    CHECK(stdx::bind_front(&sub3, c, d)(b) == stdx::tuple{c, d, u32{b}});
    CHECK(n == 9);
    auto const f = stdx::bind_front(pack, a, b);
    CHECK(f(c) == stdx::tuple{a, b, c});
    CHECK(f(d) == stdx::tuple{a, b, d});
    CHECK(n == 11);
    // nested
    CHECK(stdx::bind_front(stdx::bind_front(pack, a), b)(c) == stdx::tuple{a, b, c});
}
VP_HARNESS(back, 2, q) {
    auto const a = nd<u8>();
    auto const b = nd<u16>();
    auto const c = nd<u32>(), d = nd<u32>();
    CHECK(stdx::bind_back(pack)() == stdx::tuple{});
    CHECK(stdx::bind_back(pack)(a, b) == stdx::tuple{a, b});
    CHECK(stdx::bind_back(pack, a)() == stdx::tuple{a});
    CHECK(stdx::bind_back(pack, a)(b) == stdx::tuple{b, a});
    CHECK(stdx::bind_back(pack, a, b)(c) == stdx::tuple{c, a, b});
    CHECK(stdx::bind_back(pack, a)(b, c) == stdx::tuple{b, c, a});
    CHECK(stdx::bind_back(pack, a, b, c)(d, a, b) == stdx::tuple{d, a, b, a, b, c});
    CHECK(n == 7);
    CHECK(stdx::bind_back(sub3, c)(d, a) == stdx::tuple{d, u32{a}, c});
    CHECK(stdx::bind_back(&sub3, c, d)(b) == stdx::tuple{u32{b}, c, d});
    CHECK(n == 9);
    auto const f = stdx::bind_back(pack, a, b);
    CHECK(f(c) == stdx::tuple{c, a, b});
    CHECK(f(d) == stdx::tuple{d, a, b});
    CHECK(n == 11);
    CHECK(stdx::bind_back(stdx::bind_front(pack, a), b)(c) == stdx::tuple{a, c, b});
}
VP_HARNESS(front_value, 2, q) {
    auto const a = nd<u8>();
    auto const b = nd<u16>();
    auto const c = nd<u32>(), d = nd<u32>();
    constexpr auto l = [](auto... ts) { ++n; return stdx::tuple{ts...}; };
    CHECK(stdx::bind_front<l>()() == stdx::tuple{});
    CHECK(stdx::bind_front<l>(a)(b, c) == stdx::tuple{a, b, c});
    CHECK(stdx::bind_front<l>(a, b)(c, d) == stdx::tuple{a, b, c, d});
    CHECK(stdx::bind_front<&sub3>(c)(d, a) == stdx::tuple{c, d, u32{a}});
    CHECK(stdx::bind_front<&sub3>(c, d, a)() == stdx::tuple{c, d, u32{a}});
    CHECK(n == 5);
    auto f = stdx::bind_front<l>(a, b);
    CHECK(f(c) == stdx::tuple{a, b, c});
    CHECK(std::as_const(f)(d) == stdx::tuple{a, b, d});
    CHECK(std::move(f)(d) == stdx::tuple{a, b, d});
    CHECK(n == 8);
}
VP_HARNESS(back_value, 2, q) {
    auto const a = nd<u8>();
    auto const b = nd<u16>();
    auto const c = nd<u32>(), d = nd<u32>();
    constexpr auto l = [](auto... ts) { ++n; return stdx::tuple{ts...}; };
    CHECK(stdx::bind_back<l>()() == stdx::tuple{});
    CHECK(stdx::bind_back<l>(a)(b, c) == stdx::tuple{b, c, a});
    CHECK(stdx::bind_back<l>(a, b)(c, d) == stdx::tuple{c, d, a, b});
    CHECK(stdx::bind_back<&sub3>(c)(d, a) == stdx::tuple{d, u32{a}, c});
    CHECK(stdx::bind_back<&sub3>(c, d, a)() == stdx::tuple{c, d, u32{a}});
    CHECK(n == 5);
    auto f = stdx::bind_back<l>(a, b);
    CHECK(f(c) == stdx::tuple{c, a, b});
    CHECK(std::as_const(f)(d) == stdx::tuple{d, a, b});
    CHECK(std::move(f)(d) == stdx::tuple{d, a, b});
    CHECK(n == 8);
}
// the wrapper passes its own constness and value category on
VP_HARNESS(categories_kept, 2, q) {
    auto const a = nd<u8>(), b = nd<u8>();
    auto f = stdx::bind_front(categories{}, a);
    CHECK(f(b) == stdx::tuple{1, a, b});
    CHECK(std::as_const(f)(b) == stdx::tuple{2, a, b});
    CHECK(std::move(f)(b) == stdx::tuple{3, a, b});
    auto g = stdx::bind_back(categories{}, a);
    CHECK(g(b) == stdx::tuple{1, b, a});
    CHECK(std::as_const(g)(b) == stdx::tuple{2, b, a});
    CHECK(std::move(g)(b) == stdx::tuple{3, b, a});
    CHECK(n == 6);
}
// bound values are copies that the function can be given to change, or to take over
VP_HARNESS(bound_values, 2, q) {
    auto a = nd<u8>();
    auto const was = a;
    auto f = stdx::bind_front([](u8 &x, u8 y) { auto const r = x; x = y; return r; }, a);
    auto const v = nd<u8>(), w = nd<u8>();
    a = nd<u8>();
    auto const now = a;
    CHECK(f(v) == was);
    CHECK(f(w) == v);
    CHECK(a == now);
    auto g = stdx::bind_back([](u8 y, u8 &x) { auto const r = x; x = y; return r; }, v);
    CHECK(g(w) == v);
    CHECK(g(v) == w);
    u8 r{};
    auto h = stdx::bind_front([](u8 &x, u8 &y) { x = y; y = 1; }, std::ref(r));
    u8 s{w};
    h(s);
    CHECK(r == w);
    CHECK(s == 1);
}
VP_HARNESS(bound_moves, 2, q) {
    auto const a = nd<u8>(), b = nd<u8>(), c = nd<u8>();
    auto f = stdx::bind_front([](only<u8> x, only<u8> y) { CHECK(not x.gone); CHECK(not y.gone); return stdx::tuple{x.v, y.v}; }, only<u8>{a});
    CHECK(std::move(f)(only<u8>{b}) == stdx::tuple{a, b});
    auto g = stdx::bind_back([](only<u8> x, only<u8> y) { CHECK(not x.gone); CHECK(not y.gone); return stdx::tuple{x.v, y.v}; }, only<u8>{a});
    CHECK(std::move(g)(only<u8>{b}) == stdx::tuple{b, a});
    constexpr auto l = [](only<u8> x, only<u8> y) { CHECK(not x.gone); CHECK(not y.gone); return stdx::tuple{x.v, y.v}; };
    CHECK(stdx::bind_front<l>(only<u8>{a})(only<u8>{c}) == stdx::tuple{a, c});
    CHECK(stdx::bind_back<l>(only<u8>{a})(only<u8>{c}) == stdx::tuple{c, a});
    // an lvalue wrapper keeps what is bound
    auto k = stdx::bind_front([](auto x) { return x.v; }, tracked<u8>{a});
    auto m = stdx::bind_back([](auto const &x) { CHECK(not x.gone); return x.v; }, tracked<u8>{b});
    CHECK(k() == a);
    CHECK(k() == a);
    CHECK(std::as_const(k)() == a);
    CHECK(m() == b);
    CHECK(m() == b);
    auto p = stdx::bind_front([](tracked<u8> x) { CHECK(not x.gone); return x.v; }, tracked<u8>{c});
    CHECK(p() == c);
    CHECK(p() == c);
    auto q = stdx::bind_back<[](tracked<u8> x) { CHECK(not x.gone); return x.v; }>(tracked<u8>{c});
    CHECK(q() == c);
    CHECK(q() == c);
    auto s = stdx::bind_front<[](tracked<u8> x) { CHECK(not x.gone); return x.v; }>(tracked<u8>{c});
    CHECK(s() == c);
    CHECK(s() == c);
}
// what is given at the call, or to bind, as an lvalue stays as it is
VP_HARNESS(lvalues_kept, 2, q) {
    auto const a = nd<u8>(), b = nd<u8>();
    tracked<u8> x{a}, y{b};
    constexpr auto l = [](tracked<u8> p, tracked<u8> q) { CHECK(not p.gone); CHECK(not q.gone); return stdx::tuple{p.v, q.v}; };
    auto const each = [&](auto f, stdx::tuple<u8, u8> const &expected) {
        CHECK(not x.gone);
        CHECK(f(y) == expected);
        CHECK(not y.gone);
        CHECK(std::as_const(f)(y) == expected);
        CHECK(not y.gone);
        CHECK(std::move(f)(y) == expected);
        CHECK(not y.gone);
        CHECK(not x.gone);
    };
    each(stdx::bind_front(l, x), {a, b});
    each(stdx::bind_back(l, x), {b, a});
    each(stdx::bind_front<l>(x), {a, b});
    each(stdx::bind_back<l>(x), {b, a});
    struct function {
        tracked<u8> t;
        auto operator()(u8 p, u8 q) const { CHECK(not t.gone); return stdx::tuple{t.v, p, q}; }
    } k{x};
    auto f = stdx::bind_front(k, a);
    auto g = stdx::bind_back(k, a);
    CHECK(not k.t.gone);
    CHECK(f(b) == stdx::tuple{a, a, b});
    CHECK(g(b) == stdx::tuple{a, b, a});
}
// a function that can only be moved can be bound
VP_HARNESS(function_moves, 2, q) {
    auto const a = nd<u8>(), b = nd<u8>();
    auto const make = [&] { return [o = only<u8>{a}](u8 p, u8 q) { CHECK(not o.gone); return stdx::tuple{o.v, p, q}; }; };
    auto f = stdx::bind_front(make(), b);
    CHECK(f(a) == stdx::tuple{a, b, a});
    auto g = stdx::bind_back(make(), b);
    CHECK(g(a) == stdx::tuple{a, a, b});
    auto k = make();
    auto h = stdx::bind_back(std::move(k), b);
    CHECK(std::move(h)(a) == stdx::tuple{a, a, b});
    auto m = make();
    auto r = stdx::bind_front(std::move(m), b);
    auto s = std::move(r);
    CHECK(s(a) == stdx::tuple{a, b, a});
}
VP_HARNESS(result_of, 2, q) {
    auto const a = nd<u32>();
    auto const w = stdx::with_result_of{[&] { ++n; return a ^ 1u; }};
    CHECK(n == 0);
    u32 const r = w;
    CHECK(r == (a ^ 1u));
    CHECK(n == 1);
    auto const f = [](u32 x) { return x; };
    CHECK(f(w) == (a ^ 1u));
    CHECK(n == 2);
    auto m = stdx::with_result_of{[k = a]() mutable { ++n; return k ^= 1u; }};
    u32 const r1 = m;
    u32 const r2 = m;
    CHECK(r1 == (a ^ 1u));
    CHECK(r2 == a);
    CHECK(n == 4);
    // usable to make what can be neither copied nor moved
    struct fixed { u32 v; fixed(u32 x) : v{x} {} fixed(fixed &&) = delete; };
    fixed const x = stdx::with_result_of{[&] { ++n; return fixed{a}; }};
    CHECK(x.v == a);
    CHECK(n == 5);
    only<u32> const o = stdx::with_result_of{[&] { return only<u32>{a}; }};
    CHECK(o.v == a);
    CHECK(not o.gone);
}
VP_HARNESS(n_args, 2, q) {
    auto const v = nd_array<u32, 6>();
    u32 h{};
    stdx::for_each_n_args([&](u32 x) { ++n; h = rot(h, x); }, v[0], v[1], v[2]);
    CHECK(n == 3);
    CHECK(h == rot(rot(rot(0, v[0]), v[1]), v[2]));
    n = 0;
    h = 0;
    stdx::for_each_n_args([&](u32 x, u32 y) { ++n; h = rot(rot(rot(h, x), y), n); }, v[0], v[1], v[2], v[3]);
    CHECK(n == 2);
    CHECK(h == rot(rot(rot(rot(rot(rot(0, v[0]), v[1]), 1), v[2]), v[3]), 2));
    n = 0;
    h = 0;
    stdx::for_each_n_args([&](u32 x, u32 y, u32 z) { ++n; h = rot(rot(rot(rot(h, x), y), z), n); }, v[0], v[1], v[2], v[3], v[4], v[5]);
    CHECK(n == 2);
    CHECK(h == rot(rot(rot(rot(rot(rot(rot(rot(0, v[0]), v[1]), v[2]), 1), v[3]), v[4]), v[5]), 2));
    n = 0;
    stdx::for_each_n_args([&](u32, u32) { ++n; });
    CHECK(n == 0);
    // given batch sizes
    h = 0;
    stdx::for_each_n_args<2>([&](auto... xs) { CHECK(sizeof...(xs) == 2); ++n; ((h = rot(h, static_cast<u32>(xs))), ...); }, v[0], static_cast<u8>(v[1]), v[2], v[3], v[4], v[5]);
    CHECK(n == 3);
    CHECK(h == rot(rot(rot(rot(rot(rot(0, v[0]), static_cast<u8>(v[1])), v[2]), v[3]), v[4]), v[5]));
    n = 0;
    h = 0;
    stdx::for_each_n_args<1>([&](u32 x, u32 y = 42) { ++n; h = rot(rot(h, x), y); }, v[0], v[1]);
    CHECK(n == 2);
    CHECK(h == rot(rot(rot(rot(0, v[0]), 42), v[1]), 42));
}
// more arguments
VP_HARNESS(longer, 2, q) {
    auto const v = nd_array<u32, 12>();
    u32 h{};
    auto const all = [&](auto... xs) {
        h = 0;
        ((h = rot(h, xs)), ...);
        return h;
    };
    auto const e = all(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8]);
    CHECK(stdx::bind_front(all, v[0], v[1], v[2], v[3], v[4])(v[5], v[6], v[7], v[8]) == e);
    CHECK(stdx::bind_back(all, v[4], v[5], v[6], v[7], v[8])(v[0], v[1], v[2], v[3]) == e);
    auto const f = stdx::bind_front(all, v[0], v[1], v[2], v[3], v[4], v[5]);
    CHECK(f(v[6], v[7], v[8]) == e);
    auto b = stdx::bind_back(all, v[3], v[4], v[5], v[6], v[7], v[8]);
    CHECK(b(v[0], v[1], v[2]) == e);
    CHECK(std::as_const(b)(v[0], v[1], v[2]) == e);
    CHECK(std::move(b)(v[0], v[1], v[2]) == e);
    auto f2 = f;
    CHECK(f2(v[6], v[7], v[8]) == e);
    CHECK(std::move(f2)(v[6], v[7], v[8]) == e);
    constexpr auto of = [](auto... xs) { u32 k{}; ((k = rot(k, xs)), ...); return k; };
    auto fv = stdx::bind_front<of>(v[0], v[1], v[2], v[3], v[4], v[5], v[6]);
    CHECK(fv(v[7], v[8]) == e);
    CHECK(std::as_const(fv)(v[7], v[8]) == e);
    CHECK(std::move(fv)(v[7], v[8]) == e);
    auto bv = stdx::bind_back<of>(v[2], v[3], v[4], v[5], v[6], v[7], v[8]);
    CHECK(bv(v[0], v[1]) == e);
    CHECK(std::as_const(bv)(v[0], v[1]) == e);
    CHECK(std::move(bv)(v[0], v[1]) == e);
    h = 0;
    u32 g{};
    n = 0;
    stdx::for_each_n_args([&](u32 x, u32 y) { CHECK(x == v[2 * n] and y == v[2 * n + 1]); ++n; g = rot(rot(g, x), y); }, v[0], v[1], v[2], v[3],
                          v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11]);
    CHECK(n == 6);
    n = 0;
    stdx::for_each_n_args([&](u32 x) { CHECK(x == v[n]); ++n; }, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11]);
    CHECK(n == 12);
    n = 0;
    stdx::for_each_n_args<4>([&](auto... xs) { u32 k{}; ([&] { CHECK(xs == v[4 * n + k]); ++k; }(), ...); ++n; }, v[0], v[1], v[2], v[3], v[4],
                             v[5], v[6], v[7], v[8], v[9], v[10], v[11]);
    CHECK(n == 3);
    n = 0;
    stdx::for_each_n_args<6>([&](auto... xs) { u32 k{}; ([&] { CHECK(xs == v[6 * n + k]); ++k; }(), ...); CHECK(k == 6); ++n; }, v[0], v[1], v[2],
                             v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11]);
    CHECK(n == 2);
    n = 0;
    stdx::for_each_n_args<12>([&](auto... xs) { u32 k{}; ([&] { CHECK(xs == v[k]); ++k; }(), ...); CHECK(k == 12); ++n; }, v[0], v[1], v[2],
                              v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11]);
    CHECK(n == 1);
}
VP_HARNESS(n_args_forwarded, 2, q) {
    auto const a = nd<u8>(), b = nd<u8>(), c = nd<u8>(), d = nd<u8>();
    u8 x{a}, y{b};
    stdx::for_each_n_args([&](u8 &p, u8 q) { ++n; p = q; }, x, c, y, d);
    CHECK(n == 2);
    CHECK(x == c);
    CHECK(y == d);
    u32 h{};
    stdx::for_each_n_args([&](only<u8> p) { CHECK(not p.gone); h = rot(h, p.v); }, only<u8>{a}, only<u8>{b});
    CHECK(h == rot(rot(0, a), b));
    struct counter { u32 k{}; void operator()(u8 p) { k = rot(k, p); } } cnt;
    stdx::for_each_n_args(cnt, a, b, c);
    CHECK(cnt.k == rot(rot(rot(0, a), b), c));
    auto t = tracked<u8>{a};
    stdx::for_each_n_args([&](tracked<u8> const &p) { CHECK(&p == &t); }, t);
    CHECK(not t.gone);
    auto t2 = tracked<u8>{b}, t3 = tracked<u8>{c};
    stdx::for_each_n_args([](tracked<u8> p, tracked<u8> q) { CHECK(not p.gone); CHECK(not q.gone); }, t, t2, t3, tracked<u8>{d});
    CHECK(not t.gone);
    CHECK(not t2.gone);
    CHECK(not t3.gone);
    stdx::for_each_n_args<1>([](auto &&p) { CHECK(std::is_same_v<decltype(p), tracked<u8> &>); }, t, t2);
    stdx::for_each_n_args<2>([](auto &&p, auto &&q) {
        CHECK(std::is_same_v<decltype(p), tracked<u8> const &>);
        CHECK(std::is_same_v<decltype(q), tracked<u8> &&>); }, std::as_const(t), tracked<u8>{d}, std::as_const(t2), std::move(t3));
    // members
    struct node { u8 v; u32 s{}; void take(u8 k) { ++n; s = k ^ v; } } n1{a}, n2{b};
    n = 0;
    stdx::for_each_n_args<2>(&node::take, n1, c, &n2, d);
    CHECK(n == 2);
    CHECK(n1.s == (a ^ c));
    CHECK(n2.s == (b ^ d));
}
VP_HARNESS(identity, 2, q) {
    auto a = nd<u32>();
    SAME(stdx::safe_identity(a), u32 &);
    CHECK(adr(stdx::safe_identity(a)) == &a);
    SAME(stdx::safe_identity(std::as_const(a)), u32 const &);
    CHECK(adr(stdx::safe_identity(std::as_const(a))) == &a);
    SAME(stdx::safe_identity(nd<u32>()), u32);
    CHECK(stdx::safe_identity(u32{a}) == a);
    auto const o = stdx::safe_identity(only<u32>{a});
    SAME(stdx::safe_identity(only<u32>{a}), only<u32>);
    CHECK(o.v == a);
    CHECK(not o.gone);
}
VP_HARNESS(deref, 2, q) {
    auto a = nd<u32>();
    u32 *p = &a;
    CHECK(adr(stdx::dereference<>{}(p)) == &a);
    CHECK(adr(stdx::dereference<u32 *>{}(p)) == &a);
    SAME(stdx::dereference<>{}(p), u32 &);
    auto const *q = p;
    SAME(stdx::dereference<>{}(q), u32 const &);
    CHECK(adr(stdx::dereference<>{}(q)) == &a);
    struct box { u32 v; auto operator*() & -> u32 & { return v; } auto operator*() && -> u32 { return v ^ 1u; } } b{a};
    CHECK(stdx::dereference<>{}(b) == a);
    CHECK(stdx::dereference<>{}(std::move(b)) == (a ^ 1u));
    CHECK(stdx::dereference<box>{}(box{a}) == (a ^ 1u));
    CHECK(adr(stdx::dereference<box>{}(b)) == &b.v);
}
VP_HARNESS(plus, 2, q) {
    auto const a = nd<u8>();
    auto const b = nd<std::int16_t>();
    auto const c = nd<u32>();
    auto const d = nd<std::int64_t>();
    SAME(stdx::unary_plus<>{}(a), int);
    CHECK(stdx::unary_plus<>{}(a) == +a);
    CHECK(stdx::unary_plus<u8>{}(a) == +a);
    CHECK(stdx::unary_plus<>{}(b) == +b);
    CHECK(stdx::unary_plus<std::int16_t>{}(b) == b);
    SAME(stdx::unary_plus<>{}(c), u32);
    CHECK(stdx::unary_plus<>{}(c) == c);
    CHECK(stdx::unary_plus<u32>{}(c) == c);
    CHECK(stdx::unary_plus<>{}(d) == d);
    struct num { u32 v; auto operator+() const & -> u32 { return v; } auto operator+() && -> u32 { return v ^ 1u; } } x{c};
    CHECK(stdx::unary_plus<>{}(x) == c);
    CHECK(stdx::unary_plus<num>{}(x) == c);
    CHECK(stdx::unary_plus<>{}(num{c}) == (c ^ 1u));
    CHECK(stdx::unary_plus<num>{}(num{c}) == (c ^ 1u));
}

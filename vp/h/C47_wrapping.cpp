// Wrapping and forwarding: values come through unchanged and are computed once, and the right
// function of an overload set is called.
// VP-CONFIG a: -std=c++20
// VP-CONFIG std23: -std=c++23
#include "tuple_under_test.hpp"
#include <stdx/priority.hpp>
#include <stdx/type_traits.hpp>
#include <stdx/utility.hpp>
#include <string_view>
using namespace vp;
using u8 = std::uint8_t;
using u16 = std::uint16_t;
using u32 = std::uint32_t;
using u64 = std::uint64_t;
using i64 = std::int64_t;

namespace {
template <typename T> auto unwrap(T const &t) {
    if constexpr (stdx::is_cx_value_v<T>) {
        return t();
    } else {
        return t;
    }
}
template <typename T> constexpr bool wrapped = stdx::is_cx_value_v<std::remove_cvref_t<T>>;
u32 global_count{};
auto counted(u32 x) -> u32 {
    ++global_count;
    return x;
}
struct pair_of {
    u8 a;
    u16 b;
    friend auto operator==(pair_of const &, pair_of const &) -> bool = default;
};
enum struct color : u8 { red, green = 7 };
constexpr u32 fixed_value = 0xdead'beefu;
template <typename T> void through(T x) {
    CHECK(same<decltype(CX_WRAP(x)), T>);
    CHECK(unwrap(CX_WRAP(x)) == x);
    CHECK(same<decltype(CT_WRAP(x)), T>);
    CHECK(CT_WRAP(x) == x);
    auto const copy = CX_WRAP(x);
    auto const copy2 = CT_WRAP(x);
    CHECK(unwrap(copy) == x);
    CHECK(copy2 == x);
    T &ref = x;
    CHECK(unwrap(CX_WRAP(ref)) == x);
    CHECK(CT_WRAP(ref) == x);
}
} // namespace
VP_HARNESS(run_time_u8, 2, q) { through(nd<u8>()); }
VP_HARNESS(run_time_u64, 2, q) { through(nd<u64>()); }
VP_HARNESS(run_time_i64, 2, q) { through(nd<i64>()); }
VP_HARNESS(run_time_bool, 2, q) { through(nd<bool>()); }
VP_HARNESS(run_time_enum, 2, q) { through(nd<bool>() ? color::red : color::green); }
VP_HARNESS(run_time_class, 2, q) { through(pair_of{nd<u8>(), nd<u16>()}); }
VP_HARNESS(run_time_pointer, 2, q) {
    u8 v[3]{};
    through(v + below<std::size_t>(3));
}
VP_HARNESS(computed_once, 2, q) {
    auto const x = nd<u32>();
    auto y = x;
    global_count = 0;
    auto const r = CX_WRAP(counted(y));
    CHECK(unwrap(r) == x);
    CHECK(global_count == 1);
    auto const s = CT_WRAP(counted(y));
    CHECK(s == x);
    CHECK(global_count == 2);
    auto const t = CX_WRAP(y + 1u);
    CHECK(unwrap(t) == x + 1u);
    auto const u = CT_WRAP(y ^ 1u);
    CHECK(u == (x ^ 1u));
}
VP_HARNESS(compile_time, 6, q) {
    constexpr auto a = CX_VALUE(std::string_view{"hello"});
    CHECK(a().size() == 5 and a()[0] == 'h' and a()[4] == 'o');
    CHECK(wrapped<decltype(a)>);
    CHECK(CX_VALUE(17)() == 17);
    CHECK(CX_VALUE(fixed_value)() == fixed_value);
    CHECK((CX_VALUE(pair_of{3, 4})() == pair_of{3, 4}));
    CHECK((same<decltype(CX_VALUE(int)()), stdx::type_identity<int>>));
    CHECK((same<decltype(CX_VALUE(u8{1})()), u8>));
    // wrapping what is known at compile time keeps it known
    CHECK(wrapped<decltype(CX_WRAP(17))>);
    CHECK(CX_WRAP(17)() == 17);
    CHECK(CX_WRAP(fixed_value)() == fixed_value);
    CHECK(wrapped<decltype(CX_WRAP(fixed_value))>);
    CHECK(CX_WRAP(color::green)() == color::green);
    CHECK((same<decltype(CX_WRAP(u16)), stdx::type_identity<u16>>));
    CHECK(CX_WRAP(a)().size() == 5);
    CHECK(CT_WRAP(fixed_value).value == fixed_value);
    CHECK(CT_WRAP(u8{9}).value == 9);
    CHECK((same<decltype(CT_WRAP(fixed_value)), std::integral_constant<u32, fixed_value>>));
    CHECK((stdx::ct<42>().value == 42));
    CHECK((same<decltype(stdx::ct<u8{42}>()), std::integral_constant<u8, 42>>));
    CHECK((stdx::ct<color::green>().value == color::green));
    CHECK((same<decltype(stdx::ct<u8>()), stdx::type_identity<u8>>));
    auto const ic = std::integral_constant<int, 6>{};
    CHECK((same<std::remove_cvref_t<decltype(CT_WRAP(ic))>, std::integral_constant<int, 6>>));
    CHECK((same<std::remove_cvref_t<decltype(CX_WRAP(ic))>, std::integral_constant<int, 6>>));
    CHECK(stdx::is_ct_v<decltype(ic)>);
    CHECK(not stdx::is_ct_v<int>);
}
// forwarding one object as if it were another
namespace {
template <typename T, typename U, typename R> void like() {
    using V = std::remove_cvref_t<U>;
    auto v = V{nd<u8>()};
    auto const before = v;
    CHECK((same<stdx::forward_like_t<T, U>, R>));
    CHECK((same<decltype(stdx::forward_like<T>(static_cast<U &&>(v))), R>));
    auto &&r = stdx::forward_like<T>(static_cast<U &&>(v));
    CHECK(&r == &v);
    CHECK(v == before);
}
template <typename T, typename Shape> void like_all() {
    // U as an lvalue, an rvalue, and const
    constexpr bool constant = std::is_const_v<std::remove_reference_t<T>>;
    using X = std::conditional_t<constant, u8 const, u8>;
    using R = std::conditional_t<std::is_lvalue_reference_v<T>, X &, X &&>;
    using CR = std::conditional_t<std::is_lvalue_reference_v<T>, u8 const &, u8 const &&>;
    if constexpr (Shape::value == 0) {
        like<T, u8, R>();
        like<T, u8 &&, R>();
        like<T, u8 const &&, CR>();
    } else {
        like<T, u8 &, R>();
        like<T, u8 const &, CR>();
    }
}
using rvalues = std::integral_constant<int, 0>;
using lvalues = std::integral_constant<int, 1>;
} // namespace
VP_HARNESS(forward_like_rvalue, 2, q) {
    like_all<int, rvalues>();
    like_all<int &, rvalues>();
    like_all<int const, rvalues>();
    like_all<int const &, rvalues>();
    like_all<int &&, rvalues>();
    like_all<int const &&, rvalues>();
}
VP_HARNESS(forward_like_lvalue, 2, q) {
    like_all<int, lvalues>();
    like_all<int &, lvalues>();
    like_all<int const, lvalues>();
    like_all<int const &, lvalues>();
    like_all<int &&, lvalues>();
    like_all<int const &&, lvalues>();
}
// a member forwarded like the object it belongs to is moved from exactly when the object is given up
VP_HARNESS(forward_like_member, 2, q) {
    auto const a = nd<u8>();
    struct holder {
        tracked<u8> m;
    };
    auto take = [](auto &&h) { return tracked<u8>{stdx::forward_like<decltype(h)>(h.m)}; };
    auto h = holder{tracked<u8>{a}};
    auto const k = take(h);
    CHECK(k.v == a and not h.m.gone);
    auto const l = take(std::as_const(h));
    CHECK(l.v == a and not h.m.gone);
    auto const g = take(std::move(h));
    CHECK(g.v == a and not g.gone and h.m.gone);
}
VP_HARNESS(forwarding, 2, q) {
    auto const a = nd<u8>();
    auto pass = [](auto &&x) { return tracked<u8>{FWD(x)}; };
    auto t = tracked<u8>{a};
    auto const k = pass(t);
    CHECK(k.v == a and not t.gone);
    auto const g = pass(std::move(t));
    CHECK(g.v == a and t.gone and not g.gone);
    auto whole = [](auto &&x) -> decltype(auto) { return FWD(x); };
    auto v = a;
    CHECK(adr(whole(v)) == &v);
    CHECK((same<decltype(whole(v)), u8 &>));
    CHECK((same<decltype(whole(std::move(v))), u8 &&>));
    CHECK((same<decltype(whole(std::as_const(v))), u8 const &>));
}
// an overload set calls the function for the type, with the value
VP_HARNESS(overloads, 2, q) {
    unsigned called[4]{};
    u64 seen{};
    auto o = stdx::overload{[&](u8 x) { ++called[0]; seen = x; return 1; },
                            [&](u32 x) { ++called[1]; seen = x; return 2; },
                            [&](bool x) { ++called[2]; seen = x; return 3; },
                            [&](auto const *x) { ++called[3]; seen = *x; return 4; }};
    auto const a = nd<u8>();
    auto const b = nd<u32>();
    auto const c = nd<bool>();
    auto const d = nd<u16>();
    CHECK(o(a) == 1 and seen == a);
    CHECK(o(b) == 2 and seen == b);
    CHECK(o(c) == 3 and seen == c);
    CHECK(o(&d) == 4 and seen == d);
    CHECK(called[0] == 1 and called[1] == 1 and called[2] == 1 and called[3] == 1);
    // every function keeps its own state
    struct first { u8 n; auto operator()(u8) -> u8 { return n++; } };
    struct second { u8 n; auto operator()(u16) -> u8 { return n++; } };
    auto s = stdx::overload{first{a}, second{c}};
    CHECK(s(u8{}) == a);
    CHECK(s(u8{}) == static_cast<u8>(a + 1));
    CHECK(s(u16{}) == c);
    CHECK(static_cast<first &>(s).n == static_cast<u8>(a + 2));
    CHECK(static_cast<second &>(s).n == c + 1);
}
// the best function that fits is called
namespace {
template <typename T>
    requires(sizeof(T) == 1)
auto pick(T x, stdx::priority_t<2>) -> u32 { return 200 + (x & 0x3f); }
template <typename T>
    requires(sizeof(T) <= 2)
auto pick(T x, stdx::priority_t<1>) -> u32 { return 1000 + (x & 0x3f); }
template <typename T> auto pick(T x, stdx::priority_t<0>) -> u32 { return 3000 + (x & 0x3f); }
auto rank(stdx::priority_t<0>) { return 0; }
auto rank(stdx::priority_t<3>) { return 3; }
auto rank(stdx::priority_t<5>) { return 5; }
} // namespace
VP_HARNESS(priorities, 2, q) {
    auto const a = nd<u8>();
    auto const b = nd<u16>();
    auto const c = nd<u32>();
    CHECK(pick(a, stdx::priority<2>) == 200u + (a & 0x3f));
    CHECK(pick(b, stdx::priority<2>) == 1000u + (b & 0x3f));
    CHECK(pick(c, stdx::priority<2>) == 3000u + (c & 0x3f));
    CHECK(pick(a, stdx::priority<1>) == 1000u + (a & 0x3f));
    CHECK(pick(a, stdx::priority<0>) == 3000u + (a & 0x3f));
    auto const k = below<std::size_t>(9);
    int r{-1};
    unroll<9>([&](auto i) {
        if (k == i) { r = rank(stdx::priority<i()>); }
    });
    CHECK(r == (k >= 5 ? 5 : k >= 3 ? 3 : 0));
}
// shrinking and expanding
VP_HARNESS(shrinking, 2, q) {
    struct empty { auto operator==(empty const &) const -> bool = default; };
    auto const x = nd<u16>();
    auto y = x;
    CHECK(adr(stdx::expand(y)) == &y);
    CHECK(adr(stdx::expand(std::as_const(y))) == &y);
    CHECK(stdx::expand(y) == x);
    CHECK((same<decltype(stdx::expand(stdx::shrink(empty{}))), empty>));
    CHECK((same<stdx::expand_t<stdx::shrink_t<tagged<3>>>, tagged<3>>));
    CHECK((same<stdx::expand_t<u8>, u8>));
}

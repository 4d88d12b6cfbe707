// transform, and_then, or_else and comparisons of optional against std::optional.
// VP-CONFIG a: -std=c++20 -DPART=1
// VP-CONFIG b: -std=c++20 -DPART=2
// VP-CONFIG std23: -std=c++23 -DPART=3
#include "vp.hpp"
#include <stdx/optional.hpp>
#include <optional>
#include <tuple>
using namespace vp;

namespace {
struct S {
    std::uint16_t v{};
    constexpr explicit S(std::uint16_t x) : v{x} {}
    friend auto operator==(S const &a, S const &b) -> bool { return a.v == b.v; }
    friend auto operator<(S const &a, S const &b) -> bool { return a.v < b.v; }
};
struct R {
    std::uint32_t v{};
    constexpr explicit R(std::uint32_t x) : v{x} {}
    friend auto operator==(R const &a, R const &b) -> bool { return a.v == b.v; }
};
struct fixed { // cannot be copied or moved
    std::uint32_t v{};
    explicit fixed(std::uint32_t x) : v{x} {}
    fixed(fixed &&) = delete;
    friend auto operator==(fixed const &a, fixed const &b) -> bool { return a.v == b.v; }
};
// should only be moved: copying does not compile, or fails
template <bool Copies> struct mover {
    std::uint16_t v{};
    explicit mover(std::uint16_t x) : v{x} {}
    mover(mover const &o)
        requires Copies
        : v{o.v} {
        CHECK(not "copied");
    }
    mover(mover &&o) noexcept : v{std::exchange(o.v, std::uint16_t{0xdead})} {}
    auto operator=(mover &&o) noexcept -> mover & { v = std::exchange(o.v, std::uint16_t{0xdead}); return *this; }
    friend auto operator==(mover const &a, mover const &b) -> bool { return a.v == b.v; }
};
constexpr std::uint16_t stone = 0xffff;
constexpr std::uint32_t stone32 = 0x80000000u;
} // namespace
template <> struct stdx::tombstone_traits<S> {
    constexpr auto operator()() const { return S{stone}; }
};
template <> struct stdx::tombstone_traits<R> {
    constexpr auto operator()() const { return R{stone32}; }
};
template <> struct stdx::tombstone_traits<fixed> {
    auto operator()() const { return fixed{stone32}; }
};
template <bool C> struct stdx::tombstone_traits<mover<C>> {
    auto operator()() const { return mover<C>{stone}; }
};

namespace {
// the value category and constness the function was called with
enum how { lvalue = 1, const_lvalue, rvalue, const_rvalue };
template <typename A> constexpr auto category() -> how {
    if constexpr (std::is_lvalue_reference_v<A>) {
        return std::is_const_v<std::remove_reference_t<A>> ? const_lvalue : lvalue;
    } else {
        return std::is_const_v<std::remove_reference_t<A>> ? const_rvalue : rvalue;
    }
}
struct call {
    unsigned calls{};
    void const *object{};
    std::uint32_t value{};
    how as{};
};
template <how H, typename O> auto as(O &o) -> decltype(auto) {
    if constexpr (H == lvalue) { return (o); }
    else if constexpr (H == const_lvalue) { return std::as_const(o); }
    else if constexpr (H == rvalue) { return std::move(o); }
    else { return std::move(std::as_const(o)); }
}

template <how H> void monadic() {
    auto const v = nd<std::uint16_t>();
    auto const result = nd<std::uint32_t>();
    auto const other = nd<std::uint32_t>();
    bool const on = v != stone;
    stdx::optional<S> o{S{v}};
    call c{};
    auto const seen = [&](auto &&x) {
        ++c.calls;
        c.object = &x;
        c.value = x.v;
        c.as = category<decltype(x)>();
    };
    auto const checked = [&](bool called) {
        CHECK(c.calls == (called ? 1u : 0u));
        if (called) {
            CHECK(c.object == adr(o.value()));
            CHECK(c.value == v);
            CHECK(c.as == H);
        }
        CHECK(o.value().v == v);
        c = {};
    };

    auto const t = as<H>(o).transform([&](auto &&x) {
        seen(std::forward<decltype(x)>(x));
        return R{result};
    });
    CHECK(std::is_same_v<decltype(t), stdx::optional<R> const>);
    checked(on);
    CHECK(t.has_value() == (on and result != stone32));
    CHECK(t->v == (on ? result : stone32));

    auto const a = as<H>(o).and_then([&](auto &&x) {
        seen(std::forward<decltype(x)>(x));
        return result == other ? stdx::optional<R>{} : stdx::optional<R>{R{result}};
    });
    CHECK(std::is_same_v<decltype(a), stdx::optional<R> const>);
    checked(on);
    CHECK(a.has_value() == (on and result != other and result != stone32));
    if (a) { CHECK(a->v == result); }

    auto const p = as<H>(o) | [&](auto &&x) {
        seen(std::forward<decltype(x)>(x));
        return stdx::optional<R>{R{result}};
    };
    checked(on);
    CHECK(p.has_value() == (on and result != stone32));
    if (p) { CHECK(p->v == result); }

    auto const alt = nd<std::uint16_t>();
    unsigned calls{};
    auto const e = as<H>(o).or_else([&] {
        ++calls;
        return stdx::optional<S>{S{alt}};
    });
    CHECK(calls == (on ? 0u : 1u));
    CHECK(std::is_same_v<decltype(e), stdx::optional<S> const>);
    CHECK(e->v == (on ? v : alt));
    CHECK(e.has_value() == (on or alt != stone));
    COVER(on);
    COVER(not on);
}
template <how H> void several() {
    auto const x = nd<std::uint16_t>();
    auto const y = nd<std::uint16_t>();
    auto const z = nd<std::uint32_t>();
    auto const result = nd<std::uint32_t>();
    stdx::optional<S> ox{S{x}};
    stdx::optional<S> oy{S{y}};
    stdx::optional<R> oz{R{z}};
    unsigned calls{};
    bool right{true};
    auto const two = stdx::transform(
        [&](auto &&a, auto &&b) {
            ++calls;
            right = right and &a == adr(ox.value()) and &b == adr(oy.value()) and category<decltype(a)>() == H and
                    category<decltype(b)>() == H;
            return R{result};
        },
        as<H>(ox), as<H>(oy));
    bool const on2 = x != stone and y != stone;
    CHECK(std::is_same_v<decltype(two), stdx::optional<R> const>);
    CHECK(calls == (on2 ? 1u : 0u));
    CHECK(right);
    CHECK(two->v == (on2 ? result : stone32));
    calls = 0;
    auto const three = stdx::transform(
        [&](auto &&a, auto &&b, auto &&c) {
            ++calls;
            right = right and a.v == z and b.v == x and c.v == y and category<decltype(a)>() == H and
                    category<decltype(b)>() == lvalue and category<decltype(c)>() == H;
            return R{result};
        },
        as<H>(oz), ox, as<H>(oy));
    bool const on3 = on2 and z != stone32;
    CHECK(calls == (on3 ? 1u : 0u));
    CHECK(right);
    CHECK(three->v == (on3 ? result : stone32));
    calls = 0;
    auto const one = stdx::transform(
        [&](auto &&a) {
            ++calls;
            right = right and a.v == x and category<decltype(a)>() == H;
            return R{result};
        },
        as<H>(ox));
    CHECK(calls == (x != stone ? 1u : 0u));
    CHECK(right);
    CHECK(one->v == (x != stone ? result : stone32));
    COVER(on3);
    COVER(on2 and not on3);
}
template <typename T> auto to_std(T const &o) {
    using V = typename T::value_type;
    return o.has_value() ? std::optional<V>{*o} : std::optional<V>{};
}
template <typename O, typename T> void compare(T a, T b) {
    O const x{a};
    O const y{b};
    auto const p = to_std(x);
    auto const q = to_std(y);
    CHECK((x == y) == (p == q));
    CHECK((x != y) == (p != q));
    if constexpr (requires { a <= b; }) {
        CHECK((x < y) == (p < q));
        CHECK((x <= y) == (p <= q));
        CHECK((x > y) == (p > q));
        CHECK((x >= y) == (p >= q));
    }
    CHECK(x == x);
    CHECK(not(x < x));
    O const none{};
    CHECK((none == x) == (not x.has_value()));
    CHECK((none < x) == x.has_value());
    CHECK((x > none) == x.has_value());
    CHECK(none <= x);
    CHECK(x >= none);
    COVER(not x and y);
    COVER(x and not y);
    COVER(x and y);
    COVER(not x and not y);
}
template <auto V> using tv = stdx::tombstone_value<V>;
enum struct en : std::uint8_t { top = 0x80 };
} // namespace
template <> struct stdx::tombstone_traits<en> {
    constexpr auto operator()() const { return en::top; }
};

#if PART == 1
VP_HARNESS(monadic_lvalue, 1, q) { monadic<lvalue>(); }
VP_HARNESS(monadic_const_lvalue, 1, q) { monadic<const_lvalue>(); }
VP_HARNESS(monadic_rvalue, 1, q) { monadic<rvalue>(); }
VP_HARNESS(monadic_const_rvalue, 1, q) { monadic<const_rvalue>(); }
// more than three at once
VP_HARNESS(many, 1, q) {
    std::uint16_t const v[5]{nd<std::uint16_t>(), nd<std::uint16_t>(), nd<std::uint16_t>(), nd<std::uint16_t>(), nd<std::uint16_t>()};
    stdx::optional<S> const a{S{v[0]}}, b{S{v[1]}}, c{S{v[2]}}, d{S{v[3]}}, e{S{v[4]}};
    auto const result = nd<std::uint32_t>();
    unsigned calls{};
    auto const f = [&](auto const &...xs) {
        ++calls;
        unsigned i{};
        ([&] { CHECK(xs.v == v[i]); ++i; }(), ...);
        return R{result};
    };
    bool const four = v[0] != stone and v[1] != stone and v[2] != stone and v[3] != stone;
    auto const r4 = stdx::transform(f, a, b, c, d);
    CHECK(calls == (four ? 1u : 0u));
    CHECK(r4->v == (four ? result : stone32));
    calls = 0;
    bool const five = four and v[4] != stone;
    auto const r5 = stdx::transform(f, a, b, c, d, e);
    CHECK(calls == (five ? 1u : 0u));
    CHECK(r5->v == (five ? result : stone32));
    COVER(five);
    COVER(four and not five);
}
VP_HARNESS(several_lvalue, 1, q) { several<lvalue>(); }
VP_HARNESS(several_const_lvalue, 1, q) { several<const_lvalue>(); }
VP_HARNESS(several_rvalue, 1, q) { several<rvalue>(); }
VP_HARNESS(several_const_rvalue, 1, q) { several<const_rvalue>(); }
#elif PART == 2
VP_HARNESS(compare_u8, 1, q) { compare<stdx::optional<std::uint8_t, tv<std::uint8_t{0x40}>>>(nd<std::uint8_t>(), nd<std::uint8_t>()); }
VP_HARNESS(compare_i32, 1, q) { compare<stdx::optional<std::int32_t, tv<7>>>(nd<std::int32_t>(), nd<std::int32_t>()); }
VP_HARNESS(compare_u64, 1, q) { compare<stdx::optional<std::uint64_t, tv<std::uint64_t{1} << 60>>>(nd<std::uint64_t>(), nd<std::uint64_t>()); }
VP_HARNESS(compare_enum, 1, q) { compare<stdx::optional<en>>(nd<en>(), nd<en>()); }
VP_HARNESS(compare_class, 1, q) {
    compare<stdx::optional<S>>(S{nd<std::uint16_t>()}, S{nd<std::uint16_t>()});
    auto const a = nd<std::uint16_t>();
    auto const b = nd<std::uint16_t>();
    stdx::optional<S> const x{S{a}};
    stdx::optional<S> const y{S{b}};
    bool const less = a == stone ? b != stone : b != stone and a < b;
    CHECK((x < y) == less);
    CHECK((y > x) == less);
    CHECK((y <= x) == not less);
    CHECK((x >= y) == not less);
}
VP_HARNESS(compare_float, 1, q) {
    auto const a = nd<float>();
    auto const b = nd<float>();
    ASSUME(a == a and b == b);
    compare<stdx::optional<float>>(a, b);
}
VP_HARNESS(unpacked, 1, q) {
    auto const a = nd<std::uint16_t>();
    auto const b = nd<std::uint32_t>();
    auto const result = nd<std::uint32_t>();
    bool const on = a != stone or b != stone32;
    unsigned calls{};
    bool right{true};
    auto const f = [&](S s, R r) {
        ++calls;
        right = right and s.v == a and r.v == b;
        return R{result};
    };
    stdx::optional<std::tuple<S, R>> o{std::tuple{S{a}, R{b}}};
    auto const t = o.transform(f);
    CHECK(calls == (on ? 1u : 0u));
    CHECK(right);
    CHECK(t->v == (on ? result : stone32));
    calls = 0;
    auto const u = std::as_const(o).and_then([&](S s, R r) { return stdx::optional<R>{f(s, r)}; });
    CHECK(calls == (on ? 1u : 0u));
    CHECK(right);
    CHECK(u->v == (on ? result : stone32));
    calls = 0;
    stdx::optional<std::pair<S, R>> q{std::pair{S{a}, R{b}}};
    auto const w = std::move(q).transform(f);
    CHECK(calls == (on ? 1u : 0u));
    CHECK(right);
    CHECK(w->v == (on ? result : stone32));
    COVER(on);
    COVER(not on);
}
VP_HARNESS(standard, 1, q) { // the free transform on std::optional
    auto const a = nd<std::uint16_t>();
    auto const b = nd<std::uint16_t>();
    auto const result = nd<std::uint32_t>();
    std::optional<S> x{};
    std::optional<S> y{};
    if (nd<bool>()) { x = S{a}; }
    if (nd<bool>()) { y = S{b}; }
    unsigned calls{};
    bool right{true};
    auto const t = stdx::transform(
        [&](S &s, S &r) {
            ++calls;
            right = right and s.v == a and r.v == b;
            return R{result};
        },
        x, y);
    CHECK(std::is_same_v<decltype(t), std::optional<R> const>);
    CHECK(calls == (x and y ? 1u : 0u));
    CHECK(right);
    CHECK(t.has_value() == (x and y));
    if (t) { CHECK(t->v == result); }
    COVER(t.has_value());
    COVER(x.has_value() and not y.has_value());
}
VP_HARNESS(not_movable, 1, q) {
    auto const a = nd<std::uint32_t>();
    auto const b = nd<std::uint32_t>();
    auto const result = nd<std::uint32_t>();
    stdx::optional<fixed> x{a};
    stdx::optional<fixed> y{b};
    auto const t = x.transform([&](auto &&f) { return fixed{f.v ^ result}; });
    CHECK(t->v == (a != stone32 ? a ^ result : stone32));
    auto const u = stdx::transform([&](auto const &f, auto &&g) { return fixed{f.v - g.v}; }, std::as_const(x), y);
    CHECK(u->v == (a != stone32 and b != stone32 ? a - b : stone32));
}
namespace {
template <bool Copies> void passed_on() {
    using only_move = mover<Copies>;
    auto const a = nd<std::uint16_t>();
    auto const b = nd<std::uint16_t>();
    auto e = stdx::optional<only_move>{only_move{a}}.or_else([&] { return stdx::optional<only_move>{only_move{b}}; });
    CHECK(e->v == (a != stone ? a : b));
    auto t = stdx::optional<only_move>{only_move{a}}.transform([&](auto &&m) { return only_move{static_cast<decltype(m)>(m)}; });
    CHECK(t->v == a);
    auto n = stdx::optional<only_move>{only_move{a}}.and_then(
        [&](auto &&m) { return stdx::optional<only_move>{static_cast<decltype(m)>(m)}; });
    CHECK(n->v == a);
}
} // namespace
VP_HARNESS(moved_on, 1, q) { passed_on<false>(); }
VP_HARNESS(moved_not_copied, 1, q) { passed_on<true>(); }
#else
VP_HARNESS(monadic_rvalue_23, 1, q) { monadic<rvalue>(); }
VP_HARNESS(several_const_lvalue_23, 1, q) { several<const_lvalue>(); }
VP_HARNESS(compare_u8_23, 1, q) { compare<stdx::optional<std::uint8_t, tv<std::uint8_t{0x40}>>>(nd<std::uint8_t>(), nd<std::uint8_t>()); }
#endif

// Comparison of tuples against std::tuple, and one_of against its members.
// VP-CONFIG a: -std=c++20
// VP-CONFIG lookup: -std=c++20 -DLOOKUP=1
// VP-CONFIG std23: -std=c++23
#include "tuple_under_test.hpp"
#pragma clang diagnostic ignored "-Wsign-compare"
using namespace vp;
using u8 = std::uint8_t;
using i8 = std::int8_t;
using u16 = std::uint16_t;
using i16 = std::int16_t;
using u32 = std::uint32_t;
using i32 = std::int32_t;
using i64 = std::int64_t;

namespace {

template <typename X, typename Y, typename P, typename Q> void equal_as(X const &x, Y const &y, P const &p, Q const &q) {
    CHECK((x == y) == (p == q));
    CHECK((x != y) == (p != q));
    CHECK((y == x) == (q == p));
    CHECK((y != x) == (q != p));
}
template <typename X, typename Y, typename P, typename Q> void order_as(X const &x, Y const &y, P const &p, Q const &q) {
    CHECK((x < y) == (p < q));
    CHECK((x <= y) == (p <= q));
    CHECK((x > y) == (p > q));
    CHECK((x >= y) == (p >= q));
    CHECK((y < x) == (q < p));
    CHECK((y <= x) == (q <= p));
    CHECK((y > x) == (q > p));
    CHECK((y >= x) == (q >= p));
    auto const c = x <=> y;
    auto const d = p <=> q;
    SAME(c, decltype(d));
    CHECK(c == d);
}
template <typename X, typename Y> struct halves;
template <typename... Ts, typename... Us> struct halves<std::tuple<Ts...>, std::tuple<Us...>> {
    static void run() {
        auto const p = std::tuple<Ts...>{nd<Ts>()...};
        auto const q = std::tuple<Us...>{nd<Us>()...};
        std::apply([&](auto... ps) {
            std::apply([&](auto... qs) {
                auto const x = stdx::tuple<Ts...>{ps...};
                auto const y = stdx::tuple<Us...>{qs...};
                equal_as(x, y, p, q);
                order_as(x, y, p, q);
                // a tuple of references compares by value
                auto const xr = stdx::tuple<Ts const &...>{ps...};
                auto const yr = stdx::tuple<Us const &...>{qs...};
                equal_as(xr, yr, p, q);
                order_as(xr, yr, p, q);
                CHECK((x == yr) == (p == q));
                CHECK((x < yr) == (p < q));
                CHECK((x <=> yr) == (p <=> q));
                // indexed tuples compare as tuples do
                auto const xi = stdx::make_indexed_tuple<>(ps...);
                auto const yi = stdx::make_indexed_tuple<std::type_identity_t>(qs...);
                equal_as(xi, yi, p, q);
                CHECK((xi < y) == (p < q));
                CHECK((x <= yi) == (p <= q));
            }, q);
        }, p);
    }
};
template <typename... Ts> using tup = std::tuple<Ts...>;
#define COMPARE(NAME, ...) VP_HARNESS(compare_##NAME, 2, q) { halves<__VA_ARGS__>::run(); }
} // namespace

#define WRAP(...) tup<__VA_ARGS__>
COMPARE(none, WRAP(), WRAP())
COMPARE(u8, WRAP(u8), WRAP(u8))
COMPARE(i16_u8, WRAP(i16, u8), WRAP(i16, u8))
COMPARE(bool_u32_i8, WRAP(bool, u32, i8), WRAP(bool, u32, i8))
COMPARE(four, WRAP(u8, i8, u16, i64), WRAP(u8, i8, u16, i64))
COMPARE(widths, WRAP(u8, i8, u16), WRAP(u16, i64, u32))
COMPARE(thirteen, WRAP(u8, i8, u16, bool, u8, u8, i8, u8, u8, u16, u8, bool, u8), WRAP(u8, i8, u16, bool, u8, u8, i8, u8, u8, u16, u8, bool, u8))
COMPARE(eight, WRAP(u8, i8, u16, bool, u8, i32, u8, i8), WRAP(u8, i8, u16, bool, u8, i32, u8, i8))
COMPARE(seven_widths, WRAP(u8, i8, u16, u8, i8, u8, u16), WRAP(u16, i16, u32, u8, i64, u32, u8))
COMPARE(float, WRAP(float, u8), WRAP(float, u8))
COMPARE(later_float, WRAP(u8, float, i8), WRAP(u8, float, i8))
COMPARE(mixed_float, WRAP(u8, float), WRAP(u8, double))

VP_HARNESS(nested, 2, q) {
    auto const a = nd<u8>(), b = nd<u8>(), c = nd<u8>(), d = nd<u8>(), e = nd<u8>(), f = nd<u8>();
    auto const x = stdx::tuple{stdx::tuple{a, b}, c};
    auto const y = stdx::tuple{stdx::tuple{d, e}, f};
    auto const p = std::tuple{std::tuple{a, b}, c};
    auto const q = std::tuple{std::tuple{d, e}, f};
    equal_as(x, y, p, q);
    order_as(x, y, p, q);
}
namespace {
// only equality is defined, or comparison gives a weak order
struct eq {
    u8 v;
    friend auto operator==(eq, eq) -> bool = default;
};
struct weak {
    u8 v;
    friend auto operator==(weak a, weak b) -> bool { return (a.v | 1u) == (b.v | 1u); }
    friend auto operator<=>(weak a, weak b) -> std::weak_ordering { return (a.v | 1u) <=> (b.v | 1u); }
};
} // namespace
VP_HARNESS(only_equality, 2, q) {
    auto const a = nd<u8>(), b = nd<u8>(), c = nd<u8>(), d = nd<u8>();
    equal_as(stdx::tuple{eq{a}, b}, stdx::tuple{eq{c}, d}, std::tuple{a, b}, std::tuple{c, d});
}
VP_HARNESS(weak_order, 2, q) {
    auto const a = nd<u8>(), b = nd<u8>(), c = nd<u8>(), d = nd<u8>();
    auto const p = std::tuple{weak{a}, b};
    auto const q = std::tuple{weak{c}, d};
    equal_as(stdx::tuple{weak{a}, b}, stdx::tuple{weak{c}, d}, p, q);
    order_as(stdx::tuple{weak{a}, b}, stdx::tuple{weak{c}, d}, p, q);
}

namespace {
template <typename X, typename... Ts> void members() {
    auto const x = nd<X>();
    auto const ts = std::tuple<Ts...>{nd<Ts>()...};
    std::apply([&](auto... t) {
        bool const in = (false or ... or (t == x));
        CHECK((x == stdx::one_of{t...}) == in);
        CHECK((stdx::one_of{t...} == x) == in);
        CHECK((x != stdx::one_of{t...}) == not in);
        CHECK((stdx::one_of{t...} != x) == not in);
        auto const o = stdx::one_of{t...};
        CHECK((x == o) == in);
        COVER(in);
        COVER(not in);
    }, ts);
}
} // namespace
VP_HARNESS(one_of_1, 2, q) { members<u8, u8>(); }
VP_HARNESS(one_of_3, 2, q) { members<u32, u32, u32, u32>(); }
VP_HARNESS(one_of_5, 2, q) { members<i16, i16, i16, i16, i16, i16>(); }
VP_HARNESS(one_of_9, 2, q) { members<u8, u8, u8, u8, u8, u8, u8, u8, u8, u8>(); }
VP_HARNESS(one_of_mixed, 2, q) { members<i32, i8, u8, i16, i64>(); }
VP_HARNESS(one_of_float, 2, q) { members<float, float, float>(); }

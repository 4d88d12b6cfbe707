// counting_iterator against 128-bit integer arithmetic.
// VP-CONFIG a: -std=c++20
// VP-CONFIG std23: -std=c++23
#include "vp.hpp"
#include <stdx/iterator.hpp>
#include <compare>
#include <limits>
using namespace vp;

namespace {
__extension__ typedef __int128 wide;
template <typename T> auto in(wide x) -> bool {
    return x >= wide{std::numeric_limits<T>::min()} and x <= wide{std::numeric_limits<T>::max()};
}
template <typename T> void laws() {
    using I = stdx::counting_iterator<T>;
    using D = typename I::difference_type;
    auto const a = nd<T>();
    I const x{a};
    CHECK(*x == a);
    I m{a};
    CHECK(*m == a);
    CHECK(*I{} == 0);
    CHECK(std::is_same_v<decltype(stdx::counting_iterator{a}), I>);
    auto const w = wide{a};
    if (in<T>(w + 1)) {
        I y{a};
        CHECK(&++y == &y);
        CHECK(wide{*y} == w + 1);
        I z{a};
        CHECK(*(z++) == a);
        CHECK(wide{*z} == w + 1);
    }
    if (in<T>(w - 1)) {
        I y{a};
        CHECK(&--y == &y);
        CHECK(wide{*y} == w - 1);
        I z{a};
        CHECK(*(z--) == a);
        CHECK(wide{*z} == w - 1);
    }
    auto const d = nd<D>();
    if (in<T>(w + wide{d})) {
        auto const sum = w + wide{d};
        I y{a};
        CHECK(&(y += d) == &y);
        CHECK(wide{*y} == sum);
        I z{a};
        CHECK(adr(z.advance(d)) == &z);
        CHECK(wide{*z} == sum);
        CHECK(wide{*(x + d)} == sum);
        CHECK(wide{*(d + x)} == sum);
        CHECK(*x == a);
        CHECK(y - x == d);
        CHECK(y - d == x);
        COVER(d != 0);
    }
    if (in<T>(w - wide{d})) {
        auto const difference = w - wide{d};
        I y{a};
        CHECK(&(y -= d) == &y);
        CHECK(wide{*y} == difference);
        CHECK(wide{*(x - d)} == difference);
        CHECK(*x == a);
    }
    auto const b = nd<T>();
    I const y{b};
    if (in<D>(w - wide{b})) { CHECK(wide{x - y} == w - wide{b}); }
    CHECK((x == y) == (a == b));
    CHECK((x != y) == (a != b));
    CHECK((x < y) == (a < b));
    CHECK((x <= y) == (a <= b));
    CHECK((x > y) == (a > b));
    CHECK((x >= y) == (a >= b));
    CHECK(((x <=> y) == 0) == (a == b));
    *m = b;
    CHECK(*m == b);
}
} // namespace
VP_HARNESS(laws_int, 1, q) { laws<int>(); }
VP_HARNESS(laws_unsigned, 1, q) { laws<unsigned>(); }
VP_HARNESS(laws_u8, 1, q) { laws<std::uint8_t>(); }
VP_HARNESS(laws_i8, 1, q) { laws<std::int8_t>(); }
VP_HARNESS(laws_u16, 1, q) { laws<std::uint16_t>(); }
VP_HARNESS(laws_i16, 1, q) { laws<std::int16_t>(); }
VP_HARNESS(laws_u64, 1, q) { laws<std::uint64_t>(); }
VP_HARNESS(laws_i64, 1, q) { laws<std::int64_t>(); }

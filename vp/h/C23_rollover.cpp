// rollover_t arithmetic against wide modular arithmetic.
// VP-CONFIG a: -std=c++20
// VP-CONFIG std23: -std=c++23
#include "vp.hpp"
#include <stdx/rollover.hpp>
using namespace vp;

namespace {
__extension__ typedef unsigned __int128 wide;
template <typename T> constexpr auto cut(wide x) -> T {
    return static_cast<T>(x & ((wide{1} << (8 * sizeof(T))) - 1));
}
template <typename T> void linear() {
    using R = stdx::rollover_t<T>;
    auto const a = nd<T>();
    auto const b = nd<T>();
    constexpr wide cycle = wide{1} << (8 * sizeof(T));
    R const x{a};
    R const y{b};
    CHECK(x.as_underlying() == a);
    CHECK(static_cast<T>(x) == a);
    CHECK(R{}.as_underlying() == 0);
    CHECK(R{x}.as_underlying() == a);
    CHECK((x == y) == (a == b));
    CHECK((x != y) == (a != b));
    CHECK(std::is_same_v<decltype(x + y), R>);
    CHECK((x + y).as_underlying() == cut<T>(wide{a} + b));
    CHECK((x - y).as_underlying() == cut<T>(wide{a} + cycle - b));
    CHECK((-x).as_underlying() == cut<T>(cycle - a));
    CHECK((+x).as_underlying() == a);
    R z{x};
    CHECK(&(z += y) == &z);
    CHECK(z.as_underlying() == cut<T>(wide{a} + b));
    z = x;
    CHECK(&(z -= y) == &z);
    CHECK(z.as_underlying() == cut<T>(wide{a} + cycle - b));
    z = x;
    CHECK(&++z == &z);
    CHECK(z.as_underlying() == cut<T>(wide{a} + 1));
    z = x;
    CHECK((z++).as_underlying() == a);
    CHECK(z.as_underlying() == cut<T>(wide{a} + 1));
    z = x;
    CHECK(&--z == &z);
    CHECK(z.as_underlying() == cut<T>(wide{a} + cycle - 1));
    z = x;
    CHECK((z--).as_underlying() == a);
    CHECK(z.as_underlying() == cut<T>(wide{a} + cycle - 1));
    CHECK(x.as_underlying() == a and y.as_underlying() == b);
    COVER(static_cast<T>(a + b) < a);
}
// the product of the low digits, digit by digit (a different circuit for the wide types)
template <typename T> void product() {
    using R = stdx::rollover_t<T>;
    auto const a = nd<T>();
    auto const b = nd<T>();
    R const x{a};
    R const y{b};
    T const expected = static_cast<T>(static_cast<std::uint64_t>(a) * static_cast<std::uint64_t>(b));
    CHECK((x * y).as_underlying() == expected);
    R z{x};
    CHECK(&(z *= y) == &z);
    CHECK(z.as_underlying() == expected);
}
template <typename T> void quotient() {
    using R = stdx::rollover_t<T>;
    auto const a = nd<T>();
    auto const b = nd<T>();
    ASSUME(b != 0);
    R const x{a};
    R const y{b};
    T const q = static_cast<T>(a / b);
    T const r = static_cast<T>(a % b);
    CHECK((x / y).as_underlying() == q);
    CHECK((x % y).as_underlying() == r);
    R z{x};
    CHECK(&(z /= y) == &z);
    CHECK(z.as_underlying() == q);
    z = x;
    CHECK(&(z %= y) == &z);
    CHECK(z.as_underlying() == r);
}
template <typename T, typename U> void conversion() {
    auto const a = nd<U>();
    stdx::rollover_t<T> const x{a};
    CHECK(x.as_underlying() == static_cast<T>(a));
    if constexpr (std::is_unsigned_v<U>) {
        stdx::rollover_t<U> const u{a};
        stdx::rollover_t<T> const y{u};
        CHECK(y.as_underlying() == static_cast<T>(a));
        using C = std::common_type_t<stdx::rollover_t<T>, stdx::rollover_t<U>>;
        CHECK(std::is_same_v<C, stdx::rollover_t<std::common_type_t<T, U>>>);
        CHECK(std::is_same_v<decltype(stdx::rollover_t{a}), stdx::rollover_t<U>>);
    }
}
} // namespace

VP_HARNESS(linear_u8, 1, q) { linear<std::uint8_t>(); }
VP_HARNESS(linear_u16, 1, q) { linear<std::uint16_t>(); }
VP_HARNESS(linear_u32, 1, q) { linear<std::uint32_t>(); }
VP_HARNESS(linear_u64, 1, q) { linear<std::uint64_t>(); }
VP_HARNESS(linear_ulong_long, 1, q) { linear<unsigned long long>(); }
VP_HARNESS(product_u8, 1, q) { product<std::uint8_t>(); }
VP_HARNESS(product_u16, 1, q) { product<std::uint16_t>(); }
VP_HARNESS(product_u32, 1, q) { product<std::uint32_t>(); }
VP_HARNESS(product_u64, 1, q) { product<std::uint64_t>(); }
VP_HARNESS(quotient_u8, 1, q) { quotient<std::uint8_t>(); }
VP_HARNESS(quotient_u16, 1, q) { quotient<std::uint16_t>(); }
VP_HARNESS(quotient_u32, 1, q) { quotient<std::uint32_t>(); }
VP_HARNESS(quotient_u64, 1, q) { quotient<std::uint64_t>(); }
VP_HARNESS(from_u8_to_u64, 1, q) { conversion<std::uint64_t, std::uint8_t>(); }
VP_HARNESS(from_u64_to_u8, 1, q) { conversion<std::uint8_t, std::uint64_t>(); }
VP_HARNESS(from_u32_to_u16, 1, q) { conversion<std::uint16_t, std::uint32_t>(); }
VP_HARNESS(from_int_to_u16, 1, q) { conversion<std::uint16_t, int>(); }
VP_HARNESS(from_i8_to_u32, 1, q) { conversion<std::uint32_t, std::int8_t>(); }

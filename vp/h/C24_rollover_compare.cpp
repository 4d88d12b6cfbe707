// cmp_less on rollover_t: the half of the cycle just before a value is less.
// VP-CONFIG a: -std=c++20
// VP-CONFIG std23: -std=c++23
#include "vp.hpp"
#include <stdx/rollover.hpp>
using namespace vp;

namespace {
template <typename T> void order() {
    using R = stdx::rollover_t<T>;
    constexpr auto half = static_cast<T>(T{1} << (8 * sizeof(T) - 1));
    auto const a = nd<T>();
    auto const d = nd<T>();
    R const x{a};
    R const y{static_cast<T>(a + d)};
    CHECK(not cmp_less(x, x));
    // y lies d after x
    CHECK(cmp_less(x, y) == (d != 0 and d <= half));
    CHECK(cmp_less(y, x) == (d >= half));
    auto const k = nd<T>();
    R const xk{static_cast<T>(a + k)};
    R const yk{static_cast<T>(a + d + k)};
    CHECK(cmp_less(xk, yk) == cmp_less(x, y));
    R moved{x};
    moved += R{k};
    CHECK(cmp_less(moved, y + R{k}) == cmp_less(x, y));
    auto next = x;
    ++next;
    CHECK(cmp_less(x, next));
    CHECK(not cmp_less(next, x));
    COVER(d == half);
    COVER(d < half and d != 0);
    COVER(d > half);
}
} // namespace
VP_HARNESS(order_u8, 1, q) { order<std::uint8_t>(); }
VP_HARNESS(order_u16, 1, q) { order<std::uint16_t>(); }
VP_HARNESS(order_u32, 1, q) { order<std::uint32_t>(); }
VP_HARNESS(order_u64, 1, q) { order<std::uint64_t>(); }
VP_HARNESS(order_ulong_long, 1, q) { order<unsigned long long>(); }

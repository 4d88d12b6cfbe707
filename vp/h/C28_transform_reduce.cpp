// transform_reduce and transform_reduce_n against the left fold written out.
// VP-CONFIG a: -std=c++20
// VP-CONFIG std23: -std=c++23
#include "ranges_under_test.hpp"
#include <stdx/numeric.hpp>
using namespace vp;

namespace {
constexpr std::size_t L = 4;
// neither commutative nor associative, and it shows how the accumulator was passed
struct acc {
    std::uint64_t v{};
    bool moved_from{};
    acc() = default;
    explicit acc(std::uint64_t x) : v{x} {}
    acc(acc const &) = default;
    acc(acc &&o) noexcept : v{o.v} { o.moved_from = true; }
    auto operator=(acc const &) -> acc & = default;
    auto operator=(acc &&o) noexcept -> acc & {
        v = o.v;
        o.moved_from = true;
        return *this;
    }
};
auto value(acc const &x) -> std::uint64_t { return x.v; }
auto value(std::uint64_t x) -> std::uint64_t { return x; }
template <bool Counted, std::size_t Args, template <typename> typename I, typename Size> void reduce() {
    auto const a = nd_array<std::uint8_t, L>();
    auto const b = nd_array<std::uint16_t, L>();
    auto const c = nd_array<std::uint32_t, L>();
    auto const n = below<std::size_t>(L + 1);
    auto const start = nd<std::uint64_t>();
    record<L, Args> log{};
    auto const fold = [](std::uint64_t x, std::uint64_t y) { return ((x << 5) | (x >> 59)) ^ y; };
    auto const mix = [](auto... xs) { return (std::uint64_t{1} ^ ... ^ (std::uint64_t{xs} << 1)); };
    unsigned reductions{};
    auto const rop = [&](auto &&x, auto &&y) {
        ++reductions;
        CHECK(std::is_same_v<std::remove_cvref_t<decltype(x)>, acc>);
        return acc{fold(value(x), value(y))};
    };
    auto const top = [&](auto const &...xs) {
        log(xs...);
        return mix(xs...);
    };
    auto const first = at<I>(a.data());
    auto const last = at<I>(a.data() + n);
    auto const bb = at<I>(b.data());
    auto const cc = at<I>(c.data());
    auto const m = static_cast<Size>(n);
    auto const r = [&] {
        if constexpr (Args == 1) {
            if constexpr (Counted) { return stdx::transform_reduce_n(first, m, acc{start}, rop, top); }
            else { return stdx::transform_reduce(first, last, acc{start}, rop, top); }
        } else if constexpr (Args == 2) {
            if constexpr (Counted) { return stdx::transform_reduce_n(first, m, acc{start}, rop, top, bb); }
            else { return stdx::transform_reduce(first, last, acc{start}, rop, top, bb); }
        } else {
            if constexpr (Counted) { return stdx::transform_reduce_n(first, m, acc{start}, rop, top, bb, cc); }
            else { return stdx::transform_reduce(first, last, acc{start}, rop, top, bb, cc); }
        }
    }();
    CHECK(std::is_same_v<decltype(r), acc const>);
    CHECK(log.n == n);
    CHECK(not log.too_many);
    CHECK(reductions == n);
    auto expected = start;
    unroll<L>([&](auto i) {
        if (i < n) {
            CHECK(log.who[i][0] == adr(a[i]));
            if constexpr (Args > 1) { CHECK(log.who[i][1] == adr(b[i])); }
            if constexpr (Args > 2) { CHECK(log.who[i][2] == adr(c[i])); }
            if constexpr (Args == 1) { expected = fold(expected, mix(a[i])); }
            else if constexpr (Args == 2) { expected = fold(expected, mix(a[i], b[i])); }
            else { expected = fold(expected, mix(a[i], b[i], c[i])); }
        }
    });
    CHECK(r.v == expected);
    COVER(n == 0);
    COVER(n == L);
}
// the result type is the one asked for, whatever the elements are
VP_HARNESS(result_type, 5, q) {
    auto const a = nd_array<std::uint8_t, L>();
    auto const n = below<std::size_t>(L + 1);
    auto const s = nd<std::uint8_t>();
    auto const plus = [](auto x, auto y) { return x + y; };
    auto const same = [](auto x) { return x; };
    auto const w = stdx::transform_reduce<std::uint32_t>(a.data(), a.data() + n, s, plus, same);
    CHECK(std::is_same_v<decltype(w), std::uint32_t const>);
    auto const wn = stdx::transform_reduce_n<std::uint32_t>(a.data(), n, s, plus, same);
    CHECK(std::is_same_v<decltype(wn), std::uint32_t const>);
    auto const narrow = stdx::transform_reduce(a.data(), a.data() + n, s, plus, same);
    CHECK(std::is_same_v<decltype(narrow), std::uint8_t const>);
    std::uint32_t expected = s;
    unroll<L>([&](auto i) {
        if (i < n) { expected += a[i]; }
    });
    CHECK(w == expected);
    CHECK(wn == expected);
    CHECK(narrow == static_cast<std::uint8_t>(expected));
}
// more elements than a byte can count
template <bool Counted> void many() {
    auto const n = below<std::uint32_t>(300);
    std::uint32_t calls{};
    auto const plus = [&](std::uint32_t x, std::uint32_t y) {
        CHECK(x == calls and y == calls + 1u);
        return y;
    };
    auto const both = [&](std::uint32_t x, std::uint32_t y) {
        CHECK(x == calls and y == calls + 7u);
        return x + 1u;
    };
    auto const step = [&](std::uint32_t x, std::uint32_t y) {
        auto const r = plus(x, y);
        ++calls;
        return r;
    };
    auto const r = [&] {
        if constexpr (Counted) { return stdx::transform_reduce_n(place{0}, n, std::uint32_t{}, step, both, place{7}); }
        else { return stdx::transform_reduce(place{0}, place{n}, std::uint32_t{}, step, both, place{7}); }
    }();
    CHECK(r == n and calls == n);
}
} // namespace
VP_HARNESS(reduce_many, 302, q) { many<false>(); }
VP_HARNESS(reduce_n_many, 302, q) { many<true>(); }
VP_HARNESS(reduce_1_random, 5, q) { reduce<false, 1, random_access, int>(); }
VP_HARNESS(reduce_2_random, 5, q) { reduce<false, 2, random_access, int>(); }
VP_HARNESS(reduce_3_random, 5, q) { reduce<false, 3, random_access, int>(); }
VP_HARNESS(reduce_1_input, 5, q) { reduce<false, 1, input, int>(); }
VP_HARNESS(reduce_3_forward, 5, q) { reduce<false, 3, forward, int>(); }
VP_HARNESS(reduce_n_1_random, 5, q) { reduce<true, 1, random_access, std::size_t>(); }
VP_HARNESS(reduce_n_2_forward, 5, q) { reduce<true, 2, forward, int>(); }
VP_HARNESS(reduce_n_3_random, 5, q) { reduce<true, 3, random_access, std::uint8_t>(); }
VP_HARNESS(reduce_n_1_input, 5, q) { reduce<true, 1, input, std::ptrdiff_t>(); }
// more ranges than three
VP_HARNESS(reduce_wide, 13, q) {
    auto const n = below<std::uint32_t>(12);
    std::uint32_t calls{};
    auto const step = [&](std::uint32_t x, std::uint32_t y) {
        CHECK(x == calls and y == calls + 1u);
        ++calls;
        return y;
    };
    auto const five = [&](std::uint32_t x, std::uint32_t y, std::uint32_t z, std::uint32_t u, std::uint32_t v) {
        CHECK(x == calls and y == calls + 7u and z == calls + 100u and u == calls + 11u and v == calls + 3u);
        return x + 1u;
    };
    auto const r = stdx::transform_reduce(place{0}, place{n}, std::uint32_t{}, step, five, place{7}, place{100}, place{11}, place{3});
    CHECK(r == n and calls == n);
    calls = 0;
    auto const s = stdx::transform_reduce_n(place{0}, n, std::uint32_t{}, step, five, place{7}, place{100}, place{11}, place{3});
    CHECK(s == n and calls == n);
}

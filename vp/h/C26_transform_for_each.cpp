// transform, transform_n, for_each, for_each_n over one to three ranges.
// VP-CONFIG a: -std=c++20
// VP-CONFIG std23: -std=c++23
#include "ranges_under_test.hpp"
#include <stdx/algorithm.hpp>
using namespace vp;
using stdx::get;

namespace {
constexpr std::size_t L = 4;
// an operation with a state of its own
template <std::size_t Args> struct op {
    record<L, Args> *log;
    std::uint32_t state;
    template <typename... Ts> auto operator()(Ts const &...ts) {
        (*log)(ts...);
        state = state * 5u + 1u;
        return static_cast<std::uint32_t>((... ^ static_cast<std::uint32_t>(ts))) + state;
    }
};
struct data {
    std::array<std::uint8_t, L> a = nd_array<std::uint8_t, L>();
    std::array<std::uint16_t, L> b = nd_array<std::uint16_t, L>();
    std::array<std::uint32_t, L> c = nd_array<std::uint32_t, L>();
    std::array<std::uint32_t, L> out = nd_array<std::uint32_t, L>();
    std::array<std::uint32_t, L> out_before = out;
    std::size_t n = below<std::size_t>(L + 1);
    std::uint32_t start = nd<std::uint32_t>();
    std::uint32_t after{};

    template <std::size_t Args> auto value(std::size_t i) const -> std::uint32_t {
        if constexpr (Args == 1) { return a[i]; }
        else if constexpr (Args == 2) { return std::uint32_t{a[i]} ^ b[i]; }
        else { return std::uint32_t{a[i]} ^ b[i] ^ c[i]; }
    }
    template <std::size_t Args> void called(record<L, Args> const &log, bool writes) {
        CHECK(log.n == n);
        CHECK(not log.too_many);
        std::uint32_t state = start;
        unroll<L>([&](auto i) {
            if (i < n) {
                CHECK(log.who[i][0] == adr(a[i]));
                if constexpr (Args > 1) { CHECK(log.who[i][1] == adr(b[i])); }
                if constexpr (Args > 2) { CHECK(log.who[i][2] == adr(c[i])); }
                state = state * 5u + 1u;
                if (writes) { CHECK(out[i] == value<Args>(i) + state); }
            } else if (writes) {
                CHECK(out[i] == out_before[i]);
            }
        });
        after = state;
    }
};
template <std::size_t Args, template <typename> typename I> void transform(bool counted) {
    data d{};
    record<L, Args> log{};
    op<Args> f{&log, d.start};
    auto const a = at<I>(d.a.data());
    auto const a_end = at<I>(d.a.data() + d.n);
    auto const b = at<I>(d.b.data());
    auto const c = at<I>(d.c.data());
    auto const o = at<I>(d.out.data());
    auto const r = [&] {
        if constexpr (Args == 1) {
            return counted ? stdx::transform_n(a, d.n, o, f) : stdx::transform(a, a_end, o, f);
        } else if constexpr (Args == 2) {
            return counted ? stdx::transform_n(a, static_cast<int>(d.n), o, f, b) : stdx::transform(a, a_end, o, f, b);
        } else {
            return counted ? stdx::transform_n(a, static_cast<std::uint8_t>(d.n), o, f, b, c)
                           : stdx::transform(a, a_end, o, f, b, c);
        }
    }();
    CHECK(get<0>(r) == at<I>(d.out.data() + d.n));
    CHECK(get<1>(r) == a_end);
    if constexpr (Args > 1) { CHECK(get<2>(r) == at<I>(d.b.data() + d.n)); }
    if constexpr (Args > 2) { CHECK(get<3>(r) == at<I>(d.c.data() + d.n)); }
    d.template called<Args>(log, true);
    COVER(d.n == 0);
    COVER(d.n == L);
}
template <std::size_t Args, template <typename> typename I> void each() {
    data d{};
    record<L, Args> log{};
    op<Args> f{&log, d.start};
    auto const a = at<I>(d.a.data());
    auto const a_end = at<I>(d.a.data() + d.n);
    auto const b = at<I>(d.b.data());
    auto const c = at<I>(d.c.data());
    auto const r = [&] {
        if constexpr (Args == 1) { return stdx::for_each(a, a_end, f); }
        else if constexpr (Args == 2) { return stdx::for_each(a, a_end, f, b); }
        else { return stdx::for_each(a, a_end, f, b, c); }
    }();
    if constexpr (Args > 1) { CHECK(get<1>(r) == at<I>(d.b.data() + d.n)); }
    if constexpr (Args > 2) { CHECK(get<2>(r) == at<I>(d.c.data() + d.n)); }
    d.template called<Args>(log, false);
    CHECK(get<0>(r).state == d.after);
}
template <std::size_t Args, template <typename> typename I, typename Size> void each_n() {
    data d{};
    record<L, Args> log{};
    op<Args> f{&log, d.start};
    auto const a = at<I>(d.a.data());
    auto const b = at<I>(d.b.data());
    auto const c = at<I>(d.c.data());
    auto const n = static_cast<Size>(d.n);
    auto const r = [&] {
        if constexpr (Args == 1) { return stdx::for_each_n(a, n, f); }
        else if constexpr (Args == 2) { return stdx::for_each_n(a, n, f, b); }
        else { return stdx::for_each_n(a, n, f, b, c); }
    }();
    CHECK(get<1>(r) == at<I>(d.a.data() + d.n));
    if constexpr (Args > 1) { CHECK(get<2>(r) == at<I>(d.b.data() + d.n)); }
    if constexpr (Args > 2) { CHECK(get<3>(r) == at<I>(d.c.data() + d.n)); }
    d.template called<Args>(log, false);
    CHECK(get<0>(r).state == d.after);
}
// many elements, more than fit the narrower integer types
template <bool Counted, bool Writes> void many() {
    auto const n = below<std::uint32_t>(301);
    auto const value = [](std::uint32_t k) { return (k << 4) ^ 5u; };
    std::uint32_t calls{};
    std::uint32_t written{};
    auto const f = [&](std::uint32_t x, std::uint32_t y) {
        CHECK(x == calls);
        CHECK(y == calls + 7u);
        ++calls;
        return value(x);
    };
    if constexpr (Writes) {
        auto const o = taking<decltype(value)>{&value, &written, 0};
        auto const r = [&] {
            if constexpr (Counted) { return stdx::transform_n(place{0}, n, o, f, place{7}); }
            else { return stdx::transform(place{0}, place{n}, o, f, place{7}); }
        }();
        CHECK(get<0>(r).i == n);
        CHECK(get<1>(r).i == n);
        CHECK(get<2>(r).i == n + 7u);
        CHECK(written == n);
    } else if constexpr (Counted) {
        auto const r = stdx::for_each_n(place{0}, n, f, place{7});
        CHECK(get<1>(r).i == n);
        CHECK(get<2>(r).i == n + 7u);
    } else {
        auto const r = stdx::for_each(place{0}, place{n}, f, place{7});
        CHECK(get<1>(r).i == n + 7u);
    }
    CHECK(calls == n);
}
} // namespace
VP_HARNESS(transform_1_random, 5, q) { transform<1, random_access>(false); }
VP_HARNESS(transform_2_random, 5, q) { transform<2, random_access>(false); }
VP_HARNESS(transform_3_random, 5, q) { transform<3, random_access>(false); }
VP_HARNESS(transform_1_input, 5, q) { transform<1, input>(false); }
VP_HARNESS(transform_3_forward, 5, q) { transform<3, forward>(false); }
VP_HARNESS(transform_n_1_random, 5, q) { transform<1, random_access>(true); }
VP_HARNESS(transform_n_2_input, 5, q) { transform<2, input>(true); }
VP_HARNESS(transform_n_3_forward, 5, q) { transform<3, forward>(true); }
VP_HARNESS(for_each_1_random, 5, q) { each<1, random_access>(); }
VP_HARNESS(for_each_2_forward, 5, q) { each<2, forward>(); }
VP_HARNESS(for_each_3_random, 5, q) { each<3, random_access>(); }
VP_HARNESS(for_each_1_input, 5, q) { each<1, input>(); }
VP_HARNESS(for_each_n_1_random, 5, q) { each_n<1, random_access, std::size_t>(); }
VP_HARNESS(for_each_n_2_forward, 5, q) { each_n<2, forward, int>(); }
VP_HARNESS(for_each_n_3_random, 5, q) { each_n<3, random_access, std::uint8_t>(); }
VP_HARNESS(for_each_n_1_input, 5, q) { each_n<1, input, std::ptrdiff_t>(); }
VP_HARNESS(transform_many, 302, q) { many<false, true>(); }
VP_HARNESS(transform_n_many, 302, q) { many<true, true>(); }
VP_HARNESS(for_each_many, 302, q) { many<false, false>(); }
VP_HARNESS(for_each_n_many, 302, q) { many<true, false>(); }
// more ranges than three
namespace {
template <bool Counted, bool Writes> void wide() {
    auto const n = below<std::uint32_t>(12);
    auto const value = [](std::uint32_t k) { return (k << 4) ^ 5u; };
    std::uint32_t calls{};
    std::uint32_t written{};
    auto const f = [&](std::uint32_t x, std::uint32_t y, std::uint32_t z, std::uint32_t u, std::uint32_t v, std::uint32_t w) {
        CHECK(x == calls and y == calls + 7u and z == calls + 100u and u == calls + 11u and v == calls + 3u and w == calls);
        ++calls;
        return value(x);
    };
    auto const moved = [&](auto const &r, auto k) {
        CHECK(get<k>(r).i == n + 7u and get<k + 1>(r).i == n + 100u and get<k + 2>(r).i == n + 11u and get<k + 3>(r).i == n + 3u and get<k + 4>(r).i == n);
    };
    using two = std::integral_constant<std::size_t, 2>;
    using one = std::integral_constant<std::size_t, 1>;
    if constexpr (Writes) {
        auto const o = taking<decltype(value)>{&value, &written, 0};
        auto const r = [&] {
            if constexpr (Counted) { return stdx::transform_n(place{0}, n, o, f, place{7}, place{100}, place{11}, place{3}, place{0}); }
            else { return stdx::transform(place{0}, place{n}, o, f, place{7}, place{100}, place{11}, place{3}, place{0}); }
        }();
        CHECK(get<0>(r).i == n);
        CHECK(get<1>(r).i == n);
        moved(r, two{});
        CHECK(written == n);
    } else if constexpr (Counted) {
        auto const r = stdx::for_each_n(place{0}, n, f, place{7}, place{100}, place{11}, place{3}, place{0});
        CHECK(get<1>(r).i == n);
        moved(r, two{});
    } else {
        moved(stdx::for_each(place{0}, place{n}, f, place{7}, place{100}, place{11}, place{3}, place{0}), one{});
    }
    CHECK(calls == n);
}
} // namespace
VP_HARNESS(transform_wide, 13, q) { wide<false, true>(); }
VP_HARNESS(transform_n_wide, 13, q) { wide<true, true>(); }
VP_HARNESS(for_each_wide, 13, q) { wide<false, false>(); }
VP_HARNESS(for_each_n_wide, 13, q) { wide<true, false>(); }

// for_each_butlast, for_each_butlastn and initial_medial_final.
// VP-CONFIG a: -std=c++20
// VP-CONFIG std23: -std=c++23
#include "ranges_under_test.hpp"
#include <stdx/algorithm.hpp>
using namespace vp;
using stdx::get;

namespace {
constexpr std::size_t L = 5;
template <std::size_t Args> struct op {
    record<L, Args> *log;
    std::uint32_t state;
    template <typename... Ts> void operator()(Ts const &...ts) {
        (*log)(ts...);
        state = state * 5u + 1u;
    }
};
template <std::size_t Args, template <typename> typename I, typename N> void butlast(bool one) {
    std::array<std::uint8_t, L> a{};
    std::array<std::uint16_t, L> b{};
    std::array<std::uint32_t, L> c{};
    auto const length = below<std::size_t>(L + 1);
    auto k = nd<N>();
    ASSUME(k >= 0);
    if (one) { k = 1; }
    auto const without = static_cast<std::uint64_t>(k);
    auto const calls = without < length ? length - without : 0;
    auto const start = nd<std::uint32_t>();
    record<L, Args> log{};
    op<Args> f{&log, start};
    auto const first = at<I>(a.data());
    auto const last = at<I>(a.data() + length);
    auto const r = [&] {
        if constexpr (Args == 1) {
            return one ? stdx::for_each_butlast(first, last, f) : stdx::for_each_butlastn(first, last, k, f);
        } else if constexpr (Args == 2) {
            return one ? stdx::for_each_butlast(first, last, f, at<I>(b.data()))
                       : stdx::for_each_butlastn(first, last, k, f, at<I>(b.data()));
        } else {
            return one ? stdx::for_each_butlast(first, last, f, at<I>(b.data()), at<I>(c.data()))
                       : stdx::for_each_butlastn(first, last, k, f, at<I>(b.data()), at<I>(c.data()));
        }
    }();
    CHECK(log.n == calls);
    CHECK(not log.too_many);
    auto state = start;
    unroll<L>([&](auto i) {
        if (i < calls) {
            CHECK(log.who[i][0] == adr(a[i]));
            if constexpr (Args > 1) { CHECK(log.who[i][1] == adr(b[i])); }
            if constexpr (Args > 2) { CHECK(log.who[i][2] == adr(c[i])); }
            state = state * 5u + 1u;
        }
    });
    CHECK(get<0>(r).state == state);
    CHECK(get<1>(r) == at<I>(a.data() + calls));
    if constexpr (Args > 1) { CHECK(get<2>(r) == at<I>(b.data() + calls)); }
    if constexpr (Args > 2) { CHECK(get<3>(r) == at<I>(c.data() + calls)); }
    COVER(calls == L - 1);
    COVER(calls == 0 and length > 0);
}
struct which {
    std::array<std::uint8_t, L> kind{};
    std::array<void const *, L> who{};
    std::size_t n{};
    bool too_many{};
};
struct part {
    which *w;
    std::uint8_t kind;
    std::uint32_t state{};
    void operator()(std::uint8_t const &x) {
        ++state;
        if (w->n < L) {
            w->kind[w->n] = kind;
            w->who[w->n] = &x;
            ++w->n;
        } else {
            w->too_many = true;
        }
    }
};
template <template <typename> typename I> void parts() {
    std::array<std::uint8_t, L> a{};
    auto const n = below<std::size_t>(L + 1);
    which w{};
    auto const r = stdx::initial_medial_final(at<I>(a.data()), at<I>(a.data() + n), part{&w, 1}, part{&w, 2}, part{&w, 3});
    CHECK(w.n == n);
    CHECK(not w.too_many);
    unroll<L>([&](auto i) {
        if (i < n) {
            CHECK(w.who[i] == adr(a[i]));
            CHECK(w.kind[i] == (i == 0 ? 1 : i + 1 == n ? 3 : 2));
        }
    });
    CHECK(get<0>(r).kind == 1 and get<0>(r).state == (n > 0 ? 1u : 0u));
    CHECK(get<1>(r).kind == 2 and get<1>(r).state == (n > 2 ? n - 2 : 0u));
    CHECK(get<2>(r).kind == 3 and get<2>(r).state == (n > 1 ? 1u : 0u));
    COVER(n == 0);
    COVER(n == 1);
    COVER(n == L);
}
// more elements than a byte can count
template <bool One> void many() {
    auto const n = below<std::uint32_t>(300);
    auto const k = One ? 1u : 258u;
    std::uint32_t calls{};
    auto const f = [&](std::uint32_t x, std::uint32_t y) {
        CHECK(x == calls and y == calls + 7u);
        ++calls;
    };
    auto const r = One ? stdx::for_each_butlast(place{0}, place{n}, f, place{7})
                       : stdx::for_each_butlastn(place{0}, place{n}, k, f, place{7});
    auto const e = k < n ? n - k : 0u;
    CHECK(calls == e);
    CHECK(get<1>(r).i == e);
    CHECK(get<2>(r).i == e + 7u);
}
VP_HARNESS(parts_many, 302, q) {
    auto const n = below<std::uint32_t>(300);
    std::uint32_t first{};
    std::uint32_t between{};
    std::uint32_t final_{};
    stdx::initial_medial_final(
        place{0}, place{n}, [&](std::uint32_t x) { CHECK(x == 0); ++first; },
        [&](std::uint32_t x) { CHECK(x == between + 1u); ++between; },
        [&](std::uint32_t x) { CHECK(x == n - 1u); ++final_; });
    CHECK(first == (n > 0 ? 1u : 0u));
    CHECK(between == (n > 2 ? n - 2u : 0u));
    CHECK(final_ == (n > 1 ? 1u : 0u));
}
} // namespace
VP_HARNESS(butlast_many, 302, q) { many<true>(); }
VP_HARNESS(butlastn_many, 302, q) { many<false>(); }
VP_HARNESS(butlast_1_random, 6, q) { butlast<1, random_access, int>(true); }
VP_HARNESS(butlast_2_forward, 6, q) { butlast<2, forward, int>(true); }
VP_HARNESS(butlast_3_random, 6, q) { butlast<3, random_access, int>(true); }
VP_HARNESS(butlast_1_bidirectional, 6, q) { butlast<1, bidirectional, int>(true); }
VP_HARNESS(butlastn_1_random_int, 6, q) { butlast<1, random_access, int>(false); }
VP_HARNESS(butlastn_1_random_u8, 6, q) { butlast<1, random_access, std::uint8_t>(false); }
VP_HARNESS(butlastn_1_random_size, 6, q) { butlast<1, random_access, std::size_t>(false); }
VP_HARNESS(butlastn_2_random_u32, 6, q) { butlast<2, random_access, std::uint32_t>(false); }
VP_HARNESS(butlastn_3_random_long, 6, q) { butlast<3, random_access, std::ptrdiff_t>(false); }
VP_HARNESS(butlastn_1_forward_size, 6, q) { butlast<1, forward, std::size_t>(false); }
VP_HARNESS(butlastn_2_forward_int, 6, q) { butlast<2, forward, int>(false); }
VP_HARNESS(butlastn_3_bidirectional_u8, 6, q) { butlast<3, bidirectional, std::uint8_t>(false); }
VP_HARNESS(parts_random, 6, q) { parts<random_access>(); }
VP_HARNESS(parts_forward, 6, q) { parts<forward>(); }
VP_HARNESS(parts_bidirectional, 6, q) { parts<bidirectional>(); }
// more ranges than three
VP_HARNESS(butlast_wide, 13, q) {
    auto const n = below<std::uint32_t>(12);
    auto const k = below<std::uint32_t>(14);
    std::uint32_t calls{};
    auto const f = [&](std::uint32_t x, std::uint32_t y, std::uint32_t z, std::uint32_t u, std::uint32_t v) {
        CHECK(x == calls and y == calls + 7u and z == calls + 100u and u == calls + 11u and v == calls + 3u);
        ++calls;
    };
    auto const check = [&](auto const &r, std::uint32_t without) {
        auto const e = without < n ? n - without : 0u;
        CHECK(calls == e);
        CHECK(get<1>(r).i == e and get<2>(r).i == e + 7u and get<3>(r).i == e + 100u and get<4>(r).i == e + 11u and get<5>(r).i == e + 3u);
        calls = 0;
    };
    check(stdx::for_each_butlast(place{0}, place{n}, f, place{7}, place{100}, place{11}, place{3}), 1);
    check(stdx::for_each_butlastn(place{0}, place{n}, k, f, place{7}, place{100}, place{11}, place{3}), k);
}

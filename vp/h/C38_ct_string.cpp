// ct_string: construction, concatenation, comparison, iteration and conversion over all
// character contents; splitting over a family of strings (a split string is a template
// argument and cannot be symbolic).
// VP-CONFIG a: -std=c++20 -Dconsteval=constexpr
// VP-CONFIG std23: -std=c++23 -DCOMPILED=1
#include "vp.hpp"
#include <algorithm>
#include <array>
#include <concepts>
#include <cstddef>
#include <cstdint>
#include <string_view>
#include <type_traits>
#include <utility>
#include <stdx/ct_string.hpp>
using namespace vp;
using namespace stdx::literals;

namespace {
template <std::size_t N> struct text {
    char c[N + 1]{};
    text() {
        unroll<N>([&](auto i) { c[i] = nd<char>(); });
    }
};
template <typename S> auto view(S const &s) { return static_cast<std::string_view>(s); }
// the value of a ct_string of size N is c[0..N) with a terminator
template <std::size_t N, typename S> void is(S const &s, char const *c) {
    CHECK(std::is_same_v<S, stdx::ct_string<N + 1>>);
    CHECK(s.size() == N);
    CHECK(s.capacity() == N + 1);
    CHECK(s.empty() == (N == 0));
    CHECK(s.value.size() == N + 1);
    if constexpr (N < 100) {
        unroll<N>([&](auto i) { CHECK(s.value[i] == c[i]); });
    } else {
        for (std::size_t i = 0; i < N; ++i) { CHECK(s.value[i] == c[i]); }
    }
    CHECK(s.value[N] == 0);
    auto const v = view(s);
    CHECK(v.size() == N);
    CHECK(v.data() == s.value.data());
    CHECK(s.end() - s.begin() == N);
    CHECK(s.rend() - s.rbegin() == N);
    unroll<(N < 100 ? N : 0)>([&](auto i) {
        CHECK(v[i] == c[i]);
        CHECK(*(s.begin() + static_cast<int>(i())) == c[i]);
        CHECK(*(s.rbegin() + static_cast<int>(i())) == c[N - 1 - i]);
    });
}
// every split of S at C
template <stdx::ct_string S, char C> void splits() {
    constexpr auto p = stdx::split<S, C>();
    constexpr auto v = std::string_view{S.value.data(), S.size()};
    constexpr auto at = v.find(C);
    constexpr auto n = at == std::string_view::npos ? v.size() : at;
    constexpr auto m = at == std::string_view::npos ? 0 : v.size() - at - 1;
    is<n>(p.first, S.value.data());
    is<m>(p.second, S.value.data() + (v.size() - m));
}
template <stdx::ct_string S> void splits_everywhere() {
    splits<S, 'a'>();
    splits<S, 'b'>();
    splits<S, ':'>();
    splits<S, ' '>();
    splits<S, '\x7f'>();
    splits<S, '\x80'>();
    splits<S, '\xff'>();
    splits<S, '\0'>();
}
template <typename C, C...> struct chars {
    friend auto operator==(chars, chars) -> bool = default;
};
} // namespace

#if COMPILED == 0
namespace {
template <std::size_t N> void construct() {
    auto const t = text<N>{};
    is<N>(stdx::ct_string<N + 1>{t.c}, t.c);
    is<N>(stdx::ct_string{t.c}, t.c);
    is<N>(stdx::ct_string<N + 1>{t.c, N}, t.c);
    is<N>(stdx::ct_string<N + 1>{std::string_view{t.c, N}}, t.c);
    auto s = stdx::ct_string<N + 1>{t.c};
    auto const copy = s;
    is<N>(copy, t.c);
    CHECK(s == copy);
    // the mutable range is the same one
    CHECK(s.end() - s.begin() == N);
    CHECK(s.begin() == s.value.begin());
}
template <std::size_t N, std::size_t M> void concat() {
    auto const a = text<N>{};
    auto const b = text<M>{};
    auto const l = stdx::ct_string{a.c};
    auto const r = stdx::ct_string{b.c};
    char both[N + M + 1]{};
    unroll<N>([&](auto i) { both[i] = a.c[i]; });
    unroll<M>([&](auto i) { both[N + i] = b.c[i]; });
    is<N + M>(l + r, both);
    is<N>(l, a.c);
    is<M>(r, b.c);
}
template <std::size_t N, std::size_t M> void compare() {
    auto const a = text<N>{};
    auto const b = text<M>{};
    auto const l = stdx::ct_string{a.c};
    auto const r = stdx::ct_string{b.c};
    bool eq = N == M;
    if constexpr (N == M) {
        unroll<N>([&](auto i) { eq = eq and a.c[i] == b.c[i]; });
    }
    CHECK((l == r) == eq);
    CHECK((r == l) == eq);
    CHECK((l != r) == not eq);
    CHECK(l == l);
}
} // namespace
VP_HARNESS(construct_0, 3, q) { construct<0>(); }
VP_HARNESS(construct_1, 4, q) { construct<1>(); }
VP_HARNESS(construct_2, 5, q) { construct<2>(); }
VP_HARNESS(construct_5, 8, q) { construct<5>(); }
VP_HARNESS(construct_9, 12, q) { construct<9>(); }
VP_HARNESS(construct_24, 27, t) { construct<24>(); }
VP_HARNESS(concat_0_0, 3, q) { concat<0, 0>(); }
VP_HARNESS(concat_0_3, 6, q) { concat<0, 3>(); }
VP_HARNESS(concat_3_0, 6, q) { concat<3, 0>(); }
VP_HARNESS(concat_1_1, 4, q) { concat<1, 1>(); }
VP_HARNESS(concat_2_4, 7, q) { concat<2, 4>(); }
VP_HARNESS(concat_5_3, 8, q) { concat<5, 3>(); }
VP_HARNESS(concat_9_9, 12, q) { concat<9, 9>(); }
VP_HARNESS(compare_0_0, 3, q) { compare<0, 0>(); }
VP_HARNESS(compare_1_1, 4, q) { compare<1, 1>(); }
VP_HARNESS(compare_4_4, 7, q) { compare<4, 4>(); }
VP_HARNESS(compare_8_8, 11, q) { compare<8, 8>(); }
VP_HARNESS(compare_0_1, 4, q) { compare<0, 1>(); }
VP_HARNESS(compare_3_4, 7, q) { compare<3, 4>(); }
VP_HARNESS(compare_6_2, 9, q) { compare<6, 2>(); }
VP_HARNESS(chained, 6, q) {
    auto const a = text<2>{};
    auto const b = text<1>{};
    auto const c = text<3>{};
    char all[7]{a.c[0], a.c[1], b.c[0], c.c[0], c.c[1], c.c[2], 0};
    is<6>(stdx::ct_string{a.c} + stdx::ct_string{b.c} + stdx::ct_string{c.c}, all);
    is<6>(stdx::ct_string{a.c} + (stdx::ct_string{b.c} + stdx::ct_string{c.c}), all);
    char mixed[5]{a.c[0], a.c[1], 'x', 'y', 0};
    is<4>(stdx::ct_string{a.c} + "xy"_ctst, mixed);
    char other[5]{'x', 'y', a.c[0], a.c[1], 0};
    is<4>("xy"_ctst + stdx::ct_string{a.c}, other);
}
VP_HARNESS(written, 6, q) {
    auto const a = text<3>{};
    auto s = stdx::ct_string{a.c};
    auto const v = nd<char>();
    auto const i = nd<std::size_t>();
    ASSUME(i < 3);
    *(s.begin() + static_cast<std::ptrdiff_t>(i)) = v;
    unroll<3>([&](auto k) { CHECK(s.value[k] == (k == i ? v : a.c[k])); });
    CHECK(s.value[3] == 0);
}
VP_HARNESS(iterated, 8, q) {
    auto const a = text<5>{};
    auto const s = stdx::ct_string{a.c};
    std::size_t n{};
    for (auto const c : s) {
        CHECK(n < 5);
        CHECK(c == a.c[n]);
        ++n;
    }
    CHECK(n == 5);
}
#endif
// facts about strings that are template arguments
VP_HARNESS(split, 10, q) {
    splits_everywhere<"">();
    splits_everywhere<"a">();
    splits_everywhere<"b">();
    splits_everywhere<"ab">();
    splits_everywhere<"aa">();
    splits_everywhere<"abba">();
    splits_everywhere<":a b:">();
    splits_everywhere<"b\x80:\xff a">();
    splits_everywhere<"::">();
    splits_everywhere<"x\0a">();
}
// more characters than a byte can count
VP_HARNESS(long_strings, 310, q) {
    splits<"xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxaxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx:", 'a'>();
    splits<"xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxaxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx:", ':'>();
    splits<"xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxaxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx:", 'b'>();
    constexpr auto l = stdx::ct_string{"xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxaxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx:"};
    constexpr auto lb = l + stdx::ct_string{"bcd"};
    is<302>(lb, "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxaxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx:" "bcd");
    constexpr auto bl = stdx::ct_string{"bcd"} + l;
    is<302>(bl, "bcd" "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxaxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx:");
    CHECK(not(lb == bl) and lb == l + stdx::ct_string{"bcd"});
}
VP_HARNESS(types, 10, q) {
    is<3>("abc"_cts, "abc");
    is<0>(""_cts, "");
    is<3>(+"abc"_ctst, "abc");
    is<3>("abc"_ctst(), "abc");
    is<3>(decltype("abc"_ctst)::value, "abc");
    CHECK("abc"_ctst.size() == 3);
    CHECK("abc"_ctst == "abc"_ctst);
    CHECK(not("abc"_ctst == "abd"_ctst));
    CHECK(not("abc"_ctst == "abcd"_ctst));
    is<5>(+("ab"_ctst + "cde"_ctst), "abcde");
    is<2>(stdx::ct_string_from_type(chars<char, 'q', 'r'>{}), "qr");
    is<0>(stdx::ct_string_from_type(chars<char>{}), "");
    CHECK(std::is_same_v<stdx::ct_string_to_type_t<"qr", chars>, chars<char, 'q', 'r'>>);
    CHECK(std::is_same_v<stdx::ct_string_to_type_t<"", chars>, chars<char>>);
    CHECK(std::is_same_v<decltype(stdx::ct<"abc">()), stdx::cts_t<"abc">>);
}

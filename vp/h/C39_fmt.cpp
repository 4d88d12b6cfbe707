// Formatting without the fmt library: every value of the integral types, strings, and the
// splitting of format strings over all short texts.
// VP-CONFIG num: -std=c++20 -DSTDX_FREESTANDING -Dconsteval=constexpr -DPART=1
// VP-CONFIG wide: -std=c++20 -DSTDX_FREESTANDING -Dconsteval=constexpr -DPART=2
// VP-CONFIG text: -std=c++20 -DSTDX_FREESTANDING -Dconsteval=constexpr -DPART=3
// VP-CONFIG whole: -std=c++20 -DSTDX_FREESTANDING -DPART=4
#include "vp.hpp"
#include <array>
#include <cstddef>
#include <cstdint>
#include <string_view>
#include <type_traits>
#include <utility>
#include <stdx/ct_format.hpp>
#include <stdx/ct_string.hpp>
using namespace vp;
using namespace stdx::literals;

namespace {
constexpr char guard = 0x7f;

template <typename T> constexpr auto digits(unsigned base) -> std::size_t {
    auto n = std::size_t{};
    // the minimum of a signed type has the largest magnitude
    std::uint64_t m = std::is_signed_v<T> ? std::uint64_t{1} << (sizeof(T) * 8 - 1)
                                          : static_cast<std::uint64_t>(static_cast<T>(-1));
    for (; m != 0; m /= base) {
        ++n;
    }
    return n;
}

// p[0..n) is v written in the base, with a sign only when negative and no leading zeros
template <typename T, unsigned Base>
void is_number(char const *p, std::size_t n, T v) {
    using U = std::make_unsigned_t<T>;
    constexpr auto Max = digits<T>(Base);
    bool negative = v < 0;
    auto const magnitude =
        negative ? static_cast<U>(U{} - static_cast<U>(v)) : static_cast<U>(v);
    CHECK((p[0] == '-') == negative);
    std::size_t const sign = negative ? 1 : 0;
    auto const d = n - sign;
    CHECK(d >= 1);
    CHECK(d <= Max);
    CHECK(d == 1 or p[sign] != '0');
    U value{};
    unroll<Max>([&](auto i) {
        if (i < d) {
            char const c = p[sign + i];
            auto const dec = c >= '0' and c <= '9';
            auto const hex = Base == 16 and c >= 'a' and c <= 'f';
            CHECK(dec or hex);
            auto const digit = static_cast<U>(dec ? c - '0' : c - 'a' + 10);
            value = static_cast<U>(static_cast<U>(value * Base) + digit);
        }
    });
    CHECK(value == magnitude);
}

template <typename T, stdx::ct_string Fmt, unsigned Base, std::size_t Pre, std::size_t Post>
void number(T v) {
    constexpr auto f = STDX_FMT_COMPILE(Fmt);
    constexpr auto Max = Pre + Post + digits<T>(Base) + 1;
    constexpr auto text = std::string_view{Fmt.value.data(), Fmt.size()};
    std::array<char, Max + 2> buf{};
    unroll<Max + 2>([&](auto i) { buf[i] = guard; });
    auto const n = stdx::fmt::formatted_size(f, v);
    CHECK(n <= Max);
    CHECK(n > Pre + Post);
    stdx::fmt::format_to(buf.begin(), f, v);
    unroll<Max + 2>([&](auto i) {
        CHECK((buf[i] == guard) == (i >= n));
        if (i < Pre) {
            CHECK(buf[i] == text[i]);
        }
        if (i < Post) {
            CHECK(buf[n - Post + i] == text[text.size() - Post + i]);
        }
    });
    is_number<T, Base>(buf.data() + Pre, n - Pre - Post, v);
}
template <typename T> void plain() {
    auto const v = nd<T>();
    COVER(v == static_cast<T>(T{1} << (sizeof(T) * 8 - 1)));
    COVER(v == 0);
    number<T, "{}", 10, 0, 0>(v);
}
template <typename T> void hex() {
    auto const v = nd<T>();
    COVER(v == static_cast<T>(T{1} << (sizeof(T) * 8 - 1)));
    number<T, "{:x}", 16, 0, 0>(v);
}

// v written by format_to through F is exactly want
template <stdx::ct_string Fmt, typename V, std::size_t N>
void writes(V const &v, char const (&want)[N]) {
    constexpr auto f = STDX_FMT_COMPILE(Fmt);
    std::array<char, N + 2> buf{};
    unroll<N + 2>([&](auto i) { buf[i] = guard; });
    auto const n = stdx::fmt::formatted_size(f, v);
    CHECK(n == N - 1);
    stdx::fmt::format_to(buf.begin(), f, v);
    unroll<N + 2>([&](auto i) {
        if constexpr (i < N - 1) {
            CHECK(buf[i] == want[i]);
        } else {
            CHECK(buf[i] == guard);
        }
    });
}
} // namespace

#if PART == 1
VP_HARNESS(dec_i8, 5, q) { plain<std::int8_t>(); }
VP_HARNESS(dec_u8, 5, q) { plain<std::uint8_t>(); }
VP_HARNESS(dec_i16, 7, q) { plain<std::int16_t>(); }
VP_HARNESS(dec_u16, 7, q) { plain<std::uint16_t>(); }
VP_HARNESS(hex_i8, 5, q) { hex<std::int8_t>(); }
VP_HARNESS(hex_u8, 5, q) { hex<std::uint8_t>(); }
VP_HARNESS(hex_i16, 7, q) { hex<std::int16_t>(); }
VP_HARNESS(hex_u16, 7, q) { hex<std::uint16_t>(); }
VP_HARNESS(surrounded, 14, q) {
    number<std::int8_t, "a{}", 10, 1, 0>(nd<std::int8_t>());
    number<std::int8_t, "{}yz", 10, 0, 2>(nd<std::int8_t>());
    number<std::int8_t, "ab}{}:x}z", 10, 3, 4>(nd<std::int8_t>());
    number<std::uint8_t, "0x{:x};", 16, 2, 1>(nd<std::uint8_t>());
    number<std::int8_t, "{:x}{}", 16, 0, 2>(nd<std::int8_t>());
}
#endif

#if PART == 2
namespace {
constexpr auto power(unsigned k) -> std::uint64_t {
    std::uint64_t p = 1;
    while (k-- != 0) {
        p *= 10;
    }
    return p;
}
// decimal values of the type with K digits
template <typename T, unsigned K> auto with_digits() -> T {
    using U = std::make_unsigned_t<T>;
    auto const v = nd<T>();
    U const m = v < 0 ? static_cast<U>(U{} - static_cast<U>(v)) : static_cast<U>(v);
    if constexpr (K > 1) {
        ASSUME(m >= power(K - 1));
    }
    if constexpr (K < digits<T>(10)) {
        ASSUME(m < power(K));
    }
    return v;
}
template <typename T, unsigned K> void size_of() {
    auto const v = with_digits<T, K>();
    constexpr auto f = STDX_FMT_COMPILE(stdx::ct_string{"{}"});
    CHECK(stdx::fmt::formatted_size(f, v) == K + (v < 0 ? 1 : 0));
}
template <typename T, unsigned K> void digits_of() {
    auto const v = with_digits<T, K>();
    constexpr auto f = STDX_FMT_COMPILE(stdx::ct_string{"{}"});
    constexpr auto Max = digits<T>(10) + 3;
    std::array<char, Max> buf{};
    unroll<Max>([&](auto i) { buf[i] = guard; });
    stdx::fmt::format_to(buf.begin(), f, v);
    std::size_t n = K + (v < 0 ? 1 : 0);
    unroll<Max>([&](auto i) { CHECK((buf[i] == guard) == (i >= n)); });
    is_number<T, 10>(buf.data(), n, v);
}

template <typename T> void sizes() {
    unroll<digits<T>(10)>([](auto k) { size_of<T, k + 1>(); });
}
// every digit count: the values next to a power of ten
template <typename T> void edges() {
    constexpr auto N = digits<T>(10);
    unroll<N>([&](auto k) {
        constexpr auto p = static_cast<T>(power(k));
        number<T, "{}", 10, 0, 0>(p);
        number<T, "{}", 10, 0, 0>(static_cast<T>(p - 1));
        if constexpr (std::is_signed_v<T>) {
            number<T, "{}", 10, 0, 0>(static_cast<T>(-p));
            number<T, "{}", 10, 0, 0>(static_cast<T>(1 - p));
        }
    });
}
// values within 4096 of a limit
template <typename T, bool Max> void limit() {
    constexpr T least = std::is_signed_v<T>
                            ? static_cast<T>(std::uint64_t{1} << (sizeof(T) * 8 - 1))
                            : T{};
    constexpr T l = Max ? static_cast<T>(~least) : least;
    auto const d = static_cast<T>(nd<std::uint16_t>() & 0xfff);
    auto const v = static_cast<T>(Max ? l - d : l + d);
    COVER(v == l);
    number<T, "{}", 10, 0, 0>(v);
}
template <typename T> void near_zero() {
    auto const v = nd<T>();
    if constexpr (std::is_signed_v<T>) {
        ASSUME(v > -2000 and v < 2000);
    } else {
        ASSUME(v < 10000);
    }
    number<T, "{}", 10, 0, 0>(v);
}
} // namespace
VP_HARNESS(dec_sizes_u32, 12, q) { sizes<std::uint32_t>(); }
VP_HARNESS(dec_sizes_i32, 12, q) { sizes<std::int32_t>(); }
VP_HARNESS(dec_sizes_u64, 22, t) { sizes<std::uint64_t>(); }
VP_HARNESS(dec_sizes_i64, 22, t) { sizes<std::int64_t>(); }
VP_HARNESS(dec_edges_u32, 12, q) { edges<std::uint32_t>(); }
VP_HARNESS(dec_edges_i32, 12, q) { edges<std::int32_t>(); }
VP_HARNESS(dec_edges_u64, 22, t) { edges<std::uint64_t>(); }
VP_HARNESS(dec_edges_i64, 22, t) { edges<std::int64_t>(); }
VP_HARNESS(dec_least_i32, 12, q) { limit<std::int32_t, false>(); }
VP_HARNESS(dec_most_i32, 12, q) { limit<std::int32_t, true>(); }
VP_HARNESS(dec_most_u32, 12, q) { limit<std::uint32_t, true>(); }
VP_HARNESS(dec_least_i64, 22, q) { limit<std::int64_t, false>(); }
VP_HARNESS(dec_most_i64, 22, q) { limit<std::int64_t, true>(); }
VP_HARNESS(dec_most_u64, 22, q) { limit<std::uint64_t, true>(); }
VP_HARNESS(dec_zero_i32, 12, q) { near_zero<std::int32_t>(); }
VP_HARNESS(dec_zero_u32, 12, q) { near_zero<std::uint32_t>(); }
VP_HARNESS(dec_zero_i64, 22, t) { near_zero<std::int64_t>(); }
VP_HARNESS(dec_zero_u64, 22, q) { near_zero<std::uint64_t>(); }
VP_HARNESS(dec_u32_5, 12, q) { digits_of<std::uint32_t, 5>(); }
VP_HARNESS(dec_u32_6, 12, t) { digits_of<std::uint32_t, 6>(); }
VP_HARNESS(dec_u32_7, 12, t) { digits_of<std::uint32_t, 7>(); }
VP_HARNESS(dec_u32_8, 12, t) { digits_of<std::uint32_t, 8>(); }
VP_HARNESS(dec_u32_9, 12, t) { digits_of<std::uint32_t, 9>(); }
VP_HARNESS(dec_u32_10, 12, t) { digits_of<std::uint32_t, 10>(); }
VP_HARNESS(dec_i32_6, 12, t) { digits_of<std::int32_t, 6>(); }
VP_HARNESS(dec_i32_8, 12, t) { digits_of<std::int32_t, 8>(); }
VP_HARNESS(dec_i32_10, 12, t) { digits_of<std::int32_t, 10>(); }
VP_HARNESS(hex_i32, 12, q) { hex<std::int32_t>(); }
VP_HARNESS(hex_u32, 12, q) { hex<std::uint32_t>(); }
VP_HARNESS(hex_i64, 20, t) { hex<std::int64_t>(); }
VP_HARNESS(hex_u64, 20, q) { hex<std::uint64_t>(); }
#endif

#if PART == 3
// stand-ins chosen only where the library has no such functions
namespace stdx {
inline namespace v1 {
namespace detail {
struct no_split {
    std::string_view view;
    std::size_t start{};
};
template <typename S, int = 0> constexpr auto count_specifiers(S, ...) -> no_split {
    return {};
}
template <std::size_t N, typename S, int = 0> constexpr auto split_specifiers(S, ...) -> no_split {
    return {};
}
} // namespace detail
} // namespace v1
} // namespace stdx

namespace {
// A format string read character by character: doubled opening braces are text, any other
// opening brace starts a specifier that runs to the next closing brace.
template <std::size_t L> struct reading {
    std::size_t specs{};
    std::array<std::size_t, L + 1> open{};  // where the specifier starts
    std::array<std::size_t, L + 1> close{}; // one past where it ends
    bool complete{true};
    explicit reading(std::array<char, L> const &s) {
        bool in{};
        bool skip{};
        unroll<L>([&](auto i) {
            if (skip) {
                skip = false;
            } else if (in) {
                if (s[i] == '}') {
                    close[specs++] = i + 1;
                    in = false;
                } else if (s[i] == '{') {
                    complete = false;
                }
            } else if (s[i] == '{') {
                if constexpr (i + 1 < L) {
                    if (s[i + 1] == '{') {
                        skip = true;
                    } else {
                        in = true;
                        open[specs] = i;
                    }
                } else {
                    complete = false;
                }
            }
        });
        if (in) {
            complete = false;
        }
    }
};
template <std::size_t L> void counts() {
    auto const s = nd_array<char, L>();
    reading<L> r{s};
    ASSUME(r.complete);
    auto const c = stdx::detail::count_specifiers(std::string_view{s.data(), L});
    if constexpr (std::is_same_v<decltype(c), std::size_t const>) {
        CHECK(c == r.specs);
        COVER(c == L / 2);
    }
}
template <std::size_t L, std::size_t N> void splits() {
    auto const s = nd_array<char, L>();
    reading<L> r{s};
    ASSUME(r.complete);
    ASSUME(r.specs == N);
    auto const a = stdx::detail::split_specifiers<N + 1>(std::string_view{s.data(), L});
    if constexpr (not std::is_same_v<decltype(a), stdx::detail::no_split const>) {
        CHECK(a.size() == N + 1);
        char const *at = s.data();
        unroll<N + 1>([&](auto i) {
            CHECK(a[i].view.data() == at);
            if constexpr (i < N) {
                CHECK(at + a[i].start == s.data() + r.open[i]);
                CHECK(at + a[i].view.size() == s.data() + r.close[i]);
                at = s.data() + r.close[i];
            } else {
                CHECK(at + a[i].view.size() == s.data() + L);
                CHECK(a[i].start == a[i].view.size());
            }
        });
    }
}
} // namespace
VP_HARNESS(count_1, 2, q) { counts<1>(); }
VP_HARNESS(count_2, 2, q) { counts<2>(); }
VP_HARNESS(count_3, 3, q) { counts<3>(); }
VP_HARNESS(count_5, 3, q) { counts<5>(); }
VP_HARNESS(count_6, 4, q) { counts<6>(); }
VP_HARNESS(count_8, 5, t) { counts<8>(); }
VP_HARNESS(split_3_0, 3, q) { splits<3, 0>(); }
VP_HARNESS(split_3_1, 3, q) { splits<3, 1>(); }
VP_HARNESS(split_5_0, 4, q) { splits<5, 0>(); }
VP_HARNESS(split_5_1, 3, q) { splits<5, 1>(); }
VP_HARNESS(split_5_2, 3, q) { splits<5, 2>(); }
VP_HARNESS(split_7_2, 4, t) { splits<7, 2>(); }
VP_HARNESS(split_7_3, 4, t) { splits<7, 3>(); }

VP_HARNESS(character, 6, q) {
    auto const c = nd<char>();
    ASSUME(c != guard);
    writes<"{}">(c, {c, 0});
    writes<"<{}>">(c, {'<', c, '>', 0});
}
VP_HARNESS(boolean, 8, q) {
    writes<"{}">(true, "true");
    writes<"<{}>">(false, "<false>");
    writes<"{:x}">(true, "1");
    writes<"{:x}">(false, "0");
}
VP_HARNESS(view, 8, q) {
    auto a = nd_array<char, 3>();
    unroll<3>([&](auto i) { ASSUME(a[i] != guard); });
    writes<"{}">(std::string_view{a.data(), 3}, {a[0], a[1], a[2], 0});
    writes<"<{}>">(std::string_view{a.data(), 2}, {'<', a[0], a[1], '>', 0});
    writes<"<{}>">(std::string_view{a.data(), 0}, "<>");
}
VP_HARNESS(terminated, 8, q) {
    auto a = nd_array<char, 4>();
    unroll<3>([&](auto i) {
        ASSUME(a[i] != guard);
        ASSUME(a[i] != 0);
    });
    a[3] = 0;
    char const *p = a.data();
    writes<"{}">(p, {a[0], a[1], a[2], 0});
    writes<"<{}>">(p + 1, {'<', a[1], a[2], '>', 0});
    writes<"<{}>">(p + 3, "<>");
}
VP_HARNESS(compile_time_string, 8, q) {
    auto a = nd_array<char, 3>();
    unroll<3>([&](auto i) { ASSUME(a[i] != guard); });
    stdx::ct_string<4> s{a.data(), 3};
    writes<"{}">(s, {a[0], a[1], a[2], 0});
    writes<"a{}b">(s, {'a', a[0], a[1], a[2], 'b', 0});
}
#endif

#if PART == 4
namespace {
template <typename T, T... Cs> struct chars {
    template <T... Ds>
    friend constexpr auto operator+(chars, chars<T, Ds...>) -> chars<T, Cs..., Ds...> {
        return {};
    }
};
// the text of a result
template <stdx::ct_string Want, typename R> void text(R const &) {
    CHECK(std::is_same_v<std::remove_cvref_t<decltype(R::str)>, stdx::cts_t<Want>>);
}
template <std::size_t N, typename R> void args(R const &) {
    CHECK(std::remove_cvref_t<decltype(R::args)>::size() == N);
}
template <typename R, typename... Ns> void named() {
    CHECK(std::is_same_v<typename R::named_args_t, stdx::type_list<Ns...>>);
}
enum struct color { red, green };
struct custom {
    std::uint32_t x;
};
constexpr auto ct_format_as(custom const &c) { return stdx::ct_format<"<{}|{}>">(c.x, CX_VALUE(9)); }
struct moving {
    std::uint32_t v;
    explicit moving(std::uint32_t x) : v{x} {}
    moving(moving &&o) noexcept : v{o.v} { o.v = 0; }
    auto operator=(moving &&) -> moving & = delete;
};
} // namespace

VP_HARNESS(no_arguments, 4, q) {
    auto r = stdx::ct_format<"Hello}} {{}}">();
    text<"Hello}} {{}}">(r);
    args<0>(r);
    CHECK(stdx::num_fmt_specifiers<"Hello}} {{}}"> == 0);
    CHECK(stdx::num_fmt_specifiers<"{{{}}}{:x}"> == 2);
    CHECK(stdx::num_fmt_specifiers<""> == 0);
    auto e = stdx::ct_format<"">();
    text<"">(e);
    args<0>(e);
}
VP_HARNESS(compile_time_arguments, 4, q) {
    text<"Hello -7 ff">(stdx::ct_format<"Hello {} {:x}">(CX_VALUE(-7), CX_VALUE(255u)));
    text<"x=green,int!">(
        stdx::ct_format<"x={},{}!">(CX_VALUE(color::green), CX_VALUE(int)));
    text<"18446744073709551615">(stdx::ct_format<"{}">(CX_VALUE(~std::uint64_t{})));
    text<"-9223372036854775808">(
        stdx::ct_format<"{}">(CX_VALUE(static_cast<std::int64_t>(std::uint64_t{1} << 63))));
    text<"-80">(stdx::ct_format<"{:x}">(CX_VALUE(std::int8_t{-128})));
    text<"abc">(stdx::ct_format<"{}{}{}">("a"_ctst, CX_VALUE('b'), CX_VALUE("c")));
    text<"">(stdx::ct_format<"{}">(""_ctst));
    text<"17">(stdx::ct_format<"{}">(stdx::ct<17>()));
    text<"red.">(stdx::ct_format<"{}.">(stdx::ct<color::red>()));
}
VP_HARNESS(runtime_arguments, 4, q) {
    auto const a = nd<std::uint32_t>();
    auto const b = nd<std::uint64_t>();
    auto const c = nd<std::uint8_t>();
    auto r = stdx::ct_format<"x {} y {:x} z {}">(a, b, c);
    text<"x {} y {:x} z {}">(r);
    args<3>(r);
    CHECK(stdx::get<0>(r.args) == a);
    CHECK(stdx::get<1>(r.args) == b);
    CHECK(stdx::get<2>(r.args) == c);
    CHECK(std::is_same_v<decltype(r.args), stdx::tuple<std::uint32_t, std::uint64_t, std::uint8_t>>);

    auto m = stdx::ct_format<"{} {} {} {} end">(CX_VALUE(1), a, CX_VALUE("mid"), c);
    text<"1 {} mid {} end">(m);
    args<2>(m);
    CHECK(stdx::get<0>(m.args) == a);
    CHECK(stdx::get<1>(m.args) == c);
}
VP_HARNESS(moved_arguments, 4, q) {
    auto const a = nd<std::uint32_t>();
    auto const b = nd<std::uint32_t>();
    auto r = stdx::ct_format<"{} {} {}">(moving{a}, CX_VALUE(0), moving{b});
    text<"{} 0 {}">(r);
    CHECK(stdx::get<0>(r.args).v == a);
    CHECK(stdx::get<1>(r.args).v == b);
}
VP_HARNESS(nested_results, 4, q) {
    auto const a = nd<std::uint32_t>();
    auto const b = nd<std::uint32_t>();
    auto const c = nd<std::uint32_t>();
    auto const d = nd<std::uint32_t>();
    auto const inner = stdx::ct_format<"[{} {}|{}]">(b, CX_VALUE(5), c);
    auto r = stdx::ct_format<"{}:{}:{}.">(a, inner, d);
    text<"{}:[{} 5|{}]:{}.">(r);
    args<4>(r);
    CHECK(stdx::get<0>(r.args) == a);
    CHECK(stdx::get<1>(r.args) == b);
    CHECK(stdx::get<2>(r.args) == c);
    CHECK(stdx::get<3>(r.args) == d);
    // in both directions
    auto rr = stdx::ct_format<"{}{}">(inner, stdx::ct_format<"({})">(d));
    text<"[{} 5|{}]({})">(rr);
    CHECK(stdx::get<0>(rr.args) == b);
    CHECK(stdx::get<1>(rr.args) == c);
    CHECK(stdx::get<2>(rr.args) == d);
    auto e = stdx::ct_format<"<{}>{}">("in"_fmt_res, a);
    text<"<in>{}">(e);
    CHECK(stdx::get<0>(e.args) == a);
}
VP_HARNESS(customised, 4, q) {
    auto const a = nd<std::uint32_t>();
    auto const b = nd<std::uint32_t>();
    auto r = stdx::ct_format<"a {} b {}">(custom{a}, b);
    text<"a <{}|9> b {}">(r);
    CHECK(stdx::get<0>(r.args) == a);
    CHECK(stdx::get<1>(r.args) == b);
}
VP_HARNESS(named_arguments, 4, q) {
    auto const a = nd<std::uint32_t>();
    auto const b = nd<std::uint8_t>();
    auto r = stdx::ct_format<"x {alpha} {beta:x} {}">(a, b, a);
    text<"x {} {:x} {}">(r);
    CHECK(stdx::get<0>(r.args) == a);
    CHECK(stdx::get<1>(r.args) == b);
    CHECK(stdx::get<2>(r.args) == a);
    named<decltype(r), stdx::named_arg<"alpha", std::uint32_t, 0>,
          stdx::named_arg<"beta", std::uint8_t, 1>>();
    // runtime arguments are named by position, compile-time ones by the characters they take
    auto m = stdx::ct_format<"{p} {q} {} {r}">(b, CX_VALUE(1234), a, b);
    text<"{} 1234 {} {}">(m);
    named<decltype(m), stdx::named_arg<"p", std::uint8_t, 0>, stdx::named_arg<"q", int, 3, 7>,
          stdx::named_arg<"r", std::uint8_t, 2>>();
    CHECK(stdx::get<0>(m.args) == b);
    CHECK(stdx::get<1>(m.args) == a);
    CHECK(stdx::get<2>(m.args) == b);
}
VP_HARNESS(other_output, 4, q) {
    auto const a = nd<std::uint32_t>();
    auto r = stdx::ct_format<"a{}{}", chars>(CX_VALUE(12), a);
    CHECK(std::is_same_v<std::remove_cvref_t<decltype(r.str)>,
                         chars<char, 'a', '1', '2', '{', '}'>>);
    CHECK(stdx::get<0>(r.args) == a);
}
#endif

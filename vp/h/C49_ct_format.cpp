// Compile-time formatting: the text, and the run-time arguments it carries with it.  Format strings
// are template arguments (a family); the values of all run-time arguments are symbolic.
// VP-CONFIG free: -std=c++20 -DSTDX_FREESTANDING
// VP-CONFIG free23: -std=c++23 -DSTDX_FREESTANDING
#include "vp.hpp"
#include <array>
#include <cstddef>
#include <cstdint>
#include <string_view>
#include <type_traits>
#include <utility>
#include <stdx/ct_format.hpp>
#include <stdx/ct_string.hpp>
#include <stdx/pp_map.hpp>
#include <stdx/static_assert.hpp>
using namespace vp;
using namespace stdx::literals;
using u8 = std::uint8_t;
using u16 = std::uint16_t;
using u32 = std::uint32_t;
using u64 = std::uint64_t;

enum struct color { red, green };
namespace {
template <typename T, T... Cs> struct chars {
    template <T... Ds>
    friend constexpr auto operator+(chars, chars<T, Ds...>) -> chars<T, Cs..., Ds...> {
        return {};
    }
};
// the text of a result, at a position that the solver picks
template <stdx::ct_string Want, typename R> void text(R const &) {
    constexpr static auto got = std::remove_cvref_t<decltype(R::str)>::value;
    CHECK(got.size() == Want.size());
    auto const k = below<std::size_t>(Want.size() + 1);
    if (got.size() == Want.size()) { CHECK(got.value[k] == Want.value[k]); }
}
template <std::size_t I, typename T, typename R> void arg(R const &r, T v) {
    constexpr auto there = I < std::remove_cvref_t<decltype(R::args)>::size();
    CHECK(there);
    if constexpr (there) {
        CHECK(std::is_same_v<std::remove_cvref_t<decltype(stdx::get<I>(r.args))>, T>);
        CHECK(stdx::get<I>(r.args) == v);
    }
}
template <typename R, typename... Ts> void args(R const &r, Ts... vs) {
    CHECK(std::remove_cvref_t<decltype(R::args)>::size() == sizeof...(Ts));
    [&]<std::size_t... Is>(std::index_sequence<Is...>) { (arg<Is>(r, vs), ...); }(std::index_sequence_for<Ts...>{});
}
template <typename... Ns, typename R> void named(R const &) {
    CHECK(std::is_same_v<typename R::named_args_t, stdx::type_list<Ns...>>);
}
template <stdx::ct_string S, typename T, int B, int E = B - 1> using na = stdx::named_arg<S, T, B, E>;


struct custom {
    u32 x;
};
constexpr auto ct_format_as(custom const &c) { return stdx::ct_format<"<{}|{}>">(c.x, CX_VALUE(9)); }
struct moving {
    u32 v;
    explicit moving(u32 x) : v{x} {}
    moving(moving &&o) noexcept : v{o.v} { o.v = 0; }
    auto operator=(moving &&) -> moving & = delete;
};
} // namespace

VP_HARNESS(text_only, 4, q) {
    auto r = stdx::ct_format<"plain text">();
    text<"plain text">(r);
    args(r);
    auto e = stdx::ct_format<"">();
    text<"">(e);
    args(e);
    CHECK(+r == "plain text"_cts);
    CHECK(stdx::num_fmt_specifiers<"{{{}}}{:x}"> == 2);
    CHECK(stdx::num_fmt_specifiers<"{}{}{}{name}{n:x}"> == 5);
    CHECK(stdx::num_fmt_specifiers<"{{}}"> == 0);
    CHECK(stdx::num_fmt_specifiers<"}{{{{"> == 0);
    CHECK(stdx::num_fmt_specifiers<"{"> == 0);
    CHECK(stdx::num_fmt_specifiers<"{{{"> == 0);
}
VP_HARNESS(compile_time_arguments, 4, q) {
    text<"Hello -7 255">(stdx::ct_format<"Hello {} {}">(CX_VALUE(-7), CX_VALUE(255u)));
    text<"Hello ff">(stdx::ct_format<"Hello {:x}">(CX_VALUE(255u)));
    text<"-80">(stdx::ct_format<"{:x}">(CX_VALUE(std::int8_t{-128})));
    text<"x=green,int!">(stdx::ct_format<"x={},{}!">(CX_VALUE(color::green), CX_VALUE(int)));
    text<"18446744073709551615">(stdx::ct_format<"{}">(CX_VALUE(~u64{})));
    text<"-9223372036854775808">(stdx::ct_format<"{}">(CX_VALUE(static_cast<std::int64_t>(u64{1} << 63))));
    text<"abc">(stdx::ct_format<"{}{}{}">("a"_ctst, CX_VALUE('b'), CX_VALUE("c")));
    text<"">(stdx::ct_format<"{}">(""_ctst));
    text<"17">(stdx::ct_format<"{}">(stdx::ct<17>()));
    text<"red.">(stdx::ct_format<"{}.">(stdx::ct<color::red>()));
    text<"(color)7">(stdx::ct_format<"{}">(CX_VALUE(color{7})));
    text<"true/false">(stdx::ct_format<"{}/{}">(CX_VALUE(true), CX_VALUE(false)));
    auto r = stdx::ct_format<"{}">(CX_VALUE(std::string_view{"view"}));
    text<"view">(r);
    args(r);
    CHECK(+r == "view"_cts);
}
VP_HARNESS(runtime_arguments, 4, q) {
    auto const a = nd<u32>();
    auto const b = nd<u64>();
    auto const c = nd<u8>();
    auto const d = nd<bool>();
    auto r = stdx::ct_format<"x {} y {:x} z {}">(a, b, c);
    text<"x {} y {:x} z {}">(r);
    args(r, a, b, c);
    auto m = stdx::ct_format<"{} {} {} {} end">(CX_VALUE(1), a, CX_VALUE("mid"), c);
    text<"1 {} mid {} end">(m);
    args(m, a, c);
    auto l = stdx::ct_format<"{}{}{}{}{}{}">(d, c, CX_VALUE(0), b, a, c);
    text<"{}{}0{}{}{}">(l);
    args(l, d, c, b, a, c);
    auto p = stdx::ct_format<"{}">(&a);
    args(p, &a);
    // braces around run-time placeholders stay as they are
    auto br = stdx::ct_format<"{{{}}} {{}} {}">(a, b);
    text<"{{{}}} {{}} {}">(br);
    args(br, a, b);
}
VP_HARNESS(many_arguments, 4, q) {
    auto const v = nd_array<u32, 8>();
    auto const b = nd<u64>();
    auto r = stdx::ct_format<"a{}b{}c{}d{}e{}f{}g{}h{}i{}j">(v[0], b, v[1], v[2], v[3], b, v[4], v[5], v[6]);
    text<"a{}b{}c{}d{}e{}f{}g{}h{}i{}j">(r);
    args(r, v[0], b, v[1], v[2], v[3], b, v[4], v[5], v[6]);
    auto m = stdx::ct_format<"{} {} {} {} {} {} {} {} {} {}">(v[0], CX_VALUE(1), v[1], CX_VALUE("two"), v[2], v[3], CX_VALUE(3), v[4], v[5], CX_VALUE(int));
    text<"{} 1 {} two {} {} 3 {} {} int">(m);
    args(m, v[0], v[1], v[2], v[3], v[4], v[5]);
    auto o = stdx::ct_format<"<{} {} {} {}>">(v[7], r, CX_VALUE(5), m);
    text<"<{} a{}b{}c{}d{}e{}f{}g{}h{}i{}j 5 {} 1 {} two {} {} 3 {} {} int>">(o);
    args(o, v[7], v[0], b, v[1], v[2], v[3], b, v[4], v[5], v[6], v[0], v[1], v[2], v[3], v[4], v[5]);
}
VP_HARNESS(moved_arguments, 4, q) {
    auto const a = nd<u32>();
    auto const b = nd<u32>();
    auto r = stdx::ct_format<"{} {} {}">(moving{a}, CX_VALUE(0), moving{b});
    text<"{} 0 {}">(r);
    CHECK(stdx::get<0>(r.args).v == a);
    CHECK(stdx::get<1>(r.args).v == b);
    // a variable is copied and left as it was
    auto x = nd<u16>();
    auto const before = x;
    auto v = stdx::ct_format<"{} {}">(x, x);
    CHECK(x == before);
    args(v, before, before);
    x = static_cast<u16>(~before);
    args(v, before, before);
}
VP_HARNESS(nested_results, 4, q) {
    auto const a = nd<u32>();
    auto const b = nd<u8>();
    auto const c = nd<u16>();
    auto const d = nd<u64>();
    auto const inner = stdx::ct_format<"[{} {}|{}]">(b, CX_VALUE(5), c);
    auto r = stdx::ct_format<"{}:{}:{}.">(a, inner, d);
    text<"{}:[{} 5|{}]:{}.">(r);
    args(r, a, b, c, d);
    args(inner, b, c);
    auto rr = stdx::ct_format<"{}{}">(inner, stdx::ct_format<"({})">(d));
    text<"[{} 5|{}]({})">(rr);
    args(rr, b, c, d);
    auto e = stdx::ct_format<"<{}>{}">("in"_fmt_res, a);
    text<"<in>{}">(e);
    args(e, a);
    auto deep = stdx::ct_format<"{} {} {}">(r, a, rr);
    text<"{}:[{} 5|{}]:{}. {} [{} 5|{}]({})">(deep);
    args(deep, a, b, c, d, a, b, c, d);
    // one that is known to the compiler
    constexpr static auto fixed = stdx::ct_format<"answer {}">(u16{42});
    auto q = stdx::ct_format<"{} {}{}">(a, CX_VALUE(fixed), b);
    text<"{} answer {}{}">(q);
    args(q, a, u16{42}, b);
}
VP_HARNESS(customised, 4, q) {
    auto const a = nd<u32>();
    auto const b = nd<u32>();
    auto r = stdx::ct_format<"a {} b {}">(custom{a}, b);
    text<"a <{}|9> b {}">(r);
    args(r, a, b);
    custom const c{b};
    auto s = stdx::ct_format<"{}{}{}">(c, CX_VALUE(1), custom{a});
    text<"<{}|9>1<{}|9>">(s);
    args(s, b, a);
}
VP_HARNESS(named_arguments, 4, q) {
    auto const a = nd<u32>();
    auto const b = nd<u8>();
    auto r = stdx::ct_format<"x {alpha} {beta:x} {}">(a, b, a);
    text<"x {} {:x} {}">(r);
    args(r, a, b, a);
    named<na<"alpha", u32, 0>, na<"beta", u8, 1>>(r);
    // run-time arguments are named by position, compile-time ones by the characters they take
    auto m = stdx::ct_format<"{p} {q} {} {r}">(b, CX_VALUE(1234), a, b);
    text<"{} 1234 {} {}">(m);
    args(m, b, a, b);
    named<na<"p", u8, 0>, na<"q", int, 3, 7>, na<"r", u8, 2>>(m);
    auto none = stdx::ct_format<"{} {}">(a, CX_VALUE(3));
    named<>(none);
}
VP_HARNESS(nested_names, 4, q) {
    auto const a = nd<u32>();
    auto const b = nd<u8>();
    auto const inner = stdx::ct_format<"-{in}-">(b);
    named<na<"in", u8, 0>>(inner);
    auto r = stdx::ct_format<"{out} {} {last}">(a, inner, a);
    text<"{} -{}- {}">(r);
    args(r, a, b, a);
    named<na<"out", u32, 0>, na<"in", u8, 1>, na<"last", u32, 2>>(r);
    auto const fixed = stdx::ct_format<"ab{num}c">(CX_VALUE(77));
    text<"ab77c">(fixed);
    auto s = stdx::ct_format<"{x}..{}..{y}">(a, fixed, b);
    text<"{}..ab77c..{}">(s);
    args(s, a, b);
    named<na<"x", u32, 0>, na<"num", int, 6, 8>, na<"y", u8, 1>>(s);
    // an inserted result that has arguments of both kinds
    auto const both = stdx::ct_format<"{} {n} {m} {r}">(b, CX_VALUE(23), CX_VALUE(-1), a);
    text<"{} 23 -1 {}">(both);
    named<na<"n", int, 3, 5>, na<"m", int, 6, 8>, na<"r", u32, 1>>(both);
    auto t = stdx::ct_format<"abcd {}">(both);
    text<"abcd {} 23 -1 {}">(t);
    args(t, b, a);
    named<na<"n", int, 8, 10>, na<"m", int, 11, 13>, na<"r", u32, 1>>(t);
    auto u = stdx::ct_format<"{p}{}/{} {}{q}">(a, both, CX_VALUE(5), both, b);
    text<"{}{} 23 -1 {}/5 {} 23 -1 {}{}">(u);
    args(u, a, b, a, b, a, b);
    named<na<"p", u32, 0>, na<"n", int, 5, 7>, na<"m", int, 8, 10>, na<"r", u32, 2>, na<"n", int, 19, 21>, na<"m", int, 22, 24>,
          na<"r", u32, 4>, na<"q", u8, 5>>(u);
    // three deep
    auto v = stdx::ct_format<"({}) {}">(t, CX_VALUE(1));
    text<"(abcd {} 23 -1 {}) 1">(v);
    args(v, b, a);
    named<na<"n", int, 9, 11>, na<"m", int, 12, 14>, na<"r", u32, 1>>(v);
}
VP_HARNESS(other_output, 4, q) {
    auto const a = nd<u32>();
    auto r = stdx::ct_format<"a{}{}", chars>(CX_VALUE(12), a);
    CHECK(std::is_same_v<std::remove_cvref_t<decltype(r.str)>, chars<char, 'a', '1', '2', '{', '}'>>);
    CHECK(stdx::get<0>(r.args) == a);
    auto n = stdx::ct_format<"", chars>();
    CHECK(std::is_same_v<std::remove_cvref_t<decltype(n.str)>, chars<char>>);
}
VP_HARNESS(equality, 4, q) {
    auto const a = nd<u32>();
    auto const b = nd<u32>();
    auto const c = nd<u8>();
    auto const d = nd<u8>();
    auto x = stdx::ct_format<"{} {}">(a, c);
    auto y = stdx::ct_format<"{} {}">(b, d);
    CHECK((x == y) == (a == b and c == d));
    CHECK((x != y) == (a != b or c != d));
}
VP_HARNESS(by_macro, 4, q) {
    auto a = nd<u32>();
    auto b = nd<u64>();
    constexpr auto three = 3;
    auto r = STDX_CT_FORMAT("{} {} {} {}", a, 17, int, three);
    text<"{} 17 int 3">(r);
    args(r, a);
    auto s = STDX_CT_FORMAT("{}{}", b, a);
    text<"{}{}">(s);
    args(s, b, a);
    auto e = STDX_CT_FORMAT("nothing");
    text<"nothing">(e);
    args(e);
    auto l = STDX_CT_FORMAT("{}{}{}{}{}{}{}{}{}{}", 0, a, 2, 3, b, 5, 6, 7, color::red, 9);
    text<"0{}23{}567red9">(l);
    args(l, a, b);
    CHECK(STATIC_ASSERT(true, "held {} {}", 3, int));
}
namespace {
struct seen {
    u64 hash{};
    unsigned count{};
    void add(u64 x) {
        ++count;
        hash = ((hash << 3) | (hash >> 61)) ^ x;
    }
};
template <typename... Ts> auto saw(Ts... ts) {
    seen s{};
    (s.add(static_cast<u64>(ts)), ...);
    return s;
}
bool operator==(seen const &a, seen const &b) { return a.hash == b.hash and a.count == b.count; }
} // namespace
#define FLIPPED(x) static_cast<u8>(~(x))
#define ONE_MORE(...) static_cast<u8>((__VA_ARGS__) + 1)
VP_HARNESS(mapped, 4, q) {
    auto const v = nd_array<u8, 20>();
    CHECK(saw(STDX_MAP(FLIPPED)) == saw());
    CHECK(saw(STDX_MAP(FLIPPED, v[0])) == saw(FLIPPED(v[0])));
    CHECK(saw(STDX_MAP(FLIPPED, v[0], v[1])) == saw(FLIPPED(v[0]), FLIPPED(v[1])));
    CHECK(saw(STDX_MAP(ONE_MORE, v[2], (v[1]), v[0] + v[3])) ==
          saw(ONE_MORE(v[2]), ONE_MORE(v[1]), ONE_MORE(v[0] + v[3])));
    CHECK(saw(STDX_MAP(FLIPPED, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14],
                       v[15], v[16], v[17], v[18], v[19])) ==
          saw(FLIPPED(v[0]), FLIPPED(v[1]), FLIPPED(v[2]), FLIPPED(v[3]), FLIPPED(v[4]), FLIPPED(v[5]), FLIPPED(v[6]),
              FLIPPED(v[7]), FLIPPED(v[8]), FLIPPED(v[9]), FLIPPED(v[10]), FLIPPED(v[11]), FLIPPED(v[12]), FLIPPED(v[13]),
              FLIPPED(v[14]), FLIPPED(v[15]), FLIPPED(v[16]), FLIPPED(v[17]), FLIPPED(v[18]), FLIPPED(v[19])));
    int const many[]{STDX_MAP(FLIPPED, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26,
                              27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51,
                              52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76,
                              77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100)};
    CHECK(sizeof(many) / sizeof(int) == 100);
    auto const k = below<std::size_t>(100);
    CHECK(many[k] == static_cast<u8>(~(k + 1)));
}
// names in texts of more than 255 characters
#define FORTY "abcdefghijklmnopqrstabcdefghijklmnopqrst"
#define LONG_TEXT FORTY FORTY FORTY FORTY FORTY FORTY FORTY
VP_HARNESS(names_far_away, 4, q) {
    auto const a = nd<u32>();
    auto const b = nd<u8>();
    auto r = stdx::ct_format<LONG_TEXT "{p}{q}-{r}">(a, CX_VALUE(1234), b);
    text<LONG_TEXT "{}1234-{}">(r);
    args(r, a, b);
    named<na<"p", u32, 0>, na<"q", int, 282, 286>, na<"r", u8, 1>>(r);
    auto w = stdx::ct_format<LONG_TEXT "{q}" LONG_TEXT "{p}">(CX_VALUE(1234), CX_VALUE(5u));
    text<LONG_TEXT "1234" LONG_TEXT "5">(w);
    named<na<"q", int, 280, 284>, na<"p", u32, 564, 565>>(w);
    auto const inner = stdx::ct_format<"<{num}>">(CX_VALUE(77));
    auto s = stdx::ct_format<"{x}" LONG_TEXT "{}" LONG_TEXT "{}{y}{z}">(b, inner, inner, CX_VALUE(5), a);
    text<"{}" LONG_TEXT "<77>" LONG_TEXT "<77>5{}">(s);
    args(s, b, a);
    named<na<"x", u8, 0>, na<"num", int, 283, 285>, na<"num", int, 567, 569>, na<"y", int, 570, 571>, na<"z", u32, 1>>(s);
}

// Names of types, templates and enumerators: every character of the name of every member of a
// family, the member and the position being the solver's choice.
// VP-CONFIG a: -std=c++20
// VP-CONFIG std23: -std=c++23
#include "vp.hpp"
#include <stdx/ct_conversions.hpp>
#include <stdx/ct_string.hpp>
#include <string_view>
using namespace vp;
using u8 = std::uint8_t;

template <char C> struct ch {};
template <auto V> struct holder {
    enum struct inner : int { first, second };
    struct member {};
};
template <typename... Ts> struct types {};
struct incomplete;
struct complete {};
enum plain { one, two };
enum struct level : signed char { low = -100, mid = 0, high = 100 };
namespace far::away {
enum struct mode : unsigned { on = 1, off_ = 0xffff'fff0u };
struct thing {};
template <typename T> struct wrap {};
} // namespace far::away
namespace {
struct unnamed_scope {};
enum struct unnamed_mode { a1 };
} // namespace

namespace {
// a name in a fixed table, to be looked at at any position
struct name {
    u8 size{};
    char text[64]{};
    constexpr name(std::string_view s) : size{static_cast<u8>(s.size() < 64 ? s.size() : 64)} {
        for (std::size_t i = 0; i < size; ++i) { text[i] = s[i]; }
    }
};
template <std::size_t N> void agree(name const (&real)[N], name const (&expect)[N]) {
    auto const k = below<std::size_t>(N);
    CHECK(real[k].size == expect[k].size);
    auto const p = below<std::size_t>(64);
    CHECK(real[k].text[p] == expect[k].text[p]);
}
template <char C> constexpr auto spelled() -> name {
    char t[]{"ch<'?'>"};
    t[4] = C;
    return {std::string_view{t, 7}};
}
template <char C> constexpr auto holder_spelled(char n) -> name {
    char t[]{"(holder<'?'>::inner)?"};
    t[9] = C;
    t[20] = n;
    return {std::string_view{t, 21}};
}
constexpr auto value_spelled(int v) -> name {
    if (v == -100) { return {"low"}; }
    if (v == 0) { return {"mid"}; }
    if (v == 100) { return {"high"}; }
    char t[]{"(level)????"};
    std::size_t n{7};
    if (v < 0) { t[n++] = '-'; }
    auto const a = v < 0 ? -v : v;
    if (a > 99) { t[n++] = static_cast<char>('0' + a / 100); }
    if (a > 9) { t[n++] = static_cast<char>('0' + a / 10 % 10); }
    t[n++] = static_cast<char>('0' + a % 10);
    return {std::string_view{t, n}};
}
// the printable characters that are spelled as themselves
template <std::size_t I> constexpr auto printable() -> char {
    constexpr std::string_view all{" !#$%&()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_`abcdefghijklmnopqrstuvwxyz{|}~"};
    return all[I];
}
constexpr std::size_t characters = 92;
} // namespace

VP_HARNESS(with_character, 2, q) {
    [&]<std::size_t... Is>(std::index_sequence<Is...>) {
        constexpr static name real[]{{stdx::type_as_string<ch<printable<Is>()>>()}...};
        constexpr static name expect[]{spelled<printable<Is>()>()...};
        agree(real, expect);
        constexpr static name base[]{{stdx::template_base<ch<printable<Is>()>>()}...};
        auto const k = below<std::size_t>(characters);
        CHECK(base[k].size == 2);
        CHECK(base[k].text[0] == 'c' and base[k].text[1] == 'h');
    }(std::make_index_sequence<characters>{});
}
VP_HARNESS(enumerator_beside_character, 2, q) {
    [&]<std::size_t... Is>(std::index_sequence<Is...>) {
        constexpr static name first[]{{stdx::enum_as_string<holder<printable<Is>()>::inner::first>()}...};
        constexpr static name second[]{{stdx::enum_as_string<holder<printable<Is>()>::inner::second>()}...};
        constexpr static name number[]{
            {stdx::enum_as_string<static_cast<typename holder<printable<Is>()>::inner>(2 + Is % 8)>()}...};
        constexpr static name expect[]{holder_spelled<printable<Is>()>(static_cast<char>('2' + Is % 8))...};
        agree(number, expect);
        constexpr static name firsts[]{(static_cast<void>(Is), name{"first"})...};
        constexpr static name seconds[]{(static_cast<void>(Is), name{"second"})...};
        agree(first, firsts);
        agree(second, seconds);
    }(std::make_index_sequence<characters>{});
}
VP_HARNESS(spelled_types, 2, q) {
    constexpr static name real[]{stdx::type_as_string<int>(),
                                 stdx::type_as_string<void>(),
                                 stdx::type_as_string<bool>(),
                                 stdx::type_as_string<unsigned char>(),
                                 stdx::type_as_string<complete>(),
                                 stdx::type_as_string<incomplete>(),
                                 stdx::type_as_string<plain>(),
                                 stdx::type_as_string<far::away::mode>(),
                                 stdx::type_as_string<far::away::thing>(),
                                 stdx::type_as_string<far::away::wrap<int>>(),
                                 stdx::type_as_string<types<>>(),
                                 stdx::type_as_string<types<int, char, types<bool>>>(),
                                 stdx::type_as_string<holder<true>>(),
                                 stdx::type_as_string<holder<7>>(),
                                 stdx::type_as_string<holder<-12>>(),
                                 stdx::type_as_string<holder<level::low>>(),
                                 stdx::type_as_string<holder<level{5}>>(),
                                 stdx::type_as_string<holder<3>::member>(),
                                 stdx::type_as_string<const int>(),
                                 stdx::type_as_string<const complete>()};
    constexpr static name expect[]{{"int"},
                                   {"void"},
                                   {"bool"},
                                   {"unsigned char"},
                                   {"complete"},
                                   {"incomplete"},
                                   {"plain"},
                                   {"far::away::mode"},
                                   {"far::away::thing"},
                                   {"far::away::wrap<int>"},
                                   {"types<>"},
                                   {"types<int, char, types<bool>>"},
                                   {"holder<true>"},
                                   {"holder<7>"},
                                   {"holder<-12>"},
                                   {"holder<level::low>"},
                                   {"holder<(level)5>"},
                                   {"holder<3>::member"},
                                   {"const int"},
                                   {"const complete"}};
    agree(real, expect);
}
VP_HARNESS(template_names, 2, q) {
    constexpr static name real[]{stdx::template_base<int>(),
                                 stdx::template_base<complete>(),
                                 stdx::template_base<far::away::thing>(),
                                 stdx::template_base<far::away::wrap<types<int>>>(),
                                 stdx::template_base<types<>>(),
                                 stdx::template_base<types<far::away::wrap<int>>>(),
                                 stdx::template_base<holder<'<'>>(),
                                 stdx::template_base<holder<level::high>>()};
    constexpr static name expect[]{{"int"},   {"complete"}, {"far::away::thing"}, {"far::away::wrap"},
                                   {"types"}, {"types"},    {"holder"},           {"holder"}};
    agree(real, expect);
}
VP_HARNESS(enumerators, 2, q) {
    constexpr static name real[]{stdx::enum_as_string<one>(),
                                 stdx::enum_as_string<two>(),
                                 stdx::enum_as_string<plain::two>(),
                                 stdx::enum_as_string<level::low>(),
                                 stdx::enum_as_string<level::mid>(),
                                 stdx::enum_as_string<level::high>(),
                                 stdx::enum_as_string<level{0}>(),
                                 stdx::enum_as_string<far::away::mode::on>(),
                                 stdx::enum_as_string<far::away::mode::off_>(),
                                 stdx::enum_as_string<unnamed_mode::a1>(),
                                 stdx::enum_as_string<holder<level{5}>::inner::second>(),
                                 stdx::enum_as_string<holder<level::low>::inner::first>()};
    constexpr static name expect[]{{"one"},  {"two"}, {"two"},  {"low"}, {"mid"},    {"high"},
                                   {"mid"},  {"on"},  {"off_"}, {"a1"},  {"second"}, {"first"}};
    agree(real, expect);
}
// all values of an enumeration: three are named, the others are written as numbers
VP_HARNESS(every_value, 2, q) {
    [&]<std::size_t... Is>(std::index_sequence<Is...>) {
        constexpr static name real[]{{stdx::enum_as_string<static_cast<level>(static_cast<int>(Is) - 128)>()}...};
        constexpr static name expect[]{value_spelled(static_cast<int>(Is) - 128)...};
        agree(real, expect);
    }(std::make_index_sequence<256>{});
}
// long names
struct name_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_x {};
enum struct long_ones { enumerator_that_goes_on_numerator_that_goes_on_numerator_that_goes_on_numerator_that_goes_on_numerator_that_goes_on_numerator_that_goes_on_numerator_that_goes_on_numerator_that_goes_on_numerator_that_goes_on_numerator_that_goes_on_numerator_that_goes_on_numerator_that_goes_on_numerator_that_goes_on_x, b };
namespace {
template <stdx::ct_string Want> void exactly(std::string_view got) {
    CHECK(got.size() == Want.size());
    auto const k = below<std::size_t>(Want.size());
    if (got.size() == Want.size()) { CHECK(got[k] == Want.value[k]); }
}
} // namespace
VP_HARNESS(long_names, 2, q) {
    exactly<"name_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_x">(stdx::type_as_string<name_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_x>());
    exactly<"types<name_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_x, int, name_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_x>">(stdx::type_as_string<types<name_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_x, int, name_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_x>>());
    exactly<"name_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_x">(stdx::template_base<name_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_x>());
    exactly<"types">(stdx::template_base<types<int, name_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_x, name_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_ame_of_a_type_that_goes_on_x>>());
    exactly<"enumerator_that_goes_on_numerator_that_goes_on_numerator_that_goes_on_numerator_that_goes_on_numerator_that_goes_on_numerator_that_goes_on_numerator_that_goes_on_numerator_that_goes_on_numerator_that_goes_on_numerator_that_goes_on_numerator_that_goes_on_numerator_that_goes_on_numerator_that_goes_on_x">(stdx::enum_as_string<long_ones::enumerator_that_goes_on_numerator_that_goes_on_numerator_that_goes_on_numerator_that_goes_on_numerator_that_goes_on_numerator_that_goes_on_numerator_that_goes_on_numerator_that_goes_on_numerator_that_goes_on_numerator_that_goes_on_numerator_that_goes_on_numerator_that_goes_on_numerator_that_goes_on_x>());
    exactly<"b">(stdx::enum_as_string<long_ones::b>());
}

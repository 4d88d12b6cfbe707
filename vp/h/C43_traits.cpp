// Facts about functions and types: which of a family of types has which property.  The family is
// what the compiler enumerates, the member that is looked at is the solver's choice.
// VP-CONFIG a: -std=c++20
// VP-CONFIG std23: -std=c++23
// VP-CONFIG own: -std=c++20 -DOWN=1
#include "vp.hpp"
#include <array>
#include <concepts>
#include <iterator>
#include <memory>
#include <tuple>
#include <utility>
#include <vector>
#if OWN
// as seen by a standard library without concepts
#include <algorithm>
#include <compare>
#include <functional>
#include <string_view>
#include <boost/mp11/algorithm.hpp>
#undef __cpp_lib_concepts
#define __cpp_lib_concepts 0
#endif
#include <stdx/concepts.hpp>
#include <stdx/function_traits.hpp>
#include <stdx/priority.hpp>
#include <stdx/ranges.hpp>
#include <stdx/tuple.hpp>
#include <stdx/type_traits.hpp>
#include <stdx/utility.hpp>
using namespace vp;
using u8 = std::uint8_t;
using u16 = std::uint16_t;

namespace {
template <typename T, typename U> constexpr bool same = std::is_same_v<T, U>;
using stdx::type_list;

// every fact of the table is as expected, whichever the solver looks at
template <std::size_t N, typename T> void agree(T const (&real)[N], T const (&expect)[N]) {
    auto const k = below<std::size_t>(N);
    CHECK(real[k] == expect[k]);
}

struct obj {
    auto member(int) -> u8;
    int data;
};
template <typename F, typename R, typename O, typename... As> constexpr auto arguments() -> bool {
    return []<std::size_t... Is>(std::index_sequence<Is...>) {
        return (true and ... and
                (same<stdx::nth_arg_t<F, Is>, std::tuple_element_t<Is, std::tuple<As...>>> and
                 same<stdx::decayed_nth_arg_t<F, Is>, std::decay_t<std::tuple_element_t<Is, std::tuple<As...>>>>));
    }(std::make_index_sequence<sizeof...(As)>{});
}
enum what : std::size_t { returns, arity, generic_arity, list, decayed, nth, object, count };
template <typename F, typename R, typename O, typename... As> struct described {
    constexpr static auto told() -> unsigned {
        unsigned r{};
        r |= same<stdx::return_t<F>, R> ? 1u << returns : 0u;
        r |= stdx::arity_v<F> == sizeof...(As) ? 1u << arity : 0u;
        r |= stdx::nongeneric_arity_t<F>::value == sizeof...(As) ? 1u << generic_arity : 0u;
        r |= same<stdx::args_t<F, type_list>, type_list<As...>> ? 1u << list : 0u;
        r |= same<stdx::decayed_args_t<F, type_list>, type_list<std::decay_t<As>...>> ? 1u << decayed : 0u;
        r |= arguments<F, R, O, As...>() ? 1u << nth : 0u;
        r |= same<stdx::obj_arg_t<F>, O> ? 1u << object : 0u;
        return r;
    }
};
// each of the facts (a bit) for each of the functions
template <typename... Ds> void described_all() {
    unsigned const told[]{Ds::told()...};
    auto const k = below<std::size_t>(sizeof...(Ds));
    auto const f = below<unsigned>(count);
    CHECK(((told[k] >> f) & 1u) == 1u);
}

struct functor {
    auto operator()(int, u8 const &) const -> u16;
};
struct mutable_functor {
    auto operator()(int *) -> void;
};
struct ref_functor {
    auto operator()(obj &&) & -> obj &;
};
struct rvalue_functor {
    auto operator()() && -> int;
};
template <std::size_t N> struct generic {
    template <typename... Ts>
        requires(sizeof...(Ts) == N)
    auto operator()(Ts...) const -> int;
};
struct generic_one_fixed {
    auto operator()(int, auto) const -> void;
};
struct overloaded {
    auto operator()(int) -> int;
    auto operator()(int, int) -> int;
};
} // namespace

VP_HARNESS(functions, 8, q) {
    described_all<described<void(), void, void>, described<int(u8), int, void, u8>,
                  described<auto(u8, int const &)->obj &, obj &, void, u8, int const &>,
                  described<obj(obj &&, int[3], void()), obj, void, obj &&, int *, void (*)()>,
                  described<u8(int, int, int, int, int), u8, void, int, int, int, int, int>,
                  described<int const &(int &), int const &, void, int &>,
                  described<void(int (&)[3], char const (&)[4], int (&)(char)), void, void, int (&)[3], char const (&)[4], int (&)(char)>,
                  described<int(u8 const *, obj const &&, int (&&)[2], u8 volatile &), int, void, u8 const *, obj const &&, int (&&)[2], u8 volatile &>,
                  described<int (*(int (*)(u8)))(u8), int (*)(u8), void, int (*)(u8)>,
                  described<auto(u8)->int (&)[2], int (&)[2], void, u8>>();
}
VP_HARNESS(pointers, 8, q) {
    described_all<described<void (*)(), void, void>, described<int (*)(u8), int, void, u8>,
                  described<int (*const)(u8, u16), int, void, u8, u16>,
                  described<int (*volatile)(u8 &), int, void, u8 &>,
                  described<obj &(*const volatile)(u8 const &, obj), obj &, void, u8 const &, obj>>();
}
VP_HARNESS(members, 12, q) {
    described_all<described<void (obj::*)(), void, obj>, described<int (obj::*)(u8), int, obj, u8>,
                  described<int (obj::*)(u8) const, int, obj const, u8>,
                  described<int (obj::*)(u8) volatile, int, obj volatile, u8>,
                  described<int (obj::*)(u8) const volatile, int, obj const volatile, u8>,
                  described<int (obj::*)(u8 &) &, int, obj &, u8 &>,
                  described<int (obj::*)(u8, int) const &, int, obj const &, u8, int>,
                  described<int (obj::*)(u8) volatile &, int, obj volatile &, u8>,
                  described<int (obj::*)(u8) const volatile &, int, obj const volatile &, u8>,
                  described<int (obj::*)(u8, int const &) &&, int, obj &&, u8, int const &>,
                  described<obj &(obj::*)(u8) const &&, obj &, obj const &&, u8>,
                  described<int (obj::*)(u8) volatile &&, int, obj volatile &&, u8>,
                  described<int (obj::*)(u8) const volatile &&, int, obj const volatile &&, u8>,
                  described<int (obj::*)(u8 const (&)[2], void (&)()) const, int, obj const, u8 const (&)[2], void (&)()>>();
}
VP_HARNESS(noexcept_functions, 20, q) {
    auto const plain = [](int, u8 &) noexcept -> u16 { return 0; };
    int x{};
    auto changing = [&x](u8 const &) mutable noexcept -> int & { return x; };
    using plain_t = decltype(plain);
    using changing_t = decltype(changing);
    described_all<described<void() noexcept, void, void>, described<obj &(int, u8 &) noexcept, obj &, void, int, u8 &>,
                  described<int (*)(u8) noexcept, int, void, u8>, described<int (*const)(u8) noexcept, int, void, u8>,
                  described<int (*volatile)() noexcept, int, void>,
                  described<int (*const volatile)(u8, u8) noexcept, int, void, u8, u8>,
                  described<int (obj::*)(u8) noexcept, int, obj, u8>,
                  described<int (obj::*)(u8) const noexcept, int, obj const, u8>,
                  described<int (obj::*)(u8) volatile noexcept, int, obj volatile, u8>,
                  described<int (obj::*)(u8) const volatile noexcept, int, obj const volatile, u8>,
                  described<int (obj::*)(u8) & noexcept, int, obj &, u8>,
                  described<int (obj::*)(u8) const & noexcept, int, obj const &, u8>,
                  described<int (obj::*)(u8) volatile & noexcept, int, obj volatile &, u8>,
                  described<int (obj::*)(u8) const volatile & noexcept, int, obj const volatile &, u8>,
                  described<int (obj::*)(u8) && noexcept, int, obj &&, u8>,
                  described<int (obj::*)(u8) const && noexcept, int, obj const &&, u8>,
                  described<int (obj::*)(u8) volatile && noexcept, int, obj volatile &&, u8>,
                  described<int (obj::*)(u8) const volatile && noexcept, int, obj const volatile &&, u8>,
                  described<plain_t, u16, std::remove_const_t<plain_t> const, int, u8 &>,
                  described<changing_t, int &, changing_t, u8 const &>>();
}
VP_HARNESS(objects, 8, q) {
    auto const plain = [](int, u8 &) -> u16 { return 0; };
    auto const none = [] {};
    int x{};
    auto changing = [&x](u8 const &, obj *) mutable -> int & { return x; };
    using plain_t = decltype(plain);
    using none_t = std::remove_const_t<decltype(none)>;
    using changing_t = decltype(changing);
    described_all<described<plain_t, u16, std::remove_const_t<plain_t> const, int, u8 &>,
                  described<none_t, void, none_t const>, described<none_t &, void, none_t const>,
                  described<changing_t, int &, changing_t, u8 const &, obj *>,
                  described<functor, u16, functor const, int, u8 const &>,
                  described<functor const &, u16, functor const, int, u8 const &>,
                  described<mutable_functor, void, mutable_functor, int *>,
                  described<ref_functor, obj &, ref_functor &, obj &&>,
                  described<rvalue_functor, int, rvalue_functor &&>>();
}
VP_HARNESS(arities, 12, q) {
    auto const one = [](auto) {};
    auto const two = [](auto, auto &&) {};
    auto const three = [](auto const &, int, auto) {};
    auto const any = [](auto...) {};
    auto const at_least_two = [](auto, int, auto...) {};
    auto const quiet = [](auto, auto) noexcept {};
    std::size_t const real[]{stdx::arity_v<decltype(one)>, stdx::arity_v<decltype(two)>, stdx::arity_v<decltype(three)>,
                             stdx::arity_v<decltype(any)>, stdx::arity_v<decltype(at_least_two)>,
                             stdx::arity_v<generic<0>>, stdx::arity_v<generic<1>>, stdx::arity_v<generic<4>>,
                             stdx::arity_v<generic<7>>, stdx::arity_v<generic_one_fixed>, stdx::arity_v<overloaded>,
                             stdx::arity_t<generic<3>>::value, stdx::arity_v<decltype(quiet)>};
    std::size_t const expect[]{1, 2, 3, 0, 2, 0, 1, 4, 7, 2, 1, 3, 2};
    agree(real, expect);
}

namespace {
struct base {};
struct derived : base {};
class hidden_base : base {};
struct incomplete;
union either {
    int a;
    char b;
};
struct callable_object {
    void operator()(int) const;
};
struct two_calls {
    void operator()(int) const;
    void operator()(char) const;
};
struct generic_call {
    void operator()(auto) const;
};
class private_data {
    int x{};
};
struct public_data {
    int x{};
    bool y{};
};
struct with_constructor {
    constexpr with_constructor(int i) : x{i} {}
    int x;
};
struct with_destructor {
    ~with_destructor() {}
};
template <std::size_t> using an_int = int;
template <typename> struct takes;
template <std::size_t... Is> struct takes<std::index_sequence<Is...>> {
    constexpr explicit takes(an_int<Is>... is) : v{(0 + ... + is)} {}
    int v;
};
struct nested_data {
    public_data a;
    int b[2];
};
struct hides_inside {
    private_data a;
    int b;
};
enum struct shade : u8 { light, dark };
template <typename...> struct holds {};
template <typename T, auto V> struct mixed {};
template <auto...> struct counts {};
} // namespace

VP_HARNESS(calling, 16, q) {
    auto const l = [] {};
    auto const g = [](auto) {};
    {
        bool const real[]{stdx::is_function_v<void()>, stdx::is_function_v<int(int, ...)>, stdx::is_function_v<void() const>,
                          stdx::is_function_v<void (*)()>, stdx::is_function_v<void (&)()>, stdx::is_function_v<int>,
                          stdx::is_function_v<int &>, stdx::is_function_v<int const>, stdx::is_function_v<callable_object>,
                          stdx::is_function_v<void>, stdx::is_function_v<int[3]>, stdx::is_function_v<int &&>,
                          stdx::is_function_v<void (&&)()>, stdx::is_function_v<void() noexcept>,
                          stdx::is_function_v<void() volatile &>, stdx::is_function_v<int(int) const &&>,
                          stdx::is_function_v<int const volatile>, stdx::is_function_v<int const &&>,
                          stdx::is_function_v<int (base::*)(int)>, stdx::is_function_v<std::nullptr_t>};
        bool const expect[]{true, true, true, false, false, false, false, false, false, false,
                            false, false, false, true, true, true, false, false, false, false};
        agree(real, expect);
    }
    {
        bool const real[]{stdx::is_function_object_v<decltype(l)>, stdx::is_function_object_v<decltype(g)>,
                          stdx::is_function_object_v<callable_object>, stdx::is_function_object_v<two_calls>,
                          stdx::is_function_object_v<generic_call>, stdx::is_function_object_v<base>,
                          stdx::is_function_object_v<int>, stdx::is_function_object_v<void()>,
                          stdx::is_function_object_v<derived>};
        bool const expect[]{true, true, true, true, true, false, false, false, false};
        agree(real, expect);
    }
    {
        bool const real[]{stdx::is_callable_v<decltype(l)>, stdx::is_callable_v<generic_call>, stdx::is_callable_v<void(int)>,
                          stdx::is_callable_v<base>,        stdx::is_callable_v<int>,          stdx::callable<decltype(g)>,
                          stdx::callable<void()>,           stdx::callable<public_data>,       stdx::callable<char const>};
        bool const expect[]{true, true, true, false, false, true, true, false, false};
        agree(real, expect);
    }
}
VP_HARNESS(choosing, 16, q) {
    auto const x = nd<u8>();
    // a value kept in the chosen type shows which was chosen
    CHECK(static_cast<stdx::conditional_t<true, u8, u16>>(x | 0x100) == x);
    CHECK(static_cast<stdx::conditional_t<false, u8, u16>>(x | 0x100) == (x | 0x100));
    bool const real[]{same<stdx::conditional_t<true, int &, void>, int &>,
                      same<stdx::conditional_t<false, int &, void>, void>,
                      same<stdx::type_or_t<std::is_const, int const, char>, int const>,
                      same<stdx::type_or_t<std::is_const, int, char>, char>,
                      same<stdx::type_or_t<std::is_const, int>, void>,
                      same<stdx::type_or_t<std::is_reference, int &, char>, int &>,
                      same<stdx::type_identity_t<int const &>, int const &>,
                      same<stdx::type_identity<void>::type, void>,
                      same<decltype(stdx::type_identity_v<u8>)::type, u8>};
    bool const expect[]{true, true, true, true, true, true, true, true, true};
    agree(real, expect);
}
VP_HARNESS(specialisations, 20, q) {
    {
        bool const real[]{stdx::is_specialization_of_v<holds<>, holds>,
                          stdx::is_specialization_of_v<holds<int, char>, holds>,
                          stdx::is_specialization_of_v<holds<int> const, holds>,
                          stdx::is_specialization_of_v<std::tuple<int>, holds>,
                          stdx::is_specialization_of_v<int, holds>,
                          stdx::is_specialization_of_v<std::vector<int>, std::vector>,
                          stdx::is_specialization_of_v<holds<std::vector<int>>, std::vector>,
                          stdx::is_type_specialization_of_v<holds<int>, holds>,
                          stdx::is_type_specialization_of_v<std::tuple<>, holds>,
                          stdx::is_value_specialization_of_v<counts<>, counts>,
                          stdx::is_value_specialization_of_v<counts<1, 'c'>, counts>,
                          stdx::is_value_specialization_of_v<counts<1> const, counts>,
                          stdx::is_value_specialization_of_v<stdx::value_list<1>, counts>,
                          stdx::is_value_specialization_of_v<int, counts>,
                          stdx::is_specialization_of<holds<int>, holds>(),
                          stdx::is_specialization_of<int, holds>(),
                          stdx::is_specialization_of<counts<3>, counts>(),
                          stdx::is_specialization_of<stdx::value_list<3>, counts>()};
        bool const expect[]{true, true, true, false, false, true, false, true, false,
                            true, true, true, false, false, true, false, true, false};
        agree(real, expect);
    }
    {
        bool const real[]{stdx::is_same_template_v<holds<int>, holds<char, int>>,
                          stdx::is_same_template_v<counts<1>, counts<2>>,
                          stdx::is_same_template_v<mixed<int, 1>, mixed<char, 2>>,
                          stdx::is_same_template_v<holds<int>, counts<1>>,
                          stdx::is_same_template_v<mixed<int, 1>, holds<int>>,
                          stdx::is_same_template_v<int, int>,
                          stdx::is_same_template_v<int, char>,
                          stdx::same_template_as<holds<>, holds<void>>,
                          stdx::same_template_as<std::tuple<int>, holds<int>>};
        bool const expect[]{true, true, true, false, false, true, false, true, false};
        agree(real, expect);
    }
}
VP_HARNESS(kinds, 20, q) {
    {
        bool const real[]{stdx::is_same_unqualified_v<int, int const &>, stdx::is_same_unqualified_v<int volatile &&, int const>,
                          stdx::is_same_unqualified_v<int, unsigned>, stdx::is_same_unqualified_v<int *, int const *>,
                          stdx::same_as_unqualified<u8 &, u8>, stdx::same_as_unqualified<u8, u16>,
                          stdx::same_any<int, char, int>, stdx::same_any<int, char, int &>, stdx::same_any<int>,
                          stdx::same_none<int, char, long>, stdx::same_none<int, int>, stdx::same_none<int>};
        bool const expect[]{true, true, false, false, true, false, true, false, false, true, false, true};
        agree(real, expect);
    }
    {
        bool const real[]{stdx::is_structural_v<int>, stdx::is_structural_v<public_data>, stdx::is_structural_v<private_data>,
                          stdx::is_structural_v<with_constructor>, stdx::is_structural_v<with_destructor>,
                          stdx::is_structural_v<std::unique_ptr<int>>, stdx::structural<char>, stdx::structural<private_data>,
                          stdx::structural<int &>};
        bool const expect[]{true, true, false, true, false, false, true, false, true};
        agree(real, expect);
    }
    {
        bool const real[]{stdx::is_structural_v<takes<std::make_index_sequence<1>>>,
                          stdx::is_structural_v<takes<std::make_index_sequence<2>>>,
                          stdx::is_structural_v<takes<std::make_index_sequence<3>>>,
                          stdx::is_structural_v<takes<std::make_index_sequence<5>>>,
                          stdx::is_structural_v<takes<std::make_index_sequence<7>>>,
                          stdx::is_structural_v<takes<std::make_index_sequence<9>>>,
                          stdx::is_structural_v<takes<std::make_index_sequence<10>>>,
                          stdx::is_structural_v<nested_data>,
                          stdx::is_structural_v<hides_inside>,
                          stdx::is_structural_v<shade>,
                          stdx::is_structural_v<int const *>,
                          stdx::is_structural_v<int base::*>,
                          stdx::is_structural_v<std::vector<int>>};
        bool const expect[]{true, true, true, true, true, true, true, true, false, true, true, true, false};
        agree(real, expect);
    }
    {
        bool const real[]{stdx::is_complete_v<int>, stdx::is_complete_v<incomplete>, stdx::is_complete_v<base>,
                          stdx::is_complete_v<either>, stdx::complete<derived>, stdx::complete<incomplete>};
        bool const expect[]{true, false, true, true, true, false};
        agree(real, expect);
    }
    {
        auto const cx = CX_VALUE(17);
        bool const real[]{stdx::is_cx_value_v<decltype(cx)>, stdx::is_cx_value_v<std::remove_const_t<decltype(cx)>>,
                          stdx::is_cx_value_v<int>, stdx::is_cx_value_v<base>, stdx::has_trait<int const, std::is_const>,
                          stdx::has_trait<int, std::is_const>, stdx::range<std::array<int, 3>>, stdx::range<int[4]>,
                          stdx::range<std::vector<u8> const>, stdx::range<int *>, stdx::range<obj>};
        bool const expect[]{true, true, false, false, true, false, true, true, true, false, false};
        agree(real, expect);
    }
}
namespace {
struct equal_only {
    friend auto operator==(equal_only, equal_only) -> bool;
    friend auto operator!=(equal_only, equal_only) -> bool;
};
struct ordered {
    friend auto operator==(ordered, ordered) -> bool;
    friend auto operator!=(ordered, ordered) -> bool;
    friend auto operator<(ordered, ordered) -> bool;
    friend auto operator<=(ordered, ordered) -> bool;
    friend auto operator>(ordered, ordered) -> bool;
    friend auto operator>=(ordered, ordered) -> bool;
};
struct less_only {
    friend auto operator<(less_only, less_only) -> bool;
};
struct explicitly {
    explicit operator int() const;
};
struct implicitly {
    operator int() const;
};
struct not_testable {};
} // namespace
VP_HARNESS(named_kinds, 20, q) {
    {
        bool const real[]{stdx::integral<int>,          stdx::integral<bool>,           stdx::integral<char const>,
                          stdx::integral<float>,        stdx::integral<base>,           stdx::signed_integral<int>,
                          stdx::signed_integral<u8>,    stdx::signed_integral<double>,  stdx::unsigned_integral<u8>,
                          stdx::unsigned_integral<int>, stdx::unsigned_integral<float>, stdx::floating_point<float>,
                          stdx::floating_point<double>, stdx::floating_point<int>};
        bool const expect[]{true, true, true, false, false, true, false, false, true, false, false, true, true, false};
        agree(real, expect);
    }
    {
        bool const real[]{stdx::convertible_to<int, long>,
                          stdx::convertible_to<implicitly, int>,
                          stdx::convertible_to<explicitly, int>,
                          stdx::convertible_to<int, base>,
                          stdx::convertible_to<derived *, base *>,
                          stdx::convertible_to<base *, derived *>,
                          stdx::derived_from<derived, base>,
                          stdx::derived_from<base, base>,
                          stdx::derived_from<base, derived>,
                          stdx::derived_from<hidden_base, base>,
                          stdx::derived_from<int, int>,
                          stdx::same_as<int, int>,
                          stdx::same_as<int, int const>};
        bool const expect[]{true, true, false, false, true, false, true, true, false, false, false, true, false};
        agree(real, expect);
    }
    {
        bool const real[]{stdx::equality_comparable<int>,     stdx::equality_comparable<equal_only>,
                          stdx::equality_comparable<base>,    stdx::equality_comparable<less_only>,
                          stdx::totally_ordered<int>,         stdx::totally_ordered<ordered>,
                          stdx::totally_ordered<equal_only>,  stdx::totally_ordered<less_only>,
                          stdx::invocable<functor, int, u8>,  stdx::invocable<functor, int>,
                          stdx::invocable<functor>,           stdx::invocable<int (obj::*)(u8), obj &, u8>,
                          stdx::invocable<int, int>,          stdx::predicate<functor, int, u8>,
                          stdx::predicate<functor, int>,      stdx::predicate<void (*)()>,
                          stdx::predicate<not_testable (*)()>, stdx::predicate<int *(*)()>};
        bool const expect[]{true, true, false, false, true, true, false, false, true,
                            false, false, true, false, true, false, false, false, true};
        agree(real, expect);
    }
}
namespace {
struct plain_tuple {
    using is_tuple = void;
};
} // namespace
VP_HARNESS(tuples, 20, q) {
    std::size_t const real[]{stdx::tuple_size_v<std::array<int, 5>>, stdx::tuple_size_v<std::array<int, 0>>,
                             stdx::tuple_size_v<std::pair<int, char>>, stdx::tuple_size_v<stdx::tuple<>>,
                             stdx::tuple_size_v<stdx::tuple<int, char, int>>};
    std::size_t const expect[]{5, 0, 2, 0, 3};
    agree(real, expect);
    bool const facts[]{same<stdx::tuple_element_t<0, std::pair<int &, char>>, int &>,
                       same<stdx::tuple_element_t<1, std::pair<int &, char>>, char>,
                       same<stdx::tuple_element_t<4, std::array<u16, 5>>, u16>,
                       same<stdx::tuple_element_t<2, stdx::tuple<int, char, int const &>>, int const &>,
                       stdx::tuplelike<stdx::tuple<int>>,
                       stdx::tuplelike<stdx::tuple<int> const &>,
                       stdx::tuplelike<plain_tuple>,
                       stdx::tuplelike<std::tuple<int>>,
                       stdx::tuplelike<int>,
                       stdx::has_tuple_protocol<stdx::tuple<int>>,
                       stdx::has_tuple_protocol<stdx::tuple<>>,
                       stdx::has_tuple_protocol<std::array<int, 2>>,
                       stdx::has_tuple_protocol<std::pair<int, int> const &>,
                       stdx::has_tuple_protocol<int>,
                       stdx::has_tuple_protocol<base>,
                       stdx::has_array_protocol<std::array<int, 2> &>,
                       stdx::has_array_protocol<std::pair<int, int>>,
                       stdx::has_array_protocol<stdx::tuple<int>>,
                       stdx::has_array_protocol<std::vector<int>>};
    bool const told[]{true, true, true, true, true, true, true, false, false, true, true, true, true, false, false,
                      true, false, false, false};
    agree(facts, told);
}

#pragma once
// The tuple headers, as this compiler sees them or (LOOKUP=1) as a compiler sees them that
// does not offer pack indexing and is not clang.
#include "vp.hpp"
#include <algorithm>
#include <array>
#include <compare>
#include <concepts>
#include <functional>
#include <limits>
#include <source_location>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>
#include <boost/mp11/algorithm.hpp>
#include <boost/mp11/list.hpp>
#if LOOKUP == 1
#pragma clang diagnostic ignored "-Wbuiltin-macro-redefined"
#define __has_builtin(x) 0
#include <stdx/concepts.hpp>
#include <stdx/ct_conversions.hpp>
#include <stdx/utility.hpp>
#pragma push_macro("__clang__")
#undef __clang__
#include <stdx/tuple.hpp>
#pragma pop_macro("__clang__")
#endif
#include <stdx/tuple.hpp>
#include <stdx/tuple_algorithms.hpp>
#include <stdx/tuple_destructure.hpp>

namespace vp {
// counts copies and moves of a value; a moved-from object keeps a mark
template <typename T> struct tracked {
    T v{};
    bool gone{};
    static inline unsigned copies{};
    static inline unsigned moves{};
    tracked() = default;
    constexpr explicit tracked(T t) : v{t} {}
    tracked(tracked const &o) : v{o.v}, gone{o.gone} { ++copies; }
    tracked(tracked &&o) noexcept : v{o.v}, gone{o.gone} {
        o.gone = true;
        ++moves;
    }
    auto operator=(tracked const &o) -> tracked & = default;
    auto operator=(tracked &&o) noexcept -> tracked & {
        v = o.v;
        gone = o.gone;
        o.gone = true;
        return *this;
    }
};
// can only be moved; where VP_COPYABLE is defined a copy compiles and fails
template <typename T, int Tag = 0> struct only {
    T v{};
    bool gone{};
    only() = default;
    constexpr explicit only(T t) : v{t} {}
#ifdef VP_COPYABLE
    only(only const &o) : v{o.v}, gone{true} { CHECK(not "copied"); }
    auto operator=(only const &o) -> only & {
        v = o.v;
        gone = true;
        CHECK(not "copied");
        return *this;
    }
#else
    only(only const &) = delete;
    auto operator=(only const &) -> only & = delete;
#endif
    only(only &&o) noexcept : v{o.v}, gone{o.gone} { o.gone = true; }
    auto operator=(only &&o) noexcept -> only & {
        v = o.v;
        gone = o.gone;
        o.gone = true;
        return *this;
    }
};
// the same value under different types
template <int Tag, typename T = std::uint8_t> struct tagged {
    T v{};
    friend auto operator==(tagged const &, tagged const &) -> bool = default;
};
template <int Tag> struct nothing {
    friend auto operator==(nothing const &, nothing const &) -> bool = default;
};
template <typename A, typename B> constexpr bool same = std::is_same_v<A, B>;
#define SAME(X, ...) CHECK(vp::same<decltype(X), __VA_ARGS__>)
} // namespace vp

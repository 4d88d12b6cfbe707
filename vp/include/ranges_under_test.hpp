#pragma once
// Iterators of the weaker categories over an array.
#include "vp.hpp"
#include <iterator>

namespace vp {
// (a number names the category, so that the iterator has nothing to do with std)
template <typename T, int Category> struct iter {
    using iterator_category =
        std::conditional_t<Category == 0, std::input_iterator_tag,
                           std::conditional_t<Category == 1, std::forward_iterator_tag, std::bidirectional_iterator_tag>>;
    using value_type = std::remove_cv_t<T>;
    using difference_type = std::ptrdiff_t;
    using pointer = T *;
    using reference = T &;
    T *p{};
    auto operator*() const -> T & { return *p; }
    auto operator++() -> iter & {
        ++p;
        return *this;
    }
    auto operator++(int) -> iter {
        auto r = *this;
        ++p;
        return r;
    }
    auto operator--() -> iter &
        requires(Category == 2)
    {
        --p;
        return *this;
    }
    friend auto operator==(iter const &a, iter const &b) -> bool { return a.p == b.p; }
    friend auto operator!=(iter const &a, iter const &b) -> bool { return a.p != b.p; }
};
template <typename T> using forward = iter<T, 1>;
template <typename T> using bidirectional = iter<T, 2>;
template <typename T> using input = iter<T, 0>;

template <template <typename> typename I, typename T> auto at(T *p) -> I<T> { return I<T>{p}; }
template <typename T> using random_access = T *;

// positions without storage, for ranges of many elements: an element is its position
struct place {
    using iterator_category = std::forward_iterator_tag;
    using value_type = std::uint32_t;
    using difference_type = std::ptrdiff_t;
    using pointer = std::uint32_t const *;
    using reference = std::uint32_t;
    std::uint32_t i{};
    auto operator*() const -> std::uint32_t { return i; }
    auto operator++() -> place & {
        ++i;
        return *this;
    }
    auto operator++(int) -> place {
        auto r = *this;
        ++i;
        return r;
    }
    friend auto operator==(place const &, place const &) -> bool = default;
};
// can only be written to; each position takes one value, that of f at the position
template <typename F> struct taking {
    using iterator_category = std::output_iterator_tag;
    using value_type = void;
    using difference_type = std::ptrdiff_t;
    using pointer = void;
    using reference = void;
    F const *f{};
    std::uint32_t *n{};
    std::uint32_t i{};
    struct slot {
        taking const &t;
        void operator=(std::uint32_t v) const {
            CHECK(*t.n == t.i);
            CHECK(v == (*t.f)(t.i));
            ++*t.n;
        }
    };
    auto operator*() const -> slot { return {*this}; }
    auto operator++() -> taking & {
        ++i;
        return *this;
    }
    auto operator++(int) -> taking {
        auto r = *this;
        ++i;
        return r;
    }
};

// what an operation was called with, call by call
template <std::size_t Calls, std::size_t Args> struct record {
    std::array<std::array<void const *, Args>, Calls> who{};
    std::size_t n{};
    bool too_many{};
    template <typename... Ts> void operator()(Ts const &...ts) {
        if (n < Calls) {
            who[n] = {&ts...};
            ++n;
        } else {
            too_many = true;
        }
    }
};
} // namespace vp

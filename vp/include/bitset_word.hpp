#pragma once
// Contents of a bitset as one integer (N <= 128).
#include "vp.hpp"
#include <stdx/bitset.hpp>

namespace vp {
template <std::size_t N> using word = std::conditional_t<(N <= 64), std::uint64_t, unsigned __int128>;
template <std::size_t N> constexpr auto mask() -> word<N> {
    constexpr auto w = sizeof(word<N>) * 8;
    return static_cast<word<N>>(~word<N>{}) >> (w - N);
}
template <std::size_t N> [[gnu::always_inline]] inline auto any_word() -> word<N> {
    word<N> v = nd<std::uint64_t>();
    if constexpr (N > 64) {
        v |= word<N>{nd<std::uint64_t>()} << 64;
    }
    return v & mask<N>();
}
template <typename B, std::size_t N = B::capacity>
[[gnu::always_inline]] inline auto make(word<N> v) -> B {
    B b{};
    unroll<N>([&](auto i) { b.set(std::size_t{i}, ((v >> i) & 1u) != 0); });
    return b;
}
template <typename B, std::size_t N = B::capacity>
[[gnu::always_inline]] inline auto contents(B const &b) -> word<N> {
    word<N> r{};
    unroll<N>([&](auto i) { r |= word<N>{b[std::size_t{i}]} << i; });
    return r;
}
template <typename B, std::size_t N = B::capacity>
[[gnu::always_inline]] inline void same(B const &b, word<N> v) {
    CHECK(contents(b) == v);
}
// arbitrary content, reached through single-bit and whole-set operations
template <typename B, std::size_t N = B::capacity>
[[gnu::always_inline]] inline auto arbitrary(word<N> &v) -> B {
    v = any_word<N>();
    auto b = make<B>(v);
    switch (small(5)) {
    case 0: b.flip(); v = ~v & mask<N>(); break;
    case 1: b = ~b; v = ~v & mask<N>(); break;
    case 2: b.set(); v = mask<N>(); break;
    case 3:
        if constexpr (N <= 64) {
            auto x = nd<std::uint64_t>();
            b = B{x};
            v = x & mask<N>();
        }
        break;
    default: break;
    }
    same(b, v);
    return b;
}
} // namespace vp

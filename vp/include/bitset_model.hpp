#pragma once
// Reference model of a set of positions below N: one bool per position.
#include "vp.hpp"
#include <stdx/bitset.hpp>

namespace vp {
template <std::size_t N> struct bits {
    std::array<bool, N> b{};

    static auto any() -> bits {
        bits r{};
        if constexpr (N <= 64) {
            auto v = nd<std::uint64_t>();
            unroll<N>([&](auto i) { r.b[i] = ((v >> i) & 1u) != 0; });
        } else {
            auto v = nd<std::uint64_t>();
            auto w = nd<std::uint64_t>();
            unroll<N>([&](auto i) {
                r.b[i] = (((i < 64 ? v : w) >> (i % 64)) & 1u) != 0;
            });
        }
        return r;
    }
    template <typename F> void each(F &&f) {
        unroll<N>([&](auto i) { b[i] = f(std::size_t{i}, bool{b[i]}); });
    }
    [[nodiscard]] auto count() const -> std::size_t {
        std::size_t n = 0;
        unroll<N>([&](auto i) { n += b[i] ? 1 : 0; });
        return n;
    }
    [[nodiscard]] auto all() const -> bool {
        bool r = true;
        unroll<N>([&](auto i) { r = r & b[i]; });
        return r;
    }
    [[nodiscard]] auto none() const -> bool {
        bool r = true;
        unroll<N>([&](auto i) { r = r & !b[i]; });
        return r;
    }
    [[nodiscard]] auto same(bits const &o) const -> bool {
        bool r = true;
        unroll<N>([&](auto i) { r = r & (b[i] == o.b[i]); });
        return r;
    }
    [[nodiscard]] auto value() const -> std::uint64_t {
        std::uint64_t v = 0;
        unroll<(N < 64 ? N : 64)>(
            [&](auto i) { v |= std::uint64_t{b[i]} << i; });
        return v;
    }
};

// a bitset holding exactly m, made with single-bit operations
template <typename B, std::size_t N = B::capacity>
[[gnu::always_inline]] inline auto build(bits<N> const &m) -> B {
    B b{};
    unroll<N>([&](auto i) { b.set(std::size_t{i}, m.b[i]); });
    return b;
}

template <typename B, std::size_t N = B::capacity>
[[gnu::always_inline]] inline void agree(B const &b, bits<N> const &m) {
    bool ok = true;
    unroll<N>([&](auto i) { ok = ok & (b[std::size_t{i}] == m.b[i]); });
    CHECK(ok && "every position agrees with the set");
}
} // namespace vp

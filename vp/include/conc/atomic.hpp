#pragma once
// The atomic API that the library builds on, as a model: before every access the
// location takes an arbitrary value (whatever other threads wrote), and the access
// is recorded. VP_WIDE widens the type used for one- and two-byte values.
#include "../vp.hpp"
#include <atomic>
#include <cstdint>
#include <type_traits>

namespace vp {
enum struct op { none, load, store, exchange, add, sub, band, bor, bxor };
struct accesses {
    unsigned count{};
    op kind{};
    std::memory_order order{};
    void const *where{};
    std::uint64_t before{}; // value found by the access
    std::uint64_t after{};  // value left by the access
    std::uint64_t operand{};
    std::uint64_t others{~std::uint64_t{}}; // what other threads may have set
};
inline accesses seen{};

template <typename T> auto as_word(T t) -> std::uint64_t {
    if constexpr (std::is_enum_v<T>) {
        return as_word(static_cast<std::underlying_type_t<T>>(t));
    } else if constexpr (std::is_same_v<T, bool>) {
        return t ? 1u : 0u;
    } else {
        return static_cast<std::make_unsigned_t<T>>(t);
    }
}
template <typename T> auto access_to(T const &t, op k, std::memory_order mo) -> T {
    T v;
    if constexpr (std::is_same_v<T, bool>) {
        v = vp_bool() != 0;
    } else if constexpr (std::is_enum_v<T>) {
        v = static_cast<T>(nd<std::underlying_type_t<T>>());
    } else {
        v = static_cast<T>(static_cast<T>(nd<T>()) & static_cast<T>(seen.others));
    }
    ++seen.count;
    seen.kind = k;
    seen.order = mo;
    seen.where = &t;
    seen.before = as_word(v);
    seen.after = as_word(v);
    return v;
}
template <typename T> void leave(T &t, T v) {
    t = v;
    seen.after = as_word(v);
}
} // namespace vp

namespace atomic {
template <typename T> struct atomic_type {
#ifdef VP_WIDE
    using type = std::conditional_t<(sizeof(T) < 4), std::uint32_t, T>;
#else
    using type = T;
#endif
};
template <typename T> using atomic_type_t = typename atomic_type<T>::type;
template <typename T> constexpr inline auto alignment_of = alignof(atomic_type_t<T>);

constexpr auto seq = std::memory_order_seq_cst;
template <typename T> auto load(T const &t, std::memory_order mo = seq) -> T {
    auto const v = vp::access_to(t, vp::op::load, mo);
    const_cast<T &>(t) = v;
    return v;
}
template <typename T>
void store(T &t, std::type_identity_t<T> x, std::memory_order mo = seq) {
    vp::access_to(t, vp::op::store, mo);
    vp::seen.operand = vp::as_word(x);
    vp::leave(t, x);
}
template <typename T>
auto exchange(T &t, std::type_identity_t<T> x, std::memory_order mo = seq) -> T {
    auto const v = vp::access_to(t, vp::op::exchange, mo);
    vp::seen.operand = vp::as_word(x);
    vp::leave(t, x);
    return v;
}
#define VP_RMW(NAME, KIND, OP)                                                             \
    template <typename T>                                                                  \
    auto NAME(T &t, std::type_identity_t<T> x, std::memory_order mo = seq) -> T {          \
        auto const v = vp::access_to(t, vp::op::KIND, mo);                             \
        vp::seen.operand = vp::as_word(x);                                                 \
        vp::leave(t, static_cast<T>(vp::as_word(v) OP vp::as_word(x)));                    \
        return v;                                                                          \
    }
VP_RMW(fetch_add, add, +)
VP_RMW(fetch_sub, sub, -)
VP_RMW(fetch_and, band, &)
VP_RMW(fetch_or, bor, |)
VP_RMW(fetch_xor, bxor, ^)
#undef VP_RMW
} // namespace atomic

// Every operation of atomic<T> is one access, whatever other threads write around it.
// VP-CONFIG a: -std=c++20
// VP-CONFIG wide: -std=c++20 -DVP_WIDE
#include "vp.hpp"
#include <conc/atomic.hpp>
#include <stdx/atomic.hpp>
using namespace vp;

namespace {
template <typename T> auto any() -> T {
    if constexpr (std::is_same_v<T, bool>) {
        return vp_bool() != 0;
    } else if constexpr (std::is_enum_v<T>) {
        return static_cast<T>(nd<std::underlying_type_t<T>>());
    } else {
        return nd<T>();
    }
}
auto any_order() -> std::memory_order {
    switch (small(5)) {
    case 0: return std::memory_order_relaxed;
    case 1: return std::memory_order_acquire;
    case 2: return std::memory_order_release;
    case 3: return std::memory_order_acq_rel;
    default: return std::memory_order_seq_cst;
    }
}
// the low bits that belong to a T
template <typename T> constexpr auto part(std::uint64_t x) -> std::uint64_t {
    if constexpr (std::is_same_v<T, bool>) {
        return x != 0;
    } else {
        return x & (~std::uint64_t{} >> (64 - 8 * sizeof(T)));
    }
}
template <typename T> void one(op k, std::memory_order mo, void const *a) {
    CHECK(seen.count == 1);
    CHECK(seen.kind == k);
    CHECK(seen.order == mo);
    CHECK(seen.where == a);
    seen.count = 0;
}
template <typename T> void basics() {
    seen = accesses{};
    if constexpr (std::is_same_v<T, bool>) {
        seen.others = 1;
    }
    auto const init = any<T>();
    stdx::atomic<T> a{init};
    CHECK(seen.count == 0);
    auto const mo = any_order();
    bool const def = vp_bool();
    constexpr auto sc = std::memory_order_seq_cst;
    auto const t = any<T>();
    switch (small(6)) {
    case 0: {
        T const r = def ? a.load() : a.load(mo);
        one<T>(op::load, def ? sc : mo, &a);
        CHECK(as_word(r) == part<T>(seen.before));
    } break;
    case 1: {
        def ? a.store(t) : a.store(t, mo);
        one<T>(op::store, def ? sc : mo, &a);
        CHECK(part<T>(seen.after) == as_word(t));
    } break;
    case 2: {
        T const r = a;
        one<T>(op::load, sc, &a);
        CHECK(as_word(r) == part<T>(seen.before));
    } break;
    case 3: {
        T const r = (a = t);
        one<T>(op::store, sc, &a);
        CHECK(part<T>(seen.after) == as_word(t));
        CHECK(r == t);
    } break;
    default: {
        T const r = def ? a.exchange(t) : a.exchange(t, mo);
        one<T>(op::exchange, def ? sc : mo, &a);
        CHECK(part<T>(seen.after) == as_word(t));
        CHECK(as_word(r) == part<T>(seen.before));
    } break;
    }
    CHECK(sizeof(a) >= sizeof(T));
}
template <typename T> void construct() {
    // the value held right after construction, without interference
    auto const init = any<T>();
    stdx::atomic<T> a{init};
    typename ::atomic::atomic_type_t<T> raw{};
    CHECK(sizeof(raw) <= sizeof(a));
    __builtin_memcpy(&raw, &a, sizeof(raw));
    CHECK(part<T>(as_word(raw)) == as_word(init));
    stdx::atomic<T> d{};
    __builtin_memcpy(&raw, &d, sizeof(raw));
    CHECK(as_word(raw) == 0);
}
template <typename T> void arithmetic() {
    seen = accesses{};
    stdx::atomic<T> a{any<T>()};
    auto const mo = any_order();
    bool const def = vp_bool();
    constexpr auto sc = std::memory_order_seq_cst;
    auto const t = any<T>();
    auto const w = as_word(t);
    auto add = [&] { return part<T>(seen.before + w); };
    auto sub = [&] { return part<T>(seen.before - w); };
    switch (small(8)) {
    case 0: {
        T const r = def ? a.fetch_add(t) : a.fetch_add(t, mo);
        one<T>(op::add, def ? sc : mo, &a);
        CHECK(as_word(r) == part<T>(seen.before));
        CHECK(part<T>(seen.after) == add());
    } break;
    case 1: {
        T const r = def ? a.fetch_sub(t) : a.fetch_sub(t, mo);
        one<T>(op::sub, def ? sc : mo, &a);
        CHECK(as_word(r) == part<T>(seen.before));
        CHECK(part<T>(seen.after) == sub());
    } break;
    case 2: {
        T const r = (a += t);
        one<T>(op::add, sc, &a);
        CHECK(part<T>(seen.after) == add());
        CHECK(as_word(r) == add());
    } break;
    case 3: {
        T const r = (a -= t);
        one<T>(op::sub, sc, &a);
        CHECK(part<T>(seen.after) == sub());
        CHECK(as_word(r) == sub());
    } break;
    case 4: {
        T const r = ++a;
        one<T>(op::add, sc, &a);
        CHECK(part<T>(seen.after) == part<T>(seen.before + 1));
        CHECK(as_word(r) == part<T>(seen.before + 1));
    } break;
    case 5: {
        T const r = a++;
        one<T>(op::add, sc, &a);
        CHECK(part<T>(seen.after) == part<T>(seen.before + 1));
        CHECK(as_word(r) == part<T>(seen.before));
    } break;
    case 6: {
        T const r = --a;
        one<T>(op::sub, sc, &a);
        CHECK(part<T>(seen.after) == part<T>(seen.before - 1));
        CHECK(as_word(r) == part<T>(seen.before - 1));
    } break;
    default: {
        T const r = a--;
        one<T>(op::sub, sc, &a);
        CHECK(part<T>(seen.after) == part<T>(seen.before - 1));
        CHECK(as_word(r) == part<T>(seen.before));
    } break;
    }
}
template <typename T> void bitwise() {
    seen = accesses{};
    stdx::atomic<T> a{any<T>()};
    auto const mo = any_order();
    bool const def = vp_bool();
    constexpr auto sc = std::memory_order_seq_cst;
    auto const t = any<T>();
    auto const w = as_word(t);
    T r{};
    bool old{};
    std::uint64_t e{};
    op k{};
    bool defaulted{true};
    switch (small(6)) {
    case 0: r = def ? a.fetch_and(t) : a.fetch_and(t, mo); defaulted = def; old = true; k = op::band; e = seen.before & w; break;
    case 1: r = def ? a.fetch_or(t) : a.fetch_or(t, mo); defaulted = def; old = true; k = op::bor; e = seen.before | w; break;
    case 2: r = def ? a.fetch_xor(t) : a.fetch_xor(t, mo); defaulted = def; old = true; k = op::bxor; e = seen.before ^ w; break;
    case 3: r = (a &= t); k = op::band; e = seen.before & w; break;
    case 4: r = (a |= t); k = op::bor; e = seen.before | w; break;
    default: r = (a ^= t); k = op::bxor; e = seen.before ^ w; break;
    }
    one<T>(k, defaulted ? sc : mo, &a);
    CHECK(part<T>(seen.after) == part<T>(e));
    CHECK(as_word(r) == part<T>(old ? seen.before : e));
}
enum E : std::uint8_t {};
enum struct S : std::uint16_t {};
} // namespace

#define BASIC(T)                                                               \
    VP_HARNESS(basics_##T, 4, q) { basics<T>(); }                              \
    VP_HARNESS(construct_##T, 4, q) { construct<T>(); }
#define ARITH(T)                                                               \
    VP_HARNESS(arith_##T, 4, q) { arithmetic<T>(); }                           \
    VP_HARNESS(bits_##T, 4, q) { bitwise<T>(); }
using u8 = std::uint8_t;
using u16 = std::uint16_t;
using u32 = std::uint32_t;
using u64 = std::uint64_t;
using i8 = std::int8_t;
using i16 = std::int16_t;
using i32 = std::int32_t;
using i64 = std::int64_t;
BASIC(bool) BASIC(E) BASIC(S) BASIC(u8) BASIC(u16) BASIC(u32) BASIC(u64) BASIC(i8) BASIC(i16) BASIC(i32) BASIC(i64)
ARITH(u8) ARITH(u16) ARITH(u32) ARITH(u64) ARITH(i8) ARITH(i16) ARITH(i32) ARITH(i64)

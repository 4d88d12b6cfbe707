// Every operation of atomic_bitset is one access, whatever other threads write around it.
// VP-CONFIG a: -std=c++20 -DPART=1
// VP-CONFIG b: -std=c++20 -DPART=2
// VP-CONFIG wide: -std=c++20 -DPART=1 -DVP_WIDE
#include "vp.hpp"
#include <conc/atomic.hpp>
#include <stdx/atomic_bitset.hpp>
#include <string_view>
using namespace vp;

namespace {
auto any_order() -> std::memory_order {
    switch (small(5)) {
    case 0: return std::memory_order_relaxed;
    case 1: return std::memory_order_acquire;
    case 2: return std::memory_order_release;
    case 3: return std::memory_order_acq_rel;
    default: return std::memory_order_seq_cst;
    }
}
constexpr auto sc = std::memory_order_seq_cst;

template <typename A> struct suite {
    constexpr static std::size_t N = A::size;
    constexpr static std::uint64_t full = ~std::uint64_t{} >> (64 - N);
    using bs = std::remove_cvref_t<decltype(std::declval<A const &>().load())>;

    static void one(op k, std::memory_order mo) {
        CHECK(seen.count == 1);
        CHECK(seen.kind == k);
        CHECK(seen.order == mo);
    }
    static auto word(bs const &b) -> std::uint64_t {
        std::uint64_t r{};
        unroll<N>([&](auto i) { r |= std::uint64_t{b[std::size_t{i}]} << i; });
        return r;
    }
    // the returned set is the value found, the value left is the expected one
    static void rmw(bs const &r, std::uint64_t e, std::memory_order mo) {
        CHECK(seen.count == 1);
        CHECK(seen.kind != op::load and seen.kind != op::store);
        CHECK(seen.order == mo);
        CHECK(word(r) == seen.before);
        CHECK(seen.after == e);
    }
    static void modify() {
        seen = accesses{};
        seen.others = full; // other threads also only use positions below the size
        A a{nd<std::uint64_t>()};
        CHECK(seen.count == 0);
        auto const mo = any_order();
        bool const def = vp_bool();
        auto const use = def ? sc : mo;
        bool const v = vp_bool();
        std::size_t const i = small(N);
        auto const bit = std::uint64_t{1} << i;
        auto put = [&](std::uint64_t m, bool x) { return x ? seen.before | m : seen.before & ~m; };
        switch (small(7)) {
        case 0: { auto r = a.set(i); rmw(r, seen.before | bit, sc); } break;
        case 1: { auto r = def ? a.set(i, v) : a.set(i, v, mo); rmw(r, put(bit, v), use); } break;
        case 2: { auto r = def ? a.reset(i) : a.reset(i, mo); rmw(r, put(bit, false), use); } break;
        case 3: { auto r = def ? a.flip(i) : a.flip(i, mo); rmw(r, seen.before ^ bit, use); } break;
        case 4: { auto r = def ? a.flip() : a.flip(mo); rmw(r, ~seen.before & full, use); } break;
        case 5: { auto &&r = def ? a.set() : a.set(mo); CHECK(&r == &a); one(op::store, use); CHECK(seen.after == full); } break;
        default: { auto &&r = def ? a.reset() : a.reset(mo); CHECK(&r == &a); one(op::store, use); CHECK(seen.after == 0); } break;
        }
    }
    static void ranges() {
        seen = accesses{};
        seen.others = full;
        A a{nd<std::uint64_t>()};
        auto const mo = any_order();
        bool const def = vp_bool();
        auto const use = def ? sc : mo;
        bool const v = vp_bool();
        std::size_t const i = small(N);
        std::size_t const h = small(N);
        ASSUME(i <= h);
        auto const lsb = static_cast<stdx::lsb_t>(i);
        auto const msb = static_cast<stdx::msb_t>(h);
        auto const len = static_cast<stdx::length_t>(h - i + 1);
        std::uint64_t m{};
        unroll<N>([&](auto k) { m |= std::uint64_t{i <= k and k <= h} << k; });
        auto put = [&](bool x) { return x ? seen.before | m : seen.before & ~m; };
        switch (small(7)) {
        case 0: { auto r = a.set(lsb, msb); rmw(r, put(true), sc); } break;
        case 1: { auto r = def ? a.set(lsb, msb, v) : a.set(lsb, msb, v, mo); rmw(r, put(v), use); } break;
        case 2: { auto r = def ? a.set(lsb, len, v) : a.set(lsb, len, v, mo); rmw(r, put(v), use); } break;
        case 3: { auto r = def ? a.reset(lsb, msb) : a.reset(lsb, msb, mo); rmw(r, put(false), use); } break;
        case 4: { auto r = def ? a.reset(lsb, len) : a.reset(lsb, len, mo); rmw(r, put(false), use); } break;
        case 5: { auto r = def ? a.flip(lsb, msb) : a.flip(lsb, msb, mo); rmw(r, seen.before ^ m, use); } break;
        default: { auto r = def ? a.flip(lsb, len) : a.flip(lsb, len, mo); rmw(r, seen.before ^ m, use); } break;
        }
    }
    static void query() {
        seen = accesses{};
        A a{nd<std::uint64_t>()};
        auto const mo = any_order();
        bool const def = vp_bool();
        auto const use = def ? sc : mo;
        std::size_t const i = small(N);
        auto now = [] { return seen.before & full; };
        switch (small(11)) {
        case 0: { bool r = def ? a.all() : a.all(mo); one(op::load, use); CHECK(r == (now() == full)); } break;
        case 1: { bool r = def ? a.any() : a.any(mo); one(op::load, use); CHECK(r == (now() != 0)); } break;
        case 2: { bool r = def ? a.none() : a.none(mo); one(op::load, use); CHECK(r == (now() == 0)); } break;
        case 3: { auto r = def ? a.count() : a.count(mo); one(op::load, use); CHECK(r == static_cast<std::size_t>(__builtin_popcountll(now()))); } break;
        case 4: { auto r = def ? a.load() : a.load(mo); one(op::load, use); CHECK(word(r) == now()); CHECK(r.template to<std::uint64_t>() == now()); } break;
        case 5: { bs r = a; one(op::load, sc); CHECK(word(r) == now()); } break;
        case 6: { bool r = a[i]; one(op::load, sc); CHECK(r == ((now() >> i & 1u) != 0)); } break;
        case 7: { auto r = def ? a.to_natural() : a.to_natural(mo); one(op::load, use); CHECK(r == now()); } break;
        case 8: { auto r = def ? a.template to<std::uint64_t>() : a.template to<std::uint64_t>(mo); one(op::load, use); CHECK(r == now()); } break;
        default: {
            auto const x = nd<std::uint64_t>();
            bs b{x};
            if (vp_bool()) {
                b.flip();
                def ? a.store(b) : a.store(b, mo);
                CHECK(seen.after == (~x & full));
            } else {
                def ? a.store(b) : a.store(b, mo);
                CHECK(seen.after == (x & full));
            }
            one(op::store, use);
        } break;
        }
    }
    // the value held right after construction
    static auto raw(A const &a) -> std::uint64_t {
        static_assert(sizeof(A) <= 8);
        std::uint64_t r{};
        __builtin_memcpy(&r, &a, sizeof(A));
        CHECK(seen.count == 0);
        return r;
    }
    template <std::size_t L> static void construct() {
        seen = accesses{};
        CHECK(A::size() == N);
        auto const x = nd<std::uint64_t>();
        CHECK(raw(A{}) == 0);
        CHECK(raw(A{x}) == (x & full));
        CHECK(raw(A{stdx::all_bits}) == full);
        auto const p = small(N), q = small(N);
        CHECK(raw(A{stdx::place_bits, p, q}) == ((std::uint64_t{1} << p) | (std::uint64_t{1} << q)));
        auto const chars = nd_array<char, L>();
        auto const len = small(L + 1);
        auto const pos = small(L + 1);
        ASSUME(pos <= len);
        auto const n = vp_bool() ? std::size_t{small(L + 2)} : std::string_view::npos;
        auto const c = nd<char>();
        auto const w = raw(A{std::string_view{chars.data(), len}, pos, n, c});
        std::size_t const rest = len - pos;
        std::size_t const used = rest < n ? rest : n;
        std::size_t const m = used < N ? used : N;
        unroll<N>([&](auto i) {
            CHECK(((w >> i) & 1u) == (i < m ? chars[(pos + m - 1 - i) % L] == c : false));
        });
        CHECK((w & ~full) == 0);
    }
};
using b5 = suite<stdx::atomic_bitset<5>>;
using b8 = suite<stdx::atomic_bitset<8>>;
using b11 = suite<stdx::atomic_bitset<11>>;
using b16 = suite<stdx::atomic_bitset<16>>;
using b1 = suite<stdx::atomic_bitset<1>>;
using b7w = suite<stdx::atomic_bitset<7, std::uint32_t>>;
using b32 = suite<stdx::atomic_bitset<32>>;
using b33 = suite<stdx::atomic_bitset<33>>;
using b64 = suite<stdx::atomic_bitset<64>>;
enum struct En : std::uint8_t { A, B, C, MAX };
} // namespace
#define ALL(S, L)                                                              \
    VP_HARNESS(modify_##S, 6, q) { S::modify(); }                              \
    VP_HARNESS(ranges_##S, 6, q) { S::ranges(); }                              \
    VP_HARNESS(query_##S, 6, q) { S::query(); }                                \
    VP_HARNESS(construct_##S, 14, q) { S::construct<L>(); }
#if PART == 1
ALL(b1, 3)
ALL(b5, 7)
ALL(b8, 9)
ALL(b11, 6)
ALL(b16, 6)
ALL(b7w, 6)
VP_HARNESS(enumeration, 6, q) {
    seen = accesses{};
    seen.others = 7;
    stdx::atomic_bitset<En::MAX> a{stdx::place_bits, En::A, En::C};
    auto const e = static_cast<En>(small(3));
    auto const bit = std::uint64_t{1} << static_cast<unsigned>(e);
    switch (small(3)) {
    case 0: { auto r = a.set(e); CHECK(seen.count == 1 and seen.after == (seen.before | bit)); CHECK(r.to<std::uint8_t>() == seen.before); } break;
    case 1: { auto r = a.reset(e); CHECK(seen.count == 1 and seen.after == (seen.before & ~bit)); CHECK(r.to<std::uint8_t>() == seen.before); } break;
    default: { bool r = a[e]; CHECK(seen.count == 1 and r == ((seen.before & bit) != 0)); } break;
    }
}
VP_HARNESS(ct_string, 12, q) {
    stdx::ct_string<8> s{};
    unroll<7>([&](auto i) { s.value[i] = nd<char>(); });
    s.value[7] = 0;
    seen = accesses{};
    stdx::atomic_bitset const b{s};
    CHECK(std::is_same_v<decltype(b), stdx::atomic_bitset<std::size_t{7}> const>);
    auto const w = b.to_natural();
    CHECK(seen.count == 1 and w == (seen.before & 0x7f));
}
#else
ALL(b32, 4)
ALL(b33, 4)
ALL(b64, 4)
#endif

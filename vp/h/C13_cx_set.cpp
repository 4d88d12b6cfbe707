// cx_set against a list of distinct members kept next to it.
// VP-CONFIG a: -std=c++20 -DPART=1
// VP-CONFIG b: -std=c++20 -DPART=2
// VP-CONFIG t_c: -std=c++20 -DPART=3
#include "any_value.hpp"
#include <stdx/cx_set.hpp>
using namespace vp;

// An arbitrary value is chosen up front and its membership followed.  As it is arbitrary,
// the verdict holds for all values.
namespace {
template <typename K> auto fixed(std::size_t i) -> K {
    if constexpr (std::is_same_v<K, two_part>) {
        return {static_cast<std::uint16_t>(i / 2), static_cast<std::uint8_t>(i % 2)};
    } else {
        return static_cast<K>(i * 37u);
    }
}
template <typename K, std::size_t N> struct followed {
    using set_t = stdx::cx_set<K, N>;
    set_t &s; // an object of its own, so that writes to it cannot reach the model
    K const p;
    bool has{};
    std::size_t n{};

    explicit followed(set_t &set, K const &k = any<K>()) : s{set}, p{k} {}

    void same() {
        auto const &c = s;
        CHECK(s.size() == n);
        CHECK(s.empty() == (n == 0));
        CHECK(c.end() - c.begin() == static_cast<std::ptrdiff_t>(n));
        CHECK(c.contains(p) == has);
        std::size_t met{};
        unroll<N>([&](auto k) { met += k < n and c.begin()[k] == p; });
        CHECK(met == (has ? 1u : 0u));
    }
    void around() {
        auto const &c = s;
        CHECK(s.capacity() == N);
        CHECK(stdx::ct_capacity_v<set_t> == N);
        CHECK(c.cbegin() == s.begin());
        CHECK(c.cend() == s.end());
        CHECK(s.end() - s.begin() == static_cast<std::ptrdiff_t>(n));
        auto copy = s;
        s.clear();
        CHECK(s.empty() and s.size() == 0 and not s.contains(p));
        s = copy;
        same();
    }
    void insert(bool moved) {
        auto k = any<K>();
        bool const is_p = k == p;
        if (n < N or s.contains(k)) {
            auto const &ck = k;
            bool const r = moved ? s.insert(std::move(k)) : s.insert(ck);
            n += r;
            if (is_p) {
                CHECK(r == not has);
                has = true;
            }
        }
        same();
    }
    void erase() {
        auto const k = any<K>();
        auto const r = s.erase(k);
        CHECK(r <= 1u);
        n -= r;
        if (k == p) {
            CHECK(r == (has ? 1u : 0u));
            has = false;
        }
        same();
    }
    void erase_own() { // given by reference to the member itself
        if (n > 0) {
            auto const j = small(N);
            ASSUME(j < n);
            auto const k = s.begin()[j];
            CHECK(s.erase(s.begin()[j]) == 1u);
            --n;
            if (k == p) { has = false; }
        }
        same();
    }
    void pop() {
        if (n > 0) {
            auto const k = s.pop_back();
            --n;
            if (k == p) {
                CHECK(has);
                has = false;
            }
        }
        same();
    }
    void clear() {
        s.clear();
        n = 0;
        has = false;
        same();
    }
    void step() {
        auto const op = small(6);
        if (op <= 1) { insert(op == 1); }
        else if (op == 2) { erase(); }
        else if (op == 3) { erase_own(); }
        else if (op == 4) { pop(); }
        else { clear(); }
    }
    // C distinct members; which ones does not matter to a container that only compares for equality
    template <std::size_t C> void filled() {
        unroll<C>([&](auto i) {
            auto const k = fixed<K>(i);
            s.insert(k);
            if (k == p) { has = true; }
        });
        n = C;
        same();
    }
    // any members, up to C
    template <std::size_t C> void arbitrary() {
        unroll<C>([&](auto) {
            auto const k = any<K>();
            n += s.insert(k);
            if (k == p) { has = true; }
        });
        same();
    }
};
template <typename K, std::size_t N, std::size_t Steps> void history() {
    stdx::cx_set<K, N> s{};
    followed<K, N> f{s};
    f.same();
    unroll<Steps>([&](auto) { f.step(); });
    COVER(f.n == N);
}
template <typename K, std::size_t N, std::size_t C, typename Op> void from_filled(Op op) {
    stdx::cx_set<K, N> s{};
    followed<K, N> f{s};
    f.template filled<C>();
    op(f);
}
template <typename K, std::size_t N, std::size_t C, typename Op> void from_any(Op op) {
    stdx::cx_set<K, N> s{};
    followed<K, N> f{s};
    f.template arbitrary<C>();
    op(f);
}
template <typename K, std::size_t N, std::size_t A, std::size_t M> void merging() {
    stdx::cx_set<K, N> s{};
    followed<K, N> a{s};
    a.template filled<A>();
    stdx::cx_set<K, M> t{};
    followed<K, M> b{t, a.p};
    b.template arbitrary<M>();
    std::size_t extra{};
    unroll<M>([&](auto i) { extra += i < b.n and not a.s.contains(b.s.begin()[i]); });
    ASSUME(A + extra <= N);
    a.s.merge(b.s);
    a.n += extra;
    a.has = a.has or b.has;
    a.same();
    b.same(); // the source is unchanged
    a.s.merge(a.s);
    a.same();
    COVER(extra == M or A + extra == N);
}
template <std::size_t N> void construct() {
    auto const x = nd_array<std::uint8_t, 3>();
    stdx::cx_set<std::uint8_t, N> const s{x[0], x[1], x[2]};
    std::size_t const n = 1u + (x[1] != x[0]) + (x[2] != x[0] and x[2] != x[1]);
    CHECK(s.size() == n);
    auto const p = nd<std::uint8_t>();
    bool const in = p == x[0] or p == x[1] or p == x[2];
    CHECK(s.contains(p) == in);
    auto t = s;
    CHECK(t.erase(p) == (in ? 1u : 0u));
    CHECK(not t.contains(p));
    CHECK(t.size() == n - in);
}
} // namespace

#if PART == 1
VP_HARNESS(history_u8_2, 6, q) { history<std::uint8_t, 2, 3>(); }
VP_HARNESS(history_u16_3, 6, q) { history<std::uint16_t, 3, 3>(); }
VP_HARNESS(history_two_part, 6, q) { history<two_part, 2, 2>(); }
#define STEPS(NAME, FROM, ...)                                                 \
    VP_HARNESS(insert_##NAME, 9, q) { FROM<__VA_ARGS__>([](auto &f) { f.insert(false); }); }    \
    VP_HARNESS(insert2_##NAME, 9, q) { FROM<__VA_ARGS__>([](auto &f) { f.insert(true); }); }    \
    VP_HARNESS(erase_##NAME, 9, q) { FROM<__VA_ARGS__>([](auto &f) { f.erase(); }); }           \
    VP_HARNESS(erase_own_##NAME, 9, q) { FROM<__VA_ARGS__>([](auto &f) { f.erase_own(); }); }   \
    VP_HARNESS(pop_##NAME, 9, q) { FROM<__VA_ARGS__>([](auto &f) { f.pop(); }); }               \
    VP_HARNESS(around_##NAME, 9, q) { FROM<__VA_ARGS__>([](auto &f) { f.clear(); }); FROM<__VA_ARGS__>([](auto &f) { f.around(); }); }
STEPS(u8_0_of_3, from_filled, std::uint8_t, 3, 0)
STEPS(u8_4_of_4, from_filled, std::uint8_t, 4, 4)
STEPS(u8_6_of_7, from_filled, std::uint8_t, 7, 6)
STEPS(u64_1_of_1, from_filled, std::uint64_t, 1, 1)
STEPS(u32_5_of_5, from_filled, std::uint32_t, 5, 5)
STEPS(two_part_2_of_3, from_filled, two_part, 3, 2)
STEPS(u8_any_3, from_any, std::uint8_t, 3, 3)
#elif PART == 2
VP_HARNESS(merge_4_2_3, 8, q) { merging<std::uint8_t, 4, 2, 3>(); }
VP_HARNESS(merge_3_0_3, 8, q) { merging<std::uint16_t, 3, 0, 3>(); }
VP_HARNESS(merge_3_3_4, 8, q) { merging<std::uint8_t, 3, 3, 4>(); }
VP_HARNESS(merge_6_3_2, 8, q) { merging<two_part, 6, 3, 2>(); }
// many keys
VP_HARNESS(many, 64, q) {
    constexpr std::size_t N = 60;
    stdx::cx_set<std::uint16_t, N> m{};
    for (std::size_t i{}; i < N; ++i) { CHECK(m.insert(static_cast<std::uint16_t>(3 * i))); }
    CHECK(m.size() == N);
    auto const k = nd<std::uint16_t>();
    auto const known = k % 3 == 0 and k / 3 < N;
    CHECK(m.contains(k) == known);
    for (std::size_t i{}; i < N; i += 2) { CHECK(m.erase(static_cast<std::uint16_t>(3 * i)) == 1); }
    CHECK(m.size() == N / 2);
    CHECK(m.contains(k) == (known and k / 3 % 2 != 0));
    CHECK(not m.insert(3 * (N - 1)) and m.insert(0));
}
VP_HARNESS(construct_3, 8, q) { construct<3>(); }
VP_HARNESS(construct_5, 8, q) { construct<5>(); }
VP_HARNESS(deduced, 8, q) {
    auto const x = nd_array<int, 3>();
    auto const s = stdx::cx_set{x[0], x[1], x[2]};
    CHECK(std::is_same_v<decltype(s), stdx::cx_set<int, 3> const>);
    unroll<3>([&](auto i) { CHECK(s.contains(x[i])); });
    stdx::cx_set<long, 4> w{x[0]};
    CHECK(w.size() == 1 and w.contains(x[0]));
    CHECK(not w.insert(x[0]));
    CHECK(w.size() == 1);
}
#else
VP_HARNESS(long_history_u8_3, 6, t) { history<std::uint8_t, 3, 5>(); }
VP_HARNESS(long_steps_u8_10, 12, t) { from_filled<std::uint8_t, 10, 9>([](auto &f) { f.step(); f.step(); f.around(); }); }
VP_HARNESS(long_merge_8_4_5, 12, t) { merging<std::uint8_t, 8, 4, 5>(); }
#endif

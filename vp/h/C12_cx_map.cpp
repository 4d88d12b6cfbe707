// cx_map against an association list kept next to it.
// VP-CONFIG a: -std=c++20 -DPART=1
// VP-CONFIG b: -std=c++20 -DPART=2
// VP-CONFIG t_c: -std=c++20 -DPART=3
#include "any_value.hpp"
#include <stdx/cx_map.hpp>
using namespace vp;

// An arbitrary key is chosen up front and followed: whether it is present and with which
// value.  As it is arbitrary, the verdict holds for all keys.
namespace {
template <typename K, typename V, std::size_t N> struct followed {
    using map_t = stdx::cx_map<K, V, N>;
    map_t &s; // an object of its own, so that writes to it cannot reach the model
    K const p = any<K>();
    bool has{};
    V value{};
    std::size_t n{};

    void same() {
        auto const &c = s;
        CHECK(s.size() == n);
        CHECK(s.empty() == (n == 0));
        CHECK(s.full() == (n == N));
        CHECK(c.end() - c.begin() == static_cast<std::ptrdiff_t>(n));
        CHECK(c.contains(p) == has);
        if (has) { CHECK(c.get(p) == value); }
        // it is met once on the way, with its value
        std::size_t met{};
        unroll<N>([&](auto k) {
            if (k < n and c.begin()[k].key == p) {
                CHECK(c.begin()[k].value == value);
                ++met;
            }
        });
        CHECK(met == (has ? 1u : 0u));
    }
    void around() {
        auto const &c = s;
        CHECK(s.capacity() == N);
        CHECK(stdx::ct_capacity_v<map_t> == N);
        CHECK(c.cbegin() == s.begin());
        CHECK(c.cend() == s.end());
        CHECK(s.end() - s.begin() == static_cast<std::ptrdiff_t>(n));
        if (has) {
            CHECK(adr(s.get(p)) == adr(c.get(p)));
            value = any<V>();
            s.get(p) = value;
            same();
        }
        auto copy = s;
        s.clear();
        CHECK(s.empty() and not s.contains(p));
        s = copy;
        same();
    }
    void put(bool other) {
        auto const k = any<K>();
        auto const v = any<V>();
        if (n < N or s.contains(k)) {
            bool const r = other ? s.put(k, v) : s.insert_or_assign(k, v);
            n += r;
            if (k == p) {
                CHECK(r == not has);
                has = true;
                value = v;
            }
        }
        same();
    }
    void erase() {
        auto const k = any<K>();
        auto const r = s.erase(k);
        CHECK(r <= 1u);
        n -= r;
        if (k == p) {
            CHECK(r == (has ? 1u : 0u));
            has = false;
        }
        same();
    }
    void erase_own() { // the key is given by reference to the entry itself
        if (n > 0) {
            auto const j = small(N);
            ASSUME(j < n);
            auto const k = s.begin()[j].key;
            CHECK(s.erase(s.begin()[j].key) == 1u);
            --n;
            if (k == p) { has = false; }
        }
        same();
    }
    void pop() {
        if (n > 0) {
            auto const e = s.pop_back();
            --n;
            if (e.key == p) {
                CHECK(has);
                CHECK(e.value == value);
                has = false;
            }
        }
        same();
    }
    void clear() {
        s.clear();
        n = 0;
        has = false;
        same();
    }
    void step() {
        auto const op = small(6);
        if (op <= 1) { put(op == 1); }
        else if (op == 2) { erase(); }
        else if (op == 3) { erase_own(); }
        else if (op == 4) { pop(); }
        else { clear(); }
    }
    // C distinct entries
    template <std::size_t C> void arbitrary() {
        std::array<K, C> k{};
        std::array<V, C> v{};
        unroll<C>([&](auto i) {
            k[i] = any<K>();
            v[i] = any<V>();
            unroll<i>([&](auto j) { ASSUME(not(k[i] == k[j])); });
            if (k[i] == p) {
                has = true;
                value = v[i];
            }
        });
        [&]<std::size_t... Is>(std::index_sequence<Is...>) {
            s = map_t{typename map_t::value_type{k[Is], v[Is]}...};
        }(std::make_index_sequence<C>{});
        n = C;
        same();
    }
};
template <typename K, typename V, std::size_t N, std::size_t Steps> void history() {
    stdx::cx_map<K, V, N> s{};
    followed<K, V, N> f{s};
    f.same();
    unroll<Steps>([&](auto) { f.step(); });
    COVER(f.s.full());
}
template <typename K, typename V, std::size_t N, std::size_t C, typename Op> void from_any(Op op) {
    stdx::cx_map<K, V, N> s{};
    followed<K, V, N> f{s};
    f.template arbitrary<C>();
    op(f);
}
} // namespace

#if PART == 1
VP_HARNESS(history_u8_2, 6, q) { history<std::uint8_t, std::uint8_t, 2, 3>(); }
VP_HARNESS(history_u16_3, 6, q) { history<std::uint16_t, std::uint8_t, 3, 3>(); }
VP_HARNESS(history_two_part, 6, q) { history<two_part, std::uint8_t, 2, 2>(); }
#elif PART == 2
#define STEPS(NAME, ...)                                                       \
    VP_HARNESS(put_##NAME, 8, q) { from_any<__VA_ARGS__>([](auto &f) { f.put(false); }); }          \
    VP_HARNESS(put2_##NAME, 8, q) { from_any<__VA_ARGS__>([](auto &f) { f.put(true); }); }          \
    VP_HARNESS(erase_##NAME, 8, q) { from_any<__VA_ARGS__>([](auto &f) { f.erase(); }); }           \
    VP_HARNESS(erase_own_##NAME, 8, q) { from_any<__VA_ARGS__>([](auto &f) { f.erase_own(); }); }   \
    VP_HARNESS(pop_##NAME, 8, q) { from_any<__VA_ARGS__>([](auto &f) { f.pop(); }); }               \
    VP_HARNESS(around_##NAME, 8, q) { from_any<__VA_ARGS__>([](auto &f) { f.clear(); }); from_any<__VA_ARGS__>([](auto &f) { f.around(); }); }
STEPS(u8_4_of_4, std::uint8_t, std::uint8_t, 4, 4)
STEPS(u8_0_of_3, std::uint8_t, std::uint8_t, 3, 0)
STEPS(u8_2_of_3, std::uint8_t, std::uint8_t, 3, 2)
STEPS(u8_1_of_1, std::uint8_t, std::uint32_t, 1, 1)
STEPS(u32_5_of_5, std::uint32_t, std::uint16_t, 5, 5)
STEPS(u8_6_of_7, std::uint8_t, std::uint8_t, 7, 6)
STEPS(two_part_3_of_3, two_part, std::uint8_t, 3, 3)
STEPS(two_part_value_2_of_3, std::uint8_t, two_part, 3, 2)
// many entries
VP_HARNESS(many, 64, q) {
    constexpr std::size_t N = 60;
    stdx::cx_map<std::uint16_t, std::uint16_t, N> m{};
    for (std::size_t i{}; i < N; ++i) {
        CHECK(m.insert_or_assign(static_cast<std::uint16_t>(3 * i), static_cast<std::uint16_t>(i ^ 0x155)));
    }
    CHECK(m.size() == N and m.full());
    auto const k = nd<std::uint16_t>();
    auto const known = k % 3 == 0 and k / 3 < N;
    CHECK(m.contains(k) == known);
    if (known) { CHECK(m.get(k) == ((k / 3) ^ 0x155)); }
    for (std::size_t i{}; i < N; i += 2) { CHECK(m.erase(static_cast<std::uint16_t>(3 * i)) == 1); }
    CHECK(m.size() == N / 2);
    CHECK(m.contains(k) == (known and k / 3 % 2 != 0));
    CHECK(not m.insert_or_assign(3 * (N - 1), 7));
    CHECK(m.get(3 * (N - 1)) == 7 and m.get(3) == (1 ^ 0x155));
}
VP_HARNESS(construct, 8, q) {
    using M = stdx::cx_map<std::uint8_t, std::uint16_t, 4>;
    using E = M::value_type;
    auto const k = nd_array<std::uint8_t, 3>();
    auto const v = nd_array<std::uint16_t, 3>();
    ASSUME(k[0] != k[1] and k[0] != k[2] and k[1] != k[2]);
    M const m{E{k[0], v[0]}, E{k[1], v[1]}, E{k[2], v[2]}};
    CHECK(m.size() == 3 and not m.full() and not m.empty());
    unroll<3>([&](auto i) {
        CHECK(m.contains(k[i]));
        CHECK(m.get(k[i]) == v[i]);
    });
    auto const p = nd<std::uint8_t>();
    CHECK(m.contains(p) == (p == k[0] or p == k[1] or p == k[2]));
    auto x = m;
    auto const nv = nd<std::uint16_t>();
    CHECK(not x.put(k[1], nv));
    CHECK(x.size() == 3 and x.get(k[1]) == nv and x.get(k[0]) == v[0] and x.get(k[2]) == v[2]);
    CHECK(m.get(k[1]) == v[1]);
}
VP_HARNESS(construct_repeated, 8, q) {
    using M = stdx::cx_map<std::uint8_t, std::uint16_t, 4>;
    using E = M::value_type;
    auto const k = nd<std::uint8_t>();
    M m{E{k, nd<std::uint16_t>()}, E{k, nd<std::uint16_t>()}};
    CHECK(m.size() == 1);
    CHECK(m.erase(k) == 1);
    CHECK(not m.contains(k));
}
#else
VP_HARNESS(long_history_u8_3, 6, t) { history<std::uint8_t, std::uint8_t, 3, 5>(); }
VP_HARNESS(long_put_u8_12, 14, t) { from_any<std::uint8_t, std::uint8_t, 12, 11>([](auto &f) { f.put(false); }); }
VP_HARNESS(long_erase_u8_12, 14, t) { from_any<std::uint8_t, std::uint8_t, 12, 12>([](auto &f) { f.erase(); }); }
VP_HARNESS(long_steps_u8_4, 8, t) { from_any<std::uint8_t, std::uint8_t, 4, 3>([](auto &f) { f.step(); f.step(); f.step(); f.around(); }); }
#endif

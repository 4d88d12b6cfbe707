// cx_multimap against a list of keys with their sets of values kept next to it.
// VP-CONFIG a: -std=c++20 -DPART=1
// VP-CONFIG t_c: -std=c++20 -DPART=2
#include "any_value.hpp"
#include <stdx/cx_multimap.hpp>
using namespace vp;

// An arbitrary key and an arbitrary value are chosen up front and followed: whether the key
// is present, with how many values, and whether the value is one of them.
namespace {
template <typename K, typename V, std::size_t KN, std::size_t VN> struct followed {
    using map_t = stdx::cx_multimap<K, V, KN, VN>;
    map_t &s; // an object of its own, so that writes to it cannot reach the model
    K const p = any<K>();
    V const q = any<V>();
    bool has{};
    bool has_value{};
    std::size_t values{}; // of that key
    std::size_t n{};      // keys

    void same() {
        auto const &c = s;
        CHECK(s.size() == n);
        CHECK(s.empty() == (n == 0));
        CHECK(c.end() - c.begin() == static_cast<std::ptrdiff_t>(n));
        CHECK(c.contains(p) == has);
        CHECK(c.contains(p, q) == has_value);
        auto const *g = has ? &c.get(p) : nullptr;
        if (has) {
            CHECK(g->size() == values);
            CHECK(g->contains(q) == has_value);
        }
        std::size_t met{};
        unroll<KN>([&](auto x) {
            if (x < n and c.begin()[x].key == p) {
                ++met;
                CHECK(&c.begin()[x].value == g);
            }
        });
        CHECK(met == (has ? 1u : 0u));
    }
    void around() {
        auto const &c = s;
        CHECK(s.capacity() == KN);
        CHECK(stdx::ct_capacity_v<map_t> == KN);
        CHECK(c.cbegin() == s.begin());
        CHECK(c.cend() == s.end());
        CHECK(s.end() - s.begin() == static_cast<std::ptrdiff_t>(n));
        if (has) { CHECK(adr(s.get(p)) == adr(c.get(p))); }
        s.clear();
        n = values = 0;
        has = has_value = false;
        same();
    }
    void insert(bool other) {
        auto const k = any<K>();
        auto const v = any<V>();
        bool const present = s.contains(k);
        bool const with = present and s.contains(k, v);
        if (present ? with or s.get(k).size() < VN : n < KN) {
            if (other) { s.put(k, v); } else { s.insert(k, v); }
            n += not present;
            if (k == p) {
                CHECK(present == has);
                has = true;
                values += not with;
                has_value = has_value or v == q;
                if (v == q) { CHECK(s.contains(p, q)); }
            }
        }
        same();
    }
    void insert_key(bool other) {
        auto const k = any<K>();
        bool const present = s.contains(k);
        if (present or n < KN) {
            if (other) { s.put(k); } else { s.insert(k); }
            n += not present;
            has = has or k == p;
        }
        same();
    }
    void erase_key() {
        auto const k = any<K>();
        auto const r = s.erase(k);
        CHECK(r <= 1u);
        n -= r;
        if (k == p) {
            CHECK(r == (has ? 1u : 0u));
            has = has_value = false;
            values = 0;
        }
        same();
    }
    void erase() {
        auto const k = any<K>();
        auto const v = any<V>();
        bool const last = s.contains(k) and s.get(k).size() == 1;
        auto const r = s.erase(k, v);
        CHECK(r <= 1u);
        n -= r == 1u and last;
        if (k == p) {
            if (v == q) {
                CHECK(r == (has_value ? 1u : 0u));
                has_value = false;
            }
            CHECK(r == 0u or has);
            values -= r;
            if (r == 1u and values == 0) { has = false; }
        }
        same();
    }
    // the key and the value given are those held
    void erase_own_key() {
        auto const i = small(KN);
        ASSUME(i < n);
        auto const &k = s.begin()[i].key;
        bool const that = k == p;
        CHECK(s.erase(k) == 1u);
        --n;
        if (that) {
            has = has_value = false;
            values = 0;
        }
        same();
    }
    void erase_own() {
        auto const i = small(KN);
        ASSUME(i < n);
        auto const &e = std::as_const(s).begin()[i];
        auto const j = small(VN);
        ASSUME(j < e.value.size());
        auto const &v = e.value.begin()[j];
        bool const that = e.key == p;
        bool const those = that and v == q;
        bool const last = e.value.size() == 1;
        CHECK(s.erase(e.key, v) == 1u);
        n -= last;
        if (that) {
            --values;
            if (those) { has_value = false; }
            if (last) { has = false; }
        }
        same();
    }
    // as is the key or the value put in
    void insert_own() {
        auto const i = small(KN);
        ASSUME(i < n);
        auto const &e = std::as_const(s).begin()[i];
        auto const j = small(VN);
        ASSUME(j < e.value.size());
        auto const k = any<K>();
        bool const present = s.contains(k);
        auto const &v = e.value.begin()[j];
        bool const with = present and s.contains(k, v);
        bool const that = v == q;
        if (present ? with or s.get(k).size() < VN : n < KN) {
            s.insert(k, v);
            n += not present;
            if (k == p) {
                has = true;
                values += not with;
                has_value = has_value or that;
            }
        }
        same();
    }
    void step() {
        auto const op = small(7);
        if (op == 0) { insert(false); }
        else if (op == 1) { insert(true); }
        else if (op == 2) { insert_key(false); }
        else if (op == 3) { insert_key(true); }
        else if (op == 4) { erase_key(); }
        else if (op == 5) { erase(); }
        else { around(); }
    }
    // C keys with D values each; which ones does not matter to a container that only compares for equality
    template <std::size_t C, std::size_t D> void filled() {
        unroll<C>([&](auto i) {
            auto const k = static_cast<K>(i * 31u);
            if (i % 2 == 0 or D == 0) { s.insert(k); }
            unroll<D>([&](auto j) {
                V v{};
                if constexpr (std::is_same_v<V, two_part>) {
                    v = {static_cast<std::uint16_t>(i), static_cast<std::uint8_t>(j)};
                } else {
                    v = static_cast<V>(j * 17u + i);
                }
                s.insert(k, v);
                if (k == p and v == q) { has_value = true; }
            });
            if (k == p) {
                has = true;
                values = D;
            }
        });
        n = C;
        same();
    }
};
template <typename K, typename V, std::size_t KN, std::size_t VN, std::size_t Steps> void history() {
    stdx::cx_multimap<K, V, KN, VN> s{};
    followed<K, V, KN, VN> f{s};
    f.same();
    unroll<Steps>([&](auto) { f.step(); });
    COVER(f.has_value);
}
template <typename K, typename V, std::size_t KN, std::size_t VN, std::size_t C, std::size_t D, typename Op> void from(Op op) {
    stdx::cx_multimap<K, V, KN, VN> s{};
    followed<K, V, KN, VN> f{s};
    f.template filled<C, D>();
    op(f);
}
} // namespace

#define STEPS(NAME, U, ...)                                                    \
    VP_HARNESS(insert_##NAME, U, q) { from<__VA_ARGS__>([](auto &f) { f.insert(false); }); }         \
    VP_HARNESS(insert_key_##NAME, U, q) { from<__VA_ARGS__>([](auto &f) { f.insert_key(false); }); } \
    VP_HARNESS(erase_key_##NAME, U, q) { from<__VA_ARGS__>([](auto &f) { f.erase_key(); }); }        \
    VP_HARNESS(erase_##NAME, U, q) { from<__VA_ARGS__>([](auto &f) { f.erase(); }); }                \
    VP_HARNESS(around_##NAME, U, q) { from<__VA_ARGS__>([](auto &f) { f.around(); }); }
#if PART == 1
STEPS(2_2_full, 3, std::uint8_t, std::uint8_t, 2, 2, 2, 2)
STEPS(3_3_some, 4, std::uint8_t, std::uint8_t, 3, 3, 2, 1)
STEPS(3_2_keys, 4, std::uint16_t, std::uint8_t, 3, 2, 2, 0)
STEPS(1_3_some, 4, std::uint16_t, std::uint8_t, 1, 3, 1, 2)
VP_HARNESS(erase_own_key_3_2, 4, q) { from<std::uint8_t, std::uint8_t, 3, 2, 3, 1>([](auto &f) { f.erase_own_key(); }); }
VP_HARNESS(erase_own_2_3, 4, q) { from<std::uint8_t, std::uint8_t, 2, 3, 2, 2>([](auto &f) { f.erase_own(); }); }
VP_HARNESS(erase_own_3_1, 4, q) { from<std::uint8_t, std::uint8_t, 3, 1, 3, 1>([](auto &f) { f.erase_own(); }); }
VP_HARNESS(insert_own_3_2, 4, q) { from<std::uint8_t, std::uint8_t, 3, 2, 2, 1>([](auto &f) { f.insert_own(); }); }
VP_HARNESS(put_3_2, 4, q) { from<std::uint8_t, std::uint8_t, 3, 2, 2, 1>([](auto &f) { f.insert(true); }); }
VP_HARNESS(put_key_3_2, 4, q) { from<std::uint8_t, std::uint8_t, 3, 2, 2, 1>([](auto &f) { f.insert_key(true); }); }
#else
STEPS(1_4_some, 5, std::uint16_t, std::uint8_t, 1, 4, 1, 3)
STEPS(2_2_two_part, 3, std::uint8_t, two_part, 2, 2, 1, 1)
VP_HARNESS(inserts_2_2, 3, t) {
    stdx::cx_multimap<std::uint8_t, std::uint8_t, 2, 2> s{};
    followed<std::uint8_t, std::uint8_t, 2, 2> f{s};
    f.insert(false);
    f.insert(false);
    f.erase();
}
#endif

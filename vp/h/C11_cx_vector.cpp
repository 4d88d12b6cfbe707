// cx_vector against a sequence kept next to it.
// VP-CONFIG a: -std=c++20 -DPART=1
// VP-CONFIG b: -std=c++20 -DPART=2
// VP-CONFIG t_c: -std=c++20 -DPART=3
#include "any_value.hpp"
#include <stdx/cx_vector.hpp>
#include <iterator>
using namespace vp;

namespace {
template <typename T, std::size_t N> struct pair {
    stdx::cx_vector<T, N> v{};
    std::array<T, N + 1> m{};
    std::size_t n{};

    void same() {
        auto const &c = v;
        CHECK(v.size() == n);
        CHECK(c.size() == n);
        CHECK(v.empty() == (n == 0));
        CHECK(v.full() == (n == N));
        CHECK(v.end() - v.begin() == static_cast<std::ptrdiff_t>(n));
        CHECK(c.end() - c.begin() == static_cast<std::ptrdiff_t>(n));
        CHECK(c.begin() == v.begin());
        unroll<N>([&](auto i) {
            if (i < n) { CHECK(c[i] == m[i]); }
        });
    }
    void observe() {
        auto const &c = v;
        CHECK(v.capacity() == N);
        CHECK(stdx::ct_capacity_v<stdx::cx_vector<T, N>> == N);
        CHECK(c.cbegin() == v.begin());
        CHECK(c.cend() == v.end());
        unroll<N>([&](auto i) {
            if (i < n) {
                CHECK(adr(v[i]) == adr(c[i]));
                CHECK(adr(v.template get<i>()) == adr(v[i]));
                CHECK(adr(c.template get<i>()) == adr(v[i]));
                CHECK(adr(get<i>(v)) == adr(v[i]));
                CHECK(adr(get<i>(c)) == adr(v[i]));
                CHECK(v.begin() + i == adr(v[i]));
                CHECK(*(c.cbegin() + i) == m[i]);
            }
        });
        if (n > 0) {
            CHECK(adr(v.front()) == adr(v[0]));
            CHECK(adr(c.front()) == adr(v[0]));
            CHECK(adr(v.back()) == adr(v[n - 1]));
            CHECK(adr(c.back()) == adr(v[n - 1]));
        }
    }
    void reverse() {
        auto const &c = v;
        CHECK(v.rend() - v.rbegin() == static_cast<std::ptrdiff_t>(n));
        CHECK(c.rend() - c.rbegin() == static_cast<std::ptrdiff_t>(n));
        CHECK(c.crend() - c.crbegin() == static_cast<std::ptrdiff_t>(n));
        unroll<N>([&](auto i) {
            if (i < n) {
                CHECK(*(v.rbegin() + i) == m[n - 1 - i]);
                CHECK(*(c.rbegin() + i) == m[n - 1 - i]);
                CHECK(*(c.crbegin() + i) == m[n - 1 - i]);
            }
        });
    }
    void step() {
        auto const op = small(8);
        if (op == 0) {
            if (n < N) {
                auto const x = any<T>();
                auto &&r = v.push_back(x);
                m[n++] = x;
                CHECK(&r == adr(v[n - 1]));
            }
        } else if (op == 1) {
            if (n < N) {
                auto x = any<T>();
                m[n++] = x;
                auto &&r = v.push_back(std::move(x));
                CHECK(&r == adr(v[n - 1]));
            }
        } else if (op == 2) {
            if (n > 0) {
                auto const r = v.pop_back();
                CHECK(r == m[n - 1]);
                --n;
            }
        } else if (op == 3) {
            v.clear();
            n = 0;
        } else if (op == 4) {
            auto const k = small(N + 1);
            auto const fresh = small(N + 1);
            auto const x = any<T>();
            auto const keep = n;
            resize_and_overwrite(v, [&](T *data, std::size_t sz) -> std::size_t {
                CHECK(sz == N);
                CHECK(data == v.begin());
                unroll<N>([&](auto i) {
                    if (i < keep) { CHECK(data[i] == m[i]); }
                    if (i >= fresh) { data[i] = x; }
                });
                return k;
            });
            // what was not overwritten and lay beyond the old size is unspecified
            ASSUME(k <= keep or fresh <= keep);
            unroll<N>([&](auto i) { if (i >= fresh) { m[i] = x; } });
            n = k;
        } else if (op == 5) {
            if (n > 0) {
                auto const i = small(N);
                ASSUME(i < n);
                auto const x = any<T>();
                v[i] = x;
                m[i] = x;
            }
        } else if (op == 6) {
            if (n > 0) {
                auto const x = any<T>();
                v.back() = x;
                m[n - 1] = x;
                auto const y = any<T>();
                v.front() = y;
                m[0] = y;
            }
        } else {
            auto w = v;
            auto x = std::move(v);
            v = {};
            CHECK(v.empty());
            v = x;
            CHECK(v == w);
        }
        same();
    }
    auto arbitrary() -> void {
        n = small(N + 1);
        unroll<N>([&](auto i) {
            if (i < n) {
                m[i] = any<T>();
                v.push_back(m[i]);
            }
        });
        same();
    }
};
template <typename T, std::size_t N, std::size_t Steps> void history() {
    pair<T, N> p{};
    p.same();
    unroll<Steps>([&](auto) { p.step(); });
    p.observe();
    COVER(p.v.full());
    COVER(p.v.empty());
}
template <typename T, std::size_t N> void looks() {
    pair<T, N> p{};
    p.arbitrary();
    p.observe();
    p.reverse();
}
template <typename T, std::size_t N> void from_any() {
    pair<T, N> p{};
    p.arbitrary();
    p.step();
    p.observe();
}
template <typename T, std::size_t N> void equality() {
    pair<T, N> a{};
    pair<T, N> b{};
    a.arbitrary();
    // the storage beyond the size is not part of the value
    if (nd<bool>()) {
        unroll<N>([&](auto) { b.v.push_back(any<T>()); });
        b.v.clear();
    }
    b.arbitrary();
    bool e = a.n == b.n;
    unroll<N>([&](auto i) { e = e and (i >= a.n or a.m[i] == b.m[i]); });
    CHECK((a.v == b.v) == e);
    CHECK((b.v == a.v) == e);
    CHECK((a.v != b.v) == not e);
    CHECK(a.v == a.v);
    COVER(e and a.n == N);
}
} // namespace

#if PART == 1
VP_HARNESS(history_u8_3, 6, q) { history<std::uint8_t, 3, 4>(); }
VP_HARNESS(history_u32_2, 6, q) { history<std::uint32_t, 2, 5>(); }
VP_HARNESS(step_u8_4, 8, q) { from_any<std::uint8_t, 4>(); }
VP_HARNESS(step_u32_5, 8, q) { from_any<std::uint32_t, 5>(); }
VP_HARNESS(step_pair_4, 8, q) { from_any<two_part, 4>(); }
VP_HARNESS(step_u8_1, 8, q) { from_any<std::uint8_t, 1>(); }
VP_HARNESS(equality_u8_4, 8, q) { equality<std::uint8_t, 4>(); }
VP_HARNESS(equality_pair_3, 8, q) { equality<two_part, 3>(); }
VP_HARNESS(equality_u64_2, 8, q) { equality<std::uint64_t, 2>(); }
VP_HARNESS(construct, 8, q) {
    auto const x = nd_array<int, 3>();
    auto v = stdx::cx_vector{x[0], x[1], x[2]};
    CHECK(std::is_same_v<decltype(v), stdx::cx_vector<int, 3>>);
    CHECK(v.size() == 3 and v.full());
    unroll<3>([&](auto i) { CHECK(v[i] == x[i]); });
    auto w = stdx::cx_vector<long, 5>{x[0], x[1]};
    CHECK(w.size() == 2 and not w.full() and not w.empty());
    CHECK(w[0] == x[0] and w[1] == x[1]);
    w.push_back(x[2]);
    CHECK(w.size() == 3 and w.back() == x[2]);
    stdx::cx_vector<int, 4> e{};
    CHECK(e.empty() and e.size() == 0 and not e.full());
    stdx::cx_vector<int, 0> z{};
    CHECK(z.empty() and z.full() and z.size() == 0 and z.begin() == z.end());
}
// more elements than a byte can count
VP_HARNESS(many, 302, q) {
    stdx::cx_vector<std::uint16_t, 300> v{};
    auto const x = nd<std::uint16_t>();
    for (std::uint16_t i = 0; i < 270; ++i) {
        CHECK(v.size() == i and not v.full());
        v.push_back(static_cast<std::uint16_t>(x ^ i));
    }
    CHECK(v.size() == 270 and not v.empty() and not v.full());
    auto const &c = v;
    CHECK(c.end() - c.begin() == 270 and c.rend() - c.rbegin() == 270);
    for (std::size_t i = 0; i < 270; ++i) {
        CHECK(c[i] == (x ^ i));
        CHECK(*(c.begin() + static_cast<std::ptrdiff_t>(i)) == (x ^ i));
        CHECK(*(c.rbegin() + static_cast<std::ptrdiff_t>(i)) == (x ^ (269u - i)));
    }
    CHECK(c.back() == (x ^ 269u));
    CHECK(c.get<269>() == (x ^ 269u));
    auto w = v;
    CHECK(w == v);
    w[265] = static_cast<std::uint16_t>(~w[265]);
    CHECK(not(w == v));
    CHECK(v.pop_back() == (x ^ 269u));
    CHECK(v.size() == 269 and v[256] == (x ^ 256u) and v.back() == (x ^ 268u));
    auto const n = below<std::size_t>(301);
    resize_and_overwrite(v, [&](std::uint16_t *, std::size_t k) -> std::size_t { CHECK(k == 300); return n; });
    CHECK(v.size() == n and v.full() == (n == 300));
    v.clear();
    CHECK(v.empty());
}
#elif PART == 2
VP_HARNESS(looks_u8_4, 8, q) { looks<std::uint8_t, 4>(); }
VP_HARNESS(looks_pair_3, 8, q) { looks<two_part, 3>(); }
#else
VP_HARNESS(long_history_u8_3, 6, t) { history<std::uint8_t, 3, 7>(); }
VP_HARNESS(long_history_pair_4, 6, t) { history<two_part, 4, 6>(); }
#endif

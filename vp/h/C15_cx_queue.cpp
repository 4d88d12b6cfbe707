// cx_queue against the list of everything pushed since the last clear.
// VP-CONFIG a: -std=c++20 -DPART=1
// VP-CONFIG b: -std=c++20 -DPART=2
// VP-CONFIG std23: -std=c++23 -DPART=3
// VP-CONFIG t_c: -std=c++20 -DPART=4
#include "any_value.hpp"
#include "panics.hpp"
#include <stdx/cx_queue.hpp>
using namespace vp;

namespace {
// can only be moved; a moved-from one shows
struct movable {
    std::uint16_t a{};
    movable() = default;
    explicit movable(std::uint16_t x) : a{x} {}
    movable(movable &&o) noexcept : a{std::exchange(o.a, std::uint16_t{0xdead})} {}
    auto operator=(movable &&o) noexcept -> movable & {
        a = std::exchange(o.a, std::uint16_t{0xdead});
        return *this;
    }
};
template <typename T> auto value_of(T const &t) {
    if constexpr (std::is_same_v<T, movable>) { return t.a; } else { return t; }
}

template <typename T, std::size_t N, std::size_t Steps, typename Policy> struct model {
    using q_t = stdx::cx_queue<T, N, Policy>;
    q_t &q;
    using v_t = decltype(value_of(std::declval<T const &>()));
    std::array<v_t, Steps> log{};
    std::size_t in{};
    std::size_t out{};

    auto held() const { return in - out; }
    void same() {
        auto const &c = q;
        CHECK(c.size() == held());
        CHECK(c.empty() == (held() == 0));
        CHECK(c.full() == (held() == N));
        if (held() > 0) {
            CHECK(value_of(c.front()) == log[out]);
            CHECK(value_of(c.back()) == log[in - 1]);
            CHECK(adr(q.front()) == adr(c.front()));
            CHECK(adr(q.back()) == adr(c.back()));
        }
    }
    void push(bool moved) {
        if (held() < N) {
            if constexpr (std::is_same_v<T, movable>) {
                movable v{nd<std::uint16_t>()};
                log[in++] = v.a;
                auto &&r = q.push(std::move(v));
                CHECK(&r == adr(q.back()));
            } else {
                auto v = any<T>();
                log[in++] = v;
                if (moved) {
                    auto &&r = q.push(std::move(v));
                    CHECK(&r == adr(q.back()));
                } else {
                    T const k = v;
                    auto &&r = q.push(k);
                    CHECK(&r == adr(q.back()));
                    CHECK(k == v);
                }
            }
        }
    }
    void pop() {
        if (held() > 0) {
            auto const v = q.pop();
            CHECK(value_of(v) == log[out]);
            ++out;
        }
    }
    void clear() {
        q.clear();
        out = in;
    }
    void write() { // through the references
        if (held() > 0) {
            if constexpr (not std::is_same_v<T, movable>) {
                log[out] = any<T>();
                q.front() = log[out];
                log[in - 1] = any<T>();
                q.back() = log[in - 1];
            }
        }
    }
    void step() {
        auto const op = small(5);
        if (op == 0) { push(false); }
        else if (op == 1) { push(true); }
        else if (op == 2) { pop(); }
        else if (op == 3) { clear(); }
        else { write(); }
        same();
    }
};
template <typename T, std::size_t N, std::size_t Steps, typename P = stdx::safe_overflow_policy> void history() {
    stdx::cx_queue<T, N, P> q{};
    model<T, N, Steps, P> m{q};
    m.same();
    unroll<Steps>([&](auto) { m.step(); });
    CHECK(panics == 0);
    COVER(m.in > N and m.held() == N);
}
// starting anywhere in the buffer: R elements pushed and popped, then C held
template <typename T, std::size_t N, typename P = stdx::safe_overflow_policy> void anywhere() {
    stdx::cx_queue<T, N, P> q{};
    model<T, N, 3 * N + 2, P> m{q};
    auto const turned = small(N + 1);
    auto const held = small(N + 1);
    unroll<N>([&](auto i) {
        if (i < turned) { m.push(true); m.pop(); }
    });
    unroll<N>([&](auto i) {
        if (i < held) { m.push(false); }
    });
    m.same();
    auto const op = small(5);
    if (op == 0) { m.push(false); }
    else if (op == 1) { m.push(true); }
    else if (op == 2) { m.pop(); }
    else if (op == 3) { m.clear(); }
    else { m.write(); }
    m.same();
    unroll<N>([&](auto) { m.pop(); });
    m.same();
    CHECK(m.held() == 0);
    m.push(true);
    m.same();
    CHECK(panics == 0);
    CHECK(q.capacity() == N);
    CHECK(stdx::ct_capacity_v<decltype(q)> == N);
    COVER(turned == N / 2 and held == N);
}
// more elements than a byte can count, going round the end of the buffer
template <typename P> void many() {
    stdx::cx_queue<std::uint16_t, 280, P> q{};
    auto const x = nd<std::uint16_t>();
    std::uint16_t in{};
    std::uint16_t out{};
    auto const push = [&] {
        q.push(static_cast<std::uint16_t>(x ^ in));
        ++in;
        CHECK(q.size() == static_cast<std::size_t>(in - out));
        CHECK(q.full() == (in - out == 280));
    };
    auto const pop = [&] {
        CHECK(q.pop() == (x ^ out));
        ++out;
    };
    for (unsigned i = 0; i < 280; ++i) { push(); }
    CHECK(q.front() == x and q.back() == (x ^ 279u));
    for (unsigned i = 0; i < 265; ++i) { pop(); }
    CHECK(q.size() == 15 and q.front() == (x ^ 265u));
    for (unsigned i = 0; i < 260; ++i) { push(); }
    CHECK(q.size() == 275 and q.front() == (x ^ 265u) and q.back() == (x ^ 539u));
    for (unsigned i = 0; i < 275; ++i) { pop(); }
    CHECK(q.empty() and panics == 0);
}
using unsafe = stdx::unsafe_overflow_policy;
} // namespace

#if PART == 1
VP_HARNESS(history_1, 1, q) { history<std::uint8_t, 1, 4>(); }
VP_HARNESS(history_2, 1, q) { history<std::uint16_t, 2, 6>(); }
VP_HARNESS(history_3, 1, q) { history<std::uint8_t, 3, 5>(); }
VP_HARNESS(history_2_movable, 1, q) { history<movable, 2, 6, unsafe>(); }
#elif PART == 2
VP_HARNESS(anywhere_1, 1, q) { anywhere<std::uint64_t, 1>(); }
VP_HARNESS(anywhere_2, 1, q) { anywhere<std::uint16_t, 2>(); }
VP_HARNESS(anywhere_3, 1, q) { anywhere<std::uint32_t, 3>(); }
VP_HARNESS(anywhere_4, 1, q) { anywhere<std::uint8_t, 4>(); }
VP_HARNESS(anywhere_5, 1, q) { anywhere<std::uint16_t, 5>(); }
VP_HARNESS(anywhere_3_movable, 1, q) { anywhere<movable, 3>(); }
VP_HARNESS(anywhere_4_unsafe, 1, q) { anywhere<std::uint8_t, 4, unsafe>(); }
VP_HARNESS(many, 300, q) { many<stdx::safe_overflow_policy>(); }
#elif PART == 3
VP_HARNESS(anywhere_3_23, 1, q) { anywhere<std::uint8_t, 3>(); }
#else
VP_HARNESS(anywhere_2_two_part, 1, t) { anywhere<two_part, 2>(); }
VP_HARNESS(long_history_3, 1, t) { history<std::uint16_t, 3, 12>(); }
VP_HARNESS(long_history_4, 1, t) { history<std::uint8_t, 4, 12>(); }
VP_HARNESS(anywhere_8, 1, t) { anywhere<std::uint8_t, 8>(); }
#endif

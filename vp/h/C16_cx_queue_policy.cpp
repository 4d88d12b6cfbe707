// When cx_queue asks its overflow policy, and when it panics.
// VP-CONFIG a: -std=c++20 -DPART=1
// VP-CONFIG b: -std=c++20 -DPART=2
// VP-CONFIG std23: -std=c++23 -DPART=3
#include "any_value.hpp"
#include "panics.hpp"
#include <stdx/cx_queue.hpp>
using namespace vp;

namespace {
unsigned pushes{};
unsigned pops{};
std::size_t told_size{};
std::size_t told_capacity{};
bool unchanged{true};
bool looking{};                // the policy itself is reading the queue
bool (*as_before)(){};

void look() {
    if (as_before != nullptr) {
        looking = true;
        unchanged = unchanged and as_before();
        looking = false;
    }
}
struct recording_policy {
    static auto check_push(std::size_t size, std::size_t capacity) {
        ++pushes;
        told_size = size;
        told_capacity = capacity;
        look();
    }
    static auto check_pop(std::size_t size) {
        if (not looking) {
            ++pops;
            told_size = size;
            look();
        }
    }
};

// a queue starting anywhere in its buffer, and what it held before the operation
template <typename T, std::size_t N, typename P> struct fixture {
    using q_t = stdx::cx_queue<T, N, P>;
    static inline q_t q{};
    static inline std::size_t n{};
    static inline T first{};
    static inline T last{};

    static auto same() -> bool {
        q_t const &c = q;
        return c.size() == n and c.empty() == (n == 0) and c.full() == (n == N) and
               (n == 0 or (c.front() == first and c.back() == last));
    }
    static void start() {
        auto const turned = small(N + 1);
        auto const held = small(N + 1);
        unroll<N>([&](auto i) {
            if (i < turned) {
                q.push(any<T>());
                (void)q.pop();
            }
        });
        unroll<N>([&](auto i) {
            if (i < held) { q.push(any<T>()); }
        });
        n = held;
        if (n > 0) {
            first = q.front();
            last = q.back();
        }
        CHECK(panics == 0);
        pushes = pops = 0;
    }
};

enum op { push_copy, push_move, pop, front, back, front_const, back_const };
template <op O, typename Q, typename T> void perform(Q &q, T v) {
    Q const &c = q;
    if constexpr (O == push_copy) { T const k = v; q.push(k); }
    else if constexpr (O == push_move) { q.push(std::move(v)); }
    else if constexpr (O == pop) { (void)q.pop(); }
    else if constexpr (O == front) { (void)q.front(); }
    else if constexpr (O == back) { (void)q.back(); }
    else if constexpr (O == front_const) { (void)c.front(); }
    else { (void)c.back(); }
}
template <op O> constexpr bool is_push = O == push_copy or O == push_move;

template <typename T, std::size_t N, op O> void asks() {
    using F = fixture<T, N, recording_policy>;
    F::start();
    as_before = F::same;
    if (is_push<O> ? F::n < N : F::n > 0) {
        perform<O>(F::q, any<T>());
        CHECK(unchanged);
        CHECK(pushes == (is_push<O> ? 1u : 0u));
        CHECK(pops == (is_push<O> ? 0u : 1u));
        CHECK(told_size == F::n);
        if (is_push<O>) { CHECK(told_capacity == N); }
        CHECK(panics == 0);
    }
    // the others do not ask
    pushes = pops = 0;
    (void)F::q.size();
    (void)F::q.empty();
    (void)F::q.full();
    (void)F::q.capacity();
    F::q.clear();
    CHECK(pushes == 0 and pops == 0);
    COVER(F::n == 1);
}
// a policy that does not come back, as it should not: the queue must not have been touched before
template <typename T, std::size_t N, op O> void asks_outside() {
    using F = fixture<T, N, recording_policy>;
    F::start();
    as_before = F::same;
    ASSUME(is_push<O> ? F::n == N : F::n == 0);
    perform<O>(F::q, any<T>());
    CHECK(unchanged);
    CHECK(pushes == (is_push<O> ? 1u : 0u));
    CHECK(pops == (is_push<O> ? 0u : 1u));
    CHECK(told_size == F::n);
    if (is_push<O>) { CHECK(told_capacity == N); }
}
template <typename T, std::size_t N, op O> void panicking() {
    using F = fixture<T, N, stdx::safe_overflow_policy>;
    F::start();
    static bool in_handler{};
    on_panic = [] {
        if (not in_handler) {
            in_handler = true;
            auto const before = panics;
            unchanged = F::same();
            panics = before;
            in_handler = false;
        }
    };
    bool const outside = is_push<O> ? F::n == N : F::n == 0;
    perform<O>(F::q, any<T>());
    CHECK(panics == (outside ? 1u : 0u));
    CHECK(unchanged);
    COVER(outside);
    COVER(not outside);
}
template <typename T, std::size_t N, op O> void unsafe() {
    using F = fixture<T, N, stdx::unsafe_overflow_policy>;
    F::start();
    ASSUME(is_push<O> ? F::n < N : F::n > 0);
    perform<O>(F::q, any<T>());
    CHECK(panics == 0);
}
} // namespace

#define EACH(NAME, ...)                                                                \
    VP_HARNESS(push_copy_##NAME, 1, q) { __VA_ARGS__, push_copy>(); }                  \
    VP_HARNESS(push_move_##NAME, 1, q) { __VA_ARGS__, push_move>(); }                  \
    VP_HARNESS(pop_##NAME, 1, q) { __VA_ARGS__, pop>(); }                              \
    VP_HARNESS(front_##NAME, 1, q) { __VA_ARGS__, front>(); }                          \
    VP_HARNESS(back_##NAME, 1, q) { __VA_ARGS__, back>(); }                            \
    VP_HARNESS(front_const_##NAME, 1, q) { __VA_ARGS__, front_const>(); }              \
    VP_HARNESS(back_const_##NAME, 1, q) { __VA_ARGS__, back_const>(); }
#if PART == 1
EACH(asks_1, asks<std::uint8_t, 1)
EACH(asks_3, asks<std::uint16_t, 3)
EACH(panic_1, panicking<std::uint8_t, 1)
EACH(panic_2, panicking<std::uint16_t, 2)
EACH(panic_4, panicking<std::uint8_t, 4)
#elif PART == 2
EACH(outside_1, asks_outside<std::uint8_t, 1)
EACH(outside_3, asks_outside<std::uint16_t, 3)
EACH(unsafe_3, unsafe<std::uint8_t, 3)
EACH(panic_2_two_part, panicking<two_part, 2)
#else
EACH(panic_3, panicking<std::uint8_t, 3)
EACH(asks_2, asks<std::uint8_t, 2)
#endif

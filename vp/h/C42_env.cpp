// Environments: every history of at most DEPTH extensions and appends over three (two for the longest histories) queries is
// built; the solver picks the history, the query and the default and compares the answer with
// a model that replays the history.
// VP-CONFIG a: -std=c++20 -DDEPTH=2
// VP-CONFIG std23: -std=c++23 -DDEPTH=2
// VP-CONFIG ops: -std=c++20 -DDEPTH=1
// VP-CONFIG t_deep: -std=c++20 -DDEPTH=3 -fbracket-depth=4096
#include "vp.hpp"
#include <stdx/ct_string.hpp>
#include <stdx/env.hpp>
using namespace vp;
using namespace stdx::literals;
using u8 = std::uint8_t;
using u16 = std::uint16_t;

namespace {
// a question without an answer of its own
template <int N> struct ask_t {
    template <typename T>
    [[nodiscard]] consteval auto operator()(T &&t) const noexcept -> decltype(static_cast<T &&>(t).query(*this)) {
        return static_cast<T &&>(t).query(*this);
    }
};
template <int N> constexpr auto ask = ask_t<N>{};
// a question that has one
template <int N> struct ask_or_t {
    template <typename T>
        requires true
    [[nodiscard]] consteval auto operator()(T &&t) const noexcept -> decltype(static_cast<T &&>(t).query(*this)) {
        return static_cast<T &&>(t).query(*this);
    }
    [[nodiscard]] consteval auto operator()(auto &&) const { return 900 + N; }
};
template <int N> constexpr auto ask_or = ask_or_t<N>{};

constexpr int queries = DEPTH < 3 ? 3 : 2;
constexpr int ops = 4;
constexpr int steps_of = queries * ops;
constexpr auto value_of(int step, int code, int k) -> int { return 100 * (step + 1) + 2 * code + k; }

template <int Step, int Code, typename E> struct apply_step {
    constexpr static int q = Code % queries;
    constexpr static int other = (q + 1) % queries;
    constexpr static int op = Code / queries;
    constexpr static int v = value_of(Step, Code, 0);
    constexpr static int w = value_of(Step, Code, 1);
    template <int Op> static auto result() {
        if constexpr (Op == 0) {
            return stdx::extend_env_t<E, ask<q>, v>{};
        } else if constexpr (Op == 1) {
            return stdx::extend_env_t<E, ask<q>, v, ask<other>, w>{};
        } else if constexpr (Op == 2) {
            return stdx::append_env_t<E, stdx::make_env_t<ask<q>, v, ask<other>, w>>{};
        } else {
            return stdx::append_env_t<stdx::make_env_t<ask<q>, v>, E>{};
        }
    }
    using type = decltype(result<op>());
};
template <int Step, int K, typename E> struct history {
    using type = typename history<Step + 1, K / steps_of, typename apply_step<Step, K % steps_of, E>::type>::type;
};
template <int K, typename E> struct history<DEPTH, K, E> {
    using type = E;
};
constexpr int power(int b, int e) { return e == 0 ? 1 : b * power(b, e - 1); }
constexpr int all = power(steps_of, DEPTH);

struct answers {
    bool has[queries]{};
    int value[queries]{};
    void give(int q, int v) {
        unroll<queries>([&](auto i) {
            if (static_cast<int>(i()) == q) {
                has[i] = true;
                value[i] = v;
            }
        });
    }
    void offer(int q, int v) {
        unroll<queries>([&](auto i) {
            if (static_cast<int>(i()) == q and not has[i]) {
                has[i] = true;
                value[i] = v;
            }
        });
    }
    void step(int s, int code) {
        int const q = code % queries;
        int const other = q == queries - 1 ? 0 : q + 1;
        int const op = code / queries;
        int const v = value_of(s, code, 0);
        int const w = value_of(s, code, 1);
        if (op == 3) {
            offer(q, v);
            return;
        }
        give(q, v);
        if (op != 0) { give(other, w); }
    }
};
template <typename Start> void histories(answers m) {
    auto const k = static_cast<int>(below<u16>(all));
    auto const d = nd<int>();
    int got[queries]{};
    unroll<all>([&](auto i) {
        if (k == static_cast<int>(i())) {
            using E = typename history<0, static_cast<int>(i()), Start>::type;
            unroll<queries>([&](auto q) { got[q] = stdx::query<E>(ask<static_cast<int>(q())>, d); });
        }
    });
    int rest = k;
    unroll<DEPTH>([&](auto s) {
        m.step(s(), rest % steps_of);
        rest /= steps_of;
    });
    unroll<queries>([&](auto q) { CHECK(got[q] == (m.has[q] ? m.value[q] : d)); });
    COVER(m.has[queries - 1] and m.has[0]);
    COVER(not m.has[0]);
}
} // namespace
VP_HARNESS(histories_empty, 2, q) { histories<stdx::env<>>({}); }
#if DEPTH < 3
VP_HARNESS(histories_one, 2, q) {
    answers m{};
    m.give(1, 7);
    histories<stdx::make_env_t<ask<1>, 7>>(m);
}
#endif
#if DEPTH == 1
// many answers given at once, over many given before
VP_HARNESS(many, 2, q) {
    using E = stdx::make_env_t<ask<0>, 20, ask<1>, 21, ask<2>, 22, ask<3>, 23, ask<4>, 24, ask<5>, 25, ask<6>, 26, ask<7>, 27, ask<8>, 28, ask<9>, 29>;
    using F = stdx::extend_env_t<E, ask<9>, 39, ask<7>, 37, ask<10>, 40, ask<3>, 33, ask<1>, 31, ask<11>, 41, ask<5>, 35, ask<12>, 42>;
    using G = stdx::append_env_t<E, stdx::make_env_t<ask<8>, 58>, stdx::make_env_t<ask<8>, 68, ask<2>, 62>, stdx::make_env_t<ask<2>, 72, ask<13>, 73>, stdx::make_env_t<ask<0>, 80>>;
    auto const k = below<u8>(14);
    auto const d = nd<int>();
    unroll<14>([&](auto i) {
        if (k == i()) {
            constexpr auto q = ask<static_cast<int>(i())>;
            constexpr int n = static_cast<int>(i());
            CHECK(stdx::query<E>(q, d) == (n < 10 ? 20 + n : d));
            CHECK(stdx::query<F>(q, d) == (n == 13 ? d : n >= 9 or n == 1 or n == 3 or n == 5 or n == 7 ? 30 + n : 20 + n));
            CHECK(stdx::query<G>(q, d) == (n == 8 ? 68 : n == 2 ? 72 : n == 13 ? 73 : n == 0 ? 80 : n < 10 ? 20 + n : d));
        }
    });
}
// a default is returned exactly when there is no answer, as the object it is
VP_HARNESS(defaults, 2, q) {
    using E = stdx::make_env_t<ask<0>, 17, ask<1>, 18u>;
    auto a = nd<u16>();
    auto b = nd<int>();
    CHECK(stdx::query<E>(ask<0>) == 17);
    CHECK(stdx::query<E>(ask<1>) == 18u);
    CHECK(stdx::query<E>(ask<0>, a) == 17);
    CHECK(stdx::query<E>(ask<1>, b) == 18u);
    CHECK(stdx::query<E>(ask<2>, b) == b);
    CHECK(stdx::query<E>(ask<2>, a) == a);
    CHECK(stdx::query<E>(ask<2>, u16{a}) == a);
    CHECK(stdx::query<stdx::env<>>(ask<0>, a) == a);
    if constexpr (std::is_same_v<decltype(stdx::query<E>(ask<2>, a)), u16 &>) {
        CHECK(adr(stdx::query<E>(ask<2>, a)) == &a);
    } else {
        CHECK(false);
    }
    // a question with an answer of its own needs no default
    CHECK(stdx::query<E>(ask_or<5>) == 905);
    CHECK(stdx::query<E>(ask_or<5>, b) == 905);
    CHECK(stdx::query<stdx::env<>>(ask_or<6>) == 906);
    using F = stdx::extend_env_t<E, ask_or<5>, 19>;
    CHECK(stdx::query<F>(ask_or<5>) == 19);
    CHECK(stdx::query<F>(ask_or<6>) == 906);
    CHECK(stdx::query<F>(ask<0>, b) == 17);
    CHECK(ask_or<5>(F{}) == 19);
    CHECK(ask<1>(F{}) == 18u);
    using G = stdx::make_env_t<ask_or<5>, 20, ask_or<6>, 21>;
    CHECK(stdx::query<stdx::env<E, G>>(ask_or<5>) == 20);
    CHECK(stdx::query<stdx::env<E, stdx::env<>, G>>(ask_or<6>, b) == 21);
    CHECK(stdx::query<stdx::env<F, G>>(ask_or<5>, b) == 19);
    CHECK(stdx::query<stdx::append_env_t<F, G>>(ask_or<5>, b) == 20);
    CHECK(stdx::query<stdx::append_env_t<G, F>>(ask_or<5>, b) == 19);
    CHECK(stdx::query<stdx::append_env_t<G, F>>(ask_or<7>, b) == 907);
}
// values of every kind
VP_HARNESS(kinds, 8, q) {
    using E = stdx::make_env_t<ask<0>, "hello", ask<1>, u8{200}, ask<2>, true, ask<3>, 'x', ask<4>, -1L>;
    auto const d = nd<int>();
    auto const s = stdx::query<E>(ask<0>);
    CHECK(s.size() == 5);
    CHECK(s.value[0] == 'h' and s.value[1] == 'e' and s.value[2] == 'l' and s.value[3] == 'l' and s.value[4] == 'o');
    CHECK(stdx::query<E>(ask<1>, d) == 200);
    CHECK(stdx::query<E>(ask<2>, d) == true);
    CHECK(stdx::query<E>(ask<3>, d) == 'x');
    CHECK(stdx::query<E>(ask<4>, d) == -1);
    CHECK(std::is_same_v<decltype(stdx::query<E>(ask<1>)), u8>);
    CHECK(std::is_same_v<decltype(stdx::query<E>(ask<2>)), bool>);
    CHECK(std::is_same_v<decltype(stdx::query<E>(ask<3>)), char>);
    CHECK(std::is_same_v<decltype(stdx::query<E>(ask<4>)), long>);
    using F = stdx::extend_env_t<E, ask<1>, "yes", ask<0>, 5>;
    CHECK(stdx::query<F>(ask<0>, d) == 5);
    CHECK(stdx::query<F>(ask<1>).size() == 3);
    CHECK(stdx::query<F>(ask<1>).value[0] == 'y' and stdx::query<F>(ask<1>).value[2] == 's');
    CHECK(stdx::query<F>(ask<4>, d) == -1);
    CHECK(stdx::query<F>(ask<5>, d) == d);
}
// environments of environments, and appending many
VP_HARNESS(joined, 2, q) {
    auto const d = nd<int>();
    using A = stdx::make_env_t<ask<0>, 1, ask<1>, 2>;
    using B = stdx::make_env_t<ask<1>, 3, ask<2>, 4>;
    using C = stdx::make_env_t<ask<2>, 5, ask<3>, 6, ask<0>, 7>;
    auto answer = [&]<typename E>(E, int a, int b, int c, int e) {
        CHECK(stdx::query<E>(ask<0>, d) == a);
        CHECK(stdx::query<E>(ask<1>, d) == b);
        CHECK(stdx::query<E>(ask<2>, d) == c);
        CHECK(stdx::query<E>(ask<3>, d) == e);
        CHECK(stdx::query<E>(ask<4>, d) == d);
    };
    answer(stdx::append_env_t<A>{}, 1, 2, d, d);
    answer(stdx::append_env_t<A, B>{}, 1, 3, 4, d);
    answer(stdx::append_env_t<B, A>{}, 1, 2, 4, d);
    answer(stdx::append_env_t<A, B, C>{}, 7, 3, 5, 6);
    answer(stdx::append_env_t<C, B, A>{}, 1, 2, 4, 6);
    answer(stdx::append_env_t<B, C, A>{}, 1, 2, 5, 6);
    answer(stdx::append_env_t<A, B, A>{}, 1, 2, 4, d);
    answer(stdx::append_env_t<stdx::append_env_t<A, B>, C>{}, 7, 3, 5, 6);
    answer(stdx::append_env_t<A, stdx::append_env_t<B, C>>{}, 7, 3, 5, 6);
    answer(stdx::append_env_t<stdx::env<>, A, stdx::env<>>{}, 1, 2, d, d);
    answer(stdx::extend_env_t<stdx::append_env_t<A, B>, ask<0>, 8, ask<3>, 9>{}, 8, 3, 4, 9);
    // written out, the first that answers wins
    answer(stdx::env<A, B, C>{}, 1, 2, 4, 6);
    answer(stdx::env<B, A>{}, 1, 3, 4, d);
    answer(stdx::env<stdx::env<>, stdx::env<C>, A>{}, 7, 2, 5, 6);
}
#endif

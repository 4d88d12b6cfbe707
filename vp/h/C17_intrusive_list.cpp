// intrusive_list against the sequence of nodes it should hold.
// VP-CONFIG a: -std=c++20 -DPART=1
// VP-CONFIG b: -std=c++20 -DPART=2
// VP-CONFIG std23: -std=c++23 -DPART=3
// VP-CONFIG t_c: -std=c++20 -DPART=4
#include "list_model.hpp"
using namespace vp;
using stdx::node_policy::checked;
using stdx::node_policy::unchecked;

namespace {
template <template <typename> typename P> constexpr bool is_checked = std::is_same_v<P<dnode>, checked<dnode>>;

enum op { push_front, push_back, insert, taking_out, pop_front, pop_back, clear };
template <op O, typename M> void perform(M &m, dnode *x) {
    auto &l = m.l;
    if constexpr (O == push_front) {
        l.push_front(x);
        m.insert_at(0, x);
    } else if constexpr (O == push_back) {
        l.push_back(x);
        m.insert_at(m.n, x);
    } else if constexpr (O == insert) {
        auto const pos = small(8);
        ASSUME(pos <= m.n);
        if (pos == m.n) {
            l.insert(l.end(), x);
        } else {
            l.insert(m.iterator_at(pos), x);
        }
        m.insert_at(pos, x);
    } else if constexpr (O == taking_out) {
        auto const pos = small(8);
        ASSUME(pos < m.n);
        l.remove(m.seq[pos]);
        m.remove_at(pos);
    } else if constexpr (O == pop_front) {
        auto *r = l.pop_front();
        CHECK(r == m.seq[0]);
        m.remove_at(0);
    } else if constexpr (O == pop_back) {
        auto *r = l.pop_back();
        CHECK(r == m.seq[m.n - 1]);
        m.remove_at(m.n - 1);
    } else {
        l.clear();
        m.n = 0;
    }
}
// C nodes in the list, the others outside it; what the others' links hold is arbitrary
// (nothing for the one handed to a checking list)
template <template <typename> typename P, std::size_t M, std::size_t C, typename Op> void from(Op op) {
    std::array<dnode, M> nodes{};
    stdx::intrusive_list<dnode, P> l{};
    lists<dnode, P, M> m{l, nodes};
    unroll<M>([&](auto i) { nodes[i].id = nd<std::uint8_t>(); });
    unroll<C>([&](auto i) {
        if constexpr (not is_checked<P>) { m.scramble(nodes[i]); }
        l.push_back(&nodes[i]);
        m.insert_at(i, &nodes[i]);
    });
    m.same();
    unroll<M>([&](auto i) {
        if constexpr (i >= C and (i > C or not is_checked<P>)) { m.scramble(nodes[i]); }
    });
    std::array<bool, M> in_before{};
    unroll<C>([&](auto i) { in_before[i] = true; });
    untouched<dnode, M> u{nodes};
    dnode *fresh = nullptr;
    if constexpr (C < M) { fresh = &nodes[C]; }
    op(m, fresh);
    m.same();
    u.check(m, in_before);
    // an emptied list starts over
    if constexpr (C > 0) {
        if (m.n == 0) {
            if (vp_bool()) { perform<push_front>(m, &nodes[0]); } else { perform<push_back>(m, &nodes[0]); }
            m.same();
        }
    }
    CHECK(panics == 0);
}
// any operation that is possible
template <typename M> void step(M &m) {
    dnode *x = m.outside();
    auto const o = small(7);
    if (o == 0) { if (x != nullptr) { perform<push_front>(m, x); } }
    else if (o == 1) { if (x != nullptr) { perform<push_back>(m, x); } }
    else if (o == 2) { if (x != nullptr) { perform<insert>(m, x); } }
    else if (o == 3) { if (m.n > 0) { perform<taking_out>(m, x); } }
    else if (o == 4) { if (m.n > 0) { perform<pop_front>(m, x); } }
    else if (o == 5) { if (m.n > 0) { perform<pop_back>(m, x); } }
    else { perform<clear>(m, x); }
    m.same();
}
template <template <typename> typename P, std::size_t M, std::size_t Steps> void history() {
    std::array<dnode, M> nodes{};
    stdx::intrusive_list<dnode, P> l{};
    lists<dnode, P, M> m{l, nodes};
    m.same();
    unroll<Steps>([&](auto) { step(m); });
    CHECK(panics == 0);
    COVER(m.n == 2);
}
// a longer list, changed at each of its places
template <template <typename> typename P, std::size_t N, int what> void longer() {
    auto const chosen = small(N);
    for (std::size_t at{}; at < N; ++at) {
        if (at != chosen) { continue; }
        std::array<dnode, N + 1> nodes{};
        stdx::intrusive_list<dnode, P> l{};
        for (std::size_t i{}; i < N; ++i) { l.push_back(&nodes[i]); }
        std::array<std::uint8_t, N + 1> order{};
        std::size_t n{};
        for (std::size_t i{}; i < N; ++i) {
            if (what == 0 and i == at) { order[n++] = N; }
            if (what != 1 or i != at) { order[n++] = static_cast<std::uint8_t>(i); }
        }
        if (what == 0) {
            auto it = l.begin();
            for (std::size_t i{}; i < at; ++i) { ++it; }
            l.insert(it, &nodes[N]);
        } else if (what == 1) {
            l.remove(&nodes[at]);
        } else if (what == 2) {
            for (std::size_t i{}; i < at; ++i) { CHECK(l.pop_front() == &nodes[i]); --n; }
            for (std::size_t i{}; i < n; ++i) { order[i] = static_cast<std::uint8_t>(i + at); }
        } else {
            for (std::size_t i{}; i < at; ++i) { CHECK(l.pop_back() == &nodes[N - 1 - i]); --n; }
        }
        std::size_t k{};
        for (auto &x : l) {
            CHECK(k < n and &x == &nodes[order[k]]);
            CHECK(x.prev == (k == 0 ? nullptr : &nodes[order[k - 1]]));
            ++k;
        }
        CHECK(k == n);
        CHECK(l.empty() == (n == 0));
        if (n > 0) { CHECK(&l.front() == &nodes[order[0]] and &l.back() == &nodes[order[n - 1]]); }
    }
    CHECK(panics == 0);
}
} // namespace

#define GROWING(NAME, ...)                                                                                             \
    VP_HARNESS(push_front_##NAME, 6, q) { from<__VA_ARGS__>([](auto &m, dnode *x) { perform<push_front>(m, x); }); }   \
    VP_HARNESS(push_back_##NAME, 6, q) { from<__VA_ARGS__>([](auto &m, dnode *x) { perform<push_back>(m, x); }); }     \
    VP_HARNESS(insert_##NAME, 6, q) { from<__VA_ARGS__>([](auto &m, dnode *x) { perform<insert>(m, x); }); }
#define SHRINKING(NAME, ...)                                                                                           \
    VP_HARNESS(remove_##NAME, 6, q) { from<__VA_ARGS__>([](auto &m, dnode *x) { perform<taking_out>(m, x); }); }           \
    VP_HARNESS(pop_front_##NAME, 6, q) { from<__VA_ARGS__>([](auto &m, dnode *x) { perform<pop_front>(m, x); }); }     \
    VP_HARNESS(pop_back_##NAME, 6, q) { from<__VA_ARGS__>([](auto &m, dnode *x) { perform<pop_back>(m, x); }); }       \
    VP_HARNESS(clear_##NAME, 6, q) { from<__VA_ARGS__>([](auto &m, dnode *x) { perform<clear>(m, x); }); }

#if PART == 1
GROWING(0_checked, checked, 2, 0)
GROWING(1_checked, checked, 3, 1)
GROWING(2_checked, checked, 4, 2)
GROWING(3_checked, checked, 5, 3)
SHRINKING(1_checked, checked, 2, 1)
SHRINKING(2_checked, checked, 3, 2)
SHRINKING(3_checked, checked, 4, 3)
SHRINKING(4_checked, checked, 4, 4)
VP_HARNESS(history_checked, 4, q) { history<checked, 3, 3>(); }
#elif PART == 2
GROWING(0_unchecked, unchecked, 2, 0)
GROWING(1_unchecked, unchecked, 3, 1)
GROWING(2_unchecked, unchecked, 4, 2)
GROWING(3_unchecked, unchecked, 5, 3)
SHRINKING(1_unchecked, unchecked, 2, 1)
SHRINKING(2_unchecked, unchecked, 3, 2)
SHRINKING(3_unchecked, unchecked, 4, 3)
SHRINKING(4_unchecked, unchecked, 4, 4)
VP_HARNESS(history_unchecked, 4, q) { history<unchecked, 3, 3>(); }
#elif PART == 3
#define LONGER(P)                                              \
    VP_HARNESS(longer_insert_##P, 12, q) { longer<P, 9, 0>(); }    \
    VP_HARNESS(longer_remove_##P, 12, q) { longer<P, 9, 1>(); }    \
    VP_HARNESS(longer_pop_front_##P, 12, q) { longer<P, 9, 2>(); } \
    VP_HARNESS(longer_pop_back_##P, 12, q) { longer<P, 9, 3>(); }
LONGER(checked)
LONGER(unchecked)
GROWING(2_checked_23, checked, 3, 2)
SHRINKING(2_checked_23, checked, 3, 2)
#else
VP_HARNESS(longer_history_checked, 4, t) { history<checked, 3, 4>(); }
VP_HARNESS(longer_history_unchecked, 4, t) { history<unchecked, 3, 4>(); }
VP_HARNESS(long_history_checked, 5, t) { history<checked, 4, 6>(); }
VP_HARNESS(long_history_unchecked, 5, t) { history<unchecked, 4, 6>(); }
GROWING(5_checked, checked, 6, 5)
SHRINKING(5_checked, checked, 6, 5)
GROWING(5_unchecked, unchecked, 6, 5)
SHRINKING(5_unchecked, unchecked, 6, 5)
#endif

// intrusive_forward_list against the sequence of nodes it should hold.
// VP-CONFIG a: -std=c++20 -DPART=1
// VP-CONFIG std23: -std=c++23 -DPART=2
// VP-CONFIG t_c: -std=c++20 -DPART=3
#include "list_model.hpp"
using namespace vp;
using stdx::node_policy::checked;
using stdx::node_policy::unchecked;

namespace {
template <template <typename> typename P, typename N> constexpr bool is_checked = std::is_same_v<P<N>, checked<N>>;

enum op { push_front, push_back, pop_front, clear };
template <op O, typename M, typename N> void perform(M &m, N *x) {
    auto &l = m.l;
    if constexpr (O == push_front) {
        l.push_front(x);
        m.insert_at(0, x);
    } else if constexpr (O == push_back) {
        l.push_back(x);
        m.insert_at(m.n, x);
    } else if constexpr (O == pop_front) {
        auto *r = l.pop_front();
        CHECK(r == m.seq[0]);
        m.remove_at(0);
    } else {
        l.clear();
        m.n = 0;
    }
}
template <template <typename> typename P, std::size_t M, std::size_t C, op O> void from() {
    std::array<snode, M> nodes{};
    stdx::intrusive_forward_list<snode, P> l{};
    lists<snode, P, M> m{l, nodes};
    unroll<M>([&](auto i) { nodes[i].id = nd<std::uint8_t>(); });
    unroll<C>([&](auto i) {
        if constexpr (not is_checked<P, snode>) { m.scramble(nodes[i]); }
        if constexpr (i < C / 2) {
            l.push_front(&nodes[i]);
            m.insert_at(0, &nodes[i]);
        } else {
            l.push_back(&nodes[i]);
            m.insert_at(i, &nodes[i]);
        }
    });
    m.same();
    unroll<M>([&](auto i) {
        if constexpr (i >= C and (i > C or not is_checked<P, snode>)) { m.scramble(nodes[i]); }
    });
    std::array<bool, M> in_before{};
    unroll<C>([&](auto i) { in_before[i] = true; });
    untouched<snode, M> u{nodes};
    snode *fresh = nullptr;
    if constexpr (C < M) { fresh = &nodes[C]; }
    perform<O>(m, fresh);
    m.same();
    u.check(m, in_before);
    // an emptied list starts over
    if constexpr (C > 0) {
        if (m.n == 0) {
            if (vp_bool()) { perform<push_front>(m, &nodes[0]); } else { perform<push_back>(m, &nodes[0]); }
            m.same();
        }
    }
    CHECK(panics == 0);
}
template <template <typename> typename P, std::size_t M, std::size_t Steps> void history() {
    std::array<snode, M> nodes{};
    stdx::intrusive_forward_list<snode, P> l{};
    lists<snode, P, M> m{l, nodes};
    m.same();
    unroll<Steps>([&](auto) {
        snode *x = m.outside();
        auto const o = small(4);
        if (o == 0) { if (x != nullptr) { perform<push_front>(m, x); } }
        else if (o == 1) { if (x != nullptr) { perform<push_back>(m, x); } }
        else if (o == 2) { if (m.n > 0) { perform<pop_front>(m, x); } }
        else { perform<clear>(m, x); }
        m.same();
    });
    CHECK(panics == 0);
    COVER(m.n == 2);
}
} // namespace

#define GROWING(NAME, ...)                                                             \
    VP_HARNESS(push_front_##NAME, 6, q) { from<__VA_ARGS__, push_front>(); }           \
    VP_HARNESS(push_back_##NAME, 6, q) { from<__VA_ARGS__, push_back>(); }
#define SHRINKING(NAME, ...)                                                           \
    VP_HARNESS(pop_front_##NAME, 6, q) { from<__VA_ARGS__, pop_front>(); }             \
    VP_HARNESS(clear_##NAME, 6, q) { from<__VA_ARGS__, clear>(); }

#if PART == 1
GROWING(0_checked, checked, 2, 0)
GROWING(1_checked, checked, 3, 1)
GROWING(2_checked, checked, 4, 2)
GROWING(3_checked, checked, 5, 3)
SHRINKING(1_checked, checked, 2, 1)
SHRINKING(2_checked, checked, 3, 2)
SHRINKING(4_checked, checked, 5, 4)
VP_HARNESS(history_checked, 4, q) { history<checked, 3, 4>(); }
GROWING(0_unchecked, unchecked, 2, 0)
GROWING(1_unchecked, unchecked, 3, 1)
GROWING(2_unchecked, unchecked, 4, 2)
GROWING(3_unchecked, unchecked, 5, 3)
SHRINKING(1_unchecked, unchecked, 2, 1)
SHRINKING(2_unchecked, unchecked, 3, 2)
SHRINKING(4_unchecked, unchecked, 5, 4)
VP_HARNESS(history_unchecked, 4, q) { history<unchecked, 3, 4>(); }
#elif PART == 2
GROWING(2_checked_23, checked, 3, 2)
SHRINKING(2_checked_23, checked, 3, 2)
VP_HARNESS(history_23, 4, q) { history<checked, 2, 3>(); }
#else
VP_HARNESS(long_history_checked, 5, t) { history<checked, 4, 7>(); }
VP_HARNESS(long_history_unchecked, 5, t) { history<unchecked, 4, 7>(); }
GROWING(6_checked, checked, 7, 6)
SHRINKING(6_checked, checked, 7, 6)
#endif

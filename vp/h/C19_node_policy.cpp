// When the checked node policy panics, and that nodes taken out can be put in again.
// VP-CONFIG a: -std=c++20 -DPART=1
// VP-CONFIG b: -std=c++20 -DPART=2
// VP-CONFIG std23: -std=c++23 -DPART=3
#include "list_model.hpp"
using namespace vp;
using stdx::node_policy::checked;
using stdx::node_policy::unchecked;

namespace {
enum op { push_front, push_back, insert, insert_end };
template <op O, typename M, typename N> void put(M &m, N *x, std::size_t pos) {
    if constexpr (O == push_front) { m.l.push_front(x); }
    else if constexpr (O == push_back) { m.l.push_back(x); }
    else if constexpr (O == insert) { m.l.insert(m.iterator_at(pos), x); }
    else { m.l.insert(m.l.end(), x); }
}
template <typename N> auto linked(N const &x) -> bool {
    if constexpr (has_prev<N>) {
        return x.prev != nullptr or x.next != nullptr;
    } else {
        return x.next != nullptr;
    }
}
// C nodes in the list, one with arbitrary links put in
template <typename N, template <typename> typename P, std::size_t C, op O> void reuse() {
    constexpr bool checking = std::is_same_v<P<N>, checked<N>>;
    std::array<N, C + 2> nodes{};
    typename lists<N, P, C + 2>::list_t l{};
    lists<N, P, C + 2> m{l, nodes};
    unroll<C>([&](auto i) {
        l.push_back(&nodes[i]);
        m.insert_at(i, &nodes[i]);
    });
    CHECK(panics == 0);
    m.same();
    auto &x = nodes[C];
    m.scramble(x);
    bool const bad = linked(x);
    auto const pos = small(C + 1);
    put<O>(m, &x, pos);
    CHECK(panics == (checking and bad ? 1u : 0u));
    COVER(bad);
    COVER(not bad);
}
// a node that is in the list is put in again
template <typename N, std::size_t C, op O> void again() {
    std::array<N, C> nodes{};
    typename lists<N, checked, C>::list_t l{};
    lists<N, checked, C> m{l, nodes};
    unroll<C>([&](auto i) {
        l.push_back(&nodes[i]);
        m.insert_at(i, &nodes[i]);
    });
    CHECK(panics == 0);
    // the last node of a singly linked list has no link to show it
    auto const which = small(has_prev<N> ? C : C - 1);
    put<O>(m, &nodes[which], small(C));
    CHECK(panics == 1);
}

enum out { taking_out, pop_front, pop_back, clear };
template <typename N, std::size_t C, out O, op I> void taken_out() {
    std::array<N, C> nodes{};
    typename lists<N, checked, C>::list_t l{};
    lists<N, checked, C> m{l, nodes};
    unroll<C>([&](auto i) {
        l.push_back(&nodes[i]);
        m.insert_at(i, &nodes[i]);
    });
    auto which = small(C);
    if constexpr (O == taking_out) {
        l.remove(&nodes[which]);
        m.remove_at(which);
    } else if constexpr (O == pop_front) {
        which = 0;
        CHECK(l.pop_front() == adr(nodes[0]));
        m.remove_at(0);
    } else if constexpr (O == pop_back) {
        which = C - 1;
        CHECK(l.pop_back() == adr(nodes[C - 1]));
        m.remove_at(C - 1);
    } else {
        l.clear();
        m.n = 0;
        unroll<C>([&](auto i) { CHECK(not linked(nodes[i])); });
    }
    CHECK(not linked(nodes[which]));
    m.same(); // and only that one
    CHECK(panics == 0);
    // it goes in again, here or elsewhere
    typename lists<N, checked, C>::list_t l2{};
    auto const pos = static_cast<std::size_t>(small(C));
    ASSUME(pos <= m.n);
    if (nd<bool>()) {
        put<I>(m, &nodes[which], pos);
        m.insert_at(I == push_front ? 0 : I == insert and m.n > 0 ? pos : m.n, &nodes[which]);
        m.same();
    } else {
        l2.push_back(&nodes[which]);
        CHECK(adr(l2.front()) == adr(nodes[which]));
        CHECK(adr(l2.back()) == adr(nodes[which]));
        CHECK(++l2.begin() == l2.end());
        m.same();
    }
    CHECK(panics == 0);
}
} // namespace

#define REUSE_D(NAME, P, C)                                                                        \
    VP_HARNESS(push_front_##NAME, 6, q) { reuse<dnode, P, C, push_front>(); }                      \
    VP_HARNESS(push_back_##NAME, 6, q) { reuse<dnode, P, C, push_back>(); }                        \
    VP_HARNESS(insert_##NAME, 6, q) { reuse<dnode, P, C, insert>(); }                              \
    VP_HARNESS(insert_end_##NAME, 6, q) { reuse<dnode, P, C, insert_end>(); }
#define REUSE_S(NAME, P, C)                                                                        \
    VP_HARNESS(s_push_front_##NAME, 6, q) { reuse<snode, P, C, push_front>(); }                    \
    VP_HARNESS(s_push_back_##NAME, 6, q) { reuse<snode, P, C, push_back>(); }
#define OUT_D(NAME, C, I)                                                                          \
    VP_HARNESS(remove_##NAME, 6, q) { taken_out<dnode, C, taking_out, I>(); }                          \
    VP_HARNESS(pop_front_##NAME, 6, q) { taken_out<dnode, C, pop_front, I>(); }                    \
    VP_HARNESS(pop_back_##NAME, 6, q) { taken_out<dnode, C, pop_back, I>(); }                      \
    VP_HARNESS(clear_##NAME, 6, q) { taken_out<dnode, C, clear, I>(); }

#if PART == 1
REUSE_D(0, checked, 0)
REUSE_D(1, checked, 1)
REUSE_D(2, checked, 2)
REUSE_D(3, checked, 3)
REUSE_D(2_unchecked, unchecked, 2)
REUSE_S(0, checked, 0)
REUSE_S(1, checked, 1)
REUSE_S(3, checked, 3)
REUSE_S(2_unchecked, unchecked, 2)
#elif PART == 2
VP_HARNESS(again_push_front, 6, q) { again<dnode, 3, push_front>(); }
VP_HARNESS(again_push_back, 6, q) { again<dnode, 3, push_back>(); }
VP_HARNESS(again_insert, 6, q) { again<dnode, 3, insert>(); }
VP_HARNESS(again_insert_end, 6, q) { again<dnode, 3, insert_end>(); }
VP_HARNESS(again_s_push_front, 6, q) { again<snode, 3, push_front>(); }
VP_HARNESS(again_s_push_back, 6, q) { again<snode, 3, push_back>(); }
OUT_D(1_push_back, 1, push_back)
OUT_D(3_push_front, 3, push_front)
OUT_D(3_insert, 3, insert)
OUT_D(2_insert_end, 2, insert_end)
VP_HARNESS(s_pop_front_1, 6, q) { taken_out<snode, 1, pop_front, push_back>(); }
VP_HARNESS(s_pop_front_3, 6, q) { taken_out<snode, 3, pop_front, push_front>(); }
VP_HARNESS(s_clear_1, 6, q) { taken_out<snode, 1, clear, push_back>(); }
VP_HARNESS(s_clear_3, 6, q) { taken_out<snode, 3, clear, push_front>(); }
#else
REUSE_D(2_23, checked, 2)
OUT_D(3_push_back_23, 3, push_back)
#endif

#pragma once
// The sequence of nodes a list should hold, kept next to the list.
#include "panics.hpp"
#include <stdx/intrusive_forward_list.hpp>
#include <stdx/intrusive_list.hpp>

namespace vp {
struct dnode {
    dnode *prev{};
    dnode *next{};
    std::uint8_t id{};
};
struct snode {
    snode *next{};
    std::uint8_t id{};
};
template <typename N> constexpr bool has_prev = std::is_same_v<N, dnode>;

// M nodes; at most M of them are in the list
template <typename N, template <typename> typename P, std::size_t M> struct lists {
    using list_t = std::conditional_t<has_prev<N>, stdx::intrusive_list<N, P>, stdx::intrusive_forward_list<N, P>>;
    list_t &l;
    std::array<N, M> &nodes;
    std::array<N *, M> seq{};
    std::size_t n{};

    // an arbitrary link: nothing or any of the nodes
    auto any_link() -> N * {
        auto const x = small(M + 1);
        N *r = nullptr;
        unroll<M>([&](auto i) {
            if (x == i) { r = &nodes[i]; }
        });
        return r;
    }
    void scramble(N &x) {
        x.next = any_link();
        if constexpr (has_prev<N>) { x.prev = any_link(); }
    }
    auto held(N const *x) const -> bool {
        bool r{};
        unroll<M>([&](auto i) { r = r or (i < n and seq[i] == x); });
        return r;
    }

    // a node outside the list, if there is one: the first or the last
    auto outside() const -> N * {
        N *first = nullptr;
        N *last = nullptr;
        unroll<M>([&](auto i) {
            if (not held(&nodes[i])) {
                last = &nodes[i];
                if (first == nullptr) { first = &nodes[i]; }
            }
        });
        return vp_bool() != 0 ? first : last;
    }

    // the model's side of the operations
    void insert_at(std::size_t pos, N *x) {
        unroll<M>([&](auto r) {
            constexpr auto i = M - 1 - r;
            if (i > pos) {
                if constexpr (i > 0) { seq[i] = seq[i - 1]; }
            } else if (i == pos) {
                seq[i] = x;
            }
        });
        ++n;
    }
    void remove_at(std::size_t pos) {
        unroll<M>([&](auto i) {
            if constexpr (i + 1 < M) {
                if (i >= pos) { seq[i] = seq[i + 1]; }
            }
        });
        --n;
    }

    void same() {
        auto const &c = l;
        CHECK(c.empty() == (n == 0));
        if (n > 0) {
            CHECK(&l.front() == seq[0]);
            CHECK(&c.back() == seq[n - 1]);
        }
        auto it = l.begin();
        auto ct = c.begin();
        auto cc = c.cbegin();
        unroll<M>([&](auto i) {
            if (i < n) {
                CHECK(it != l.end());
                CHECK(&*it == seq[i]);
                CHECK(it.operator->() == seq[i]);
                CHECK(&*ct == seq[i]);
                CHECK(ct != c.end());
                CHECK(cc != c.cend());
                CHECK(&*cc == seq[i]);
                if constexpr (i % 2 == 0) {
                    ++it;
                    CHECK(&*ct++ == seq[i]);
                    cc++;
                } else {
                    CHECK(&*it++ == seq[i]);
                    ++ct;
                    ++cc;
                }
            }
        });
        CHECK(it == l.end());
        CHECK(ct == c.end());
        CHECK(cc == c.cend());
        links();
    }
    // the nodes' own links
    void links() {
        unroll<M>([&](auto i) {
            if (i < n) {
                if constexpr (i + 1 < M) {
                    CHECK(seq[i]->next == (i + 1 < n ? seq[i + 1] : nullptr));
                } else {
                    CHECK(seq[i]->next == nullptr);
                }
                if constexpr (has_prev<N>) {
                    if constexpr (i > 0) {
                        CHECK(seq[i]->prev == seq[i - 1]);
                    } else {
                        CHECK(seq[i]->prev == nullptr);
                    }
                }
            }
        });
    }
    auto iterator_at(std::size_t pos) {
        auto it = l.begin();
        unroll<M>([&](auto i) {
            if (i < pos) { ++it; }
        });
        return it;
    }
};

template <typename N, std::size_t M> struct untouched {
    std::array<N, M> before;
    explicit untouched(std::array<N, M> const &nodes) : before{nodes} {}
    template <typename L> void check(L const &m, std::array<bool, M> const &in_before) const {
        unroll<M>([&](auto i) {
            CHECK(m.nodes[i].id == before[i].id);
            if (not in_before[i] and not m.held(&m.nodes[i])) {
                CHECK(m.nodes[i].next == before[i].next);
                if constexpr (has_prev<N>) { CHECK(m.nodes[i].prev == before[i].prev); }
            }
        });
    }
};
} // namespace vp

// latched and cached: when the function is called, and what is returned.
// VP-CONFIG a: -std=c++20
// VP-CONFIG std23: -std=c++23
#include "vp.hpp"
#include <stdx/cached.hpp>
#include <stdx/latched.hpp>
using namespace vp;

namespace {
struct value {
    std::uint32_t v;
    std::uint8_t tag;
};
struct fixed { // neither copyable nor movable
    std::uint32_t v;
    explicit fixed(std::uint32_t x) : v{x} {}
    fixed(fixed &&) = delete;
};
template <typename T> auto make(std::uint32_t v) -> T {
    if constexpr (std::is_same_v<T, value>) { return {v, 7}; }
    else { return T(v); }
}
template <typename T> auto read(T const &t) -> std::uint32_t {
    if constexpr (std::is_same_v<T, value> or std::is_same_v<T, fixed>) { return t.v; }
    else { return static_cast<std::uint32_t>(t); }
}
template <typename T> struct model {
    unsigned calls{};
    std::uint32_t result{}; // of the most recent call
    auto operator()() {
        ++calls;
        result = nd<std::uint32_t>();
        return make<T>(result);
    }
};
template <typename T, typename M> auto expect(M const &m) -> std::uint32_t { return read(make<T>(m.result)); }

// the steps the two share; whether the function has to be called now
template <typename T, typename C, typename M> void use(C &c, M const &m, bool held, unsigned how) {
    auto const before = m.calls;
    if (how == 0) {
        CHECK(c.has_value() == held);
        CHECK(m.calls == before);
    } else if (how == 1) {
        CHECK(static_cast<bool>(c) == held);
        CHECK(m.calls == before);
    } else {
        std::uint32_t got{};
        T const *where{};
        if (how == 2) { auto const &r = *c; got = read(r); where = &r; }
        else if (how == 3) { auto const &r = c.value(); got = read(r); where = &r; }
        else if (how == 4) { where = c.operator->(); got = read(*where); }
        else if (how == 5) { auto const &r = *std::as_const(c); got = read(r); where = &r; }
        else if (how == 6) { auto &&r = std::move(std::as_const(c)).value(); got = read(r); where = &r; }
        else { auto &&r = *std::move(std::as_const(c)); got = read(r); where = &r; }
        CHECK(m.calls == before + (held ? 0u : 1u));
        CHECK(got == expect<T>(m));
        CHECK(c.has_value());
        CHECK(adr(*c) == where);
        CHECK(m.calls == before + (held ? 0u : 1u));
    }
}
template <typename T, std::size_t Steps> void latched() {
    model<T> m{};
    auto f = [&] { return m(); };
    stdx::latched c{f};
    CHECK(std::is_same_v<typename decltype(c)::value_type, T>);
    CHECK(std::is_same_v<stdx::latched_value_t<decltype(c) const &>, T>);
    CHECK(m.calls == 0);
    bool held{};
    unroll<Steps>([&](auto) {
        auto const how = small(8);
        use<T>(c, m, held, how);
        held = held or how >= 2;
        CHECK(m.calls == (held ? 1u : 0u));
    });
    COVER(held);
    COVER(not held);
}
template <typename T, std::size_t Steps> void cached() {
    model<T> m{};
    stdx::cached c{[&] { return m(); }};
    CHECK(std::is_same_v<stdx::cached_value_t<decltype(c)>, T>);
    CHECK(m.calls == 0);
    bool held{};
    unroll<Steps>([&](auto) {
        auto const how = small(10);
        auto const before = m.calls;
        if (how == 8) {
            c.reset();
            held = false;
            CHECK(m.calls == before);
            CHECK(not c.has_value());
        } else if (how == 9) {
            auto &&r = c.refresh();
            held = true;
            CHECK(m.calls == before + 1);
            CHECK(read(r) == expect<T>(m));
            CHECK(&r == adr(*c));
            CHECK(m.calls == before + 1);
        } else {
            use<T>(c, m, held, how);
            held = held or how >= 2;
        }
        CHECK(c.has_value() == held);
    });
    COVER(m.calls == 3);
    COVER(m.calls == 1 and not held);
}
} // namespace
VP_HARNESS(latched_u32, 1, q) { latched<std::uint32_t, 4>(); }
VP_HARNESS(latched_bool, 1, q) { latched<bool, 4>(); }
VP_HARNESS(latched_class, 1, q) { latched<value, 4>(); }
VP_HARNESS(latched_fixed, 1, q) { latched<fixed, 4>(); }
VP_HARNESS(cached_u32, 1, q) { cached<std::uint32_t, 5>(); }
VP_HARNESS(cached_u8, 1, q) { cached<std::uint8_t, 5>(); }
VP_HARNESS(cached_class, 1, q) { cached<value, 5>(); }
VP_HARNESS(cached_fixed, 1, q) { cached<fixed, 5>(); }
VP_HARNESS(cached_long, 1, t) { cached<std::uint32_t, 8>(); }

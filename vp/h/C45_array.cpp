// make_array: every overload, with symbolic values, and the order and number of calls.
// VP-CONFIG a: -std=c++20
// VP-CONFIG std23: -std=c++23 -DVP_COPYABLE=1
#include "tuple_under_test.hpp"
#include <stdx/array.hpp>
using namespace vp;
using u8 = std::uint8_t;
using u16 = std::uint16_t;
using u32 = std::uint32_t;
using u64 = std::uint64_t;
using i8 = std::int8_t;
using i16 = std::int16_t;
using i32 = std::int32_t;
using i64 = std::int64_t;

namespace {
template <typename E, typename... Ts> void common(Ts... ts) {
    auto const a = stdx::make_array(ts...);
    CHECK(a.size() == sizeof...(Ts));
    if constexpr (same<std::remove_const_t<decltype(a)>, std::array<E, sizeof...(Ts)>>) {
        std::size_t i{};
        ([&] { CHECK(a[i] == static_cast<E>(ts)); ++i; }(), ...);
    } else {
        CHECK(false);
    }
    auto const b = stdx::make_array(Ts{ts}...);
    std::size_t j{};
    ([&] { CHECK(b[j] == static_cast<E>(ts)); ++j; }(), ...);
    // a const source
    [&](auto const &...cs) {
        auto const c = stdx::make_array(cs...);
        std::size_t k{};
        ([&] { CHECK(c[k] == static_cast<E>(cs)); ++k; }(), ...);
    }(ts...);
}
template <typename D, typename... Ts> void given(Ts... ts) {
    auto const a = stdx::make_array<D>(ts...);
    CHECK(same<std::remove_const_t<decltype(a)>, std::array<D, sizeof...(Ts)>>);
    std::size_t i{};
    ([&] { CHECK(a[i] == static_cast<D>(ts)); ++i; }(), ...);
}
struct wrapped {
    u64 v{};
    wrapped() = default;
    explicit(false) wrapped(u8 x) : v{x} {}
    explicit(false) wrapped(u16 x) : v{0x10000ull + x} {}
    friend auto operator==(wrapped const &, wrapped const &) -> bool = default;
};
} // namespace
VP_HARNESS(common_same, 2, q) {
    common<u8>(nd<u8>());
    common<u8>(nd<u8>(), nd<u8>(), nd<u8>());
    common<bool>(nd<bool>(), nd<bool>());
    common<u64>(nd<u64>(), nd<u64>(), nd<u64>(), nd<u64>(), nd<u64>());
    common<i32>(nd<i32>(), nd<i32>());
}
VP_HARNESS(given_type, 2, q) {
    given<u32>(nd<u8>(), nd<u16>(), nd<u32>());
    given<i64>(nd<i8>(), nd<u32>(), nd<i64>(), nd<bool>());
    given<wrapped>(nd<u8>(), nd<u16>());
    given<u8>();
    given<u8>(nd<u8>());
    given<char>(nd<char>(), nd<char>());
}
VP_HARNESS(none, 2, q) {
    CHECK(same<decltype(stdx::make_array()), std::array<int, 0>>);
    CHECK(same<decltype(stdx::make_array<u8>()), std::array<u8, 0>>);
    CHECK(stdx::make_array().size() == 0);
    CHECK(stdx::make_array<u64>().size() == 0);
}
VP_HARNESS(common_mixed, 2, q) {
    // widening only: a braced initialiser refuses to narrow
    auto const a = nd<i32>();
    auto const b = nd<i64>();
    auto const c = nd<u16>();
    auto const x = stdx::make_array(c, b, a);
    CHECK(same<std::remove_const_t<decltype(x)>, std::array<i64, 3>>);
    CHECK(x[0] == c);
    CHECK(x[1] == b);
    CHECK(x[2] == a);
    int v{};
    int w{};
    auto const p = stdx::make_array(&v, &w, static_cast<int *>(nullptr));
    CHECK(p[0] == &v and p[1] == &w and p[2] == nullptr);
}
// what is given up is moved exactly once, what is kept is copied
VP_HARNESS(sources, 2, q) {
    auto const a = nd<u8>();
    auto const b = nd<u8>();
    auto m = stdx::make_array(only<u8>{a}, only<u8>{b});
    CHECK(m[0].v == a and m[1].v == b);
    CHECK(not m[0].gone and not m[1].gone);
    auto x = only<u8>{b};
    auto n = stdx::make_array<only<u8>>(only<u8>{a}, std::move(x));
    CHECK(n[0].v == a and n[1].v == b);
    CHECK(not n[0].gone and not n[1].gone and x.gone);
    auto k = tracked<u8>{a};
    auto g = tracked<u8>{b};
    auto t = stdx::make_array(k, std::move(g));
    CHECK(t[0].v == a and t[1].v == b);
    CHECK(not k.gone and g.gone and not t[0].gone and not t[1].gone);
    auto k2 = tracked<u8>{a};
    auto t2 = stdx::make_array<tracked<u8>>(k2, k2);
    CHECK(t2[0].v == a and t2[1].v == a);
    CHECK(not k2.gone and not t2[0].gone and not t2[1].gone);
}
// from a function of the position: called once for each, in order
namespace {
struct maker {
    u8 const *values;
    unsigned calls{};
    u64 order{};
    template <auto I> auto operator()() {
        ++calls;
        order = (order << 8) | static_cast<u64>(I + 1);
        return static_cast<u16>(values[I] ^ (static_cast<u16>(I) << 8));
    }
};
template <auto N, typename A> void made(A const &r, u8 const *vs, maker const &m) {
    CHECK(same<A, std::array<u16, static_cast<std::size_t>(N)>>);
    CHECK(m.calls == static_cast<unsigned>(N));
    u64 order{};
    unroll<static_cast<std::size_t>(N)>([&](auto i) {
        order = (order << 8) | (i + 1);
        CHECK(r[i] == (vs[i] ^ (i << 8)));
    });
    CHECK(m.order == order);
}
} // namespace
VP_HARNESS(by_function, 2, q) {
    auto const vs = nd_array<u8, 5>();
    {
        auto m = maker{vs.data()};
        auto const r = stdx::make_array<5>(m);
        made<5, std::array<u16, 5>>(r, vs.data(), m);
    }
    {
        auto m = maker{vs.data()};
        auto const r = stdx::make_array<std::size_t{3}>(m);
        made<std::size_t{3}, std::array<u16, 3>>(r, vs.data(), m);
    }
    {
        auto m = maker{vs.data()};
        auto const r = stdx::make_array<u8{1}>(m);
        made<u8{1}, std::array<u16, 1>>(r, vs.data(), m);
    }
    {
        auto m = maker{vs.data()};
        auto const r = stdx::make_array(std::make_integer_sequence<int, 4>{}, m);
        made<4, std::array<u16, 4>>(r, vs.data(), m);
    }
    {
        auto m = maker{vs.data()};
        auto const r = stdx::make_array<0>(m);
        CHECK(r.size() == 0 and m.calls == 0);
    }
}
VP_HARNESS(longer, 40, q) {
    common<u8>(nd<u8>(), nd<u8>(), nd<u8>(), nd<u8>(), nd<u8>(), nd<u8>(), nd<u8>(), nd<u8>(), nd<u8>(), nd<u8>(), nd<u8>());
    given<u32>(nd<u8>(), nd<u16>(), nd<u32>(), nd<u8>(), nd<u8>(), nd<u16>(), nd<u8>(), nd<u8>(), nd<bool>(), nd<u32>());
    auto const x = nd<u32>();
    int next{};
    auto const a = stdx::make_array<20>([&]<int I>() { CHECK(I == next); ++next; return x ^ static_cast<u32>(I); });
    CHECK(next == 20 and a.size() == 20);
    unroll<20>([&](auto i) { CHECK(a[i] == (x ^ i())); });
    auto const s = stdx::make_array(std::integer_sequence<int, 9, 1, 8, 2, 7, 3, 6, 4, 5, 0>{}, [&]<int I>() { return x ^ static_cast<u32>(I); });
    CHECK(s.size() == 10 and s[0] == (x ^ 9u) and s[1] == (x ^ 1u) and s[4] == (x ^ 7u) and s[7] == (x ^ 4u) and s[8] == (x ^ 5u) and s[9] == x);
}
VP_HARNESS(by_sequence, 2, q) {
    // any sequence, not only one that counts up
    auto const vs = nd_array<u8, 5>();
    auto m = maker{vs.data()};
    auto const r = stdx::make_array(std::integer_sequence<int, 4, 0, 2>{}, m);
    CHECK(r.size() == 3);
    CHECK(r[0] == (vs[4] ^ (4 << 8)));
    CHECK(r[1] == vs[0]);
    CHECK(r[2] == (vs[2] ^ (2 << 8)));
    CHECK(m.calls == 3);
    CHECK(m.order == 0x050103);
    // the positions keep the sequence's type
    auto const t = stdx::make_array(std::integer_sequence<u16, 3, 1>{}, []<auto I>() { return I; });
    CHECK(same<std::remove_const_t<decltype(t)>, std::array<u16, 2>>);
    CHECK(t[0] == 3 and t[1] == 1);
    // elements that can only be moved
    auto const o = stdx::make_array<3>([&]<int I>() { return only<u8>{vs[I]}; });
    unroll<3>([&](auto i) { CHECK(o[i].v == vs[i] and not o[i].gone); });
}
namespace {
template <auto I> struct squares {
    constexpr static auto value = static_cast<u32>(I * I + 3);
};
template <auto I> struct halves {
    static inline u16 const value = static_cast<u16>(100 - I);
};
} // namespace
VP_HARNESS(far, 2, q) {
    auto const a = stdx::make_array<squares, 256>();
    CHECK(a.size() == 256);
    auto const x = nd<u32>();
    auto const b = stdx::make_array<std::size_t{256}>([&]<auto I>() { return static_cast<u32>(x ^ (I << 3)); });
    CHECK(b.size() == 256);
    unroll<16>([&](auto i) {
        constexpr auto k = i() * 17u;
        CHECK(a[k] == k * k + 3);
        CHECK(b[k] == (x ^ (k << 3)));
    });
}
VP_HARNESS(by_template, 2, q) {
    auto const k = below<std::size_t>(6);
    auto const a = stdx::make_array<squares, 6>();
    CHECK(same<std::remove_const_t<decltype(a)>, std::array<u32, 6>>);
    CHECK(a[k] == k * k + 3);
    auto const b = stdx::make_array<squares>(std::make_integer_sequence<int, 6>{});
    CHECK(b[k] == k * k + 3);
    auto const c = stdx::make_array<squares>(std::integer_sequence<int, 5, 4, 3, 2, 1, 0>{});
    CHECK(c[k] == (5 - k) * (5 - k) + 3);
    auto const d = stdx::make_array<halves, std::size_t{6}>();
    CHECK(same<std::remove_const_t<decltype(d)>, std::array<u16, 6>>);
    CHECK(d[k] == 100 - k);
    CHECK((stdx::make_array<squares, 0>().size() == 0));
}

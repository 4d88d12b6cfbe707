// fold_left, fold_right and join against the folds written out.
// VP-CONFIG a: -std=c++20
// VP-CONFIG lookup: -std=c++20 -DLOOKUP=1
// VP-CONFIG std23: -std=c++23 -DVP_COPYABLE=1
#include "tuple_under_test.hpp"
using namespace vp;
using namespace stdx::literals;
using u8 = std::uint8_t;
using u16 = std::uint16_t;
using u32 = std::uint32_t;

namespace {
// neither commutative nor associative
template <typename T> constexpr auto mix(T a, T b) -> T {
    return static_cast<T>(((a << 3) | (a >> (sizeof(T) * 8 - 3))) ^ b ^ 1u);
}
unsigned calls{};
struct op {
    template <typename A, typename B> auto operator()(A a, B b) const -> u32 {
        ++calls;
        return mix<u32>(static_cast<u32>(a), static_cast<u32>(b));
    }
};
template <std::size_t N, typename... Ts> void folds() {
    static_assert(N == sizeof...(Ts));
    auto const vals = std::tuple<Ts...>{nd<Ts>()...};
    std::array<u32, N + 1> a{};
    unroll<N>([&](auto i) { a[i] = static_cast<u32>(std::get<i()>(vals)); });
    auto const init = nd<u32>();
    auto t = std::apply([](auto... vs) { return stdx::tuple<Ts...>{vs...}; }, vals);
    auto const &c = t;

    u32 left = init;
    unroll<N>([&](auto i) { left = mix<u32>(left, a[i]); });
    u32 right = init;
    unroll<N>([&](auto i) { right = mix<u32>(a[N - 1 - i], right); });

    calls = 0;
    CHECK(c.fold_left(init, op{}) == left);
    CHECK(calls == N);
    CHECK(t.fold_left(init, op{}) == left);
    CHECK(std::move(t).fold_left(init, op{}) == left);
    CHECK(calls == 3 * N);
    CHECK(c.fold_right(init, op{}) == right);
    CHECK(calls == 4 * N);
    CHECK(t.fold_right(init, op{}) == right);
    CHECK(std::move(t).fold_right(init, op{}) == right);
    CHECK(calls == 6 * N);
    auto const f = op{};
    CHECK(c.fold_left(init, f) == left);
    CHECK(c.fold_right(init, f) == right);

    // an initial value of another type
    auto const init8 = nd<u8>();
    u32 left8 = init8;
    unroll<N>([&](auto i) { left8 = mix<u32>(left8, a[i]); });
    CHECK(c.fold_left(init8, op{}) == left8);

    // join: no initial value
    auto const dflt = nd<u32>();
    if constexpr (N > 0) {
        u32 joined = a[0];
        unroll<N - 1>([&](auto i) { joined = mix<u32>(joined, a[i + 1]); });
        calls = 0;
        CHECK(c.join(op{}) == joined);
        CHECK(calls == N - 1);
        CHECK(t.join(op{}) == joined);
        CHECK(std::move(t).join(op{}) == joined);
        CHECK(c.join(dflt, op{}) == joined);
        CHECK(t.join(dflt, op{}) == joined);
        CHECK(std::move(t).join(dflt, op{}) == joined);
        CHECK(calls == 6 * (N - 1));
        CHECK(c.join(f) == joined);
    } else {
        calls = 0;
        CHECK(c.join(dflt, op{}) == dflt);
        CHECK(t.join(dflt, op{}) == dflt);
        CHECK(std::move(t).join(dflt, op{}) == dflt);
        CHECK(calls == 0);
    }
}
} // namespace
VP_HARNESS(fold_0, 2, q) { folds<0>(); }
VP_HARNESS(fold_1, 2, q) { folds<1, u32>(); }
VP_HARNESS(fold_1_u8, 2, q) { folds<1, u8>(); }
VP_HARNESS(fold_2, 2, q) { folds<2, u32, u32>(); }
VP_HARNESS(fold_3, 2, q) { folds<3, u8, u32, u16>(); }
VP_HARNESS(fold_4, 2, q) { folds<4, u32, u32, u8, u32>(); }
VP_HARNESS(fold_10, 2, q) { folds<10, u32, u8, u16, u32, u32, u8, u8, u32, u16, u32>(); }
VP_HARNESS(fold_18, 2, q) { folds<18, u32, u8, u16, u32, u32, u8, u8, u32, u16, u32, u8, u8, u16, u32, u32, u8, u32, u16>(); }
VP_HARNESS(fold_6, 2, q) { folds<6, u32, u8, u16, u32, u32, u8>(); }

// a result whose type grows: the order is visible in the result itself
VP_HARNESS(growing, 2, q) {
    auto const a = nd<u8>();
    auto const b = nd<u16>();
    auto const c = nd<u32>();
    auto const i = nd<bool>();
    auto const t = stdx::tuple{a, b, c};
    auto const l = t.fold_left(stdx::tuple{i}, [](auto acc, auto x) { return stdx::tuple_cat(acc, stdx::tuple{x}); });
    SAME(l, stdx::tuple<bool, u8, u16, u32> const);
    CHECK(l[0_idx] == i);
    CHECK(l[1_idx] == a);
    CHECK(l[2_idx] == b);
    CHECK(l[3_idx] == c);
    auto const r = t.fold_right(stdx::tuple{i}, [](auto x, auto acc) { return stdx::tuple_cat(acc, stdx::tuple{x}); });
    SAME(r, stdx::tuple<bool, u32, u16, u8> const);
    CHECK(r[0_idx] == i);
    CHECK(r[1_idx] == c);
    CHECK(r[2_idx] == b);
    CHECK(r[3_idx] == a);
    auto const p = t.fold_left(i, [](auto acc, auto x) { return stdx::make_tuple(acc, x); });
    CHECK(p[0_idx][0_idx][0_idx] == i);
    CHECK(p[0_idx][0_idx][1_idx] == a);
    CHECK(p[0_idx][1_idx] == b);
    CHECK(p[1_idx] == c);
    auto const j = t.join([](auto acc, auto x) { return stdx::make_tuple(acc, x); });
    CHECK(j[0_idx][0_idx] == a);
    CHECK(j[0_idx][1_idx] == b);
    CHECK(j[1_idx] == c);
}
// values that can only be moved are each handed over once
VP_HARNESS(moved, 2, q) {
    auto const a = nd<u8>(), b = nd<u8>(), c = nd<u8>(), i = nd<u8>();
    auto const f = [](only<u8> x, only<u8> y) {
        CHECK(not x.gone);
        CHECK(not y.gone);
        return only<u8>{mix<u8>(x.v, y.v)};
    };
    auto const fresh = [&] { return stdx::tuple<only<u8>, only<u8>, only<u8>>{only<u8>{a}, only<u8>{b}, only<u8>{c}}; };
    CHECK(fresh().fold_left(only<u8>{i}, f).v == mix<u8>(mix<u8>(mix<u8>(i, a), b), c));
    CHECK(fresh().fold_right(only<u8>{i}, f).v == mix<u8>(a, mix<u8>(b, mix<u8>(c, i))));
    CHECK(fresh().join(f).v == mix<u8>(mix<u8>(a, b), c));
    auto t = fresh();
    CHECK(std::move(t).join(f).v == mix<u8>(mix<u8>(a, b), c));
    CHECK(t[0_idx].gone);
    CHECK(t[1_idx].gone);
    CHECK(t[2_idx].gone);
}
// folding an lvalue leaves its elements alone
VP_HARNESS(kept, 2, q) {
    auto const a = nd<u8>(), b = nd<u8>(), i = nd<u8>();
    using V = tracked<u8>;
    auto t = stdx::tuple<V, V>{V{a}, V{b}};
    auto const f = [](V const &x, V const &y) { CHECK(not x.gone); CHECK(not y.gone); return V{mix<u8>(x.v, y.v)}; };
    auto init = V{i};
    CHECK(t.fold_left(init, f).v == mix<u8>(mix<u8>(i, a), b));
    CHECK(t.fold_right(init, f).v == mix<u8>(a, mix<u8>(b, i)));
    CHECK(t.join(f).v == mix<u8>(a, b));
    CHECK(not init.gone);
    CHECK(not t[0_idx].gone);
    CHECK(not t[1_idx].gone);
    CHECK(t[0_idx].v == a);
    CHECK(t[1_idx].v == b);
}
// a stateful function object passed by reference is used itself
VP_HARNESS(stateful, 2, q) {
    auto const a = nd<u8>(), b = nd<u8>(), i = nd<u8>();
    unsigned n{};
    std::array<u8, 4> seen{};
    auto f = [&](u8 x, u8 y) -> u8 { seen[n & 3u] = y; ++n; return static_cast<u8>(x ^ y); };
    auto t = stdx::tuple{a, b};
    static_cast<void>(t.fold_left(i, f));
    CHECK(n == 2);
    CHECK(seen[0] == a);
    CHECK(seen[1] == b);
}

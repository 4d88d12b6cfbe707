// call_by_need: which function is called with which arguments, and what comes back.
// VP-CONFIG a: -std=c++20 -Dconsteval=constexpr
// VP-CONFIG lookup: -std=c++20 -Dconsteval=constexpr -DLOOKUP=1 -DVP_COPYABLE=1
#include "tuple_under_test.hpp"
#include <stdx/call_by_need.hpp>
using namespace vp;
using namespace stdx::literals;
using u8 = std::uint8_t;
using u16 = std::uint16_t;
using u32 = std::uint32_t;

namespace {
template <int I> using arg = tagged<I, u32>;
template <int I> auto any() -> arg<I> { return {nd<u32>()}; }
// runs the same call for every value category of the two tuples
template <typename Fs, typename Args, typename C> void each_way(Fs make, Args const &args, C check) {
    {
        auto fs = make();
        auto as = args;
        check(stdx::call_by_need(fs, as));
    }
    {
        auto const fs = make();
        auto const as = args;
        check(stdx::call_by_need(fs, as));
    }
    {
        auto as = args;
        check(stdx::call_by_need(make(), as));
    }
    {
        auto fs = make();
        auto as = args;
        check(stdx::call_by_need(fs, std::move(as)));
    }
    {
        auto as = args;
        check(stdx::call_by_need(make(), std::move(as)));
    }
}
template <typename R, typename... Vs> void result(R const &r, Vs const &...vs) {
    CHECK(stdx::tuple_size_v<R> == sizeof...(Vs));
    if constexpr (stdx::tuple_size_v<R> == sizeof...(Vs)) {
        [&]<std::size_t... Is>(std::index_sequence<Is...>) {
            auto const one = [](auto const &x, auto const &v) {
                CHECK(same<decltype(x), decltype(v)>);
                if constexpr (same<decltype(x), decltype(v)>) {
                    CHECK(x == v);
                }
            };
            (one(stdx::get<Is>(r), vs), ...);
        }(std::make_index_sequence<sizeof...(Vs)>{});
    }
}
unsigned n{};
constexpr auto mix(u32 a, u32 b) -> u32 { return ((a << 7) | (a >> 25)) ^ b; }
} // namespace

VP_HARNESS(exact, 2, q) {
    auto const a = any<0>();
    auto const b = any<1>();
    each_way([] { return stdx::tuple{[](arg<0> x) { ++n; return x.v ^ 1u; }, [](arg<1> x) { ++n; return static_cast<u8>(x.v); }}; },
             stdx::tuple{a, b}, [&](auto const &r) { CHECK(n == 2); n = 0; result(r, a.v ^ 1u, static_cast<u8>(b.v)); });
}
VP_HARNESS(same_argument, 2, q) {
    auto const a = any<0>();
    each_way([] { return stdx::tuple{[](arg<0> x) { ++n; return x.v ^ 1u; }, [](arg<0> x) { ++n; return x.v ^ 2u; }}; },
             stdx::tuple{a}, [&](auto const &r) { CHECK(n == 2); n = 0; result(r, a.v ^ 1u, a.v ^ 2u); });
}
VP_HARNESS(unused, 2, q) {
    auto const a = any<0>();
    auto const b = any<1>();
    auto const c = any<2>();
    auto const d = any<3>();
    each_way([] { return stdx::tuple{[](arg<1> x) { ++n; return x.v; }}; },
             stdx::tuple{d, a, b, c}, [&](auto const &r) { CHECK(n == 1); n = 0; result(r, b.v, d, a, c); });
    each_way([] { return stdx::tuple{[](arg<3> x) { ++n; return x.v; }, [](arg<2> x) { ++n; return x.v; }}; },
             stdx::tuple{d, a, b, c}, [&](auto const &r) { CHECK(n == 2); n = 0; result(r, d.v, c.v, a, b); });
    each_way([] { return stdx::tuple{}; }, stdx::tuple{d, a}, [&](auto const &r) { CHECK(n == 0); result(r, d, a); });
    each_way([] { return stdx::tuple{}; }, stdx::tuple{}, [&](auto const &r) { CHECK(n == 0); result(r); });
}
VP_HARNESS(reordered, 2, q) {
    auto const a = any<0>();
    auto const b = any<1>();
    auto const c = any<2>();
    each_way([] { return stdx::tuple{[](arg<0> x) { ++n; return x.v; }, [](arg<1> x) { ++n; return x.v ^ 1u; }}; },
             stdx::tuple{c, b, a}, [&](auto const &r) { CHECK(n == 2); n = 0; result(r, a.v, b.v ^ 1u, c); });
}
VP_HARNESS(overlap, 2, q) {
    auto const a = any<0>();
    auto const b = any<1>();
    auto const c = any<2>();
    each_way([] { return stdx::tuple{[](arg<0> x, arg<1> y) { ++n; return mix(x.v, y.v); }, [](arg<1> x, arg<2> y) { ++n; return mix(x.v, y.v); }}; },
             stdx::tuple{a, b, c}, [&](auto const &r) { CHECK(n == 2); n = 0; result(r, mix(a.v, b.v), mix(b.v, c.v)); });
    each_way([] { return stdx::tuple{[](arg<0> x, arg<1> y, arg<2> z) { ++n; return mix(mix(x.v, y.v), z.v); }, [](arg<1> x) { ++n; return x.v; }, [](arg<2> x) { ++n; return x.v; }}; },
             stdx::tuple{any<3>(), a, b, c}, [&](auto const &r) { CHECK(n == 3); n = 0; CHECK(stdx::tuple_size_v<std::remove_cvref_t<decltype(r)>> == 4); CHECK(r[0_idx] == mix(mix(a.v, b.v), c.v)); CHECK(r[1_idx] == b.v); CHECK(r[2_idx] == c.v); });
}
VP_HARNESS(voids, 2, q) {
    auto const a = any<0>();
    auto const b = any<1>();
    auto const c = any<2>();
    static u32 seen{};
    each_way([] { return stdx::tuple{[](arg<0> x) { ++n; seen = x.v; }, [](arg<1> x) { ++n; return x.v; }}; },
             stdx::tuple{a, b}, [&](auto const &r) { CHECK(n == 2); n = 0; CHECK(seen == a.v); seen = 0; result(r, b.v); });
    each_way([] { return stdx::tuple{[](arg<1> x) { ++n; return x.v; }, [](arg<0> x) { ++n; seen = x.v; }, [](arg<1> x) { ++n; return x.v ^ 1u; }}; },
             stdx::tuple{a, b, c}, [&](auto const &r) { CHECK(n == 3); n = 0; CHECK(seen == a.v); seen = 0; result(r, b.v, b.v ^ 1u, c); });
    each_way([] { return stdx::tuple{[](arg<0> x) { ++n; seen = x.v; }}; },
             stdx::tuple{a}, [&](auto const &r) { CHECK(n == 1); n = 0; CHECK(seen == a.v); seen = 0; result(r); });
}
VP_HARNESS(defaults, 2, q) {
    auto const a = any<0>();
    auto const b = nd<u32>();
    auto const make = [] { return stdx::tuple{[](arg<0> x, u32 y = 17) { ++n; return mix(x.v, y); }}; };
    each_way(make, stdx::tuple{a}, [&](auto const &r) { CHECK(n == 1); n = 0; result(r, mix(a.v, 17)); });
    each_way(make, stdx::tuple{a, b}, [&](auto const &r) { CHECK(n == 1); n = 0; result(r, mix(a.v, b)); });
    auto const c = any<1>();
    each_way(make, stdx::tuple{c, a, b}, [&](auto const &r) { CHECK(n == 1); n = 0; result(r, mix(a.v, b), c); });
    each_way(make, stdx::tuple{a, c, b}, [&](auto const &r) { CHECK(n == 1); n = 0; result(r, mix(a.v, 17), c, b); });
}
// arguments convert as in any call: the first run of arguments that works is taken
VP_HARNESS(conversions, 2, q) {
    auto const a = nd<u16>();
    auto const b = nd<u32>();
    auto const c = any<0>();
    each_way([] { return stdx::tuple{[](u16 x) { ++n; return x; }, [](u32 x) { ++n; return x; }}; },
             stdx::tuple{a, b}, [&](auto const &r) { CHECK(n == 2); n = 0; result(r, a, static_cast<u32>(a), b); });
    each_way([] { return stdx::tuple{[](u32 x, u32 y) { ++n; return mix(x, y); }, [](u8 x) { ++n; return x; }}; },
             stdx::tuple{c, b, a}, [&](auto const &r) { CHECK(n == 2); n = 0; result(r, mix(b, a), static_cast<u8>(b), c); });
}
// variadic functions take the longest run
VP_HARNESS(longest, 2, q) {
    auto const a = nd<u32>(), b = nd<u32>(), c = nd<u32>();
    auto const d = any<0>();
    each_way([] { return stdx::tuple{[](std::same_as<u32> auto... xs) { ++n; u32 h{5}; ((h = mix(h, xs)), ...); return h; }}; },
             stdx::tuple{a, b, c}, [&](auto const &r) { CHECK(n == 1); n = 0; result(r, mix(mix(mix(5, a), b), c)); });
    each_way([] { return stdx::tuple{[](std::same_as<u32> auto x, std::same_as<u32> auto... xs) { ++n; u32 h{x}; ((h = mix(h, xs)), ...); return h; }}; },
             stdx::tuple{a, b, d, c}, [&](auto const &r) { CHECK(n == 1); n = 0; result(r, mix(a, b), d, c); });
    each_way([] { return stdx::tuple{[](std::same_as<u32> auto x, std::same_as<u32> auto... xs) { ++n; u32 h{x}; ((h = mix(h, xs)), ...); return h; }}; },
             stdx::tuple{d, b, c}, [&](auto const &r) { CHECK(n == 1); n = 0; result(r, mix(b, c), d); });
}
VP_HARNESS(nullary, 2, q) {
    auto const a = any<0>();
    each_way([] { return stdx::tuple{[] { ++n; return 3u; }}; }, stdx::tuple{}, [&](auto const &r) { CHECK(n == 1); n = 0; result(r, 3u); });
    each_way([] { return stdx::tuple{[] { ++n; return 3u; }, [](arg<0> x) { ++n; return x.v; }}; }, stdx::tuple{a}, [&](auto const &r) { CHECK(n == 2); n = 0; result(r, 3u, a.v); });
    each_way([] { return stdx::tuple{[] { ++n; return 3u; }}; }, stdx::tuple{a}, [&](auto const &r) { CHECK(n == 1); n = 0; result(r, 3u, a); });
}
// unused arguments: lvalues come back as references, rvalues are moved in
VP_HARNESS(unused_references, 2, q) {
    auto const a = any<0>();
    auto const b = nd<u8>();
    auto as = stdx::tuple{a, b};
    auto const fs = stdx::tuple{[](arg<0> x) { return x.v; }};
    auto r = stdx::call_by_need(fs, as);
    SAME(r, stdx::tuple<u32, u8 &>);
    CHECK(r[0_idx] == a.v);
    CHECK(adr(r[1_idx]) == adr(as[1_idx]));
    auto r2 = stdx::call_by_need(fs, std::as_const(as));
    SAME(r2, stdx::tuple<u32, u8 const &>);
    CHECK(adr(r2[1_idx]) == adr(as[1_idx]));
    auto r3 = stdx::call_by_need(fs, std::move(as));
    SAME(r3, stdx::tuple<u32, u8>);
    CHECK(r3[1_idx] == b);
    u8 v{b};
    auto r4 = stdx::call_by_need(fs, stdx::tuple<arg<0>, u8 &>{a, v});
    SAME(r4, stdx::tuple<u32, u8 &>);
    CHECK(adr(r4[1_idx]) == &v);
}
VP_HARNESS(moves, 2, q) {
    auto const a = nd<u8>(), b = nd<u8>(), c = nd<u8>();
    auto as = stdx::tuple<only<u8>, only<u8, 1>, only<u8, 2>>{only<u8>{a}, only<u8, 1>{b}, only<u8, 2>{c}};
    auto const r = stdx::call_by_need(stdx::tuple{[](only<u8, 1> x) { CHECK(not x.gone); return x; }}, std::move(as));
    SAME(r, stdx::tuple<only<u8, 1>, only<u8>, only<u8, 2>> const);
    CHECK(r[0_idx].v == b);
    CHECK(r[1_idx].v == a);
    CHECK(r[2_idx].v == c);
    CHECK(not r[0_idx].gone);
    CHECK(not r[1_idx].gone);
    CHECK(not r[2_idx].gone);
    auto ts = stdx::tuple{tracked<u8>{a}, tracked<u16>{b}};
    auto const s = stdx::call_by_need(stdx::tuple{[](tracked<u8> x) { return x.v; }}, ts);
    CHECK(s[0_idx] == a);
    CHECK(s[1_idx].v == b);
    CHECK(not ts[0_idx].gone);
    CHECK(not ts[1_idx].gone);
}
// functions can return references
VP_HARNESS(reference_results, 2, q) {
    auto const a = any<0>();
    auto as = stdx::tuple{a, any<1>()};
    auto const r = stdx::call_by_need(stdx::tuple{[](arg<0> &x) -> arg<0> & { return x; }, [](arg<1> const &x) { return x.v; }}, as);
    SAME(r, stdx::tuple<arg<0> &, u32> const);
    CHECK(adr(r[0_idx]) == adr(as[0_idx]));
    CHECK(r[1_idx] == as[1_idx].v);
}
// long argument lists, long calls and many functions
namespace {
template <typename Fs, typename Args, typename C> void both_ways(Fs make, Args const &args, C check) {
    auto as = args;
    check(stdx::call_by_need(make(), as));
    check(stdx::call_by_need(make(), std::move(as)));
}
} // namespace
VP_HARNESS(longer, 2, q) {
    auto const v = nd_array<u32, 10>();
    auto const as = stdx::tuple{arg<0>{v[0]}, arg<1>{v[1]}, arg<2>{v[2]}, arg<3>{v[3]}, arg<4>{v[4]}, arg<5>{v[5]}, arg<6>{v[6]}, arg<7>{v[7]}, arg<8>{v[8]}, arg<9>{v[9]}};
    // six arguments in one call, starting late
    both_ways([] { return stdx::tuple{[](arg<4> p, arg<5> q, arg<6> r, arg<7> s, arg<8> t, arg<9> u) { ++n; return mix(mix(mix(mix(mix(p.v, q.v), r.v), s.v), t.v), u.v); }}; },
             as, [&](auto const &r) {
                 CHECK(n == 1);
                 n = 0;
                 result(r, mix(mix(mix(mix(mix(v[4], v[5]), v[6]), v[7]), v[8]), v[9]), arg<0>{v[0]}, arg<1>{v[1]}, arg<2>{v[2]}, arg<3>{v[3]});
             });
    // one at the end and one at the start
    both_ways([] { return stdx::tuple{[](arg<9> p) { ++n; return p.v ^ 1u; }, [](arg<0> p, arg<1> q) { ++n; return mix(p.v, q.v); }, [](arg<7> p) { ++n; return p.v ^ 3u; }}; },
             as, [&](auto const &r) {
                 CHECK(n == 3);
                 n = 0;
                 result(r, v[9] ^ 1u, mix(v[0], v[1]), v[7] ^ 3u, arg<2>{v[2]}, arg<3>{v[3]}, arg<4>{v[4]}, arg<5>{v[5]}, arg<6>{v[6]}, arg<8>{v[8]});
             });
    // every argument in a call of its own, last first
    both_ways([] {
        return stdx::tuple{[](arg<9> p) { ++n; return p.v; }, [](arg<8> p) { ++n; return p.v; }, [](arg<7> p) { ++n; return p.v; }, [](arg<6> p) { ++n; return p.v; }, [](arg<5> p) { ++n; return p.v; },
                           [](arg<4> p) { ++n; return p.v; }, [](arg<3> p) { ++n; return p.v; }, [](arg<2> p) { ++n; return p.v; }, [](arg<1> p) { ++n; return p.v; }, [](arg<0> p) { ++n; return p.v; }};
    }, as, [&](auto const &r) {
        CHECK(n == 10);
        n = 0;
        result(r, v[9], v[8], v[7], v[6], v[5], v[4], v[3], v[2], v[1], v[0]);
    });
    // and all ten in one call
    both_ways([] { return stdx::tuple{[](auto const &...xs) { ++n; u32 h{3}; ((h = mix(h, xs.v)), ...); return h; }}; },
             as, [&](auto const &r) {
                 CHECK(n == 1);
                 n = 0;
                 u32 h{3};
                 unroll<10>([&](auto i) { h = mix(h, v[i]); });
                 result(r, h);
             });
}

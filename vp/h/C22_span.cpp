// span: which elements it denotes, for every length, offset and count.
// VP-CONFIG a: -std=c++20 -DPART=1
// VP-CONFIG b: -std=c++20 -DPART=2
// VP-CONFIG std23: -std=c++23 -DPART=2
#include "any_value.hpp"
#include <stdx/cx_vector.hpp>
#include <stdx/span.hpp>
#include <array>
#include <cstring>
#include <iterator>
#include <string_view>
#include <vector>
using namespace vp;

namespace {
constexpr std::size_t M = 5;
// S denotes the n elements at p
template <typename S, typename T> void denotes(S const &s, T *p, std::size_t n) {
    CHECK(s.data() == p);
    CHECK(s.size() == n);
    CHECK(s.size_bytes() == n * sizeof(T));
    CHECK(s.empty() == (n == 0));
    CHECK(s.begin() == p);
    CHECK(s.end() == p + n);
    CHECK(s.cbegin() == p);
    CHECK(s.cend() == p + n);
    CHECK(s.rbegin().base() == p + n);
    CHECK(s.rend().base() == p);
    CHECK(s.crbegin().base() == p + n);
    CHECK(s.crend().base() == p);
    if (n > 0) {
        CHECK(adr(s.front()) == p);
        CHECK(adr(s.back()) == p + (n - 1));
        auto const i = below<std::size_t>(n);
        CHECK(adr(s[i]) == p + i);
        CHECK(*s.rbegin() == p[n - 1]);
        CHECK(*(s.begin() + static_cast<std::ptrdiff_t>(i)) == p[i]);
        CHECK(*(s.crbegin() + static_cast<std::ptrdiff_t>(i)) == p[n - 1 - i]);
    }
}
template <typename S> constexpr bool is_dynamic = S::extent == stdx::dynamic_extent;

template <typename T> void dynamic() {
    auto data = nd_array<std::remove_const_t<T>, M>();
    T *const base = data.data();
    auto const o = below<std::size_t>(M + 1);
    auto const n = below<std::size_t>(M + 1);
    ASSUME(o + n <= M);
    T *const p = base + o;
    stdx::span<T> s{p, n};
    CHECK(is_dynamic<decltype(s)>);
    denotes(s, p, n);
    stdx::span<T> const ends{p, p + n};
    denotes(ends, p, n);
    stdx::span const deduced{p, p + n};
    CHECK(std::is_same_v<decltype(deduced), stdx::span<T> const>);
    denotes(deduced, p, n);
    stdx::span const counted{p, static_cast<int>(n)};
    denotes(counted, p, n);
    auto const copy = s;
    denotes(copy, p, n);
    stdx::span<T const> const constant{s};
    denotes(constant, static_cast<T const *>(p), n);

    auto const c = below<std::size_t>(M + 1);
    ASSUME(c <= n);
    denotes(s.first(c), p, c);
    denotes(s.last(c), p + (n - c), c);
    denotes(s.subspan(c), p + c, n - c);
    auto const k = below<std::size_t>(M + 1);
    ASSUME(c + k <= n);
    denotes(s.subspan(c, k), p + c, k);
    auto const huge = nd<std::size_t>();
    ASSUME(huge >= n - c);
    denotes(s.subspan(c, huge), p + c, n - c);
    CHECK(is_dynamic<decltype(s.first(c))> and is_dynamic<decltype(s.last(c))> and is_dynamic<decltype(s.subspan(c))>);
    if (n >= 3) {
        denotes(s.template first<3>(), p, 3);
        denotes(s.template first<0>(), p, 0);
        denotes(s.template last<2>(), p + (n - 2), 2);
        denotes(s.template last<0>(), p + n, 0);
        denotes(s.template subspan<2>(), p + 2, n - 2);
        denotes(s.template subspan<1, 2>(), p + 1, 2);
        denotes(s.template subspan<3, 0>(), p + 3, 0);
        CHECK(decltype(s.template first<3>())::extent == 3);
        CHECK(decltype(s.template last<2>())::extent == 2);
        CHECK(decltype(s.template subspan<1, 2>())::extent == 2);
        CHECK(is_dynamic<decltype(s.template subspan<2>())>);
        denotes(stdx::span<T, 3>{s}, p, 3);
        CHECK(adr(get<2>(s)) == p + 2);
    }
    COVER(n == 0);
    COVER(o > 0 and c > 0 and k > 0 and c + k < n);
}
template <typename T> void fixed() {
    auto data = nd_array<std::remove_const_t<T>, M>();
    T *const base = data.data();
    auto const o = below<std::size_t>(M + 1);
    ASSUME(o + 4 <= M);
    T *const p = base + o;
    stdx::span<T, 4> s{p, 4};
    CHECK(decltype(s)::extent == 4);
    CHECK(stdx::ct_capacity_v<decltype(s)> == 4);
    denotes(s, p, 4);
    denotes(stdx::span<T, 4>{p, p + 4}, p, 4);
    stdx::span<T> const d = s;
    denotes(d, p, 4);
    stdx::span<T const, 4> const c4 = s;
    denotes(c4, static_cast<T const *>(p), 4);
    auto const c = below<std::size_t>(5);
    denotes(s.first(c), p, c);
    denotes(s.last(c), p + (4 - c), c);
    denotes(s.subspan(c), p + c, 4 - c);
    auto const k = below<std::size_t>(5);
    ASSUME(c + k <= 4);
    denotes(s.subspan(c, k), p + c, k);
    unroll<5>([&](auto C) {
        denotes(s.template first<C>(), p, C);
        denotes(s.template last<C>(), p + (4 - C), C);
        denotes(s.template subspan<C>(), p + C, 4 - C);
        CHECK(decltype(s.template first<C>())::extent == C);
        CHECK(decltype(s.template last<C>())::extent == C);
        CHECK(decltype(s.template subspan<C>())::extent == 4 - C);
        unroll<5 - C>([&](auto K) {
            denotes(s.template subspan<C, K>(), p + C, K);
            CHECK(decltype(s.template subspan<C, K>())::extent == K);
        });
    });
    CHECK(adr(get<0>(s)) == p);
    CHECK(adr(get<3>(s)) == p + 3);
    CHECK(std::is_same_v<stdx::tuple_element_t<1, decltype(s)>, T>);
}
template <typename T> void bytes() {
    auto data = nd_array<T, M>();
    auto const o = below<std::size_t>(M + 1);
    auto const n = below<std::size_t>(M + 1);
    ASSUME(o + n <= M);
    stdx::span<T> s{data.data() + o, n};
    auto const b = stdx::as_bytes(s);
    CHECK(std::is_same_v<decltype(b), stdx::span<std::byte const> const>);
    CHECK(static_cast<void const *>(b.data()) == static_cast<void const *>(s.data()));
    CHECK(b.size() == n * sizeof(T));
    auto const w = stdx::as_writable_bytes(s);
    CHECK(std::is_same_v<decltype(w), stdx::span<std::byte> const>);
    CHECK(static_cast<void *>(w.data()) == static_cast<void *>(s.data()));
    CHECK(w.size() == n * sizeof(T));
    if (n > 0) {
        auto const i = below<std::size_t>(n);
        auto const j = below<std::size_t>(sizeof(T));
        auto const before = data;
        CHECK(b[i * sizeof(T) + j] == static_cast<std::byte>(s[i] >> (j * 8)));
        auto const v = static_cast<std::byte>(nd<std::uint8_t>());
        w[i * sizeof(T) + j] = v;
        auto const shift = j * 8;
        CHECK(s[i] == static_cast<T>((before[o + i] & ~(static_cast<T>(0xff) << shift)) | (static_cast<T>(v) << shift)));
        unroll<M>([&](auto x) {
            if (x != o + i) { CHECK(data[x] == before[x]); }
        });
    }
    stdx::span<T, 3> f{data.data(), 3};
    auto const fb = stdx::as_bytes(f);
    CHECK(std::is_same_v<decltype(fb), stdx::span<std::byte const, 3 * sizeof(T)> const>);
    CHECK(static_cast<void const *>(fb.data()) == static_cast<void const *>(f.data()));
    auto const fw = stdx::as_writable_bytes(f);
    CHECK(std::is_same_v<decltype(fw), stdx::span<std::byte, 3 * sizeof(T)> const>);
    CHECK(static_cast<void *>(fw.data()) == static_cast<void *>(f.data()));
    CHECK(fb.size() == 3 * sizeof(T) and fw.size() == 3 * sizeof(T));
    stdx::span<T const> sc{s};
    CHECK(static_cast<void const *>(stdx::as_bytes(sc).data()) == static_cast<void const *>(s.data()));
}
// elements larger than their alignment
struct triple {
    std::uint8_t a, b, c;
};
void bytes_of_triples() {
    std::array<triple, M> data{};
    unroll<M>([&](auto i) { data[i] = {nd<std::uint8_t>(), nd<std::uint8_t>(), nd<std::uint8_t>()}; });
    auto const o = below<std::size_t>(M + 1);
    auto const n = below<std::size_t>(M + 1);
    ASSUME(o + n <= M);
    stdx::span<triple> s{data.data() + o, n};
    CHECK(s.size_bytes() == 3 * n);
    auto const b = stdx::as_bytes(s);
    CHECK(b.size() == 3 * n);
    CHECK(static_cast<void const *>(b.data()) == static_cast<void const *>(s.data()));
    auto const w = stdx::as_writable_bytes(s);
    CHECK(w.size() == 3 * n);
    CHECK(static_cast<void *>(w.data()) == static_cast<void *>(s.data()));
    if (n > 0) { CHECK(b[3 * n - 1] == static_cast<std::byte>(data[o + n - 1].c)); }
    stdx::span<triple, 2> f{data.data(), 2};
    CHECK(stdx::as_bytes(f).size() == 6);
    CHECK(stdx::as_writable_bytes(f).size() == 6);
    CHECK(f.size_bytes() == 6);
    CHECK(s.subspan(n).size() == 0);
    CHECK(s.last(n).data() == data.data() + o);
}
template <typename T> void containers() {
    auto a = nd_array<T, 5>();
    auto const &ca = a;
    T raw[5];
    unroll<5>([&](auto i) { raw[i] = nd<T>(); });
    T const(&craw)[5] = raw;
    stdx::span const sa{a};
    CHECK(std::is_same_v<decltype(sa), stdx::span<T, 5> const>);
    denotes(sa, a.data(), 5);
    stdx::span const sca{ca};
    CHECK(std::is_same_v<decltype(sca), stdx::span<T const, 5> const>);
    denotes(sca, ca.data(), 5);
    stdx::span const sr{raw};
    CHECK(std::is_same_v<decltype(sr), stdx::span<T, 5> const>);
    denotes(sr, &raw[0], 5);
    stdx::span<T const> const scr{craw};
    denotes(scr, &craw[0], 5);
    stdx::span<T> const da{a};
    denotes(da, a.data(), 5);
    stdx::span<T> const dr{raw};
    denotes(dr, &raw[0], 5);
    stdx::span<T const> const dca = ca;
    denotes(dca, ca.data(), 5);
    stdx::span<T, 3> const part{a};
    denotes(part, a.data(), 3);
    stdx::span<T, 2> const rpart{raw};
    denotes(rpart, &raw[0], 2);
    stdx::span<T const, 4> const cpart{a};
    denotes(cpart, ca.data(), 4);

    stdx::cx_vector<T, 5> v{};
    auto const n = small(6);
    unroll<5>([&](auto i) {
        if (i < n) { v.push_back(nd<T>()); }
    });
    stdx::span const sv{v};
    CHECK(std::is_same_v<decltype(sv), stdx::span<T> const>);
    denotes(sv, &*v.begin(), n);
    auto const &cv = v;
    stdx::span const scv{cv};
    CHECK(std::is_same_v<decltype(scv), stdx::span<T const> const>);
    denotes(scv, &*cv.begin(), n);
    if (n >= 2) {
        stdx::span<T, 2> const two{v};
        denotes(two, &*v.begin(), 2);
    }
    auto const x = nd<T>();
    sa[2] = x;
    CHECK(a[2] == x);
    stdx::span<T> const none{};
    CHECK(none.data() == nullptr and none.size() == 0 and none.empty());
    stdx::span<T, 0> const zero{};
    CHECK(zero.empty() and zero.size() == 0 and zero.begin() == zero.end());
}
// more elements than a byte can count: only where the views are matters
template <typename T> void large() {
    static std::array<T, 600> a{};
    auto const n = below<std::size_t>(601);
    stdx::span<T> const s{a.data(), n};
    CHECK(s.size() == n and s.size_bytes() == n * sizeof(T) and s.empty() == (n == 0));
    CHECK(s.end() - s.begin() == static_cast<std::ptrdiff_t>(n));
    auto const off = below<std::size_t>(601);
    auto const cnt = below<std::size_t>(601);
    ASSUME(off + cnt <= n);
    auto const f = s.first(cnt);
    CHECK(f.data() == a.data() and f.size() == cnt);
    auto const l = s.last(cnt);
    CHECK(l.data() == a.data() + (n - cnt) and l.size() == cnt);
    auto const m = s.subspan(off, cnt);
    CHECK(m.data() == a.data() + off and m.size() == cnt);
    auto const r = s.subspan(off);
    CHECK(r.data() == a.data() + off and r.size() == n - off);
    CHECK(stdx::as_bytes(s).size() == n * sizeof(T));
    CHECK(stdx::as_writable_bytes(s).size() == n * sizeof(T));
    if (off < n) { CHECK(adr(s[off]) == a.data() + off); }
    stdx::span<T, 600> const whole{a};
    CHECK(whole.size() == 600 and whole.size_bytes() == 600 * sizeof(T));
    CHECK((whole.template subspan<300, 290>().data() == a.data() + 300));
    CHECK((whole.template subspan<300, 290>().size() == 290));
    CHECK(whole.template subspan<257>().size() == 343);
    CHECK(whole.template last<299>().data() == a.data() + 301);
    CHECK(stdx::as_bytes(whole).size() == 600 * sizeof(T));
    COVER(off == 599 and cnt == 1);
}
} // namespace

#if PART == 1
VP_HARNESS(dynamic_u8, 1, q) { dynamic<std::uint8_t>(); }
VP_HARNESS(dynamic_const_u16, 1, q) { dynamic<std::uint16_t const>(); }
VP_HARNESS(dynamic_u32, 1, q) { dynamic<std::uint32_t>(); }
VP_HARNESS(fixed_u8, 1, q) { fixed<std::uint8_t>(); }
VP_HARNESS(fixed_const_u32, 1, q) { fixed<std::uint32_t const>(); }
#else
VP_HARNESS(bytes_u8, 1, q) { bytes<std::uint8_t>(); }
VP_HARNESS(bytes_u16, 1, q) { bytes<std::uint16_t>(); }
VP_HARNESS(bytes_u32, 1, q) { bytes<std::uint32_t>(); }
VP_HARNESS(bytes_u64, 1, q) { bytes<std::uint64_t>(); }
VP_HARNESS(large_u8, 1, q) { large<std::uint8_t>(); }
VP_HARNESS(large_u32, 1, q) { large<std::uint32_t>(); }
VP_HARNESS(bytes_of_triples, 1, q) { bytes_of_triples(); }
VP_HARNESS(containers_u8, 5, q) { containers<std::uint8_t>(); }
VP_HARNESS(containers_u32, 5, q) { containers<std::uint32_t>(); }
#endif

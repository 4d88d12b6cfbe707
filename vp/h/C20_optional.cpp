// optional: engaged exactly when the value is not the tombstone.
// VP-CONFIG a: -std=c++20 -DPART=1
// VP-CONFIG b: -std=c++20 -DPART=2
// VP-CONFIG std23: -std=c++23 -DPART=3
#include "any_value.hpp"
#include <stdx/optional.hpp>
#include <stdx/utility.hpp>
#include <tuple>
using namespace vp;

namespace {
enum struct state : std::uint8_t { a, b, none = 0xee };
struct wide { // neither trivially copyable nor an aggregate
    std::uint32_t x{};
    std::uint8_t y{};
    wide() = default;
    wide(std::uint32_t a, std::uint8_t b) : x{a}, y{b} {}
    wide(wide const &o) : x{o.x}, y{o.y} {}
    wide(wide &&o) noexcept : x{std::exchange(o.x, 0xdeadu)}, y{o.y} {}
    auto operator=(wide const &o) -> wide & { x = o.x; y = o.y; return *this; }
    auto operator=(wide &&o) noexcept -> wide & { x = std::exchange(o.x, 0xdeadu); y = o.y; return *this; }
    ~wide() { x = 0xbadu; }
    friend auto operator==(wide const &l, wide const &r) -> bool { return l.x == r.x and l.y == r.y; }
};
// should only be moved: copying does not compile, or fails
template <bool Copies> struct mover {
    using not_copied = void;
    std::uint16_t x{};
    mover() = default;
    explicit mover(std::uint16_t a) : x{a} {}
    mover(mover const &o)
        requires Copies
        : x{o.x} {
        CHECK(not "copied");
    }
    mover(mover &&o) noexcept : x{std::exchange(o.x, std::uint16_t{0xdead})} {}
    auto operator=(mover const &o) -> mover &
        requires Copies
    {
        CHECK(not "copied");
        x = o.x;
        return *this;
    }
    auto operator=(mover &&o) noexcept -> mover & { x = std::exchange(o.x, std::uint16_t{0xdead}); return *this; }
    friend auto operator==(mover const &l, mover const &r) -> bool { return l.x == r.x; }
};
// knows whether it lives, and how many do
struct mortal {
    static inline int living{};
    std::uint8_t x{};
    std::uint8_t mark{0x5a};
    explicit mortal(std::uint8_t a) : x{a} { ++living; }
    mortal(mortal const &o) : x{o.x} { CHECK(o.mark == 0x5a); ++living; }
    auto operator=(mortal const &o) -> mortal & {
        CHECK(mark == 0x5a);
        CHECK(o.mark == 0x5a);
        x = o.x;
        return *this;
    }
    ~mortal() {
        CHECK(mark == 0x5a);
        mark = 0;
        --living;
    }
    friend auto operator==(mortal const &l, mortal const &r) -> bool {
        CHECK(l.mark == 0x5a);
        CHECK(r.mark == 0x5a);
        return l.x == r.x;
    }
};
// made from one of these
template <bool Copies> struct holder {
    using not_copied = void;
    mover<Copies> m;
    friend auto operator==(holder const &l, holder const &r) -> bool { return l.m == r.m; }
};
} // namespace
template <> struct stdx::tombstone_traits<state> {
    constexpr auto operator()() const { return state::none; }
};
template <> struct stdx::tombstone_traits<wide> {
    auto operator()() const { return wide{7u, 9}; }
};
template <> struct stdx::tombstone_traits<mortal> {
    auto operator()() const { return mortal{3}; }
};
template <bool C> struct stdx::tombstone_traits<mover<C>> {
    auto operator()() const { return mover<C>{41}; }
};
template <bool C> struct stdx::tombstone_traits<holder<C>> {
    auto operator()() const { return holder<C>{mover<C>{41}}; }
};

namespace {
template <typename T> auto some() -> T {
    if constexpr (std::is_same_v<T, wide>) {
        auto const x = nd<std::uint32_t>();
        return {x, nd<std::uint8_t>()};
    } else if constexpr (std::is_same_v<T, mortal>) {
        return mortal{nd<std::uint8_t>()};
    } else if constexpr (std::is_pointer_v<T>) {
        static std::remove_pointer_t<T> objects[2]{};
        return nd<bool>() ? nullptr : &objects[nd<bool>()];
    } else if constexpr (std::is_same_v<T, std::pair<float, state>> or std::is_same_v<T, std::tuple<float, state>>) {
        auto const x = nd<float>();
        return T{x, nd<state>()};
    } else {
        return nd<T>();
    }
}
// equal as objects (a NaN is the same as itself)
template <typename T> auto same_value(T const &a, T const &b) -> bool {
    if constexpr (std::is_same_v<T, float> or std::is_same_v<T, double>) {
        return a == b ? true : a != a and b != b;
    } else if constexpr (std::is_same_v<T, std::pair<float, state>>) {
        return same_value(a.first, b.first) and a.second == b.second;
    } else if constexpr (std::is_same_v<T, std::tuple<float, state>>) {
        return same_value(std::get<0>(a), std::get<0>(b)) and std::get<1>(a) == std::get<1>(b);
    } else {
        return a == b;
    }
}
// O holds exactly v, or the tombstone
template <typename O, typename T> void holds(O &o, T const &v, T const &stone) {
    auto const &c = o;
    bool const on = not(v == stone);
    CHECK(c.has_value() == on);
    CHECK(static_cast<bool>(c) == on);
    CHECK(same_value(c.value(), v));
    CHECK(same_value(o.value(), v));
    CHECK(same_value(*c, v));
    CHECK(same_value(*o, v));
    CHECK(adr(c.value()) == adr(o.value()));
    CHECK(adr(*c) == adr(c.value()));
    CHECK(c.operator->() == adr(c.value()));
    CHECK(o.operator->() == adr(o.value()));
    if constexpr (std::is_copy_constructible_v<T> and not requires { typename T::not_copied; }) {
        auto const d = some<T>();
        CHECK(same_value(c.value_or(d), on ? v : d));
    }
}
template <typename T, typename TS> void copies(T const &stone) {
    using O = stdx::optional<T, TS>;
    O none{};
    holds(none, stone, stone);
    O null{std::nullopt};
    holds(null, stone, stone);
    auto const v = some<T>();
    auto const w = some<T>();
    O o{v};
    holds(o, v, stone);
    O placed{std::in_place, v};
    holds(placed, v, stone);
    O copy{o};
    holds(copy, v, stone);
    holds(o, v, stone);
    O other{w};
    other = o;
    holds(other, v, stone);
    holds(o, v, stone);
    CHECK(same_value(o.emplace(w), w));
    holds(o, w, stone);
    holds(other, v, stone);
    std::swap(o, other);
    holds(o, v, stone);
    holds(other, w, stone);
    o.reset();
    holds(o, stone, stone);
    other = std::nullopt;
    holds(other, stone, stone);
    if constexpr (std::is_scalar_v<T>) {
        other = v;
        holds(other, v, stone);
    }
    O moved{std::move(copy)};
    holds(moved, v, stone);
    auto const d = some<T>();
    O last{w};
    last = std::move(moved);
    holds(last, v, stone);
    CHECK(same_value(T{O{last}.value()}, v));
    CHECK(same_value(T{*O{last}}, v));
    CHECK(same_value(O{last}.value_or(d), v == stone ? d : v));
    CHECK(same_value(T{std::as_const(last).value()}, v));
    O const constant{v};
    CHECK(same_value(T{std::move(constant).value()}, v));
    CHECK(same_value(T{*std::move(constant)}, v));
    COVER(v == stone);
    COVER(not(v == stone));
}
template <typename O, typename T> void step(O &o, T &held, T const &stone) {
    auto const op = small(6);
    auto v = some<T>();
    if (op == 0) { o.reset(); held = stone; }
    else if (op == 1) { o = std::nullopt; held = stone; }
    else if (op == 2) { o.emplace(v); held = v; }
    else if (op == 3) { o = O{v}; held = v; }
    else if (op == 4) { O const x{v}; o = x; held = v; }
    else { o.value() = v; held = v; }
    holds(o, held, stone);
}
template <typename T, typename TS> void history(T const &stone) {
    stdx::optional<T, TS> o{};
    T held{stone};
    unroll<4>([&](auto) { step(o, held, stone); });
    COVER(o.has_value());
}
template <auto V> using tv = stdx::tombstone_value<V>;
template <typename T> using traits = stdx::tombstone_traits<T>;
constexpr auto seventeen = CX_VALUE(std::uint16_t{17});
constexpr auto inf = __builtin_huge_valf();
} // namespace

#if PART == 1
VP_HARNESS(copies_u8, 1, q) { copies<std::uint8_t, tv<std::uint8_t{0xff}>>(0xff); }
VP_HARNESS(copies_i16, 1, q) { copies<std::int16_t, tv<std::int16_t{-1}>>(-1); }
VP_HARNESS(copies_u64, 1, q) { copies<std::uint64_t, tv<std::uint64_t{1} << 63>>(std::uint64_t{1} << 63); }
VP_HARNESS(copies_bool, 1, q) { copies<bool, tv<false>>(false); }
VP_HARNESS(copies_cx_value, 1, q) { copies<std::uint16_t, tv<seventeen>>(17); }
VP_HARNESS(copies_enum, 1, q) { copies<state, traits<state>>(state::none); }
VP_HARNESS(copies_enum_value, 1, q) { copies<state, tv<state::b>>(state::b); }
VP_HARNESS(copies_float, 1, q) { copies<float, traits<float>>(inf); }
VP_HARNESS(copies_double, 1, q) { copies<double, traits<double>>(inf); }
VP_HARNESS(copies_float_value, 1, q) { copies<float, tv<-1.5f>>(-1.5f); }
VP_HARNESS(copies_pointer, 1, q) { copies<std::uint32_t *, traits<std::uint32_t *>>(nullptr); }
VP_HARNESS(copies_pair, 1, q) { copies<std::pair<float, state>, traits<std::pair<float, state>>>({inf, state::none}); }
VP_HARNESS(copies_std_tuple, 1, q) { copies<std::tuple<float, state>, traits<std::tuple<float, state>>>({inf, state::none}); }
VP_HARNESS(copies_class, 1, q) { copies<wide, traits<wide>>({7u, 9}); }
#elif PART == 2
VP_HARNESS(history_u8, 1, q) { history<std::uint8_t, tv<std::uint8_t{0}>>(0); }
VP_HARNESS(history_enum, 1, q) { history<state, traits<state>>(state::none); }
VP_HARNESS(history_float, 1, q) { history<float, traits<float>>(inf); }
VP_HARNESS(history_tuple, 1, q) { history<std::tuple<float, state>, traits<std::tuple<float, state>>>({inf, state::none}); }
VP_HARNESS(history_class, 1, q) { history<wide, traits<wide>>({7u, 9}); }
// every value is destroyed once, when it is replaced or the optional goes
VP_HARNESS(lifetimes, 1, q) {
    {
        mortal const stone{3};
        stdx::optional<mortal> o{};
        mortal held{stone};
        CHECK(mortal::living == 3);
        unroll<3>([&](auto) {
            step(o, held, stone);
            CHECK(mortal::living == 3);
        });
        stdx::optional<mortal> p{o};
        CHECK(mortal::living == 4);
        o = p;
        o = held;
        o.emplace(nd<std::uint8_t>());
        p.reset();
        p = std::nullopt;
        CHECK(mortal::living == 4);
        COVER(o.has_value());
    }
    CHECK(mortal::living == 0);
}
// arguments and defaults that are lvalues are copied, and only those
VP_HARNESS(arguments_kept, 1, q) {
    wide const stone{7u, 9};
    auto const v = some<wide>(), d = some<wide>();
    auto def = d, arg = v;
    stdx::optional<wide> o{arg};
    CHECK(arg == v);
    CHECK(std::as_const(o).value_or(def) == (v == stone ? d : v));
    CHECK(def == d);
    CHECK(o.value_or(def) == (v == stone ? d : v));
    CHECK(def == d);
    holds(o, v, stone);
    CHECK(stdx::optional<wide>{o}.value_or(def) == (v == stone ? d : v));
    CHECK(def == d);
    o.reset();
    CHECK(o.value_or(def) == d);
    CHECK(std::move(o).value_or(def) == d);
    CHECK(def == d);
    CHECK(stdx::optional<wide>{}.value_or(std::move(def)) == d);
    stdx::optional<wide> p{std::in_place, arg};
    CHECK(arg == v);
    p.emplace(arg);
    CHECK(arg == v);
    p = arg;
    CHECK(arg == v);
    holds(p, v, stone);
    auto const q = p;
    holds(p, v, stone);
    stdx::optional<wide> r{};
    r = p;
    holds(p, v, stone);
    holds(r, v, stone);
    COVER(v == stone);
}
VP_HARNESS(class_arguments, 1, q) {
    wide const stone{7u, 9};
    auto const x = nd<std::uint32_t>();
    auto const y = nd<std::uint8_t>();
    stdx::optional<wide> o{std::in_place, x, y};
    holds(o, wide{x, y}, stone);
    auto const x2 = nd<std::uint32_t>();
    CHECK(adr(o.emplace(x2, y)) == adr(o.value()));
    holds(o, wide{x2, y}, stone);
    CHECK(o->x == x2);
    o->y = 3;
    holds(o, wide{x2, 3}, stone);
    auto const d = some<wide>();
    auto const r = std::move(o).value_or(d);
    CHECK(r == (x2 == 7u and false ? d : wide{x2, 3}));
    CHECK(std::is_same_v<stdx::optional<wide>::value_type, wide>);
}
namespace {
template <bool Copies> void only_moved() {
    using only_move = mover<Copies>;
    only_move const stone{41};
    auto const v = nd<std::uint16_t>();
    auto const w = nd<std::uint16_t>();
    stdx::optional<only_move> o{only_move{v}};
    holds(o, only_move{v}, stone);
    stdx::optional<only_move> p{std::move(o)};
    holds(p, only_move{v}, stone);
    o = std::move(p);
    holds(o, only_move{v}, stone);
    o.emplace(w);
    holds(o, only_move{w}, stone);
    stdx::optional<only_move> q{std::in_place, v};
    std::swap(o, q);
    holds(o, only_move{v}, stone);
    holds(q, only_move{w}, stone);
    auto const d = nd<std::uint16_t>();
    CHECK(std::move(q).value_or(only_move{d}).x == (w == 41 ? d : w));
    auto const t = std::move(o).value();
    CHECK(t.x == v);
    // arguments are passed on to the value
    using held = holder<Copies>;
    auto a1 = only_move{v};
    stdx::optional<held> h{std::in_place, std::move(a1)};
    holds(h, held{only_move{v}}, held{only_move{41}});
    CHECK(a1.x == 0xdead);
    auto a2 = only_move{w};
    h.emplace(std::move(a2));
    holds(h, held{only_move{w}}, held{only_move{41}});
    CHECK(a2.x == 0xdead);
    auto a3 = held{only_move{v}};
    h = std::move(a3);
    holds(h, held{only_move{v}}, held{only_move{41}});
    CHECK(a3.m.x == 0xdead);
}
} // namespace
VP_HARNESS(move_only, 1, q) { only_moved<false>(); }
VP_HARNESS(moved_not_copied, 1, q) { only_moved<true>(); }
namespace {
template <typename T, typename TS> void assigned(T const &stone) {
    stdx::optional<T, TS> o{};
    auto v = some<T>();
    auto const same = v;
    CHECK(adr(o = v) == &o);
    holds(o, same, stone);
    CHECK(same_value(v, same));
    auto const w = some<T>();
    CHECK(adr(o = w) == &o);
    holds(o, w, stone);
    CHECK(adr(o = std::move(v)) == &o);
    holds(o, same, stone);
    CHECK(adr(o = std::nullopt) == &o);
    holds(o, stone, stone);
}
} // namespace
VP_HARNESS(assign_u16, 1, q) { assigned<std::uint16_t, tv<std::uint16_t{0x8000}>>(0x8000); }
VP_HARNESS(assign_enum, 1, q) { assigned<state, traits<state>>(state::none); }
VP_HARNESS(assign_float, 1, q) { assigned<float, traits<float>>(inf); }
VP_HARNESS(assign_pointer, 1, q) { assigned<std::uint32_t *, traits<std::uint32_t *>>(nullptr); }
VP_HARNESS(assign_class, 1, q) { assigned<wide, traits<wide>>({7u, 9}); }
VP_HARNESS(assign_pair, 1, q) { assigned<std::pair<float, state>, traits<std::pair<float, state>>>({inf, state::none}); }
VP_HARNESS(assign_tuple, 1, q) { assigned<std::tuple<float, state>, traits<std::tuple<float, state>>>({inf, state::none}); }
// as with std::optional, empty braces mean nothing
VP_HARNESS(assign_braces_class, 1, q) {
    stdx::optional<wide> o{some<wide>()};
    o = {};
    CHECK(not o.has_value());
}
VP_HARNESS(assign_braces_scalar, 1, q) {
    stdx::optional<std::uint16_t, tv<std::uint16_t{7}>> o{nd<std::uint16_t>()};
    o = {};
    CHECK(not o.has_value());
}
VP_HARNESS(assign_convertible, 1, q) {
    stdx::optional<std::uint32_t, tv<5u>> o{};
    auto const v = nd<std::uint16_t>();
    o = v;
    holds(o, std::uint32_t{v}, 5u);
    stdx::optional d{nd<state>()};
    CHECK(std::is_same_v<decltype(d), stdx::optional<state>>);
}
#else
VP_HARNESS(copies_u8_23, 1, q) { copies<std::uint8_t, tv<std::uint8_t{0xff}>>(0xff); }
VP_HARNESS(copies_tuple_23, 1, q) { copies<std::tuple<float, state>, traits<std::tuple<float, state>>>({inf, state::none}); }
VP_HARNESS(copies_class_23, 1, q) { copies<wide, traits<wide>>({7u, 9}); }
#endif

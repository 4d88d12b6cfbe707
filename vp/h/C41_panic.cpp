// panic and STDX_PANIC: which overload of the handler is called, how often and with what.
// VP-CONFIG custom: -std=c++20 -DPART=1
// VP-CONFIG custom23: -std=c++23 -DPART=1
// VP-CONFIG plain: -std=c++20 -DPART=2
#include "vp.hpp"
#include <array>
#include <cstddef>
#include <cstdint>
#include <string_view>
#include <type_traits>
#include <utility>
#include <stdx/panic.hpp>
using namespace vp;

#if PART == 1
namespace {
unsigned runtime_calls{};
unsigned compile_time_calls{};
unsigned other_calls{};
std::size_t count{};
std::array<std::uint64_t, 4> values{};
std::array<void const *, 4> places{};
std::array<unsigned, 4> kinds{}; // 1 lvalue, 2 const lvalue, 3 rvalue
std::array<char, 8> message{};
std::size_t message_size{};

template <typename... Args> void keep(Args &&...args) {
    count = sizeof...(Args);
    std::size_t i{};
    (
        [&] {
            using A = Args &&;
            values[i] = static_cast<std::uint64_t>(args);
            places[i] = &args;
            kinds[i] = std::is_rvalue_reference_v<A>                            ? 3
                       : std::is_const_v<std::remove_reference_t<Args>> ? 2
                                                                                : 1;
            ++i;
        }(),
        ...);
}
struct handler {
    template <typename... Args> static auto panic(Args &&...args) noexcept -> void {
        ++runtime_calls;
        keep(std::forward<Args>(args)...);
    }
    template <stdx::ct_string S, typename... Args>
    static auto panic(Args &&...args) noexcept -> void {
        ++compile_time_calls;
        message_size = S.size();
        unroll<S.size()>([](auto i) { message[i] = S.value[i]; });
        keep(std::forward<Args>(args)...);
    }
};
struct other_handler {
    template <typename... Args> static auto panic(Args &&...args) noexcept -> void {
        other_calls += 1;
        keep(std::forward<Args>(args)...);
    }
    template <stdx::ct_string S, typename... Args>
    static auto panic(Args &&...args) noexcept -> void {
        other_calls += 0x100;
        message_size = S.size();
        unroll<S.size()>([](auto i) { message[i] = S.value[i]; });
        keep(std::forward<Args>(args)...);
    }
};
struct tag {};
struct second_tag {};
template <std::size_t N> void said(char const (&want)[N]) {
    CHECK(message_size == N - 1);
    unroll<N - 1>([&](auto i) { CHECK(message[i] == want[i]); });
}
} // namespace
template <> inline auto stdx::panic_handler<> = handler{};
template <> inline auto stdx::panic_handler<tag> = other_handler{};
template <> inline auto stdx::panic_handler<tag, second_tag> = handler{};

VP_HARNESS(without_message, 4, q) {
    stdx::panic();
    CHECK(runtime_calls == 1);
    CHECK(count == 0);
    auto a = nd<std::uint32_t>();
    auto const b = nd<std::uint64_t>();
    auto c = nd<std::uint8_t>();
    stdx::panic(a);
    CHECK(runtime_calls == 2);
    CHECK(count == 1);
    CHECK(values[0] == a);
    CHECK(places[0] == &a);
    CHECK(kinds[0] == 1);
    stdx::panic(std::move(c), b);
    CHECK(runtime_calls == 3);
    CHECK(count == 2);
    CHECK(values[0] == c);
    CHECK(values[1] == b);
    CHECK(places[0] == &c);
    CHECK(places[1] == &b);
    CHECK(kinds[0] == 3);
    CHECK(kinds[1] == 2);
    stdx::panic(a, b, c);
    CHECK(runtime_calls == 4);
    CHECK(count == 3);
    CHECK(values[0] == a);
    CHECK(values[1] == b);
    CHECK(values[2] == c);
    CHECK(places[2] == &c);
    CHECK(compile_time_calls == 0);
    CHECK(other_calls == 0);
}
VP_HARNESS(with_message, 4, q) {
    stdx::panic<"oh">();
    CHECK(compile_time_calls == 1);
    CHECK(count == 0);
    said("oh");
    auto a = nd<std::uint32_t>();
    auto const b = nd<std::uint64_t>();
    auto c = nd<std::uint8_t>();
    stdx::panic<"no!">(a);
    CHECK(compile_time_calls == 2);
    CHECK(count == 1);
    CHECK(values[0] == a);
    CHECK(places[0] == &a);
    CHECK(kinds[0] == 1);
    said("no!");
    stdx::panic<"">(std::move(c), b);
    CHECK(compile_time_calls == 3);
    CHECK(count == 2);
    CHECK(values[0] == c);
    CHECK(values[1] == b);
    CHECK(places[0] == &c);
    CHECK(places[1] == &b);
    CHECK(kinds[0] == 3);
    CHECK(kinds[1] == 2);
    said("");
    stdx::panic<"three">(a, b, c);
    CHECK(compile_time_calls == 4);
    CHECK(count == 3);
    CHECK(values[0] == a);
    CHECK(values[1] == b);
    CHECK(values[2] == c);
    CHECK(places[2] == &c);
    said("three");
    CHECK(runtime_calls == 0);
    CHECK(other_calls == 0);
}
VP_HARNESS(through_the_macro, 4, q) {
    STDX_PANIC("macro");
    CHECK(compile_time_calls == 1);
    CHECK(count == 0);
    said("macro");
    auto a = nd<std::uint32_t>();
    auto const b = nd<std::uint64_t>();
    STDX_PANIC("two", a, b);
    CHECK(compile_time_calls == 2);
    CHECK(count == 2);
    CHECK(values[0] == a);
    CHECK(values[1] == b);
    said("two");
    CHECK(runtime_calls == 0);
    CHECK(other_calls == 0);
}
// a handler customised for further template arguments
VP_HARNESS(by_type, 4, q) {
    auto a = nd<std::uint32_t>();
    auto b = nd<std::uint32_t>();
    stdx::panic<tag>(a, b);
    CHECK(other_calls == 1);
    CHECK(count == 2);
    CHECK(values[0] == a);
    CHECK(values[1] == b);
    stdx::panic<"tagged", tag>(b, a);
    CHECK(other_calls == 0x101);
    CHECK(values[0] == b);
    CHECK(values[1] == a);
    said("tagged");
    CHECK(runtime_calls == 0);
    CHECK(compile_time_calls == 0);
    stdx::panic<tag, second_tag>(a);
    CHECK(runtime_calls == 1);
    stdx::panic<"x", tag, second_tag>(b);
    CHECK(compile_time_calls == 1);
    said("x");
    CHECK(other_calls == 0x101);
}
// several panics in any order
VP_HARNESS(history, 6, q) {
    unsigned r{};
    unsigned c{};
    unroll<5>([&](auto) {
        auto v = nd<std::uint32_t>();
        switch (small(4)) {
        case 0: stdx::panic(v); ++r; break;
        case 1: stdx::panic<"m">(v); ++c; break;
        case 2: stdx::panic(std::uint8_t{1}, v); ++r; break;
        default: stdx::panic<"n">(std::uint8_t{1}, v); ++c; break;
        }
        CHECK(runtime_calls == r);
        CHECK(compile_time_calls == c);
        CHECK(values[count - 1] == v);
    });
}
#endif

#if PART == 2
namespace {
unsigned copies{};
struct watched {
    std::uint32_t v{};
    watched(std::uint32_t x) : v{x} {}
    watched(watched const &o) : v{o.v} { ++copies; }
    watched(watched &&o) noexcept : v{o.v} {
        o.v = 0;
        ++copies;
    }
    auto operator=(watched const &) -> watched & = delete;
};
} // namespace
VP_HARNESS(default_handler, 4, q) {
    auto const v = nd<std::uint32_t>();
    watched w{v};
    watched const c{v};
    stdx::panic();
    stdx::panic(w, c, std::move(w));
    stdx::panic<"message">();
    stdx::panic<"message">(w, c, std::move(w));
    STDX_PANIC("message", w);
    CHECK(copies == 0);
    CHECK(w.v == v);
    CHECK(c.v == v);
}
#endif

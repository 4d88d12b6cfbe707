#pragma once
// Counts the panics; `vp::on_panic` is called at each of them.
#include "vp.hpp"
#include <stdx/panic.hpp>

namespace vp {
inline unsigned panics{};
inline void (*on_panic)(){};
struct counting_panic_handler {
    static void raised() {
        ++panics;
        if (on_panic != nullptr) { on_panic(); }
    }
    template <typename... Args> static auto panic(Args &&...) noexcept -> void { raised(); }
    template <stdx::ct_string, typename... Args> static auto panic(Args &&...) noexcept -> void { raised(); }
};
} // namespace vp
template <> inline auto stdx::panic_handler<> = vp::counting_panic_handler{};

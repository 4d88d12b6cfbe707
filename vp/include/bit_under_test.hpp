#pragma once
// FALLBACK: the library's own versions of the <bit> functions are selected, as with a
// standard library that lacks them; FALLBACK=2 also takes the branch for other compilers.
#include "vp.hpp"
#include <algorithm>
#include <array>
#include <bit>
#include <cstdint>
#include <functional>
#include <limits>
#include <type_traits>
#include <utility>
#include <stdx/compiler.hpp>
#ifdef FALLBACK
#undef __cpp_lib_endian
#undef __cpp_lib_bit_cast
#undef __cpp_lib_byteswap
#undef __cpp_lib_bitops
#undef __cpp_lib_int_pow2
#if FALLBACK == 2
#undef __clang__
#endif
#endif
#include <stdx/bit.hpp>
using u8 = std::uint8_t;
using u16 = std::uint16_t;
using u32 = std::uint32_t;
using u64 = std::uint64_t;

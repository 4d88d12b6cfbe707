From f9b4378f77050f72a681825177880478b9cf8ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:28:07 +0000
Subject: [PATCH 01/33] fix: keep the unused bits of bitset storage clear

Constructing from an integer, set(), flip(), ~ and <<= could leave bits
beyond the size of the bitset set in the last storage element. They were
then seen by lowest_unset, transform_reduce and >>=.
---
 include/stdx/bitset.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/stdx/bitset.hpp b/include/stdx/bitset.hpp
index a48b7d9..2879833 100644
--- a/include/stdx/bitset.hpp
+++ b/include/stdx/bitset.hpp
@@ -88,6 +88,12 @@ class bitset {
         return storage.back() & lastmask;
     }
 
+    constexpr auto clear_padding() -> void {
+        if constexpr (N > 0) {
+            storage.back() &= lastmask;
+        }
+    }
+
     [[nodiscard]] constexpr static auto indices(std::size_t pos) {
         struct locator {
             std::size_t index;
@@ -194,6 +200,7 @@ class bitset {
                 value >>= storage_elem_size;
             }
         }
+        clear_padding();
     }
 
     template <typename... Bs>
@@ -323,6 +330,7 @@ class bitset {
         for (auto &elem : storage) {
             elem = allbits;
         }
+        clear_padding();
         return *this;
     }
 
@@ -371,6 +379,7 @@ class bitset {
         for (auto &elem : storage) {
             elem ^= allbits;
         }
+        clear_padding();
         return *this;
     }
 
@@ -417,6 +426,7 @@ class bitset {
         for (auto i = std::size_t{}; i < storage_size; ++i) {
             result.storage[i] = static_cast<elem_t>(~storage[i]);
         }
+        result.clear_padding();
         return result;
     }
 
@@ -463,6 +473,7 @@ class bitset {
             while (dst > std::size_t{}) {
                 storage[--dst] = 0;
             }
+            clear_padding();
         }
         return *this;
     }
-- 
2.43.0


From 0625dd29fbc02626ce7e28a31fa6e3696cdcfc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:28:07 +0000
Subject: [PATCH 02/33] fix: shift a bitset by its size or more

Shifting left by at least the storage size indexed out of bounds, and
shifting right by that much kept bits of the last element.
---
 include/stdx/bitset.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/stdx/bitset.hpp b/include/stdx/bitset.hpp
index 2879833..fdc47f9 100644
--- a/include/stdx/bitset.hpp
+++ b/include/stdx/bitset.hpp
@@ -451,6 +451,9 @@ class bitset {
 
     constexpr auto operator<<=(std::size_t pos) LIFETIMEBOUND->bitset & {
         if constexpr (N != 0) {
+            if (pos >= N) {
+                return reset();
+            }
             auto dst = storage_size - 1;
             auto const start = dst - (pos / storage_elem_size);
             pos %= storage_elem_size;
@@ -480,6 +483,9 @@ class bitset {
 
     constexpr auto operator>>=(std::size_t pos) LIFETIMEBOUND->bitset & {
         if constexpr (N != 0) {
+            if (pos >= N) {
+                return reset();
+            }
             auto dst = std::size_t{};
             auto const start = pos / storage_elem_size;
             pos %= storage_elem_size;
-- 
2.43.0


From 12b7590f9cd084c35079dc3ed99933cbef08c045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:28:07 +0000
Subject: [PATCH 03/33] fix: for_each on an empty bitset

The loop bound wrapped around when there is no storage.
---
 include/stdx/bitset.hpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/stdx/bitset.hpp b/include/stdx/bitset.hpp
index fdc47f9..a78c21c 100644
--- a/include/stdx/bitset.hpp
+++ b/include/stdx/bitset.hpp
@@ -153,14 +153,16 @@ class bitset {
 
     template <detail::bit_spec Spec, typename F>
     constexpr auto for_each(F &&f) const -> F {
-        std::size_t idx = 0;
-        for (auto i = std::size_t{}; i < storage_size - 1; ++i) {
-            Spec::template fn<bit, iter_arg_t,
-                              std::numeric_limits<elem_t>::max()>(storage[i],
-                                                                  idx, f);
-            idx += std::numeric_limits<elem_t>::digits;
+        if constexpr (N != 0) {
+            std::size_t idx = 0;
+            for (auto i = std::size_t{}; i < storage_size - 1; ++i) {
+                Spec::template fn<bit, iter_arg_t,
+                                  std::numeric_limits<elem_t>::max()>(
+                    storage[i], idx, f);
+                idx += std::numeric_limits<elem_t>::digits;
+            }
+            Spec::template fn<bit, iter_arg_t, lastmask>(highbits(), idx, f);
         }
-        Spec::template fn<bit, iter_arg_t, lastmask>(highbits(), idx, f);
         return std::forward<F>(f);
     }
 
-- 
2.43.0


From a32cb06e8da73ad56f326f9b055e4ae6d2a66c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:28:07 +0000
Subject: [PATCH 04/33] fix: convert a bitset to an enumeration wider than its
 storage element

---
 include/stdx/bitset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdx/bitset.hpp b/include/stdx/bitset.hpp
index a78c21c..caf5808 100644
--- a/include/stdx/bitset.hpp
+++ b/include/stdx/bitset.hpp
@@ -251,7 +251,7 @@ class bitset {
         } else {
             U result{highbits()};
             for (auto i = storage_size - 2u; i < storage_size; --i) {
-                result = static_cast<T>(result << storage_elem_size);
+                result = static_cast<U>(result << storage_elem_size);
                 result |= storage[i];
             }
             return static_cast<T>(result);
-- 
2.43.0


From df2ab03b301e66c7fc48e0112401345d745e7ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:28:07 +0000
Subject: [PATCH 05/33] fix: index type_bitset by distinct types

set, reset and flip looked types up in the list with duplicates, so they
addressed a different bit than operator[].
---
 include/stdx/bitset.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/stdx/bitset.hpp b/include/stdx/bitset.hpp
index caf5808..52b25f7 100644
--- a/include/stdx/bitset.hpp
+++ b/include/stdx/bitset.hpp
@@ -626,24 +626,24 @@ template <typename... Ts> class type_bitset {
 
     template <typename... Us>
     constexpr auto set(bool value = true) LIFETIMEBOUND -> type_bitset & {
-        static_assert((... and (detail::index_of<Us, type_list<Ts...>> < N)),
+        static_assert((... and (detail::index_of<Us, list_t> < N)),
                       "Type not found in bitset");
         if constexpr (sizeof...(Us) == 0) {
             bs.set();
         } else {
-            (bs.set(detail::index_of<Us, type_list<Ts...>>, value), ...);
+            (bs.set(detail::index_of<Us, list_t>, value), ...);
         }
         return *this;
     }
 
     template <typename... Us>
     constexpr auto reset() LIFETIMEBOUND -> type_bitset & {
-        static_assert((... and (detail::index_of<Us, type_list<Ts...>> < N)),
+        static_assert((... and (detail::index_of<Us, list_t> < N)),
                       "Type not found in bitset");
         if constexpr (sizeof...(Us) == 0) {
             bs.reset();
         } else {
-            (bs.reset(detail::index_of<Us, type_list<Ts...>>), ...);
+            (bs.reset(detail::index_of<Us, list_t>), ...);
         }
         return *this;
     }
@@ -655,12 +655,12 @@ template <typename... Ts> class type_bitset {
 
     template <typename... Us>
     constexpr auto flip() LIFETIMEBOUND -> type_bitset & {
-        static_assert((... and (detail::index_of<Us, type_list<Ts...>> < N)),
+        static_assert((... and (detail::index_of<Us, list_t> < N)),
                       "Type not found in bitset");
         if constexpr (sizeof...(Us) == 0) {
             bs.flip();
         } else {
-            (bs.flip(detail::index_of<Us, type_list<Ts...>>), ...);
+            (bs.flip(detail::index_of<Us, list_t>), ...);
         }
         return *this;
     }
-- 
2.43.0


From 60a91191e67bd2cf7ed2264f504343266bd809b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:52:27 +0000
Subject: [PATCH 06/33] fix: exchange on an atomic enumeration with a wider
 underlying type

---
 include/stdx/atomic.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/stdx/atomic.hpp b/include/stdx/atomic.hpp
index c1a6d9f..1582ca7 100644
--- a/include/stdx/atomic.hpp
+++ b/include/stdx/atomic.hpp
@@ -68,7 +68,8 @@ template <typename T> class atomic {
 
     [[nodiscard]] auto
     exchange(T t, std::memory_order mo = std::memory_order_seq_cst) -> T {
-        return ::atomic::exchange(value, static_cast<elem_t>(t), mo);
+        return static_cast<T>(
+            ::atomic::exchange(value, static_cast<elem_t>(t), mo));
     }
 
     auto fetch_add(T t, std::memory_order mo = std::memory_order_seq_cst) -> T {
-- 
2.43.0


From b830fbe05bfb25fda721e005a483551d45d9535d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:52:27 +0000
Subject: [PATCH 07/33] fix: atomic signed arithmetic without overflow

Compound assignment and prefix increment/decrement computed their result
with signed arithmetic, which overflows where std::atomic wraps.
---
 include/stdx/atomic.hpp | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/include/stdx/atomic.hpp b/include/stdx/atomic.hpp
index 1582ca7..f238c89 100644
--- a/include/stdx/atomic.hpp
+++ b/include/stdx/atomic.hpp
@@ -39,6 +39,24 @@ template <typename T> class atomic {
 
     alignas(alignment) elem_t value;
 
+    // like std::atomic, signed integral arithmetic wraps
+    template <typename V> constexpr static auto add(T x, V y) -> T {
+        if constexpr (std::is_integral_v<T> and std::is_signed_v<T>) {
+            using U = std::make_unsigned_t<T>;
+            return static_cast<T>(static_cast<U>(x) + static_cast<U>(y));
+        } else {
+            return x + y;
+        }
+    }
+    template <typename V> constexpr static auto sub(T x, V y) -> T {
+        if constexpr (std::is_integral_v<T> and std::is_signed_v<T>) {
+            using U = std::make_unsigned_t<T>;
+            return static_cast<T>(static_cast<U>(x) - static_cast<U>(y));
+        } else {
+            return x - y;
+        }
+    }
+
   public:
     using value_type = T;
 
@@ -81,12 +99,12 @@ template <typename T> class atomic {
         return ::atomic::fetch_sub(value, static_cast<elem_t>(t), mo);
     }
 
-    auto operator+=(T t) -> T { return fetch_add(t) + t; }
-    auto operator-=(T t) -> T { return fetch_sub(t) - t; }
+    auto operator+=(T t) -> T { return add(fetch_add(t), t); }
+    auto operator-=(T t) -> T { return sub(fetch_sub(t), t); }
 
     auto operator++() -> T {
         static_assert(requires(T t) { ++t; }, "T must support operator++()");
-        return ::atomic::fetch_add(value, 1) + 1;
+        return add(static_cast<T>(::atomic::fetch_add(value, 1)), 1);
     }
     [[nodiscard]] auto operator++(int) -> T {
         static_assert(requires(T t) { t++; }, "T must support operator++(int)");
@@ -94,7 +112,7 @@ template <typename T> class atomic {
     }
     auto operator--() -> T {
         static_assert(requires(T t) { --t; }, "T must support operator--()");
-        return ::atomic::fetch_sub(value, 1) - 1;
+        return sub(static_cast<T>(::atomic::fetch_sub(value, 1)), 1);
     }
     [[nodiscard]] auto operator--(int) -> T {
         static_assert(requires(T t) { t--; }, "T must support operator--(int)");
-- 
2.43.0


From 68d28f1c392df390e902682d0e2bd5469b844d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:54:12 +0000
Subject: [PATCH 08/33] fix: convert a bitset to a type narrower than its
 storage element

---
 include/stdx/bitset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdx/bitset.hpp b/include/stdx/bitset.hpp
index 52b25f7..f47223c 100644
--- a/include/stdx/bitset.hpp
+++ b/include/stdx/bitset.hpp
@@ -249,7 +249,7 @@ class bitset {
         if constexpr (std::is_same_v<elem_t, U>) {
             return static_cast<T>(storage[0] & lastmask);
         } else {
-            U result{highbits()};
+            auto result = static_cast<U>(highbits());
             for (auto i = storage_size - 2u; i < storage_size; --i) {
                 result = static_cast<U>(result << storage_elem_size);
                 result |= storage[i];
-- 
2.43.0


From 742352478418ab8c01bf6ccd104e3b25bf6f4be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:59:03 +0000
Subject: [PATCH 09/33] fix: rotate by any amount in the own versions of rotl
 and rotr

---
 include/stdx/bit.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/stdx/bit.hpp b/include/stdx/bit.hpp
index 5587bfa..be67dd0 100644
--- a/include/stdx/bit.hpp
+++ b/include/stdx/bit.hpp
@@ -170,6 +170,7 @@ template <typename T>
 template <typename T>
 [[nodiscard]] constexpr auto rotl(T x, int s) noexcept
     -> std::enable_if_t<std::is_unsigned_v<T>, T> {
+    s %= std::numeric_limits<T>::digits;
     if (s == 0) {
         return x;
     }
@@ -182,6 +183,7 @@ template <typename T>
 template <typename T>
 [[nodiscard]] constexpr auto rotr(T x, int s) noexcept
     -> std::enable_if_t<std::is_unsigned_v<T>, T> {
+    s %= std::numeric_limits<T>::digits;
     if (s == 0) {
         return x;
     }
-- 
2.43.0


From 19f635c2d3fdcb5b1a0f248a19a604e2d44a518f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:59:03 +0000
Subject: [PATCH 10/33] fix: 64-bit bit_ceil and bit_floor in the own versions

---
 include/stdx/bit.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdx/bit.hpp b/include/stdx/bit.hpp
index be67dd0..22bcb9b 100644
--- a/include/stdx/bit.hpp
+++ b/include/stdx/bit.hpp
@@ -223,7 +223,7 @@ template <typename T>
     if (x <= 1U) {
         return 1U;
     }
-    return T(1U << bit_width(x - 1U));
+    return T(T{1} << bit_width(T(x - 1U)));
 }
 
 template <typename T>
@@ -232,7 +232,7 @@ template <typename T>
     if (x == 0) {
         return x;
     }
-    return T(1U << (bit_width(x) - 1));
+    return T(T{1} << (bit_width(x) - 1));
 }
 #else
 using std::bit_ceil;
-- 
2.43.0


From 95eabac11469ab79a3bf63856039713cf174a626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:03:16 +0000
Subject: [PATCH 11/33] fix: make the reverse iterators of cx_vector compile

---
 include/stdx/cx_vector.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/stdx/cx_vector.hpp b/include/stdx/cx_vector.hpp
index ef1bf2d..0d8814e 100644
--- a/include/stdx/cx_vector.hpp
+++ b/include/stdx/cx_vector.hpp
@@ -58,27 +58,27 @@ template <typename T, std::size_t N> class cx_vector {
     }
 
     [[nodiscard]] constexpr auto rbegin() LIFETIMEBOUND -> reverse_iterator {
-        return end();
+        return reverse_iterator{end()};
     }
     [[nodiscard]] constexpr auto rbegin() const LIFETIMEBOUND
         -> const_reverse_iterator {
-        return end();
+        return const_reverse_iterator{end()};
     }
     [[nodiscard]] constexpr auto crbegin() const LIFETIMEBOUND
         -> const_reverse_iterator {
-        return cend();
+        return const_reverse_iterator{cend()};
     }
 
     [[nodiscard]] constexpr auto rend() LIFETIMEBOUND -> reverse_iterator {
-        return begin();
+        return reverse_iterator{begin()};
     }
     [[nodiscard]] constexpr auto rend() const LIFETIMEBOUND
         -> const_reverse_iterator {
-        return begin();
+        return const_reverse_iterator{begin()};
     }
     [[nodiscard]] constexpr auto crend() const LIFETIMEBOUND
         -> const_reverse_iterator {
-        return cbegin();
+        return const_reverse_iterator{cbegin()};
     }
 
     [[nodiscard]] constexpr auto front() LIFETIMEBOUND -> reference {
-- 
2.43.0


From a6131f46433a1173bf0fcc96082dc6c3e9bd3b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:23:24 +0000
Subject: [PATCH 12/33] fix: construct a cx_set without duplicate members

---
 include/stdx/cx_set.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/stdx/cx_set.hpp b/include/stdx/cx_set.hpp
index 914d86f..579b108 100644
--- a/include/stdx/cx_set.hpp
+++ b/include/stdx/cx_set.hpp
@@ -25,8 +25,9 @@ template <typename Key, std::size_t N> class cx_set {
     constexpr cx_set() = default;
     template <convertible_to<key_type>... Ts>
         requires(sizeof...(Ts) <= N)
-    constexpr explicit cx_set(Ts const &...ts)
-        : storage{static_cast<key_type>(ts)...}, current_size{sizeof...(Ts)} {}
+    constexpr explicit cx_set(Ts const &...ts) {
+        (insert(static_cast<key_type>(ts)), ...);
+    }
 
     [[nodiscard]] constexpr auto begin() LIFETIMEBOUND -> iterator {
         return std::data(storage);
-- 
2.43.0


From 6afd1c12671c8220b4f4dcadc2db8ce95041edb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:59:17 +0000
Subject: [PATCH 13/33] fix: keep a valueless key when erasing a value it does
 not have

---
 include/stdx/cx_multimap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdx/cx_multimap.hpp b/include/stdx/cx_multimap.hpp
index 86ba742..5559bab 100644
--- a/include/stdx/cx_multimap.hpp
+++ b/include/stdx/cx_multimap.hpp
@@ -74,7 +74,7 @@ class cx_multimap {
         if (storage.contains(k)) {
             auto &s = storage.get(k);
             auto const r = s.erase(v);
-            if (s.empty()) {
+            if (r != 0 and s.empty()) {
                 storage.erase(k);
             }
             return r;
-- 
2.43.0


From 922977894a1e0f3342046243c83c452028aeb374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:32:22 +0000
Subject: [PATCH 14/33] fix: terminate the list when inserting a node with a
 stale link at the end

---
 include/stdx/intrusive_list.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/stdx/intrusive_list.hpp b/include/stdx/intrusive_list.hpp
index 2f8ccd4..8cff599 100644
--- a/include/stdx/intrusive_list.hpp
+++ b/include/stdx/intrusive_list.hpp
@@ -91,6 +91,7 @@ class intrusive_list {
             n->prev = p->prev;
             p->prev = n;
         } else {
+            n->next = nullptr;
             n->prev = tail;
             tail = n;
         }
-- 
2.43.0


From 843c54bab8fd4f207cee8f0b29a1de5a6ef816f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:40:31 +0000
Subject: [PATCH 15/33] fix: multiply rollover values without signed overflow

---
 include/stdx/rollover.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdx/rollover.hpp b/include/stdx/rollover.hpp
index a791df8..f8463a6 100644
--- a/include/stdx/rollover.hpp
+++ b/include/stdx/rollover.hpp
@@ -52,7 +52,7 @@ template <typename T> struct rollover_t {
         return *this;
     }
     constexpr auto operator*=(rollover_t other) -> rollover_t & {
-        value *= other.value;
+        value = static_cast<underlying_t>(1u * value * other.value);
         return *this;
     }
     constexpr auto operator/=(rollover_t other) -> rollover_t & {
-- 
2.43.0


From 79630f3451ceb921915d77330e5b0913ff824901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:40:31 +0000
Subject: [PATCH 16/33] fix: saturate casts between types of different
 signedness

---
 include/stdx/numeric.hpp | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/include/stdx/numeric.hpp b/include/stdx/numeric.hpp
index 2706030..12086e2 100644
--- a/include/stdx/numeric.hpp
+++ b/include/stdx/numeric.hpp
@@ -1,6 +1,5 @@
 #pragma once
 
-#include <algorithm>
 #include <functional>
 #include <limits>
 #include <type_traits>
@@ -38,22 +37,23 @@ constexpr auto saturate_cast(From from) -> To {
     constexpr auto to_min = std::numeric_limits<To>::min();
     constexpr auto to_max = std::numeric_limits<To>::max();
 
-    if constexpr (sizeof(From) > sizeof(To)) {
-        auto const clamped = std::clamp<From>(from, to_min, to_max);
-        return static_cast<To>(clamped);
-    }
-
-    if constexpr (sizeof(From) == sizeof(To)) {
-        if constexpr (std::is_unsigned_v<From> and std::is_signed_v<To>) {
-            if (from > to_max) {
-                return to_max;
-            }
+    if constexpr (std::is_signed_v<From> == std::is_signed_v<To>) {
+        if (from < to_min) {
+            return to_min;
         }
-
-        if constexpr (std::is_signed_v<From> and std::is_unsigned_v<To>) {
-            if (from < 0) {
-                return static_cast<To>(0);
-            }
+        if (from > to_max) {
+            return to_max;
+        }
+    } else if constexpr (std::is_signed_v<From>) {
+        if (from < 0) {
+            return to_min;
+        }
+        if (static_cast<std::make_unsigned_t<From>>(from) > to_max) {
+            return to_max;
+        }
+    } else {
+        if (from > static_cast<std::make_unsigned_t<To>>(to_max)) {
+            return to_max;
         }
     }
 
-- 
2.43.0


From 4435d458a0dcc9764c1a015af6db45b2943ccbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:44:06 +0000
Subject: [PATCH 17/33] fix: skip any number of elements in for_each_butlastn

---
 include/stdx/algorithm.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/stdx/algorithm.hpp b/include/stdx/algorithm.hpp
index d2ccb99..fd95e01 100644
--- a/include/stdx/algorithm.hpp
+++ b/include/stdx/algorithm.hpp
@@ -2,6 +2,7 @@
 
 #include <stdx/tuple.hpp>
 
+#include <cstddef>
 #include <functional>
 #include <iterator>
 
@@ -93,7 +94,11 @@ constexpr auto for_each_butlastn(std::random_access_iterator_tag, RandIt first,
                                  RandIt last, N n, Operation op,
                                  RandItN... first_n) {
     auto const sz = std::distance(first, last);
-    return for_each_n(first, sz - static_cast<decltype(sz)>(n), op, first_n...);
+    auto const skip =
+        static_cast<std::size_t>(n) < static_cast<std::size_t>(sz)
+            ? static_cast<decltype(sz)>(n)
+            : sz;
+    return for_each_n(first, sz - skip, op, first_n...);
 }
 } // namespace detail
 
-- 
2.43.0


From 9d6ed27d7dbc7b7721dd471b23db07ed077d5083 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 21:15:59 +0000
Subject: [PATCH 18/33] fix: decay the single argument of tuple_cons and
 tuple_snoc

---
 include/stdx/tuple_algorithms.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdx/tuple_algorithms.hpp b/include/stdx/tuple_algorithms.hpp
index be86d1f..d7d20a6 100644
--- a/include/stdx/tuple_algorithms.hpp
+++ b/include/stdx/tuple_algorithms.hpp
@@ -103,7 +103,7 @@ template <typename T, has_tuple_protocol Tup>
     return [&]<std::size_t... Is>(std::index_sequence<Is...>) {
         using std::get;
         using new_tuple_t =
-            boost::mp11::mp_push_front<tuple_t, std::remove_cvref_t<T>>;
+            boost::mp11::mp_push_front<tuple_t, std::decay_t<T>>;
         return new_tuple_t{std::forward<T>(t),
                            get<Is>(std::forward<Tup>(tup))...};
     }(std::make_index_sequence<stdx::tuple_size_v<tuple_t>>{});
@@ -115,7 +115,7 @@ template <has_tuple_protocol Tup, typename T>
     return [&]<std::size_t... Is>(std::index_sequence<Is...>) {
         using std::get;
         using new_tuple_t =
-            boost::mp11::mp_push_back<tuple_t, std::remove_cvref_t<T>>;
+            boost::mp11::mp_push_back<tuple_t, std::decay_t<T>>;
         return new_tuple_t{get<Is>(std::forward<Tup>(tup))...,
                            std::forward<T>(t)};
     }(std::make_index_sequence<stdx::tuple_size_v<tuple_t>>{});
-- 
2.43.0


From d4520395e95d04f2b173c1d35fb474c9ee8b877c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 21:15:59 +0000
Subject: [PATCH 19/33] fix: accept an lvalue function object in for_each over
 one tuple

---
 include/stdx/tuple.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/stdx/tuple.hpp b/include/stdx/tuple.hpp
index dbb76c2..ad1a341 100644
--- a/include/stdx/tuple.hpp
+++ b/include/stdx/tuple.hpp
@@ -515,10 +515,9 @@ constexpr auto transform(Op &&op, T &&t) {
 
 template <typename Op, tuplelike T>
 constexpr auto for_each(Op &&op, T &&t) -> Op {
-    return std::forward<T>(t).apply([&]<typename... Ts>(Ts &&...ts) {
-        (op(std::forward<Ts>(ts)), ...);
-        return op;
-    });
+    std::forward<T>(t).apply(
+        [&]<typename... Ts>(Ts &&...ts) { (op(std::forward<Ts>(ts)), ...); });
+    return op;
 }
 
 template <typename... Ts>
-- 
2.43.0


From bee67c8c69d43a311e932baaf530265a4eedca8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:18:05 +0000
Subject: [PATCH 20/33] fix: qualify calls in cartesian_product so that std
 element types work

---
 include/stdx/tuple_algorithms.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/stdx/tuple_algorithms.hpp b/include/stdx/tuple_algorithms.hpp
index d7d20a6..2944fe8 100644
--- a/include/stdx/tuple_algorithms.hpp
+++ b/include/stdx/tuple_algorithms.hpp
@@ -442,8 +442,8 @@ template <tuplelike... Ts> constexpr auto cartesian_product_copy(Ts &&...ts) {
                                                         Elems &&...elems) {
                 [[maybe_unused]] auto const prepend = [&]<typename E>(E &&e) {
                     return c.apply([&](auto... subs) {
-                        return make_tuple(
-                            tuple_cat(make_tuple(std::forward<E>(e)), subs)...);
+                        return stdx::make_tuple(tuple_cat(
+                            stdx::make_tuple(std::forward<E>(e)), subs)...);
                     });
                 };
                 return tuple_cat(prepend(std::forward<Elems>(elems))...);
@@ -463,8 +463,10 @@ template <tuplelike... Ts> constexpr auto cartesian_product(Ts &&...ts) {
                 [&]<typename... Elems>(Elems &&...elems) {
                     auto const prepend = [&]<typename E>(E &&e) {
                         return c.apply([&](auto... subs) {
-                            return make_tuple(tuple_cat(
-                                forward_as_tuple(std::forward<E>(e)), subs)...);
+                            return stdx::make_tuple(
+                                tuple_cat(stdx::forward_as_tuple(
+                                              std::forward<E>(e)),
+                                          subs)...);
                         });
                     };
                     return tuple_cat(prepend(std::forward<Elems>(elems))...);
-- 
2.43.0


From 04695cccf4f934a656f15dc66a4a8819848bed8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:18:05 +0000
Subject: [PATCH 21/33] fix: do not move an element into several results of
 cartesian_product_copy

---
 include/stdx/tuple_algorithms.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/stdx/tuple_algorithms.hpp b/include/stdx/tuple_algorithms.hpp
index 2944fe8..a7706fe 100644
--- a/include/stdx/tuple_algorithms.hpp
+++ b/include/stdx/tuple_algorithms.hpp
@@ -442,8 +442,12 @@ template <tuplelike... Ts> constexpr auto cartesian_product_copy(Ts &&...ts) {
                                                         Elems &&...elems) {
                 [[maybe_unused]] auto const prepend = [&]<typename E>(E &&e) {
                     return c.apply([&](auto... subs) {
+                        // an element that is used more than once is not moved
+                        using U = std::conditional_t<
+                            sizeof...(subs) == 1, E &&,
+                            std::remove_reference_t<E> const &>;
                         return stdx::make_tuple(tuple_cat(
-                            stdx::make_tuple(std::forward<E>(e)), subs)...);
+                            stdx::make_tuple(static_cast<U>(e)), subs)...);
                     });
                 };
                 return tuple_cat(prepend(std::forward<Elems>(elems))...);
-- 
2.43.0


From 7e6b0c55a613d260c8d197e477465c16fa1bff9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:20:10 +0000
Subject: [PATCH 22/33] fix: call the functions of an lvalue tuple in
 call_by_need

---
 include/stdx/call_by_need.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdx/call_by_need.hpp b/include/stdx/call_by_need.hpp
index e4355cc..fa028d1 100644
--- a/include/stdx/call_by_need.hpp
+++ b/include/stdx/call_by_need.hpp
@@ -162,7 +162,7 @@ constexpr auto call_by_need(Fs &&fs, Args &&args) {
     auto new_fs = [&]<std::size_t... Is>(std::index_sequence<Is...>) {
         return tuple{get<Is>(std::forward<Fs>(fs))...,
                      cbn_detail::safe_forward{}};
-    }(std::make_index_sequence<tuple_size_v<Fs>>{});
+    }(std::make_index_sequence<tuple_size_v<std::remove_cvref_t<Fs>>>{});
 
     auto ret = [&]<std::size_t... Is>(std::index_sequence<Is...>) {
         return tuple<
-- 
2.43.0


From 15747627bd2301bd2056d95dba7ddfc9b020f4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:22:06 +0000
Subject: [PATCH 23/33] fix: round up size conversions between types whose
 sizes do not divide

---
 include/stdx/utility.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/stdx/utility.hpp b/include/stdx/utility.hpp
index 19636af..8d135cb 100644
--- a/include/stdx/utility.hpp
+++ b/include/stdx/utility.hpp
@@ -141,8 +141,6 @@ template <typename T, typename U>
 [[nodiscard]] constexpr auto size_conversion(std::size_t sz) -> std::size_t {
     if constexpr (sizeof(T) == sizeof(U)) {
         return sz;
-    } else if constexpr (sizeof(T) > sizeof(U)) {
-        return (sz * sizeof(T) / sizeof(U)) + (sizeof(T) % sizeof(U) > 0);
     } else {
         return ((sz * sizeof(T)) + sizeof(U) - 1) / sizeof(U);
     }
-- 
2.43.0


From 3daa8ddbeb3539bb63638ccb545598c72b02ee86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:22:15 +0000
Subject: [PATCH 24/33] fix: let bind_front and bind_back bind functions

---
 include/stdx/functional.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdx/functional.hpp b/include/stdx/functional.hpp
index c5355b9..f8d1b9a 100644
--- a/include/stdx/functional.hpp
+++ b/include/stdx/functional.hpp
@@ -56,7 +56,7 @@ struct bind_front_t<F, std::index_sequence<Is...>, BoundArgs...> {
 
 template <typename F, typename... Args>
 constexpr auto bind_front(F &&f, Args &&...args) {
-    return detail::bind_front_t<std::remove_cvref_t<F>,
+    return detail::bind_front_t<std::decay_t<F>,
                                 std::make_index_sequence<sizeof...(Args)>,
                                 std::decay_t<Args>...>{
         std::forward<F>(f), {std::forward<Args>(args)...}};
@@ -112,7 +112,7 @@ struct bind_back_t<F, std::index_sequence<Is...>, BoundArgs...> {
 
 template <typename F, typename... Args>
 constexpr auto bind_back(F &&f, Args &&...args) {
-    return detail::bind_back_t<std::remove_cvref_t<F>,
+    return detail::bind_back_t<std::decay_t<F>,
                                std::make_index_sequence<sizeof...(Args)>,
                                std::decay_t<Args>...>{
         std::forward<F>(f), {std::forward<Args>(args)...}};
-- 
2.43.0


From 332926593a780ebaae42ce4e53f0db1800d19d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:22:42 +0000
Subject: [PATCH 25/33] fix: find the arity of functions that take non-const
 references

---
 include/stdx/function_traits.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/stdx/function_traits.hpp b/include/stdx/function_traits.hpp
index 05adb7d..ed5389f 100644
--- a/include/stdx/function_traits.hpp
+++ b/include/stdx/function_traits.hpp
@@ -172,9 +172,10 @@ template <typename F, typename N> struct generic_arity {
 } // namespace detail
 
 template <typename F>
-using arity_t = boost::mp11::mp_eval_or<
-    detail::generic_arity_t<F, std::integral_constant<std::size_t, 0u>>,
-    nongeneric_arity_t, F>;
+using arity_t = typename boost::mp11::mp_cond<
+    boost::mp11::mp_valid<nongeneric_arity_t, F>,
+    boost::mp11::mp_defer<nongeneric_arity_t, F>, std::true_type,
+    detail::generic_arity<F, std::integral_constant<std::size_t, 0u>>>::type;
 template <typename F> constexpr auto arity_v = arity_t<F>::value;
 } // namespace v1
 } // namespace stdx
-- 
2.43.0


From a91e6e576ff5a844b3a6d9e0537f557417c4bed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:24:22 +0000
Subject: [PATCH 26/33] fix: do not split a ct_string at its terminator

---
 include/stdx/ct_string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdx/ct_string.hpp b/include/stdx/ct_string.hpp
index 0881b9e..2dff86a 100644
--- a/include/stdx/ct_string.hpp
+++ b/include/stdx/ct_string.hpp
@@ -101,7 +101,7 @@ using ct_string_to_type_t = decltype(ct_string_to_type<S, T>());
 
 template <ct_string S, char C> [[nodiscard]] consteval auto split() {
     constexpr auto it = [] {
-        for (auto i = S.value.cbegin(); i != S.value.cend(); ++i) {
+        for (auto i = S.value.cbegin(); i != S.value.cend() - 1; ++i) {
             if (*i == C) {
                 return i;
             }
-- 
2.43.0


From cccb6ef76fc7ef4a07042d3e192eb9ddb8fb55b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:56:17 +0000
Subject: [PATCH 27/33] fix: format bool arguments without the fmt library

Dividing a bool by the base never reached zero, so formatting true did not
terminate and false came out as 0.
---
 include/stdx/detail/fmt.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/stdx/detail/fmt.hpp b/include/stdx/detail/fmt.hpp
index 13042a3..b534932 100644
--- a/include/stdx/detail/fmt.hpp
+++ b/include/stdx/detail/fmt.hpp
@@ -65,6 +65,10 @@ consteval auto formatted_size(fmt_spec, char const *str) -> std::size_t {
 
 consteval auto formatted_size(fmt_spec, char) -> std::size_t { return 1; }
 
+consteval auto formatted_size(fmt_spec s, bool b) -> std::size_t {
+    return s.base != 10 ? 1 : b ? 4 : 5;
+}
+
 template <stdx::integral I>
 consteval auto formatted_size(fmt_spec s, I i) -> std::size_t {
     if (i == 0) {
@@ -117,6 +121,15 @@ consteval auto format_to(fmt_spec, It dest, char c) -> It {
     return dest;
 }
 
+template <typename It>
+consteval auto format_to(fmt_spec s, It dest, bool b) -> It {
+    if (s.base != 10) {
+        *dest++ = b ? '1' : '0';
+        return dest;
+    }
+    return format_to(s, dest, b ? "true" : "false");
+}
+
 template <typename It, stdx::integral I>
 consteval auto format_to(fmt_spec s, It dest, I i) -> It {
     if (i == 0) {
-- 
2.43.0


From ec4a21e042a3e4f3ebebbb57b01c4430ac0f3310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:11:45 +0000
Subject: [PATCH 28/33] fix: let STDX_PANIC pass on local variables

The macro called panic inside a lambda without captures, so arguments naming
local variables did not compile.
---
 include/stdx/panic.hpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/include/stdx/panic.hpp b/include/stdx/panic.hpp
index e7db393..63ffdce 100644
--- a/include/stdx/panic.hpp
+++ b/include/stdx/panic.hpp
@@ -29,10 +29,6 @@ auto panic(Args &&...args) -> void {
 
 // NOLINTBEGIN(cppcoreguidelines-macro-usage)
 
-#define STDX_PANIC(MSG, ...)                                                   \
-    []() -> void {                                                             \
-        using stdx::ct_string_literals::operator""_cts;                        \
-        stdx::panic<MSG##_cts>(__VA_ARGS__);                                   \
-    }()
+#define STDX_PANIC(MSG, ...) ::stdx::panic<MSG>(__VA_ARGS__)
 
 // NOLINTEND(cppcoreguidelines-macro-usage)
-- 
2.43.0


From 23f878717df4741852397a041061636cd530f87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:47:25 +0000
Subject: [PATCH 29/33] fix: forward_like turns an lvalue into an rvalue when
 asked to

forward_like<T>(x) with a non-reference or rvalue reference T returned an
lvalue when x was an lvalue.  The standard function returns an rvalue, which
is what makes forwarding a member of a given-up object move from it.
---
 include/stdx/utility.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdx/utility.hpp b/include/stdx/utility.hpp
index 8d135cb..1d2fdea 100644
--- a/include/stdx/utility.hpp
+++ b/include/stdx/utility.hpp
@@ -116,7 +116,7 @@ template <typename T, typename U>
         if constexpr (t_is_const) {
             return std::move(std::as_const(u));
         } else {
-            return static_cast<U &&>(u);
+            return static_cast<std::remove_reference_t<U> &&>(u);
         }
     }
 }
-- 
2.43.0


From e178c767965abc86c6576b3f43bb5b9ebf85aa34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:56:28 +0000
Subject: [PATCH 30/33] fix: function traits work on functions that do not
 throw

---
 include/stdx/function_traits.hpp | 74 ++++++++++++++++++--------------
 1 file changed, 41 insertions(+), 33 deletions(-)

diff --git a/include/stdx/function_traits.hpp b/include/stdx/function_traits.hpp
index ed5389f..8d33da3 100644
--- a/include/stdx/function_traits.hpp
+++ b/include/stdx/function_traits.hpp
@@ -18,7 +18,8 @@ template <auto> struct any_type {
 
 template <typename F> struct function_traits;
 
-template <typename R, typename... Args> struct function_traits<R(Args...)> {
+template <typename R, typename... Args, bool NE>
+struct function_traits<R(Args...) noexcept(NE)> {
     using return_type = R;
 
     template <template <typename...> typename List> using args = List<Args...>;
@@ -35,83 +36,90 @@ template <typename R, typename... Args> struct function_traits<R(Args...)> {
         -> std::invoke_result_t<R(Args...), any_type<Is>...>;
 };
 
-template <typename R, typename... Args>
-struct function_traits<R (*)(Args...)> : function_traits<R(Args...)> {};
+template <typename R, typename... Args, bool NE>
+struct function_traits<R (*)(Args...) noexcept(NE)>
+    : function_traits<R(Args...)> {};
 
-template <typename R, typename... Args>
-struct function_traits<R (*const)(Args...)> : function_traits<R(Args...)> {};
+template <typename R, typename... Args, bool NE>
+struct function_traits<R (*const)(Args...) noexcept(NE)>
+    : function_traits<R(Args...)> {};
 
-template <typename R, typename... Args>
-struct function_traits<R (*volatile)(Args...)> : function_traits<R(Args...)> {};
+template <typename R, typename... Args, bool NE>
+struct function_traits<R (*volatile)(Args...) noexcept(NE)>
+    : function_traits<R(Args...)> {};
 
-template <typename R, typename... Args>
-struct function_traits<R (*const volatile)(Args...)>
+template <typename R, typename... Args, bool NE>
+struct function_traits<R (*const volatile)(Args...) noexcept(NE)>
     : function_traits<R(Args...)> {};
 
-template <typename C, typename R, typename... Args>
-struct function_traits<R (C::*)(Args...)> : function_traits<R(Args...)> {
+template <typename C, typename R, typename... Args, bool NE>
+struct function_traits<R (C::*)(Args...) noexcept(NE)>
+    : function_traits<R(Args...)> {
     using obj_t = C;
 };
 
-template <typename C, typename R, typename... Args>
-struct function_traits<R (C::*)(Args...) &> : function_traits<R(Args...)> {
+template <typename C, typename R, typename... Args, bool NE>
+struct function_traits<R (C::*)(Args...) & noexcept(NE)>
+    : function_traits<R(Args...)> {
     using obj_t = C &;
 };
 
-template <typename C, typename R, typename... Args>
-struct function_traits<R (C::*)(Args...) const &>
+template <typename C, typename R, typename... Args, bool NE>
+struct function_traits<R (C::*)(Args...) const & noexcept(NE)>
     : function_traits<R(Args...)> {
     using obj_t = C const &;
 };
 
-template <typename C, typename R, typename... Args>
-struct function_traits<R (C::*)(Args...) volatile &>
+template <typename C, typename R, typename... Args, bool NE>
+struct function_traits<R (C::*)(Args...) volatile & noexcept(NE)>
     : function_traits<R(Args...)> {
     using obj_t = C volatile &;
 };
 
-template <typename C, typename R, typename... Args>
-struct function_traits<R (C::*)(Args...) const volatile &>
+template <typename C, typename R, typename... Args, bool NE>
+struct function_traits<R (C::*)(Args...) const volatile & noexcept(NE)>
     : function_traits<R(Args...)> {
     using obj_t = C const volatile &;
 };
 
-template <typename C, typename R, typename... Args>
-struct function_traits<R (C::*)(Args...) &&> : function_traits<R(Args...)> {
+template <typename C, typename R, typename... Args, bool NE>
+struct function_traits<R (C::*)(Args...) && noexcept(NE)>
+    : function_traits<R(Args...)> {
     using obj_t = C &&;
 };
 
-template <typename C, typename R, typename... Args>
-struct function_traits<R (C::*)(Args...) const &&>
+template <typename C, typename R, typename... Args, bool NE>
+struct function_traits<R (C::*)(Args...) const && noexcept(NE)>
     : function_traits<R(Args...)> {
     using obj_t = C const &&;
 };
 
-template <typename C, typename R, typename... Args>
-struct function_traits<R (C::*)(Args...) volatile &&>
+template <typename C, typename R, typename... Args, bool NE>
+struct function_traits<R (C::*)(Args...) volatile && noexcept(NE)>
     : function_traits<R(Args...)> {
     using obj_t = C volatile &&;
 };
 
-template <typename C, typename R, typename... Args>
-struct function_traits<R (C::*)(Args...) const volatile &&>
+template <typename C, typename R, typename... Args, bool NE>
+struct function_traits<R (C::*)(Args...) const volatile && noexcept(NE)>
     : function_traits<R(Args...)> {
     using obj_t = C const volatile &&;
 };
 
-template <typename C, typename R, typename... Args>
-struct function_traits<R (C::*)(Args...) const> : function_traits<R(Args...)> {
+template <typename C, typename R, typename... Args, bool NE>
+struct function_traits<R (C::*)(Args...) const noexcept(NE)>
+    : function_traits<R(Args...)> {
     using obj_t = C const;
 };
 
-template <typename C, typename R, typename... Args>
-struct function_traits<R (C::*)(Args...) volatile>
+template <typename C, typename R, typename... Args, bool NE>
+struct function_traits<R (C::*)(Args...) volatile noexcept(NE)>
     : function_traits<R(Args...)> {
     using obj_t = C volatile;
 };
 
-template <typename C, typename R, typename... Args>
-struct function_traits<R (C::*)(Args...) const volatile>
+template <typename C, typename R, typename... Args, bool NE>
+struct function_traits<R (C::*)(Args...) const volatile noexcept(NE)>
     : function_traits<R(Args...)> {
     using obj_t = C const volatile;
 };
-- 
2.43.0


From 54891e0f4b387d81d8bec08f9a58aa308001c004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:57:12 +0000
Subject: [PATCH 31/33] fix: name types correctly when their name contains an
 equals sign

---
 include/stdx/ct_conversions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdx/ct_conversions.hpp b/include/stdx/ct_conversions.hpp
index 0cd9005..392b19e 100644
--- a/include/stdx/ct_conversions.hpp
+++ b/include/stdx/ct_conversions.hpp
@@ -21,7 +21,7 @@ consteval static auto type_as_string() -> std::string_view {
                   "Unknown compiler, can't build type name.");
 #endif
 
-    constexpr auto lhs = function_name.rfind('=', rhs) + 2;
+    constexpr auto lhs = function_name.find('=') + 2;
     return function_name.substr(lhs, rhs - lhs + 1);
 }
 
-- 
2.43.0


From 5cf19f622f4f1dd5f336911b3892d1b0ce2e7f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:57:21 +0000
Subject: [PATCH 32/33] fix: name enumerators correctly when the name of their
 scope contains a cast or an equals sign

---
 include/stdx/ct_conversions.hpp | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/include/stdx/ct_conversions.hpp b/include/stdx/ct_conversions.hpp
index 392b19e..f46ed47 100644
--- a/include/stdx/ct_conversions.hpp
+++ b/include/stdx/ct_conversions.hpp
@@ -44,7 +44,7 @@ consteval static auto enum_as_string() -> std::basic_string_view<char> {
 #endif
     constexpr auto qual_str = [&]() -> std::string_view {
         constexpr auto rhs = value_string.size() - 2;
-        if (auto const eq_pos = value_string.find_last_of('=');
+        if (auto const eq_pos = value_string.find('=');
             eq_pos != std::string_view::npos) {
             auto const lhs = eq_pos + 2;
             return value_string.substr(lhs, rhs - lhs + 1);
@@ -53,16 +53,9 @@ consteval static auto enum_as_string() -> std::basic_string_view<char> {
     }();
 
     constexpr auto cast_str = [&]() -> std::string_view {
-        if (auto const close_paren_pos = qual_str.find_last_of(')');
-            close_paren_pos != std::string_view::npos) {
-            if (qual_str[close_paren_pos + 1] != ':') {
-                return qual_str;
-            }
-        }
-
-        if (auto const colon_pos = qual_str.find_last_of(':');
-            colon_pos != std::string_view::npos) {
-            return qual_str.substr(colon_pos + 1);
+        if (auto const end_pos = qual_str.find_last_of("):");
+            end_pos != std::string_view::npos and qual_str[end_pos] == ':') {
+            return qual_str.substr(end_pos + 1);
         }
 
         return qual_str;
-- 
2.43.0


From 2dedee7b126eda56033d35fed9d6b0bea472cb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:44:22 +0000
Subject: [PATCH 33/33] fix: assign values of class type to an optional

---
 include/stdx/optional.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/stdx/optional.hpp b/include/stdx/optional.hpp
index a8bb172..6bbdc9e 100644
--- a/include/stdx/optional.hpp
+++ b/include/stdx/optional.hpp
@@ -122,9 +122,7 @@ template <typename T, typename TS = tombstone_traits<T>> class optional {
     template <typename U = T>
         requires(std::is_constructible_v<T, U> and
                  std::is_assignable_v<T &, U> and
-                 not std::is_same_v<std::remove_cvref_t<U>, optional> and
-                 (std::is_scalar_v<T> or
-                  not std::is_same_v<std::decay_t<U>, T>))
+                 not std::is_same_v<std::remove_cvref_t<U>, optional>)
     constexpr auto operator=(U &&u) -> optional & {
         val = std::forward<U>(u);
         return *this;
-- 
2.43.0


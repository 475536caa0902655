From 4cbe391b7b2b8a2da3e7f507517202fb7e17de89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:52 +0000
Subject: [PATCH 01/47] fix: offset_ptr post-increment and post-decrement
 change the pointer and yield the old one

---
 include/cista/containers/offset_ptr.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/cista/containers/offset_ptr.h b/include/cista/containers/offset_ptr.h
index a8e699f..6f94338 100644
--- a/include/cista/containers/offset_ptr.h
+++ b/include/cista/containers/offset_ptr.h
@@ -104,8 +104,17 @@ struct offset_ptr {
     return *this;
   }
 
-  offset_ptr operator++(int) const noexcept { return offset_ptr{get() + 1}; }
-  offset_ptr operator--(int) const noexcept { return offset_ptr{get() - 1}; }
+  offset_ptr operator++(int) noexcept {
+    auto const prev = *this;
+    ++*this;
+    return prev;
+  }
+
+  offset_ptr operator--(int) noexcept {
+    auto const prev = *this;
+    --*this;
+    return prev;
+  }
 
   offset_t offset_{NULLPTR_OFFSET};
 };
-- 
2.43.0


From e2302efc824f331cb1e40b29825d2bb28947fc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:22 +0000
Subject: [PATCH 02/47] fix: flat_matrix row iteration starts from the
 iterators of the entries

---
 include/cista/containers/flat_matrix.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/cista/containers/flat_matrix.h b/include/cista/containers/flat_matrix.h
index 411a062..616e6ad 100644
--- a/include/cista/containers/flat_matrix.h
+++ b/include/cista/containers/flat_matrix.h
@@ -18,16 +18,16 @@ struct base_flat_matrix {
     using const_iterator = typename Vector::const_iterator;
 
     const_iterator begin() const {
-      return std::next(matrix_.entries_, matrix_.n_columns_ * i_);
+      return std::next(matrix_.entries_.begin(), matrix_.n_columns_ * i_);
     }
     const_iterator end() const {
-      return std::next(matrix_.entries_, matrix_.n_columns_ * (i_ + 1));
+      return std::next(matrix_.entries_.begin(), matrix_.n_columns_ * (i_ + 1));
     }
     iterator begin() {
-      return std::next(matrix_.entries_, matrix_.n_columns_ * i_);
+      return std::next(matrix_.entries_.begin(), matrix_.n_columns_ * i_);
     }
     iterator end() {
-      return std::next(matrix_.entries_, matrix_.n_columns_ * (i_ + 1));
+      return std::next(matrix_.entries_.begin(), matrix_.n_columns_ * (i_ + 1));
     }
     friend const_iterator begin(row const& r) { return r.begin(); }
     friend const_iterator end(row const& r) { return r.end(); }
@@ -51,10 +51,10 @@ struct base_flat_matrix {
     using iterator = typename Vector::const_iterator;
 
     iterator begin() const {
-      return std::next(matrix_.entries_, matrix_.n_columns_ * i_);
+      return std::next(matrix_.entries_.begin(), matrix_.n_columns_ * i_);
     }
     iterator end() const {
-      return std::next(matrix_.entries_, matrix_.n_columns_ * (i_ + 1));
+      return std::next(matrix_.entries_.begin(), matrix_.n_columns_ * (i_ + 1));
     }
     friend iterator begin(const_row const& r) { return r.begin(); }
     friend iterator end(const_row const& r) { return r.end(); }
-- 
2.43.0


From 0ba5c4a285b45b2b576a806d1a4b7a0e99e8ab5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:05 +0000
Subject: [PATCH 03/47] fix: vector::reserve allocates at least the requested
 number of elements for every size

---
 include/cista/containers/vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cista/containers/vector.h b/include/cista/containers/vector.h
index 6e592fc..044e15d 100644
--- a/include/cista/containers/vector.h
+++ b/include/cista/containers/vector.h
@@ -349,7 +349,7 @@ struct basic_vector {
       return;
     }
 
-    auto next_size = next_power_of_two(new_size);
+    auto const next_size = std::max(next_power_of_two(new_size), new_size);
     auto num_bytes = static_cast<std::size_t>(next_size) * sizeof(T);
     auto mem_buf = static_cast<T*>(std::malloc(num_bytes));  // NOLINT
     if (mem_buf == nullptr) {
-- 
2.43.0


From 6d60ae82ff3e5ad67aae7fee3953573fced75627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:05 +0000
Subject: [PATCH 04/47] fix: appending or inserting an element of the vector
 itself when it reallocates

---
 include/cista/containers/vector.h | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/include/cista/containers/vector.h b/include/cista/containers/vector.h
index 044e15d..efe427f 100644
--- a/include/cista/containers/vector.h
+++ b/include/cista/containers/vector.h
@@ -216,9 +216,7 @@ struct basic_vector {
     auto const old_offset = std::distance(begin(), it);
     auto const old_size = used_size_;
 
-    reserve(used_size_ + 1);
-    new (el_ + used_size_) T{std::forward<Arg&&>(el)};
-    ++used_size_;
+    emplace_back(std::forward<Arg>(el));
 
     return std::rotate(begin() + old_offset, begin() + old_size, end());
   }
@@ -228,9 +226,10 @@ struct basic_vector {
     auto const old_offset = std::distance(begin(), it);
     auto const old_size = used_size_;
 
+    T const el{value};  // value may be an element of this vector
     reserve(used_size_ + count);
     for (auto i = size_type{0U}; i < count; ++i) {
-      new (el_ + used_size_) T{value};
+      new (el_ + used_size_) T{el};
       ++used_size_;
     }
 
@@ -292,21 +291,34 @@ struct basic_vector {
   }
 
   void push_back(T const& el) {
-    reserve(used_size_ + 1U);
+    if (used_size_ == allocated_size_) {
+      push_back(T(el));  // el may be an element of this vector
+      return;
+    }
     new (el_ + used_size_) T(el);
     ++used_size_;
   }
 
   void push_back(T&& el) {
-    reserve(used_size_ + 1U);
-    new (el_ + used_size_) T(std::move(el));
+    if (used_size_ == allocated_size_) {
+      T tmp(std::move(el));  // el may be an element of this vector
+      reserve(used_size_ + 1U);
+      new (el_ + used_size_) T(std::move(tmp));
+    } else {
+      new (el_ + used_size_) T(std::move(el));
+    }
     ++used_size_;
   }
 
   template <typename... Args>
   T& emplace_back(Args&&... el) {
-    reserve(used_size_ + 1U);
-    new (el_ + used_size_) T{std::forward<Args>(el)...};
+    if (used_size_ == allocated_size_) {
+      T tmp{std::forward<Args>(el)...};  // el may be part of this vector
+      reserve(used_size_ + 1U);
+      new (el_ + used_size_) T(std::move(tmp));
+    } else {
+      new (el_ + used_size_) T{std::forward<Args>(el)...};
+    }
     T* ptr = el_ + used_size_;
     ++used_size_;
     return *ptr;
-- 
2.43.0


From aab05e7e86b8f0fed47c640f23c3346e92675a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:05 +0000
Subject: [PATCH 05/47] fix: vector::insert and range erase return the position
 of the inserted or next element

---
 include/cista/containers/vector.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/cista/containers/vector.h b/include/cista/containers/vector.h
index efe427f..df8d95f 100644
--- a/include/cista/containers/vector.h
+++ b/include/cista/containers/vector.h
@@ -218,7 +218,8 @@ struct basic_vector {
 
     emplace_back(std::forward<Arg>(el));
 
-    return std::rotate(begin() + old_offset, begin() + old_size, end());
+    std::rotate(begin() + old_offset, begin() + old_size, end());
+    return begin() + old_offset;
   }
 
   template <typename El>
@@ -233,7 +234,8 @@ struct basic_vector {
       ++used_size_;
     }
 
-    return std::rotate(begin() + old_offset, begin() + old_size, end());
+    std::rotate(begin() + old_offset, begin() + old_size, end());
+    return begin() + old_offset;
   }
 
   template <class InputIt>
@@ -247,11 +249,16 @@ struct basic_vector {
       ++used_size_;
     }
 
-    return std::rotate(begin() + old_offset, begin() + old_size, end());
+    std::rotate(begin() + old_offset, begin() + old_size, end());
+    return begin() + old_offset;
   }
 
   template <class FwdIt>
   T* insert(T* pos, FwdIt first, FwdIt last, std::forward_iterator_tag) {
+    if (first == last) {
+      return pos;
+    }
+
     if (empty()) {
       set(first, last);
       return begin();
@@ -413,7 +420,7 @@ struct basic_vector {
       }
       used_size_ -= static_cast<size_type>(std::distance(new_end, end()));
     }
-    return end();
+    return first;
   }
 
   bool contains(T const* el) const noexcept {
-- 
2.43.0


From ba087808fc745f1d65414248a0a7bfcb310965ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:05 +0000
Subject: [PATCH 06/47] fix: vector::set and vector::resize destroy the
 elements they drop

---
 include/cista/containers/vector.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/cista/containers/vector.h b/include/cista/containers/vector.h
index df8d95f..302772d 100644
--- a/include/cista/containers/vector.h
+++ b/include/cista/containers/vector.h
@@ -175,6 +175,7 @@ struct basic_vector {
         range_size >= 0 && range_size <= std::numeric_limits<size_type>::max(),
         "cista::vector::set: invalid range");
 
+    clear();
     reserve(static_cast<size_type>(range_size));
 
     auto copy_source = begin_it;
@@ -336,6 +337,9 @@ struct basic_vector {
     for (auto i = used_size_; i < size; ++i) {
       new (el_ + i) T{};
     }
+    for (auto i = size; i < used_size_; ++i) {
+      el_[i].~T();
+    }
     used_size_ = size;
   }
 
@@ -344,6 +348,9 @@ struct basic_vector {
     for (auto i = used_size_; i < size; ++i) {
       new (el_ + i) T{init};
     }
+    for (auto i = size; i < used_size_; ++i) {
+      el_[i].~T();
+    }
     used_size_ = size;
   }
 
-- 
2.43.0


From 75034e759b433406cfbffb79efb12ccff582148e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:24 +0000
Subject: [PATCH 07/47] fix: bitvec::reset and shifting everything out keep the
 blocks of the size

---
 include/cista/containers/bitvec.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cista/containers/bitvec.h b/include/cista/containers/bitvec.h
index ac79f1e..a387b05 100644
--- a/include/cista/containers/bitvec.h
+++ b/include/cista/containers/bitvec.h
@@ -120,7 +120,7 @@ struct basic_bitvec {
     }
   }
 
-  void reset() noexcept { blocks_ = {}; }
+  void reset() noexcept { zero_out(); }
 
   bool operator[](Key const i) const noexcept { return test(i); }
 
-- 
2.43.0


From 748a75b49ae3642e217531373b62af0ddcaa050d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:24 +0000
Subject: [PATCH 08/47] fix: bitvec::next_set_bit never returns a bit beyond
 the size

---
 include/cista/containers/bitvec.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/cista/containers/bitvec.h b/include/cista/containers/bitvec.h
index a387b05..496a88a 100644
--- a/include/cista/containers/bitvec.h
+++ b/include/cista/containers/bitvec.h
@@ -172,7 +172,9 @@ struct basic_bitvec {
     }
 
     auto const first_block_idx = i / bits_per_block;
-    auto const first_block = blocks_[first_block_idx];
+    auto const first_block = first_block_idx + 1U == blocks_.size()
+                                 ? sanitized_last_block()
+                                 : blocks_[first_block_idx];
     if (first_block != 0U) {
       auto const first_bit = i % bits_per_block;
       auto const n = std::min(size(), bits_per_block);
-- 
2.43.0


From 900b9e7ad56c5507ae89bacc62bbf8506f6a6b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 09/47] fix: assigning a string (view) its own text

---
 include/cista/containers/string.h | 33 +++++++++++++++++--------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/include/cista/containers/string.h b/include/cista/containers/string.h
index 8334af5..047e303 100644
--- a/include/cista/containers/string.h
+++ b/include/cista/containers/string.h
@@ -96,24 +96,27 @@ struct generic_string {
   static constexpr msize_t short_length_limit = 15U / sizeof(CharT);
 
   void set_owning(CharT const* str, msize_t const len) {
-    reset();
     if (str == nullptr || len == 0U) {
+      reset();
       return;
     }
-    s_.is_short_ = (len <= short_length_limit);
-    if (s_.is_short_) {
-      std::memcpy(s_.s_, str, len * sizeof(CharT));
-      for (auto i = len; i < short_length_limit; ++i) {
-        s_.s_[i] = 0;
-      }
+    // The text may be part of this string: copy it before resetting.
+    if (len <= short_length_limit) {
+      CharT text[short_length_limit] = {};
+      std::memcpy(text, str, len * sizeof(CharT));
+      reset();
+      s_.is_short_ = true;
+      std::memcpy(s_.s_, text, sizeof(text));
     } else {
-      h_.ptr_ = static_cast<CharT*>(std::malloc(len * sizeof(CharT)));
-      if (h_.ptr_ == nullptr) {
+      auto const mem = static_cast<CharT*>(std::malloc(len * sizeof(CharT)));
+      if (mem == nullptr) {
         throw_exception(std::bad_alloc{});
       }
+      std::memcpy(mem, str, len * sizeof(CharT));
+      reset();
+      h_.ptr_ = mem;
       h_.size_ = len;
       h_.self_allocated_ = true;
-      std::memcpy(data(), str, len * sizeof(CharT));
     }
   }
 
@@ -128,15 +131,15 @@ struct generic_string {
   void set_non_owning(CharT const* str) { set_non_owning(str, mstrlen(str)); }
 
   void set_non_owning(CharT const* str, msize_t const len) {
-    reset();
-    if (str == nullptr || len == 0U) {
-      return;
-    }
-
     if (len <= short_length_limit) {
       return set_owning(str, len);
     }
 
+    reset();
+    if (str == nullptr) {
+      return;
+    }
+
     h_.is_short_ = false;
     h_.self_allocated_ = false;
     h_.ptr_ = str;
-- 
2.43.0


From 714ba3b63ff67f48dcefd5f1004e2c9206ce26d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 10/47] fix: cstring of a text with more than 2 GiB

---
 include/cista/containers/cstring.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/cista/containers/cstring.h b/include/cista/containers/cstring.h
index 1a6d26d..be2a670 100644
--- a/include/cista/containers/cstring.h
+++ b/include/cista/containers/cstring.h
@@ -88,8 +88,9 @@ struct generic_cstring {
     if (len == 0U) {
       return;
     }
-    s_.remaining_ = static_cast<int8_t>(
-        std::max(static_cast<int32_t>(short_length_limit - len), -1));
+    s_.remaining_ = len <= short_length_limit
+                        ? static_cast<int8_t>(short_length_limit - len)
+                        : static_cast<int8_t>(-1);
     if (is_short()) {
       std::memcpy(s_.s_, str, len);
     } else {
@@ -311,7 +312,7 @@ struct generic_cstring {
 
     heap() = default;
     heap(msize_t len, owning_t) {
-      char* mem = static_cast<char*>(std::malloc(len + 1));
+      char* mem = static_cast<char*>(std::malloc(std::size_t{len} + 1U));
       if (mem == nullptr) {
         throw_exception(std::bad_alloc{});
       }
-- 
2.43.0


From d2b1cae98bc37848822dbd915fa02b8f689cb2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 11/47] fix: assigning a cstring its own text

---
 include/cista/containers/cstring.h | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/include/cista/containers/cstring.h b/include/cista/containers/cstring.h
index be2a670..f1093f7 100644
--- a/include/cista/containers/cstring.h
+++ b/include/cista/containers/cstring.h
@@ -84,18 +84,21 @@ struct generic_cstring {
 
   void set_owning(char const* str, msize_t const len) {
     assert(str != nullptr || len == 0U);
-    reset();
-    if (len == 0U) {
-      return;
-    }
-    s_.remaining_ = len <= short_length_limit
-                        ? static_cast<int8_t>(short_length_limit - len)
-                        : static_cast<int8_t>(-1);
-    if (is_short()) {
-      std::memcpy(s_.s_, str, len);
+    // The text may be part of this string: copy it before resetting.
+    if (len <= short_length_limit) {
+      auto text = stack{};
+      if (len != 0U) {
+        std::memcpy(text.s_, str, len);
+      }
+      text.remaining_ = static_cast<int8_t>(short_length_limit - len);
+      reset();
+      s_ = text;
     } else {
-      h_ = heap(len, owning);
-      std::memcpy(data(), str, len);
+      auto const mem = heap(len, owning);
+      std::memcpy(const_cast<char*>(static_cast<char const*>(mem.ptr_)), str,
+                  len);
+      reset();
+      h_ = mem;
     }
   }
 
-- 
2.43.0


From 20af0de130558d731291d4a8bb69a1cb6e6633ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 12/47] fix: move assignment of a cstring releases the old text

---
 include/cista/containers/cstring.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/cista/containers/cstring.h b/include/cista/containers/cstring.h
index f1093f7..fde2d24 100644
--- a/include/cista/containers/cstring.h
+++ b/include/cista/containers/cstring.h
@@ -121,6 +121,10 @@ struct generic_cstring {
   }
 
   void move_from(generic_cstring&& s) noexcept {
+    if (&s == this) {
+      return;
+    }
+    reset();
     std::memcpy(static_cast<void*>(this), &s, sizeof(*this));
     if constexpr (std::is_pointer_v<Ptr>) {
       std::memset(static_cast<void*>(&s), 0, sizeof(*this));
-- 
2.43.0


From ad43649e1cc2683c212a47d61d6ba3e5fb67e486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:32 +0000
Subject: [PATCH 13/47] fix: copying a cstring onto itself keeps its text

---
 include/cista/containers/cstring.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/cista/containers/cstring.h b/include/cista/containers/cstring.h
index fde2d24..ee8f4c0 100644
--- a/include/cista/containers/cstring.h
+++ b/include/cista/containers/cstring.h
@@ -135,6 +135,9 @@ struct generic_cstring {
   }
 
   void copy_from(generic_cstring const& s) {
+    if (&s == this) {
+      return;
+    }
     reset();
     if (s.is_short()) {
       std::memcpy(static_cast<void*>(this), &s, sizeof(s));
-- 
2.43.0


From ccd20af2f65906d63b28e59db53222d0101a0dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:08 +0000
Subject: [PATCH 14/47] fix: assigning an lvalue (or a variant) of the held
 alternative to a variant

---
 include/cista/containers/variant.h | 897 +++++++++++++++--------------
 1 file changed, 449 insertions(+), 448 deletions(-)

diff --git a/include/cista/containers/variant.h b/include/cista/containers/variant.h
index b035975..5a3fb1c 100755
--- a/include/cista/containers/variant.h
+++ b/include/cista/containers/variant.h
@@ -1,448 +1,449 @@
-#pragma once
-
-#include <cinttypes>
-#include <algorithm>
-#include <array>
-#include <limits>
-#include <type_traits>
-
-#include "cista/exception.h"
-#include "cista/hashing.h"
-
-namespace cista {
-
-template <std::size_t Size, typename Enable = void>
-struct bytes_to_integer_type {};
-
-template <std::size_t Size>
-struct bytes_to_integer_type<Size, std::enable_if_t<Size == 1U>> {
-  using type = std::uint8_t;
-};
-
-template <std::size_t Size>
-struct bytes_to_integer_type<Size, std::enable_if_t<Size == 2U>> {
-  using type = std::uint16_t;
-};
-
-template <typename... T>
-constexpr std::size_t bytes() noexcept {
-  return (sizeof...(T) > std::numeric_limits<std::uint8_t>::max()) ? 2U : 1U;
-}
-
-template <typename... T>
-using variant_index_t = typename bytes_to_integer_type<bytes<T...>()>::type;
-
-constexpr auto const TYPE_NOT_FOUND = std::numeric_limits<std::size_t>::max();
-
-template <typename Arg, typename... T>
-constexpr std::size_t index_of_type() noexcept {
-  constexpr std::array<bool, sizeof...(T)> matches = {
-      {std::is_same<std::decay_t<Arg>, std::decay_t<T>>::value...}};
-  for (std::size_t i = 0U; i < sizeof...(T); ++i) {
-    if (matches[i]) {
-      return i;
-    }
-  }
-  return TYPE_NOT_FOUND;
-}
-
-template <int N, typename... T>
-struct type_at_index;
-
-template <typename First, typename... Rest>
-struct type_at_index<0, First, Rest...> {
-  using type = First;
-};
-
-template <int N, typename First, typename... Rest>
-struct type_at_index<N, First, Rest...> {
-  using type = typename type_at_index<N - 1, Rest...>::type;
-};
-
-template <std::size_t Index, typename... T>
-using type_at_index_t = typename type_at_index<Index, T...>::type;
-
-template <typename... T>
-struct variant {
-  using index_t = variant_index_t<T...>;
-  static constexpr auto NO_VALUE = std::numeric_limits<index_t>::max();
-
-  constexpr variant() noexcept : idx_{NO_VALUE} {}
-
-  template <typename Arg,
-            typename = std::enable_if_t<
-                index_of_type<std::decay_t<Arg>, T...>() != TYPE_NOT_FOUND>>
-  constexpr variant(Arg&& arg)
-      : idx_{static_cast<index_t>(index_of_type<Arg, T...>())} {
-#if defined(CISTA_ZERO_OUT)
-    std::memset(&storage_, 0, sizeof(storage_));
-#endif
-    using Type = std::decay_t<Arg>;
-    new (&storage_) Type(std::forward<Arg>(arg));
-  }
-
-  variant(variant const& o) : idx_{o.idx_} {
-    o.apply([this](auto&& el) {
-      using Type = std::decay_t<decltype(el)>;
-      new (&storage_) Type(std::forward<decltype(el)>(el));
-    });
-  }
-  variant(variant&& o) : idx_{o.idx_} {
-    o.apply([this](auto&& el) {
-      using Type = std::decay_t<decltype(el)>;
-      new (&storage_) Type(std::move(el));
-    });
-  }
-
-  variant& operator=(variant const& o) {
-    return o.apply([&](auto&& el) -> variant& { return *this = el; });
-  }
-  variant& operator=(variant&& o) {
-    return o.apply(
-        [&](auto&& el) -> variant& { return *this = std::move(el); });
-  }
-
-  template <typename Arg,
-            typename = std::enable_if_t<
-                index_of_type<std::decay_t<Arg>, T...>() != TYPE_NOT_FOUND>>
-  variant& operator=(Arg&& arg) {
-    if (index_of_type<Arg, T...>() == idx_) {
-      apply([&](auto&& el) {
-        if constexpr (std::is_same_v<std::decay_t<decltype(el)>, Arg>) {
-          el = std::move(arg);
-        }
-      });
-      return *this;
-    }
-    destruct();
-    idx_ = static_cast<index_t>(index_of_type<Arg, T...>());
-    new (&storage_) std::decay_t<Arg>{std::forward<Arg>(arg)};
-    return *this;
-  }
-#if _MSVC_LANG >= 202002L || __cplusplus >= 202002L
-  constexpr
-#endif
-      ~variant() {
-    destruct();
-  }
-
-  constexpr bool valid() const noexcept { return index() != NO_VALUE; }
-
-  constexpr operator bool() const noexcept { return valid(); }
-
-  friend bool operator==(variant const& a, variant const& b) noexcept {
-    return a.idx_ == b.idx_
-               ? apply([](auto&& u, auto&& v) -> bool { return u == v; },
-                       a.idx_, a, b)
-               : false;
-  }
-
-  friend bool operator!=(variant const& a, variant const& b) noexcept {
-    return a.idx_ == b.idx_
-               ? apply([](auto&& u, auto&& v) -> bool { return u != v; },
-                       a.idx_, a, b)
-               : true;
-  }
-
-  friend bool operator<(variant const& a, variant const& b) noexcept {
-    return a.idx_ == b.idx_
-               ? apply([](auto&& u, auto&& v) -> bool { return u < v; }, a.idx_,
-                       a, b)
-               : a.idx_ < b.idx_;
-  }
-
-  friend bool operator>(variant const& a, variant const& b) noexcept {
-    return a.idx_ == b.idx_
-               ? apply([](auto&& u, auto&& v) -> bool { return u > v; }, a.idx_,
-                       a, b)
-               : a.idx_ > b.idx_;
-  }
-
-  friend bool operator<=(variant const& a, variant const& b) noexcept {
-    return a.idx_ == b.idx_
-               ? apply([](auto&& u, auto&& v) -> bool { return u <= v; },
-                       a.idx_, a, b)
-               : a.idx_ <= b.idx_;
-  }
-
-  friend bool operator>=(variant const& a, variant const& b) noexcept {
-    return a.idx_ == b.idx_
-               ? apply([](auto&& u, auto&& v) -> bool { return u >= v; },
-                       a.idx_, a, b)
-               : a.idx_ >= b.idx_;
-  }
-
-  template <typename Arg, typename... CtorArgs>
-  Arg& emplace(CtorArgs&&... ctor_args) {
-    static_assert(index_of_type<Arg, T...>() != TYPE_NOT_FOUND);
-    destruct();
-    idx_ = static_cast<index_t>(index_of_type<Arg, T...>());
-    return *(new (&storage_)
-                 std::decay_t<Arg>{std::forward<CtorArgs>(ctor_args)...});
-  }
-
-  template <std::size_t I, typename... CtorArgs>
-  type_at_index_t<I, T...>& emplace(CtorArgs&&... ctor_args) {
-    static_assert(I < sizeof...(T));
-    destruct();
-    idx_ = I;
-    return *(new (&storage_) std::decay_t<type_at_index_t<I, T...>>{
-        std::forward<CtorArgs>(ctor_args)...});
-  }
-
-  constexpr std::size_t index() const noexcept { return idx_; }
-
-  void swap(variant& o) {
-    if (idx_ == o.idx_) {
-      apply(
-          [](auto&& a, auto&& b) {
-            using std::swap;
-            swap(a, b);
-          },
-          idx_, *this, o);
-    } else {
-      variant tmp{std::move(o)};
-      o = std::move(*this);
-      *this = std::move(tmp);
-    }
-  }
-
-  constexpr void destruct() {
-    if (idx_ != NO_VALUE) {
-      apply([](auto&& el) {
-        using el_type = std::decay_t<decltype(el)>;
-        el.~el_type();
-      });
-    }
-  }
-
-  template <typename F>
-  auto apply(F&& f) -> decltype(f(std::declval<type_at_index_t<0U, T...>&>())) {
-    if (idx_ == NO_VALUE) {
-      throw_exception(std::runtime_error{"variant::apply: no value"});
-    }
-    return apply(std::forward<F>(f), idx_, *this);
-  }
-
-  template <typename F>
-  auto apply(F&& f) const
-      -> decltype(f(std::declval<type_at_index_t<0U, T...>>())) {
-    if (idx_ == NO_VALUE) {
-      throw_exception(std::runtime_error{"variant::apply: no value"});
-    }
-    return apply(std::forward<F>(f), idx_, *this);
-  }
-
-#ifdef _MSC_VER
-  static __declspec(noreturn) void noret() {}
-#endif
-
-  template <typename F, std::size_t B = 0U, typename... Vs>
-  static auto apply(F&& f, index_t const idx, Vs&&... vs)
-      -> decltype(f((vs, std::declval<type_at_index_t<0U, T...>&>())...)) {
-    switch (idx) {
-      case B + 0U:
-        if constexpr (B + 0U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 0U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 1U:
-        if constexpr (B + 1U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 1U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 2U:
-        if constexpr (B + 2U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 2U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 3U:
-        if constexpr (B + 3U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 3U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 4U:
-        if constexpr (B + 4U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 4U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 5U:
-        if constexpr (B + 5U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 5U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 6U:
-        if constexpr (B + 6U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 6U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 7U:
-        if constexpr (B + 7U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 7U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 8U:
-        if constexpr (B + 8U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 8U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 9U:
-        if constexpr (B + 9U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 9U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 10U:
-        if constexpr (B + 10U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 10U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 11U:
-        if constexpr (B + 11U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 11U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 12U:
-        if constexpr (B + 12U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 12U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 13U:
-        if constexpr (B + 13U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 13U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 14U:
-        if constexpr (B + 14U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 14U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 15U:
-        if constexpr (B + 15U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 15U, T...>>()...);
-        }
-        break;
-    }
-
-    if constexpr (B + 15U < sizeof...(T)) {
-      return apply<F, B + 16U>(std::forward<F>(f), std::forward<Vs>(vs)...);
-    }
-
-#ifndef _MSC_VER
-    __builtin_unreachable();
-#else
-    noret();
-#endif
-  }
-
-  template <typename AsType>
-  AsType& as() noexcept {
-    return *reinterpret_cast<AsType*>(&storage_);
-  }
-
-  template <typename AsType>
-  AsType const& as() const noexcept {
-    return *reinterpret_cast<AsType const*>(&storage_);
-  }
-
-  hash_t hash() const noexcept {
-    return apply([&](auto&& val) {
-      auto const idx = index();
-      auto h = hashing<decltype(idx)>{}(idx, BASE_HASH);
-      h = hashing<decltype(val)>{}(val, h);
-      return h;
-    });
-  }
-
-  index_t idx_{NO_VALUE};
-  std::aligned_union_t<0, T...> storage_{};
-};
-
-template <typename T, typename... Ts>
-bool holds_alternative(variant<Ts...> const& v) noexcept {
-  return v.idx_ == index_of_type<std::decay_t<T>, Ts...>();
-}
-
-template <std::size_t I, typename... Ts>
-constexpr cista::type_at_index_t<I, Ts...> const& get(
-    cista::variant<Ts...> const& v) noexcept {
-  return v.template as<cista::type_at_index_t<I, Ts...>>();
-}
-
-template <std::size_t I, typename... Ts>
-constexpr cista::type_at_index_t<I, Ts...>& get(
-    cista::variant<Ts...>& v) noexcept {
-  return v.template as<cista::type_at_index_t<I, Ts...>>();
-}
-
-template <class T, class... Ts>
-constexpr T const& get(cista::variant<Ts...> const& v) noexcept {
-  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
-  return v.template as<T>();
-}
-template <class T, class... Ts>
-constexpr T& get(cista::variant<Ts...>& v) noexcept {
-  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
-  return v.template as<T>();
-}
-
-template <class T, class... Ts>
-constexpr std::add_pointer_t<T> get_if(cista::variant<Ts...>& v) noexcept {
-  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
-  return v.idx_ == cista::index_of_type<T, Ts...>() ? &v.template as<T>()
-                                                    : nullptr;
-}
-
-template <std::size_t I, typename... Ts>
-constexpr std::add_pointer_t<cista::type_at_index_t<I, Ts...> const> get_if(
-    cista::variant<Ts...> const& v) noexcept {
-  static_assert(I < sizeof...(Ts));
-  return v.idx_ == I ? &v.template as<cista::type_at_index_t<I, Ts...>>()
-                     : nullptr;
-}
-
-template <std::size_t I, typename... Ts>
-constexpr std::add_pointer_t<cista::type_at_index_t<I, Ts...>> get_if(
-    cista::variant<Ts...>& v) noexcept {
-  static_assert(I < sizeof...(Ts));
-  return v.idx_ == I ? &v.template as<cista::type_at_index_t<I, Ts...>>()
-                     : nullptr;
-}
-
-template <class T, class... Ts>
-constexpr std::add_pointer_t<T const> get_if(
-    cista::variant<Ts...> const& v) noexcept {
-  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
-  return v.idx_ == cista::index_of_type<T, Ts...>() ? &v.template as<T>()
-                                                    : nullptr;
-}
-
-template <class T>
-struct variant_size;
-
-template <class... T>
-struct variant_size<variant<T...>>
-    : std::integral_constant<std::size_t, sizeof...(T)> {};
-
-template <class T>
-constexpr std::size_t variant_size_v = variant_size<T>::value;
-
-namespace raw {
-using cista::variant;
-}  // namespace raw
-
-namespace offset {
-using cista::variant;
-}  // namespace offset
-
-}  // namespace cista
-
-namespace std {
-
-template <typename Visitor, typename... T>
-constexpr auto visit(Visitor&& vis, cista::variant<T...>&& v) {
-  v.apply(vis);
-}
-
-using cista::get;
-
-}  // namespace std
+#pragma once
+
+#include <cinttypes>
+#include <algorithm>
+#include <array>
+#include <limits>
+#include <type_traits>
+
+#include "cista/exception.h"
+#include "cista/hashing.h"
+
+namespace cista {
+
+template <std::size_t Size, typename Enable = void>
+struct bytes_to_integer_type {};
+
+template <std::size_t Size>
+struct bytes_to_integer_type<Size, std::enable_if_t<Size == 1U>> {
+  using type = std::uint8_t;
+};
+
+template <std::size_t Size>
+struct bytes_to_integer_type<Size, std::enable_if_t<Size == 2U>> {
+  using type = std::uint16_t;
+};
+
+template <typename... T>
+constexpr std::size_t bytes() noexcept {
+  return (sizeof...(T) > std::numeric_limits<std::uint8_t>::max()) ? 2U : 1U;
+}
+
+template <typename... T>
+using variant_index_t = typename bytes_to_integer_type<bytes<T...>()>::type;
+
+constexpr auto const TYPE_NOT_FOUND = std::numeric_limits<std::size_t>::max();
+
+template <typename Arg, typename... T>
+constexpr std::size_t index_of_type() noexcept {
+  constexpr std::array<bool, sizeof...(T)> matches = {
+      {std::is_same<std::decay_t<Arg>, std::decay_t<T>>::value...}};
+  for (std::size_t i = 0U; i < sizeof...(T); ++i) {
+    if (matches[i]) {
+      return i;
+    }
+  }
+  return TYPE_NOT_FOUND;
+}
+
+template <int N, typename... T>
+struct type_at_index;
+
+template <typename First, typename... Rest>
+struct type_at_index<0, First, Rest...> {
+  using type = First;
+};
+
+template <int N, typename First, typename... Rest>
+struct type_at_index<N, First, Rest...> {
+  using type = typename type_at_index<N - 1, Rest...>::type;
+};
+
+template <std::size_t Index, typename... T>
+using type_at_index_t = typename type_at_index<Index, T...>::type;
+
+template <typename... T>
+struct variant {
+  using index_t = variant_index_t<T...>;
+  static constexpr auto NO_VALUE = std::numeric_limits<index_t>::max();
+
+  constexpr variant() noexcept : idx_{NO_VALUE} {}
+
+  template <typename Arg,
+            typename = std::enable_if_t<
+                index_of_type<std::decay_t<Arg>, T...>() != TYPE_NOT_FOUND>>
+  constexpr variant(Arg&& arg)
+      : idx_{static_cast<index_t>(index_of_type<Arg, T...>())} {
+#if defined(CISTA_ZERO_OUT)
+    std::memset(&storage_, 0, sizeof(storage_));
+#endif
+    using Type = std::decay_t<Arg>;
+    new (&storage_) Type(std::forward<Arg>(arg));
+  }
+
+  variant(variant const& o) : idx_{o.idx_} {
+    o.apply([this](auto&& el) {
+      using Type = std::decay_t<decltype(el)>;
+      new (&storage_) Type(std::forward<decltype(el)>(el));
+    });
+  }
+  variant(variant&& o) : idx_{o.idx_} {
+    o.apply([this](auto&& el) {
+      using Type = std::decay_t<decltype(el)>;
+      new (&storage_) Type(std::move(el));
+    });
+  }
+
+  variant& operator=(variant const& o) {
+    return o.apply([&](auto&& el) -> variant& { return *this = el; });
+  }
+  variant& operator=(variant&& o) {
+    return o.apply(
+        [&](auto&& el) -> variant& { return *this = std::move(el); });
+  }
+
+  template <typename Arg,
+            typename = std::enable_if_t<
+                index_of_type<std::decay_t<Arg>, T...>() != TYPE_NOT_FOUND>>
+  variant& operator=(Arg&& arg) {
+    if (index_of_type<Arg, T...>() == idx_) {
+      apply([&](auto&& el) {
+        if constexpr (std::is_same_v<std::decay_t<decltype(el)>,
+                                     std::decay_t<Arg>>) {
+          el = std::forward<Arg>(arg);
+        }
+      });
+      return *this;
+    }
+    destruct();
+    idx_ = static_cast<index_t>(index_of_type<Arg, T...>());
+    new (&storage_) std::decay_t<Arg>{std::forward<Arg>(arg)};
+    return *this;
+  }
+#if _MSVC_LANG >= 202002L || __cplusplus >= 202002L
+  constexpr
+#endif
+      ~variant() {
+    destruct();
+  }
+
+  constexpr bool valid() const noexcept { return index() != NO_VALUE; }
+
+  constexpr operator bool() const noexcept { return valid(); }
+
+  friend bool operator==(variant const& a, variant const& b) noexcept {
+    return a.idx_ == b.idx_
+               ? apply([](auto&& u, auto&& v) -> bool { return u == v; },
+                       a.idx_, a, b)
+               : false;
+  }
+
+  friend bool operator!=(variant const& a, variant const& b) noexcept {
+    return a.idx_ == b.idx_
+               ? apply([](auto&& u, auto&& v) -> bool { return u != v; },
+                       a.idx_, a, b)
+               : true;
+  }
+
+  friend bool operator<(variant const& a, variant const& b) noexcept {
+    return a.idx_ == b.idx_
+               ? apply([](auto&& u, auto&& v) -> bool { return u < v; }, a.idx_,
+                       a, b)
+               : a.idx_ < b.idx_;
+  }
+
+  friend bool operator>(variant const& a, variant const& b) noexcept {
+    return a.idx_ == b.idx_
+               ? apply([](auto&& u, auto&& v) -> bool { return u > v; }, a.idx_,
+                       a, b)
+               : a.idx_ > b.idx_;
+  }
+
+  friend bool operator<=(variant const& a, variant const& b) noexcept {
+    return a.idx_ == b.idx_
+               ? apply([](auto&& u, auto&& v) -> bool { return u <= v; },
+                       a.idx_, a, b)
+               : a.idx_ <= b.idx_;
+  }
+
+  friend bool operator>=(variant const& a, variant const& b) noexcept {
+    return a.idx_ == b.idx_
+               ? apply([](auto&& u, auto&& v) -> bool { return u >= v; },
+                       a.idx_, a, b)
+               : a.idx_ >= b.idx_;
+  }
+
+  template <typename Arg, typename... CtorArgs>
+  Arg& emplace(CtorArgs&&... ctor_args) {
+    static_assert(index_of_type<Arg, T...>() != TYPE_NOT_FOUND);
+    destruct();
+    idx_ = static_cast<index_t>(index_of_type<Arg, T...>());
+    return *(new (&storage_)
+                 std::decay_t<Arg>{std::forward<CtorArgs>(ctor_args)...});
+  }
+
+  template <std::size_t I, typename... CtorArgs>
+  type_at_index_t<I, T...>& emplace(CtorArgs&&... ctor_args) {
+    static_assert(I < sizeof...(T));
+    destruct();
+    idx_ = I;
+    return *(new (&storage_) std::decay_t<type_at_index_t<I, T...>>{
+        std::forward<CtorArgs>(ctor_args)...});
+  }
+
+  constexpr std::size_t index() const noexcept { return idx_; }
+
+  void swap(variant& o) {
+    if (idx_ == o.idx_) {
+      apply(
+          [](auto&& a, auto&& b) {
+            using std::swap;
+            swap(a, b);
+          },
+          idx_, *this, o);
+    } else {
+      variant tmp{std::move(o)};
+      o = std::move(*this);
+      *this = std::move(tmp);
+    }
+  }
+
+  constexpr void destruct() {
+    if (idx_ != NO_VALUE) {
+      apply([](auto&& el) {
+        using el_type = std::decay_t<decltype(el)>;
+        el.~el_type();
+      });
+    }
+  }
+
+  template <typename F>
+  auto apply(F&& f) -> decltype(f(std::declval<type_at_index_t<0U, T...>&>())) {
+    if (idx_ == NO_VALUE) {
+      throw_exception(std::runtime_error{"variant::apply: no value"});
+    }
+    return apply(std::forward<F>(f), idx_, *this);
+  }
+
+  template <typename F>
+  auto apply(F&& f) const
+      -> decltype(f(std::declval<type_at_index_t<0U, T...>>())) {
+    if (idx_ == NO_VALUE) {
+      throw_exception(std::runtime_error{"variant::apply: no value"});
+    }
+    return apply(std::forward<F>(f), idx_, *this);
+  }
+
+#ifdef _MSC_VER
+  static __declspec(noreturn) void noret() {}
+#endif
+
+  template <typename F, std::size_t B = 0U, typename... Vs>
+  static auto apply(F&& f, index_t const idx, Vs&&... vs)
+      -> decltype(f((vs, std::declval<type_at_index_t<0U, T...>&>())...)) {
+    switch (idx) {
+      case B + 0U:
+        if constexpr (B + 0U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 0U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 1U:
+        if constexpr (B + 1U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 1U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 2U:
+        if constexpr (B + 2U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 2U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 3U:
+        if constexpr (B + 3U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 3U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 4U:
+        if constexpr (B + 4U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 4U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 5U:
+        if constexpr (B + 5U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 5U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 6U:
+        if constexpr (B + 6U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 6U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 7U:
+        if constexpr (B + 7U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 7U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 8U:
+        if constexpr (B + 8U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 8U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 9U:
+        if constexpr (B + 9U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 9U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 10U:
+        if constexpr (B + 10U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 10U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 11U:
+        if constexpr (B + 11U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 11U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 12U:
+        if constexpr (B + 12U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 12U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 13U:
+        if constexpr (B + 13U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 13U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 14U:
+        if constexpr (B + 14U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 14U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 15U:
+        if constexpr (B + 15U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 15U, T...>>()...);
+        }
+        break;
+    }
+
+    if constexpr (B + 15U < sizeof...(T)) {
+      return apply<F, B + 16U>(std::forward<F>(f), std::forward<Vs>(vs)...);
+    }
+
+#ifndef _MSC_VER
+    __builtin_unreachable();
+#else
+    noret();
+#endif
+  }
+
+  template <typename AsType>
+  AsType& as() noexcept {
+    return *reinterpret_cast<AsType*>(&storage_);
+  }
+
+  template <typename AsType>
+  AsType const& as() const noexcept {
+    return *reinterpret_cast<AsType const*>(&storage_);
+  }
+
+  hash_t hash() const noexcept {
+    return apply([&](auto&& val) {
+      auto const idx = index();
+      auto h = hashing<decltype(idx)>{}(idx, BASE_HASH);
+      h = hashing<decltype(val)>{}(val, h);
+      return h;
+    });
+  }
+
+  index_t idx_{NO_VALUE};
+  std::aligned_union_t<0, T...> storage_{};
+};
+
+template <typename T, typename... Ts>
+bool holds_alternative(variant<Ts...> const& v) noexcept {
+  return v.idx_ == index_of_type<std::decay_t<T>, Ts...>();
+}
+
+template <std::size_t I, typename... Ts>
+constexpr cista::type_at_index_t<I, Ts...> const& get(
+    cista::variant<Ts...> const& v) noexcept {
+  return v.template as<cista::type_at_index_t<I, Ts...>>();
+}
+
+template <std::size_t I, typename... Ts>
+constexpr cista::type_at_index_t<I, Ts...>& get(
+    cista::variant<Ts...>& v) noexcept {
+  return v.template as<cista::type_at_index_t<I, Ts...>>();
+}
+
+template <class T, class... Ts>
+constexpr T const& get(cista::variant<Ts...> const& v) noexcept {
+  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
+  return v.template as<T>();
+}
+template <class T, class... Ts>
+constexpr T& get(cista::variant<Ts...>& v) noexcept {
+  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
+  return v.template as<T>();
+}
+
+template <class T, class... Ts>
+constexpr std::add_pointer_t<T> get_if(cista::variant<Ts...>& v) noexcept {
+  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
+  return v.idx_ == cista::index_of_type<T, Ts...>() ? &v.template as<T>()
+                                                    : nullptr;
+}
+
+template <std::size_t I, typename... Ts>
+constexpr std::add_pointer_t<cista::type_at_index_t<I, Ts...> const> get_if(
+    cista::variant<Ts...> const& v) noexcept {
+  static_assert(I < sizeof...(Ts));
+  return v.idx_ == I ? &v.template as<cista::type_at_index_t<I, Ts...>>()
+                     : nullptr;
+}
+
+template <std::size_t I, typename... Ts>
+constexpr std::add_pointer_t<cista::type_at_index_t<I, Ts...>> get_if(
+    cista::variant<Ts...>& v) noexcept {
+  static_assert(I < sizeof...(Ts));
+  return v.idx_ == I ? &v.template as<cista::type_at_index_t<I, Ts...>>()
+                     : nullptr;
+}
+
+template <class T, class... Ts>
+constexpr std::add_pointer_t<T const> get_if(
+    cista::variant<Ts...> const& v) noexcept {
+  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
+  return v.idx_ == cista::index_of_type<T, Ts...>() ? &v.template as<T>()
+                                                    : nullptr;
+}
+
+template <class T>
+struct variant_size;
+
+template <class... T>
+struct variant_size<variant<T...>>
+    : std::integral_constant<std::size_t, sizeof...(T)> {};
+
+template <class T>
+constexpr std::size_t variant_size_v = variant_size<T>::value;
+
+namespace raw {
+using cista::variant;
+}  // namespace raw
+
+namespace offset {
+using cista::variant;
+}  // namespace offset
+
+}  // namespace cista
+
+namespace std {
+
+template <typename Visitor, typename... T>
+constexpr auto visit(Visitor&& vis, cista::variant<T...>&& v) {
+  v.apply(vis);
+}
+
+using cista::get;
+
+}  // namespace std
-- 
2.43.0


From 4289ad5dc4f1325348942a1e7727851ec657e53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:08 +0000
Subject: [PATCH 15/47] fix: copying, moving, comparing, swapping and hashing
 variants without a value

---
 include/cista/containers/variant.h | 40 ++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/include/cista/containers/variant.h b/include/cista/containers/variant.h
index 5a3fb1c..f345380 100755
--- a/include/cista/containers/variant.h
+++ b/include/cista/containers/variant.h
@@ -82,12 +82,18 @@ struct variant {
   }
 
   variant(variant const& o) : idx_{o.idx_} {
+    if (!o.valid()) {
+      return;
+    }
     o.apply([this](auto&& el) {
       using Type = std::decay_t<decltype(el)>;
       new (&storage_) Type(std::forward<decltype(el)>(el));
     });
   }
   variant(variant&& o) : idx_{o.idx_} {
+    if (!o.valid()) {
+      return;
+    }
     o.apply([this](auto&& el) {
       using Type = std::decay_t<decltype(el)>;
       new (&storage_) Type(std::move(el));
@@ -95,9 +101,19 @@ struct variant {
   }
 
   variant& operator=(variant const& o) {
+    if (!o.valid()) {
+      destruct();
+      idx_ = NO_VALUE;
+      return *this;
+    }
     return o.apply([&](auto&& el) -> variant& { return *this = el; });
   }
   variant& operator=(variant&& o) {
+    if (!o.valid()) {
+      destruct();
+      idx_ = NO_VALUE;
+      return *this;
+    }
     return o.apply(
         [&](auto&& el) -> variant& { return *this = std::move(el); });
   }
@@ -132,6 +148,9 @@ struct variant {
   constexpr operator bool() const noexcept { return valid(); }
 
   friend bool operator==(variant const& a, variant const& b) noexcept {
+    if (!a.valid() && !b.valid()) {
+      return true;
+    }
     return a.idx_ == b.idx_
                ? apply([](auto&& u, auto&& v) -> bool { return u == v; },
                        a.idx_, a, b)
@@ -139,6 +158,9 @@ struct variant {
   }
 
   friend bool operator!=(variant const& a, variant const& b) noexcept {
+    if (!a.valid() && !b.valid()) {
+      return false;
+    }
     return a.idx_ == b.idx_
                ? apply([](auto&& u, auto&& v) -> bool { return u != v; },
                        a.idx_, a, b)
@@ -146,6 +168,9 @@ struct variant {
   }
 
   friend bool operator<(variant const& a, variant const& b) noexcept {
+    if (!a.valid() && !b.valid()) {
+      return false;
+    }
     return a.idx_ == b.idx_
                ? apply([](auto&& u, auto&& v) -> bool { return u < v; }, a.idx_,
                        a, b)
@@ -153,6 +178,9 @@ struct variant {
   }
 
   friend bool operator>(variant const& a, variant const& b) noexcept {
+    if (!a.valid() && !b.valid()) {
+      return false;
+    }
     return a.idx_ == b.idx_
                ? apply([](auto&& u, auto&& v) -> bool { return u > v; }, a.idx_,
                        a, b)
@@ -160,6 +188,9 @@ struct variant {
   }
 
   friend bool operator<=(variant const& a, variant const& b) noexcept {
+    if (!a.valid() && !b.valid()) {
+      return true;
+    }
     return a.idx_ == b.idx_
                ? apply([](auto&& u, auto&& v) -> bool { return u <= v; },
                        a.idx_, a, b)
@@ -167,6 +198,9 @@ struct variant {
   }
 
   friend bool operator>=(variant const& a, variant const& b) noexcept {
+    if (!a.valid() && !b.valid()) {
+      return true;
+    }
     return a.idx_ == b.idx_
                ? apply([](auto&& u, auto&& v) -> bool { return u >= v; },
                        a.idx_, a, b)
@@ -194,6 +228,9 @@ struct variant {
   constexpr std::size_t index() const noexcept { return idx_; }
 
   void swap(variant& o) {
+    if (!valid() && !o.valid()) {
+      return;
+    }
     if (idx_ == o.idx_) {
       apply(
           [](auto&& a, auto&& b) {
@@ -346,6 +383,9 @@ struct variant {
   }
 
   hash_t hash() const noexcept {
+    if (!valid()) {
+      return hashing<std::size_t>{}(index(), BASE_HASH);
+    }
     return apply([&](auto&& val) {
       auto const idx = index();
       auto h = hashing<decltype(idx)>{}(idx, BASE_HASH);
-- 
2.43.0


From eb8a1332bd28554fe9fee4559a60a8b96f594375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:33 +0000
Subject: [PATCH 16/47] fix: variants with sixteen and more alternatives

---
 include/cista/containers/variant.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/cista/containers/variant.h b/include/cista/containers/variant.h
index f345380..5076b47 100755
--- a/include/cista/containers/variant.h
+++ b/include/cista/containers/variant.h
@@ -361,8 +361,9 @@ struct variant {
         break;
     }
 
-    if constexpr (B + 15U < sizeof...(T)) {
-      return apply<F, B + 16U>(std::forward<F>(f), std::forward<Vs>(vs)...);
+    if constexpr (B + 16U < sizeof...(T)) {
+      return apply<F, B + 16U>(std::forward<F>(f), idx,
+                               std::forward<Vs>(vs)...);
     }
 
 #ifndef _MSC_VER
-- 
2.43.0


From 7850c08fb22c6cb551f2e75ee931077cbe8ee176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:53 +0000
Subject: [PATCH 17/47] fix: optional destroys its value and copies a non-const
 optional

---
 include/cista/containers/optional.h | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/include/cista/containers/optional.h b/include/cista/containers/optional.h
index a9d5df5..70f5e48 100644
--- a/include/cista/containers/optional.h
+++ b/include/cista/containers/optional.h
@@ -12,7 +12,12 @@ template <typename T>
 struct optional {
   optional() = default;
 
-  template <typename... Ts>
+  ~optional() { reset(); }
+
+  template <typename... Ts,
+            typename = std::enable_if_t<
+                sizeof...(Ts) != 1U ||
+                !(std::is_same_v<std::decay_t<Ts>, optional> || ...)>>
   optional(Ts&&... t) noexcept(std::is_nothrow_constructible_v<T, Ts...>) {
     new (&storage_[0]) T{std::forward<Ts>(t)...};
     valid_ = true;
@@ -29,7 +34,19 @@ struct optional {
     return move(std::forward<optional>(other));
   }
 
+  void reset() noexcept {
+    if (valid_) {
+      valid_ = false;
+      reinterpret_cast<T*>(&storage_[0])->~T();
+    }
+  }
+
   optional& copy(optional const& other) {
+    if (&other == this) {
+      return *this;
+    }
+
+    reset();
     if (other.has_value()) {
       new (&storage_[0]) T{other.value()};
     }
@@ -40,6 +57,11 @@ struct optional {
   }
 
   optional& move(optional&& other) {
+    if (&other == this) {
+      return *this;
+    }
+
+    reset();
     if (other.has_value()) {
       new (&storage_[0]) T(std::move(other.value()));
     }
-- 
2.43.0


From 7a3fa71faaf719650556ef1d89bc7135ed25afc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:53 +0000
Subject: [PATCH 18/47] fix: resetting a non-owning unique_ptr, moving a
 unique_ptr onto itself

---
 include/cista/containers/unique_ptr.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/cista/containers/unique_ptr.h b/include/cista/containers/unique_ptr.h
index c490a6b..608fffc 100644
--- a/include/cista/containers/unique_ptr.h
+++ b/include/cista/containers/unique_ptr.h
@@ -28,6 +28,9 @@ struct basic_unique_ptr {
   }
 
   basic_unique_ptr& operator=(basic_unique_ptr&& o) noexcept {
+    if (&o == this) {
+      return *this;
+    }
     reset();
     el_ = o.el_;
     self_allocated_ = o.self_allocated_;
@@ -47,9 +50,9 @@ struct basic_unique_ptr {
   void reset() {
     if (self_allocated_ && el_ != nullptr) {
       delete el_;
-      el_ = nullptr;
-      self_allocated_ = false;
     }
+    el_ = nullptr;
+    self_allocated_ = false;
   }
 
   explicit operator bool() const noexcept { return el_ != nullptr; }
-- 
2.43.0


From 4c04f987327346218395887cbb3478fc045d1e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:10 +0000
Subject: [PATCH 19/47] fix: a tuple whose last element is a tuple

---
 include/cista/containers/tuple.h | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/include/cista/containers/tuple.h b/include/cista/containers/tuple.h
index 12ee6db..82cee29 100644
--- a/include/cista/containers/tuple.h
+++ b/include/cista/containers/tuple.h
@@ -79,20 +79,20 @@ constexpr auto get_arg(T&& arg, Ts&&... args) {
 
 template <std::size_t I, typename... Ts>
 auto& get(tuple<Ts...>& t) {
-  using return_t = tuple_element_t<I, Ts...>;
+  using return_t = tuple_element_t<I, tuple<Ts...>>;
   return *std::launder(reinterpret_cast<return_t*>(t.template get_ptr<I>()));
 }
 
 template <std::size_t I, typename... Ts>
 auto const& get(tuple<Ts...> const& t) {
-  using return_t = tuple_element_t<I, Ts...>;
+  using return_t = tuple_element_t<I, tuple<Ts...>>;
   return *std::launder(
       reinterpret_cast<return_t const*>(t.template get_ptr<I>()));
 }
 
 template <std::size_t I, typename... Ts>
 auto& get(tuple<Ts...>&& t) {
-  using return_t = tuple_element_t<I, Ts...>;
+  using return_t = tuple_element_t<I, tuple<Ts...>>;
   return *std::launder(reinterpret_cast<return_t*>(t.template get_ptr<I>()));
 }
 
@@ -129,19 +129,19 @@ struct tuple {
 
   template <std::size_t... Is>
   constexpr void move_construct_from_args(seq_t<Is...>, Ts&&... args) {
-    (new (get_ptr<Is>())
-         tuple_element_t<Is, Ts...>(get_arg<Is>(std::forward<Ts>(args)...)),
+    (new (get_ptr<Is>()) tuple_element_t<Is, tuple<Ts...>>(
+         get_arg<Is>(std::forward<Ts>(args)...)),
      ...);
   }
 
   template <std::size_t... Is>
   constexpr void default_construct(seq_t<Is...>) {
-    ((new (get_ptr<Is>()) tuple_element_t<Is, Ts...>{}), ...);
+    ((new (get_ptr<Is>()) tuple_element_t<Is, tuple<Ts...>>{}), ...);
   }
 
   template <typename From, std::size_t... Is>
   constexpr void copy_construct(From const& from, seq_t<Is...>) {
-    (new (get_ptr<Is>()) tuple_element_t<Is, Ts...>(get<Is>(from)), ...);
+    (new (get_ptr<Is>()) tuple_element_t<Is, tuple<Ts...>>(get<Is>(from)), ...);
   }
 
   template <typename From, std::size_t... Is>
@@ -151,7 +151,8 @@ struct tuple {
 
   template <typename From, std::size_t... Is>
   constexpr void move_construct(From&& from, seq_t<Is...>) {
-    (new (get_ptr<Is>()) tuple_element_t<Is, Ts...>(std::move(get<Is>(from))),
+    (new (get_ptr<Is>())
+         tuple_element_t<Is, tuple<Ts...>>(std::move(get<Is>(from))),
      ...);
   }
 
-- 
2.43.0


From df3b1e5174d018d267ff6359eac7f154549fa52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:59 +0000
Subject: [PATCH 20/47] fix: equal bit sets and bit vectors have equal hashes
 and members

---
 include/cista/containers/bitset.h | 11 +++++++++++
 include/cista/containers/bitvec.h | 16 +++++++++++++++-
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/include/cista/containers/bitset.h b/include/cista/containers/bitset.h
index bb0447a..8c69247 100644
--- a/include/cista/containers/bitset.h
+++ b/include/cista/containers/bitset.h
@@ -29,6 +29,7 @@ struct bitset {
     for (auto& b : ret.blocks_) {
       b = std::numeric_limits<block_t>::max();
     }
+    ret.clear_unused_bits();
     return ret;
   }
 
@@ -95,6 +96,13 @@ struct bitset {
     }
   }
 
+  // Equal bitsets have equal blocks (reflection, hashing).
+  constexpr void clear_unused_bits() noexcept {
+    if constexpr ((Size % bits_per_block) != 0U) {
+      blocks_[num_blocks - 1U] &= ~((~block_t{0U}) << (Size % bits_per_block));
+    }
+  }
+
   template <typename Fn>
   void for_each_set_bit(Fn&& f) const {
     auto const check_block = [&](std::size_t const i, block_t const block) {
@@ -195,6 +203,7 @@ struct bitset {
     for (auto& b : copy.blocks_) {
       b = ~b;
     }
+    copy.clear_unused_bits();
     return copy;
   }
 
@@ -267,6 +276,7 @@ struct bitset {
 
     if constexpr (num_blocks == 1U) {
       blocks_[0U] <<= shift;
+      clear_unused_bits();
       return *this;
     } else {
       if (shift == 0U) {
@@ -293,6 +303,7 @@ struct bitset {
         blocks_[i] = 0U;
       }
 
+      clear_unused_bits();
       return *this;
     }
   }
diff --git a/include/cista/containers/bitvec.h b/include/cista/containers/bitvec.h
index 496a88a..3639e8c 100644
--- a/include/cista/containers/bitvec.h
+++ b/include/cista/containers/bitvec.h
@@ -41,10 +41,11 @@ struct basic_bitvec {
     for (auto& b : ret.blocks_) {
       b = std::numeric_limits<block_t>::max();
     }
+    ret.clear_unused_bits();
     return ret;
   }
 
-  auto cista_members() noexcept { return std::tie(blocks_); }
+  auto cista_members() noexcept { return std::tie(size_, blocks_); }
 
   static constexpr size_type num_blocks(size_type num_bits) {
     return static_cast<size_type>(num_bits / bits_per_block +
@@ -61,6 +62,15 @@ struct basic_bitvec {
     for (auto& b : blocks_) {
       b = ~block_t{0};
     }
+    clear_unused_bits();
+  }
+
+  // Equal bit vectors have equal blocks (reflection, hashing).
+  constexpr void clear_unused_bits() noexcept {
+    if (!empty() && (size_ % bits_per_block) != 0U) {
+      blocks_[blocks_.size() - 1] &=
+          ~((~block_t{0}) << (size_ % bits_per_block));
+    }
   }
 
   void resize(size_type const new_size) {
@@ -74,6 +84,7 @@ struct basic_bitvec {
     }
     blocks_.resize(num_blocks(new_size));
     size_ = new_size;
+    clear_unused_bits();
   }
 
   void set(std::string_view s) {
@@ -359,6 +370,7 @@ struct basic_bitvec {
     for (auto& b : copy.blocks_) {
       b = ~b;
     }
+    copy.clear_unused_bits();
     return copy;
   }
 
@@ -434,6 +446,7 @@ struct basic_bitvec {
 
     if (blocks_.size() == 1U) {
       blocks_[0] <<= shift;
+      clear_unused_bits();
       return *this;
     } else {
       if (shift == 0U) {
@@ -460,6 +473,7 @@ struct basic_bitvec {
         blocks_[i] = 0U;
       }
 
+      clear_unused_bits();
       return *this;
     }
   }
-- 
2.43.0


From a3687f0e329977e980005715fc9562aab4269049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:53 +0000
Subject: [PATCH 21/47] fix: keep the line endings of variant.h

---
 include/cista/containers/variant.h | 980 ++++++++++++++---------------
 1 file changed, 490 insertions(+), 490 deletions(-)

diff --git a/include/cista/containers/variant.h b/include/cista/containers/variant.h
index 5076b47..85031bf 100755
--- a/include/cista/containers/variant.h
+++ b/include/cista/containers/variant.h
@@ -1,490 +1,490 @@
-#pragma once
-
-#include <cinttypes>
-#include <algorithm>
-#include <array>
-#include <limits>
-#include <type_traits>
-
-#include "cista/exception.h"
-#include "cista/hashing.h"
-
-namespace cista {
-
-template <std::size_t Size, typename Enable = void>
-struct bytes_to_integer_type {};
-
-template <std::size_t Size>
-struct bytes_to_integer_type<Size, std::enable_if_t<Size == 1U>> {
-  using type = std::uint8_t;
-};
-
-template <std::size_t Size>
-struct bytes_to_integer_type<Size, std::enable_if_t<Size == 2U>> {
-  using type = std::uint16_t;
-};
-
-template <typename... T>
-constexpr std::size_t bytes() noexcept {
-  return (sizeof...(T) > std::numeric_limits<std::uint8_t>::max()) ? 2U : 1U;
-}
-
-template <typename... T>
-using variant_index_t = typename bytes_to_integer_type<bytes<T...>()>::type;
-
-constexpr auto const TYPE_NOT_FOUND = std::numeric_limits<std::size_t>::max();
-
-template <typename Arg, typename... T>
-constexpr std::size_t index_of_type() noexcept {
-  constexpr std::array<bool, sizeof...(T)> matches = {
-      {std::is_same<std::decay_t<Arg>, std::decay_t<T>>::value...}};
-  for (std::size_t i = 0U; i < sizeof...(T); ++i) {
-    if (matches[i]) {
-      return i;
-    }
-  }
-  return TYPE_NOT_FOUND;
-}
-
-template <int N, typename... T>
-struct type_at_index;
-
-template <typename First, typename... Rest>
-struct type_at_index<0, First, Rest...> {
-  using type = First;
-};
-
-template <int N, typename First, typename... Rest>
-struct type_at_index<N, First, Rest...> {
-  using type = typename type_at_index<N - 1, Rest...>::type;
-};
-
-template <std::size_t Index, typename... T>
-using type_at_index_t = typename type_at_index<Index, T...>::type;
-
-template <typename... T>
-struct variant {
-  using index_t = variant_index_t<T...>;
-  static constexpr auto NO_VALUE = std::numeric_limits<index_t>::max();
-
-  constexpr variant() noexcept : idx_{NO_VALUE} {}
-
-  template <typename Arg,
-            typename = std::enable_if_t<
-                index_of_type<std::decay_t<Arg>, T...>() != TYPE_NOT_FOUND>>
-  constexpr variant(Arg&& arg)
-      : idx_{static_cast<index_t>(index_of_type<Arg, T...>())} {
-#if defined(CISTA_ZERO_OUT)
-    std::memset(&storage_, 0, sizeof(storage_));
-#endif
-    using Type = std::decay_t<Arg>;
-    new (&storage_) Type(std::forward<Arg>(arg));
-  }
-
-  variant(variant const& o) : idx_{o.idx_} {
-    if (!o.valid()) {
-      return;
-    }
-    o.apply([this](auto&& el) {
-      using Type = std::decay_t<decltype(el)>;
-      new (&storage_) Type(std::forward<decltype(el)>(el));
-    });
-  }
-  variant(variant&& o) : idx_{o.idx_} {
-    if (!o.valid()) {
-      return;
-    }
-    o.apply([this](auto&& el) {
-      using Type = std::decay_t<decltype(el)>;
-      new (&storage_) Type(std::move(el));
-    });
-  }
-
-  variant& operator=(variant const& o) {
-    if (!o.valid()) {
-      destruct();
-      idx_ = NO_VALUE;
-      return *this;
-    }
-    return o.apply([&](auto&& el) -> variant& { return *this = el; });
-  }
-  variant& operator=(variant&& o) {
-    if (!o.valid()) {
-      destruct();
-      idx_ = NO_VALUE;
-      return *this;
-    }
-    return o.apply(
-        [&](auto&& el) -> variant& { return *this = std::move(el); });
-  }
-
-  template <typename Arg,
-            typename = std::enable_if_t<
-                index_of_type<std::decay_t<Arg>, T...>() != TYPE_NOT_FOUND>>
-  variant& operator=(Arg&& arg) {
-    if (index_of_type<Arg, T...>() == idx_) {
-      apply([&](auto&& el) {
-        if constexpr (std::is_same_v<std::decay_t<decltype(el)>,
-                                     std::decay_t<Arg>>) {
-          el = std::forward<Arg>(arg);
-        }
-      });
-      return *this;
-    }
-    destruct();
-    idx_ = static_cast<index_t>(index_of_type<Arg, T...>());
-    new (&storage_) std::decay_t<Arg>{std::forward<Arg>(arg)};
-    return *this;
-  }
-#if _MSVC_LANG >= 202002L || __cplusplus >= 202002L
-  constexpr
-#endif
-      ~variant() {
-    destruct();
-  }
-
-  constexpr bool valid() const noexcept { return index() != NO_VALUE; }
-
-  constexpr operator bool() const noexcept { return valid(); }
-
-  friend bool operator==(variant const& a, variant const& b) noexcept {
-    if (!a.valid() && !b.valid()) {
-      return true;
-    }
-    return a.idx_ == b.idx_
-               ? apply([](auto&& u, auto&& v) -> bool { return u == v; },
-                       a.idx_, a, b)
-               : false;
-  }
-
-  friend bool operator!=(variant const& a, variant const& b) noexcept {
-    if (!a.valid() && !b.valid()) {
-      return false;
-    }
-    return a.idx_ == b.idx_
-               ? apply([](auto&& u, auto&& v) -> bool { return u != v; },
-                       a.idx_, a, b)
-               : true;
-  }
-
-  friend bool operator<(variant const& a, variant const& b) noexcept {
-    if (!a.valid() && !b.valid()) {
-      return false;
-    }
-    return a.idx_ == b.idx_
-               ? apply([](auto&& u, auto&& v) -> bool { return u < v; }, a.idx_,
-                       a, b)
-               : a.idx_ < b.idx_;
-  }
-
-  friend bool operator>(variant const& a, variant const& b) noexcept {
-    if (!a.valid() && !b.valid()) {
-      return false;
-    }
-    return a.idx_ == b.idx_
-               ? apply([](auto&& u, auto&& v) -> bool { return u > v; }, a.idx_,
-                       a, b)
-               : a.idx_ > b.idx_;
-  }
-
-  friend bool operator<=(variant const& a, variant const& b) noexcept {
-    if (!a.valid() && !b.valid()) {
-      return true;
-    }
-    return a.idx_ == b.idx_
-               ? apply([](auto&& u, auto&& v) -> bool { return u <= v; },
-                       a.idx_, a, b)
-               : a.idx_ <= b.idx_;
-  }
-
-  friend bool operator>=(variant const& a, variant const& b) noexcept {
-    if (!a.valid() && !b.valid()) {
-      return true;
-    }
-    return a.idx_ == b.idx_
-               ? apply([](auto&& u, auto&& v) -> bool { return u >= v; },
-                       a.idx_, a, b)
-               : a.idx_ >= b.idx_;
-  }
-
-  template <typename Arg, typename... CtorArgs>
-  Arg& emplace(CtorArgs&&... ctor_args) {
-    static_assert(index_of_type<Arg, T...>() != TYPE_NOT_FOUND);
-    destruct();
-    idx_ = static_cast<index_t>(index_of_type<Arg, T...>());
-    return *(new (&storage_)
-                 std::decay_t<Arg>{std::forward<CtorArgs>(ctor_args)...});
-  }
-
-  template <std::size_t I, typename... CtorArgs>
-  type_at_index_t<I, T...>& emplace(CtorArgs&&... ctor_args) {
-    static_assert(I < sizeof...(T));
-    destruct();
-    idx_ = I;
-    return *(new (&storage_) std::decay_t<type_at_index_t<I, T...>>{
-        std::forward<CtorArgs>(ctor_args)...});
-  }
-
-  constexpr std::size_t index() const noexcept { return idx_; }
-
-  void swap(variant& o) {
-    if (!valid() && !o.valid()) {
-      return;
-    }
-    if (idx_ == o.idx_) {
-      apply(
-          [](auto&& a, auto&& b) {
-            using std::swap;
-            swap(a, b);
-          },
-          idx_, *this, o);
-    } else {
-      variant tmp{std::move(o)};
-      o = std::move(*this);
-      *this = std::move(tmp);
-    }
-  }
-
-  constexpr void destruct() {
-    if (idx_ != NO_VALUE) {
-      apply([](auto&& el) {
-        using el_type = std::decay_t<decltype(el)>;
-        el.~el_type();
-      });
-    }
-  }
-
-  template <typename F>
-  auto apply(F&& f) -> decltype(f(std::declval<type_at_index_t<0U, T...>&>())) {
-    if (idx_ == NO_VALUE) {
-      throw_exception(std::runtime_error{"variant::apply: no value"});
-    }
-    return apply(std::forward<F>(f), idx_, *this);
-  }
-
-  template <typename F>
-  auto apply(F&& f) const
-      -> decltype(f(std::declval<type_at_index_t<0U, T...>>())) {
-    if (idx_ == NO_VALUE) {
-      throw_exception(std::runtime_error{"variant::apply: no value"});
-    }
-    return apply(std::forward<F>(f), idx_, *this);
-  }
-
-#ifdef _MSC_VER
-  static __declspec(noreturn) void noret() {}
-#endif
-
-  template <typename F, std::size_t B = 0U, typename... Vs>
-  static auto apply(F&& f, index_t const idx, Vs&&... vs)
-      -> decltype(f((vs, std::declval<type_at_index_t<0U, T...>&>())...)) {
-    switch (idx) {
-      case B + 0U:
-        if constexpr (B + 0U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 0U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 1U:
-        if constexpr (B + 1U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 1U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 2U:
-        if constexpr (B + 2U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 2U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 3U:
-        if constexpr (B + 3U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 3U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 4U:
-        if constexpr (B + 4U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 4U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 5U:
-        if constexpr (B + 5U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 5U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 6U:
-        if constexpr (B + 6U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 6U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 7U:
-        if constexpr (B + 7U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 7U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 8U:
-        if constexpr (B + 8U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 8U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 9U:
-        if constexpr (B + 9U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 9U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 10U:
-        if constexpr (B + 10U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 10U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 11U:
-        if constexpr (B + 11U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 11U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 12U:
-        if constexpr (B + 12U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 12U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 13U:
-        if constexpr (B + 13U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 13U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 14U:
-        if constexpr (B + 14U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 14U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 15U:
-        if constexpr (B + 15U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 15U, T...>>()...);
-        }
-        break;
-    }
-
-    if constexpr (B + 16U < sizeof...(T)) {
-      return apply<F, B + 16U>(std::forward<F>(f), idx,
-                               std::forward<Vs>(vs)...);
-    }
-
-#ifndef _MSC_VER
-    __builtin_unreachable();
-#else
-    noret();
-#endif
-  }
-
-  template <typename AsType>
-  AsType& as() noexcept {
-    return *reinterpret_cast<AsType*>(&storage_);
-  }
-
-  template <typename AsType>
-  AsType const& as() const noexcept {
-    return *reinterpret_cast<AsType const*>(&storage_);
-  }
-
-  hash_t hash() const noexcept {
-    if (!valid()) {
-      return hashing<std::size_t>{}(index(), BASE_HASH);
-    }
-    return apply([&](auto&& val) {
-      auto const idx = index();
-      auto h = hashing<decltype(idx)>{}(idx, BASE_HASH);
-      h = hashing<decltype(val)>{}(val, h);
-      return h;
-    });
-  }
-
-  index_t idx_{NO_VALUE};
-  std::aligned_union_t<0, T...> storage_{};
-};
-
-template <typename T, typename... Ts>
-bool holds_alternative(variant<Ts...> const& v) noexcept {
-  return v.idx_ == index_of_type<std::decay_t<T>, Ts...>();
-}
-
-template <std::size_t I, typename... Ts>
-constexpr cista::type_at_index_t<I, Ts...> const& get(
-    cista::variant<Ts...> const& v) noexcept {
-  return v.template as<cista::type_at_index_t<I, Ts...>>();
-}
-
-template <std::size_t I, typename... Ts>
-constexpr cista::type_at_index_t<I, Ts...>& get(
-    cista::variant<Ts...>& v) noexcept {
-  return v.template as<cista::type_at_index_t<I, Ts...>>();
-}
-
-template <class T, class... Ts>
-constexpr T const& get(cista::variant<Ts...> const& v) noexcept {
-  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
-  return v.template as<T>();
-}
-template <class T, class... Ts>
-constexpr T& get(cista::variant<Ts...>& v) noexcept {
-  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
-  return v.template as<T>();
-}
-
-template <class T, class... Ts>
-constexpr std::add_pointer_t<T> get_if(cista::variant<Ts...>& v) noexcept {
-  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
-  return v.idx_ == cista::index_of_type<T, Ts...>() ? &v.template as<T>()
-                                                    : nullptr;
-}
-
-template <std::size_t I, typename... Ts>
-constexpr std::add_pointer_t<cista::type_at_index_t<I, Ts...> const> get_if(
-    cista::variant<Ts...> const& v) noexcept {
-  static_assert(I < sizeof...(Ts));
-  return v.idx_ == I ? &v.template as<cista::type_at_index_t<I, Ts...>>()
-                     : nullptr;
-}
-
-template <std::size_t I, typename... Ts>
-constexpr std::add_pointer_t<cista::type_at_index_t<I, Ts...>> get_if(
-    cista::variant<Ts...>& v) noexcept {
-  static_assert(I < sizeof...(Ts));
-  return v.idx_ == I ? &v.template as<cista::type_at_index_t<I, Ts...>>()
-                     : nullptr;
-}
-
-template <class T, class... Ts>
-constexpr std::add_pointer_t<T const> get_if(
-    cista::variant<Ts...> const& v) noexcept {
-  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
-  return v.idx_ == cista::index_of_type<T, Ts...>() ? &v.template as<T>()
-                                                    : nullptr;
-}
-
-template <class T>
-struct variant_size;
-
-template <class... T>
-struct variant_size<variant<T...>>
-    : std::integral_constant<std::size_t, sizeof...(T)> {};
-
-template <class T>
-constexpr std::size_t variant_size_v = variant_size<T>::value;
-
-namespace raw {
-using cista::variant;
-}  // namespace raw
-
-namespace offset {
-using cista::variant;
-}  // namespace offset
-
-}  // namespace cista
-
-namespace std {
-
-template <typename Visitor, typename... T>
-constexpr auto visit(Visitor&& vis, cista::variant<T...>&& v) {
-  v.apply(vis);
-}
-
-using cista::get;
-
-}  // namespace std
+#pragma once
+
+#include <cinttypes>
+#include <algorithm>
+#include <array>
+#include <limits>
+#include <type_traits>
+
+#include "cista/exception.h"
+#include "cista/hashing.h"
+
+namespace cista {
+
+template <std::size_t Size, typename Enable = void>
+struct bytes_to_integer_type {};
+
+template <std::size_t Size>
+struct bytes_to_integer_type<Size, std::enable_if_t<Size == 1U>> {
+  using type = std::uint8_t;
+};
+
+template <std::size_t Size>
+struct bytes_to_integer_type<Size, std::enable_if_t<Size == 2U>> {
+  using type = std::uint16_t;
+};
+
+template <typename... T>
+constexpr std::size_t bytes() noexcept {
+  return (sizeof...(T) > std::numeric_limits<std::uint8_t>::max()) ? 2U : 1U;
+}
+
+template <typename... T>
+using variant_index_t = typename bytes_to_integer_type<bytes<T...>()>::type;
+
+constexpr auto const TYPE_NOT_FOUND = std::numeric_limits<std::size_t>::max();
+
+template <typename Arg, typename... T>
+constexpr std::size_t index_of_type() noexcept {
+  constexpr std::array<bool, sizeof...(T)> matches = {
+      {std::is_same<std::decay_t<Arg>, std::decay_t<T>>::value...}};
+  for (std::size_t i = 0U; i < sizeof...(T); ++i) {
+    if (matches[i]) {
+      return i;
+    }
+  }
+  return TYPE_NOT_FOUND;
+}
+
+template <int N, typename... T>
+struct type_at_index;
+
+template <typename First, typename... Rest>
+struct type_at_index<0, First, Rest...> {
+  using type = First;
+};
+
+template <int N, typename First, typename... Rest>
+struct type_at_index<N, First, Rest...> {
+  using type = typename type_at_index<N - 1, Rest...>::type;
+};
+
+template <std::size_t Index, typename... T>
+using type_at_index_t = typename type_at_index<Index, T...>::type;
+
+template <typename... T>
+struct variant {
+  using index_t = variant_index_t<T...>;
+  static constexpr auto NO_VALUE = std::numeric_limits<index_t>::max();
+
+  constexpr variant() noexcept : idx_{NO_VALUE} {}
+
+  template <typename Arg,
+            typename = std::enable_if_t<
+                index_of_type<std::decay_t<Arg>, T...>() != TYPE_NOT_FOUND>>
+  constexpr variant(Arg&& arg)
+      : idx_{static_cast<index_t>(index_of_type<Arg, T...>())} {
+#if defined(CISTA_ZERO_OUT)
+    std::memset(&storage_, 0, sizeof(storage_));
+#endif
+    using Type = std::decay_t<Arg>;
+    new (&storage_) Type(std::forward<Arg>(arg));
+  }
+
+  variant(variant const& o) : idx_{o.idx_} {
+    if (!o.valid()) {
+      return;
+    }
+    o.apply([this](auto&& el) {
+      using Type = std::decay_t<decltype(el)>;
+      new (&storage_) Type(std::forward<decltype(el)>(el));
+    });
+  }
+  variant(variant&& o) : idx_{o.idx_} {
+    if (!o.valid()) {
+      return;
+    }
+    o.apply([this](auto&& el) {
+      using Type = std::decay_t<decltype(el)>;
+      new (&storage_) Type(std::move(el));
+    });
+  }
+
+  variant& operator=(variant const& o) {
+    if (!o.valid()) {
+      destruct();
+      idx_ = NO_VALUE;
+      return *this;
+    }
+    return o.apply([&](auto&& el) -> variant& { return *this = el; });
+  }
+  variant& operator=(variant&& o) {
+    if (!o.valid()) {
+      destruct();
+      idx_ = NO_VALUE;
+      return *this;
+    }
+    return o.apply(
+        [&](auto&& el) -> variant& { return *this = std::move(el); });
+  }
+
+  template <typename Arg,
+            typename = std::enable_if_t<
+                index_of_type<std::decay_t<Arg>, T...>() != TYPE_NOT_FOUND>>
+  variant& operator=(Arg&& arg) {
+    if (index_of_type<Arg, T...>() == idx_) {
+      apply([&](auto&& el) {
+        if constexpr (std::is_same_v<std::decay_t<decltype(el)>,
+                                     std::decay_t<Arg>>) {
+          el = std::forward<Arg>(arg);
+        }
+      });
+      return *this;
+    }
+    destruct();
+    idx_ = static_cast<index_t>(index_of_type<Arg, T...>());
+    new (&storage_) std::decay_t<Arg>{std::forward<Arg>(arg)};
+    return *this;
+  }
+#if _MSVC_LANG >= 202002L || __cplusplus >= 202002L
+  constexpr
+#endif
+      ~variant() {
+    destruct();
+  }
+
+  constexpr bool valid() const noexcept { return index() != NO_VALUE; }
+
+  constexpr operator bool() const noexcept { return valid(); }
+
+  friend bool operator==(variant const& a, variant const& b) noexcept {
+    if (!a.valid() && !b.valid()) {
+      return true;
+    }
+    return a.idx_ == b.idx_
+               ? apply([](auto&& u, auto&& v) -> bool { return u == v; },
+                       a.idx_, a, b)
+               : false;
+  }
+
+  friend bool operator!=(variant const& a, variant const& b) noexcept {
+    if (!a.valid() && !b.valid()) {
+      return false;
+    }
+    return a.idx_ == b.idx_
+               ? apply([](auto&& u, auto&& v) -> bool { return u != v; },
+                       a.idx_, a, b)
+               : true;
+  }
+
+  friend bool operator<(variant const& a, variant const& b) noexcept {
+    if (!a.valid() && !b.valid()) {
+      return false;
+    }
+    return a.idx_ == b.idx_
+               ? apply([](auto&& u, auto&& v) -> bool { return u < v; }, a.idx_,
+                       a, b)
+               : a.idx_ < b.idx_;
+  }
+
+  friend bool operator>(variant const& a, variant const& b) noexcept {
+    if (!a.valid() && !b.valid()) {
+      return false;
+    }
+    return a.idx_ == b.idx_
+               ? apply([](auto&& u, auto&& v) -> bool { return u > v; }, a.idx_,
+                       a, b)
+               : a.idx_ > b.idx_;
+  }
+
+  friend bool operator<=(variant const& a, variant const& b) noexcept {
+    if (!a.valid() && !b.valid()) {
+      return true;
+    }
+    return a.idx_ == b.idx_
+               ? apply([](auto&& u, auto&& v) -> bool { return u <= v; },
+                       a.idx_, a, b)
+               : a.idx_ <= b.idx_;
+  }
+
+  friend bool operator>=(variant const& a, variant const& b) noexcept {
+    if (!a.valid() && !b.valid()) {
+      return true;
+    }
+    return a.idx_ == b.idx_
+               ? apply([](auto&& u, auto&& v) -> bool { return u >= v; },
+                       a.idx_, a, b)
+               : a.idx_ >= b.idx_;
+  }
+
+  template <typename Arg, typename... CtorArgs>
+  Arg& emplace(CtorArgs&&... ctor_args) {
+    static_assert(index_of_type<Arg, T...>() != TYPE_NOT_FOUND);
+    destruct();
+    idx_ = static_cast<index_t>(index_of_type<Arg, T...>());
+    return *(new (&storage_)
+                 std::decay_t<Arg>{std::forward<CtorArgs>(ctor_args)...});
+  }
+
+  template <std::size_t I, typename... CtorArgs>
+  type_at_index_t<I, T...>& emplace(CtorArgs&&... ctor_args) {
+    static_assert(I < sizeof...(T));
+    destruct();
+    idx_ = I;
+    return *(new (&storage_) std::decay_t<type_at_index_t<I, T...>>{
+        std::forward<CtorArgs>(ctor_args)...});
+  }
+
+  constexpr std::size_t index() const noexcept { return idx_; }
+
+  void swap(variant& o) {
+    if (!valid() && !o.valid()) {
+      return;
+    }
+    if (idx_ == o.idx_) {
+      apply(
+          [](auto&& a, auto&& b) {
+            using std::swap;
+            swap(a, b);
+          },
+          idx_, *this, o);
+    } else {
+      variant tmp{std::move(o)};
+      o = std::move(*this);
+      *this = std::move(tmp);
+    }
+  }
+
+  constexpr void destruct() {
+    if (idx_ != NO_VALUE) {
+      apply([](auto&& el) {
+        using el_type = std::decay_t<decltype(el)>;
+        el.~el_type();
+      });
+    }
+  }
+
+  template <typename F>
+  auto apply(F&& f) -> decltype(f(std::declval<type_at_index_t<0U, T...>&>())) {
+    if (idx_ == NO_VALUE) {
+      throw_exception(std::runtime_error{"variant::apply: no value"});
+    }
+    return apply(std::forward<F>(f), idx_, *this);
+  }
+
+  template <typename F>
+  auto apply(F&& f) const
+      -> decltype(f(std::declval<type_at_index_t<0U, T...>>())) {
+    if (idx_ == NO_VALUE) {
+      throw_exception(std::runtime_error{"variant::apply: no value"});
+    }
+    return apply(std::forward<F>(f), idx_, *this);
+  }
+
+#ifdef _MSC_VER
+  static __declspec(noreturn) void noret() {}
+#endif
+
+  template <typename F, std::size_t B = 0U, typename... Vs>
+  static auto apply(F&& f, index_t const idx, Vs&&... vs)
+      -> decltype(f((vs, std::declval<type_at_index_t<0U, T...>&>())...)) {
+    switch (idx) {
+      case B + 0U:
+        if constexpr (B + 0U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 0U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 1U:
+        if constexpr (B + 1U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 1U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 2U:
+        if constexpr (B + 2U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 2U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 3U:
+        if constexpr (B + 3U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 3U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 4U:
+        if constexpr (B + 4U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 4U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 5U:
+        if constexpr (B + 5U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 5U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 6U:
+        if constexpr (B + 6U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 6U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 7U:
+        if constexpr (B + 7U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 7U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 8U:
+        if constexpr (B + 8U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 8U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 9U:
+        if constexpr (B + 9U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 9U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 10U:
+        if constexpr (B + 10U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 10U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 11U:
+        if constexpr (B + 11U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 11U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 12U:
+        if constexpr (B + 12U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 12U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 13U:
+        if constexpr (B + 13U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 13U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 14U:
+        if constexpr (B + 14U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 14U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 15U:
+        if constexpr (B + 15U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 15U, T...>>()...);
+        }
+        break;
+    }
+
+    if constexpr (B + 16U < sizeof...(T)) {
+      return apply<F, B + 16U>(std::forward<F>(f), idx,
+                               std::forward<Vs>(vs)...);
+    }
+
+#ifndef _MSC_VER
+    __builtin_unreachable();
+#else
+    noret();
+#endif
+  }
+
+  template <typename AsType>
+  AsType& as() noexcept {
+    return *reinterpret_cast<AsType*>(&storage_);
+  }
+
+  template <typename AsType>
+  AsType const& as() const noexcept {
+    return *reinterpret_cast<AsType const*>(&storage_);
+  }
+
+  hash_t hash() const noexcept {
+    if (!valid()) {
+      return hashing<std::size_t>{}(index(), BASE_HASH);
+    }
+    return apply([&](auto&& val) {
+      auto const idx = index();
+      auto h = hashing<decltype(idx)>{}(idx, BASE_HASH);
+      h = hashing<decltype(val)>{}(val, h);
+      return h;
+    });
+  }
+
+  index_t idx_{NO_VALUE};
+  std::aligned_union_t<0, T...> storage_{};
+};
+
+template <typename T, typename... Ts>
+bool holds_alternative(variant<Ts...> const& v) noexcept {
+  return v.idx_ == index_of_type<std::decay_t<T>, Ts...>();
+}
+
+template <std::size_t I, typename... Ts>
+constexpr cista::type_at_index_t<I, Ts...> const& get(
+    cista::variant<Ts...> const& v) noexcept {
+  return v.template as<cista::type_at_index_t<I, Ts...>>();
+}
+
+template <std::size_t I, typename... Ts>
+constexpr cista::type_at_index_t<I, Ts...>& get(
+    cista::variant<Ts...>& v) noexcept {
+  return v.template as<cista::type_at_index_t<I, Ts...>>();
+}
+
+template <class T, class... Ts>
+constexpr T const& get(cista::variant<Ts...> const& v) noexcept {
+  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
+  return v.template as<T>();
+}
+template <class T, class... Ts>
+constexpr T& get(cista::variant<Ts...>& v) noexcept {
+  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
+  return v.template as<T>();
+}
+
+template <class T, class... Ts>
+constexpr std::add_pointer_t<T> get_if(cista::variant<Ts...>& v) noexcept {
+  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
+  return v.idx_ == cista::index_of_type<T, Ts...>() ? &v.template as<T>()
+                                                    : nullptr;
+}
+
+template <std::size_t I, typename... Ts>
+constexpr std::add_pointer_t<cista::type_at_index_t<I, Ts...> const> get_if(
+    cista::variant<Ts...> const& v) noexcept {
+  static_assert(I < sizeof...(Ts));
+  return v.idx_ == I ? &v.template as<cista::type_at_index_t<I, Ts...>>()
+                     : nullptr;
+}
+
+template <std::size_t I, typename... Ts>
+constexpr std::add_pointer_t<cista::type_at_index_t<I, Ts...>> get_if(
+    cista::variant<Ts...>& v) noexcept {
+  static_assert(I < sizeof...(Ts));
+  return v.idx_ == I ? &v.template as<cista::type_at_index_t<I, Ts...>>()
+                     : nullptr;
+}
+
+template <class T, class... Ts>
+constexpr std::add_pointer_t<T const> get_if(
+    cista::variant<Ts...> const& v) noexcept {
+  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
+  return v.idx_ == cista::index_of_type<T, Ts...>() ? &v.template as<T>()
+                                                    : nullptr;
+}
+
+template <class T>
+struct variant_size;
+
+template <class... T>
+struct variant_size<variant<T...>>
+    : std::integral_constant<std::size_t, sizeof...(T)> {};
+
+template <class T>
+constexpr std::size_t variant_size_v = variant_size<T>::value;
+
+namespace raw {
+using cista::variant;
+}  // namespace raw
+
+namespace offset {
+using cista::variant;
+}  // namespace offset
+
+}  // namespace cista
+
+namespace std {
+
+template <typename Visitor, typename... T>
+constexpr auto visit(Visitor&& vis, cista::variant<T...>&& v) {
+  v.apply(vis);
+}
+
+using cista::get;
+
+}  // namespace std
-- 
2.43.0


From 9b8c0ed798453a2d4500adb0e94cf38a14d3797e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:53 +0000
Subject: [PATCH 22/47] fix: vecvec::at rejects the index one past the last
 bucket, resize drops the data of removed buckets

---
 include/cista/containers/vecvec.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/cista/containers/vecvec.h b/include/cista/containers/vecvec.h
index e649847..0a6170a 100644
--- a/include/cista/containers/vecvec.h
+++ b/include/cista/containers/vecvec.h
@@ -334,14 +334,12 @@ struct basic_vecvec {
   }
 
   CISTA_CUDA_COMPAT const_bucket at(Key const i) const {
-    verify(to_idx(i) < bucket_starts_.size(),
-           "basic_vecvec::at: index out of range");
+    verify(to_idx(i) < size(), "basic_vecvec::at: index out of range");
     return {this, to_idx(i)};
   }
 
   CISTA_CUDA_COMPAT bucket at(Key const i) {
-    verify(to_idx(i) < bucket_starts_.size(),
-           "basic_vecvec::at: index out of range");
+    verify(to_idx(i) < size(), "basic_vecvec::at: index out of range");
     return {this, to_idx(i)};
   }
 
@@ -352,9 +350,9 @@ struct basic_vecvec {
   CISTA_CUDA_COMPAT const_bucket back() const { return at(Key{size() - 1}); }
 
   CISTA_CUDA_COMPAT index_value_type size() const {
-    return empty() ? 0U : bucket_starts_.size() - 1;
+    return bucket_starts_.empty() ? 0U : bucket_starts_.size() - 1;
   }
-  CISTA_CUDA_COMPAT bool empty() const { return bucket_starts_.empty(); }
+  CISTA_CUDA_COMPAT bool empty() const { return size() == 0U; }
 
   void clear() {
     bucket_starts_.clear();
@@ -409,6 +407,11 @@ struct basic_vecvec {
     for (auto i = old_size; i < new_size + 1U; ++i) {
       bucket_starts_[i] = data_.size();
     }
+    if (new_size + 1U < old_size) {
+      // The elements of the removed buckets are no part of the next bucket.
+      data_.erase(std::next(data_.begin(), to_idx(bucket_starts_[new_size])),
+                  data_.end());
+    }
   }
 
   CISTA_CUDA_COMPAT
-- 
2.43.0


From c3d47d0de6fb8fee8f38fdaf4bc0db8bf539b2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:53 +0000
Subject: [PATCH 23/47] fix: nvec::size and nvec::at follow and check the whole
 index path

---
 include/cista/containers/nvec.h | 55 +++++++++++++--------------------
 1 file changed, 21 insertions(+), 34 deletions(-)

diff --git a/include/cista/containers/nvec.h b/include/cista/containers/nvec.h
index 82aa930..974c5b8 100644
--- a/include/cista/containers/nvec.h
+++ b/include/cista/containers/nvec.h
@@ -486,55 +486,46 @@ struct basic_nvec {
 
   template <typename... Indices>
   size_type size(Key const first, Indices... rest) const {
-    constexpr auto const I = sizeof...(Indices);
-    verify(to_idx(first) < index_[I].size(), "nvec::at: index out of range");
-    if (sizeof...(Indices) == 0U) {
-      return get_size<N - sizeof...(Indices) - 1>(first);
-    } else {
-      return get_size<N - sizeof...(Indices) - 1>(index_[I][first], rest...);
-    }
+    verify(to_idx(first) < size(), "nvec::at: index out of range");
+    return get_size<N - 1U>(to_idx(first), rest...);
   }
 
   template <typename... Indices>
   bucket_t at(Key const first, Indices... rest) {
     constexpr auto const I = sizeof...(Indices);
     static_assert(I == N - 1);
-    verify(to_idx(first) < index_[I].size(), "nvec::at: index out of range");
-    return get_bucket(index_[I][to_idx(first)], rest...);
+    verify(to_idx(first) < size(), "nvec::at: index out of range");
+    return {&data_, &index_[0], get_bucket_idx<N - 1U>(to_idx(first), rest...)};
   }
 
   template <typename... Indices>
   const_bucket_t at(Key const first, Indices... rest) const {
     constexpr auto const I = sizeof...(Indices);
     static_assert(I == N - 1);
-    verify(to_idx(first) < index_[I].size(), "nvec::at: index out of range");
-    return get_bucket(index_[I][to_idx(first)], rest...);
+    verify(to_idx(first) < size(), "nvec::at: index out of range");
+    return {&data_, &index_[0], get_bucket_idx<N - 1U>(to_idx(first), rest...)};
   }
 
   auto cista_members() noexcept { return std::tie(index_, data_); }
 
-  template <typename... Rest>
-  bucket_t get_bucket(index_value_type const bucket_start,
-                      index_value_type const i, Rest... rest) {
-    return get_bucket<Rest...>(index_[sizeof...(Rest)][bucket_start + i],
-                               rest...);
-  }
-
-  bucket_t get_bucket(index_value_type const bucket_start,
-                      index_value_type const i) {
-    return {&data_, &index_[0], bucket_start + i};
+  // Position in level L - 1 of the j-th child of the i-th entry of level L.
+  template <std::size_t L>
+  index_value_type get_child_idx(index_value_type const i,
+                                 index_value_type const j) const {
+    verify(j < get_size<L>(i), "nvec::at: index out of range");
+    return index_[L][i] + j;
   }
 
-  template <typename... Rest>
-  const_bucket_t get_bucket(index_value_type const bucket_start,
-                            index_value_type const i, Rest... rest) const {
-    return get_bucket<Rest...>(index_[sizeof...(Rest)][bucket_start + i],
-                               rest...);
+  template <std::size_t L, typename... Rest>
+  index_value_type get_bucket_idx(index_value_type const i,
+                                  index_value_type const j,
+                                  Rest... rest) const {
+    return get_bucket_idx<L - 1U>(get_child_idx<L>(i, j), rest...);
   }
 
-  const_bucket_t get_bucket(index_value_type const bucket_start,
-                            index_value_type const i) const {
-    return {&data_, &index_[0], bucket_start + i};
+  template <std::size_t L>
+  index_value_type get_bucket_idx(index_value_type const i) const {
+    return i;
   }
 
   template <std::size_t L, typename Container>
@@ -555,11 +546,7 @@ struct basic_nvec {
   template <std::size_t L, typename... Rest>
   size_type get_size(index_value_type const i, index_value_type const j,
                      Rest... rest) const {
-    if constexpr (sizeof...(Rest) == 0U) {
-      return index_[L][i + j + 1] - index_[L][i + j];
-    } else {
-      return get_size<L>(index_[L][i + j], rest...);
-    }
+    return get_size<L - 1U>(get_child_idx<L>(i, j), rest...);
   }
 
   template <std::size_t L>
-- 
2.43.0


From a587ef21659a852534d33f3bd398cfa776733feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:53 +0000
Subject: [PATCH 24/47] fix: fws_multimap iterator minus a distance goes
 backwards

---
 include/cista/containers/fws_multimap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cista/containers/fws_multimap.h b/include/cista/containers/fws_multimap.h
index 566e108..8f61be9 100644
--- a/include/cista/containers/fws_multimap.h
+++ b/include/cista/containers/fws_multimap.h
@@ -91,7 +91,7 @@ struct fws_multimap_iterator {
   }
 
   fws_multimap_iterator operator-(int const n) const {
-    return {map_, index_ + static_cast<index_t>(n)};
+    return {map_, index_ - static_cast<index_t>(n)};
   }
 
   int operator-(fws_multimap_iterator const& o) const {
-- 
2.43.0


From 0fce09434e1514d7ee449cc91356870445b775ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:53 +0000
Subject: [PATCH 25/47] fix: mutable_fws_multimap erase, insert of own
 elements, bucket iterator decrement

---
 .../cista/containers/mutable_fws_multimap.h   | 20 ++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/include/cista/containers/mutable_fws_multimap.h b/include/cista/containers/mutable_fws_multimap.h
index 1713ce0..91c99b5 100644
--- a/include/cista/containers/mutable_fws_multimap.h
+++ b/include/cista/containers/mutable_fws_multimap.h
@@ -145,15 +145,17 @@ struct dynamic_fws_multimap_base {
 
     template <bool IsConst = Const, typename = std::enable_if_t<!IsConst>>
     iterator insert(iterator it, value_type const& val) {
+      auto const v = val;  // val may be an element of this multimap
       auto insert_it = prepare_insert(it);
-      *insert_it = val;
+      *insert_it = v;
       return insert_it;
     }
 
     template <bool IsConst = Const, typename = std::enable_if_t<!IsConst>>
     iterator insert(iterator it, value_type&& val) {
+      auto v = std::move(val);  // val may be an element of this multimap
       auto insert_it = prepare_insert(it);
-      *insert_it = std::move(val);
+      *insert_it = std::move(v);
       return insert_it;
     }
 
@@ -205,6 +207,7 @@ struct dynamic_fws_multimap_base {
 
     template <bool IsConst = Const, typename = std::enable_if_t<!IsConst>>
     iterator erase(iterator pos) {
+      auto const next = pos;
       auto last = std::prev(end());
       while (pos < last) {
         std::swap(*pos, *std::next(pos));
@@ -213,7 +216,7 @@ struct dynamic_fws_multimap_base {
       (*pos).~T();
       --get_index().size_;
       --mutable_mm().element_count_;
-      return end();
+      return next;
     }
 
     template <bool IsConst = Const, typename = std::enable_if_t<!IsConst>>
@@ -227,7 +230,7 @@ struct dynamic_fws_multimap_base {
         get_index().size_ -= count;
         mutable_mm().element_count_ -= count;
       }
-      return end();
+      return first;
     }
 
   protected:
@@ -318,7 +321,7 @@ struct dynamic_fws_multimap_base {
     }
 
     bucket_iterator& operator--() {
-      ++index_;
+      --index_;
       return *this;
     }
 
@@ -431,6 +434,7 @@ struct dynamic_fws_multimap_base {
 
   void erase(access_t const i) {
     if (to_idx(i) < index_.size()) {
+      element_count_ -= index_[to_idx(i)].size_;
       release_bucket(index_[to_idx(i)]);
     }
   }
@@ -600,8 +604,9 @@ struct dynamic_fws_multimap_base {
   }
 
   size_type push_back_entry(size_type const map_index, value_type const& val) {
+    auto const v = val;  // val may be an element of this multimap
     auto const data_index = insert_new_entry(map_index);
-    data_[data_index] = val;
+    data_[data_index] = v;
     ++element_count_;
     return data_index;
   }
@@ -609,8 +614,9 @@ struct dynamic_fws_multimap_base {
   template <typename... Args>
   size_type emplace_back_entry(size_type const i, Args&&... args) {
     auto const map_index = to_idx(i);
+    auto v = value_type{std::forward<Args>(args)...};
     auto const data_index = insert_new_entry(map_index);
-    data_[data_index] = value_type{std::forward<Args>(args)...};
+    data_[data_index] = std::move(v);
     ++element_count_;
     return data_index;
   }
-- 
2.43.0


From dfcb5d9d30d2725d93e06543cea6503e5bae16b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:06 +0000
Subject: [PATCH 26/47] fix: vecvec bucket distance is negative when going back

---
 include/cista/containers/vecvec.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/cista/containers/vecvec.h b/include/cista/containers/vecvec.h
index 0a6170a..4f2b392 100644
--- a/include/cista/containers/vecvec.h
+++ b/include/cista/containers/vecvec.h
@@ -170,7 +170,8 @@ struct basic_vecvec {
     CISTA_CUDA_COMPAT friend difference_type operator-(bucket const& a,
                                                        bucket const& b) {
       assert(a.map_ == b.map_);
-      return a.i_ - b.i_;
+      return static_cast<difference_type>(a.i_) -
+             static_cast<difference_type>(b.i_);
     }
 
   private:
@@ -304,7 +305,8 @@ struct basic_vecvec {
     friend CISTA_CUDA_COMPAT difference_type operator-(const_bucket const& a,
                                                        const_bucket const& b) {
       assert(a.map_ == b.map_);
-      return a.i_ - b.i_;
+      return static_cast<difference_type>(a.i_) -
+             static_cast<difference_type>(b.i_);
     }
 
   private:
-- 
2.43.0


From 875ec089f535fe3441f23bbd98a6b42e2e59d18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:06 +0000
Subject: [PATCH 27/47] fix: inserting copies into a vector of the type of its
 sizes compiles

---
 include/cista/containers/vector.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cista/containers/vector.h b/include/cista/containers/vector.h
index 302772d..a29412e 100644
--- a/include/cista/containers/vector.h
+++ b/include/cista/containers/vector.h
@@ -292,7 +292,8 @@ struct basic_vector {
     return pos;
   }
 
-  template <class It>
+  template <class It, typename = typename std::iterator_traits<
+                          It>::iterator_category>
   T* insert(T* pos, It first, It last) {
     return insert(pos, first, last,
                   typename std::iterator_traits<It>::iterator_category());
-- 
2.43.0


From ef36df60d0e9c43aa67985fd37335cebce30a9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:09 +0000
Subject: [PATCH 28/47] fix: nvec bucket distance is negative when going back

---
 include/cista/containers/nvec.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/cista/containers/nvec.h b/include/cista/containers/nvec.h
index 974c5b8..1e9e546 100644
--- a/include/cista/containers/nvec.h
+++ b/include/cista/containers/nvec.h
@@ -111,7 +111,8 @@ struct const_bucket final {
                                    const_bucket const& b) {
     assert(a.data_ == b.data_);
     assert(a.index_ == b.index_);
-    return a.i_ - b.i_;
+    return static_cast<difference_type>(a.i_) -
+           static_cast<difference_type>(b.i_);
   }
 
 private:
@@ -247,7 +248,8 @@ struct bucket final {
   friend difference_type operator-(bucket const& a, bucket const& b) {
     assert(a.data_ == b.data_);
     assert(a.index_ == b.index_);
-    return a.i_ - b.i_;
+    return static_cast<difference_type>(a.i_) -
+           static_cast<difference_type>(b.i_);
   }
 
 private:
-- 
2.43.0


From 0a6ef5d494dacc72efc32106e91f59ae5e882d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:03 +0000
Subject: [PATCH 29/47] fix: indexing a const mutable bucket iterator compiles

---
 include/cista/containers/mutable_fws_multimap.h | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/include/cista/containers/mutable_fws_multimap.h b/include/cista/containers/mutable_fws_multimap.h
index 91c99b5..7417b75 100644
--- a/include/cista/containers/mutable_fws_multimap.h
+++ b/include/cista/containers/mutable_fws_multimap.h
@@ -345,11 +345,6 @@ struct dynamic_fws_multimap_base {
     }
 
     value_type operator[](difference_type n) const {
-      return multimap_.at(access_t{index_ + n});
-    }
-
-    template <bool IsConst = Const, typename = std::enable_if_t<!IsConst>>
-    value_type operator[](difference_type const n) {
       return const_cast<dynamic_fws_multimap_base&>(multimap_)  // NOLINT
           .at(access_t{index_ + n});
     }
-- 
2.43.0


From 9a873ab0e0af6f43aa55d943866fbe92380123f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:54 +0000
Subject: [PATCH 30/47] fix: a file target keeps the padding of empty blocks
 and appends where it says

---
 include/cista/targets/file.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/cista/targets/file.h b/include/cista/targets/file.h
index 1b8d599..5537a07 100644
--- a/include/cista/targets/file.h
+++ b/include/cista/targets/file.h
@@ -281,8 +281,6 @@ struct file {
   offset_t write(void const* ptr, std::size_t const size,
                  std::size_t alignment) {
     auto curr_offset = size_;
-    auto seek_offset = long{0};
-    auto seek_whence = int{SEEK_END};
     if (alignment > 1U) {
       auto unaligned_ptr = reinterpret_cast<void*>(size_);
       auto space = std::numeric_limits<std::size_t>::max();
@@ -291,10 +289,16 @@ struct file {
       if (aligned_ptr != nullptr) {
         curr_offset = reinterpret_cast<std::uintptr_t>(aligned_ptr);
       }
-      seek_offset = static_cast<long>(curr_offset);
-      seek_whence = SEEK_SET;
     }
-    verify(!std::fseek(f_, seek_offset, seek_whence), "seek error");
+    if (size == 0U && curr_offset != size_) {
+      // The padding is part of the file even without data behind it.
+      auto const last = std::uint8_t{0U};
+      verify(!std::fseek(f_, static_cast<long>(curr_offset - 1U), SEEK_SET),
+             "seek error");
+      verify(std::fwrite(&last, 1U, 1U, f_) == 1U, "write padding error");
+    }
+    verify(!std::fseek(f_, static_cast<long>(curr_offset), SEEK_SET),
+           "seek error");
     verify(std::fwrite(ptr, 1U, size, f_) == size, "write error");
     size_ = curr_offset + size;
     return static_cast<offset_t>(curr_offset);
-- 
2.43.0


From 99596a9c4300c73966c34d0a6054d46827264365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:55 +0000
Subject: [PATCH 31/47] fix: the file checksum of large ranges is the hash of
 the range for every hash

---
 include/cista/targets/file.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/cista/targets/file.h b/include/cista/targets/file.h
index 5537a07..5e8b6fb 100644
--- a/include/cista/targets/file.h
+++ b/include/cista/targets/file.h
@@ -260,6 +260,17 @@ struct file {
         static_cast<std::size_t>(512U * 1024U);  // 512kB
     verify(size_ >= static_cast<std::size_t>(start), "invalid checksum offset");
     verify(!std::fseek(f_, static_cast<long>(start), SEEK_SET), "fseek error");
+#if defined(CISTA_XXH3) || defined(CISTA_WYHASH) || \
+    defined(CISTA_WYHASH_FASTEST)
+    // These hashes of blocks do not combine to the hash of the whole range.
+    if (size_ - static_cast<std::size_t>(start) > block_size) {
+      auto b = buffer{size_ - static_cast<std::size_t>(start)};
+      verify(std::fread(b.data(), 1U, b.size(), f_) == b.size(),
+             "invalid read");
+      return hash(
+          std::string_view{reinterpret_cast<char const*>(b.data()), b.size()});
+    }
+#endif
     auto c = BASE_HASH;
     char buf[block_size];
     chunk(block_size, size_ - static_cast<std::size_t>(start),
-- 
2.43.0


From 2f9f40d936e68ad15c1fe300d918cc3c6de7e8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:06 +0000
Subject: [PATCH 32/47] fix: checking an offset pointer adds its offset only
 after checking the addition

---
 include/cista/serialization.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index 559960d..6e084ca 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -603,7 +603,7 @@ struct deserialization_context {
   template <typename T>
   void check_ptr(offset_ptr<T> const& el,
                  std::size_t const size = type_size<T>()) const {
-    if (el != nullptr) {
+    if (el.offset_ != NULLPTR_OFFSET) {
       checked_addition(el.offset_, reinterpret_cast<offset_t>(&el));
       check_ptr(el.get(), size);
     }
-- 
2.43.0


From f2639a8becd0e3c5672bb0fc4da3466a945d4dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:06 +0000
Subject: [PATCH 33/47] fix: the text of a serialized wide string is aligned

---
 include/cista/serialization.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index 6e084ca..a659d91 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -224,7 +224,8 @@ void serialize(Ctx& c, generic_string<Ptr> const* origin, offset_t const pos) {
       (origin->h_.ptr_ == nullptr)
           ? NULLPTR_OFFSET
           : c.write(origin->data(),
-                    origin->size() * sizeof(typename Type::CharT));
+                    origin->size() * sizeof(typename Type::CharT),
+                    std::alignment_of_v<typename Type::CharT>);
   if (start != NULLPTR_OFFSET) {
     str_convert_endian(c, start, origin->data(),
                        static_cast<offset_t>(origin->size()));
-- 
2.43.0


From 40fcfe418f7f708e854c4336746a7edd5ba5dd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:06 +0000
Subject: [PATCH 34/47] fix: deserializing a cstring converts and checks its
 pointer

---
 include/cista/serialization.h | 44 +++++++++++++++++++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index a659d91..8a45c84 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -879,6 +879,50 @@ void recurse(Ctx& c, basic_string_view<Ptr>* el, Fn&& fn) {
   recurse(c, static_cast<generic_string<Ptr>*>(el), fn);
 }
 
+// --- CSTRING ---
+template <typename Ctx, typename Ptr>
+void convert_endian_and_ptr(Ctx const& c, generic_cstring<Ptr>* el) {
+  if (!el->is_short()) {
+    deserialize(c, &el->h_.ptr_);
+    c.convert_endian(el->h_.size_);
+  }
+}
+
+template <typename Ctx, typename Ptr>
+void check_state(Ctx const& c, generic_cstring<Ptr>* el) {
+  if (el->is_short()) {
+    c.require(el->s_.remaining_ <=
+                  static_cast<int>(generic_cstring<Ptr>::short_length_limit),
+              "cstring remaining space");
+    c.require(el->s_.remaining_ == 0 || el->s_.s_[el->size()] == '\0',
+              "cstring terminator");
+  } else {
+    c.require(el->h_.ptr_ != nullptr, "cstring ptr must be set");
+    c.check_ptr(el->h_.ptr_, std::size_t{el->h_.size_} + 1U);
+    c.check_bool(el->h_.self_allocated_);
+    c.require(!el->h_.self_allocated_, "cstring self-allocated");
+    c.require(el->h_.ptr_[el->h_.size_] == '\0', "cstring terminator");
+  }
+}
+
+template <typename Ctx, typename Ptr, typename Fn>
+void recurse(Ctx&, generic_cstring<Ptr>*, Fn&&) {}
+
+template <typename Ctx, typename Ptr>
+void convert_endian_and_ptr(Ctx const& c, basic_cstring<Ptr>* el) {
+  convert_endian_and_ptr(c, static_cast<generic_cstring<Ptr>*>(el));
+}
+
+template <typename Ctx, typename Ptr>
+void check_state(Ctx const& c, basic_cstring<Ptr>* el) {
+  check_state(c, static_cast<generic_cstring<Ptr>*>(el));
+}
+
+template <typename Ctx, typename Ptr, typename Fn>
+void recurse(Ctx& c, basic_cstring<Ptr>* el, Fn&& fn) {
+  recurse(c, static_cast<generic_cstring<Ptr>*>(el), fn);
+}
+
 // --- UNIQUE_PTR<T> ---
 template <typename Ctx, typename T, typename Ptr>
 void convert_endian_and_ptr(Ctx const& c, basic_unique_ptr<T, Ptr>* el) {
-- 
2.43.0


From 95f129e98e0fc17bd801c94b2151eb8d977e1a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:06 +0000
Subject: [PATCH 35/47] fix: deserializing a bit vector checks that its blocks
 hold its size

---
 include/cista/serialization.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index 8a45c84..070dc6d 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -1049,6 +1049,16 @@ void recurse(Ctx&, bitset<Size>* el, Fn&& fn) {
   fn(&el->blocks_);
 }
 
+// --- BITVEC ---
+template <typename Ctx, typename Vec, typename Key, typename Fn>
+void recurse(Ctx& c, basic_bitvec<Vec, Key>* el, Fn&& fn) {
+  fn(&el->size_);
+  fn(&el->blocks_);
+  c.require(
+      basic_bitvec<Vec, Key>::num_blocks(el->size_) <= el->blocks_.size(),
+      "bitvec size");
+}
+
 // --- ARRAY<T> ---
 template <typename Ctx, typename T, std::size_t Size, typename Fn>
 void recurse(Ctx&, array<T, Size>* el, Fn&& fn) {
-- 
2.43.0


From f425afffec5f12bf331e3514f82ffebda09f4f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:06 +0000
Subject: [PATCH 36/47] fix: deserializing a hash container checks its capacity
 and mirrored control bytes

---
 include/cista/serialization.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index 070dc6d..e09fe3d 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -995,8 +995,15 @@ void check_state(Ctx const& c,
   c.check_bool(el->self_allocated_);
   c.require(!el->self_allocated_, "hash storage: self-allocated");
 
+  c.require((el->capacity_ & (el->capacity_ + 1U)) == 0U,
+            "hash storage: capacity = 2^n-1");
   c.require(el->ctrl_[el->capacity_] == Type::END,
             "hash storage: end ctrl byte");
+  c.require(std::equal(ptr_cast(el->ctrl_),
+                       ptr_cast(el->ctrl_) +
+                           std::min(Type::WIDTH, el->capacity_),
+                       ptr_cast(el->ctrl_) + el->capacity_ + 1U),
+            "hash storage: mirrored ctrl bytes");
   c.require(std::all_of(ptr_cast(el->ctrl_),
                         ptr_cast(el->ctrl_) + el->capacity_ + 1U + Type::WIDTH,
                         [](typename Type::ctrl_t const ctrl) {
-- 
2.43.0


From 24098c08fbb3bf02a91441a7024f38608256ac20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:35 +0000
Subject: [PATCH 37/47] fix: a paged_vecvec bucket that does not fit into a
 page is rejected

---
 include/cista/containers/paged.h        | 4 +++-
 include/cista/containers/paged_vecvec.h | 6 ++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/cista/containers/paged.h b/include/cista/containers/paged.h
index 2866266..6d61313 100644
--- a/include/cista/containers/paged.h
+++ b/include/cista/containers/paged.h
@@ -60,7 +60,9 @@ struct paged {
     }
   }
 
-  page_t create_page(PageSizeType const size) {
+  page_t create_page(std::size_t const n) {
+    verify(n <= MaxPageSize, "paged::create_page: size > max capacity");
+    auto const size = static_cast<PageSizeType>(n);
     auto const capacity = next_power_of_two(std::max(MinPageSize, size));
     auto const i = free_list_index(capacity);
     verify(i < free_list_.size(), "paged::create_page: size > max capacity");
diff --git a/include/cista/containers/paged_vecvec.h b/include/cista/containers/paged_vecvec.h
index 4c8a98d..c8abbdd 100644
--- a/include/cista/containers/paged_vecvec.h
+++ b/include/cista/containers/paged_vecvec.h
@@ -311,8 +311,7 @@ struct paged_vecvec {
             typename = std::enable_if_t<std::is_convertible_v<
                 decltype(*std::declval<Container>().begin()), data_value_type>>>
   void emplace_back(Container&& bucket) {
-    auto p = paged_.create_page(
-        static_cast<typename Paged::page_size_type>(bucket.size()));
+    auto p = paged_.create_page(static_cast<std::size_t>(bucket.size()));
     paged_.copy(p, std::begin(bucket), std::end(bucket));
     idx_.emplace_back(p);
   }
@@ -335,8 +334,7 @@ struct paged_vecvec {
             typename = std::enable_if_t<std::is_convertible_v<
                 decltype(*std::declval<Container>().begin()), data_value_type>>>
   void insert(Key const& k, Container&& bucket) {
-    auto p = paged_.create_page(
-        static_cast<typename Paged::page_size_type>(bucket.size()));
+    auto p = paged_.create_page(static_cast<std::size_t>(bucket.size()));
     paged_.copy(p, std::begin(bucket), std::end(bucket));
     idx_.insert(idx_.begin() + to_idx(k), p);
   }
-- 
2.43.0


From e2536e4b6c76f2c4a1a25bc4860204023824e4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:35 +0000
Subject: [PATCH 38/47] fix: iterating over a paged_vecvec without buckets

---
 include/cista/containers/paged_vecvec.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cista/containers/paged_vecvec.h b/include/cista/containers/paged_vecvec.h
index c8abbdd..8839071 100644
--- a/include/cista/containers/paged_vecvec.h
+++ b/include/cista/containers/paged_vecvec.h
@@ -297,9 +297,9 @@ struct paged_vecvec {
   base_t<Key> size() const { return idx_.size(); }
   bool empty() const { return idx_.empty(); }
 
-  bucket begin() { return front(); }
+  bucket begin() { return operator[](Key{0}); }
   bucket end() { return operator[](Key{size()}); }
-  const_bucket begin() const { return front(); }
+  const_bucket begin() const { return operator[](Key{0}); }
   const_bucket end() const { return operator[](Key{size()}); }
 
   friend bucket begin(paged_vecvec& m) { return m.begin(); }
-- 
2.43.0


From 26b18ce183ce62f8f247c106d2a8f780befe0110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:35 +0000
Subject: [PATCH 39/47] fix: appending an own element to a paged_vecvec bucket

---
 include/cista/containers/paged_vecvec.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cista/containers/paged_vecvec.h b/include/cista/containers/paged_vecvec.h
index 8839071..c2f29da 100644
--- a/include/cista/containers/paged_vecvec.h
+++ b/include/cista/containers/paged_vecvec.h
@@ -156,9 +156,10 @@ struct paged_vecvec {
     }
 
     void push_back(data_value_type const& x) {
+      auto const copy = x;  // x may be part of the data that moves
       auto& p = pv_->page(i_);
       p = pv_->paged_.resize_page(p, p.size_ + 1U);
-      (*this)[size() - 1U] = x;
+      (*this)[size() - 1U] = copy;
     }
 
     template <typename Arg>
-- 
2.43.0


From bc900ee7739075115e2505e0a809c9ae3dbed111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:54 +0000
Subject: [PATCH 40/47] fix: paged_vecvec bucket distance is negative when
 going back

---
 include/cista/containers/paged_vecvec.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/cista/containers/paged_vecvec.h b/include/cista/containers/paged_vecvec.h
index c2f29da..b27c2f1 100644
--- a/include/cista/containers/paged_vecvec.h
+++ b/include/cista/containers/paged_vecvec.h
@@ -110,7 +110,8 @@ struct paged_vecvec {
     friend difference_type operator-(const_bucket const& a,
                                      const_bucket const& b) {
       assert(a.pv_ == b.pv_);
-      return a.i_ - b.i_;
+      return static_cast<difference_type>(to_idx(a.i_)) -
+             static_cast<difference_type>(to_idx(b.i_));
     }
 
   private:
@@ -251,7 +252,8 @@ struct paged_vecvec {
     }
     friend difference_type operator-(bucket const& a, bucket const& b) {
       assert(a.pv_ == b.pv_);
-      return a.i_ - b.i_;
+      return static_cast<difference_type>(to_idx(a.i_)) -
+             static_cast<difference_type>(to_idx(b.i_));
     }
 
   private:
-- 
2.43.0


From eef3f42a8e96805b4a9ffc37a7b899236e11b012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:43 +0000
Subject: [PATCH 41/47] fix: a default constructed mmap unmapped an
 uninitialised address

---
 include/cista/mmap.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/cista/mmap.h b/include/cista/mmap.h
index c6b40d2..de6e84c 100755
--- a/include/cista/mmap.h
+++ b/include/cista/mmap.h
@@ -205,12 +205,12 @@ private:
   }
 
   file f_;
-  protection prot_;
-  std::size_t size_;
-  std::size_t used_size_;
-  void* addr_;
+  protection prot_{protection::READ};
+  std::size_t size_{0U};
+  std::size_t used_size_{0U};
+  void* addr_{nullptr};
 #ifdef _WIN32
-  HANDLE file_mapping_;
+  HANDLE file_mapping_{nullptr};
 #endif
 };
 
-- 
2.43.0


From 9a0d2de04431f6f0193d80c97551643c9ce3ea87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:43 +0000
Subject: [PATCH 42/47] fix: mmap unmaps all of its mapping, not only the used
 part

---
 include/cista/mmap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cista/mmap.h b/include/cista/mmap.h
index de6e84c..d2ed8ca 100755
--- a/include/cista/mmap.h
+++ b/include/cista/mmap.h
@@ -40,8 +40,8 @@ struct mmap {
   ~mmap() {
     if (addr_ != nullptr) {
       sync();
-      size_ = used_size_;
       unmap();
+      size_ = used_size_;
       if (size_ != f_.size()) {
         resize_file();
       }
-- 
2.43.0


From 66ffcc543398e2bb3391a5bee36984a630b0934e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:01 +0000
Subject: [PATCH 43/47] fix: move assignment to a file or mmap leaked the open
 file and lost the mapping

---
 include/cista/mmap.h         | 4 ++++
 include/cista/targets/file.h | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/include/cista/mmap.h b/include/cista/mmap.h
index d2ed8ca..4ea4098 100755
--- a/include/cista/mmap.h
+++ b/include/cista/mmap.h
@@ -64,6 +64,10 @@ struct mmap {
   }
 
   mmap& operator=(mmap&& o) {
+    if (this == &o) {
+      return *this;
+    }
+    auto const old = mmap{std::move(*this)};  // written back and unmapped
     f_ = std::move(o.f_);
     prot_ = o.prot_;
     size_ = o.size_;
diff --git a/include/cista/targets/file.h b/include/cista/targets/file.h
index 5e8b6fb..101d929 100644
--- a/include/cista/targets/file.h
+++ b/include/cista/targets/file.h
@@ -227,6 +227,12 @@ struct file {
   }
 
   file& operator=(file&& o) {
+    if (this == &o) {
+      return *this;
+    }
+    if (f_ != nullptr) {
+      std::fclose(f_);
+    }
     f_ = o.f_;
     size_ = o.size_;
     o.f_ = nullptr;
-- 
2.43.0


From 5d143b0f966f351ca2af07a55774d60826133804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:24 +0000
Subject: [PATCH 44/47] fix: mmap_vec::reserve changed the length of the
 persisted content

---
 include/cista/containers/mmap_vec.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/cista/containers/mmap_vec.h b/include/cista/containers/mmap_vec.h
index 8fcbc61..6e6fb96 100644
--- a/include/cista/containers/mmap_vec.h
+++ b/include/cista/containers/mmap_vec.h
@@ -34,7 +34,7 @@ struct basic_mmap_vec {
 
   template <typename... Args>
   T& emplace_back(Args&&... el) {
-    reserve(used_size_ + 1U);
+    mmap_.resize(sizeof(T) * (used_size_ + 1U));
     new (data() + used_size_) T{std::forward<Args>(el)...};
     T* ptr = data() + used_size_;
     ++used_size_;
@@ -72,7 +72,7 @@ struct basic_mmap_vec {
     return begin()[to_idx(index)];
   }
 
-  void reserve(size_type const size) { mmap_.resize(size * sizeof(T)); }
+  void reserve(size_type const size) { mmap_.reserve(size * sizeof(T)); }
 
   void resize(size_type const size) {
     mmap_.resize(size * sizeof(T));
@@ -93,7 +93,7 @@ struct basic_mmap_vec {
                    static_cast<diff_t>(std::numeric_limits<size_type>::max()),
            "cista::vector::set: invalid range");
 
-    reserve(static_cast<size_type>(range_size));
+    mmap_.resize(sizeof(T) * static_cast<size_type>(range_size));
 
     auto copy_source = begin_it;
     auto copy_target = data();
@@ -109,7 +109,7 @@ struct basic_mmap_vec {
     auto const old_offset = std::distance(begin(), it);
     auto const old_size = used_size_;
 
-    reserve(used_size_ + 1);
+    mmap_.resize(sizeof(T) * (used_size_ + 1U));
     new (data() + used_size_) T{std::forward<Arg&&>(el)};
     ++used_size_;
 
@@ -122,7 +122,7 @@ struct basic_mmap_vec {
     auto const old_size = used_size_;
 
     for (; !(first == last); ++first) {
-      reserve(used_size_ + 1);
+      mmap_.resize(sizeof(T) * (used_size_ + 1U));
       new (data() + used_size_) T{std::forward<decltype(*first)>(*first)};
       ++used_size_;
     }
@@ -139,7 +139,7 @@ struct basic_mmap_vec {
 
     auto const pos_idx = pos - begin();
     auto const new_count = static_cast<size_type>(std::distance(first, last));
-    reserve(used_size_ + new_count);
+    mmap_.resize(sizeof(T) * (used_size_ + new_count));
     pos = begin() + pos_idx;
 
     for (auto src_last = end() - 1, dest_last = end() + new_count - 1;
-- 
2.43.0


From 419d5f34a5b46e4521b1b9fbfb15683de5131806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:24 +0000
Subject: [PATCH 45/47] fix: appending or inserting an own element of a
 mmap_vec read unmapped memory

---
 include/cista/containers/mmap_vec.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/cista/containers/mmap_vec.h b/include/cista/containers/mmap_vec.h
index 6e6fb96..b740734 100644
--- a/include/cista/containers/mmap_vec.h
+++ b/include/cista/containers/mmap_vec.h
@@ -27,15 +27,17 @@ struct basic_mmap_vec {
         used_size_{static_cast<size_type>(mmap_.size() / sizeof(T))} {}
 
   void push_back(T const& t) {
+    T const copy = t;  // t may be an element of this vector
+    mmap_.resize(sizeof(T) * (used_size_ + 1U));
     ++used_size_;
-    mmap_.resize(sizeof(T) * used_size_);
-    (*this)[Key{used_size_ - 1U}] = t;
+    (*this)[Key{used_size_ - 1U}] = copy;
   }
 
   template <typename... Args>
   T& emplace_back(Args&&... el) {
+    T const tmp{std::forward<Args>(el)...};  // el may be part of this vector
     mmap_.resize(sizeof(T) * (used_size_ + 1U));
-    new (data() + used_size_) T{std::forward<Args>(el)...};
+    new (data() + used_size_) T{tmp};
     T* ptr = data() + used_size_;
     ++used_size_;
     return *ptr;
@@ -109,8 +111,9 @@ struct basic_mmap_vec {
     auto const old_offset = std::distance(begin(), it);
     auto const old_size = used_size_;
 
+    T const tmp{std::forward<Arg&&>(el)};  // el may be part of this vector
     mmap_.resize(sizeof(T) * (used_size_ + 1U));
-    new (data() + used_size_) T{std::forward<Arg&&>(el)};
+    new (data() + used_size_) T{tmp};
     ++used_size_;
 
     return std::rotate(begin() + old_offset, begin() + old_size, end());
-- 
2.43.0


From d4dcb484fe2780851fc88a4e6fd4d16425075645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:24 +0000
Subject: [PATCH 46/47] fix: mmap_vec::insert returned the position behind the
 inserted elements

---
 include/cista/containers/mmap_vec.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/cista/containers/mmap_vec.h b/include/cista/containers/mmap_vec.h
index b740734..e13a8e8 100644
--- a/include/cista/containers/mmap_vec.h
+++ b/include/cista/containers/mmap_vec.h
@@ -1,6 +1,9 @@
 #pragma once
 
+#include <algorithm>
 #include <cassert>
+#include <iterator>
+#include <limits>
 
 #include "cista/mmap.h"
 #include "cista/strong.h"
@@ -116,7 +119,8 @@ struct basic_mmap_vec {
     new (data() + used_size_) T{tmp};
     ++used_size_;
 
-    return std::rotate(begin() + old_offset, begin() + old_size, end());
+    std::rotate(begin() + old_offset, begin() + old_size, end());
+    return begin() + old_offset;
   }
 
   template <class InputIt>
@@ -130,7 +134,8 @@ struct basic_mmap_vec {
       ++used_size_;
     }
 
-    return std::rotate(begin() + old_offset, begin() + old_size, end());
+    std::rotate(begin() + old_offset, begin() + old_size, end());
+    return begin() + old_offset;
   }
 
   template <class FwdIt>
-- 
2.43.0


From 4500994e03ebb18f23391f9e5a24143b4a16071c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:15 +0000
Subject: [PATCH 47/47] fix: rtree wrote past its path hints when higher than
 16 levels

---
 include/cista/containers/rtree.h | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/cista/containers/rtree.h b/include/cista/containers/rtree.h
index de74b0b..036b989 100644
--- a/include/cista/containers/rtree.h
+++ b/include/cista/containers/rtree.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <algorithm>
 #include <cinttypes>
 #include <filesystem>
 
@@ -380,7 +381,7 @@ struct basic_rtree {
 
   std::uint32_t node_choose(node const& search_node, rect const& search_rect,
                             std::uint32_t const depth) {
-    auto const h = m_.path_hint_[depth];
+    auto const h = path_hint(depth);
     if (h < search_node.count_) {
       if (search_node.rects_[h].contains(search_rect)) {
         return h;
@@ -390,17 +391,23 @@ struct basic_rtree {
     // Take a quick look for the first node that contain the rect.
     for (auto i = 0U; i != search_node.count_; ++i) {
       if (search_node.rects_[i].contains(search_rect)) {
-        m_.path_hint_[depth] = i;
+        path_hint(depth) = i;
         return i;
       }
     }
 
     // Fallback to using che "choose least enlargment" algorithm.
     auto const i = search_node.choose_least_enlargement(search_rect);
-    m_.path_hint_[depth] = i;
+    path_hint(depth) = i;
     return i;
   }
 
+  // levels deeper than the hints share the last one
+  std::uint32_t& path_hint(std::uint32_t const depth) {
+    return m_.path_hint_[std::min(
+        depth, static_cast<std::uint32_t>(m_.path_hint_.size() - 1U))];
+  }
+
   node& get_node(node_idx_t const node_id) { return nodes_[node_id]; }
   node const& get_node(node_idx_t const node_id) const {
     return nodes_[node_id];
@@ -502,7 +509,7 @@ struct basic_rtree {
       return;
     }
 
-    auto h = m_.path_hint_[depth];
+    auto h = path_hint(depth);
     auto crect = rect{};
     if (h < delete_node.count_) {
       if (delete_node.rects_[h].contains(input_rect)) {
@@ -537,7 +544,7 @@ struct basic_rtree {
         shrunk = true;
         return;
       }
-      m_.path_hint_[depth] = h;
+      path_hint(depth) = h;
       if (shrunk) {
         shrunk = !delete_node.rects_[h].equals(crect);
         if (shrunk) {
-- 
2.43.0


From 6ed4b9790a0fa902de93027f502e49f04d951f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:42 +0000
Subject: [PATCH 01/87] fix: next_pow2 / checked_next_pow2 detect overflow in
 the argument's own width

---
 best/math/bit.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/best/math/bit.h b/best/math/bit.h
index 0265da6..ac5156c 100644
--- a/best/math/bit.h
+++ b/best/math/bit.h
@@ -170,7 +170,7 @@ BEST_INLINE_ALWAYS constexpr Int wrapping_next_pow2(Int x) {
 /// Returns the next positive power of two; returns `best::none` on overflow.
 template <best::is_unsigned Int>
 BEST_INLINE_ALWAYS constexpr best::option<Int> checked_next_pow2(Int x) {
-  return (best::next_pow2_minus1(x) + best::overflow(1)).checked();
+  return (best::next_pow2_minus1(x) + best::overflow(Int(1))).checked();
 }
 
 /// # `best::next_pow2()`
@@ -178,7 +178,7 @@ BEST_INLINE_ALWAYS constexpr best::option<Int> checked_next_pow2(Int x) {
 /// Returns the next positive power of two; returns crashes on overflow.
 template <best::is_unsigned Int>
 BEST_INLINE_ALWAYS constexpr Int next_pow2(Int x) {
-  return (best::next_pow2_minus1(x) + best::overflow(1)).strict();
+  return (best::next_pow2_minus1(x) + best::overflow(Int(1))).strict();
 }
 
 /// # `best::bits_for()`
-- 
2.43.0


From d1f853e7ebf12de51b26764251ddb1b5759468dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:35 +0000
Subject: [PATCH 02/87] fix: overflow's converting constructor flagged values
 in range and missed values out of range

---
 best/math/overflow.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/best/math/overflow.h b/best/math/overflow.h
index d7633ac..3c4b476 100644
--- a/best/math/overflow.h
+++ b/best/math/overflow.h
@@ -187,8 +187,8 @@ struct overflow {
   constexpr overflow(overflow<J> that)
     : value(that.value),
       overflowed(that.overflowed ||
-                 best::int_cmp(best::min_of<Int>, that.value) < 0 ||
-                 best::int_cmp(best::max_of<Int>, that.value) > 0) {}
+                 best::int_cmp(best::min_of<Int>, that.value) > 0 ||
+                 best::int_cmp(best::max_of<Int>, that.value) < 0) {}
 
   /// # `overflow::wrap()`
   ///
-- 
2.43.0


From bd8807286b54396a063aaa8781c581278a2c97c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:35 +0000
Subject: [PATCH 03/87] fix: ceildiv judges the divisor's sign in the common
 type

---
 best/math/overflow.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/best/math/overflow.h b/best/math/overflow.h
index 3c4b476..d9718bb 100644
--- a/best/math/overflow.h
+++ b/best/math/overflow.h
@@ -76,7 +76,10 @@ template <best::is_int A, best::is_int B>
 BEST_INLINE_ALWAYS constexpr overflow<best::common_int<A, B>> ceildiv(
   overflow<A> a, overflow<B> b) {
   auto [q, r] = best::div(a, b);
-  if ((r.value > 0 && b.value > 0) || (r.value < 0 && b.value < 0)) {
+  // The remainder is of the common type, so the divisor's sign must be judged
+  // in that type, too.
+  best::common_int<A, B> cb = b.value;
+  if ((r.value > 0 && cb > 0) || (r.value < 0 && cb < 0)) {
     return q + 1;
   }
   return q;
-- 
2.43.0


From b6872d21a839dc33af7d548a87c2c09e047b3d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:40 +0000
Subject: [PATCH 04/87] fix: atoi rejects negative text for unsigned types;
 atoi_with_sign keeps the sign for non-pretext strings

---
 best/math/conv.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/best/math/conv.h b/best/math/conv.h
index 47d472c..421cc2e 100644
--- a/best/math/conv.h
+++ b/best/math/conv.h
@@ -81,8 +81,10 @@ constexpr best::result<Int, best::atoi_error> atoi_with_sign(
     size_t total_codes = best::size(str);
     size_t maximum_codes_without_overflow =
       sizeof(Int) * 2 - best::is_signed<Int>;
+    // A negative value of an unsigned type always overflows, unless it is zero.
     size_t cannot_overflow =
-      radix <= 16 && total_codes <= maximum_codes_without_overflow;
+      radix <= 16 && total_codes <= maximum_codes_without_overflow &&
+      (best::is_signed<Int> || !is_negative);
 
 #define BEST_ATOI_LOOP_(result_, op_)                             \
   do {                                                            \
@@ -122,7 +124,7 @@ constexpr best::result<Int, best::atoi_error> atoi_with_sign(
 
 #undef BEST_ATOI_LOOP_
   } else {
-    return best::atoi<Int>(best::pretext(str), radix);
+    return best::atoi_with_sign<Int>(best::pretext(str), is_negative, radix);
   }
 }
 
-- 
2.43.0


From 3109c8ae074a417beb1177318ba612f1de60c0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:31 +0000
Subject: [PATCH 05/87] fix: vec::at(bounds) returns a span instead of failing
 to compile

---
 best/container/vec.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/best/container/vec.h b/best/container/vec.h
index be4e4aa..2ad8213 100644
--- a/best/container/vec.h
+++ b/best/container/vec.h
@@ -274,8 +274,10 @@ class vec final {
   /// out-of-bounds, returns `best::none`.
   best::option<const T&> at(size_t idx) const { return as_span().at(idx); }
   best::option<T&> at(size_t idx) { return as_span().at(idx); }
-  best::option<const T&> at(best::bounds b) const { return as_span().at(b); }
-  best::option<T&> at(best::bounds b) { return as_span().at(b); }
+  best::option<best::span<const T>> at(best::bounds b) const {
+    return as_span().at(b);
+  }
+  best::option<best::span<T>> at(best::bounds b) { return as_span().at(b); }
 
   /// # `vec::citer`, `vec::iter`, `vec::begin()`, `vec::end()`.
   ///
-- 
2.43.0


From ef4b1e10a952f028f0542670869dd63c827b9ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:31 +0000
Subject: [PATCH 06/87] fix: bounds with the largest including_end are out of
 range, not empty

---
 best/iter/bounds.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/best/iter/bounds.h b/best/iter/bounds.h
index 82efd80..05b83ff 100644
--- a/best/iter/bounds.h
+++ b/best/iter/bounds.h
@@ -364,6 +364,12 @@ constexpr int_range<Int>::opt_t int_range<Int>::try_compute_count(
 {
   if (!max_size && !end && !including_end && !count) { return {}; }
 
+  // This needs to be checked before computing a count, because
+  // including_end + 1 may wrap.
+  if (max_size && !end && including_end && *including_end >= *max_size) {
+    return {};
+  }
+
   auto count = normalize(max_size).count;
   if (!max_size) { return count; }
 
-- 
2.43.0


From 7fa87e9ceab39b2685c8bfc4cbcd8f84326298a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:31 +0000
Subject: [PATCH 07/87] fix: unchecked span access reads including_end, not the
 missing end

---
 best/memory/span.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/memory/span.h b/best/memory/span.h
index fdfea2f..9dfc6d0 100644
--- a/best/memory/span.h
+++ b/best/memory/span.h
@@ -1006,7 +1006,7 @@ constexpr best::span<T> span<T, n>::at(unsafe, best::bounds range) const {
   if (range.end) {
     count = *range.end - range.start;
   } else if (range.including_end) {
-    count = *range.end - range.start + 1;
+    count = *range.including_end - range.start + 1;
   } else if (range.count) {
     count = *range.count;
   }
-- 
2.43.0


From 2e6f1a5d89b731d33fc7364942a331ad34587e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:52 +0000
Subject: [PATCH 08/87] fix: static-extent span construction crashes on a
 length mismatch

---
 best/memory/span.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/best/memory/span.h b/best/memory/span.h
index 9dfc6d0..fa56833 100644
--- a/best/memory/span.h
+++ b/best/memory/span.h
@@ -845,8 +845,11 @@ template <best::is_object T, best::option<best::dependent<size_t, T>> n>
 constexpr span<T, n>::span(best::ptr<T> data, size_t size, best::location loc)
   : data_(data) {
   if constexpr (is_static) {
-    best::bounds bounds_check = {.start = this->size(), .count = 0};
-    bounds_check.compute_count(this->size(), loc);
+    if (size != this->size()) {
+      best::crash_internal::crash(
+        {"span size mismatch: %zu (len) != %zu (size)", loc}, size,
+        this->size());
+    }
   } else {
     size_ = size;
   }
-- 
2.43.0


From 3bff1c554a128a45e862e4a4beea9be427958222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:21 +0000
Subject: [PATCH 09/87] fix: span::split_once/rsplit_once with a predicate
 compile

---
 best/memory/span.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/best/memory/span.h b/best/memory/span.h
index fa56833..8590921 100644
--- a/best/memory/span.h
+++ b/best/memory/span.h
@@ -1206,7 +1206,7 @@ constexpr best::option<best::row<span<T>, span<T>>> span<T, n>::split_once(
   auto idx = find(pred);
   if (!idx) { return best::none; }
   return {{
-    best::span(data(), idx),
+    best::span(data(), *idx),
     best::span(data() + *idx + 1, size() - *idx - 1),
   }};
 }
@@ -1241,7 +1241,7 @@ constexpr best::option<best::row<span<T>, span<T>>> span<T, n>::rsplit_once(
   auto idx = rfind(pred);
   if (!idx) { return best::none; }
   return {{
-    best::span(data(), idx),
+    best::span(data(), *idx),
     best::span(data() + *idx + 1, size() - *idx - 1),
   }};
 }
-- 
2.43.0


From 0a97e16d800226cae264ccad423c405e7212f1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:52 +0000
Subject: [PATCH 10/87] fix: span::split with a span separator compiles

---
 best/memory/span.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/memory/span.h b/best/memory/span.h
index 8590921..2a7e7e4 100644
--- a/best/memory/span.h
+++ b/best/memory/span.h
@@ -1262,7 +1262,7 @@ template <best::contiguous R>
 constexpr auto span<T, n>::split(const R& needle) const
   requires best::equatable<T, best::data_type<R>> && (!best::equatable<T, R>)
 {
-  return split_iter(split_impl<const R&>(needle, *this));
+  return split_iter<const R&>(split_impl<const R&>(needle, *this));
 }
 template <best::is_object T, best::option<best::dependent<size_t, T>> n>
 constexpr auto span<T, n>::split(
-- 
2.43.0


From 7c0eac3fd5938b2f89b7bbfd8b01a9a1dc35d403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:52 +0000
Subject: [PATCH 11/87] fix: span::find advances relative to what is left of
 the haystack

---
 best/memory/span.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/best/memory/span.h b/best/memory/span.h
index 2a7e7e4..65d870d 100644
--- a/best/memory/span.h
+++ b/best/memory/span.h
@@ -1084,7 +1084,8 @@ constexpr best::option<size_t> span<T, n>::find(const R& needle) const
       if (next == haystack.size()) { return best::none; }
 
       // Skip forward.
-      haystack = at(unsafe("we just did a bounds check; avoid going through "
+      haystack =
+        haystack.at(unsafe("we just did a bounds check; avoid going through "
                            "best::option here for constexpr speed"),
                     {// SKip the first element for a speedier comparison.
                      .start = next + 1});
-- 
2.43.0


From 8de132a1b1a1cef687e1941e1040602227e3dcf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:52 +0000
Subject: [PATCH 12/87] fix: byte search resumes with the length that is left
 after a misaligned match

---
 best/memory/internal/bytes.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/memory/internal/bytes.h b/best/memory/internal/bytes.h
index 0595947..4d2fd25 100644
--- a/best/memory/internal/bytes.h
+++ b/best/memory/internal/bytes.h
@@ -169,7 +169,7 @@ constexpr best::option<size_t> search_memmem(best::span<T> haystack,
     // stride of T.
     size_t misalign = sizeof(T) - offset % sizeof(T);
     data += misalign;
-    size -= offset + misalign;
+    size = haystack.size() * sizeof(T) - (offset + misalign);
   }
 }
 
-- 
2.43.0


From a38d8e922974a819a7aa5b333e56d7bd86fbd874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:13 +0000
Subject: [PATCH 13/87] fix: span ordering uses memcmp only for types ordered
 as unsigned bytes

---
 best/memory/internal/bytes.h | 7 +++++++
 best/memory/span.h           | 8 ++------
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/best/memory/internal/bytes.h b/best/memory/internal/bytes.h
index 4d2fd25..dc5a1f1 100644
--- a/best/memory/internal/bytes.h
+++ b/best/memory/internal/bytes.h
@@ -104,6 +104,13 @@ concept constexpr_byte_comparable = requires {
   requires bool(BEST_CONSTEXPR_MEMCMP_);
 };
 
+/// Whether a type can be *ordered* with memcmp(): its order must be that of its
+/// representation as a single unsigned byte.
+template <typename T, typename U = T>
+concept byte_orderable = byte_comparable<T, U> && is_char<T> && is_char<U> &&
+                         !best::same<best::as_auto<T>, signed char> &&
+                         !best::same<best::as_auto<U>, signed char>;
+
 template <typename T, typename U>
 BEST_INLINE_ALWAYS constexpr bool equate(best::span<T> lhs, best::span<U> rhs) {
   if (lhs.size() != rhs.size()) { return false; }
diff --git a/best/memory/span.h b/best/memory/span.h
index 65d870d..0eda4a4 100644
--- a/best/memory/span.h
+++ b/best/memory/span.h
@@ -1420,12 +1420,8 @@ template <best::is_object U, best::option<size_t> m>
 constexpr auto span<T, n>::operator<=>(span<U, m> that) const
   requires best::comparable<T, U>
 {
-  if (std::is_constant_evaluated()) {
-    if constexpr (best::bytes_internal::constexpr_byte_comparable<T, U>) {
-      return best::bytes_internal::compare(best::span(*this), best::span(that));
-    }
-  } else {
-    if constexpr (best::bytes_internal::byte_comparable<T, U>) {
+  if constexpr (best::bytes_internal::byte_orderable<T, U>) {
+    if (BEST_CONSTEXPR_MEMCMP_ || !std::is_constant_evaluated()) {
       return best::bytes_internal::compare(best::span(*this), best::span(that));
     }
   }
-- 
2.43.0


From a76f8e10baa5ef7399bd66b6ff6393165ee21191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:29 +0000
Subject: [PATCH 14/87] fix: relocate overlapping ranges of
 non-trivially-relocatable objects one at a time, in the order that avoids
 trampling

---
 best/memory/ptr.h | 40 +++++++++-------------------------------
 1 file changed, 9 insertions(+), 31 deletions(-)

diff --git a/best/memory/ptr.h b/best/memory/ptr.h
index 5a43185..846fc22 100644
--- a/best/memory/ptr.h
+++ b/best/memory/ptr.h
@@ -1031,22 +1031,15 @@ BEST_INLINE_ALWAYS constexpr void ptr<T>::relo_overlapping(ptr<T> that,
   // | xxxx | yyyyyyyyyyyy | yyyyyy | ------------ | xxxx |
   //        src            dst      src + count    dst + count
   //
-  // The moved part is subdivided as follows according to how it needs to be
-  // moved:
-  // | aaaa | bbbbbbbbbbbb | cccc |
-  // src    src + overlap  dst    src + count
-  //
-  // Where overlap = src + count - dst. The c part is move-constructed
-  // but not destroyed; then the b part is relocated, and the a part is
-  // move-assigned and then destroyed.
+  // Each element must be relocated before its slot is reused, so this goes
+  // from the last element to the first.
   //
   // Overlapping backward shift. Happens when dst < src < dest + count, need to
   // destroy {.start = dst + count, .end = src + count }
   // | xxxx | ------------ | yyyyyy | yyyyyyyyyyyy | xxxx |
   //        dst            src      dst + count    src + count
   //
-  // The moved part is divided in the analogous way, but the move/relocate/
-  // assign regions are in the opposite order.
+  // This goes from the first element to the last.
 
   // Non-overlapping case.
   if (src + count <= dst || dst + count <= src) {
@@ -1063,27 +1056,12 @@ BEST_INLINE_ALWAYS constexpr void ptr<T>::relo_overlapping(ptr<T> that,
     }
   }
 
-  // Forward case.
-  if (src < dst && dst < src + count) {
-    size_t overlap0 = src + count - dst;
-    size_t overlap1 = dst - src;
-    // Need to make the copies in backward order to avoid trampling.
-    (dst + overlap1).move(src + overlap1, count - overlap1);
-    (dst + overlap0).relo(src + overlap0, overlap1 - overlap0);
-    dst.relo_assign(src, overlap0);
-    return;
-  }
-
-  // Backward case.
-  if (dst < src && src < dst + count) {
-    size_t overlap0 = dst + count - src;
-    size_t overlap1 = src - dst;
-
-    dst.move(src, overlap0);
-    (dst + overlap0).relo(src + overlap0, overlap1 - overlap0);
-    (dst + overlap1).relo_assign(src + overlap1, count - overlap1);
-
-    return;
+  if (src < dst) {
+    // Forward case.
+    for (size_t i = count; i > 0; --i) { (dst + (i - 1)).relo(src + (i - 1)); }
+  } else {
+    // Backward case.
+    for (size_t i = 0; i < count; ++i) { (dst + i).relo(src + i); }
   }
 }
 }  // namespace best
-- 
2.43.0


From df6a3fd6730589cf6e2cf348a4ddac7b87124c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:45 +0000
Subject: [PATCH 15/87] fix: overlapping copies of non-trivial objects go in
 the direction that reads each element before overwriting it

---
 best/memory/ptr.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/best/memory/ptr.h b/best/memory/ptr.h
index 846fc22..165e105 100644
--- a/best/memory/ptr.h
+++ b/best/memory/ptr.h
@@ -992,7 +992,14 @@ BEST_INLINE_SYNTHETIC constexpr void ptr<T>::copy_impl(ptr<U> that,
     }
   }
 
-  for (size_t i = 0; i < count; ++i) {
+  // When the regions overlap, elements must be read before they are written to.
+  bool backward = false;
+  if constexpr (how.overlapping && best::same<const pointee, const U>) {
+    backward = that.raw() < raw();
+  }
+
+  for (size_t n = 0; n < count; ++n) {
+    size_t i = backward ? count - n - 1 : n;
     if constexpr (how.assign) {
       if constexpr (how.kind == how::Copy) {
         offset(i).assign(that.offset(i).deref());
-- 
2.43.0


From 5cc723c82492deb92dde70f1383852a0f8466c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:02 +0000
Subject: [PATCH 16/87] fix: vec::shrink_to_fit() actually shrinks the
 allocation

---
 best/container/vec.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/best/container/vec.h b/best/container/vec.h
index 2ad8213..d5a8791 100644
--- a/best/container/vec.h
+++ b/best/container/vec.h
@@ -317,7 +317,11 @@ class vec final {
   /// Resizes the underlying allocation such that `capacity == size`.
   void shrink_to_fit() {
     if (size() == capacity() || !on_heap()) { return; }
-    spill_to_heap(size());
+    if (is_empty()) {
+      destroy();
+      return;
+    }
+    spill_to_heap(size(), true);
   }
 
   /// # `vec::truncate()`.
-- 
2.43.0


From 8347e85312926020f3cec8c9ae07ffcad5abf4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:02 +0000
Subject: [PATCH 17/87] fix: reserve the sign bit in the inline length of vec,
 so MaxInline of 128 and up works

---
 best/container/vec.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/container/vec.h b/best/container/vec.h
index d5a8791..e725544 100644
--- a/best/container/vec.h
+++ b/best/container/vec.h
@@ -480,7 +480,7 @@ class vec final {
     size_t bits = best::bits_for(max_inline);
     // We need to pay one extra bit, which is the sign bit of the MSB of size_,
     // which is used to tell whether or not this is an inlined string or not.
-    return best::ceildiv(bits, 8).wrap();
+    return best::ceildiv(bits + 1, 8).wrap();
   }();
 
   /// The amount of padding after raw_ to get the total needed space for
-- 
2.43.0


From fec580abfee45b323af59f5969d014984974a3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:02 +0000
Subject: [PATCH 18/87] fix: moving an inlined vec of non-trivially-relocatable
 elements sets the length of the destination

---
 best/container/vec.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/best/container/vec.h b/best/container/vec.h
index e725544..28ad7f6 100644
--- a/best/container/vec.h
+++ b/best/container/vec.h
@@ -608,11 +608,13 @@ void vec<T, max_inline, A>::move_construct(vec&& that, bool assign) {
     } else {
       data().relo_assign(that.data(), new_size);
     }
+    set_size(unsafe("the elements were just relocated here"), new_size);
   } else {
     destroy();
     auto new_size = that.size();
     reserve(new_size);
     data().relo(that.data(), new_size);
+    set_size(unsafe("the elements were just relocated here"), new_size);
   }
 
   if (assign) { alloc_ = std::move(that.alloc_); }
-- 
2.43.0


From 3b8a606e58e289d68d167921b65cea7ec51d0e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:37 +0000
Subject: [PATCH 19/87] fix: malloc::realloc() of over-aligned blocks copies
 from the data and frees with the old layout

---
 best/memory/allocator.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/best/memory/allocator.cc b/best/memory/allocator.cc
index fec2148..188dd2d 100644
--- a/best/memory/allocator.cc
+++ b/best/memory/allocator.cc
@@ -131,11 +131,13 @@ best::ptr<void> malloc::zalloc(best::layout layout) {
 best::ptr<void> malloc::realloc(best::ptr<void> ptr, best::layout old,
                                 best::layout layout) {
   check_addr(ptr);
-  check_layout(ptr, old);
+  auto base = ptr;
+  auto actual_old = old;
+  check_layout(base, actual_old);
   auto actual = UseCookies ? embiggen(layout) : layout;
 
-  if (actual.align() <= MaxAlign) {
-    void* p = ::realloc(ptr.raw(), actual.size());
+  if (actual_old.align() <= MaxAlign && actual.align() <= MaxAlign) {
+    void* p = ::realloc(base.raw(), actual.size());
     if (best::unlikely(p == nullptr)) {
       best::crash_internal::crash(
         "realloc() returned a null pointer on layout %zu:%zu -> %zu:%zu",
@@ -151,7 +153,7 @@ best::ptr<void> malloc::realloc(best::ptr<void> ptr, best::layout old,
   auto p = alloc(layout);
   size_t common = best::min(old.size(), layout.size());
   std::memcpy(p.raw(), ptr.raw(), common);
-  dealloc(ptr, layout);
+  dealloc(ptr, old);
   return p;
 }
 
-- 
2.43.0


From 39a7a58bbb5c3774e9f3d2c12ed1fc814d66a1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:37 +0000
Subject: [PATCH 20/87] fix: copying a non-const vec uses its allocator, like
 copying a const one

---
 best/container/vec.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/best/container/vec.h b/best/container/vec.h
index 28ad7f6..74569c2 100644
--- a/best/container/vec.h
+++ b/best/container/vec.h
@@ -119,7 +119,8 @@ class vec final {
   template <contiguous Range>
   explicit vec(Range&& range)
     requires best::constructible<T, best::data_type<Range>> &&
-             best::constructible<alloc>
+             best::constructible<alloc> &&
+             (!best::same<best::as_auto<Range>, vec>)
     : vec(alloc{}, BEST_FWD(range)) {}
   template <contiguous Range>
   vec(alloc alloc, Range&& range)
-- 
2.43.0


From 1a084866b2586bde25e2366c2928c083be949bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:52 +0000
Subject: [PATCH 21/87] fix: layout::array() rejects arrays of more than
 max_of<size_t>/2 bytes, as documented

---
 best/memory/layout.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/memory/layout.h b/best/memory/layout.h
index 7f21d2a..c15f1ce 100644
--- a/best/memory/layout.h
+++ b/best/memory/layout.h
@@ -90,7 +90,7 @@ class layout final {
   template <typename T>
   static constexpr layout array(size_t n) {
     auto [sz, of] = best::overflow(size_of<T>) * n;
-    if (of || sz > best::max_of<size_t>) {
+    if (of || sz > best::max_of<size_t> / 2) {
       best::crash_internal::crash(
         "attempted to allocate more than max_of<size_t>/2 bytes");
     }
-- 
2.43.0


From a0863926cecf07feacde3642f7fe6c750b96ff70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:52 +0000
Subject: [PATCH 22/87] fix: vec::reserve() crashes when the requested size
 overflows, instead of wrapping

---
 best/container/vec.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/best/container/vec.h b/best/container/vec.h
index 74569c2..a2f9ff7 100644
--- a/best/container/vec.h
+++ b/best/container/vec.h
@@ -311,7 +311,9 @@ class vec final {
   ///
   /// Ensures that pushing an additional `count` elements would not cause this
   /// vector to resize, by resizing the internal array eagerly.
-  void reserve(size_t count) { resize_uninit(size() + count); }
+  void reserve(size_t count) {
+    resize_uninit((best::overflow(size()) + count).strict());
+  }
 
   /// # `vec::shrink_to_fit()`
   ///
-- 
2.43.0


From 94600b4794f2229f0c9e75ceb4999333dc33b08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:38 +0000
Subject: [PATCH 23/87] fix: as_ptr() of a const option or choice returns a
 pointer to const, so it compiles

---
 best/container/internal/choice.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/container/internal/choice.h b/best/container/internal/choice.h
index 50b350d..fcba448 100644
--- a/best/container/internal/choice.h
+++ b/best/container/internal/choice.h
@@ -239,7 +239,7 @@ class impl : public storage<Ts...> {
     return *get(u, i);
   }
   template <size_t n>
-  BEST_INLINE_SYNTHETIC constexpr best::as_raw_ptr<type<n>> ptr(
+  BEST_INLINE_SYNTHETIC constexpr best::as_raw_ptr<const type<n>> ptr(
     unsafe u, best::index_t<n> i = {}) const {
     return get(u, i).operator->();
   }
-- 
2.43.0


From 5a59d0ad481a09d874dd1d515a7cea0a518be77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:38 +0000
Subject: [PATCH 24/87] fix: option::ok_or()/err_or() on an lvalue no longer
 moves the value out

---
 best/container/option.h | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/best/container/option.h b/best/container/option.h
index 57075e2..f7e819f 100644
--- a/best/container/option.h
+++ b/best/container/option.h
@@ -563,13 +563,13 @@ class option final {
   }
   template <int&... deduction_barrier>
   constexpr auto ok_or(auto&& arg) const&& -> best::result<T, best::as_auto<decltype(arg)>>
-  requires best::constructible<T, ref> && (!best::callable<decltype(arg), void()>) {
-    if (has_value()) return make_ok(); return best::err(BEST_FWD(arg));
+  requires best::constructible<T, crref> && (!best::callable<decltype(arg), void()>) {
+    if (has_value()) return BEST_MOVE(*this).make_ok(); return best::err(BEST_FWD(arg));
   }
   template <int&... deduction_barrier>
   constexpr auto ok_or(auto&& arg) & -> best::result<T, best::as_auto<decltype(arg)>>
-  requires best::constructible<T, crref> && (!best::callable<decltype(arg), void()>) {
-    if (has_value()) return BEST_MOVE(*this).make_ok(); return best::err(BEST_FWD(arg));
+  requires best::constructible<T, ref> && (!best::callable<decltype(arg), void()>) {
+    if (has_value()) return make_ok(); return best::err(BEST_FWD(arg));
   }
   template <int&... deduction_barrier>
   constexpr auto ok_or(auto&& arg) && -> best::result<T, best::as_auto<decltype(arg)>>
@@ -583,13 +583,13 @@ class option final {
   }
   constexpr auto ok_or(best::callable<void()> auto&& arg) const&&
   -> best::result<T, decltype(best::call(BEST_FWD(arg)))>
-  requires best::constructible<T, ref> {
-    if (has_value()) return make_ok(); return best::err(best::call(BEST_FWD(arg)));
+  requires best::constructible<T, crref> {
+    if (has_value()) return BEST_MOVE(*this).make_ok(); return best::err(best::call(BEST_FWD(arg)));
   }
   constexpr auto ok_or(best::callable<void()> auto&& arg) &
   -> best::result<T, decltype(best::call(BEST_FWD(arg)))>
-  requires best::constructible<T, crref> {
-    if (has_value()) return BEST_MOVE(*this).make_ok(); return best::err(best::call(BEST_FWD(arg)));
+  requires best::constructible<T, ref> {
+    if (has_value()) return make_ok(); return best::err(best::call(BEST_FWD(arg)));
   }
   constexpr auto ok_or(best::callable<void()> auto&& arg) &&
   -> best::result<T, decltype(best::call(BEST_FWD(arg)))>
@@ -626,14 +626,14 @@ class option final {
   template <int&... deduction_barrier>
   constexpr auto err_or(auto&& arg) const&&
   -> best::result<best::as_auto<decltype(arg)>, T>
-  requires best::constructible<T, ref> && (!best::callable<decltype(arg), void()>) {
-    if (has_value()) return make_err(); return best::ok(BEST_FWD(arg));
+  requires best::constructible<T, crref> && (!best::callable<decltype(arg), void()>) {
+    if (has_value()) return BEST_MOVE(*this).make_err(); return best::ok(BEST_FWD(arg));
   }
   template <int&... deduction_barrier>
   constexpr auto err_or(auto&& arg) &
   -> best::result<best::as_auto<decltype(arg)>, T>
-  requires best::constructible<T, crref> && (!best::callable<decltype(arg), void()>) {
-    if (has_value()) return BEST_MOVE(*this).make_err(); return best::ok(BEST_FWD(arg));
+  requires best::constructible<T, ref> && (!best::callable<decltype(arg), void()>) {
+    if (has_value()) return make_err(); return best::ok(BEST_FWD(arg));
   }
   template <int&... deduction_barrier>
   constexpr auto err_or(auto&& arg) &&
@@ -648,13 +648,13 @@ class option final {
   }
   constexpr auto err_or(best::callable<void()> auto&& arg) const&&
   -> best::result<decltype(best::call(BEST_FWD(arg))), T>
-  requires best::constructible<T, ref> {
-    if (has_value()) return make_err(); return best::ok(best::call(BEST_FWD(arg)));
+  requires best::constructible<T, crref> {
+    if (has_value()) return BEST_MOVE(*this).make_err(); return best::ok(best::call(BEST_FWD(arg)));
   }
   constexpr auto err_or(best::callable<void()> auto&& arg) &
   -> best::result<decltype(best::call(BEST_FWD(arg))), T>
-  requires best::constructible<T, crref> {
-    if (has_value()) return BEST_MOVE(*this).make_err(); return best::ok(best::call(BEST_FWD(arg)));
+  requires best::constructible<T, ref> {
+    if (has_value()) return make_err(); return best::ok(best::call(BEST_FWD(arg)));
   }
   constexpr auto err_or(best::callable<void()> auto&& arg) &&
   -> best::result<decltype(best::call(BEST_FWD(arg))), T>
-- 
2.43.0


From 55af3009d230fe1e3037aaa08bd949bb7aa72438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:36 +0000
Subject: [PATCH 25/87] fix: destroying a choice of references does not destroy
 the referent

---
 best/container/internal/choice.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/best/container/internal/choice.h b/best/container/internal/choice.h
index fcba448..18d024e 100644
--- a/best/container/internal/choice.h
+++ b/best/container/internal/choice.h
@@ -210,7 +210,12 @@ class impl : public storage<Ts...> {
   = default;
   constexpr ~impl() requires (!info.trivial_dtor())
   {
-    match([](auto&... value) { (std::destroy_at(best::addr(value)), ...); });
+    index_match([](auto tag, auto&... value) {
+      // Reference alternatives do not own what they refer to.
+      if constexpr (best::is_object<type<tag.value>>) {
+        (std::destroy_at(best::addr(value)), ...);
+      }
+    });
   }
 
   template <size_t which, typename... Args>
-- 
2.43.0


From 00bfbe91debccb6dae290b01bd6788e2adbbc6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:10 +0000
Subject: [PATCH 26/87] fix: self-assignment of a choice whose alternative is
 not assignable is a no-op

---
 best/container/internal/choice.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/best/container/internal/choice.h b/best/container/internal/choice.h
index 18d024e..3f64d00 100644
--- a/best/container/internal/choice.h
+++ b/best/container/internal/choice.h
@@ -182,6 +182,7 @@ class impl : public storage<Ts...> {
   = default;
   constexpr impl& operator=(const impl& that) requires (!info.trivial_copy())
   {
+    if (this == &that) { return *this; }
     that.index_match(
       [&](auto tag, auto&... value) { emplace<tag.value>(value...); });
     return *this;
@@ -200,6 +201,7 @@ class impl : public storage<Ts...> {
   = default;
   constexpr impl& operator=(impl&& that) requires (!info.trivial_move())
   {
+    if (this == &that) { return *this; }
     that.index_match([&](auto tag, auto&... value) {
       emplace<tag.value>(BEST_MOVE(value)...);
     });
-- 
2.43.0


From aff0650fd71b6740f6f044c8208f7af9c1dd6b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:57 +0000
Subject: [PATCH 27/87] fix: choice::object() of an rvalue choice returns the
 alternative

---
 best/container/choice.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/best/container/choice.h b/best/container/choice.h
index e095b1d..ba5abc2 100644
--- a/best/container/choice.h
+++ b/best/container/choice.h
@@ -477,14 +477,18 @@ constexpr best::option<
   const best::object<typename choice<A...>::template type<n>>&&>
 choice<A...>::object(best::index_t<n> i) const&& {
   if (which() != n) { return {}; }
-  return BEST_MOVE(impl().object(unsafe{"checked which() before this"}, i));
+  return best::option(
+    best::bind,
+    BEST_MOVE(impl().object(unsafe{"checked which() before this"}, i)));
 }
 template <typename... A>
 template <size_t n>
 constexpr best::option<best::object<typename choice<A...>::template type<n>>&&>
 choice<A...>::object(best::index_t<n> i) && {
   if (which() != n) { return {}; }
-  BEST_MOVE(impl().object(unsafe{"checked which() before this"}, i));
+  return best::option(
+    best::bind,
+    BEST_MOVE(impl().object(unsafe{"checked which() before this"}, i)));
 }
 
 template <typename... A>
-- 
2.43.0


From 1075783d0e0efd33c2b907b639d783c7a6593ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:09 +0000
Subject: [PATCH 28/87] fix: at() of an rvalue choice with a void alternative
 compiles

---
 best/container/choice.h | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/best/container/choice.h b/best/container/choice.h
index ba5abc2..f73fa62 100644
--- a/best/container/choice.h
+++ b/best/container/choice.h
@@ -439,9 +439,14 @@ constexpr best::option<typename choice<A...>::template crref<n>>
 choice<A...>::at(best::index_t<n> i) const&& {
   if (which() != n) { return {}; }
   return best::call_devoid([&]() -> decltype(auto) {
-    return best::option(
-      best::bind, static_cast<crref<n>>(
-                    impl().deref(unsafe{"checked which() before this"}, i)));
+    if constexpr (best::is_void<type<n>>) {
+      return;
+    } else {
+      return best::option(
+        best::bind,
+        static_cast<crref<n>>(
+          impl().deref(unsafe{"checked which() before this"}, i)));
+    }
   });
 }
 template <typename... A>
@@ -450,9 +455,14 @@ constexpr best::option<typename choice<A...>::template rref<n>>
 choice<A...>::at(best::index_t<n> i) && {
   if (which() != n) { return {}; }
   return best::call_devoid([&]() -> decltype(auto) {
-    return best::option(
-      best::bind, static_cast<rref<n>>(
-                    impl().deref(unsafe{"checked which() before this"}, i)));
+    if constexpr (best::is_void<type<n>>) {
+      return;
+    } else {
+      return best::option(
+        best::bind,
+        static_cast<rref<n>>(
+          impl().deref(unsafe{"checked which() before this"}, i)));
+    }
   });
 }
 
-- 
2.43.0


From a551a9b9506bac83f96245b5c7b397658bb25ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:40 +0000
Subject: [PATCH 29/87] fix: dereferencing a result<T, void> compiles

---
 best/text/format.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/best/text/format.h b/best/text/format.h
index 155d79f..cac0c89 100644
--- a/best/text/format.h
+++ b/best/text/format.h
@@ -591,7 +591,11 @@ namespace result_internal {
 struct fmt final {
   template <typename T, typename E>
   BEST_INLINE_SYNTHETIC static void check_ok(const best::result<T, E>* result) {
-    if (auto err = result->err()) {
+    if constexpr (best::is_void<E>) {
+      if (result->is_err()) {
+        best::crash_internal::crash("unwrapped a best::err()");
+      }
+    } else if (auto err = result->err()) {
       auto message = best::format("unwrapped a best::err({:?})",
                                   best::make_formattable(*err));
       best::crash_internal::crash("%.*s", message.size(), message.data());
-- 
2.43.0


From 901026133bb9274fa8b66550d1829b2c295ef0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:08 +0000
Subject: [PATCH 30/87] fix: comparing a result with a value, ok() or err()
 agrees with comparing results

---
 best/container/result.h | 42 +++++++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/best/container/result.h b/best/container/result.h
index c329ba2..8db3677 100644
--- a/best/container/result.h
+++ b/best/container/result.h
@@ -333,33 +333,39 @@ class [[nodiscard(
     const best::result<U, F>& that) const {
     return impl() <=> that.impl();
   }
-  BEST_INLINE_SYNTHETIC constexpr auto operator<=>(
-    const best::comparable<T> auto& u) const {
-    if (auto v = ok()) { return v <=> u; }
-    return best::ord::less;
+  template <best::comparable<T> U>
+  BEST_INLINE_SYNTHETIC constexpr best::order_type<T, U> operator<=>(
+    const U& u) const {
+    if (is_ok()) { return impl()[best::index<0>] <=> u; }
+    return best::Greater;
   }
-  BEST_INLINE_SYNTHETIC constexpr auto operator<=>(
-    const best::comparable<E> auto& u) const {
-    if (auto v = err()) { return v <=> u; }
-    return best::ord::greater;
+  template <best::comparable<E> U>
+  BEST_INLINE_SYNTHETIC constexpr best::order_type<E, U> operator<=>(
+    const U& u) const {
+    if (is_err()) { return impl()[best::index<1>] <=> u; }
+    return best::Less;
   }
   template <best::comparable<T> U>
-  BEST_INLINE_SYNTHETIC constexpr auto operator<=>(best::ok<U> u) const {
-    if (auto v = ok()) { return v <=> u.args.args[best::index<0>]; }
-    return best::ord::less;
+  BEST_INLINE_SYNTHETIC constexpr best::order_type<T, U> operator<=>(
+    best::ok<U> u) const {
+    if (is_ok()) {
+      return impl()[best::index<0>] <=> u.args.row[best::index<0>];
+    }
+    return best::Greater;
   }
   template <best::comparable<E> U>
-  BEST_INLINE_SYNTHETIC constexpr auto operator<=>(best::err<U> u) const {
-    if (auto v = ok()) { return v <=> u.args.args[best::index<0>]; }
-    return best::ord::less;
+  BEST_INLINE_SYNTHETIC constexpr best::order_type<E, U> operator<=>(
+    best::err<U> u) const {
+    if (is_err()) {
+      return impl()[best::index<1>] <=> u.args.row[best::index<0>];
+    }
+    return best::Less;
   }
   BEST_INLINE_SYNTHETIC constexpr auto operator<=>(best::ok<> u) const {
-    if (ok()) { return best::ord::equal; }
-    return best::ord::less;
+    return is_ok() ? best::ord::equal : best::ord::greater;
   }
   BEST_INLINE_SYNTHETIC constexpr auto operator<=>(best::err<> u) const {
-    if (err()) { return best::ord::equal; }
-    return best::ord::greater;
+    return is_err() ? best::ord::equal : best::ord::less;
   }
 
   friend void BestFmt(auto& fmt, const result& res) requires requires {
-- 
2.43.0


From e492cf9b70469d045db65629f3564856fe144a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:22 +0000
Subject: [PATCH 31/87] fix: copy-assigning to a moved-from box allocates
 instead of writing through the dangling pointer

---
 best/container/box.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/container/box.h b/best/container/box.h
index 7327f45..787a513 100644
--- a/best/container/box.h
+++ b/best/container/box.h
@@ -325,7 +325,7 @@ template <typename T, typename A>
 constexpr box<T, A>& box<T, A>::operator=(const box& that)
   requires requires(ptr p) { p.copy_assign(p); }
 {
-  if (layout() != that.layout()) {
+  if (raw() == ptr::dangling().raw() || layout() != that.layout()) {
     this->~box();
     return *new (this) box(that);
   } else {
-- 
2.43.0


From d62dd3b58402aeb0383f95c142e18c412de88cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:55 +0000
Subject: [PATCH 32/87] fix: vec(box&&) compiles

---
 best/container/vec.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/container/vec.h b/best/container/vec.h
index a2f9ff7..82d5791 100644
--- a/best/container/vec.h
+++ b/best/container/vec.h
@@ -167,7 +167,7 @@ class vec final {
   /// allocation.
   vec(box<T[], alloc>&& box)
     : alloc_(best::in_place, BEST_MOVE(box.allocator())) {
-    raw_ = BEST_MOVE(box).leak();
+    raw_ = *BEST_MOVE(box).leak();
     store_size(~raw_.size());
   }
 
-- 
2.43.0


From a3d5f846750ec67eaf4e62cea388951a60044339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:02 +0000
Subject: [PATCH 33/87] fix: a default-constructed rune is NUL, as documented,
 not uninitialised

---
 best/text/rune.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/text/rune.h b/best/text/rune.h
index 2c2760d..e631742 100644
--- a/best/text/rune.h
+++ b/best/text/rune.h
@@ -339,7 +339,7 @@ class rune final {
   static constexpr char Alphabet[] = "0123456789abcdefghijklmnopqrstuvwxyz";
   constexpr explicit rune(best::in_place_t, uint32_t value) : value_(value) {}
 
-  uint32_t value_;
+  uint32_t value_ = 0;
 };
 
 inline constexpr rune rune::Replacement = 0xfffd;
-- 
2.43.0


From 9fa7304777ee54555a12bf55f33e3317506d9858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:35 +0000
Subject: [PATCH 34/87] fix: utf8 validation rejects bare continuation bytes
 and oversized encodings

---
 best/text/internal/utf.h | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/best/text/internal/utf.h b/best/text/internal/utf.h
index 1501dc2..93a8a2c 100644
--- a/best/text/internal/utf.h
+++ b/best/text/internal/utf.h
@@ -39,6 +39,18 @@ namespace best::utf_internal {
 inline constexpr int32_t OutOfBounds = ~int32_t(encoding_error::OutOfBounds);
 inline constexpr int32_t Invalid = ~int32_t(encoding_error::Invalid);
 
+constexpr int32_t encode8_size(uint32_t rune) {
+  if (rune < 0x80) {
+    return 1;
+  } else if (rune < 0x800) {
+    return 2;
+  } else if (rune < 0x10000) {
+    return 3;
+  } else {
+    return 4;
+  }
+}
+
 constexpr bool validate_utf8_fast(const char* data, size_t len) {
   // This function is hit whenever we create a `best::str` from a literal, so
   // we need to avoid optional/span here.
@@ -49,10 +61,10 @@ constexpr bool validate_utf8_fast(const char* data, size_t len) {
       continue;  // ASCII fast path.
     }
 
-    size_t bytes = best::leading_ones(uint8_t(value));
+    size_t bytes = best::leading_ones(uint8_t(value)), total = bytes;
     value &= 0x7f >> bytes;
 
-    if (bytes > 4 || (end - data) < bytes - 1) { return false; }
+    if (bytes < 2 || bytes > 4 || (end - data) < bytes - 1) { return false; }
     while (--bytes > 0) {
       char c = data[0];
       ++data;
@@ -62,25 +74,15 @@ constexpr bool validate_utf8_fast(const char* data, size_t len) {
       value |= c & 0b00'111111;
     }
 
-    if (value >= 0x11'0000 || (value >= 0xd800 && value <= 0xdfff)) {
+    // Reject oversized encodings, too.
+    if (total != encode8_size(value) || value >= 0x11'0000 ||
+        (value >= 0xd800 && value <= 0xdfff)) {
       return false;
     }
   }
   return true;
 }
 
-constexpr int32_t encode8_size(uint32_t rune) {
-  if (rune < 0x80) {
-    return 1;
-  } else if (rune < 0x800) {
-    return 2;
-  } else if (rune < 0x10000) {
-    return 3;
-  } else {
-    return 4;
-  }
-}
-
 constexpr int32_t decode8_size(best::span<const char> input) {
   if (input.is_empty()) { return OutOfBounds; }
   uint32_t ones = best::leading_ones(uint8_t(*input.data()));
-- 
2.43.0


From 49951f84290456f3622f9b087c771b3e6233b0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:12 +0000
Subject: [PATCH 35/87] fix: decoding truncated utf8 is out of bounds, instead
 of reading past the end

---
 best/text/internal/utf.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/best/text/internal/utf.h b/best/text/internal/utf.h
index 93a8a2c..7b984f0 100644
--- a/best/text/internal/utf.h
+++ b/best/text/internal/utf.h
@@ -87,6 +87,7 @@ constexpr int32_t decode8_size(best::span<const char> input) {
   if (input.is_empty()) { return OutOfBounds; }
   uint32_t ones = best::leading_ones(uint8_t(*input.data()));
   if (ones == 1 || ones > 4) { return Invalid; }
+  if (input.size() < ones) { return OutOfBounds; }
   return ones + (ones == 0);
 }
 
-- 
2.43.0


From b097075d309fa51486ae315aeba917432897d21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:47 +0000
Subject: [PATCH 36/87] fix: decoding empty or truncated utf16 is an error,
 instead of reading past the end

---
 best/text/internal/utf.h | 4 ++--
 best/text/utf16.h        | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/best/text/internal/utf.h b/best/text/internal/utf.h
index 7b984f0..9715ee5 100644
--- a/best/text/internal/utf.h
+++ b/best/text/internal/utf.h
@@ -160,10 +160,10 @@ constexpr bool is_low_surrogate(char16_t code) {
   return (code & 0xfc00) == Low;
 }
 
-constexpr size_t decode16_size(best::span<const char16_t> input) {
+constexpr int32_t decode16_size(best::span<const char16_t> input) {
   if (input.is_empty()) { return OutOfBounds; }
   auto value = input.data().raw()[0];
-  if (is_high_surrogate(value)) { return 2; }
+  if (is_high_surrogate(value)) { return input.size() < 2 ? OutOfBounds : 2; }
   if (is_low_surrogate(value)) { return Invalid; }
   return 1;
 }
diff --git a/best/text/utf16.h b/best/text/utf16.h
index b0ebd93..aa9489b 100644
--- a/best/text/utf16.h
+++ b/best/text/utf16.h
@@ -71,7 +71,7 @@ struct utf16 final {
     auto code = best::utf_internal::decode16(input->data().raw(), words);
     if (code < 0) { return encoding_error(~code); }
 
-    *input = (*input)[{.start = words}];
+    *input = (*input)[{.start = size_t(words)}];
     if (auto r = rune::from_int(code)) { return *r; }
     return encoding_error::Invalid;
   }
-- 
2.43.0


From 9920804b213d28373938fa2f19f5893b2063f107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:26 +0000
Subject: [PATCH 37/87] fix: undecoding utf8 rejects a lead byte that does not
 match the number of continuation bytes

---
 best/text/internal/utf.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/best/text/internal/utf.h b/best/text/internal/utf.h
index 9715ee5..04dd205 100644
--- a/best/text/internal/utf.h
+++ b/best/text/internal/utf.h
@@ -120,7 +120,12 @@ constexpr int32_t undecode8(best::span<const char>* input) {
   for (; len < 5; ++len) {
     if (input->size() < len) { return OutOfBounds; }
     auto byte = input->at(unsafe("bounds check above"), input->size() - len);
-    if (best::leading_ones(byte) != 1) { break; }
+    auto ones = best::leading_ones(uint8_t(byte));
+    if (ones == 1) { continue; }
+
+    // The lead byte must call for as many bytes as there are.
+    if (ones + (ones == 0) != len) { return Invalid; }
+    break;
   }
   if (len == 5) { return Invalid; }
   *input = {input->data(), input->size() - len};
-- 
2.43.0


From 2e30d8a6e1338f3ef48b76f1bf39b459a6c7671a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:04 +0000
Subject: [PATCH 38/87] fix: utf8, utf16 and utf32 do not encode unpaired
 surrogates

---
 best/text/utf16.h | 1 +
 best/text/utf32.h | 1 +
 best/text/utf8.h  | 8 +++++++-
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/best/text/utf16.h b/best/text/utf16.h
index aa9489b..8f17536 100644
--- a/best/text/utf16.h
+++ b/best/text/utf16.h
@@ -55,6 +55,7 @@ struct utf16 final {
 
   static constexpr best::result<void, encoding_error> encode(
     best::span<char16_t>* output, rune rune) {
+    if (rune.is_unpaired_surrogate()) { return encoding_error::Invalid; }
     auto size =
       best::utf_internal::encode16(output->data().raw(), output->size(), rune);
     if (size < 0) { return encoding_error(~size); }
diff --git a/best/text/utf32.h b/best/text/utf32.h
index 19079d7..ebe0f56 100644
--- a/best/text/utf32.h
+++ b/best/text/utf32.h
@@ -58,6 +58,7 @@ struct utf32 final {
   template <int = 0>
   static constexpr best::result<void, encoding_error> encode(
     best::span<char32_t>* output, rune rune) {
+    if (rune.is_unpaired_surrogate()) { return encoding_error::Invalid; }
     auto next = output->take_first(1).ok_or(encoding_error::OutOfBounds);
     BEST_GUARD(next);
 
diff --git a/best/text/utf8.h b/best/text/utf8.h
index 53ba36c..3c160fb 100644
--- a/best/text/utf8.h
+++ b/best/text/utf8.h
@@ -57,6 +57,12 @@ struct utf8 final {
   }
 
   static constexpr best::result<void, encoding_error> encode(
+    best::span<char>* output, rune rune) {
+    if (rune.is_unpaired_surrogate()) { return encoding_error::Invalid; }
+    return wtf8_encode(output, rune);
+  }
+
+  static constexpr best::result<void, encoding_error> wtf8_encode(
     best::span<char>* output, rune rune) {
     size_t bytes = best::utf_internal::encode8_size(rune);
     if (output->size() < bytes) { return encoding_error::OutOfBounds; }
@@ -115,7 +121,7 @@ struct wtf8 final {
 
   static constexpr best::result<void, encoding_error> encode(
     best::span<char>* output, rune rune) {
-    return utf8::encode(output, rune);
+    return utf8::wtf8_encode(output, rune);
   }
 
   static constexpr best::result<rune, encoding_error> decode(
-- 
2.43.0


From 8fc863f2d023d0e775caacbc59532d1bae873644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:13 +0000
Subject: [PATCH 39/87] fix: latin1 decodes the upper half of its range

---
 best/text/ascii.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/best/text/ascii.h b/best/text/ascii.h
index 0309343..251adbc 100644
--- a/best/text/ascii.h
+++ b/best/text/ascii.h
@@ -110,7 +110,7 @@ struct latin1 final {
     auto next = input->take_first(1).ok_or(encoding_error::OutOfBounds);
     BEST_GUARD(next);
 
-    return rune::from_int((*next.ok())[0]).ok_or(encoding_error::Invalid);
+    return rune::from_int(uint8_t((*next.ok())[0])).ok_or(encoding_error::Invalid);
   }
 
   static constexpr best::result<rune, encoding_error> undecode(
@@ -118,7 +118,7 @@ struct latin1 final {
     auto next = input->take_last(1).ok_or(encoding_error::OutOfBounds);
     BEST_GUARD(next);
 
-    return rune::from_int((*next.ok())[0]).ok_or(encoding_error::Invalid);
+    return rune::from_int(uint8_t((*next.ok())[0])).ok_or(encoding_error::Invalid);
   }
 
   constexpr bool operator==(const latin1&) const = default;
-- 
2.43.0


From 9eb94d807d5124754a34abaf2fa9d4ae92c6c30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:06 +0000
Subject: [PATCH 40/87] fix: text::from_partial compiles

---
 best/text/str.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/best/text/str.h b/best/text/str.h
index e14f346..f4223af 100644
--- a/best/text/str.h
+++ b/best/text/str.h
@@ -1230,10 +1230,10 @@ constexpr best::option<text<E>> text<E>::from(pretext data) {
 template <typename E>
 constexpr best::row<text<E>, pretext<E>> text<E>::from_partial(pretext data) {
   size_t split_at = 0;
-  auto runes = data.runes();
-  for (auto r : runes) {
+  auto runes = data.try_runes();
+  while (auto r = runes.next()) {
     if (r->err()) { break; }
-    split_at = data.size() - runes->rest();
+    split_at = data.size() - runes->rest().size();
   }
 
   unsafe u("the loop above did an implicit bounds check for us");
-- 
2.43.0


From bfc4ccd1d02de87f2586a03128ab3ba8fd8cbc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:00 +0000
Subject: [PATCH 41/87] fix: text::rune_indices compiles

---
 best/text/str.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/text/str.h b/best/text/str.h
index f4223af..7e79e9c 100644
--- a/best/text/str.h
+++ b/best/text/str.h
@@ -917,7 +917,7 @@ class text<E>::rune_index_iter_impl final {
   using BestIterArrow = void;
 
  private:
-  friend pretext;
+  friend text;
   friend best::iter<rune_index_iter_impl>;
   friend best::iter<rune_index_iter_impl&>;
 
-- 
2.43.0


From d2c57df6009925116b1d4a33862087cdc70c032c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:13 +0000
Subject: [PATCH 42/87] fix: searching text with a rune predicate compiles

---
 best/text/str.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/best/text/str.h b/best/text/str.h
index 7e79e9c..e0cdb2d 100644
--- a/best/text/str.h
+++ b/best/text/str.h
@@ -1198,7 +1198,7 @@ constexpr std::array<size_t, 2> splits(best::pretext<E> haystack,
   auto runes = haystack.try_runes();
   while (auto next = runes.next()) {
     if (!*next) { break; }
-    if (best::call(pred, **next)) {
+    if (best::call(pred, *next->ok())) {
       return {{before, haystack.size() - runes->rest().size()}};
     }
     before = haystack.size() - runes->rest().size();
@@ -1213,7 +1213,7 @@ constexpr std::array<size_t, 2> rsplits(
   auto runes = haystack.try_runes();
   while (auto next = runes.next_back()) {
     if (!*next) { break; }
-    if (best::call(pred, **next)) { return {{runes->rest().size(), before}}; }
+    if (best::call(pred, *next->ok())) { return {{runes->rest().size(), before}}; }
     before = runes->rest().size();
   }
   return {-1, -1};
-- 
2.43.0


From f270a3b2af2cb0ed0bbef8243a76f2a6b71d332c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:13 +0000
Subject: [PATCH 43/87] fix: text::consume_suffix compiles

---
 best/text/str.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/best/text/str.h b/best/text/str.h
index e0cdb2d..7963cbb 100644
--- a/best/text/str.h
+++ b/best/text/str.h
@@ -360,21 +360,21 @@ class text final {
   }
   constexpr bool consume_suffix(rune r) requires (About.is_self_syncing)
   {
-    auto prefix = consume_suffix(r);
+    auto prefix = strip_suffix(r);
     if (prefix) { *this = *prefix; }
     return prefix.has_value();
   }
   constexpr bool consume_suffix(const best::is_string auto& s)
     requires (About.is_self_syncing)
   {
-    auto prefix = consume_suffix(s);
+    auto prefix = strip_suffix(s);
     if (prefix) { *this = *prefix; }
     return prefix.has_value();
   }
   constexpr bool consume_suffix(best::callable<bool(rune)> auto&& p)
     requires (About.is_self_syncing)
   {
-    auto prefix = consume_suffix(BEST_FWD(p));
+    auto prefix = strip_suffix(BEST_FWD(p));
     if (prefix) { *this = *prefix; }
     return prefix.has_value();
   }
-- 
2.43.0


From 3f1e50c8789eee0adf77526022d12803d849a419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:56 +0000
Subject: [PATCH 44/87] fix: searching text for a rune its encoding cannot
 represent finds nothing

---
 best/text/str.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/best/text/str.h b/best/text/str.h
index 7963cbb..3a84dc1 100644
--- a/best/text/str.h
+++ b/best/text/str.h
@@ -1178,6 +1178,7 @@ constexpr std::array<size_t, 2> splits(best::pretext<E> haystack,
                                        best::rune needle) {
   code<E> buf[E::About.max_codes_per_rune];
   auto encoded = needle.encode(buf, haystack.enc());
+  if (!encoded) { return {-1, -1}; }
   return str_internal::splits(haystack,
                               best::pretext<E>(*encoded.ok(), haystack.enc()));
 }
@@ -1187,6 +1188,7 @@ constexpr std::array<size_t, 2> rsplits(best::pretext<E> haystack,
                                         best::rune needle) {
   code<E> buf[E::About.max_codes_per_rune];
   auto encoded = needle.encode(buf, haystack.enc());
+  if (!encoded) { return {-1, -1}; }
   return str_internal::rsplits(haystack,
                                best::pretext<E>(*encoded.ok(), haystack.enc()));
 }
-- 
2.43.0


From 00df53749243af141c0240c8d3ed259823c5d0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:56 +0000
Subject: [PATCH 45/87] fix: text::split keeps its predicate by value

---
 best/text/str.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/best/text/str.h b/best/text/str.h
index 3a84dc1..4c324bb 100644
--- a/best/text/str.h
+++ b/best/text/str.h
@@ -1401,7 +1401,7 @@ constexpr auto text<E>::split(const best::is_string auto& needle) const {
 }
 template <typename E>
 constexpr auto text<E>::split(best::callable<bool(rune)> auto&& pred) const {
-  return text_.split(BEST_MOVE(pred)).map([](auto pre) {
+  return text_.split(BEST_FWD(pred)).map([](auto pre) {
     return text{unsafe("valid because text_ was already valid"), pre};
   });
 }
@@ -1740,8 +1740,8 @@ constexpr auto pretext<E>::split(const best::is_string auto& needle) const {
 }
 template <typename E>
 constexpr auto pretext<E>::split(best::callable<bool(rune)> auto&& pred) const {
-  return split_iter<decltype(pred)>(
-    split_impl<decltype(pred)>(BEST_FWD(pred), *this));
+  using P = best::as_auto<decltype(pred)>;
+  return split_iter<P>(split_impl<P>(BEST_FWD(pred), *this));
 }
 
 template <typename E>
-- 
2.43.0


From c511cf4050c14329ff7fb161901a9352576833a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:06 +0000
Subject: [PATCH 46/87] fix: an empty pattern matches an empty piece of text,
 not all of it

---
 best/text/str.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/best/text/str.h b/best/text/str.h
index 4c324bb..c5dbe7c 100644
--- a/best/text/str.h
+++ b/best/text/str.h
@@ -1090,7 +1090,7 @@ namespace str_internal {
 template <typename N, typename H>
 constexpr std::array<size_t, 2> splits(best::pretext<N> haystack,
                                        best::pretext<H> needle) {
-  if (needle.is_empty()) { return {0, haystack.size()}; }
+  if (needle.is_empty()) { return {0, 0}; }
 
   if constexpr (best::bytes_internal::byte_comparable<code<H>> &&
                 haystack.About.is_self_syncing &&
@@ -1133,7 +1133,7 @@ constexpr std::array<size_t, 2> splits(best::pretext<N> haystack,
 template <typename N, typename H>
 constexpr std::array<size_t, 2> rsplits(best::pretext<N> haystack,
                                         best::pretext<H> needle) {
-  if (needle.is_empty()) { return {0, haystack.size()}; }
+  if (needle.is_empty()) { return {haystack.size(), haystack.size()}; }
 
   if constexpr (best::bytes_internal::byte_comparable<code<H>> &&
                 haystack.About.is_self_syncing &&
-- 
2.43.0


From 55123af22ffd8f67e6f2ea46322985d9c78de397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:06 +0000
Subject: [PATCH 47/87] fix: searching text rune by rune reports where the
 match really is

---
 best/text/str.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/best/text/str.h b/best/text/str.h
index c5dbe7c..4b9a23a 100644
--- a/best/text/str.h
+++ b/best/text/str.h
@@ -1108,7 +1108,7 @@ constexpr std::array<size_t, 2> splits(best::pretext<N> haystack,
   while (!runes->rest().is_empty()) {
     // We need to know what index we were at before we find `first` in
     // runes, since that's the end of the prefix half.
-    size_t before = 0;
+    size_t before = haystack.size() - runes->rest().size();
     bool found = false;
     while (auto next = runes.next()) {
       if (!next->ok()) { return {-1, -1}; }
@@ -1151,7 +1151,7 @@ constexpr std::array<size_t, 2> rsplits(best::pretext<N> haystack,
   while (!runes->rest().is_empty()) {
     // We need to know what index we were at before we find `first` in
     // runes, since that's the end of the prefix half.
-    size_t before = 0;
+    size_t before = runes->rest().size();
     bool found = false;
     while (auto next = runes.next_back()) {
       if (!next->ok()) { return {-1, -1}; }
@@ -1211,7 +1211,7 @@ constexpr std::array<size_t, 2> splits(best::pretext<E> haystack,
 template <typename E>
 constexpr std::array<size_t, 2> rsplits(
   best::pretext<E> haystack, best::callable<bool(rune)> auto&& pred) {
-  size_t before = 0;
+  size_t before = haystack.size();
   auto runes = haystack.try_runes();
   while (auto next = runes.next_back()) {
     if (!*next) { break; }
-- 
2.43.0


From b76f99d76d0980c86f56a8edad0a3442d43bf338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:06 +0000
Subject: [PATCH 48/87] fix: text in two different encodings is never matched
 code by code

---
 best/text/str.h   | 32 ++++++++++++++++++++------------
 best/text/utf16.h |  2 +-
 2 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/best/text/str.h b/best/text/str.h
index 4b9a23a..3ec00e3 100644
--- a/best/text/str.h
+++ b/best/text/str.h
@@ -1096,9 +1096,11 @@ constexpr std::array<size_t, 2> splits(best::pretext<N> haystack,
                 haystack.About.is_self_syncing &&
                 best::same_encoding_code<decltype(haystack),
                                          decltype(needle)>()) {
-    auto found = haystack.as_codes().find(needle.as_codes());
-    if (!found) { return {-1, -1}; }
-    return {{*found, *found + needle.size()}};
+    if (best::same_encoding(haystack, needle)) {
+      auto found = haystack.as_codes().find(needle.as_codes());
+      if (!found) { return {-1, -1}; }
+      return {{*found, *found + needle.size()}};
+    }
   }
 
   auto runes = haystack.try_runes();
@@ -1139,9 +1141,11 @@ constexpr std::array<size_t, 2> rsplits(best::pretext<N> haystack,
                 haystack.About.is_self_syncing &&
                 best::same_encoding_code<decltype(haystack),
                                          decltype(needle)>()) {
-    auto found = haystack.as_codes().rfind(needle.as_codes());
-    if (!found) { return {-1, -1}; }
-    return {{*found, *found + needle.size()}};
+    if (best::same_encoding(haystack, needle)) {
+      auto found = haystack.as_codes().rfind(needle.as_codes());
+      if (!found) { return {-1, -1}; }
+      return {{*found, *found + needle.size()}};
+    }
   }
 
   auto runes = haystack.try_runes();
@@ -1558,9 +1562,11 @@ constexpr best::option<pretext<E>> pretext<E>::strip_prefix(
   if constexpr (best::is_pretext<best::as_auto<decltype(s)>>) {
     if constexpr (best::same_encoding_code<pretext, decltype(s)>() &&
                   About.is_self_syncing) {
-      auto rest = span_.strip_prefix(s.as_codes());
-      BEST_GUARD(rest);
-      return pretext{*rest, enc()};
+      if (best::same_encoding(*this, s)) {
+        auto rest = span_.strip_prefix(s.as_codes());
+        BEST_GUARD(rest);
+        return pretext{*rest, enc()};
+      }
     }
 
     auto haystack = try_runes();
@@ -1583,9 +1589,11 @@ constexpr best::option<pretext<E>> pretext<E>::strip_suffix(
   if constexpr (best::is_pretext<best::as_auto<decltype(s)>>) {
     if constexpr (best::same_encoding_code<pretext, decltype(s)>() /*&&
                   About.is_self_syncing*/) {
-      auto rest = span_.strip_suffix(s.as_codes());
-      BEST_GUARD(rest);
-      return pretext{*rest, enc()};
+      if (best::same_encoding(*this, s)) {
+        auto rest = span_.strip_suffix(s.as_codes());
+        BEST_GUARD(rest);
+        return pretext{*rest, enc()};
+      }
     }
 
     auto haystack = try_runes();
diff --git a/best/text/utf16.h b/best/text/utf16.h
index 8f17536..cc739b7 100644
--- a/best/text/utf16.h
+++ b/best/text/utf16.h
@@ -86,7 +86,7 @@ struct utf16 final {
     return encoding_error::Invalid;
   }
 
-  bool operator==(const utf16&) const = default;
+  constexpr bool operator==(const utf16&) const = default;
 };
 
 constexpr const utf16& BestEncoding(
-- 
2.43.0


From 2d5d7018524bf7884548776c3fd8af3f3ce41f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:50 +0000
Subject: [PATCH 49/87] fix: text is not split or stripped in the middle of a
 character

---
 best/text/str.h | 71 +++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 66 insertions(+), 5 deletions(-)

diff --git a/best/text/str.h b/best/text/str.h
index 3ec00e3..acf3e75 100644
--- a/best/text/str.h
+++ b/best/text/str.h
@@ -23,6 +23,7 @@
 #include <stdio.h>
 
 #include <cstddef>
+#include <utility>
 
 #include "best/base/guard.h"
 #include "best/math/overflow.h"
@@ -301,7 +302,9 @@ class text final {
   }
   constexpr best::option<text> strip_prefix(
     const best::is_string auto& prefix) const {
-    if (auto suffix = text_.strip_prefix(prefix)) {
+    // An ill-encoded prefix can end in the middle of a character.
+    if (auto suffix = text_.strip_prefix(prefix);
+        suffix && is_rune_boundary(size() - suffix->size())) {
       return text(unsafe("suffix was created from a best::text"), *suffix);
     }
     return best::none;
@@ -324,7 +327,9 @@ class text final {
   constexpr best::option<text> strip_suffix(
     const best::is_string auto& suffix) const requires (About.is_self_syncing)
   {
-    if (auto prefix = text_.strip_suffix(suffix)) {
+    // An ill-encoded suffix can start in the middle of a character.
+    if (auto prefix = text_.strip_suffix(suffix);
+        prefix && is_rune_boundary(prefix->size())) {
       return text(unsafe("suffix was created from a best::text"), *prefix);
     }
     return best::none;
@@ -933,6 +938,55 @@ class text<E>::rune_index_iter_impl final {
   size_t idx_, idx_back_;
 };
 
+template <typename E>
+template <typename P>
+class text<E>::split_impl final {
+ public:
+  /// # `iter->rest()`
+  ///
+  /// Returns the content not yet yielded.
+  constexpr text rest() const { return text_; }
+
+  using BestIterArrow = void;
+
+ private:
+  friend text;
+  friend best::iter<split_impl>;
+  friend best::iter<split_impl&>;
+
+  constexpr explicit split_impl(P pat, text text) : pat_(pat), text_(text) {}
+
+  constexpr best::option<text> next() {
+    if (done_) { return best::none; }
+    if (auto found = text_.split_once(pat_)) {
+      text_ = found->second();
+      return found->first();
+    }
+    done_ = true;
+    return std::exchange(text_, text(text_.enc()));
+  }
+
+  constexpr best::option<text> next_back() requires (About.is_self_syncing)
+  {
+    if (done_) { return best::none; }
+    if (auto found = text_.rsplit_once(pat_)) {
+      text_ = found->first();
+      return found->second();
+    }
+    done_ = true;
+    return std::exchange(text_, text(text_.enc()));
+  }
+
+  constexpr best::size_hint size_hint() const {
+    if (done_) { return {0, 0}; }
+    return {1, text_.size() + 1};
+  }
+
+  [[no_unique_address]] P pat_;
+  text text_;
+  bool done_ = false;
+};
+
 template <typename E>
 class pretext<E>::rune_iter_impl final {
  public:
@@ -1298,6 +1352,8 @@ constexpr best::option<size_t> text<E>::find(
   auto [a, b] =
     str_internal::splits(best::pretext(*this), best::pretext(needle));
   if (a == -1) { return best::none; }
+  // An ill-encoded needle can match in the middle of a character.
+  if (!is_rune_boundary(a) || !is_rune_boundary(b)) { return best::none; }
   return a;
 }
 template <typename E>
@@ -1323,6 +1379,8 @@ constexpr best::option<size_t> text<E>::rfind(
   auto [a, b] =
     str_internal::rsplits(best::pretext(*this), best::pretext(needle));
   if (a == -1) { return best::none; }
+  // An ill-encoded needle can match in the middle of a character.
+  if (!is_rune_boundary(a) || !is_rune_boundary(b)) { return best::none; }
   return a;
 }
 template <typename E>
@@ -1349,6 +1407,8 @@ constexpr best::option<best::row<text<E>, text<E>>> text<E>::split_once(
   auto [a, b] =
     str_internal::splits(best::pretext(*this), best::pretext(needle));
   if (a == -1) { return best::none; }
+  // An ill-encoded needle can match in the middle of a character.
+  if (!is_rune_boundary(a) || !is_rune_boundary(b)) { return best::none; }
   best::unsafe u("splits() does a bounds-check for us");
   return {{at(u, {.end = a}), at(u, {.start = b})}};
 }
@@ -1378,6 +1438,8 @@ constexpr best::option<best::row<text<E>, text<E>>> text<E>::rsplit_once(
   auto [a, b] =
     str_internal::rsplits(best::pretext(*this), best::pretext(needle));
   if (a == -1) { return best::none; }
+  // An ill-encoded needle can match in the middle of a character.
+  if (!is_rune_boundary(a) || !is_rune_boundary(b)) { return best::none; }
   best::unsafe u("splits() does a bounds-check for us");
   return {{at(u, {.end = a}), at(u, {.start = b})}};
 }
@@ -1399,9 +1461,8 @@ constexpr auto text<E>::split(best::rune needle) const {
 }
 template <typename E>
 constexpr auto text<E>::split(const best::is_string auto& needle) const {
-  return text_.split(needle).map([](auto pre) {
-    return text{unsafe("valid because text_ was already valid"), pre};
-  });
+  best::pretext pat = needle;
+  return split_iter<decltype(pat)>(split_impl<decltype(pat)>(pat, *this));
 }
 template <typename E>
 constexpr auto text<E>::split(best::callable<bool(rune)> auto&& pred) const {
-- 
2.43.0


From db89c9aedce3104d5ca139553abb009f9a27a8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:22 +0000
Subject: [PATCH 50/87] fix: text longer than a rune it starts with orders
 after it

---
 best/text/str.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/text/str.h b/best/text/str.h
index acf3e75..0628966 100644
--- a/best/text/str.h
+++ b/best/text/str.h
@@ -1830,7 +1830,7 @@ constexpr best::ord pretext<E>::operator<=>(rune r) const {
   auto iter = runes();
   if (auto result = *iter.next() <=> r; result != 0) { return result; }
 
-  return 0 <=> iter->rest().size();
+  return iter->rest().size() <=> size_t(0);
 }
 
 template <typename E>
-- 
2.43.0


From 651f41bf05d401282ee3e15251b548771b5a1301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:22 +0000
Subject: [PATCH 51/87] fix: text is only ordered code by code if its encoding
 is lexicographic

---
 best/text/str.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/best/text/str.h b/best/text/str.h
index 0628966..ba570e4 100644
--- a/best/text/str.h
+++ b/best/text/str.h
@@ -1838,9 +1838,9 @@ constexpr best::ord pretext<E>::operator<=>(
   const best::is_string auto& str) const {
   if constexpr (best::is_pretext<best::as_auto<decltype(str)>>) {
     if constexpr (best::bytes_internal::byte_comparable<code> &&
-                  About.is_self_syncing &&
+                  About.is_self_syncing && About.is_lexicographic &&
                   best::same_encoding_code<pretext, decltype(str)>()) {
-      return span_ <=> str.as_codes();
+      if (best::same_encoding(*this, str)) { return span_ <=> str.as_codes(); }
     }
 
     auto lhs = runes();
-- 
2.43.0


From 50b941e9791f7064e0e74918b80f2116fe30eca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:34 +0000
Subject: [PATCH 52/87] fix: textbuf::from(buf) compiles

---
 best/text/strbuf.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/best/text/strbuf.h b/best/text/strbuf.h
index 0b47589..b19445e 100644
--- a/best/text/strbuf.h
+++ b/best/text/strbuf.h
@@ -368,7 +368,8 @@ template <typename E, allocator A>
 best::option<textbuf<E, A>> textbuf<E, A>::from(buf data, encoding enc) {
   if (!rune::validate(data, enc)) { return best::none; }
 
-  return textbuf(best::in_place, std::move(data), std::move(enc));
+  return textbuf(best::unsafe("just did validation above"), std::move(data),
+                 std::move(enc));
 }
 
 template <typename E, allocator A>
-- 
2.43.0


From ad8c4bb6ad9a6531a7a1ff997f9f2e347f7bfabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:34 +0000
Subject: [PATCH 53/87] fix: textbuf::from keeps the allocator it is given

---
 best/text/strbuf.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/text/strbuf.h b/best/text/strbuf.h
index b19445e..c963051 100644
--- a/best/text/strbuf.h
+++ b/best/text/strbuf.h
@@ -361,7 +361,7 @@ best::option<textbuf<E, A>> textbuf<E, A>::from(alloc alloc, pretext t) {
   auto validated = text::from(t);
   BEST_GUARD(validated);
 
-  return textbuf(best::unsafe("just did validation above"), *validated);
+  return textbuf(std::move(alloc), *validated);
 }
 
 template <typename E, allocator A>
-- 
2.43.0


From 25f1050eb0e944b037a1b019a98fa2e5c4fb8e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:48 +0000
Subject: [PATCH 54/87] fix: textbuf::push(rune) and push_lossy(rune) compile

---
 best/text/strbuf.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/best/text/strbuf.h b/best/text/strbuf.h
index c963051..898347e 100644
--- a/best/text/strbuf.h
+++ b/best/text/strbuf.h
@@ -376,7 +376,7 @@ template <typename E, allocator A>
 bool textbuf<E, A>::push(rune r) {
   code buf[About.max_codes_per_rune];
   if (auto codes = r.encode(buf, enc())) {
-    buf_.append(*codes);
+    buf_.append(*codes.ok());
     return true;
   }
   return false;
@@ -415,12 +415,12 @@ template <typename E, allocator A>
 void textbuf<E, A>::push_lossy(rune r) {
   code buf[About.max_codes_per_rune];
   if (auto codes = r.encode(buf, enc())) {
-    buf_.append(*codes);
+    buf_.append(*codes.ok());
   } else if (auto codes = rune::Replacement.encode(buf, enc())) {
-    buf_.append(*codes);
+    buf_.append(*codes.ok());
   } else {
     codes = rune('?').encode(buf, enc());
-    buf_.append(*codes);
+    buf_.append(*codes.ok());
   }
 }
 
-- 
2.43.0


From 35f2a20bf99e0f311314fe8eb3b091be99427820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:48 +0000
Subject: [PATCH 55/87] fix: textbuf::allocator() compiles

---
 best/text/strbuf.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/best/text/strbuf.h b/best/text/strbuf.h
index 898347e..ad38041 100644
--- a/best/text/strbuf.h
+++ b/best/text/strbuf.h
@@ -215,8 +215,8 @@ class textbuf final {
   /// # `textbuf::allocator()`
   ///
   /// Returns a reference to his vector's allocator.
-  best::as_ref<const alloc> allocator() const { return buf_.alloc(); }
-  best::as_ref<alloc> allocator() { return buf_.alloc(); }
+  best::as_ref<const alloc> allocator() const { return buf_.allocator(); }
+  best::as_ref<alloc> allocator() { return buf_.allocator(); }
 
   /// # `textbuf::enc()`
   ///
-- 
2.43.0


From 2741ee537e39627ff05f96e802a05c9549379399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:44 +0000
Subject: [PATCH 56/87] fix: splitting a static-extent span compiles

---
 best/memory/span.h | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/best/memory/span.h b/best/memory/span.h
index 0eda4a4..564daa6 100644
--- a/best/memory/span.h
+++ b/best/memory/span.h
@@ -1035,10 +1035,7 @@ template <best::is_object T, best::option<best::dependent<size_t, T>> n>
 constexpr best::option<std::array<best::span<T>, 2>> span<T, n>::split_at(
   size_t idx) const {
   if (auto prefix = at({.end = idx})) {
-    auto rest = *this;
-    rest.data_ += idx;
-    rest.size_ -= idx;
-    return {{*prefix, rest}};
+    return {{*prefix, best::span<T>(data() + idx, size() - idx)}};
   }
 
   return best::none;
-- 
2.43.0


From eab3c3feb0e3d1da3ed7fdc04d500ce4e50da82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:11 +0000
Subject: [PATCH 57/87] fix: rows can be ordered

---
 best/container/row.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/best/container/row.h b/best/container/row.h
index 922c1b7..f823852 100644
--- a/best/container/row.h
+++ b/best/container/row.h
@@ -521,13 +521,13 @@ class row final
   }
 
   template <typename... Us>
-  constexpr auto operator<=>(const choice<Us...>& that) const
+  constexpr auto operator<=>(const row<Us...>& that) const
     requires (best::comparable<Elems, Us> && ...)
   {
     using Output = best::common_ord<best::order_type<Elems, Us>...>;
     Output result = Output::equivalent;
 
-    return indices.each([&](auto i) {
+    indices.each([&](auto i) {
       if (result == 0) { result = get(i) <=> that.get(i); }
     });
 
-- 
2.43.0


From 6c1a2ab2c81ddd10857cbaa9ff7b514e61b9219e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:11 +0000
Subject: [PATCH 58/87] fix: row::scatter(types, row) uses the types it is
 given

---
 best/container/row.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/best/container/row.h b/best/container/row.h
index f823852..f2e2144 100644
--- a/best/container/row.h
+++ b/best/container/row.h
@@ -1345,7 +1345,7 @@ BEST_ROW_MUST_USE(scatter)
 constexpr auto row<A...>::scatter(best::tlist<Ts...> those_types,
                                   best::is_row auto&& those,
                                   best::vlist<n...>) const& {
-  return row_internal::scatter<n...>(*this, those.types, BEST_FWD(those));
+  return row_internal::scatter<n...>(*this, those_types, BEST_FWD(those));
 }
 
 template <typename... A>
@@ -1354,7 +1354,7 @@ BEST_ROW_MUST_USE(scatter)
 constexpr auto row<A...>::scatter(best::tlist<Ts...> those_types,
                                   best::is_row auto&& those,
                                   best::vlist<n...>) & {
-  return row_internal::scatter<n...>(*this, those.types, BEST_FWD(those));
+  return row_internal::scatter<n...>(*this, those_types, BEST_FWD(those));
 }
 
 template <typename... A>
@@ -1363,7 +1363,7 @@ BEST_ROW_MUST_USE(scatter)
 constexpr auto row<A...>::scatter(best::tlist<Ts...> those_types,
                                   best::is_row auto&& those,
                                   best::vlist<n...>) const&& {
-  return row_internal::scatter<n...>(BEST_MOVE(*this), those.types,
+  return row_internal::scatter<n...>(BEST_MOVE(*this), those_types,
                                      BEST_FWD(those));
 }
 
@@ -1373,7 +1373,7 @@ BEST_ROW_MUST_USE(scatter)
 constexpr auto row<A...>::scatter(best::tlist<Ts...> those_types,
                                   best::is_row auto&& those,
                                   best::vlist<n...>) && {
-  return row_internal::scatter<n...>(BEST_MOVE(*this), those.types,
+  return row_internal::scatter<n...>(BEST_MOVE(*this), those_types,
                                      BEST_FWD(those));
 }
 
-- 
2.43.0


From 270709f7429458f8f66bd5617b5aa25db9ecfa49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:11 +0000
Subject: [PATCH 59/87] fix: row::scatter() moves out of an rvalue row

---
 best/container/internal/row.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/best/container/internal/row.h b/best/container/internal/row.h
index 19295ed..ec43ff6 100644
--- a/best/container/internal/row.h
+++ b/best/container/internal/row.h
@@ -200,9 +200,9 @@ constexpr auto scatter(auto&& row, auto those_types, auto&& those)
       ((i < lut.size() ? lut[i] = n++ : 0), ...);
       return lut;
     }();
-    return those.apply([&](auto&&... args) {
+    return BEST_FWD(those).apply([&](auto&&... args) {
       return Out{best::row{best::bind, BEST_FWD(row)[J{}],
-                           args...}[best::index<lut[J::value]>]...};
+                           BEST_FWD(args)...}[best::index<lut[J::value]>]...};
     });
   });
 }
-- 
2.43.0


From d66d7e95a858cb147be4f560df34963116ad9d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:51 +0000
Subject: [PATCH 60/87] fix: reversing a reversed iterator compiles

---
 best/iter/iter.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/best/iter/iter.h b/best/iter/iter.h
index d2c8d7b..26b1d7a 100644
--- a/best/iter/iter.h
+++ b/best/iter/iter.h
@@ -496,8 +496,11 @@ class rev_ final {
 template <typename I>
 constexpr auto iter<I>::rev() && requires double_ended
 {
-  BEST_ITER_FWD(rev);
-  return best::iter(best::iter_internal::rev_(std::move(*this)));
+  if constexpr (requires { BEST_MOVE(impl_).rev(); }) {
+    return BEST_MOVE(impl_).rev();
+  } else {
+    return best::iter(best::iter_internal::rev_(std::move(*this)));
+  }
 }
 
 #undef BEST_ITER_FWD
-- 
2.43.0


From c202052d04a23ecb950af3a76cb45909d289066d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:51 +0000
Subject: [PATCH 61/87] fix: iter::inspect() does not yield dangling references

---
 best/iter/iter.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/best/iter/iter.h b/best/iter/iter.h
index 26b1d7a..36df269 100644
--- a/best/iter/iter.h
+++ b/best/iter/iter.h
@@ -389,7 +389,7 @@ template <typename Impl>
 constexpr auto iter<Impl>::inspect(best::callable<void()> auto&& cb) && {
   return best::iter(iter_internal::map{
     std::move(*this),
-    [cb = BEST_FWD(cb)](auto&& value) -> decltype(auto) {
+    [cb = BEST_FWD(cb)](auto&& value) -> item {
       best::call(cb);
       return BEST_FWD(value);
     },
@@ -400,9 +400,9 @@ template <typename Impl>
 constexpr auto iter<Impl>::inspect(best::callable<void(item&)> auto&& cb) && {
   return best::iter(iter_internal::map{
     std::move(*this),
-    [cb = BEST_FWD(cb)](auto&& value) -> decltype(auto) {
+    [cb = BEST_FWD(cb)](auto&& value) -> item {
       best::call(cb, value);
-      return item(value);
+      return BEST_FWD(value);
     },
   });
 }
-- 
2.43.0


From 8cd5863fb5194352079e8e2511d151ff37823b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:51 +0000
Subject: [PATCH 62/87] fix: iter::take() reports a consistent size hint

---
 best/iter/iter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/iter/iter.h b/best/iter/iter.h
index 36df269..c2809f0 100644
--- a/best/iter/iter.h
+++ b/best/iter/iter.h
@@ -449,7 +449,7 @@ class take final {
 
   constexpr best::size_hint size_hint() const {
     auto [min, max] = iter_.size_hint();
-    return {min, count_};
+    return {min < count_ ? min : count_, max && *max < count_ ? *max : count_};
   }
 
  private:
-- 
2.43.0


From f5f56389e549b086db63bd37fbc153fa39cfc5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:28 +0000
Subject: [PATCH 63/87] fix: last() of an empty int_range iterator is none

---
 best/iter/bounds.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/best/iter/bounds.h b/best/iter/bounds.h
index 05b83ff..a7195d1 100644
--- a/best/iter/bounds.h
+++ b/best/iter/bounds.h
@@ -264,6 +264,7 @@ struct int_range final {
     }
 
     constexpr best::option<Int> last() && {
+      if (count_ == 0 && !plus_one_) { return {}; }
       return (best::overflow(start_) + count_ + Int(plus_one_) - 1).wrap();
     }
   };
-- 
2.43.0


From c66a219112eaafdfcb015c05b5a8e0646ad34cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:28 +0000
Subject: [PATCH 64/87] fix: int_range iterators count more than max_of<Int>
 integers, and all of them

---
 best/iter/bounds.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/best/iter/bounds.h b/best/iter/bounds.h
index a7195d1..b2a5a04 100644
--- a/best/iter/bounds.h
+++ b/best/iter/bounds.h
@@ -255,12 +255,14 @@ struct int_range final {
     constexpr std::array<size_t, 2> size_hint() const {
       // TODO(mcyoung): This will overflow for uint64 ranges, need to return
       // something else.
-      return {count_, count_};
+      auto count = size_t(std::make_unsigned_t<Int>(count_));
+      if (plus_one_ && count + 1 > count) { ++count; }
+      return {count, count};
     }
 
     constexpr size_t count() && {
       // We can just wrap here if count_ is larger than best::max_of<size_t>.
-      return size_t(count_) + size_t(plus_one_);
+      return size_t(std::make_unsigned_t<Int>(count_)) + size_t(plus_one_);
     }
 
     constexpr best::option<Int> last() && {
-- 
2.43.0


From 1b49d6a97416d14adaf6a89d15f35b304ec204d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:29 +0000
Subject: [PATCH 65/87] fix: int_range::iter() lets end win over including_end

---
 best/iter/bounds.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/best/iter/bounds.h b/best/iter/bounds.h
index b2a5a04..f60b4e4 100644
--- a/best/iter/bounds.h
+++ b/best/iter/bounds.h
@@ -294,8 +294,8 @@ constexpr auto int_range<Int>::iter() const {
   // Deal with a funny special case: we need to yield every integer. This
   // happens when start == min and end/count is not set or including_end is
   // Max.
-  if (start == Min && ((including_end && *including_end == Max) ||
-                       (!including_end && !end && !count))) {
+  if (start == Min && !end &&
+      (including_end ? *including_end == Max : !count)) {
     return best::iter(
       iter_impl{.start_ = Min, .count_ = Int(-1), .plus_one_ = true});
   }
-- 
2.43.0


From 694177a5b6e703de4c6b04225b3e564571b35912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:29 +0000
Subject: [PATCH 66/87] fix: next_back() of an int_range iterator does not
 overflow

---
 best/iter/bounds.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/iter/bounds.h b/best/iter/bounds.h
index f60b4e4..56d352f 100644
--- a/best/iter/bounds.h
+++ b/best/iter/bounds.h
@@ -247,7 +247,7 @@ struct int_range final {
         return {};
       }
 
-      auto ret = start_ + count_ - !plus_one_;
+      auto ret = (best::overflow(start_) + count_ - Int(!plus_one_)).wrap();
       count_ = (best::overflow(count_) - 1).wrap();
       return ret;
     }
-- 
2.43.0


From 392c75c0db348cc1898991c99734c7a61ba7d864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:32 +0000
Subject: [PATCH 67/87] fix: interface functions may return references

---
 best/func/internal/dyn.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/func/internal/dyn.h b/best/func/internal/dyn.h
index 1875ee0..aba234c 100644
--- a/best/func/internal/dyn.h
+++ b/best/func/internal/dyn.h
@@ -90,7 +90,7 @@ class binder_impl {
   constexpr binder_impl(std::nullptr_t){};
 
   constexpr binder_impl(no_captures auto closure)
-    : fnptr_(+[](ptr self, Args... args) {
+    : fnptr_(+[](ptr self, Args... args) -> R {
         decltype(closure) closure;
         return closure(ptr_cast{.ptr = self}, BEST_FWD(args)...);
       }) {}
-- 
2.43.0


From b165b20861d6f5c1784fc5524c957e366267e23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:34 +0000
Subject: [PATCH 68/87] fix: a pointer to const converts to a dynptr of const
 interfaces

---
 best/func/dyn.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/best/func/dyn.h b/best/func/dyn.h
index 5ea68ac..e4aca8d 100644
--- a/best/func/dyn.h
+++ b/best/func/dyn.h
@@ -427,7 +427,7 @@ class dyn<I...>::meta {
   template <typename P>
   constexpr meta(best::tlist<P>, const typename P::metadata&)
     requires (P::is_thin() && (best::implements<typename P::pointee, I> && ...))
-    : vt_(&best::itable<I...>::of(best::types<typename P::pointee>)) {}
+    : vt_(&best::itable<best::un_const<I>...>::of(best::types<typename P::pointee>)) {}
 
   constexpr best::layout layout() const { return vt_->layout(); }
   constexpr auto deref(pointee* ptr) const { return accessor(ptr, vt_); }
@@ -435,7 +435,7 @@ class dyn<I...>::meta {
   template <typename T>
   static constexpr meta meta_for(T&&) requires (best::implements<T, I> && ...)
   {
-    return &best::itable<I...>::of(best::types<T>);
+    return &best::itable<best::un_const<I>...>::of(best::types<T>);
   }
   template <typename T>
   static constexpr void construct(pointee* dst, bool assign, T&& arg) {
-- 
2.43.0


From 3e5b6d376cb2c98be12580878c6905035a146fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:03 +0000
Subject: [PATCH 69/87] fix: best::callable works for functions that take
 rvalue references

---
 best/func/internal/call.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/best/func/internal/call.h b/best/func/internal/call.h
index b9ba755..97b9b84 100644
--- a/best/func/internal/call.h
+++ b/best/func/internal/call.h
@@ -112,7 +112,8 @@ constexpr bool can_call(tag<R(Args...), TParams...>)
 {
   return best::is_void<R> ||
          best::convertible<R, decltype(call_internal::call<TParams...>(
-                                best::lie<F>, best::lie<Args>...))>;
+                                best::lie<F>,
+                                static_cast<Args&&>(best::lie<Args>)...))>;
 }
 
 template <typename F, typename... TParams, typename R, typename... Args>
@@ -123,12 +124,14 @@ constexpr bool can_call(tag<R(Args...) const, TParams...>)
 {
   return best::is_void<R> ||
          best::convertible<R, decltype(call_internal::call<TParams...>(
-                                best::lie<const F>, best::lie<Args>...))>;
+                                best::lie<const F>,
+                                static_cast<Args&&>(best::lie<Args>)...))>;
 }
 
 template <typename F, typename... Args>
 auto call_result(tag<Args...>)
-  -> decltype(call_internal::call(best::lie<F>, best::lie<Args>...));
+  -> decltype(call_internal::call(best::lie<F>,
+                                  static_cast<Args&&>(best::lie<Args>)...));
 template <typename F, best::is_void V>
 auto call_result(tag<V>) -> decltype(call_internal::call(best::lie<F>));
 }  // namespace best::call_internal
-- 
2.43.0


From 155b1b8d3900407aef38de458f122c8f99c1c370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:03 +0000
Subject: [PATCH 70/87] fix: fnrefs may return references

---
 best/func/internal/fnref.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/func/internal/fnref.h b/best/func/internal/fnref.h
index 22f5a56..1f31990 100644
--- a/best/func/internal/fnref.h
+++ b/best/func/internal/fnref.h
@@ -65,7 +65,7 @@ class impl {
     constexpr bound(std::nullptr_t){};
 
     constexpr bound(no_captures auto closure)
-      : pc_(+[](ptr thiz, Args... args) {
+      : pc_(+[](ptr thiz, Args... args) -> R {
           decltype(closure) closure;
           return closure(ptr_cast{.ptr = thiz}, BEST_FWD(args)...);
         }) {}
-- 
2.43.0


From 6b2c873140dbdc5b8027f84c69f3dedfd0198f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:26 +0000
Subject: [PATCH 71/87] fix: indexing a tap uses the index given

---
 best/func/tap.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/best/func/tap.h b/best/func/tap.h
index fd62e71..67dd1f9 100644
--- a/best/func/tap.h
+++ b/best/func/tap.h
@@ -175,27 +175,27 @@ constexpr auto tap<Guard, Cb>::operator()(auto&&... args) && {
   });
 }
 template <typename Guard, typename Cb>
-constexpr auto tap<Guard, Cb>::operator[](auto&& arg) const& {
+constexpr auto tap<Guard, Cb>::operator[](auto&& index) const& {
   return best::tap([&](auto&& arg) -> decltype(auto) {
-    return ((BEST_FWD(arg))->**this)[BEST_FWD(arg)];
+    return ((BEST_FWD(arg))->**this)[BEST_FWD(index)];
   });
 }
 template <typename Guard, typename Cb>
-constexpr auto tap<Guard, Cb>::operator[](auto&& arg) & {
+constexpr auto tap<Guard, Cb>::operator[](auto&& index) & {
   return best::tap([&](auto&& arg) -> decltype(auto) {
-    return ((BEST_FWD(arg))->**this)[BEST_FWD(arg)];
+    return ((BEST_FWD(arg))->**this)[BEST_FWD(index)];
   });
 }
 template <typename Guard, typename Cb>
-constexpr auto tap<Guard, Cb>::operator[](auto&& arg) const&& {
+constexpr auto tap<Guard, Cb>::operator[](auto&& index) const&& {
   return best::tap([&](auto&& arg) -> decltype(auto) {
-    return ((BEST_FWD(arg))->*BEST_MOVE(*this))[BEST_FWD(arg)];
+    return ((BEST_FWD(arg))->*BEST_MOVE(*this))[BEST_FWD(index)];
   });
 }
 template <typename Guard, typename Cb>
-constexpr auto tap<Guard, Cb>::operator[](auto&& arg) && {
+constexpr auto tap<Guard, Cb>::operator[](auto&& index) && {
   return best::tap([&](auto&& arg) -> decltype(auto) {
-    return ((BEST_FWD(arg))->*BEST_MOVE(*this))[BEST_FWD(arg)];
+    return ((BEST_FWD(arg))->*BEST_MOVE(*this))[BEST_FWD(index)];
   });
 }
 
-- 
2.43.0


From 9b942ce692b72b2c0de7b8e92b66fb370656ff82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:26 +0000
Subject: [PATCH 72/87] fix: best::inspect() returns its argument

---
 best/func/tap.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/best/func/tap.h b/best/func/tap.h
index 67dd1f9..9f7c84d 100644
--- a/best/func/tap.h
+++ b/best/func/tap.h
@@ -201,14 +201,14 @@ constexpr auto tap<Guard, Cb>::operator[](auto&& index) && {
 
 constexpr auto inspect(auto&& cb) {
   return best::tap([cb = BEST_FWD(cb)](auto&& arg) -> decltype(auto) {
-    (void)best::call(cb, BEST_FWD(arg));
-    BEST_FWD(arg);
+    (void)best::call(cb, arg);
+    return BEST_FWD(arg);
   });
 }
 constexpr auto inspect(best::bind_t, auto&& cb) {
   return best::tap([&](auto&& arg) -> decltype(auto) {
-    (void)best::call(BEST_FWD(cb), BEST_FWD(arg));
-    BEST_FWD(arg);
+    (void)best::call(BEST_FWD(cb), arg);
+    return BEST_FWD(arg);
   });
 }
 }  // namespace best
-- 
2.43.0


From b4052c5ae5e3600872f10c64def30e8333e686af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:26 +0000
Subject: [PATCH 73/87] fix: copying a defer does not run it twice

---
 best/func/defer.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/best/func/defer.h b/best/func/defer.h
index 5c87e3b..60bc06f 100644
--- a/best/func/defer.h
+++ b/best/func/defer.h
@@ -49,7 +49,13 @@ class [[nodiscard(
   constexpr defer(Cb&& cb) : cb_(BEST_FWD(cb)) {}
   constexpr defer(best::bind_t, Cb&& cb) : cb_(BEST_FWD(cb)) {}
 
-  /// # `defer::defer()`
+  /// # `defer::defer(defer)`
+  ///
+  /// Defers run exactly once, so they cannot be copied.
+  defer(const defer&) = delete;
+  defer& operator=(const defer&) = delete;
+
+  /// # `defer::~defer()`
   ///
   /// Runs the defer at scope exit.
   constexpr ~defer() { run(); }
-- 
2.43.0


From c59df4f3de056f575a02cbb2b1b63b7e3d17f202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:54 +0000
Subject: [PATCH 74/87] fix: const and bound rvalue taps can be used

---
 best/func/tap.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/best/func/tap.h b/best/func/tap.h
index 9f7c84d..f43e6f3 100644
--- a/best/func/tap.h
+++ b/best/func/tap.h
@@ -93,8 +93,10 @@ class [[nodiscard(
   /// Gets a reference to the wrapped callback.
   constexpr const Cb& callback() const& { return cb_; }
   constexpr Cb& callback() & { return cb_; }
-  constexpr const Cb&& callback() const&& { return BEST_MOVE(cb_); }
-  constexpr Cb&& callback() && { return BEST_MOVE(cb_); }
+  constexpr const Cb&& callback() const&& {
+    return static_cast<const Cb&&>(cb_);
+  }
+  constexpr Cb&& callback() && { return static_cast<Cb&&>(cb_); }
 
   /// # `tap()`, `tap[]`
   ///
-- 
2.43.0


From daacc3d0d58d10744243221eee5d5dded0502969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:20 +0000
Subject: [PATCH 75/87] fix: best::call() calls &&-qualified functions

---
 best/func/internal/call.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/best/func/internal/call.h b/best/func/internal/call.h
index 97b9b84..4396cf2 100644
--- a/best/func/internal/call.h
+++ b/best/func/internal/call.h
@@ -38,7 +38,7 @@ BEST_INLINE_SYNTHETIC constexpr decltype(auto) call(
   best::is_func auto Class::*member, auto&& self, auto&&... args)
   requires requires {
     requires sizeof...(Ts) == 0;
-    (self.*member)(BEST_FWD(args)...);
+    (BEST_FWD(self).*member)(BEST_FWD(args)...);
   }
 {
   return (BEST_FWD(self).*member)(BEST_FWD(args)...);
@@ -77,7 +77,7 @@ template <typename... Args>
 BEST_INLINE_SYNTHETIC constexpr decltype(auto) call(auto&& func, auto&&... args)
   requires requires {
     requires sizeof...(Args) == 0;
-    func(BEST_FWD(args)...);
+    BEST_FWD(func)(BEST_FWD(args)...);
   }
 {
   return BEST_FWD(func)(BEST_FWD(args)...);
@@ -86,7 +86,7 @@ template <typename... Args>
 BEST_INLINE_SYNTHETIC constexpr decltype(auto) call(auto&& func, auto&&... args)
   requires requires {
     requires sizeof...(Args) > 0;
-    func.template operator()<Args...>(BEST_FWD(args)...);
+    BEST_FWD(func).template operator()<Args...>(BEST_FWD(args)...);
   }
 {
   return BEST_FWD(func).template operator()<Args...>(BEST_FWD(args)...);
@@ -96,7 +96,7 @@ template <auto... targs>
 BEST_INLINE_SYNTHETIC constexpr decltype(auto) call(auto&& func, auto&&... args)
   requires requires {
     requires sizeof...(targs) > 0;
-    func.template operator()<targs...>(BEST_FWD(args)...);
+    BEST_FWD(func).template operator()<targs...>(BEST_FWD(args)...);
   }
 {
   return BEST_FWD(func).template operator()<targs...>(BEST_FWD(args)...);
-- 
2.43.0


From 3d23d4e8a172cfbf192b01d074e79f78f37858f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:21 +0000
Subject: [PATCH 76/87] fix: the least value of a signed integer type can be
 formatted

---
 best/text/internal/format_impls.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/best/text/internal/format_impls.h b/best/text/internal/format_impls.h
index 2caee1f..32b62e7 100644
--- a/best/text/internal/format_impls.h
+++ b/best/text/internal/format_impls.h
@@ -141,19 +141,22 @@ void BestFmt(auto& fmt, best::is_int auto value) {
       break;
   }
 
+  // Negating the least value of a signed type overflows, so the magnitude is
+  // computed as an unsigned value.
   bool negative = value < 0;
-  if (negative) { value = -value; }
+  auto magnitude = static_cast<uint64_t>(value);
+  if (negative) { magnitude = -magnitude; }
 
   // Construct the actual digits.
   char buf[128];
   size_t count = 0;
   do {
-    rune r = *rune::from_digit(value % base, base);
+    rune r = *rune::from_digit(magnitude % base, base);
     if (uppercase) { r = r.to_ascii_upper(); }
 
     buf[128 - count++ - 1] = r;
-    value /= base;
-  } while (value != 0);
+    magnitude /= base;
+  } while (magnitude != 0);
 
   best::str digits(unsafe("all characters are ascii"),
                    best::span(buf + 128 - count, count));
-- 
2.43.0


From b41899f56c72309377d77fcca9bb3a58a262e34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:21 +0000
Subject: [PATCH 77/87] fix: a precision of zero prints nothing of a string

---
 best/text/internal/format_impls.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/best/text/internal/format_impls.h b/best/text/internal/format_impls.h
index 32b62e7..e693716 100644
--- a/best/text/internal/format_impls.h
+++ b/best/text/internal/format_impls.h
@@ -219,9 +219,8 @@ void BestFmt(auto& fmt, const best::is_string auto& s) {
     if (auto prec = spec.prec) {
       size_t max = *prec;
       auto runes = str.runes();
-      for (auto r : runes) {
-        (void)r;
-        if (--max == 0) { break; }
+      for (; max > 0; --max) {
+        if (!runes.next()) { break; }
       }
       str = str[{.end = str.size() - runes->rest().size()}];
     }
-- 
2.43.0


From c88cc35eab0321674c6a19c90d982af608e7bc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:21 +0000
Subject: [PATCH 78/87] fix: formatter::write() writes every line of a string
 once

---
 best/text/format.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/best/text/format.h b/best/text/format.h
index cac0c89..9d98e06 100644
--- a/best/text/format.h
+++ b/best/text/format.h
@@ -435,12 +435,12 @@ void formatter::write(const best::is_string auto& string) {
     size_t watermark = 0;
     for (auto [idx, r] : string.rune_indices()) {
       if (r != '\n') { continue; }
-      if (idx != watermark + 1 && idx > 0) {
+      if (idx > watermark) {
         update_indent();
-        out_->push_lossy(string[{.start = watermark, .end = idx - 1}]);
+        out_->push_lossy(string[{.start = watermark, .end = idx}]);
       }
 
-      watermark = idx;
+      watermark = idx + 1;
       out_->push_lossy("\n");
       at_new_line_ = true;
     }
-- 
2.43.0


From 8989ff54c68d238d14e255436b45d7d3a032b235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:21 +0000
Subject: [PATCH 79/87] fix: control characters are escaped in hexadecimal

---
 best/text/rune.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/text/rune.h b/best/text/rune.h
index e631742..67e2d40 100644
--- a/best/text/rune.h
+++ b/best/text/rune.h
@@ -456,7 +456,7 @@ void BestFmt(auto& fmt, const decltype(rune().escaped())& esc) {
   }
 
   if (esc._private.is_ascii_control()) {  // TODO: unicode is_control
-    fmt.format("\\x{:02}", esc._private.to_int());
+    fmt.format("\\x{:02x}", esc._private.to_int());
   } else if (esc._private == 0x200d) {
     // Handle the ZWJ explicitly for now, since it appears in some of our tests.
     fmt.write("\\u200D");
-- 
2.43.0


From c314ea70572d58af00174730d88ded999d17ca60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:21 +0000
Subject: [PATCH 80/87] fix: {n:!} in a format template refers to argument n

---
 best/text/internal/format_parser.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/best/text/internal/format_parser.h b/best/text/internal/format_parser.h
index 02ab19b..9ac676d 100644
--- a/best/text/internal/format_parser.h
+++ b/best/text/internal/format_parser.h
@@ -145,7 +145,7 @@ constexpr bool visit_template(const char* data, size_t len, Print print,
       auto count = find(data, len, [](char c) { return c < '0' || c > '9'; });
       // We should find a non-digit rune, because otherwise this is an invalid
       // string.
-      if (count == -1) { -1; }
+      if (count == -1) { return -1; }
 
       uint32_t result = 0;
       for (size_t i = 0; i < count; ++i) {
@@ -177,7 +177,8 @@ constexpr bool visit_template(const char* data, size_t len, Print print,
     if (consume_prefix(data, len, '!')) {
       args.pass_through = true;
       args.debug = true;
-      if (!best::call(interpolate, idx++, args)) { return false; }
+      if (!consume_prefix(data, len, '}')) { return false; }
+      if (!best::call(interpolate, cur_idx, args)) { return false; }
       continue;
     }
 
@@ -264,7 +265,7 @@ constexpr bool validate(best::span<const typename spec::query> queries,
   return format_internal::visit_template<spec>(
     templ.data().raw(), templ.size() - 1, nullptr,
     [&](size_t n, const spec& s) {
-      if (n > queries.size()) { return false; }
+      if (n >= queries.size()) { return false; }
       auto& q = queries[n];
 
       if (q.requires_debug && !s.debug) { return false; }
-- 
2.43.0


From 473734efc83365018664847de523c160f7aa1608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:21 +0000
Subject: [PATCH 81/87] fix: {:p} prints the address a box holds

---
 best/container/box.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/best/container/box.h b/best/container/box.h
index 787a513..60f12f2 100644
--- a/best/container/box.h
+++ b/best/container/box.h
@@ -246,8 +246,10 @@ class BEST_RELOCATABLE box final {
 
   friend void BestFmt(auto& fmt, const box& box) {
     if constexpr (requires { fmt.format(*box); }) {
-      if (fmt.current_spec().method != 'p') { fmt.format(*box); }
-      return;
+      if (fmt.current_spec().method != 'p') {
+        fmt.format(*box);
+        return;
+      }
     }
     fmt.format(box.as_ptr());
   }
-- 
2.43.0


From 9a3d18f26254b49e65f0b74d44d86a966b0abed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:47 +0000
Subject: [PATCH 82/87] fix: bools and Unicode characters can be formatted
 without {:?}

---
 best/text/internal/format_impls.h | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/best/text/internal/format_impls.h b/best/text/internal/format_impls.h
index e693716..43856b6 100644
--- a/best/text/internal/format_impls.h
+++ b/best/text/internal/format_impls.h
@@ -34,15 +34,13 @@ namespace best {
 void BestFmt(auto& fmt, bool value) {
   value ? fmt.write("true") : fmt.write("false");
 }
-template <typename T>
-constexpr void BestFmtQuery(auto& query, bool* range) {
+constexpr void BestFmtQuery(auto& query, bool*) {
   query.requires_debug = false;
   query.supports_width = true;
 }
 
 void BestFmt(auto& fmt, char8_t value) { fmt.format(*rune::from_int(value)); }
-template <typename T>
-constexpr void BestFmtQuery(auto& query, char8_t* range) {
+constexpr void BestFmtQuery(auto& query, char8_t*) {
   query.requires_debug = false;
   query.supports_width = true;
 }
@@ -50,8 +48,7 @@ constexpr void BestFmtQuery(auto& query, char8_t* range) {
 void BestFmt(auto& fmt, char16_t value) {
   fmt.format(*rune::from_int_allow_surrogates(value));
 }
-template <typename T>
-constexpr void BestFmtQuery(auto& query, char16_t* range) {
+constexpr void BestFmtQuery(auto& query, char16_t*) {
   query.requires_debug = false;
   query.supports_width = true;
 }
@@ -65,8 +62,7 @@ void BestFmt(auto& fmt, char32_t value) {
     fmt.format("<U+{:X}>", unsigned(value));
   }
 }
-template <typename T>
-constexpr void BestFmtQuery(auto& query, char32_t* range) {
+constexpr void BestFmtQuery(auto& query, char32_t*) {
   query.requires_debug = false;
   query.supports_width = true;
 }
-- 
2.43.0


From 78cbe8494c05745f44cf6ca7233e2a6d2ce6f836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:54 +0000
Subject: [PATCH 83/87] fix: formatter::block::finish() ends a block only once

---
 best/text/format.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/best/text/format.cc b/best/text/format.cc
index 3f8e7ab..ccce376 100644
--- a/best/text/format.cc
+++ b/best/text/format.cc
@@ -71,6 +71,7 @@ void formatter::block::finish() {
   if (uses_indent_ && entries_ > 0) { fmt_->write(",\n"); }
   if (uses_indent_) { --fmt_->indent_; }
   fmt_->write(config_.close);
+  fmt_ = nullptr;
 }
 
 void formatter::block::advise_size(size_t n) {
-- 
2.43.0


From e635cb6c12fd2ea090dd6383bf8feb367b2fb6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:16:47 +0000
Subject: [PATCH 84/87] fix: const rvalue choices, options and results can be
 visited

---
 best/container/choice.h | 2 +-
 best/container/option.h | 2 +-
 best/container/result.h | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/best/container/choice.h b/best/container/choice.h
index f73fa62..b168b9a 100644
--- a/best/container/choice.h
+++ b/best/container/choice.h
@@ -367,7 +367,7 @@ class choice final {
 
   constexpr const auto& impl() const& { return BEST_CHOICE_IMPL_; }
   constexpr auto& impl() & { return BEST_CHOICE_IMPL_; }
-  constexpr const auto&& impl() const&& { return BEST_MOVE(BEST_CHOICE_IMPL_); }
+  constexpr const auto&& impl() const&& { return BEST_MOVE((BEST_CHOICE_IMPL_)); }
   constexpr auto&& impl() && { return BEST_MOVE(BEST_CHOICE_IMPL_); }
 
  public:
diff --git a/best/container/option.h b/best/container/option.h
index f7e819f..9d879f1 100644
--- a/best/container/option.h
+++ b/best/container/option.h
@@ -761,7 +761,7 @@ class option final {
 
   constexpr const auto& impl() const& { return BEST_OPTION_IMPL_; }
   constexpr auto& impl() & { return BEST_OPTION_IMPL_; }
-  constexpr const auto&& impl() const&& { return BEST_MOVE(BEST_OPTION_IMPL_); }
+  constexpr const auto&& impl() const&& { return BEST_MOVE((BEST_OPTION_IMPL_)); }
   constexpr auto&& impl() && { return BEST_MOVE(BEST_OPTION_IMPL_); }
 
   template <typename... Args>
diff --git a/best/container/result.h b/best/container/result.h
index 8db3677..30c625d 100644
--- a/best/container/result.h
+++ b/best/container/result.h
@@ -404,7 +404,7 @@ class [[nodiscard(
 
   constexpr const auto& impl() const& { return BEST_RESULT_IMPL_; }
   constexpr auto& impl() & { return BEST_RESULT_IMPL_; }
-  constexpr const auto&& impl() const&& { return BEST_MOVE(BEST_RESULT_IMPL_); }
+  constexpr const auto&& impl() const&& { return BEST_MOVE((BEST_RESULT_IMPL_)); }
   constexpr auto&& impl() && { return BEST_MOVE(BEST_RESULT_IMPL_); }
 
  public:
-- 
2.43.0


From 28ef786b65a65d7efaf77e8b29083790844febab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:16:48 +0000
Subject: [PATCH 85/87] fix: index_match() of an rvalue choice passes rvalues

---
 best/container/choice.h          | 2 +-
 best/container/internal/choice.h | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/best/container/choice.h b/best/container/choice.h
index b168b9a..9d12083 100644
--- a/best/container/choice.h
+++ b/best/container/choice.h
@@ -305,7 +305,7 @@ class choice final {
 #undef BEST_CHOICE_CLANG_FORMAT_HACK_
     requires (inverse.has_value())
   {
-    return index_match([&](auto tag, auto&&... value) {
+    return BEST_MOVE(*this).index_match([&](auto tag, auto&&... value) {
       return best::choice<type<p>...>(best::index<(*inverse)[tag.value]>,
                                       BEST_FWD(value)...);
     });
diff --git a/best/container/internal/choice.h b/best/container/internal/choice.h
index 3f64d00..116b1db 100644
--- a/best/container/internal/choice.h
+++ b/best/container/internal/choice.h
@@ -296,11 +296,13 @@ class impl : public storage<Ts...> {
   template <typename F>
   BEST_INLINE_SYNTHETIC constexpr decltype(auto) index_match(
     F&& callback) const&& {
-    return jump_table(make_index_match_arm(*this, BEST_FWD(callback)));
+    return jump_table(
+      make_index_match_arm(BEST_MOVE(*this), BEST_FWD(callback)));
   }
   template <typename F>
   BEST_INLINE_SYNTHETIC constexpr decltype(auto) index_match(F&& callback) && {
-    return jump_table(make_index_match_arm(*this, BEST_FWD(callback)));
+    return jump_table(
+      make_index_match_arm(BEST_MOVE(*this), BEST_FWD(callback)));
   }
 
  private:
-- 
2.43.0


From 9d88c41ea725a4932df10f92287321301cec0ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:36:53 +0000
Subject: [PATCH 86/87] fix: constexpr searches do not compare past the end of
 the haystack

---
 best/memory/internal/bytes.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/memory/internal/bytes.h b/best/memory/internal/bytes.h
index dc5a1f1..52295de 100644
--- a/best/memory/internal/bytes.h
+++ b/best/memory/internal/bytes.h
@@ -204,7 +204,7 @@ BEST_INLINE_ALWAYS constexpr best::option<size_t> search_constexpr(
 
     // Skip to the next possible candidate.
     hp = (T*)BEST_memchr_(hp, first, len);
-    if (hp == nullptr) { return best::none; }
+    if (hp == nullptr || size_t(end - hp) < nz) { return best::none; }
 
     // Check if we actually found the string.
     if (BEST_memcmp_(hp, np, nz) == 0) { return hp - haystack.data().raw(); }
-- 
2.43.0


From ec4588c457f6ea13109f37c94cdf6d66b57911c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:46:36 +0000
Subject: [PATCH 87/87] fix: overflow<I> can be compared with an integer

---
 best/math/overflow.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/math/overflow.h b/best/math/overflow.h
index d9718bb..f517a09 100644
--- a/best/math/overflow.h
+++ b/best/math/overflow.h
@@ -358,7 +358,7 @@ struct overflow {
   BEST_INLINE_ALWAYS constexpr bool operator==(J that)
     requires best::equatable<Int, J>
   {
-    return value == that.value && !overflowed;
+    return value == that && !overflowed;
   }
 };
 
-- 
2.43.0


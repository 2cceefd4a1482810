From 9ee5469b318d4a95e1a161bb51c392f9d0e3ae64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:37 +0000
Subject: [PATCH 01/16] fix: scan_AVX reads past the end of index and depends
 on the DAZ mode

---
 src/scan_AVX.cxx | 35 +++++++++++++++--------------------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/src/scan_AVX.cxx b/src/scan_AVX.cxx
index 55c768b..de71ddb 100644
--- a/src/scan_AVX.cxx
+++ b/src/scan_AVX.cxx
@@ -33,22 +33,24 @@ namespace fptu {
 namespace details {
 
 #if __SANITIZE_ADDRESS__
-static __m256i __attribute__((no_sanitize_address, noinline))
-bypass_asan_read_m256(const void *src) {
-  return _mm256_loadu_si256((const __m256i *)src);
+static __m128i __attribute__((no_sanitize_address, noinline))
+bypass_asan_read_m128(const void *src) {
+  return _mm_loadu_si128((const __m128i *)src);
 }
-#define _mm256_loadu_si256(ptr) bypass_asan_read_m256(ptr)
+#define _mm_loadu_si128(ptr) bypass_asan_read_m128(ptr)
 #endif
 
-static __always_inline unsigned cmp2mask(const __m256 pattern,
+static __always_inline unsigned cmp2mask(const __m128i pattern,
                                          const field_loose *scan) {
-  const char *ptr = (const char *)scan + 2;
-  const __m256 even = _mm256_castsi256_ps(_mm256_set1_epi32(0x0000ffffu));
-  return _mm256_movemask_ps(_mm256_cmp_ps(
-      pattern,
-      _mm256_and_ps(
-          even, _mm256_castsi256_ps(_mm256_loadu_si256((const __m256i *)ptr))),
-      _CMP_EQ_OQ));
+  /* AVX has no 256-bit integer comparison, and float one is unsuitable:
+   * denormals are compared as equal in the DAZ mode, and loading with a 2-byte
+   * shift crosses the end of index. So use the pair of 128-bit halves. */
+  const __m128i lo = _mm_loadu_si128((const __m128i *)scan);
+  const __m128i hi = _mm_loadu_si128((const __m128i *)(scan + 4));
+  const __m128i eq =
+      _mm_packs_epi32(_mm_cmpeq_epi32(pattern, _mm_srli_epi32(lo, 16)),
+                      _mm_cmpeq_epi32(pattern, _mm_srli_epi32(hi, 16)));
+  return _mm_movemask_epi8(_mm_packs_epi16(eq, _mm_setzero_si128()));
 }
 
 static __always_inline bool mask2ptr(unsigned mask, const field_loose *&ptr) {
@@ -80,14 +82,7 @@ __hot const field_loose *fptu_scan_AVX(const field_loose *begin,
   const ptrdiff_t bytes = (char *)end - (char *)begin;
   assert(bytes % 4 == 0);
 
-  const __m256 pattern =
-#if 1 /* LY: avoid store to temporary on the stack */
-      _mm256_permute2f128_ps(_mm256_castps128_ps256(_mm_castsi128_ps(
-                                 _mm_set1_epi32(genus_and_id))),
-                             _mm256_undefined_ps(), 0);
-#else
-      _mm256_castsi256_ps(_mm256_set1_epi32(genus_and_id));
-#endif
+  const __m128i pattern = _mm_set1_epi32(genus_and_id);
   const field_loose *scan = begin;
 
   if (unlikely(bytes < 8 * 4)) {
-- 
2.43.0


From 60cd846155de8c90689f121d2afb9447c3013aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:37 +0000
Subject: [PATCH 02/16] fix: length of varbinary is wrong when its size is a
 multiple of the unit

stretchy_value_varbin::length() subtracted a whole unit when tailbytes is
zero, so a value whose length is divisible by four was read back by four
bytes shorter.
---
 fast_positive/tuples/details/field.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fast_positive/tuples/details/field.h b/fast_positive/tuples/details/field.h
index 5a05fb2..b5b2929 100644
--- a/fast_positive/tuples/details/field.h
+++ b/fast_positive/tuples/details/field.h
@@ -121,7 +121,7 @@ union stretchy_value_varbin {
     static_assert(8 - genus_bitness == 3, "Oops");
     const std::size_t tailbytes = reserved14_tailbytes & 3;
     constexpr_assert(brutto_units > 1 || tailbytes == 0);
-    return units2bytes(brutto_units) - 4 + tailbytes;
+    return units2bytes(brutto_units) - 4 - ((4 - tailbytes) & 3);
   }
 
   static std::size_t estimate_space(const string_view &value) {
-- 
2.43.0


From 33f92f533203c6e84811070a6026890ded6b83bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:37 +0000
Subject: [PATCH 03/16] fix: alloc_loose() moves the begin of a partly used
 hole by a wrong distance

The rest of the hole begins after the allocated units, not after the
excess, otherwise the hole overlaps the new value or the next chunk.
---
 src/gear.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gear.cxx b/src/gear.cxx
index c8b921f..9238d4d 100644
--- a/src/gear.cxx
+++ b/src/gear.cxx
@@ -297,7 +297,7 @@ field_loose *gear::alloc_loose(const tag_t tag, unsigned units) {
   field_loose *loose = index_alloc(units);
   loose->genus_and_id = uint16_t(tag);
   loose->relative.set_payload(hole->hole_begin());
-  hole->relative.add_delta(excess);
+  hole->relative.add_delta(units);
   hole->hole_set_units(excess);
   junk_.volume -= uint16_t(units);
   mark_unsorted();
-- 
2.43.0


From defadc2351a4b046510b4eae6ff5b232dbe80635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:37 +0000
Subject: [PATCH 04/16] fix: gear::sort() doubles the index

The vector was created with index_size() of default items and then
extended by the actual ones, so twice as many items were written back
over the index and the data.
---
 src/gear.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gear.cxx b/src/gear.cxx
index 9238d4d..8e13b45 100644
--- a/src/gear.cxx
+++ b/src/gear.cxx
@@ -920,7 +920,8 @@ bool gear::sort(onstack_allocation_arena &onstack_arena) {
     return false;
   }
 
-  sort_vector vector(index_size(), onstack_arena);
+  sort_vector vector(onstack_arena);
+  vector.reserve(index_size());
   const unit_t *const basis = &area_[head_];
   /* заполняем вектор */
   for (field_loose *loose = begin_index(); loose < end_index(); ++loose)
-- 
2.43.0


From cd7b5b7edf6fb424d500e1c4493ece31d3f921ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:56 +0000
Subject: [PATCH 05/16] fix: compactify() treats the fields without payload as
 they have one

A loose field with an empty value has a zero offset that must stay zero
when its descriptor moves, and a nil preplaced field has nothing to move.
---
 src/gear.cxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gear.cxx b/src/gear.cxx
index 8e13b45..8c88e26 100644
--- a/src/gear.cxx
+++ b/src/gear.cxx
@@ -780,7 +780,7 @@ inline void gear::compactify(onstack_allocation_arena &onstack_arena) {
           !is_inplaced(src->type()) && src->relative.have_payload();
       if (src != dst) {
         dst->loose_header = src->loose_header;
-        if (!is_inplaced(src->type()))
+        if (!is_inplaced(src->type()) && src->relative.have_payload())
           dst->relative.sub_delta(dst - src);
       }
       --dst;
@@ -832,7 +832,8 @@ inline void gear::compactify(onstack_allocation_arena &onstack_arena) {
           const field_preplaced *const preplaced =
               erthink::constexpr_pointer_cast<const field_preplaced *>(
                   begin_data_bytes() + ident.preplaced_offset());
-          vector.emplace_back(basis, ident.type(), preplaced);
+          if (preplaced->relative.have_payload())
+            vector.emplace_back(basis, ident.type(), preplaced);
         }
       }
     }
-- 
2.43.0


From 79124ee93161dd8604745f8b79737c90402c6ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:56 +0000
Subject: [PATCH 06/16] fix: realloc_data() misses that the exchanged chunk is
 the last one

The released chunk ends, not begins, at the end of the data when it could
be returned to the unallocated space.
---
 src/gear.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gear.cxx b/src/gear.cxx
index 8c88e26..0b32d4a 100644
--- a/src/gear.cxx
+++ b/src/gear.cxx
@@ -588,7 +588,7 @@ relative_payload *gear::realloc_data(relative_offset &ref, const unsigned have,
       junk_.volume += uint16_t(have - needed);
 
       /* если дырка примыкает к концу данных, то её нужно "испарить" */
-      if (chunk == end_data_units()) {
+      if (chunk + have == end_data_units()) {
         /* возвращем место в нераспределенное */
         tail_ -= have;
         junk_.volume -= uint16_t(have);
-- 
2.43.0


From 237fa99aeeda27f961b887370ceac2c0638b72a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:07 +0000
Subject: [PATCH 07/16] fix: accessor's exist() is inverted for preplaced
 fields

field_preplaced::is_null() tells that a field has no value, so is_present()
and erase() did the opposite for preplaced fields.
---
 fast_positive/tuples/details/getter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fast_positive/tuples/details/getter.h b/fast_positive/tuples/details/getter.h
index 725e281..83d8bdc 100644
--- a/fast_positive/tuples/details/getter.h
+++ b/fast_positive/tuples/details/getter.h
@@ -211,7 +211,7 @@ public:
 
   cxx11_constexpr bool exist() const cxx11_noexcept {
     return token_.is_preplaced()
-               ? static_cast<const field_preplaced *>(field_)->is_null(
+               ? !static_cast<const field_preplaced *>(field_)->is_null(
                      token_.tag())
                : field_ != nullptr;
   }
-- 
2.43.0


From 61b598360f60db203dc6472ac3021a85161b8dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:04 +0000
Subject: [PATCH 08/16] fix: the growth of a managed tuple loses the holes
 counters

The index and the data are copied together with holes, so the counters
must be copied too.
---
 src/autogrowth.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/autogrowth.cxx b/src/autogrowth.cxx
index 88634e8..ecdcea5 100644
--- a/src/autogrowth.cxx
+++ b/src/autogrowth.cxx
@@ -188,6 +188,7 @@ void tuple_rw_managed::manage_space_deficit(const insufficient_space &wanna) {
 
   new_tuple->head_ = new_tuple->pivot_ - (pimpl_->pivot_ - pimpl_->head_);
   new_tuple->tail_ = new_tuple->pivot_ + (pimpl_->tail_ - pimpl_->pivot_);
+  new_tuple->junk_ = pimpl_->junk_;
   std::memcpy(static_cast<void *>(new_tuple->begin_index()),
               pimpl_->begin_index(),
               details::units2bytes(pimpl_->tail_ - pimpl_->head_));
-- 
2.43.0


From 2dcf57fb4aa4d4349c55517a497390008acee343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:04 +0000
Subject: [PATCH 09/16] fix: wrong capacity after the growth of a tuple without
 a hippeus-buffer

The size of the reallocated memory in units is the quotient, not the
remainder.
---
 src/autogrowth.cxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/autogrowth.cxx b/src/autogrowth.cxx
index ecdcea5..b59e84b 100644
--- a/src/autogrowth.cxx
+++ b/src/autogrowth.cxx
@@ -144,13 +144,13 @@ void tuple_rw_managed::manage_space_deficit(const insufficient_space &wanna) {
     pimpl_->end_ = unsigned(std::min(
         ptrdiff_t(max_tuple_units_netto),
         erthink::constexpr_pointer_cast<details::unit_t *>(new_legacy_buffer) +
-            growth_space % fundamentals::unit_size - pimpl_->area_));
+            growth_space / fundamentals::unit_size - pimpl_->area_));
     debug_check();
 
     /* Память перевыделенна. Теперь должно быть достаточно места для данных, но
      * для расширения места под индекс потроха кортежа нужно передвинуть. */
-    assert(wanna.data_space >= pimpl_->end_ - pimpl_->tail_);
-    assert(wanna_units >= pimpl_->end_ - pimpl_->tail_ + pimpl_->head_);
+    assert(wanna.data_space <= pimpl_->end_ - pimpl_->tail_);
+    assert(wanna_units <= pimpl_->end_ - pimpl_->tail_ + pimpl_->head_);
     if (growth_index > pimpl_->pivot_) {
       /* Недостаточно места для индекса, перемещаем всё назад */
       const ptrdiff_t shift = growth_index - pimpl_->pivot_;
-- 
2.43.0


From 8d5b4577c91ed604bb368ec060f2e7a464a12436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:04 +0000
Subject: [PATCH 10/16] fix: read beyond a value when storing ip_net_t

The size of the value may be less than of the space for it, the rest is
zeroed by the memset below.
---
 fast_positive/tuples/details/meta.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fast_positive/tuples/details/meta.h b/fast_positive/tuples/details/meta.h
index 9a367a3..f6eb797 100644
--- a/fast_positive/tuples/details/meta.h
+++ b/fast_positive/tuples/details/meta.h
@@ -241,7 +241,7 @@ template <unsigned N, typename TYPE = uint32_t[N]> struct unit_n {
   static void write(details::field_preplaced *preplaced,
                     return_type value) cxx11_noexcept {
     static_assert(sizeof(value_type) <= preplaced_bytes, "WTF?");
-    std::memcpy(preplaced->bytes, &value, preplaced_bytes);
+    std::memcpy(preplaced->bytes, &value, sizeof(value_type));
     if (preplaced_bytes != sizeof(value_type))
       std::memset(preplaced->bytes + sizeof(value_type), 0,
                   preplaced_bytes - sizeof(value_type));
@@ -267,7 +267,7 @@ template <unsigned N, typename TYPE = uint32_t[N]> struct unit_n {
 #endif /* GNU C >= 10.x */
 
     static_assert(sizeof(ptr->fixed) >= preplaced_bytes, "WTF?");
-    std::memcpy(&ptr->fixed.words, &value, preplaced_bytes);
+    std::memcpy(&ptr->fixed.words, &value, sizeof(value_type));
     if (preplaced_bytes != sizeof(value_type))
       std::memset(ptr->fixed.bytes + sizeof(value_type), 0,
                   preplaced_bytes - sizeof(value_type));
-- 
2.43.0


From 043bf6d6283e3397bbc6dcf2713f450bd64f28b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:05 +0000
Subject: [PATCH 11/16] fix: set_unsigned() and insert_unsigned() of int64_t
 reject unsigned fields

They called the *_integer() counterparts, which are for signed fields.
---
 fast_positive/tuples/details/rw.h | 2 +-
 src/rw.cxx                        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/fast_positive/tuples/details/rw.h b/fast_positive/tuples/details/rw.h
index 5590fdb..e47489c 100644
--- a/fast_positive/tuples/details/rw.h
+++ b/fast_positive/tuples/details/rw.h
@@ -524,7 +524,7 @@ public:
     void set_unsigned(const int64_t value) {
       if (unlikely(value < 0))
         throw_value_range();
-      return set_integer(static_cast<uint64_t>(value));
+      return set_unsigned(static_cast<uint64_t>(value));
     }
 
     void set_int128(const int128_t &value) {
diff --git a/src/rw.cxx b/src/rw.cxx
index 374d3de..dfd9666 100644
--- a/src/rw.cxx
+++ b/src/rw.cxx
@@ -315,7 +315,7 @@ FPTU_API dynamic_collection_iterator_rw
 tuple_rw::insert_unsigned(const token &ident, const int64_t value) {
   if (unlikely(value < 0))
     throw_value_range();
-  return insert_integer(ident, static_cast<uint64_t>(value));
+  return insert_unsigned(ident, static_cast<uint64_t>(value));
 }
 
 FPTU_API dynamic_collection_iterator_rw
-- 
2.43.0


From 4075b65a892c6096a61820a3183c2843477c8278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:22 +0000
Subject: [PATCH 12/16] fix: release_data() spoils the volume of holes when no
 space in the index

The exception was thrown after the counter was changed, so a failed erase
of a preplaced field left the tuple inconsistent.
---
 src/gear.cxx | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/gear.cxx b/src/gear.cxx
index 0b32d4a..bc4e1da 100644
--- a/src/gear.cxx
+++ b/src/gear.cxx
@@ -389,6 +389,13 @@ gear::release_data(relative_payload *chunk, unsigned units,
     return nullptr;
   }
 
+  if (!before_after.first && !before_after.second && hole0 == nullptr) {
+    /* соседних дырок нет, поэтому потребуется место в индексе. Запрашиваем его
+     * до изменения чего-либо, так как здесь может быть исключение */
+    hole0 = index_alloc(0);
+    junk_.count += 1;
+  }
+
   /* добавляем в счетчики, чтобы прошли проверки внутри merge и trim */
   junk_.volume += uint16_t(units);
 
@@ -413,10 +420,6 @@ gear::release_data(relative_payload *chunk, unsigned units,
     /* не нашлось соседних дырок для объединения с куском */
     assert(chunk->flat + units != end_data_units());
     /* кусок НЕ может примыкать к концу данных, оформляем дыркой */
-    if (hole0 == nullptr) {
-      hole0 = index_alloc(0);
-      junk_.count += 1;
-    }
     hole0->hole_set_units(units);
     hole0->relative.set_payload(chunk);
     return hole0;
-- 
2.43.0


From 63e33f240c1a0f48538f82200a352aa40d1e1f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:56 +0000
Subject: [PATCH 13/16] fix: 128-bit integers are silently truncated when
 stored in 64-bit fields

---
 fast_positive/tuples/details/rw.h | 4 ++++
 src/rw.cxx                        | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/fast_positive/tuples/details/rw.h b/fast_positive/tuples/details/rw.h
index e47489c..824da7c 100644
--- a/fast_positive/tuples/details/rw.h
+++ b/fast_positive/tuples/details/rw.h
@@ -531,6 +531,8 @@ public:
       if (base::type() == bin128)
         return assign<bin128>(
             *erthink::constexpr_pointer_cast<const binary128_t *>(&value));
+      if (unlikely(value != int64_t(value)))
+        throw_value_range();
       return set_integer(int64_t(value));
     }
 
@@ -538,6 +540,8 @@ public:
       if (base::type() == bin128)
         return assign<bin128>(
             *erthink::constexpr_pointer_cast<const binary128_t *>(&value));
+      if (unlikely(value != uint64_t(value)))
+        throw_value_range();
       return set_unsigned(uint64_t(value));
     }
 
diff --git a/src/rw.cxx b/src/rw.cxx
index dfd9666..f9d8678 100644
--- a/src/rw.cxx
+++ b/src/rw.cxx
@@ -323,6 +323,8 @@ tuple_rw::insert_int128(const token &ident, const int128_t &value) {
   if (ident.type() == bin128)
     return insert_bin128(
         ident, *erthink::constexpr_pointer_cast<const binary128_t *>(&value));
+  if (unlikely(value != int64_t(value)))
+    throw_value_range();
   return insert_integer(ident, int64_t(value));
 }
 
@@ -331,6 +333,8 @@ tuple_rw::insert_uint128(const token &ident, const uint128_t &value) {
   if (ident.type() == bin128)
     return insert_bin128(
         ident, *erthink::constexpr_pointer_cast<const binary128_t *>(&value));
+  if (unlikely(value != uint64_t(value)))
+    throw_value_range();
   return insert_unsigned(ident, uint64_t(value));
 }
 
-- 
2.43.0


From 69e5d4a9d5a894e7378ee519ca7b4b81faad9882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:59 +0000
Subject: [PATCH 14/16] fix: audit() reads beyond a tuple and accepts
 variable-length values with inconsistent sizes

---
 src/audit.cxx | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/src/audit.cxx b/src/audit.cxx
index f09b189..2fe2afe 100644
--- a/src/audit.cxx
+++ b/src/audit.cxx
@@ -97,6 +97,10 @@ public:
                           const unit_t *begin_payload,
                           const unit_t *end_payload);
 
+  const char *check_stretchy(const relative_payload *payload, const genus type,
+                             const unit_t *begin_payload,
+                             const unit_t *end_payload);
+
   const char *check_loose(const field_loose *loose, const unit_t *begin_payload,
                           const unit_t *end_payload);
 };
@@ -188,6 +192,26 @@ const char *auditor::check_chunk(const unit_t *chunk_begin,
   return nullptr;
 }
 
+const char *auditor::check_stretchy(const relative_payload *payload,
+                                    const genus type,
+                                    const unit_t *begin_payload,
+                                    const unit_t *end_payload) {
+  /* the header of a value must be inside the tuple before it could be read */
+  if (unlikely(payload->flat < begin_payload))
+    return AUDIT_FAILURE("chunk_begin < begin_payload");
+  if (unlikely(payload->flat >= end_payload))
+    return AUDIT_FAILURE("chunk_begin >= end_payload");
+
+  const std::size_t units = payload->stretchy.brutto_units(type);
+  if (unlikely(units < 1))
+    return AUDIT_FAILURE("stretchy.brutto_units < 1");
+  if (type == genus::varbin &&
+      unlikely(units == 1 &&
+               (payload->stretchy.varbin.reserved14_tailbytes & 3) != 0))
+    return AUDIT_FAILURE("varbin.tailbytes > varbin.size");
+  return check_chunk(payload->flat, units, begin_payload, end_payload);
+}
+
 const char *auditor::check_loose(const field_loose *loose,
                                  const unit_t *begin_payload,
                                  const unit_t *end_payload) {
@@ -218,9 +242,8 @@ const char *auditor::check_loose(const field_loose *loose,
 
   /* stretchy */
   if (loose->relative.have_payload())
-    return check_chunk(loose->relative.payload()->flat,
-                       loose->relative.payload()->stretchy.brutto_units(type),
-                       begin_payload, end_payload);
+    return check_stretchy(loose->relative.payload(), type, begin_payload,
+                          end_payload);
   return nullptr;
 }
 } // namespace
@@ -286,10 +309,9 @@ __hot const char *audit_tuple(const fptu::schema *const schema,
 
       if (!target->relative.have_payload())
         continue;
-      const auto payload = target->relative.payload();
-      trouble = validator.check_chunk(
-          payload->flat, payload->stretchy.brutto_units(field_token.type()),
-          payload_begin, payload_end);
+      trouble = validator.check_stretchy(target->relative.payload(),
+                                         field_token.type(), payload_begin,
+                                         payload_end);
       if (unlikely(trouble))
         return AUDIT_FAILURE(trouble);
     }
-- 
2.43.0


From 3a7e8e688364a98a37805f1cb4b1c2e45f675771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:04 +0000
Subject: [PATCH 15/16] fix: schema::by_loose() misses some of the defined
 fields

---
 src/schema.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/schema.cxx b/src/schema.cxx
index e1b30cf..7e84345 100644
--- a/src/schema.cxx
+++ b/src/schema.cxx
@@ -432,6 +432,10 @@ schema::by_loose(const details::field_loose *field) const cxx11_noexcept {
       ++iter;
       __fallthrough /* fall through */;
     case 0:
+      /* the middle items were excluded from the span by the search above */
+      if (iter != sorted_tokens_.end() &&
+          details::tag2genus_and_id(iter->tag()) == field->genus_and_id)
+        return *iter;
       break;
     default:
       assert(false);
-- 
2.43.0


From cf5d1ccf412d6cf082d8e221abb3951e53844e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:14 +0000
Subject: [PATCH 16/16] fix: release_loose() merges a hole which is already
 trimmed

---
 src/gear.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gear.cxx b/src/gear.cxx
index bc4e1da..08ae5f9 100644
--- a/src/gear.cxx
+++ b/src/gear.cxx
@@ -341,7 +341,9 @@ void gear::release_loose(field_loose *loose, unsigned units) {
     /* объединяем с соседними если они есть */
     if (before_after.first)
       loose = merge_holes(before_after.first, loose);
-    if (before_after.second)
+    /* следующая дырка могла быть уже удалена в trim_hole() вместе с первой,
+     * если она примыкала к концу данных (возможно в загруженных кортежах) */
+    if (before_after.second && before_after.second >= begin_index())
       loose = merge_holes(loose, before_after.second);
 
     if (loose->hole_end() != end_data_units()) {
-- 
2.43.0


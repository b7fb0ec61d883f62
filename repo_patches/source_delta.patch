From 92152429215f446862529208462c457b90bfa6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:35 +0000
Subject: [PATCH 01/51] fix: split a hole at the allocated size, not at the
 remaining one

---
 src/gear.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gear.cxx b/src/gear.cxx
index c8b921f..9238d4d 100644
--- a/src/gear.cxx
+++ b/src/gear.cxx
@@ -297,7 +297,7 @@ field_loose *gear::alloc_loose(const tag_t tag, unsigned units) {
   field_loose *loose = index_alloc(units);
   loose->genus_and_id = uint16_t(tag);
   loose->relative.set_payload(hole->hole_begin());
-  hole->relative.add_delta(excess);
+  hole->relative.add_delta(units);
   hole->hole_set_units(excess);
   junk_.volume -= uint16_t(units);
   mark_unsorted();
-- 
2.43.0


From ce17eb7e09f236a409af1d55c010ac17b7b10bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:35 +0000
Subject: [PATCH 02/51] fix: don't double the index while sorting it

---
 src/gear.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gear.cxx b/src/gear.cxx
index 9238d4d..8e13b45 100644
--- a/src/gear.cxx
+++ b/src/gear.cxx
@@ -920,7 +920,8 @@ bool gear::sort(onstack_allocation_arena &onstack_arena) {
     return false;
   }
 
-  sort_vector vector(index_size(), onstack_arena);
+  sort_vector vector(onstack_arena);
+  vector.reserve(index_size());
   const unit_t *const basis = &area_[head_];
   /* заполняем вектор */
   for (field_loose *loose = begin_index(); loose < end_index(); ++loose)
-- 
2.43.0


From 99089001d0aea290412c34d13ccadfeb0c15002a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:35 +0000
Subject: [PATCH 03/51] fix: skip stretchy fields without payload while
 compacting

---
 src/gear.cxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gear.cxx b/src/gear.cxx
index 8e13b45..8c88e26 100644
--- a/src/gear.cxx
+++ b/src/gear.cxx
@@ -780,7 +780,7 @@ inline void gear::compactify(onstack_allocation_arena &onstack_arena) {
           !is_inplaced(src->type()) && src->relative.have_payload();
       if (src != dst) {
         dst->loose_header = src->loose_header;
-        if (!is_inplaced(src->type()))
+        if (!is_inplaced(src->type()) && src->relative.have_payload())
           dst->relative.sub_delta(dst - src);
       }
       --dst;
@@ -832,7 +832,8 @@ inline void gear::compactify(onstack_allocation_arena &onstack_arena) {
           const field_preplaced *const preplaced =
               erthink::constexpr_pointer_cast<const field_preplaced *>(
                   begin_data_bytes() + ident.preplaced_offset());
-          vector.emplace_back(basis, ident.type(), preplaced);
+          if (preplaced->relative.have_payload())
+            vector.emplace_back(basis, ident.type(), preplaced);
         }
       }
     }
-- 
2.43.0


From 40f685773d3c376543d85440b662923e1da6157d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:35 +0000
Subject: [PATCH 04/51] fix: keep junk accounting intact when there is no room
 for a hole descriptor

---
 src/gear.cxx | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/gear.cxx b/src/gear.cxx
index 8c88e26..5423789 100644
--- a/src/gear.cxx
+++ b/src/gear.cxx
@@ -389,6 +389,13 @@ gear::release_data(relative_payload *chunk, unsigned units,
     return nullptr;
   }
 
+  if (!before_after.first && !before_after.second && hole0 == nullptr) {
+    /* может выскочить исключение, поэтому до изменения счетчиков */
+    hole0 = index_alloc(0);
+    hole0->hole_purge();
+    junk_.count += 1;
+  }
+
   /* добавляем в счетчики, чтобы прошли проверки внутри merge и trim */
   junk_.volume += uint16_t(units);
 
@@ -413,10 +420,6 @@ gear::release_data(relative_payload *chunk, unsigned units,
     /* не нашлось соседних дырок для объединения с куском */
     assert(chunk->flat + units != end_data_units());
     /* кусок НЕ может примыкать к концу данных, оформляем дыркой */
-    if (hole0 == nullptr) {
-      hole0 = index_alloc(0);
-      junk_.count += 1;
-    }
     hole0->hole_set_units(units);
     hole0->relative.set_payload(chunk);
     return hole0;
-- 
2.43.0


From 5a54dea2356b3678423bb908e82a95af2ae211c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:35 +0000
Subject: [PATCH 05/51] fix: return the swapped-out tail chunk to unallocated
 space

---
 src/gear.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gear.cxx b/src/gear.cxx
index 5423789..32ea47c 100644
--- a/src/gear.cxx
+++ b/src/gear.cxx
@@ -591,7 +591,7 @@ relative_payload *gear::realloc_data(relative_offset &ref, const unsigned have,
       junk_.volume += uint16_t(have - needed);
 
       /* если дырка примыкает к концу данных, то её нужно "испарить" */
-      if (chunk == end_data_units()) {
+      if (chunk + have == end_data_units()) {
         /* возвращем место в нераспределенное */
         tail_ -= have;
         junk_.volume -= uint16_t(have);
-- 
2.43.0


From 1ff43db9b78facb92c9f7ef614cbc3096f6172bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:34 +0000
Subject: [PATCH 06/51] fix: account holes which are larger than fits into a
 descriptor

---
 fast_positive/tuples/details/field.h | 18 +++++++++++++++---
 src/audit.cxx                        |  8 ++++++++
 src/gear.cxx                         | 24 +++++++++++++++++-------
 3 files changed, 40 insertions(+), 10 deletions(-)

diff --git a/fast_positive/tuples/details/field.h b/fast_positive/tuples/details/field.h
index 5a05fb2..60e8a3d 100644
--- a/fast_positive/tuples/details/field.h
+++ b/fast_positive/tuples/details/field.h
@@ -427,9 +427,21 @@ struct FPTU_API_TYPE field_loose {
   }
   cxx11_constexpr unsigned hole_get_units() const {
     constexpr_assert(is_hole());
-    return descriptor2id(genus_and_id);
-  }
-  void hole_set_units(size_t units) {
+    return hole_is_large() ? unsigned(relative.payload()->flat[0])
+                           : descriptor2id(genus_and_id);
+  }
+  cxx11_constexpr bool hole_is_large() const {
+    /* Размер больших дыр не помещается в дескриптор, поэтому хранится
+     * в первом элементе данных самой дыры */
+    return descriptor2id(genus_and_id) == tag_bits::max_ident;
+  }
+  void hole_set_units(size_t units) /* следует вызывать ПОСЛЕ установки ссылки
+                                       на данные */
+  {
+    if (unlikely(units >= tag_bits::max_ident)) {
+      relative.payload()->flat[0] = unit_t(units);
+      units = tag_bits::max_ident;
+    }
     genus_and_id = loose_genus_and_id_t(details::make_hole(units));
   }
   cxx14_constexpr const unit_t *hole_begin() const {
diff --git a/src/audit.cxx b/src/audit.cxx
index f09b189..9b6c70c 100644
--- a/src/audit.cxx
+++ b/src/audit.cxx
@@ -196,6 +196,14 @@ const char *auditor::check_loose(const field_loose *loose,
     return nullptr;
 
   if (type == genus::hole) {
+    if (loose->hole_is_large()) {
+      if (!loose->relative.have_payload())
+        return AUDIT_FAILURE("tuple.non_pure_hole.payload == null");
+      const unit_t *const chunk = loose->relative.payload()->flat;
+      if (chunk < begin_payload || chunk >= end_payload ||
+          *chunk < tag_bits::max_ident)
+        return AUDIT_FAILURE("tuple.large_hole.size is invalid");
+    }
     const std::size_t units = loose->hole_get_units();
     holes_count_ += 1;
     if (units == 0) {
diff --git a/src/gear.cxx b/src/gear.cxx
index 32ea47c..e0d74a6 100644
--- a/src/gear.cxx
+++ b/src/gear.cxx
@@ -118,9 +118,11 @@ __pure_function field_loose *gear::lookup_hole(unsigned units) cxx11_noexcept {
   if (junk_.count < 1 || junk_.volume < units)
     return nullptr;
 
-  if_constexpr(MODE == hole_search_mode::exactly_size) return const_cast<
-      field_loose *>(
-      lookup(is_sorted(), begin_index(), end_index(), make_hole(units)));
+  if_constexpr(MODE == hole_search_mode::exactly_size) {
+    if (likely(units < tag_bits::max_ident))
+      return const_cast<field_loose *>(
+          lookup(is_sorted(), begin_index(), end_index(), make_hole(units)));
+  }
 
   if (0 == /* нет смысла искать, так как дырка ненулевого размера потребует
               усечения и поиска еще одной дырки... */
@@ -137,6 +139,13 @@ __pure_function field_loose *gear::lookup_hole(unsigned units) cxx11_noexcept {
       continue;
     if (scan->hole_get_units() >= units) {
       if_constexpr(MODE == hole_search_mode::any_suitable) return scan;
+      if_constexpr(MODE == hole_search_mode::exactly_size) {
+        if (scan->hole_get_units() == units)
+          return scan;
+        if (--left_holes == 0)
+          break;
+        continue;
+      }
       /* MODE == hole_search_mode::best_fit */
       found = best_fit(units, found, scan);
     }
@@ -411,8 +420,9 @@ gear::release_data(relative_payload *chunk, unsigned units,
       merged = merge_holes(merged, before_after.second);
     else {
       merged = before_after.second;
+      const unsigned merged_units = units + merged->hole_get_units();
       merged->relative.sub_delta(units);
-      merged->hole_set_units(units + merged->hole_get_units());
+      merged->hole_set_units(merged_units);
     }
   }
 
@@ -420,8 +430,8 @@ gear::release_data(relative_payload *chunk, unsigned units,
     /* не нашлось соседних дырок для объединения с куском */
     assert(chunk->flat + units != end_data_units());
     /* кусок НЕ может примыкать к концу данных, оформляем дыркой */
-    hole0->hole_set_units(units);
     hole0->relative.set_payload(chunk);
+    hole0->hole_set_units(units);
     return hole0;
   }
   /* кусок был слит с соседней дыркой */
@@ -483,8 +493,8 @@ relative_payload *gear::realloc_data(relative_offset &ref, const unsigned have,
       try {
 #endif
         field_loose *hole = index_alloc(needed);
-        hole->hole_set_units(have);
         hole->relative.set_payload(ref.payload());
+        hole->hole_set_units(have);
         junk_.count += 1;
         junk_.volume += uint16_t(have);
         ref.set_payload(tail_alloc(needed));
@@ -503,8 +513,8 @@ relative_payload *gear::realloc_data(relative_offset &ref, const unsigned have,
     assert(needed < have);
     field_loose *hole =
         index_alloc(needed) /* Тут может выскочить исключение */;
-    hole->hole_set_units(have - needed);
     hole->relative.set_payload(ref.payload()->flat + needed);
+    hole->hole_set_units(have - needed);
     junk_.count += 1;
     junk_.volume += uint16_t(have - needed);
     return ref.payload();
-- 
2.43.0


From bf98f44b1af74c19e702837f6283e475ce07d809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:34 +0000
Subject: [PATCH 07/51] fix: length of varbinary values which are not a
 multiple of four bytes

---
 fast_positive/tuples/details/field.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fast_positive/tuples/details/field.h b/fast_positive/tuples/details/field.h
index 60e8a3d..fa982a1 100644
--- a/fast_positive/tuples/details/field.h
+++ b/fast_positive/tuples/details/field.h
@@ -121,7 +121,7 @@ union stretchy_value_varbin {
     static_assert(8 - genus_bitness == 3, "Oops");
     const std::size_t tailbytes = reserved14_tailbytes & 3;
     constexpr_assert(brutto_units > 1 || tailbytes == 0);
-    return units2bytes(brutto_units) - 4 + tailbytes;
+    return units2bytes(brutto_units) - 4 - ((4 - tailbytes) & 3);
   }
 
   static std::size_t estimate_space(const string_view &value) {
-- 
2.43.0


From 08f594f7d0530aef1cba1cd9ce1cbd134551c99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:06 +0000
Subject: [PATCH 08/51] fix: a preplaced field is present when it is not null

---
 fast_positive/tuples/details/getter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fast_positive/tuples/details/getter.h b/fast_positive/tuples/details/getter.h
index 725e281..83d8bdc 100644
--- a/fast_positive/tuples/details/getter.h
+++ b/fast_positive/tuples/details/getter.h
@@ -211,7 +211,7 @@ public:
 
   cxx11_constexpr bool exist() const cxx11_noexcept {
     return token_.is_preplaced()
-               ? static_cast<const field_preplaced *>(field_)->is_null(
+               ? !static_cast<const field_preplaced *>(field_)->is_null(
                      token_.tag())
                : field_ != nullptr;
   }
-- 
2.43.0


From 1daf6be3989f77e489ba3a2836a9539ca832541b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:06 +0000
Subject: [PATCH 09/51] fix: count junk in bytes for the netto size of tuple

---
 fast_positive/tuples/details/rw.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fast_positive/tuples/details/rw.h b/fast_positive/tuples/details/rw.h
index 5590fdb..39bab31 100644
--- a/fast_positive/tuples/details/rw.h
+++ b/fast_positive/tuples/details/rw.h
@@ -1128,7 +1128,7 @@ public: //----------------------------------------------------------------------
     return units2bytes(tail_ - head_ + /* header */ 1);
   }
   __pure_function std::size_t netto_size() const cxx11_noexcept {
-    return brutto_size() - junk_units();
+    return brutto_size() - junk_bytes();
   }
   __pure_function std::size_t capacity() const cxx11_noexcept {
     return units2bytes(end_);
-- 
2.43.0


From 09535c3465adf3ac2e43ed8b8cfb5cb4e7394b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:55 +0000
Subject: [PATCH 10/51] fix: store signed values into unsigned fields by
 set_unsigned() and insert_unsigned()

---
 fast_positive/tuples/details/rw.h | 2 +-
 src/rw.cxx                        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/fast_positive/tuples/details/rw.h b/fast_positive/tuples/details/rw.h
index 39bab31..e44ef3f 100644
--- a/fast_positive/tuples/details/rw.h
+++ b/fast_positive/tuples/details/rw.h
@@ -524,7 +524,7 @@ public:
     void set_unsigned(const int64_t value) {
       if (unlikely(value < 0))
         throw_value_range();
-      return set_integer(static_cast<uint64_t>(value));
+      return set_unsigned(static_cast<uint64_t>(value));
     }
 
     void set_int128(const int128_t &value) {
diff --git a/src/rw.cxx b/src/rw.cxx
index 374d3de..dfd9666 100644
--- a/src/rw.cxx
+++ b/src/rw.cxx
@@ -315,7 +315,7 @@ FPTU_API dynamic_collection_iterator_rw
 tuple_rw::insert_unsigned(const token &ident, const int64_t value) {
   if (unlikely(value < 0))
     throw_value_range();
-  return insert_integer(ident, static_cast<uint64_t>(value));
+  return insert_unsigned(ident, static_cast<uint64_t>(value));
 }
 
 FPTU_API dynamic_collection_iterator_rw
-- 
2.43.0


From d092d0c8fcd7df9b1735d759b9f528a509a4e9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:55 +0000
Subject: [PATCH 11/51] fix: allow reset of tuples which have no room for loose
 fields

---
 src/rw.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rw.cxx b/src/rw.cxx
index dfd9666..bd6574b 100644
--- a/src/rw.cxx
+++ b/src/rw.cxx
@@ -608,7 +608,7 @@ tuple_rw::insert_number(const token &ident, const double value) {
 
 void tuple_rw::reset() {
   /* sanity check for corruption */
-  if (unlikely(pivot_ < 1 || pivot_ > fptu::max_fields || pivot_ > end_ ||
+  if (unlikely(pivot_ > fptu::max_fields || pivot_ > end_ ||
                end_ > bytes2units(fptu::buffer_limit)))
     throw_tuple_bad(this);
 
-- 
2.43.0


From b9167cc62725a0ff2c8d725fce10c64b32c60f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:17 +0000
Subject: [PATCH 12/51] fix: reject 128-bit values which don't fit instead of
 truncating them

---
 fast_positive/tuples/details/rw.h | 4 ++++
 src/rw.cxx                        | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/fast_positive/tuples/details/rw.h b/fast_positive/tuples/details/rw.h
index e44ef3f..a52fe22 100644
--- a/fast_positive/tuples/details/rw.h
+++ b/fast_positive/tuples/details/rw.h
@@ -531,6 +531,8 @@ public:
       if (base::type() == bin128)
         return assign<bin128>(
             *erthink::constexpr_pointer_cast<const binary128_t *>(&value));
+      if (unlikely(value != int128_t(int64_t(value))))
+        throw_value_range();
       return set_integer(int64_t(value));
     }
 
@@ -538,6 +540,8 @@ public:
       if (base::type() == bin128)
         return assign<bin128>(
             *erthink::constexpr_pointer_cast<const binary128_t *>(&value));
+      if (unlikely(value != uint128_t(uint64_t(value))))
+        throw_value_range();
       return set_unsigned(uint64_t(value));
     }
 
diff --git a/src/rw.cxx b/src/rw.cxx
index bd6574b..d758167 100644
--- a/src/rw.cxx
+++ b/src/rw.cxx
@@ -323,6 +323,8 @@ tuple_rw::insert_int128(const token &ident, const int128_t &value) {
   if (ident.type() == bin128)
     return insert_bin128(
         ident, *erthink::constexpr_pointer_cast<const binary128_t *>(&value));
+  if (unlikely(value != int128_t(int64_t(value))))
+    throw_value_range();
   return insert_integer(ident, int64_t(value));
 }
 
@@ -331,6 +333,8 @@ tuple_rw::insert_uint128(const token &ident, const uint128_t &value) {
   if (ident.type() == bin128)
     return insert_bin128(
         ident, *erthink::constexpr_pointer_cast<const binary128_t *>(&value));
+  if (unlikely(value != uint128_t(uint64_t(value))))
+    throw_value_range();
   return insert_unsigned(ident, uint64_t(value));
 }
 
-- 
2.43.0


From 18aa37c526900ba53ffffc4b110e1486d1440f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:17 +0000
Subject: [PATCH 13/51] fix: make post-increment and post-decrement of
 iterators advance them

---
 fast_positive/tuples/details/getter.h |  6 +++---
 fast_positive/tuples/details/ro.h     | 28 +++++++++++++++------------
 fast_positive/tuples/details/rw.h     |  6 +++---
 3 files changed, 22 insertions(+), 18 deletions(-)

diff --git a/fast_positive/tuples/details/getter.h b/fast_positive/tuples/details/getter.h
index 83d8bdc..50e7b47 100644
--- a/fast_positive/tuples/details/getter.h
+++ b/fast_positive/tuples/details/getter.h
@@ -492,9 +492,9 @@ public:
                             detent_, accessor::token_.tag());
     return *this;
   }
-  collection_iterator_ro operator++(int) const cxx11_noexcept {
-    collection_iterator_ro iterator(*this);
-    ++iterator;
+  collection_iterator_ro operator++(int) cxx11_noexcept {
+    const collection_iterator_ro iterator(*this);
+    operator++();
     return iterator;
   }
   cxx11_constexpr const accessor &operator*() const cxx11_noexcept {
diff --git a/fast_positive/tuples/details/ro.h b/fast_positive/tuples/details/ro.h
index 9d5143e..ef5cf18 100644
--- a/fast_positive/tuples/details/ro.h
+++ b/fast_positive/tuples/details/ro.h
@@ -182,17 +182,19 @@ public:
     --field_;
     return *this;
   }
-  loose_iterator_ro operator++(int) const cxx11_noexcept {
-    loose_iterator_ro iterator(*this);
-    return --iterator;
+  loose_iterator_ro operator++(int) cxx11_noexcept {
+    const loose_iterator_ro iterator(*this);
+    operator++();
+    return iterator;
   }
   loose_iterator_ro &operator--() cxx11_noexcept {
     ++field_;
     return *this;
   }
-  loose_iterator_ro operator--(int) const cxx11_noexcept {
-    loose_iterator_ro iterator(*this);
-    return ++iterator;
+  loose_iterator_ro operator--(int) cxx11_noexcept {
+    const loose_iterator_ro iterator(*this);
+    operator--();
+    return iterator;
   }
   loose_iterator_ro &operator+=(const difference_type shift) cxx11_noexcept {
     field_ -= shift;
@@ -504,14 +506,16 @@ public:
   }
 
   field_iterator_ro &operator++();
-  field_iterator_ro operator++(int) const {
-    field_iterator_ro iterator(*this);
-    return ++iterator;
+  field_iterator_ro operator++(int) {
+    const field_iterator_ro iterator(*this);
+    operator++();
+    return iterator;
   }
   field_iterator_ro &operator--();
-  field_iterator_ro operator--(int) const {
-    field_iterator_ro iterator(*this);
-    return --iterator;
+  field_iterator_ro operator--(int) {
+    const field_iterator_ro iterator(*this);
+    operator--();
+    return iterator;
   }
 };
 
diff --git a/fast_positive/tuples/details/rw.h b/fast_positive/tuples/details/rw.h
index a52fe22..7deafe3 100644
--- a/fast_positive/tuples/details/rw.h
+++ b/fast_positive/tuples/details/rw.h
@@ -928,9 +928,9 @@ public:
                accessor::tuple_->end_index(), accessor::token_.tag());
       return *this;
     }
-    collection_iterator_rw operator++(int) const cxx11_noexcept {
-      collection_iterator_rw iterator(*this);
-      ++iterator;
+    collection_iterator_rw operator++(int) cxx11_noexcept {
+      const collection_iterator_rw iterator(*this);
+      operator++();
       return iterator;
     }
     cxx14_constexpr accessor operator*() const cxx11_noexcept {
-- 
2.43.0


From 92e79e9fc27e441877a74e9749e6d34da1720926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:25 +0000
Subject: [PATCH 14/51] fix: carry junk accounting over to the enlarged buffer

---
 src/autogrowth.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/autogrowth.cxx b/src/autogrowth.cxx
index 88634e8..ecdcea5 100644
--- a/src/autogrowth.cxx
+++ b/src/autogrowth.cxx
@@ -188,6 +188,7 @@ void tuple_rw_managed::manage_space_deficit(const insufficient_space &wanna) {
 
   new_tuple->head_ = new_tuple->pivot_ - (pimpl_->pivot_ - pimpl_->head_);
   new_tuple->tail_ = new_tuple->pivot_ + (pimpl_->tail_ - pimpl_->pivot_);
+  new_tuple->junk_ = pimpl_->junk_;
   std::memcpy(static_cast<void *>(new_tuple->begin_index()),
               pimpl_->begin_index(),
               details::units2bytes(pimpl_->tail_ - pimpl_->head_));
-- 
2.43.0


From 2c281fab8e55f69f06381dc2f153c1751b466c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:25 +0000
Subject: [PATCH 15/51] fix: capacity of a malloc-ed tuple after it was
 enlarged

---
 src/autogrowth.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autogrowth.cxx b/src/autogrowth.cxx
index ecdcea5..06abfac 100644
--- a/src/autogrowth.cxx
+++ b/src/autogrowth.cxx
@@ -144,7 +144,7 @@ void tuple_rw_managed::manage_space_deficit(const insufficient_space &wanna) {
     pimpl_->end_ = unsigned(std::min(
         ptrdiff_t(max_tuple_units_netto),
         erthink::constexpr_pointer_cast<details::unit_t *>(new_legacy_buffer) +
-            growth_space % fundamentals::unit_size - pimpl_->area_));
+            growth_space / fundamentals::unit_size - pimpl_->area_));
     debug_check();
 
     /* Память перевыделенна. Теперь должно быть достаточно места для данных, но
-- 
2.43.0


From 2e9e605d73b015d66c7f0666063ae1cd32e5c256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:27 +0000
Subject: [PATCH 16/51] fix: don't let the index outgrow the limit of fields
 while enlarging a tuple

---
 src/autogrowth.cxx | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/autogrowth.cxx b/src/autogrowth.cxx
index 06abfac..6e448fe 100644
--- a/src/autogrowth.cxx
+++ b/src/autogrowth.cxx
@@ -29,7 +29,8 @@ void tuple_rw_managed::manage_space_deficit(const insufficient_space &wanna) {
   size_t allocated_units = pimpl_->tail_ - pimpl_->head_;
   size_t unallocated_units = pimpl_->end_ - allocated_units;
   if (unlikely(allocated_units - junk_units + wanna_units >= UINT16_MAX ||
-               wanna.index_space > fundamentals::max_fields ||
+               pimpl_->loose_count() + wanna.index_space >
+                   fundamentals::max_fields ||
                wanna.data_space > fundamentals::max_tuple_bytes_netto)) {
     /* Запрос превышает максимальный размер. Чтобы не искажать картину бросаем
      * исключение не изменяя кортеж. */
@@ -60,7 +61,10 @@ void tuple_rw_managed::manage_space_deficit(const insufficient_space &wanna) {
                    std::min((unallocated_units * index_used + whole_used - 1) /
                                 whole_used,
                             unallocated_units - wanna.data_space));
-      shift = reserve - pimpl_->head_;
+      /* индекс не должен превысить предел количества полей */
+      shift = std::min(reserve, ptrdiff_t(fundamentals::max_fields -
+                                          pimpl_->index_size())) -
+              pimpl_->head_;
     } else if (wanna.data_space > pimpl_->end_ - pimpl_->tail_) {
       /* Недостаточно места для данных, перемещаем всё вперед. Пытаемся
        * переместить "с запасом", распределяя свободное место пропорционально
@@ -100,6 +104,7 @@ void tuple_rw_managed::manage_space_deficit(const insufficient_space &wanna) {
    * будет размером из "линейки масштабов". */
 
   if (allocated_units + wanna_units >= UINT16_MAX ||
+      pimpl_->index_size() + wanna.index_space > fundamentals::max_fields ||
       junk_units + junk_units > allocated_units) {
     /* Без компактификации расширение на запрошенное место превысит предел
      * размера кортежа.
-- 
2.43.0


From c94eafb0e11e8b972887a2ce67befa14b3491cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:28 +0000
Subject: [PATCH 17/51] fix: audit doesn't look beyond of a malformed tuple

---
 src/audit.cxx | 37 ++++++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/src/audit.cxx b/src/audit.cxx
index 9b6c70c..84913f2 100644
--- a/src/audit.cxx
+++ b/src/audit.cxx
@@ -88,7 +88,6 @@ public:
   auditor(onstack_allocation_arena &area, std::size_t limit)
       : map_(area), holes_count_(0), holes_volume_(0) {
     static_assert(sizeof(interval) == 2 * sizeof(offset), "WTF?");
-    FPTU_ENSURE(limit <= fptu::max_fields);
     map_.reserve(limit);
   }
 
@@ -97,6 +96,10 @@ public:
                           const unit_t *begin_payload,
                           const unit_t *end_payload);
 
+  const char *check_stretchy(const genus type, const relative_payload *payload,
+                             const unit_t *begin_payload,
+                             const unit_t *end_payload);
+
   const char *check_loose(const field_loose *loose, const unit_t *begin_payload,
                           const unit_t *end_payload);
 };
@@ -188,6 +191,22 @@ const char *auditor::check_chunk(const unit_t *chunk_begin,
   return nullptr;
 }
 
+const char *auditor::check_stretchy(const genus type,
+                                    const relative_payload *payload,
+                                    const unit_t *begin_payload,
+                                    const unit_t *end_payload) {
+  /* the first unit holds the length, so it should be checked before reading */
+  if (unlikely(payload->flat < begin_payload || payload->flat >= end_payload))
+    return AUDIT_FAILURE("stretchy field is beyond of tuple's payload");
+  const std::size_t units = payload->stretchy.brutto_units(type);
+  if (unlikely(units < 1))
+    return AUDIT_FAILURE("stretchy field has zero length");
+  if (type == genus::varbin && units == 1 &&
+      unlikely((payload->stretchy.varbin.reserved14_tailbytes & 3) != 0))
+    return AUDIT_FAILURE("length of varbinary field is invalid");
+  return check_chunk(payload->flat, units, begin_payload, end_payload);
+}
+
 const char *auditor::check_loose(const field_loose *loose,
                                  const unit_t *begin_payload,
                                  const unit_t *end_payload) {
@@ -226,9 +245,8 @@ const char *auditor::check_loose(const field_loose *loose,
 
   /* stretchy */
   if (loose->relative.have_payload())
-    return check_chunk(loose->relative.payload()->flat,
-                       loose->relative.payload()->stretchy.brutto_units(type),
-                       begin_payload, end_payload);
+    return check_stretchy(type, loose->relative.payload(), begin_payload,
+                          end_payload);
   return nullptr;
 }
 } // namespace
@@ -294,10 +312,9 @@ __hot const char *audit_tuple(const fptu::schema *const schema,
 
       if (!target->relative.have_payload())
         continue;
-      const auto payload = target->relative.payload();
-      trouble = validator.check_chunk(
-          payload->flat, payload->stretchy.brutto_units(field_token.type()),
-          payload_begin, payload_end);
+      trouble = validator.check_stretchy(field_token.type(),
+                                         target->relative.payload(),
+                                         payload_begin, payload_end);
       if (unlikely(trouble))
         return AUDIT_FAILURE(trouble);
     }
@@ -346,7 +363,9 @@ __hot const char *audit_tuple(const fptu::schema *const schema,
           return AUDIT_FAILURE("tuple have unmerged adjacent holes");
       }
     }
-  }
+  } else if (unlikely(payload_begin + bytes2units(preplaced_bytes) !=
+                      payload_end))
+    return AUDIT_FAILURE("lose space at the end of tuple");
 
   if ((flags & audit_flags::audit_tuple_sorted_loose) != 0 &&
       !std::is_sorted(index_begin, index_end,
-- 
2.43.0


From f71cbbd3df34656099cd8e0bf6668e7a6260b0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:39 +0000
Subject: [PATCH 18/51] fix: insert datetime values into 32-bit collections

---
 src/rw.cxx | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/rw.cxx b/src/rw.cxx
index d758167..a77f0b4 100644
--- a/src/rw.cxx
+++ b/src/rw.cxx
@@ -226,7 +226,6 @@ HERE_GENUS_CASE(uint64_t, u64, u64)
 HERE_GENUS_CASE(float, f32, f32)
 HERE_GENUS_CASE(double, f64, f64)
 HERE_GENUS_CASE(decimal64, decimal, d64)
-HERE_GENUS_CASE(datetime_t, datetime, t64)
 HERE_GENUS_CASE(binary96_t &, bin96, bin96)
 HERE_GENUS_CASE(binary128_t &, bin128, bin128)
 HERE_GENUS_CASE(binary160_t &, bin160, bin160)
@@ -241,6 +240,15 @@ HERE_GENUS_CASE(mac_address_t, mac_address, mac)
 HERE_GENUS_CASE(ip_net_t &, ip_net, ipnet)
 #undef HERE_GENUS_CASE
 
+FPTU_API dynamic_collection_iterator_rw
+tuple_rw::insert_datetime(const token &ident, const datetime_t value) {
+  field_loose *field =
+      unlikely(ident.type() == genus::t32)
+          ? append_field<token, genus::t32>(value.utc_seconds(), ident)
+          : append_field<token, genus::t64>(value, ident);
+  return dynamic_collection_iterator_rw(this, field, ident);
+}
+
 FPTU_API dynamic_collection_iterator_rw
 tuple_rw::insert_uuid(const token &ident, const uuid_t &value) {
   field_loose *field = append_field<token, genus::bin128>(value.bin128, ident);
-- 
2.43.0


From e2ae77eb983baabc06715f22275e154de56daa15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:39 +0000
Subject: [PATCH 19/51] fix: upsert of nested tuples through the legacy API

---
 src/compat_rw.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compat_rw.cxx b/src/compat_rw.cxx
index 790afc6..b2d84b1 100644
--- a/src/compat_rw.cxx
+++ b/src/compat_rw.cxx
@@ -335,7 +335,7 @@ fptu_error fptu_upsert_opaque_iov(fptu_rw *pt, unsigned column,
 fptu_error fptu_upsert_nested(fptu_rw *pt, unsigned column,
                               fptu_ro ro) cxx11_noexcept {
   try {
-    const fptu::token id(fptu::genus::varbin, column, false, true, false);
+    const fptu::token id(fptu::genus::nested, column, false, true, false);
     pt->set_nested(id, fptu::details::tuple_ro::make_from_buffer(
                            ro.sys.iov_base, ro.sys.iov_len, nullptr, false));
     return FPTU_OK;
-- 
2.43.0


From c689c226935c7b194e50083c59990d93b4dcd0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:02 +0000
Subject: [PATCH 20/51] fix: size in bytes and begin of the value from
 fptu_field_as_iovec()

---
 src/compat_field.cxx | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/compat_field.cxx b/src/compat_field.cxx
index 84b498c..8fdd5a4 100644
--- a/src/compat_field.cxx
+++ b/src/compat_field.cxx
@@ -41,15 +41,28 @@ struct iovec fptu_field_as_iovec(const fptu_field *pf) cxx11_noexcept {
   if (likely(pf)) {
     const auto type = pf->type();
     if (fptu::details::is_inplaced(type))
-      return fptu::iovec(&pf->inplaced, fptu::details::loose_units(type));
+      return fptu::iovec(&pf->inplaced,
+                         fptu::details::preplaced_bytes_dynamic(type));
 
-    if (fptu::details::is_fixed_size(type))
-      return fptu::iovec(pf->relative.payload(),
-                         fptu::details::loose_units(type));
+    if (type == fptu::genus::hole || !pf->relative.have_payload())
+      return fptu::iovec(nullptr, 0);
 
-    if (pf->relative.have_payload())
-      return fptu::iovec(pf->relative.payload(),
-                         pf->relative.payload()->stretchy.length(type));
+    const auto payload = pf->relative.payload();
+    if (fptu::details::is_fixed_size(type))
+      return fptu::iovec(
+          payload, fptu::details::units2bytes(
+                       fptu::details::loose_units_dynamic(type)));
+
+    switch (type) {
+    case fptu::genus::text:
+      return fptu::iovec(payload->stretchy.string.begin(),
+                         payload->stretchy.string.length());
+    case fptu::genus::varbin:
+      return fptu::iovec(payload->stretchy.varbin.begin(),
+                         payload->stretchy.varbin.length());
+    default:
+      return fptu::iovec(payload, payload->stretchy.length(type));
+    }
   }
   return fptu::iovec(nullptr, 0);
 }
-- 
2.43.0


From 3aeb6d074a94c2fa78ef75dd66ee79b38d477aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:02 +0000
Subject: [PATCH 21/51] fix: don't look for a payload of empty strings in
 fptu_field_cstr()

---
 src/compat_field.cxx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/compat_field.cxx b/src/compat_field.cxx
index 8fdd5a4..485ef10 100644
--- a/src/compat_field.cxx
+++ b/src/compat_field.cxx
@@ -136,12 +136,15 @@ const char *fptu_field_cstr(const fptu_field *pf) cxx11_noexcept {
   error_guard raii(nullptr);
   if (likely(pf)) {
     try {
+      const fptu::string_view value =
+          fptu::details::get<fptu::genus::text>(pf, true);
+      if (value.empty())
+        return FPTU_DENIL_CSTR;
       const auto payload = pf->relative.payload();
       const char *const field_end =
           erthink::constexpr_pointer_cast<const char *>(
               payload->flat + payload->stretchy.string.brutto_units());
-      return string_view_to_CAPI(
-          fptu::details::get<fptu::genus::text>(pf, true), field_end);
+      return string_view_to_CAPI(value, field_end);
     } catch (const std::exception &e) {
       raii.feed(e);
     }
-- 
2.43.0


From db97cc7f01e68731a7dc14e40f0c740665d93cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:02 +0000
Subject: [PATCH 22/51] fix: report success from fptu_get_cstr()

---
 src/compat_ro.cxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/compat_ro.cxx b/src/compat_ro.cxx
index 304f300..ca004fe 100644
--- a/src/compat_ro.cxx
+++ b/src/compat_ro.cxx
@@ -125,8 +125,11 @@ FPTU_GET_IMPL(256)
 const char *fptu_get_cstr(fptu_ro ro, unsigned column,
                           int *error) cxx11_noexcept {
   const fptu_field *pf = fptu::lookup(ro, column, fptu_cstr);
-  if (pf)
+  if (pf) {
+    if (error)
+      *error = FPTU_OK;
     return fptu_field_cstr(pf);
+  }
   fptu_set_error(FPTU_ENOFIELD, "fptu: no such field");
   if (error)
     *error = FPTU_ENOFIELD;
-- 
2.43.0


From f0a5026e84429db3f835f296ab1c433c1096b6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:42 +0000
Subject: [PATCH 23/51] fix: account holes of a tuple while fetching or cloning
 it

---
 fast_positive/tuples/details/ro.h |  1 +
 src/audit.cxx                     | 13 +++++++++++++
 src/compat_rw.cxx                 |  2 +-
 src/managed.cxx                   | 18 ++++++++----------
 4 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/fast_positive/tuples/details/ro.h b/fast_positive/tuples/details/ro.h
index ef5cf18..7ca4aab 100644
--- a/fast_positive/tuples/details/ro.h
+++ b/fast_positive/tuples/details/ro.h
@@ -539,6 +539,7 @@ class FPTU_API_TYPE tuple_ro : private stretchy_value_tuple,
 public:
   static const char *lite_checkup(const void *ptr,
                                   std::size_t bytes) cxx11_noexcept;
+  audit_holes_info count_holes() const cxx11_noexcept;
   static const char *audit(const void *ptr, std::size_t bytes,
                            const fptu::schema *schema, audit_holes_info &);
   static const char *audit(const void *ptr, std::size_t bytes,
diff --git a/src/audit.cxx b/src/audit.cxx
index 84913f2..8276263 100644
--- a/src/audit.cxx
+++ b/src/audit.cxx
@@ -428,6 +428,19 @@ __hot const char *tuple_ro::audit(const void *ptr, std::size_t bytes,
                      self->end_data_bytes(), flags, holes_info);
 }
 
+__hot audit_holes_info tuple_ro::count_holes() const cxx11_noexcept {
+  audit_holes_info holes_info = {0, 0};
+  for (const field_loose *loose = begin_index(); loose < end_index(); ++loose) {
+    if (!loose->is_hole())
+      continue;
+    holes_info.count += 1;
+    if (loose->relative.have_payload() &&
+        loose->hole_begin() < end_data_units())
+      holes_info.volume += uint16_t(loose->hole_get_units());
+  }
+  return holes_info;
+}
+
 __hot const char *tuple_rw::audit(const tuple_rw *self) cxx11_noexcept {
   if (!self)
     return AUDIT_FAILURE("hollow tuple (nullptr)");
diff --git a/src/compat_rw.cxx b/src/compat_rw.cxx
index b2d84b1..db6af06 100644
--- a/src/compat_rw.cxx
+++ b/src/compat_rw.cxx
@@ -149,7 +149,7 @@ fptu_rw *fptu_fetch(fptu_ro ro, void *buffer_space, std::size_t buffer_bytes,
         static_cast<const fptu::details::tuple_ro *>(ro.sys.iov_base);
 
     const auto tuple_rw = fptu::details::tuple_rw::fetch_legacy(
-        {0, 0}, tuple_ro, buffer_space, buffer_bytes, more_items);
+        tuple_ro->count_holes(), tuple_ro, buffer_space, buffer_bytes, more_items);
     return static_cast<fptu_rw *>(tuple_rw);
   } catch (const std::exception &e) {
     fptu_set_error(e);
diff --git a/src/managed.cxx b/src/managed.cxx
index 928b566..11fef9b 100644
--- a/src/managed.cxx
+++ b/src/managed.cxx
@@ -452,11 +452,10 @@ tuple_ro_managed tuple_ro_managed::clone(const tuple_ro_weak &src,
    *    в R/W-форму.
    *
    * Итоговое решение:
-   *   - Если схема не задана (по-умолчанию), то опорный экземпляр
-   *     details::tuple_rw создается без схемы и без проверки данных.
-   *   - Иначе, если схема задана, то выполняется полная (возможно повторная)
-   *     проверка данных (в том числе на соответствие схеме), а опорный
-   *     экземпляр details::tuple_rw создается со схемой. */
+   *   - Если явно не запрошено обратное, то выполняется полная (возможно
+   *     повторная) проверка данных (в том числе на соответствие схеме).
+   *   - Опорный экземпляр details::tuple_rw создается с заданной схемой,
+   *     либо без неё. */
 
   if (unlikely(!src)) {
     /* если источник пуст */
@@ -467,16 +466,15 @@ tuple_ro_managed tuple_ro_managed::clone(const tuple_ro_weak &src,
 
   const bool wanna_validation = apply_validation_mode(
       validation,
-      /* если схема не задана, то считаем что необходимые проверки были
-         сделаны при создании tuple_ro_weak, иначе выполняем повторную
-         проверку для исключения несоответствия схеме */
-      schema == nullptr);
+      /* по-умолчанию выполняем проверку для исключения несоответствия схеме,
+         в том числе когда схема не задана, но требуется */
+      true);
   if (wanna_validation)
     return tuple_ro_managed(tuple_rw_fixed(
         src.data(), src.size(),
         /* more_items */ 0, /* more_payload */ 0, schema, allot_tag));
 
-  const details::audit_holes_info &holes_info = {0, 0};
+  const details::audit_holes_info holes_info = src.pimpl_->count_holes();
   return tuple_ro_managed(tuple_rw_fixed(
       holes_info, src,
       /* more_items */ 0, /* more_payload */ 0, schema, allot_tag));
-- 
2.43.0


From 06f9c37bb9f1468cebd2f85bfdeaaf0c564289c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:42 +0000
Subject: [PATCH 24/51] fix: dont_optimize option of taking read-only forms was
 inverted

---
 fast_positive/tuples.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/fast_positive/tuples.h b/fast_positive/tuples.h
index 6f85a16..a10c82c 100644
--- a/fast_positive/tuples.h
+++ b/fast_positive/tuples.h
@@ -850,8 +850,8 @@ public:
 
   /* возвращает пару, во втором элементе признак инвалидации итераторов */
   std::pair<tuple_ro_weak, bool> take_weak(bool dont_optimize = false) {
-    return dont_optimize ? take_weak_optimized()
-                         : std::make_pair(take_weak_asis(), false);
+    return dont_optimize ? std::make_pair(take_weak_asis(), false)
+                         : take_weak_optimized();
   }
 
   tuple_ro_managed move_to_ro(bool dont_optimize = false) {
@@ -887,10 +887,9 @@ public:
       bool dont_optimize = false, bool hollow_if_empty = false,
       const hippeus::buffer_tag &allot_tag = default_buffer_allot()) {
     return dont_optimize
-               ? take_managed_clone_optimized(hollow_if_empty, allot_tag)
-               : std::make_pair(
-                     take_managed_clone_asis(hollow_if_empty, allot_tag),
-                     false);
+               ? std::make_pair(
+                     take_managed_clone_asis(hollow_if_empty, allot_tag), false)
+               : take_managed_clone_optimized(hollow_if_empty, allot_tag);
   }
 
   __pure_function static cxx11_constexpr size_t estimate_required_space(
-- 
2.43.0


From 68f13390c3fe2335e018a955e3b77368f606c31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:29 +0000
Subject: [PATCH 25/51] fix: place imported preplaced fields at their own
 offsets

---
 src/schema.cxx | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/schema.cxx b/src/schema.cxx
index e1b30cf..92554c1 100644
--- a/src/schema.cxx
+++ b/src/schema.cxx
@@ -148,8 +148,9 @@ void schema_impl::add_definition(std::string &&name, const token &ident,
         throw_schema_definition_error(
             "preplaced field is overlapped by another");
     }
-    preplaced_image_.reserve(ident.preplaced_offset() + ident.preplaced_size() -
-                             preplaced_image_.size());
+    preplaced_image_.reserve(
+        std::max(preplaced_image_.size(),
+                 size_t(ident.preplaced_offset() + ident.preplaced_size())));
   }
   sorted_tokens_.reserve(sorted_tokens_.size() + 1);
   name2token_.reserve(name2token_.size() + 1);
@@ -157,14 +158,17 @@ void schema_impl::add_definition(std::string &&name, const token &ident,
 
   try {
     if (ident.is_preplaced()) {
-      if (ident.preplaced_offset() > ptrdiff_t(preplaced_image_.size()))
-        preplaced_image_.append(
-            ident.preplaced_offset() - preplaced_image_.size(), '\0');
+      /* импортируемое поле может размещаться в зазоре между другими */
+      const std::size_t offset_end =
+          ident.preplaced_offset() + ident.preplaced_size();
+      if (offset_end > preplaced_image_.size())
+        preplaced_image_.append(offset_end - preplaced_image_.size(), '\0');
       if (initial_value)
-        preplaced_image_.append(static_cast<const char *>(initial_value),
-                                ident.preplaced_size());
+        preplaced_image_.replace(ident.preplaced_offset(),
+                                 ident.preplaced_size(),
+                                 static_cast<const char *>(initial_value),
+                                 ident.preplaced_size());
       else {
-        preplaced_image_.append(ident.preplaced_size(), '\0');
         const auto initial_value_ptr =
             erthink::constexpr_pointer_cast<details::field_preplaced *>(
                 const_cast<char *>(preplaced_image_.data()) +
-- 
2.43.0


From 6cce31b79822c60714435055b80ca6db42fcbffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:17 +0000
Subject: [PATCH 26/51] fix: return 128-bit integers by value

---
 fast_positive/tuples.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fast_positive/tuples.h b/fast_positive/tuples.h
index a10c82c..415774f 100644
--- a/fast_positive/tuples.h
+++ b/fast_positive/tuples.h
@@ -270,8 +270,8 @@ public:
   HERE_CRTP_MAKE(decimal64, get_decimal)
   HERE_CRTP_MAKE(datetime_t, get_datetime)
   HERE_CRTP_MAKE(const uuid_t &, get_uuid)
-  HERE_CRTP_MAKE(const int128_t &, get_int128)
-  HERE_CRTP_MAKE(const uint128_t &, get_uint128)
+  HERE_CRTP_MAKE(int128_t, get_int128)
+  HERE_CRTP_MAKE(uint128_t, get_uint128)
   HERE_CRTP_MAKE(const binary96_t &, get_bin96)
   HERE_CRTP_MAKE(const binary128_t &, get_bin128)
   HERE_CRTP_MAKE(const binary160_t &, get_bin160)
@@ -636,8 +636,8 @@ public:
   HERE_CRTP_MAKE(decimal64, get_decimal)
   HERE_CRTP_MAKE(datetime_t, get_datetime)
   HERE_CRTP_MAKE(const uuid_t &, get_uuid)
-  HERE_CRTP_MAKE(const int128_t &, get_int128)
-  HERE_CRTP_MAKE(const uint128_t &, get_uint128)
+  HERE_CRTP_MAKE(int128_t, get_int128)
+  HERE_CRTP_MAKE(uint128_t, get_uint128)
   HERE_CRTP_MAKE(const binary96_t &, get_bin96)
   HERE_CRTP_MAKE(const binary128_t &, get_bin128)
   HERE_CRTP_MAKE(const binary160_t &, get_bin160)
-- 
2.43.0


From e493b66b843de86c3e9f32a5c25212c085dc01fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:52 +0000
Subject: [PATCH 27/51] fix: don't read beyond of an initial value of
 ip-network fields

---
 src/schema.cxx | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/schema.cxx b/src/schema.cxx
index 92554c1..acb64ad 100644
--- a/src/schema.cxx
+++ b/src/schema.cxx
@@ -163,12 +163,15 @@ void schema_impl::add_definition(std::string &&name, const token &ident,
           ident.preplaced_offset() + ident.preplaced_size();
       if (offset_end > preplaced_image_.size())
         preplaced_image_.append(offset_end - preplaced_image_.size(), '\0');
-      if (initial_value)
-        preplaced_image_.replace(ident.preplaced_offset(),
-                                 ident.preplaced_size(),
+      if (initial_value) {
+        /* размер значения может быть меньше отведенного под него места */
+        const std::size_t value_size = (ident.type() == genus::ipnet)
+                                           ? sizeof(ip_net_t)
+                                           : ident.preplaced_size();
+        preplaced_image_.replace(ident.preplaced_offset(), value_size,
                                  static_cast<const char *>(initial_value),
-                                 ident.preplaced_size());
-      else {
+                                 value_size);
+      } else {
         const auto initial_value_ptr =
             erthink::constexpr_pointer_cast<details::field_preplaced *>(
                 const_cast<char *>(preplaced_image_.data()) +
-- 
2.43.0


From 280f4ac77c51b08afe449ce5695bda9081914921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:51 +0000
Subject: [PATCH 28/51] fix: let tuples with preplaced fields grow up to the
 limit

---
 src/autogrowth.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/autogrowth.cxx b/src/autogrowth.cxx
index 6e448fe..82e0c04 100644
--- a/src/autogrowth.cxx
+++ b/src/autogrowth.cxx
@@ -119,7 +119,8 @@ void tuple_rw_managed::manage_space_deficit(const insufficient_space &wanna) {
    * Поэтому, с учетом перехода на следующий уровень масштаба, место под данные
    * скорее всего будет выделено примерно в четверо больше. */
   const size_t growth_data = std::min(
-      size_t(fundamentals::max_tuple_bytes_netto),
+      size_t(fundamentals::max_tuple_bytes_netto) -
+          (pimpl_->schema_ ? pimpl_->schema_->preplaced_bytes() : 0),
       (wanna.data_space > pimpl_->tail_space_units())
           ? details::units2bytes((wanna.data_space + data_capacity_units) * 2)
           : details::units2bytes(data_capacity_units + 42));
-- 
2.43.0


From 19e18ac817a0e1d2e2e35a8ad6d814eeb92e2321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:15 +0000
Subject: [PATCH 29/51] fix: don't miss loose fields while looking them up in a
 schema

---
 src/schema.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/schema.cxx b/src/schema.cxx
index acb64ad..277aec4 100644
--- a/src/schema.cxx
+++ b/src/schema.cxx
@@ -439,6 +439,10 @@ schema::by_loose(const details::field_loose *field) const cxx11_noexcept {
       ++iter;
       __fallthrough /* fall through */;
     case 0:
+      /* искомый элемент мог остаться сразу за границей интервала */
+      if (iter != sorted_tokens_.end() &&
+          details::tag2genus_and_id(iter->tag()) == field->genus_and_id)
+        return *iter;
       break;
     default:
       assert(false);
-- 
2.43.0


From ad142fb7815281e7cc02b5c1ab5b748ef251769e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:31 +0000
Subject: [PATCH 30/51] fix: define the growing tuple's number setters and
 inserters

tuple_rw_managed declares set_number/insert_number for six types but
src/autogrowth.cxx never defined them, so any use failed to link.
---
 src/autogrowth.cxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/autogrowth.cxx b/src/autogrowth.cxx
index 82e0c04..704d6a4 100644
--- a/src/autogrowth.cxx
+++ b/src/autogrowth.cxx
@@ -271,6 +271,12 @@ HERE_THUNK_MAKE(uint64_t, integer)
 HERE_THUNK_MAKE(int64_t, unsigned)
 HERE_THUNK_MAKE(uint64_t, unsigned)
 HERE_THUNK_MAKE(double, float)
+HERE_THUNK_MAKE(int32_t, number)
+HERE_THUNK_MAKE(uint32_t, number)
+HERE_THUNK_MAKE(int64_t, number)
+HERE_THUNK_MAKE(uint64_t, number)
+HERE_THUNK_MAKE(float, number)
+HERE_THUNK_MAKE(double, number)
 #undef HERE_THUNK_MAKE
 
 bool tuple_rw_managed::erase(const dynamic_collection_iterator_rw &it) {
-- 
2.43.0


From 875b759509167b3a67abb3a8f5a6760827624287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:36 +0000
Subject: [PATCH 31/51] fix: report released fields by a negative column, as
 documented

---
 src/compat_field.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compat_field.cxx b/src/compat_field.cxx
index 485ef10..db738ca 100644
--- a/src/compat_field.cxx
+++ b/src/compat_field.cxx
@@ -27,7 +27,7 @@ fptu_type fptu_field_type(const fptu_field *pf) cxx11_noexcept {
   return pf ? pf->legacy_type() : fptu_null;
 }
 int fptu_field_column(const fptu_field *pf) cxx11_noexcept {
-  return pf ? pf->colnum() : -1;
+  return fptu_field_is_dead(pf) ? -1 : int(pf->colnum());
 }
 
 void fptu_erase_field(fptu_rw *pt, fptu_field *pf) cxx11_noexcept {
-- 
2.43.0


From a1fc5e598d8b90aca4bad02cae09d88bb3b090e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:36 +0000
Subject: [PATCH 32/51] fix: fptu_get_buffer_size() must not terminate on
 excessive requests

The function is noexcept, but the estimation throws when the requested
reserve exceeds the limits.
---
 src/compat_rw.cxx | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/compat_rw.cxx b/src/compat_rw.cxx
index db6af06..baf47ee 100644
--- a/src/compat_rw.cxx
+++ b/src/compat_rw.cxx
@@ -161,8 +161,13 @@ size_t fptu_get_buffer_size(fptu_ro ro, unsigned more_items,
                             unsigned more_payload) cxx11_noexcept {
   const fptu::details::tuple_ro *tuple_ro =
       static_cast<const fptu::details::tuple_ro *>(ro.sys.iov_base);
-  return fptu::details::tuple_rw::estimate_required_space(
-      tuple_ro, more_items, more_payload, nullptr);
+  try {
+    return fptu::details::tuple_rw::estimate_required_space(
+        tuple_ro, more_items, more_payload, nullptr);
+  } catch (const std::exception &e) {
+    fptu_set_error(e);
+    return 0;
+  }
 }
 
 static const char cbfs_ok_sign[] = "FPTU_SUCCESS";
-- 
2.43.0


From 036874054c93f1c09ac4513d17bbfd00542e28c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:53 +0000
Subject: [PATCH 33/51] fix: fptu_insert_{96,128,160,256}() must not lose zero
 values

---
 src/compat_rw.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compat_rw.cxx b/src/compat_rw.cxx
index baf47ee..b73df0b 100644
--- a/src/compat_rw.cxx
+++ b/src/compat_rw.cxx
@@ -378,7 +378,7 @@ FPTU_INSERT_IMPL(datetime, datetime, t64, fptu_datetime_t)
   fptu_error fptu_insert_##BITS(fptu_rw *pt, unsigned column,                  \
                                 const void *data) cxx11_noexcept {             \
     try {                                                                      \
-      const fptu::token id(fptu::genus::bin##BITS, column, true);              \
+      const fptu::token id(fptu::genus::bin##BITS, column, true, true, false); \
       pt->insert_bin##BITS(                                                    \
           id,                                                                  \
           *erthink::constexpr_pointer_cast<const fptu::binary##BITS##_t *>(    \
-- 
2.43.0


From 9c29f3dd372d9b863e8b963aaf8c9e8b4af15a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:29 +0000
Subject: [PATCH 34/51] fix: lookup of a column beyond the limit must not match
 a field of another type

---
 src/compat_common.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/compat_common.cxx b/src/compat_common.cxx
index cc26ddb..dac5468 100644
--- a/src/compat_common.cxx
+++ b/src/compat_common.cxx
@@ -77,6 +77,8 @@ __hot const fptu_field *
 fptu_first(const fptu_field *begin, const fptu_field *end, unsigned column,
            fptu_type_or_filter type_or_filter) cxx11_noexcept {
   if (!is_filter(type_or_filter)) {
+    if (unlikely(column > fptu_max_cols))
+      return end;
     const fptu_field *pf =
         static_cast<const fptu_field *>(fptu::details::lookup(
             false, begin, end, colid2tag(type_or_filter, column)));
-- 
2.43.0


From 26eb477a0a82cda408dad2ab1f2b607d459ea1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:32 +0000
Subject: [PATCH 35/51] fix: refuse too short buffers before writing to them

---
 src/rw.cxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/rw.cxx b/src/rw.cxx
index a77f0b4..c4b4f42 100644
--- a/src/rw.cxx
+++ b/src/rw.cxx
@@ -697,6 +697,8 @@ tuple_rw *tuple_rw::create_new(std::size_t items_limit, std::size_t data_bytes,
 
 tuple_rw *tuple_rw::create_legacy(void *buffer_space, std::size_t buffer_size,
                                   std::size_t items_limit) {
+  if (unlikely(buffer_size < pure_tuple_size()))
+    throw_invalid_argument();
   return new (buffer_space) tuple_rw(0, buffer_size, items_limit, nullptr);
 }
 
@@ -787,6 +789,9 @@ tuple_rw *tuple_rw::fetch_legacy(const audit_holes_info &holes_info,
                                  std::size_t buffer_size,
                                  std::size_t more_items) {
   assert(ro->audit(nullptr, holes_info.count == 0) == nullptr);
+  if (unlikely(buffer_size < pure_tuple_size()))
+    throw_insufficient_space(ro->index_size() + more_items,
+                             pure_tuple_size());
   return new (buffer_space)
       tuple_rw(holes_info, ro, 0, buffer_size, more_items, nullptr);
 }
-- 
2.43.0


From adc975f09ab4f5b7ce00f5c6a70db39fb1ced87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:01 +0000
Subject: [PATCH 36/51] fix: let the extreme scale work with preplaced fields

---
 src/managed.cxx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/managed.cxx b/src/managed.cxx
index 11fef9b..40d6665 100644
--- a/src/managed.cxx
+++ b/src/managed.cxx
@@ -72,8 +72,12 @@ tuple_rw_fixed::tuple_rw_fixed(const initiation_scale scale)
 tuple_rw_fixed::tuple_rw_fixed(const initiation_scale scale,
                                const fptu::schema *schema,
                                const hippeus::buffer_tag &allot_tag)
-    : tuple_rw_fixed(scale2items[scale], scale2bytes[scale], schema,
-                     allot_tag) {}
+    : tuple_rw_fixed(scale2items[scale],
+                     /* preplaced-поля также занимают место в пределах лимита */
+                     std::min(size_t(scale2bytes[scale]),
+                              max_tuple_bytes_netto -
+                                  (schema ? schema->preplaced_bytes() : 0)),
+                     schema, allot_tag) {}
 tuple_rw_fixed::tuple_rw_fixed(std::size_t items_limit, std::size_t data_bytes,
                                const fptu::schema *schema,
                                const hippeus::buffer_tag &allot_tag)
-- 
2.43.0


From 7dc2e7664759f00b49b4dc5f5918dd4e5ec096dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:58 +0000
Subject: [PATCH 37/51] fix: don't account preplaced fields twice while
 checking the limit for a copy

---
 fast_positive/tuples/details/rw.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fast_positive/tuples/details/rw.h b/fast_positive/tuples/details/rw.h
index 7deafe3..6cea3cb 100644
--- a/fast_positive/tuples/details/rw.h
+++ b/fast_positive/tuples/details/rw.h
@@ -1158,8 +1158,9 @@ public: //----------------------------------------------------------------------
     const std::size_t preplaced_bytes = schema ? schema->preplaced_bytes() : 0;
     if (unlikely(preplaced_bytes > fundamentals::max_tuple_bytes_netto))
       throw_invalid_schema();
-    if (unlikely(data_bytes >
-                     fundamentals::max_tuple_bytes_netto - preplaced_bytes ||
+    if (unlikely(data_bytes > fundamentals::max_tuple_bytes_netto -
+                                  (dont_account_preplaced ? 0
+                                                          : preplaced_bytes) ||
                  items > fundamentals::max_fields))
       throw_tuple_too_large();
 
-- 
2.43.0


From 9be06a30ea4055e43a716584d7ac9aef3df58501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:55 +0000
Subject: [PATCH 38/51] fix: make the AVX scan independent of DAZ mode and stay
 within the index

---
 src/scan_AVX.cxx | 36 ++++++++++++++++--------------------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/src/scan_AVX.cxx b/src/scan_AVX.cxx
index 55c768b..1a0163c 100644
--- a/src/scan_AVX.cxx
+++ b/src/scan_AVX.cxx
@@ -33,22 +33,25 @@ namespace fptu {
 namespace details {
 
 #if __SANITIZE_ADDRESS__
-static __m256i __attribute__((no_sanitize_address, noinline))
-bypass_asan_read_m256(const void *src) {
-  return _mm256_loadu_si256((const __m256i *)src);
+static __m128i __attribute__((no_sanitize_address, noinline))
+bypass_asan_read_m128(const void *src) {
+  return _mm_loadu_si128((const __m128i *)src);
 }
-#define _mm256_loadu_si256(ptr) bypass_asan_read_m256(ptr)
+#define _mm_loadu_si128(ptr) bypass_asan_read_m128(ptr)
 #endif
 
-static __always_inline unsigned cmp2mask(const __m256 pattern,
+/* LY: There is no 256-bit integer comparison before AVX2, and a comparison of
+ * integers as floats depends on the DAZ mode since all of these are denormals.
+ * So just use a pair of 128-bit ones. */
+static __always_inline unsigned cmp2mask(const __m128i pattern,
                                          const field_loose *scan) {
-  const char *ptr = (const char *)scan + 2;
-  const __m256 even = _mm256_castsi256_ps(_mm256_set1_epi32(0x0000ffffu));
-  return _mm256_movemask_ps(_mm256_cmp_ps(
-      pattern,
-      _mm256_and_ps(
-          even, _mm256_castsi256_ps(_mm256_loadu_si256((const __m256i *)ptr))),
-      _CMP_EQ_OQ));
+  const __m128i lo = _mm_loadu_si128((const __m128i *)scan);
+  const __m128i hi = _mm_loadu_si128((const __m128i *)(scan + 4));
+  return _mm_movemask_ps(_mm_castsi128_ps(
+             _mm_cmpeq_epi32(pattern, _mm_srli_epi32(lo, 16)))) |
+         _mm_movemask_ps(_mm_castsi128_ps(
+             _mm_cmpeq_epi32(pattern, _mm_srli_epi32(hi, 16))))
+             << 4;
 }
 
 static __always_inline bool mask2ptr(unsigned mask, const field_loose *&ptr) {
@@ -80,14 +83,7 @@ __hot const field_loose *fptu_scan_AVX(const field_loose *begin,
   const ptrdiff_t bytes = (char *)end - (char *)begin;
   assert(bytes % 4 == 0);
 
-  const __m256 pattern =
-#if 1 /* LY: avoid store to temporary on the stack */
-      _mm256_permute2f128_ps(_mm256_castps128_ps256(_mm_castsi128_ps(
-                                 _mm_set1_epi32(genus_and_id))),
-                             _mm256_undefined_ps(), 0);
-#else
-      _mm256_castsi256_ps(_mm256_set1_epi32(genus_and_id));
-#endif
+  const __m128i pattern = _mm_set1_epi32(genus_and_id);
   const field_loose *scan = begin;
 
   if (unlikely(bytes < 8 * 4)) {
-- 
2.43.0


From 1960debdcfe76ae578dff1eb6b074c362ef7ff8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:14 +0000
Subject: [PATCH 39/51] fix: don't look up the size of an invalid type before
 rejecting it

---
 fast_positive/tuples/token.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fast_positive/tuples/token.h b/fast_positive/tuples/token.h
index a12d73c..ec9e5c2 100644
--- a/fast_positive/tuples/token.h
+++ b/fast_positive/tuples/token.h
@@ -400,7 +400,8 @@ public:
                         const bool saturated = false)
       : base(details::tag_from_offset(
             validate_preplaced_offset(offset), validate_preplaced_type(type),
-            details::preplaced_bytes(type), discernible_null, saturated)) {}
+            details::preplaced_bytes(validate_preplaced_type(type)),
+            discernible_null, saturated)) {}
   cxx11_constexpr token(const token &) cxx11_noexcept = default;
   cxx11_constexpr
   token(const details::token_nonstatic_tag &other) cxx11_noexcept
-- 
2.43.0


From bed7d0f5128836ad837df326f29e8cc2cfb23aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:52 +0000
Subject: [PATCH 40/51] fix: refuse to import a definition by an invalid token

The name got defined, but looking it up reported "no such field".
---
 src/schema.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/schema.cxx b/src/schema.cxx
index 277aec4..a783cd5 100644
--- a/src/schema.cxx
+++ b/src/schema.cxx
@@ -277,6 +277,9 @@ token schema_impl::define_loose(std::string &&name, fptu::genus type,
 token schema_impl::import_definition(std::string &&name, const token &ident,
                                      const void *initial_value,
                                      const bool renominate) {
+  if (unlikely(!ident.is_valid()))
+    throw_invalid_argument("invalid token");
+
   if (!renominate) {
     add_definition(std::move(name), ident, initial_value);
     return ident;
-- 
2.43.0


From 7a3079835c59da74c632f7771f9da54faeccc53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:52 +0000
Subject: [PATCH 41/51] fix: lookups by offsets beyond the limit of places

The last preplaced field may end beyond of the 14 bits an offset has in a
tag, so prev_by_offset() missed it and next_by_offset() gave the first one.
---
 src/schema.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/schema.cxx b/src/schema.cxx
index a783cd5..a8b7e3f 100644
--- a/src/schema.cxx
+++ b/src/schema.cxx
@@ -349,6 +349,10 @@ schema::search_preplaced(const ptrdiff_t offset) const cxx11_noexcept {
   size_t span = number_of_preplaced();
   assert(span <= sorted_tokens_.size());
 
+  /* Последнее поле может заканчиваться дальше предела для смещений */
+  if (unlikely(offset > ptrdiff_t(details::max_preplaced_offset)))
+    return sorted_tokens_.begin() + span;
+
   /* Смещение prelaced-поля в старших битах тэга и токена, поэтому для поиска
    * нормализация НЕ требуется, ибо дополнительные флаги не меняют порядка */
   const details::tag_t tag(
-- 
2.43.0


From 2d8515dda8b3374ce5465af361a034404cbbf8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:56 +0000
Subject: [PATCH 42/51] fix: moving of an empty writable tuple to a read-only
 one gives an empty one

A writable tuple which was purged or moved from led to a null dereference.
---
 src/managed.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/managed.cxx b/src/managed.cxx
index 40d6665..f91865c 100644
--- a/src/managed.cxx
+++ b/src/managed.cxx
@@ -303,7 +303,8 @@ tuple_ro_managed::tuple_ro_managed(const tuple_rw_fixed &src,
     : tuple_ro_managed(src.take_managed_clone_asis(false, allot_tag)) {}
 
 tuple_ro_managed::tuple_ro_managed(tuple_rw_fixed &&src)
-    : pimpl_(src.take_weak_asis().pimpl_), hb_(src.get_buffer()) {
+    : pimpl_(src ? src.take_weak_asis().pimpl_ : nullptr),
+      hb_(src ? src.get_buffer() : nullptr) {
   check_buffer();
   src.pimpl_ = nullptr;
 }
-- 
2.43.0


From 9944b44a06b44b67dc1cbc3b5f7c45930270f7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:09 +0000
Subject: [PATCH 43/51] fix: constructor of tuple_rw_managed from a read-only
 tuple may throw

It was marked as noexcept, so instead of reporting of an empty source (or of
the lack of memory) the process was terminated.
---
 fast_positive/tuples.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/fast_positive/tuples.h b/fast_positive/tuples.h
index 415774f..3742c0e 100644
--- a/fast_positive/tuples.h
+++ b/fast_positive/tuples.h
@@ -1169,8 +1169,7 @@ public:
   tuple_rw_managed(const tuple_rw_managed &) = delete;
   tuple_rw_managed &operator=(const tuple_rw_managed &) = delete;
 
-  tuple_rw_managed(tuple_ro_managed &&src) cxx11_noexcept
-      : base(std::move(src)) {}
+  tuple_rw_managed(tuple_ro_managed &&src) : base(std::move(src)) {}
 
   tuple_rw_managed &operator=(tuple_ro_managed &&src) {
     base::operator=(std::move(src));
-- 
2.43.0


From ddb6362472e38eab69be2017327c8a3f7e51b262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:49 +0000
Subject: [PATCH 44/51] fix: get_nested_managed() gives an empty tuple when
 there is no nested one

As get_nested_weak() does, while an internal "buffer mismatch" was thrown.
---
 fast_positive/tuples.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fast_positive/tuples.h b/fast_positive/tuples.h
index 3742c0e..41704a5 100644
--- a/fast_positive/tuples.h
+++ b/fast_positive/tuples.h
@@ -585,7 +585,7 @@ public:
   template <typename TOKEN>
   __pure_function inline tuple_ro_managed
   get_nested_managed(const TOKEN &ident) const {
-    return tuple_ro_managed(get_impl()->get_nested(ident), get_buffer());
+    return tuple_ro_managed(get_nested_weak(ident), *this);
   }
 };
 
-- 
2.43.0


From 397d159ecda069535d734ea0f71c49da6c0d906b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:22 +0000
Subject: [PATCH 45/51] fix: don't share a buffer of a writable tuple with a
 view of its nested one

Managed read-only tuple from get_nested_managed() of a writable one changed
(and even became corrupted) along with it.
---
 fast_positive/tuples.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fast_positive/tuples.h b/fast_positive/tuples.h
index 41704a5..10bab42 100644
--- a/fast_positive/tuples.h
+++ b/fast_positive/tuples.h
@@ -665,7 +665,11 @@ public:
   template <typename TOKEN>
   __pure_function inline tuple_ro_managed
   get_nested_managed(const TOKEN &ident) const {
-    return tuple_ro_managed(get_impl()->get_nested(ident), get_buffer());
+    /* R/W-кортеж монопольно владеет буфером, поэтому читаемой форме вложенного
+     * кортежа требуется собственный. */
+    return tuple_ro_managed::clone(get_nested_weak(ident), nullptr,
+                                   default_buffer_allot(),
+                                   enforce_skip_validation);
   }
 
 #define HERE_CRTP_MAKE(VALUE_TYPE, NAME)                                       \
-- 
2.43.0


From 6fdaead543a57817852a9cb7cc7eb1f0f67410c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:29 +0000
Subject: [PATCH 46/51] fix: read the reference counter atomically

---
 fast_positive/tuples/1Hippeus/buffer.h | 12 +++++++++++-
 src/1Hippeus/buffer.cxx                |  6 +++---
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/fast_positive/tuples/1Hippeus/buffer.h b/fast_positive/tuples/1Hippeus/buffer.h
index 30cb5b0..2d6d14f 100644
--- a/fast_positive/tuples/1Hippeus/buffer.h
+++ b/fast_positive/tuples/1Hippeus/buffer.h
@@ -430,8 +430,18 @@ public:
   bool is_warpable() const cxx11_noexcept {
     return (host.opacity_.uint & (HIPPEUS_LOCALWEAK | HIPPEUS_READONLY)) == 0;
   }
+  /* The counter may be changed by other threads at any time, thus it should be
+   * read atomically. The acquire ordering is required since the single owner is
+   * allowed to change or to release the buffer. */
+  int32_t references() const cxx11_noexcept {
+#ifdef _MSC_VER
+    return ref_counter;
+#else
+    return __atomic_load_n(&ref_counter, __ATOMIC_ACQUIRE);
+#endif
+  }
   bool is_alterable() const cxx11_noexcept {
-    return ref_counter == 1 && !is_readonly();
+    return references() == 1 && !is_readonly();
   }
 
   std::size_t size() const cxx11_noexcept { return space; }
diff --git a/src/1Hippeus/buffer.cxx b/src/1Hippeus/buffer.cxx
index 6cee739..ee8496d 100644
--- a/src/1Hippeus/buffer.cxx
+++ b/src/1Hippeus/buffer.cxx
@@ -52,7 +52,7 @@ __always_inline bool validate_buffer(const buffer *buf, bool deep_checking) {
   if (unlikely(0 > (ptrdiff_t)buf->space))
     goto bailout;
 
-  if (unlikely(buf->ref_counter <= 0))
+  if (unlikely(buf->references() <= 0))
     goto bailout;
 
   if (unlikely(!buf->host))
@@ -98,7 +98,7 @@ __hot __flatten bool buffer::ensure(bool deep_checking) const {
   deep_checking |= hippeus_buffer_enforce_deep_checking;
   FPTU_ENSURE((ptrdiff_t)space > 0);
   FPTU_ENSURE(host.opacity_.uint != 0);
-  FPTU_ENSURE(ref_counter > 0);
+  FPTU_ENSURE(references() > 0);
 
   HIPAGUT_ENSURE(guard_head, head);
   HIPAGUT_ENSURE(guard_under, under);
@@ -169,7 +169,7 @@ __hot __flatten void buffer::detach(const buffer *self) cxx11_noexcept {
     return;
 
   assert(self->check());
-  if (unlikely(self->ref_counter != 1)) {
+  if (unlikely(self->references() != 1)) {
     int after_decrement =
 #ifdef _MSC_VER
         _InterlockedDecrement((volatile long *)&self->ref_counter);
-- 
2.43.0


From 8396762f287a0a296894ec79fe5f358042c7c660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:11 +0000
Subject: [PATCH 47/51] fix: the estimate of a tuple's size doesn't lose the
 header

---
 src/schema.cxx | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/schema.cxx b/src/schema.cxx
index a8b7e3f..d98ef15 100644
--- a/src/schema.cxx
+++ b/src/schema.cxx
@@ -533,9 +533,10 @@ string_view schema::get_name(const token &ident) const {
 std::size_t
 schema::estimate_tuple_size(const token_vector &tokens,
                             std::size_t expected_average_stretchy_length) {
-  std::size_t fixed_bytes =
-      sizeof(details::stretchy_value_tuple /* tuple header */);
-  std::size_t dynamic_units = 0;
+  std::size_t fixed_bytes = 0;
+  std::size_t dynamic_units =
+      details::bytes2units(sizeof(details::stretchy_value_tuple
+                                  /* tuple header */));
 
   for (const token &ident : tokens) {
     if (ident.is_preplaced()) {
@@ -550,7 +551,8 @@ schema::estimate_tuple_size(const token_vector &tokens,
       dynamic_units += details::bytes2units(expected_average_stretchy_length);
   }
 
-  return fixed_bytes + details::units2bytes(dynamic_units);
+  return details::units2bytes(details::bytes2units(fixed_bytes) +
+                              dynamic_units);
 }
 
 token schema::define_field(bool preplaced, std::string &&name, fptu::genus type,
-- 
2.43.0


From bf610c52e0e20058935a1e139b79054a630740cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:11 +0000
Subject: [PATCH 48/51] fix: don't read beyond of the value when storing an
 ip_net

---
 fast_positive/tuples/details/meta.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fast_positive/tuples/details/meta.h b/fast_positive/tuples/details/meta.h
index 9a367a3..f6eb797 100644
--- a/fast_positive/tuples/details/meta.h
+++ b/fast_positive/tuples/details/meta.h
@@ -241,7 +241,7 @@ template <unsigned N, typename TYPE = uint32_t[N]> struct unit_n {
   static void write(details::field_preplaced *preplaced,
                     return_type value) cxx11_noexcept {
     static_assert(sizeof(value_type) <= preplaced_bytes, "WTF?");
-    std::memcpy(preplaced->bytes, &value, preplaced_bytes);
+    std::memcpy(preplaced->bytes, &value, sizeof(value_type));
     if (preplaced_bytes != sizeof(value_type))
       std::memset(preplaced->bytes + sizeof(value_type), 0,
                   preplaced_bytes - sizeof(value_type));
@@ -267,7 +267,7 @@ template <unsigned N, typename TYPE = uint32_t[N]> struct unit_n {
 #endif /* GNU C >= 10.x */
 
     static_assert(sizeof(ptr->fixed) >= preplaced_bytes, "WTF?");
-    std::memcpy(&ptr->fixed.words, &value, preplaced_bytes);
+    std::memcpy(&ptr->fixed.words, &value, sizeof(value_type));
     if (preplaced_bytes != sizeof(value_type))
       std::memset(ptr->fixed.bytes + sizeof(value_type), 0,
                   preplaced_bytes - sizeof(value_type));
-- 
2.43.0


From db5365da0d9c1e535b6e7239eecf61a892804c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:02 +0000
Subject: [PATCH 49/51] fix: accessing by an index of a loose iterator takes
 the token of the indexed field

---
 fast_positive/tuples/details/ro.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fast_positive/tuples/details/ro.h b/fast_positive/tuples/details/ro.h
index 7ca4aab..8673f5f 100644
--- a/fast_positive/tuples/details/ro.h
+++ b/fast_positive/tuples/details/ro.h
@@ -87,7 +87,7 @@ public:
            - is_discernible_null: не имеет значения, ибо точно знаем что
              loose-поле есть.
            - is_rangechecking/is_saturated: не нужен при чтении. */
-        field_token(false, false, false));
+        token(field_[-index].genus_and_id, false, false, false));
   }
   cxx14_constexpr dynamic_accessor_ro operator*() const cxx11_noexcept {
     return operator[](0);
-- 
2.43.0


From 5b1e57bc2a5a01b58aef8451ba009a8e6806c028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:41 +0000
Subject: [PATCH 50/51] fix: a serialized tuple of the maximal size is valid

---
 src/audit.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/audit.cxx b/src/audit.cxx
index 8276263..c9f30f0 100644
--- a/src/audit.cxx
+++ b/src/audit.cxx
@@ -385,7 +385,7 @@ tuple_ro::inline_lite_checkup(const void *ptr,
 
   if (unlikely(bytes < sizeof(unit_t)))
     return AUDIT_FAILURE("hollow tuple (too short)");
-  if (unlikely(bytes > fptu::max_tuple_bytes_netto))
+  if (unlikely(bytes > fptu::max_tuple_bytes_brutto))
     return AUDIT_FAILURE("tuple too large");
   if (unlikely(bytes % sizeof(unit_t)))
     return AUDIT_FAILURE("odd tuple size");
-- 
2.43.0


From 5a05f5b4282c1e90725c181d91ec45e085b8b134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:41 +0000
Subject: [PATCH 51/51] fix: a reserve of index doesn't push the data of a
 large tuple beyond of the limit

---
 src/autogrowth.cxx | 6 +++++-
 src/rw.cxx         | 4 +++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/autogrowth.cxx b/src/autogrowth.cxx
index 704d6a4..c9c472c 100644
--- a/src/autogrowth.cxx
+++ b/src/autogrowth.cxx
@@ -128,7 +128,11 @@ void tuple_rw_managed::manage_space_deficit(const insufficient_space &wanna) {
   /* Место под индекс: удваиваем если не хватило или использовано хотя-бы на
    * половину, иначе оставляем как есть. */
   const size_t growth_index =
-      std::min(size_t(fundamentals::max_fields),
+      std::min(std::min(size_t(fundamentals::max_fields),
+                        /* индекс не должен вытеснять данные за предел размера */
+                        size_t(fundamentals::max_tuple_units_netto) -
+                            (pimpl_->tail_ - pimpl_->pivot_) -
+                            wanna.data_space),
                (wanna.index_space > pimpl_->head_space() ||
                 pimpl_->head_ + pimpl_->head_ < pimpl_->pivot_)
                    ? (wanna.index_space + pimpl_->pivot_) * 2
diff --git a/src/rw.cxx b/src/rw.cxx
index c4b4f42..9bba6f7 100644
--- a/src/rw.cxx
+++ b/src/rw.cxx
@@ -718,7 +718,9 @@ inline tuple_rw::tuple_rw(const audit_holes_info &holes_info,
 
   const std::size_t have_items = ro->index_size();
   const std::size_t reserve_items =
-      std::min(size_t(fptu::max_fields), have_items + more_items);
+      std::min(std::min(size_t(fptu::max_fields), have_items + more_items),
+               /* резерв не должен вытеснять данные за предел размера кортежа */
+               size_t(max_tuple_units_netto) - ro->payload_units());
   const std::size_t space_needed = tuple_rw::estimate_required_space(
       reserve_items, ro->payload_bytes(), schema,
       /* не учитываем размер preplaced-полей, ибо они уже должы быть в ro */
-- 
2.43.0


From abf8b6dd9b08b27bf992e47f924b6a95c4718f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:14 +0000
Subject: [PATCH 01/28] fix: unshare the container before
 roaring_bitmap_remove_many modifies it

With copy-on-write, container_remove() works on (and may release) a shared
container, which remove_many then freed again.
---
 src/roaring.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/roaring.c b/src/roaring.c
index 2363afa..d81920b 100644
--- a/src/roaring.c
+++ b/src/roaring.c
@@ -675,6 +675,8 @@ void roaring_bitmap_remove_many(roaring_bitmap_t *r, size_t n_args,
         if (pos >= 0) {
             uint8_t new_typecode;
             container_t *new_container;
+            ra_unshare_container_at_index(&r->high_low_container,
+                                          (uint16_t)pos);
             new_container = container_remove(
                 r->high_low_container.containers[pos], vals[i] & 0xffff,
                 r->high_low_container.typecodes[pos], &new_typecode);
-- 
2.43.0


From 15e8a983c4f3e9418008a444cbf655c2233c0f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:14 +0000
Subject: [PATCH 02/28] fix: do not truncate range bounds beyond 2^32

A range starting at 2^32 was taken to start at 0, and an end above 2^32 was
truncated to 32 bits, in add_range, remove_range, flip, flip_inplace,
range_cardinality and contains_range.
---
 include/roaring/roaring.h | 10 ++++++++--
 src/roaring.c             | 20 ++++++++++++++++----
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/include/roaring/roaring.h b/include/roaring/roaring.h
index a45b1da..35e532b 100644
--- a/include/roaring/roaring.h
+++ b/include/roaring/roaring.h
@@ -401,9 +401,12 @@ void roaring_bitmap_add_range_closed(roaring_bitmap_t *r, uint32_t min,
  */
 inline void roaring_bitmap_add_range(roaring_bitmap_t *r, uint64_t min,
                                      uint64_t max) {
-    if (max <= min || min > (uint64_t)UINT32_MAX + 1) {
+    if (max <= min || min > UINT32_MAX) {
         return;
     }
+    if (max > (uint64_t)UINT32_MAX + 1) {
+        max = (uint64_t)UINT32_MAX + 1;
+    }
     roaring_bitmap_add_range_closed(r, (uint32_t)min, (uint32_t)(max - 1));
 }
 
@@ -423,9 +426,12 @@ void roaring_bitmap_remove_range_closed(roaring_bitmap_t *r, uint32_t min,
  */
 inline void roaring_bitmap_remove_range(roaring_bitmap_t *r, uint64_t min,
                                         uint64_t max) {
-    if (max <= min || min > (uint64_t)UINT32_MAX + 1) {
+    if (max <= min || min > UINT32_MAX) {
         return;
     }
+    if (max > (uint64_t)UINT32_MAX + 1) {
+        max = (uint64_t)UINT32_MAX + 1;
+    }
     roaring_bitmap_remove_range_closed(r, (uint32_t)min, (uint32_t)(max - 1));
 }
 
diff --git a/src/roaring.c b/src/roaring.c
index d81920b..a7ff995 100644
--- a/src/roaring.c
+++ b/src/roaring.c
@@ -1333,9 +1333,12 @@ uint64_t roaring_bitmap_get_cardinality(const roaring_bitmap_t *r) {
 uint64_t roaring_bitmap_range_cardinality(const roaring_bitmap_t *r,
                                           uint64_t range_start,
                                           uint64_t range_end) {
-    if (range_start >= range_end || range_start > (uint64_t)UINT32_MAX + 1) {
+    if (range_start >= range_end || range_start > UINT32_MAX) {
         return 0;
     }
+    if (range_end > (uint64_t)UINT32_MAX + 1) {
+        range_end = (uint64_t)UINT32_MAX + 1;
+    }
     return roaring_bitmap_range_cardinality_closed(r, (uint32_t)range_start,
                                                    (uint32_t)(range_end - 1));
 }
@@ -2015,9 +2018,12 @@ static void inplace_fully_flip_container(roaring_array_t *x1_arr, uint16_t hb) {
 roaring_bitmap_t *roaring_bitmap_flip(const roaring_bitmap_t *x1,
                                       uint64_t range_start,
                                       uint64_t range_end) {
-    if (range_start >= range_end || range_start > (uint64_t)UINT32_MAX + 1) {
+    if (range_start >= range_end || range_start > UINT32_MAX) {
         return roaring_bitmap_copy(x1);
     }
+    if (range_end > (uint64_t)UINT32_MAX + 1) {
+        range_end = (uint64_t)UINT32_MAX + 1;
+    }
     return roaring_bitmap_flip_closed(x1, (uint32_t)range_start,
                                       (uint32_t)(range_end - 1));
 }
@@ -2076,9 +2082,12 @@ roaring_bitmap_t *roaring_bitmap_flip_closed(const roaring_bitmap_t *x1,
 
 void roaring_bitmap_flip_inplace(roaring_bitmap_t *x1, uint64_t range_start,
                                  uint64_t range_end) {
-    if (range_start >= range_end || range_start > (uint64_t)UINT32_MAX + 1) {
+    if (range_start >= range_end || range_start > UINT32_MAX) {
         return;
     }
+    if (range_end > (uint64_t)UINT32_MAX + 1) {
+        range_end = (uint64_t)UINT32_MAX + 1;
+    }
     roaring_bitmap_flip_inplace_closed(x1, (uint32_t)range_start,
                                        (uint32_t)(range_end - 1));
 }
@@ -2851,9 +2860,12 @@ bool roaring_bitmap_contains(const roaring_bitmap_t *r, uint32_t val) {
  */
 bool roaring_bitmap_contains_range(const roaring_bitmap_t *r,
                                    uint64_t range_start, uint64_t range_end) {
-    if (range_start >= range_end || range_start > (uint64_t)UINT32_MAX + 1) {
+    if (range_start >= range_end || range_start > UINT32_MAX) {
         return true;
     }
+    if (range_end > (uint64_t)UINT32_MAX + 1) {
+        range_end = (uint64_t)UINT32_MAX + 1;
+    }
     return roaring_bitmap_contains_range_closed(r, (uint32_t)range_start,
                                                 (uint32_t)(range_end - 1));
 }
-- 
2.43.0


From e9cf8441074facf8f2a04dcac81850cb185f87e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:14 +0000
Subject: [PATCH 03/28] fix: roaring_bitmap_intersect_with_range truncated a
 start beyond 2^32

---
 src/roaring.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/roaring.c b/src/roaring.c
index a7ff995..9c8aaba 100644
--- a/src/roaring.c
+++ b/src/roaring.c
@@ -2759,7 +2759,7 @@ bool roaring_bitmap_intersect(const roaring_bitmap_t *x1,
 
 bool roaring_bitmap_intersect_with_range(const roaring_bitmap_t *bm, uint64_t x,
                                          uint64_t y) {
-    if (x >= y) {
+    if (x >= y || x > UINT32_MAX) {
         // Empty range.
         return false;
     }
-- 
2.43.0


From 311126527ab99df4dcad3df488c5d34013fb2f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:14 +0000
Subject: [PATCH 04/28] fix: roaring_bitmap_from_range looped forever when a
 large step wrapped around 2^32

---
 src/roaring.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/roaring.c b/src/roaring.c
index 9c8aaba..0c11aa5 100644
--- a/src/roaring.c
+++ b/src/roaring.c
@@ -224,8 +224,8 @@ roaring_bitmap_t *roaring_bitmap_from_range(uint64_t min, uint64_t max,
     if (max <= min) return NULL;
     roaring_bitmap_t *answer = roaring_bitmap_create();
     if (step >= (1 << 16)) {
-        for (uint32_t value = (uint32_t)min; value < max; value += step) {
-            roaring_bitmap_add(answer, value);
+        for (uint64_t value = min; value < max; value += step) {
+            roaring_bitmap_add(answer, (uint32_t)value);
         }
         return answer;
     }
-- 
2.43.0


From 0325ed13d365bd8e59f9341a047aa67a7b6048d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:14 +0000
Subject: [PATCH 05/28] fix: roaring_bitmap_rank_many left the answers beyond
 the last container unwritten

---
 src/roaring.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/roaring.c b/src/roaring.c
index 0c11aa5..08e7609 100644
--- a/src/roaring.c
+++ b/src/roaring.c
@@ -2639,6 +2639,10 @@ void roaring_bitmap_rank_many(const roaring_bitmap_t *bm, const uint32_t *begin,
             iter++;
         }
     }
+    while (iter != end) {  // values beyond the last container
+        *(ans++) = size;
+        iter++;
+    }
 }
 
 /**
-- 
2.43.0


From 2a20a6d5ce4104fe06b01b7a9776963e2865086b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:23 +0000
Subject: [PATCH 06/28] fix: roaring_bitmap_range_uint32_array overwrote the
 typecode of shared containers

It also released a roaring_malloc'd buffer with free().
---
 src/roaring_array.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/roaring_array.c b/src/roaring_array.c
index e3bc6ce..75aae65 100644
--- a/src/roaring_array.c
+++ b/src/roaring_array.c
@@ -447,9 +447,10 @@ bool ra_range_uint32_array(const roaring_array_t *ra, size_t offset,
     size_t cur_len = 0;
 
     for (int i = 0; i < ra->size; ++i) {
+        uint8_t typecode = ra->typecodes[i];
         const container_t *c =
-            container_unwrap_shared(ra->containers[i], &ra->typecodes[i]);
-        switch (ra->typecodes[i]) {
+            container_unwrap_shared(ra->containers[i], &typecode);
+        switch (typecode) {
             case BITSET_CONTAINER_TYPE:
                 t_limit = (const_CAST_bitset(c))->cardinality;
                 break;
@@ -487,20 +488,20 @@ bool ra_range_uint32_array(const roaring_array_t *ra, size_t offset,
                 roaring_free(t_ans);
                 t_ans = append_ans;
             }
-            switch (ra->typecodes[i]) {
+            switch (typecode) {
                 case BITSET_CONTAINER_TYPE:
                     container_to_uint32_array(t_ans + dtr, const_CAST_bitset(c),
-                                              ra->typecodes[i],
+                                              typecode,
                                               ((uint32_t)ra->keys[i]) << 16);
                     break;
                 case ARRAY_CONTAINER_TYPE:
                     container_to_uint32_array(t_ans + dtr, const_CAST_array(c),
-                                              ra->typecodes[i],
+                                              typecode,
                                               ((uint32_t)ra->keys[i]) << 16);
                     break;
                 case RUN_CONTAINER_TYPE:
                     container_to_uint32_array(t_ans + dtr, const_CAST_run(c),
-                                              ra->typecodes[i],
+                                              typecode,
                                               ((uint32_t)ra->keys[i]) << 16);
                     break;
             }
@@ -511,7 +512,7 @@ bool ra_range_uint32_array(const roaring_array_t *ra, size_t offset,
     }
     if (t_ans != NULL) {
         memcpy(ans, t_ans + first_skip, limit * sizeof(uint32_t));
-        free(t_ans);
+        roaring_free(t_ans);
     }
     return true;
 }
-- 
2.43.0


From 4e061fccc4f500e743932f4ca5c0f4db895b3cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:33 +0000
Subject: [PATCH 07/28] fix: roaring_bitmap_add_bulk modified a shared
 container in place

The context of an earlier contains_bulk, or of an add_bulk before a
copy-on-write copy, refers to a container that other bitmaps share.
---
 src/roaring.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/roaring.c b/src/roaring.c
index 08e7609..5bd0931 100644
--- a/src/roaring.c
+++ b/src/roaring.c
@@ -115,6 +115,14 @@ static inline void add_bulk_impl(roaring_bitmap_t *r,
         // no need to seek the container, it is at hand
         // because we already have the container at hand, we can do the
         // insertion directly, bypassing the roaring_bitmap_add call
+        if (r->high_low_container.typecodes[context->idx] ==
+            SHARED_CONTAINER_TYPE) {
+            ra_unshare_container_at_index(&r->high_low_container,
+                                          (uint16_t)context->idx);
+            context->container = ra_get_container_at_index(
+                &r->high_low_container, (uint16_t)context->idx,
+                &context->typecode);
+        }
         uint8_t new_typecode;
         container_t *container2 = container_add(
             context->container, val & 0xFFFF, context->typecode, &new_typecode);
-- 
2.43.0


From 8e7555e7621264c14660c68cdbeb6d9f683d7c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:36 +0000
Subject: [PATCH 08/28] fix: freezing a bitmap with copy-on-write shared
 containers was undefined

roaring_bitmap_frozen_size_in_bytes and roaring_bitmap_frozen_serialize ran
into roaring_unreachable for SHARED_CONTAINER_TYPE.
---
 src/roaring.c | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/roaring.c b/src/roaring.c
index 5bd0931..f9a8afd 100644
--- a/src/roaring.c
+++ b/src/roaring.c
@@ -2971,19 +2971,21 @@ size_t roaring_bitmap_frozen_size_in_bytes(const roaring_bitmap_t *rb) {
     const roaring_array_t *ra = &rb->high_low_container;
     size_t num_bytes = 0;
     for (int32_t i = 0; i < ra->size; i++) {
-        switch (ra->typecodes[i]) {
+        uint8_t typecode = ra->typecodes[i];
+        const container_t *c =
+            container_unwrap_shared(ra->containers[i], &typecode);
+        switch (typecode) {
             case BITSET_CONTAINER_TYPE: {
                 num_bytes += BITSET_CONTAINER_SIZE_IN_WORDS * sizeof(uint64_t);
                 break;
             }
             case RUN_CONTAINER_TYPE: {
-                const run_container_t *rc = const_CAST_run(ra->containers[i]);
+                const run_container_t *rc = const_CAST_run(c);
                 num_bytes += rc->n_runs * sizeof(rle16_t);
                 break;
             }
             case ARRAY_CONTAINER_TYPE: {
-                const array_container_t *ac =
-                    const_CAST_array(ra->containers[i]);
+                const array_container_t *ac = const_CAST_array(c);
                 num_bytes += ac->cardinality * sizeof(uint16_t);
                 break;
             }
@@ -3014,20 +3016,22 @@ void roaring_bitmap_frozen_serialize(const roaring_bitmap_t *rb, char *buf) {
     size_t run_zone_size = 0;
     size_t array_zone_size = 0;
     for (int32_t i = 0; i < ra->size; i++) {
-        switch (ra->typecodes[i]) {
+        uint8_t typecode = ra->typecodes[i];
+        const container_t *c =
+            container_unwrap_shared(ra->containers[i], &typecode);
+        switch (typecode) {
             case BITSET_CONTAINER_TYPE: {
                 bitset_zone_size +=
                     BITSET_CONTAINER_SIZE_IN_WORDS * sizeof(uint64_t);
                 break;
             }
             case RUN_CONTAINER_TYPE: {
-                const run_container_t *rc = const_CAST_run(ra->containers[i]);
+                const run_container_t *rc = const_CAST_run(c);
                 run_zone_size += rc->n_runs * sizeof(rle16_t);
                 break;
             }
             case ARRAY_CONTAINER_TYPE: {
-                const array_container_t *ac =
-                    const_CAST_array(ra->containers[i]);
+                const array_container_t *ac = const_CAST_array(c);
                 array_zone_size += ac->cardinality * sizeof(uint16_t);
                 break;
             }
@@ -3046,10 +3050,12 @@ void roaring_bitmap_frozen_serialize(const roaring_bitmap_t *rb, char *buf) {
 
     for (int32_t i = 0; i < ra->size; i++) {
         uint16_t count;
-        switch (ra->typecodes[i]) {
+        uint8_t typecode = ra->typecodes[i];
+        const container_t *c =
+            container_unwrap_shared(ra->containers[i], &typecode);
+        switch (typecode) {
             case BITSET_CONTAINER_TYPE: {
-                const bitset_container_t *bc =
-                    const_CAST_bitset(ra->containers[i]);
+                const bitset_container_t *bc = const_CAST_bitset(c);
                 memcpy(bitset_zone, bc->words,
                        BITSET_CONTAINER_SIZE_IN_WORDS * sizeof(uint64_t));
                 bitset_zone += BITSET_CONTAINER_SIZE_IN_WORDS;
@@ -3063,7 +3069,7 @@ void roaring_bitmap_frozen_serialize(const roaring_bitmap_t *rb, char *buf) {
                 break;
             }
             case RUN_CONTAINER_TYPE: {
-                const run_container_t *rc = const_CAST_run(ra->containers[i]);
+                const run_container_t *rc = const_CAST_run(c);
                 size_t num_bytes = rc->n_runs * sizeof(rle16_t);
                 memcpy(run_zone, rc->runs, num_bytes);
                 run_zone += rc->n_runs;
@@ -3071,8 +3077,7 @@ void roaring_bitmap_frozen_serialize(const roaring_bitmap_t *rb, char *buf) {
                 break;
             }
             case ARRAY_CONTAINER_TYPE: {
-                const array_container_t *ac =
-                    const_CAST_array(ra->containers[i]);
+                const array_container_t *ac = const_CAST_array(c);
                 size_t num_bytes = ac->cardinality * sizeof(uint16_t);
                 memcpy(array_zone, ac->array, num_bytes);
                 array_zone += ac->cardinality;
@@ -3083,9 +3088,9 @@ void roaring_bitmap_frozen_serialize(const roaring_bitmap_t *rb, char *buf) {
                 roaring_unreachable;
         }
         memcpy(&count_zone[i], &count, 2);
+        typecode_zone[i] = typecode;
     }
     memcpy(key_zone, ra->keys, ra->size * sizeof(uint16_t));
-    memcpy(typecode_zone, ra->typecodes, ra->size * sizeof(uint8_t));
     uint32_t header = ((uint32_t)ra->size << 15) | FROZEN_COOKIE;
     memcpy(header_zone, &header, 4);
 }
-- 
2.43.0


From 0c3e33911cfe4d2acfba0effeaf68dd9dc1d4d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:20 +0000
Subject: [PATCH 09/28] fix: roaring64 bulk removal must not keep a leaf it
 erased

roaring64_bitmap_remove_bulk and remove_many kept the context pointing at
the leaf of a container they had just removed, so the next removal in the
same chunk dereferenced a freed leaf and a NULL container.
---
 src/roaring64.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/roaring64.c b/src/roaring64.c
index de1009e..cf1dc8f 100644
--- a/src/roaring64.c
+++ b/src/roaring64.c
@@ -755,13 +755,17 @@ void roaring64_bitmap_remove_bulk(roaring64_bitmap_t *r,
             bool erased = art_erase(art, high48, (art_val_t *)&leaf);
             assert(erased);
             remove_container(r, leaf);
+            // The leaf no longer exists.
+            context->leaf = NULL;
         }
     } else {
         // We're not positioned anywhere yet or the high bits of the key
         // differ.
         leaf_t *leaf = (leaf_t *)art_find(art, high48);
-        containerptr_roaring64_bitmap_remove(r, high48, low16, leaf);
-        context->leaf = leaf;
+        bool erased =
+            containerptr_roaring64_bitmap_remove(r, high48, low16, leaf);
+        // Do not keep a reference to a leaf which no longer exists.
+        context->leaf = erased ? NULL : leaf;
         memcpy(context->high_bytes, high48, ART_KEY_BYTES);
     }
 }
-- 
2.43.0


From e38166fed561581e6d32fb183529bb7514ef7197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:02 +0000
Subject: [PATCH 10/28] fix: roaring64_bitmap_contains_range must notice a
 missing end

With a chunk beyond the end of the range present, chunks missing at the
end of the range itself were not noticed.
---
 src/roaring64.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/roaring64.c b/src/roaring64.c
index cf1dc8f..fe1fc7a 100644
--- a/src/roaring64.c
+++ b/src/roaring64.c
@@ -540,9 +540,9 @@ bool roaring64_bitmap_contains_range(const roaring64_bitmap_t *r, uint64_t min,
     while (it.value != NULL) {
         uint64_t current_high48_bits = combine_key(it.key, 0);
         if (current_high48_bits > max_high48_bits) {
-            // We've passed the end of the range with all containers containing
-            // the range.
-            return true;
+            // We've passed the end of the range, check below whether the last
+            // container of the range was reached.
+            break;
         }
         if (current_high48_bits - prev_high48_bits > 0x10000) {
             // There is a gap in the iterator that falls in the range.
-- 
2.43.0


From fb5635839299f7373e83c56124999a3035ce440b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:14 +0000
Subject: [PATCH 11/28] fix: mark a 64-bit iterator read to its end as past the
 end

roaring64_iterator_read left saturated_forward stale, so that
roaring64_iterator_previous afterwards depended on an uninitialized or
outdated flag.
---
 src/roaring64.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/roaring64.c b/src/roaring64.c
index fe1fc7a..549b94a 100644
--- a/src/roaring64.c
+++ b/src/roaring64.c
@@ -2703,6 +2703,8 @@ uint64_t roaring64_iterator_read(roaring64_iterator_t *it, uint64_t *buf,
         it->has_value = art_iterator_next(&it->art_it);
         if (it->has_value) {
             roaring64_iterator_init_at_leaf_first(it);
+        } else {
+            it->saturated_forward = true;
         }
     }
     return consumed;
-- 
2.43.0


From a73e1699b3be5d8c2673face8d5783ae696d8c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:14 +0000
Subject: [PATCH 12/28] fix: take over shared containers as copies when moving
 to a 64-bit bitmap

roaring64_bitmap_move_from_roaring32 kept copy-on-write containers that
the 64-bit code modifies and frees as if it owned them.
---
 src/roaring64.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/roaring64.c b/src/roaring64.c
index 549b94a..8249d0d 100644
--- a/src/roaring64.c
+++ b/src/roaring64.c
@@ -290,6 +290,8 @@ static void move_from_roaring32_offset(roaring64_bitmap_t *dst,
         uint8_t typecode;
         container_t *container = ra_get_container_at_index(
             &src->high_low_container, (uint16_t)i, &typecode);
+        // 64-bit bitmaps do not share containers.
+        container = get_writable_copy_if_shared(container, &typecode);
 
         uint8_t high48[ART_KEY_BYTES];
         uint64_t high48_bits = key_base | ((uint64_t)key << 16);
-- 
2.43.0


From fb3068f1f1c805525fee0c279ec72babf3c64254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:14 +0000
Subject: [PATCH 13/28] fix: refuse truncated 64-bit frozen buffers cleanly

roaring64_bitmap_frozen_view read up to 7 bytes past a truncated buffer
and walked a partially initialized tree when it gave up.
---
 src/roaring64.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/roaring64.c b/src/roaring64.c
index 8249d0d..5b29c64 100644
--- a/src/roaring64.c
+++ b/src/roaring64.c
@@ -2480,9 +2480,17 @@ roaring64_bitmap_t *roaring64_bitmap_frozen_view(const char *buf,
     maxbytes -= sizeof(uint64_t);
 
     // ART (8 byte aligned).
+    const char *before_art = buf;
     buf = CROARING_ALIGN_BUF(buf, 8);
+    if (maxbytes < (size_t)(buf - before_art)) {
+        roaring64_bitmap_free(r);
+        return NULL;
+    }
+    maxbytes -= buf - before_art;
     size_t art_size = art_frozen_view(buf, maxbytes, &r->art);
     if (art_size == 0) {
+        // The ART may be partially initialized.
+        art_init_cleared(&r->art);
         roaring64_bitmap_free(r);
         return NULL;
     }
@@ -2501,6 +2509,8 @@ roaring64_bitmap_t *roaring64_bitmap_frozen_view(const char *buf,
     const uint16_t *arrays = (const uint16_t *)buf;
     buf += total_sizes[ARRAY_CONTAINER_TYPE];
     if (maxbytes < (uint64_t)(buf - before_containers)) {
+        // The containers that the ART refers to are not initialized yet.
+        art_init_cleared(&r->art);
         roaring64_bitmap_free(r);
         return NULL;
     }
-- 
2.43.0


From 0954dd082abc32362493a616e79e77bda0f496d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:29 +0000
Subject: [PATCH 14/28] fix: bitset_shift_left on an empty bitset or without
 memory

It read array[-1] of an empty bitset and ignored a failed resize.
---
 src/bitset.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/bitset.c b/src/bitset.c
index 96fee90..2219cca 100644
--- a/src/bitset.c
+++ b/src/bitset.c
@@ -90,14 +90,21 @@ void bitset_shift_left(bitset_t *bitset, size_t s) {
     size_t extra_words = s / 64;
     int inword_shift = s % 64;
     size_t as = bitset->arraysize;
+    if (as == 0) {
+        return;  // no bits to shift
+    }
     if (inword_shift == 0) {
-        bitset_resize(bitset, as + extra_words, false);
+        if (!bitset_resize(bitset, as + extra_words, false)) {
+            return;
+        }
         // could be done with a memmove
         for (size_t i = as + extra_words; i > extra_words; i--) {
             bitset->array[i - 1] = bitset->array[i - 1 - extra_words];
         }
     } else {
-        bitset_resize(bitset, as + extra_words + 1, true);
+        if (!bitset_resize(bitset, as + extra_words + 1, true)) {
+            return;
+        }
         bitset->array[as + extra_words] =
             bitset->array[as - 1] >> (64 - inword_shift);
         for (size_t i = as + extra_words; i >= extra_words + 2; i--) {
-- 
2.43.0


From 4f99c8508ccba190179d6acddcd9f814424cdaa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:29 +0000
Subject: [PATCH 15/28] fix: bitset_shift_right by the size of the bitset or
 more

The word count underflowed and the loop ran out of the array.
---
 src/bitset.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bitset.c b/src/bitset.c
index 2219cca..74e6ae0 100644
--- a/src/bitset.c
+++ b/src/bitset.c
@@ -123,6 +123,11 @@ void bitset_shift_right(bitset_t *bitset, size_t s) {
     size_t extra_words = s / 64;
     int inword_shift = s % 64;
     size_t as = bitset->arraysize;
+    if (extra_words >= as) {
+        // All bits are shifted out.
+        bitset_resize(bitset, 0, false);
+        return;
+    }
     if (inword_shift == 0) {
         // could be done with a memmove
         for (size_t i = 0; i < as - extra_words; i++) {
-- 
2.43.0


From ed337f33283218e018d3ba65b2c15d409b57640b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:29 +0000
Subject: [PATCH 16/28] fix: bitset_trim of a bitset without bits

realloc to zero bytes released the array but left the pointer to it.
---
 src/bitset.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/bitset.c b/src/bitset.c
index 74e6ae0..c122047 100644
--- a/src/bitset.c
+++ b/src/bitset.c
@@ -485,6 +485,14 @@ bool bitset_trim(bitset_t *bitset) {
             break;
     }
     if (bitset->capacity == newsize) return true;  // nothing to do
+    if (newsize == 0) {
+        // Reallocating to zero bytes may or may not release the memory.
+        roaring_free(bitset->array);
+        bitset->array = NULL;
+        bitset->capacity = 0;
+        bitset->arraysize = 0;
+        return true;
+    }
     uint64_t *newarray;
     if ((newarray = (uint64_t *)roaring_realloc(
              bitset->array, sizeof(uint64_t) * newsize)) == NULL) {
-- 
2.43.0


From b5777889de34ed8949f01d738c91f9be3c944c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:48 +0000
Subject: [PATCH 17/28] fix: ra_overwrite when memory runs out

A failed overwrite left the destination with freed containers, and a failed
shared copy put NULL containers in the source.
---
 src/roaring_array.c | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/roaring_array.c b/src/roaring_array.c
index 75aae65..3fb7884 100644
--- a/src/roaring_array.c
+++ b/src/roaring_array.c
@@ -126,8 +126,8 @@ void ra_init(roaring_array_t *new_ra) {
 bool ra_overwrite(const roaring_array_t *source, roaring_array_t *dest,
                   bool copy_on_write) {
     ra_clear_containers(dest);  // we are going to overwrite them
+    dest->size = 0;             // <--- This is important.
     if (source->size == 0) {    // Note: can't call memcpy(NULL), even w/size
-        dest->size = 0;         // <--- This is important.
         return true;            // output was just cleared, so they match
     }
     if (dest->allocation_size < source->size) {
@@ -135,14 +135,25 @@ bool ra_overwrite(const roaring_array_t *source, roaring_array_t *dest,
             return false;
         }
     }
-    dest->size = source->size;
-    memcpy(dest->keys, source->keys, dest->size * sizeof(uint16_t));
     // we go through the containers, turning them into shared containers...
     if (copy_on_write) {
-        for (int32_t i = 0; i < dest->size; ++i) {
-            source->containers[i] = get_copy_of_container(
+        for (int32_t i = 0; i < source->size; ++i) {
+            container_t *shared = get_copy_of_container(
                 source->containers[i], &source->typecodes[i], copy_on_write);
+            if (shared == NULL) {
+                // release the references taken for dest so far
+                for (int32_t j = 0; j < i; j++) {
+                    container_free(source->containers[j],
+                                   source->typecodes[j]);
+                }
+                return false;
+            }
+            source->containers[i] = shared;
         }
+    }
+    dest->size = source->size;
+    memcpy(dest->keys, source->keys, dest->size * sizeof(uint16_t));
+    if (copy_on_write) {
         // we do a shallow copy to the other bitmap
         memcpy(dest->containers, source->containers,
                dest->size * sizeof(container_t *));
-- 
2.43.0


From c9d2fdcbc0fef13152e733d4ca024c87a769459e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:48 +0000
Subject: [PATCH 18/28] fix: portable deserialization of runs when memory runs
 out

run_container_read grew the container without noticing that it had failed.
---
 src/roaring_array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/roaring_array.c b/src/roaring_array.c
index 3fb7884..1cae31d 100644
--- a/src/roaring_array.c
+++ b/src/roaring_array.c
@@ -854,7 +854,7 @@ bool ra_portable_deserialize(roaring_array_t *answer, const char *buf,
             }
             // it is now safe to read
 
-            run_container_t *c = run_container_create();
+            run_container_t *c = run_container_create_given_capacity(n_runs);
             if (c == NULL) {  // memory allocation failure
                 // Failed to allocate memory for a run container.
                 ra_clear(answer);  // we need to clear the containers already
-- 
2.43.0


From b46b01f5502751542f62fbd93f553a31d6e8dbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:48 +0000
Subject: [PATCH 19/28] fix: roaring_uint32_iterator_copy when memory runs out

---
 src/roaring.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/roaring.c b/src/roaring.c
index f9a8afd..7e7488b 100644
--- a/src/roaring.c
+++ b/src/roaring.c
@@ -1765,6 +1765,7 @@ roaring_uint32_iterator_t *roaring_uint32_iterator_copy(
     roaring_uint32_iterator_t *newit =
         (roaring_uint32_iterator_t *)roaring_malloc(
             sizeof(roaring_uint32_iterator_t));
+    if (newit == NULL) return NULL;
     memcpy(newit, it, sizeof(roaring_uint32_iterator_t));
     return newit;
 }
-- 
2.43.0


From 6e250d535b291c99039e6cc9c98506c502a5a32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:48 +0000
Subject: [PATCH 20/28] fix: keep the reference while a shared container is
 copied

shared_container_extract_copy gave up its reference before cloning: another
thread, owner of another copy of the bitmap, could then modify or free the
container while it was being read.
---
 src/containers/containers.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/containers/containers.c b/src/containers/containers.c
index eb5a346..42d5495 100644
--- a/src/containers/containers.c
+++ b/src/containers/containers.c
@@ -229,12 +229,18 @@ container_t *shared_container_extract_copy(shared_container_t *sc,
     assert(sc->typecode != SHARED_CONTAINER_TYPE);
     *typecode = sc->typecode;
     container_t *answer;
-    if (croaring_refcount_dec(&sc->counter)) {
+    if (croaring_refcount_get(&sc->counter) == 1) {
+        // We hold the last reference, nobody else can make a new one. Dropping
+        // it synchronizes with the threads that held the others.
+        croaring_refcount_dec(&sc->counter);
         answer = sc->container;
         sc->container = NULL;  // paranoid
         roaring_free(sc);
     } else {
+        // The reference must be kept until the copy is made: without it, another
+        // holder could modify or free the container in the meantime.
         answer = container_clone(sc->container, *typecode);
+        shared_container_free(sc);
     }
     assert(*typecode != SHARED_CONTAINER_TYPE);
     return answer;
-- 
2.43.0


From 096b248a7030f1306f4056c2862e706c0b017c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:48 +0000
Subject: [PATCH 21/28] fix: roaring_bitmap_shrink_to_fit must not touch
 containers others share

It reallocated a shared container while other copies of the bitmap, possibly
in other threads, could be reading it.
---
 include/roaring/containers/containers.h | 4 ++++
 include/roaring/portability.h           | 7 +++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/roaring/containers/containers.h b/include/roaring/containers/containers.h
index 30b0cde..4cacc12 100644
--- a/include/roaring/containers/containers.h
+++ b/include/roaring/containers/containers.h
@@ -265,6 +265,10 @@ static inline bool container_is_full(const container_t *c, uint8_t typecode) {
 }
 
 static inline int container_shrink_to_fit(container_t *c, uint8_t type) {
+    if (type == SHARED_CONTAINER_TYPE &&
+        croaring_refcount_get(&CAST_shared(c)->counter) != 1) {
+        return 0;  // others, possibly in other threads, may be reading it
+    }
     c = container_mutable_unwrap_shared(c, &type);
     switch (type) {
         case BITSET_CONTAINER_TYPE:
diff --git a/include/roaring/portability.h b/include/roaring/portability.h
index 03e741b..ce1739f 100644
--- a/include/roaring/portability.h
+++ b/include/roaring/portability.h
@@ -501,7 +501,9 @@ static inline bool croaring_refcount_dec(croaring_refcount_t *val) {
 }
 
 static inline uint32_t croaring_refcount_get(const croaring_refcount_t *val) {
-    return atomic_load_explicit(val, memory_order_relaxed);
+    // Acquire: when it finds that no other reference is left, everything that
+    // the other holders did with the object must happen before.
+    return atomic_load_explicit(val, memory_order_acquire);
 }
 #elif CROARING_ATOMIC_IMPL == CROARING_ATOMIC_IMPL_CPP
 #include <atomic>
@@ -521,7 +523,8 @@ static inline bool croaring_refcount_dec(croaring_refcount_t *val) {
 }
 
 static inline uint32_t croaring_refcount_get(const croaring_refcount_t *val) {
-    return val->load(std::memory_order_relaxed);
+    // See above comments on the c11 atomic implementation for memory ordering
+    return val->load(std::memory_order_acquire);
 }
 #elif CROARING_ATOMIC_IMPL == CROARING_ATOMIC_IMPL_C_WINDOWS
 #include <intrin.h>
-- 
2.43.0


From 832a7ebe9c6dc468eb014743b2b14fd5a26086b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:48 +0000
Subject: [PATCH 22/28] fix: croaring_refcount_dec without atomics compared the
 pointer with 0

---
 include/roaring/portability.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/roaring/portability.h b/include/roaring/portability.h
index ce1739f..1ecb9f8 100644
--- a/include/roaring/portability.h
+++ b/include/roaring/portability.h
@@ -562,7 +562,7 @@ static inline void croaring_refcount_inc(croaring_refcount_t *val) {
 static inline bool croaring_refcount_dec(croaring_refcount_t *val) {
     assert(*val > 0);
     *val -= 1;
-    return val == 0;
+    return *val == 0;
 }
 
 static inline uint32_t croaring_refcount_get(const croaring_refcount_t *val) {
-- 
2.43.0


From f289ddc0be69463819a85d6d2a3c9f417b4cd3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:47 +0000
Subject: [PATCH 23/28] fix: roaring_bitmap_overwrite(x, x) keeps the bitmap
 (C++ self-assignment emptied it)

---
 src/roaring.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/roaring.c b/src/roaring.c
index 7e7488b..a124fa8 100644
--- a/src/roaring.c
+++ b/src/roaring.c
@@ -519,6 +519,7 @@ roaring_bitmap_t *roaring_bitmap_copy(const roaring_bitmap_t *r) {
 
 bool roaring_bitmap_overwrite(roaring_bitmap_t *dest,
                               const roaring_bitmap_t *src) {
+    if (dest == src) return true;  // overwriting would first clear the source
     roaring_bitmap_set_copy_on_write(dest, is_cow(src));
     return ra_overwrite(&src->high_low_container, &dest->high_low_container,
                         is_cow(src));
-- 
2.43.0


From 7b9d40e95ad75f92d6ab41f8ec75d1b96986f4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:47 +0000
Subject: [PATCH 24/28] fix: Roaring: x -= x and x ^= x give the empty set
 instead of using freed containers

---
 cpp/roaring.hh | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cpp/roaring.hh b/cpp/roaring.hh
index 8a3b8b6..37e8238 100644
--- a/cpp/roaring.hh
+++ b/cpp/roaring.hh
@@ -341,6 +341,10 @@ class Roaring {
      * is not modified.
      */
     Roaring &operator-=(const Roaring &r) noexcept {
+        if (this == &r) {  // the C function needs two different bitmaps
+            api::roaring_bitmap_clear(&roaring);
+            return *this;
+        }
         api::roaring_bitmap_andnot_inplace(&roaring, &r.roaring);
         return *this;
     }
@@ -363,6 +367,10 @@ class Roaring {
      * is not modified.
      */
     Roaring &operator^=(const Roaring &r) noexcept {
+        if (this == &r) {  // the C function needs two different bitmaps
+            api::roaring_bitmap_clear(&roaring);
+            return *this;
+        }
         api::roaring_bitmap_xor_inplace(&roaring, &r.roaring);
         return *this;
     }
-- 
2.43.0


From baebff82bf9dedb18877807e77ccc0616f869bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:47 +0000
Subject: [PATCH 25/28] fix: Roaring64Map iterator: comparing the end with
 another position does not dereference the end

---
 cpp/roaring64map.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/roaring64map.hh b/cpp/roaring64map.hh
index 7de53cb..ecbeba5 100644
--- a/cpp/roaring64map.hh
+++ b/cpp/roaring64map.hh
@@ -1849,13 +1849,13 @@ class Roaring64MapSetBitBiDirectionalIterator {
 
     bool operator==(const Roaring64MapSetBitBiDirectionalIterator &o) const {
         if (map_iter == p->cend() && o.map_iter == o.p->cend()) return true;
-        if (o.map_iter == o.p->cend()) return false;
+        if (map_iter == p->cend() || o.map_iter == o.p->cend()) return false;
         return **this == *o;
     }
 
     bool operator!=(const Roaring64MapSetBitBiDirectionalIterator &o) const {
         if (map_iter == p->cend() && o.map_iter == o.p->cend()) return false;
-        if (o.map_iter == o.p->cend()) return true;
+        if (map_iter == p->cend() || o.map_iter == o.p->cend()) return true;
         return **this != *o;
     }
 
-- 
2.43.0


From 6b12ee8565ac82a65879b02e6c253df9b58a44ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:48 +0000
Subject: [PATCH 26/28] fix: Roaring64Map iterator: move_equalorlarger and
 end-- skip empty inner bitmaps

---
 cpp/roaring64map.hh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cpp/roaring64map.hh b/cpp/roaring64map.hh
index ecbeba5..01dcc87 100644
--- a/cpp/roaring64map.hh
+++ b/cpp/roaring64map.hh
@@ -1800,6 +1800,9 @@ class Roaring64MapSetBitBiDirectionalIterator {
                 if (roaring_uint32_iterator_move_equalorlarger(
                         &i, Roaring64Map::lowBytes(x)))
                     return true;
+            }
+            // The inner bitmaps may be empty.
+            while (!i.has_value) {
                 ++map_iter;
                 if (map_iter == p->cend()) return false;
                 roaring_iterator_init(&map_iter->second.roaring, &i);
@@ -1835,7 +1838,7 @@ class Roaring64MapSetBitBiDirectionalIterator {
         if (map_iter == p->cend()) {
             --map_iter;
             roaring_iterator_init_last(&map_iter->second.roaring, &i);
-            return orig;
+            if (i.has_value) return orig;
         }
 
         roaring_uint32_iterator_previous(&i);
-- 
2.43.0


From 3e4e6a8dd38d7b27117706e8d2be92f280406c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:48 +0000
Subject: [PATCH 27/28] fix: Roaring::end() belongs to its own bitmap, not to
 the first one that was asked

---
 cpp/roaring.hh | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/cpp/roaring.hh b/cpp/roaring.hh
index 37e8238..9998903 100644
--- a/cpp/roaring.hh
+++ b/cpp/roaring.hh
@@ -919,7 +919,7 @@ class Roaring {
      * A bogus iterator that can be used together with begin()
      * for constructions such as for (auto i = b.begin(); * i!=b.end(); ++i) {}
      */
-    const_iterator &end() const;
+    const_iterator end() const;
 
     roaring_bitmap_t roaring;
 };
@@ -1029,9 +1029,8 @@ inline RoaringSetBitBiDirectionalIterator Roaring::begin() const {
     return RoaringSetBitBiDirectionalIterator(*this);
 }
 
-inline RoaringSetBitBiDirectionalIterator &Roaring::end() const {
-    static RoaringSetBitBiDirectionalIterator e(*this, true);
-    return e;
+inline RoaringSetBitBiDirectionalIterator Roaring::end() const {
+    return RoaringSetBitBiDirectionalIterator(*this, true);
 }
 
 }  // namespace roaring
-- 
2.43.0


From ed3e037ca8c34bac6f29d626127c3239aa274bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:48 +0000
Subject: [PATCH 28/28] fix: Roaring64Map read functions advance by the bytes
 the inner bitmap takes in the buffer

---
 cpp/roaring64map.hh | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/cpp/roaring64map.hh b/cpp/roaring64map.hh
index 01dcc87..8c15459 100644
--- a/cpp/roaring64map.hh
+++ b/cpp/roaring64map.hh
@@ -1177,7 +1177,7 @@ class Roaring64Map {
             // read map value Roaring
             Roaring read_var = Roaring::read(buf, portable);
             // forward buffer past the last Roaring Bitmap
-            buf += read_var.getSizeInBytes(portable);
+            buf += serializedSize(buf, SIZE_MAX, portable);
             result.emplaceOrInsert(key, std::move(read_var));
         }
         return result;
@@ -1212,7 +1212,7 @@ class Roaring64Map {
             // read map value Roaring
             Roaring read_var = Roaring::readSafe(buf, maxbytes);
             // forward buffer past the last Roaring Bitmap
-            size_t tz = read_var.getSizeInBytes(true);
+            size_t tz = serializedSize(buf, maxbytes, true);
             buf += tz;
             maxbytes -= tz;
             result.emplaceOrInsert(key, std::move(read_var));
@@ -1289,7 +1289,7 @@ class Roaring64Map {
             // read map value Roaring
             Roaring read_var = Roaring::portableDeserializeFrozen(buf);
             // forward buffer past the last Roaring bitmap
-            buf += read_var.getSizeInBytes(true);
+            buf += serializedSize(buf, SIZE_MAX, true);
             result.emplaceOrInsert(key, std::move(read_var));
         }
         return result;
@@ -1576,6 +1576,25 @@ class Roaring64Map {
     const_iterator end() const;
 
    private:
+    /**
+     * The number of bytes taken by the serialized inner bitmap that starts at
+     * buf. The size of the bitmap read from it may be another one: not all
+     * serialized forms of a bitmap have the same size.
+     */
+    static size_t serializedSize(const char *buf, size_t maxbytes,
+                                 bool portable) {
+        if (portable) {
+            return api::roaring_bitmap_portable_deserialize_size(buf, maxbytes);
+        }
+        if (buf[0] == 1) {  // array of 32-bit values, preceded by its length
+            uint32_t length;
+            std::memcpy(&length, buf + 1, sizeof(length));
+            return 1 + sizeof(length) + length * sizeof(uint32_t);
+        }
+        return 1 + api::roaring_bitmap_portable_deserialize_size(buf + 1,
+                                                                 maxbytes - 1);
+    }
+
     typedef std::map<uint32_t, Roaring> roarings_t;
     roarings_t roarings{};  // The empty constructor silences warnings from
                             // pedantic static analyzers.
-- 
2.43.0


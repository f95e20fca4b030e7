From 4d579eb09528ef3ca80d9087b92d9f1140e5dad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:35 +0000
Subject: [PATCH 01/77] fix: prefix search in the radix tree must stop at a
 partial prefix mismatch

---
 src/commons/collections/art.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/commons/collections/art.c b/src/commons/collections/art.c
index 6d15e1d..6ff9db0 100644
--- a/src/commons/collections/art.c
+++ b/src/commons/collections/art.c
@@ -1073,16 +1073,16 @@ art_iter_prefix(art_tree *t, const unsigned char *key, int key_len, art_callback
                 prefix_len = n->partial_len;
             }
 
-            // If there is no match, search is terminated
-            if (!prefix_len) {
-                return 0;
-
-                // If we've matched the prefix, iterate on this node
-            }
-            else if (depth + prefix_len == key_len) {
+            // If we've matched the prefix, iterate on this node
+            if (depth + prefix_len == key_len) {
                 return recursive_iter(n, cb, data);
             }
 
+            // If the node's prefix does not match in full, search is terminated
+            if ((uint32_t)prefix_len < n->partial_len) {
+                return 0;
+            }
+
             // if there is a full match, go deeper
             depth = depth + n->partial_len;
         }
-- 
2.43.0


From 0a3717369443261fa92fdb8e68609b806a215a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:50 +0000
Subject: [PATCH 02/77] fix: radix tree lookup and delete must not read past
 the key when a compressed path is longer

---
 src/commons/collections/art.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/commons/collections/art.c b/src/commons/collections/art.c
index 6ff9db0..4cdd40b 100644
--- a/src/commons/collections/art.c
+++ b/src/commons/collections/art.c
@@ -327,6 +327,9 @@ art_search(const art_tree *t, const unsigned char *key, int key_len)
             if (prefix_len != min(MAX_PREFIX_LEN, n->partial_len))
                 return NULL;
             depth = depth + n->partial_len;
+            // The compressed path may be longer than the key
+            if (depth > key_len)
+                return NULL;
         }
 
         // Recursively search
@@ -893,6 +896,9 @@ recursive_delete(art_node *n, art_node **ref, const unsigned char *key, int key_
             return NULL;
         }
         depth = depth + n->partial_len;
+        // The compressed path may be longer than the key
+        if (depth > key_len)
+            return NULL;
     }
 
     // Find child node
-- 
2.43.0


From 69495883ab1647501d5eae9a5d6f0ee5ab467e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:46 +0000
Subject: [PATCH 03/77] fix: deque must keep its elements when it grows and
 must not shrink to no capacity

---
 src/commons/collections/pdc_deque.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/commons/collections/pdc_deque.c b/src/commons/collections/pdc_deque.c
index 5d2280c..2da0e88 100644
--- a/src/commons/collections/pdc_deque.c
+++ b/src/commons/collections/pdc_deque.c
@@ -22,10 +22,11 @@ resize_deque(PDC_deque_t *deque, size_t new_capacity)
         exit(1);
     }
 
-    size_t i = 0;
-    while (deque->head != deque->tail) {
-        new_data[i++] = deque->data[deque->head];
-        deque->head   = (deque->head + 1) % deque->capacity;
+    // head equals tail both when the deque is empty and when it is full, so count the elements
+    size_t i;
+    for (i = 0; i < deque->size; i++) {
+        new_data[i] = deque->data[deque->head];
+        deque->head = (deque->head + 1) % deque->capacity;
     }
 
     free(deque->data);
@@ -66,7 +67,7 @@ PDC_deque_pop_front(PDC_deque_t *deque)
     void *value = deque->data[deque->head];
     deque->head = (deque->head + 1) % deque->capacity;
     deque->size--;
-    if (deque->size <= deque->capacity / 4) {
+    if (deque->capacity > DEFAULT_CAPACITY && deque->size <= deque->capacity / 4) {
         resize_deque(deque, deque->capacity / 2);
     }
     return value;
@@ -81,7 +82,7 @@ PDC_deque_pop_back(PDC_deque_t *deque)
     deque->tail = (deque->tail - 1 + deque->capacity) % deque->capacity;
     void *value = deque->data[deque->tail];
     deque->size--;
-    if (deque->size <= deque->capacity / 4) {
+    if (deque->capacity > DEFAULT_CAPACITY && deque->size <= deque->capacity / 4) {
         resize_deque(deque, deque->capacity / 2);
     }
     return value;
-- 
2.43.0


From c414b05221a06ca1fa7168db52a607fc6659db53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:46 +0000
Subject: [PATCH 04/77] fix: vector must grow by at least one element when its
 expansion factor rounds to no growth

---
 src/commons/collections/pdc_vector.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/commons/collections/pdc_vector.c b/src/commons/collections/pdc_vector.c
index ac28c64..f0f3b3b 100644
--- a/src/commons/collections/pdc_vector.c
+++ b/src/commons/collections/pdc_vector.c
@@ -57,6 +57,9 @@ pdc_vector_add(PDC_VECTOR *vector, void *item)
     // Expand the array of items if necessary.
     if (vector->item_count >= vector->capacity) {
         vector->capacity *= vector->expansion_factor;
+        // A small factor may round down to no growth at all
+        if (vector->capacity <= vector->item_count)
+            vector->capacity = vector->item_count + 1;
         vector->items = (void **)realloc(vector->items, vector->capacity * sizeof(void *));
         if (vector->items == NULL) {
             return;
-- 
2.43.0


From 06c4d98093aba22b5050133c6d575649173626ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:47 +0000
Subject: [PATCH 05/77] fix: Bloom filter bitmap must start zeroed and keep its
 counters when it grows

---
 src/server/dablooms/pdc_dablooms.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/server/dablooms/pdc_dablooms.c b/src/server/dablooms/pdc_dablooms.c
index 2be56c8..fbcb2c0 100644
--- a/src/server/dablooms/pdc_dablooms.c
+++ b/src/server/dablooms/pdc_dablooms.c
@@ -38,7 +38,17 @@ free_bitmap(bitmap_t *bitmap)
 bitmap_t *
 bitmap_resize(bitmap_t *bitmap, size_t new_size)
 {
-    bitmap->array = PDC_malloc(new_size);
+    char *array = (char *)PDC_calloc(1, new_size);
+
+    if (array == NULL) {
+        return NULL;
+    }
+    /* keep the counters recorded so far */
+    if (bitmap->array != NULL) {
+        memcpy(array, bitmap->array, bitmap->bytes < new_size ? bitmap->bytes : new_size);
+        free(bitmap->array);
+    }
+    bitmap->array = array;
     bitmap->bytes = new_size;
     return bitmap;
 }
-- 
2.43.0


From ad9d0546b4c1ad5f1a631be615b3be8c3d03c782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:57 +0000
Subject: [PATCH 06/77] fix: stack implementation must define the functions its
 header declares

---
 src/commons/collections/pdc_stack.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/commons/collections/pdc_stack.c b/src/commons/collections/pdc_stack.c
index 3b33275..8bd5cb8 100644
--- a/src/commons/collections/pdc_stack.c
+++ b/src/commons/collections/pdc_stack.c
@@ -6,7 +6,7 @@
 #define DEFAULT_CAPACITY 16
 
 void
-stack_init(PDC_stack_t *stack)
+PDC_stack_init(PDC_stack_t *stack)
 {
     stack->data     = malloc(sizeof(void *) * DEFAULT_CAPACITY);
     stack->size     = 0;
@@ -14,7 +14,7 @@ stack_init(PDC_stack_t *stack)
 }
 
 void
-stack_push(PDC_stack_t *stack, void *value)
+PDC_stack_push(PDC_stack_t *stack, void *value)
 {
     if (stack->size == stack->capacity) {
         size_t new_capacity = stack->capacity * 2;
@@ -30,7 +30,7 @@ stack_push(PDC_stack_t *stack, void *value)
 }
 
 void *
-stack_pop(PDC_stack_t *stack)
+PDC_stack_pop(PDC_stack_t *stack)
 {
     if (stack->size == 0) {
         printf("Stack underflow!\n");
@@ -40,7 +40,7 @@ stack_pop(PDC_stack_t *stack)
 }
 
 void
-stack_free(PDC_stack_t *stack)
+PDC_stack_free(PDC_stack_t *stack)
 {
     free(stack->data);
 }
\ No newline at end of file
-- 
2.43.0


From 129d77a388e1b71b215eac24179b23b88b54533a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:26 +0000
Subject: [PATCH 07/77] fix: substring must reject a start beyond the end of
 the string

---
 src/commons/utils/string_utils.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/commons/utils/string_utils.c b/src/commons/utils/string_utils.c
index 546d567..0863f4a 100644
--- a/src/commons/utils/string_utils.c
+++ b/src/commons/utils/string_utils.c
@@ -121,6 +121,11 @@ substring(const char *str, int start, int end)
         end = str_len;
     }
 
+    // Nothing to take when it starts beyond the length of the string
+    if (start > end) {
+        return NULL;
+    }
+
     // Calculate the length of the substring
     int substr_len = end - start;
 
-- 
2.43.0


From ee55bce0f95c88f61616349c29d583016f95656e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:26 +0000
Subject: [PATCH 08/77] fix: the pattern '*' must match every string

---
 src/commons/utils/string_utils.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/commons/utils/string_utils.c b/src/commons/utils/string_utils.c
index 0863f4a..f062e55 100644
--- a/src/commons/utils/string_utils.c
+++ b/src/commons/utils/string_utils.c
@@ -61,6 +61,11 @@ simple_matches(const char *str, const char *pattern)
             result = (tok == NULL ? 0 : endsWith(str, tok));
             break;
         case PATTERN_MIDDLE:
+            // a lone '*' matches every string
+            if (strlen(pattern) == 1) {
+                result = 1;
+                break;
+            }
             tok    = substring(pattern, 1, strlen(pattern) - 1);
             result = (tok == NULL ? 0 : contains(str, tok));
             break;
-- 
2.43.0


From 8a6c3afd1b34312c2b96df41b14e3668aebdcf65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:26 +0000
Subject: [PATCH 09/77] fix: range test of an absent tag must not dereference a
 null pointer

---
 src/commons/utils/query_utils.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/commons/utils/query_utils.c b/src/commons/utils/query_utils.c
index c0ea640..60fd41d 100644
--- a/src/commons/utils/query_utils.c
+++ b/src/commons/utils/query_utils.c
@@ -340,6 +340,8 @@ int
 is_value_in_range(const char *tagslist, const char *tagname, int from, int to)
 {
     const char *matched_kv = k_v_matches_p(tagslist, tagname, NULL);
+    if (matched_kv == NULL)
+        return 0;
     char *      value      = get_value(matched_kv, '=');
     int         v          = atoi(value);
     return (v >= from && v <= to);
-- 
2.43.0


From 9587592521752c7beb3eebec8f22c36851ef7de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:18 +0000
Subject: [PATCH 10/77] fix: buf_map request must transfer the whole data type,
 not its lowest byte

---
 src/server/include/pdc_client_server_common.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/server/include/pdc_client_server_common.h b/src/server/include/pdc_client_server_common.h
index 98edcac..1051fa3 100644
--- a/src/server/include/pdc_client_server_common.h
+++ b/src/server/include/pdc_client_server_common.h
@@ -2569,12 +2569,12 @@ hg_proc_buf_map_in_t(hg_proc_t proc, void *data)
         // HG_LOG_ERROR("Proc error");
         return ret;
     }
-    ret = hg_proc_uint8_t(proc, &struct_data->local_type);
+    ret = hg_proc_int32_t(proc, &struct_data->local_type);
     if (ret != HG_SUCCESS) {
         // HG_LOG_ERROR("Proc error");
         return ret;
     }
-    ret = hg_proc_uint8_t(proc, &struct_data->remote_type);
+    ret = hg_proc_int32_t(proc, &struct_data->remote_type);
     if (ret != HG_SUCCESS) {
         // HG_LOG_ERROR("Proc error");
         return ret;
-- 
2.43.0


From 2fc3c5cca5444cd25fe494ee865c147122f5db8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:48 +0000
Subject: [PATCH 11/77] fix: element size of the 32-bit, short, long, boolean
 and size_t types must not be 0

---
 src/server/pdc_client_server_common.c | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/server/pdc_client_server_common.c b/src/server/pdc_client_server_common.c
index d90f83b..df45ae9 100644
--- a/src/server/pdc_client_server_common.c
+++ b/src/server/pdc_client_server_common.c
@@ -287,6 +287,30 @@ PDC_get_var_type_size(pdc_var_type_t dtype)
             ret_value = sizeof(uint);
             goto done;
             break;
+        case PDC_BOOLEAN:
+            ret_value = sizeof(bool);
+            goto done;
+            break;
+        case PDC_SHORT:
+            ret_value = sizeof(short);
+            goto done;
+            break;
+        case PDC_INT32:
+            ret_value = sizeof(int32_t);
+            goto done;
+            break;
+        case PDC_UINT32:
+            ret_value = sizeof(uint32_t);
+            goto done;
+            break;
+        case PDC_LONG:
+            ret_value = sizeof(long);
+            goto done;
+            break;
+        case PDC_SIZE_T:
+            ret_value = sizeof(size_t);
+            goto done;
+            break;
         case PDC_UNKNOWN:
         default:
             PGOTO_ERROR(
-- 
2.43.0


From bbaf72e825db940b67c124055aa31c9f54fda6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:09 +0000
Subject: [PATCH 12/77] fix: a one-dimensional write may start anywhere inside
 a stored region

---
 src/server/pdc_server_region/pdc_server_data.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/server/pdc_server_region/pdc_server_data.c b/src/server/pdc_server_region/pdc_server_data.c
index 9b3ae5b..e0e100d 100644
--- a/src/server/pdc_server_region/pdc_server_data.c
+++ b/src/server/pdc_server_region/pdc_server_data.c
@@ -4789,9 +4789,9 @@ PDC_Server_data_write_out(uint64_t obj_id, struct pdc_region_info *region_info,
             if (region_info->ndim == 1) {
                 // 1D can overwrite data in region directly
                 pos = (overlap_offset[0] - overlap_region->start[0]) * unit;
-                if (pos > write_size) {
+                if (pos > overlap_region->count[0] * unit) {
                     printf("==PDC_SERVER[%d]: Error with buf pos calculation %llu / %llu! @ line %d\n",
-                           pdc_server_rank_g, pos, write_size, __LINE__);
+                           pdc_server_rank_g, pos, overlap_region->count[0] * unit, __LINE__);
                     ret_value = -1;
                     goto done;
                 }
-- 
2.43.0


From 629d78af48d5580db6abb33bccdcd07e66d5a9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:54 +0000
Subject: [PATCH 13/77] fix: a cached write must update every overlapping
 cached region

---
 .../pdc_server_region/pdc_server_region_cache.c      | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/server/pdc_server_region/pdc_server_region_cache.c b/src/server/pdc_server_region/pdc_server_region_cache.c
index 40564e7..e541e7b 100644
--- a/src/server/pdc_server_region/pdc_server_region_cache.c
+++ b/src/server/pdc_server_region/pdc_server_region_cache.c
@@ -560,23 +560,21 @@ PDC_transfer_request_data_write_out(uint64_t obj_id, int obj_ndim, const uint64_
         // data.
         region_cache_iter = obj_cache->region_cache;
         while (region_cache_iter != NULL) {
-            flag = 0;
             PDC_region_overlap_detect(region_info->ndim, region_info->offset, region_info->size,
                                       region_cache_iter->region_cache_info->offset,
                                       region_cache_iter->region_cache_info->size, &overlap_offset,
                                       &overlap_size);
             if (overlap_offset) {
-                flag = detect_region_contained(region_info->offset, region_info->size,
-                                               region_cache_iter->region_cache_info->offset,
-                                               region_cache_iter->region_cache_info->size, region_info->ndim);
+                // Every cached region that overlaps has to be updated, so keep going after one contains it.
+                if (detect_region_contained(region_info->offset, region_info->size,
+                                            region_cache_iter->region_cache_info->offset,
+                                            region_cache_iter->region_cache_info->size, region_info->ndim))
+                    flag = 1;
                 memcpy_overlap_subregion(
                     region_info->ndim, unit, buf, region_info->offset, region_info->size,
                     region_cache_iter->region_cache_info->buf, region_cache_iter->region_cache_info->offset,
                     region_cache_iter->region_cache_info->size, overlap_offset, overlap_size);
                 free(overlap_offset);
-                if (flag) {
-                    break;
-                }
             }
             /*
              else {
-- 
2.43.0


From aa848d0c3d79b203a344488cd0da75cf3b7159f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:54 +0000
Subject: [PATCH 14/77] fix: merging cached regions must skip whole elements,
 not bytes

---
 src/server/pdc_server_region/pdc_server_region_cache.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/server/pdc_server_region/pdc_server_region_cache.c b/src/server/pdc_server_region/pdc_server_region_cache.c
index e541e7b..48d57b1 100644
--- a/src/server/pdc_server_region/pdc_server_region_cache.c
+++ b/src/server/pdc_server_region/pdc_server_region_cache.c
@@ -652,7 +652,8 @@ merge_requests(uint64_t *start, uint64_t *end, int request_size, char **buf, uin
         }
         else {
             if (end[i] > new_end[0][index]) {
-                memcpy(ptr, buf[i] + new_end[0][index] - start[i], (end[i] - new_end[0][index]) * unit);
+                memcpy(ptr, buf[i] + (new_end[0][index] - start[i]) * unit,
+                       (end[i] - new_end[0][index]) * unit);
                 ptr += (end[i] - new_end[0][index]) * unit;
                 new_end[0][index] = end[i];
             }
-- 
2.43.0


From 59e44b61a0fe9b04887f4f2757e6853c5f26bb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:54 +0000
Subject: [PATCH 15/77] fix: do not touch a cached object after a full cache
 was flushed and freed

---
 src/server/pdc_server_region/pdc_server_region_cache.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/server/pdc_server_region/pdc_server_region_cache.c b/src/server/pdc_server_region/pdc_server_region_cache.c
index 48d57b1..c74b464 100644
--- a/src/server/pdc_server_region/pdc_server_region_cache.c
+++ b/src/server/pdc_server_region/pdc_server_region_cache.c
@@ -472,6 +472,9 @@ PDC_region_cache_register(uint64_t obj_id, int obj_ndim, const uint64_t *obj_dim
     memcpy(region_cache_info->buf, buf, sizeof(char) * buf_size);
     total_cache_size += buf_size;
 
+    // The object may be gone once the lock is released or the cache is flushed.
+    gettimeofday(&(obj_cache->timestamp), NULL);
+
     pthread_mutex_unlock(&pdc_obj_cache_list_mutex);
 
     if (total_cache_size > maximum_cache_size) {
@@ -487,8 +490,6 @@ PDC_region_cache_register(uint64_t obj_id, int obj_ndim, const uint64_t *obj_dim
     // printf("created cache region at offset %llu, buf size %llu, unit = %ld, ndim = %ld, obj_id = %llu\n",
     //       offset[0], buf_size, unit, ndim, (long long unsigned)obj_cache->obj_id);
 
-    gettimeofday(&(obj_cache->timestamp), NULL);
-
     return 0;
 }
 
-- 
2.43.0


From d6157854337f683c294cf1e9c0483afd717b09b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:56 +0000
Subject: [PATCH 16/77] fix: a cached write must stay atomic with respect to
 other writes of its object

---
 .../pdc_server_region_cache.c                 | 44 +++++++++++++------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/src/server/pdc_server_region/pdc_server_region_cache.c b/src/server/pdc_server_region/pdc_server_region_cache.c
index c74b464..f75439c 100644
--- a/src/server/pdc_server_region/pdc_server_region_cache.c
+++ b/src/server/pdc_server_region/pdc_server_region_cache.c
@@ -393,10 +393,9 @@ PDC_region_cache_copy(char *buf, char *buf2, const uint64_t *offset, const uint6
  * search complexity for subregion search.
  */
 
-int
-PDC_region_cache_register(uint64_t obj_id, int obj_ndim, const uint64_t *obj_dims, const char *buf,
-                          size_t buf_size, const uint64_t *offset, const uint64_t *size, int ndim,
-                          size_t unit)
+static int
+pdc_region_cache_insert(uint64_t obj_id, int obj_ndim, const uint64_t *obj_dims, const char *buf,
+                        size_t buf_size, const uint64_t *offset, const uint64_t *size, int ndim, size_t unit)
 {
     pdc_obj_cache *         obj_cache_iter, *obj_cache = NULL;
     struct pdc_region_info *region_cache_info;
@@ -405,8 +404,6 @@ PDC_region_cache_register(uint64_t obj_id, int obj_ndim, const uint64_t *obj_dim
         return FAIL;
     }
 
-    pthread_mutex_lock(&pdc_obj_cache_list_mutex);
-
     obj_cache_iter = obj_cache_list;
     while (obj_cache_iter != NULL) {
         if (obj_cache_iter->obj_id == obj_id) {
@@ -472,11 +469,17 @@ PDC_region_cache_register(uint64_t obj_id, int obj_ndim, const uint64_t *obj_dim
     memcpy(region_cache_info->buf, buf, sizeof(char) * buf_size);
     total_cache_size += buf_size;
 
-    // The object may be gone once the lock is released or the cache is flushed.
     gettimeofday(&(obj_cache->timestamp), NULL);
 
-    pthread_mutex_unlock(&pdc_obj_cache_list_mutex);
+    // printf("created cache region at offset %llu, buf size %llu, unit = %ld, ndim = %ld, obj_id = %llu\n",
+    //       offset[0], buf_size, unit, ndim, (long long unsigned)obj_cache->obj_id);
 
+    return 0;
+}
+
+static void
+pdc_region_cache_flush_if_full()
+{
     if (total_cache_size > maximum_cache_size) {
         int server_rank = 0;
 #ifdef ENABLE_MPI
@@ -486,11 +489,21 @@ PDC_region_cache_register(uint64_t obj_id, int obj_ndim, const uint64_t *obj_dim
                total_cache_size / 1048576.0, maximum_cache_size / 1048576.0);
         PDC_region_cache_flush_all();
     }
+}
 
-    // printf("created cache region at offset %llu, buf size %llu, unit = %ld, ndim = %ld, obj_id = %llu\n",
-    //       offset[0], buf_size, unit, ndim, (long long unsigned)obj_cache->obj_id);
+int
+PDC_region_cache_register(uint64_t obj_id, int obj_ndim, const uint64_t *obj_dims, const char *buf,
+                          size_t buf_size, const uint64_t *offset, const uint64_t *size, int ndim,
+                          size_t unit)
+{
+    int ret_value;
 
-    return 0;
+    pthread_mutex_lock(&pdc_obj_cache_list_mutex);
+    ret_value = pdc_region_cache_insert(obj_id, obj_ndim, obj_dims, buf, buf_size, offset, size, ndim, unit);
+    pthread_mutex_unlock(&pdc_obj_cache_list_mutex);
+    pdc_region_cache_flush_if_full();
+
+    return ret_value;
 }
 
 int
@@ -590,11 +603,14 @@ PDC_transfer_request_data_write_out(uint64_t obj_id, int obj_ndim, const uint64_
             region_cache_iter = region_cache_iter->next;
         }
     }
-    pthread_mutex_unlock(&pdc_obj_cache_list_mutex);
+    // The lock is kept until the region is in the cache, otherwise two overlapping writes could each miss the
+    // other and leave different data behind.
     if (!flag) {
-        PDC_region_cache_register(obj_id, obj_ndim, obj_dims, buf, write_size, region_info->offset,
-                                  region_info->size, region_info->ndim, unit);
+        pdc_region_cache_insert(obj_id, obj_ndim, obj_dims, buf, write_size, region_info->offset,
+                                region_info->size, region_info->ndim, unit);
     }
+    pthread_mutex_unlock(&pdc_obj_cache_list_mutex);
+    pdc_region_cache_flush_if_full();
 
     // PDC_Server_data_write_out2(obj_id, region_info, buf, unit);
 #ifdef PDC_TIMING
-- 
2.43.0


From a741a7a50006f6ffb47ceeb863f08c4e7093d0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:34 +0000
Subject: [PATCH 17/77] fix: a multidimensional local region must be packed
 with the rows of the object, as it is unpacked

---
 src/api/pdc_region/pdc_region_transfer.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/api/pdc_region/pdc_region_transfer.c b/src/api/pdc_region/pdc_region_transfer.c
index ee4e48c..7cf044d 100644
--- a/src/api/pdc_region/pdc_region_transfer.c
+++ b/src/api/pdc_region/pdc_region_transfer.c
@@ -537,7 +537,7 @@ pack_region_buffer(char *buf, uint64_t *obj_dims, size_t total_data_size, int lo
         if (access_type == PDC_WRITE) {
             ptr = *new_buf;
             for (i = 0; i < local_size[0]; ++i) {
-                memcpy(ptr, buf + ((local_offset[0] + i) * local_size[1] + local_offset[1]) * unit,
+                memcpy(ptr, buf + ((local_offset[0] + i) * obj_dims[1] + local_offset[1]) * unit,
                        local_size[1] * unit);
                 ptr += local_size[1] * unit;
             }
@@ -550,8 +550,8 @@ pack_region_buffer(char *buf, uint64_t *obj_dims, size_t total_data_size, int lo
             for (i = 0; i < local_size[0]; ++i) {
                 for (j = 0; j < local_size[1]; ++j) {
                     memcpy(ptr,
-                           buf + ((local_offset[0] + i) * local_size[1] * local_size[2] +
-                                  (local_offset[1] + j) * local_size[2] + local_offset[2]) *
+                           buf + ((local_offset[0] + i) * obj_dims[1] * obj_dims[2] +
+                                  (local_offset[1] + j) * obj_dims[2] + local_offset[2]) *
                                      unit,
                            local_size[2] * unit);
                     ptr += local_size[2] * unit;
-- 
2.43.0


From d484c900aa31b61828ce93affa24ea0bb0486ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:34 +0000
Subject: [PATCH 18/77] fix: removing the last transfer request of an object
 must not leave a dangling list end

---
 src/api/pdc_region/pdc_region_transfer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/api/pdc_region/pdc_region_transfer.c b/src/api/pdc_region/pdc_region_transfer.c
index 7cf044d..3d83271 100644
--- a/src/api/pdc_region/pdc_region_transfer.c
+++ b/src/api/pdc_region/pdc_region_transfer.c
@@ -366,6 +366,8 @@ remove_local_transfer_request(struct _pdc_obj_info *p, pdcid_t transfer_request_
             else {
                 // Not the first element, just take the current element away.
                 previous->next = temp->next;
+                if (p->local_transfer_request_end == temp)
+                    p->local_transfer_request_end = previous;
                 free(temp);
             }
             p->local_transfer_request_size--;
-- 
2.43.0


From a82deeedc1c5e774c002e38d8ca0fa289666f40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:34 +0000
Subject: [PATCH 19/77] fix: bulk request buffer must have room for the
 dimensions of the object

---
 src/api/pdc_region/pdc_region_transfer.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/api/pdc_region/pdc_region_transfer.c b/src/api/pdc_region/pdc_region_transfer.c
index 3d83271..c145705 100644
--- a/src/api/pdc_region/pdc_region_transfer.c
+++ b/src/api/pdc_region/pdc_region_transfer.c
@@ -1157,12 +1157,14 @@ PDC_Client_pack_all_requests(int n_objs, pdc_transfer_request_start_all_pkg **tr
             obj_data_size *= transfer_requests[i]->remote_size[j];
         }
         if (access_type == PDC_WRITE) {
-            data_size += sizeof(uint64_t) * transfer_requests[i]->transfer_request->remote_region_ndim * 3 +
+            data_size += sizeof(uint64_t) * (transfer_requests[i]->transfer_request->remote_region_ndim * 2 +
+                                             transfer_requests[i]->transfer_request->obj_ndim) +
                          obj_data_size;
         }
         else {
             total_obj_data_size += obj_data_size;
-            data_size += sizeof(uint64_t) * transfer_requests[i]->transfer_request->remote_region_ndim * 3;
+            data_size += sizeof(uint64_t) * (transfer_requests[i]->transfer_request->remote_region_ndim * 2 +
+                                             transfer_requests[i]->transfer_request->obj_ndim);
         }
     }
     // printf("checkpoint @ line %d\n", __LINE__);
-- 
2.43.0


From 3fd84ba6ff6046974e419998e4a64c804bbf4575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:34 +0000
Subject: [PATCH 20/77] fix: checkpoint of region placements must hold the
 regions, not their addresses

---
 .../pdc_server_region_transfer_metadata_query.c                 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server/pdc_server_region/pdc_server_region_transfer_metadata_query.c b/src/server/pdc_server_region/pdc_server_region_transfer_metadata_query.c
index 4e41132..2bc794f 100644
--- a/src/server/pdc_server_region/pdc_server_region_transfer_metadata_query.c
+++ b/src/server/pdc_server_region/pdc_server_region_transfer_metadata_query.c
@@ -226,7 +226,7 @@ transfer_request_metadata_query_checkpoint(char **checkpoint, uint64_t *checkpoi
         while (region_temp) {
             memcpy(ptr, &(region_temp->data_server_id), sizeof(uint32_t));
             ptr += sizeof(uint32_t);
-            memcpy(ptr, &(region_temp->reg_offset), sizeof(uint64_t) * obj_temp->ndim * 2);
+            memcpy(ptr, region_temp->reg_offset, sizeof(uint64_t) * obj_temp->ndim * 2);
             ptr += sizeof(uint64_t) * obj_temp->ndim * 2;
             region_temp = region_temp->next;
         }
-- 
2.43.0


From ae7ba05549d79aa9cb85555a95884ea4180c0535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:34 +0000
Subject: [PATCH 21/77] fix: restart of region placements must build complete
 and terminated lists

---
 .../pdc_server_region_transfer_metadata_query.c            | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/server/pdc_server_region/pdc_server_region_transfer_metadata_query.c b/src/server/pdc_server_region/pdc_server_region_transfer_metadata_query.c
index 2bc794f..7229918 100644
--- a/src/server/pdc_server_region/pdc_server_region_transfer_metadata_query.c
+++ b/src/server/pdc_server_region/pdc_server_region_transfer_metadata_query.c
@@ -79,13 +79,14 @@ transfer_request_metadata_query_init(int pdc_server_size_input, char *checkpoint
         for (i = 0; i < n_objs; ++i) {
             if (metadata_server_objs) {
                 metadata_server_objs_end->next =
-                    (pdc_obj_metadata_pkg *)malloc(sizeof(pdc_obj_region_metadata));
+                    (pdc_obj_metadata_pkg *)malloc(sizeof(pdc_obj_metadata_pkg));
                 metadata_server_objs_end = metadata_server_objs_end->next;
             }
             else {
-                metadata_server_objs     = (pdc_obj_metadata_pkg *)malloc(sizeof(pdc_obj_region_metadata));
+                metadata_server_objs     = (pdc_obj_metadata_pkg *)malloc(sizeof(pdc_obj_metadata_pkg));
                 metadata_server_objs_end = metadata_server_objs;
             }
+            metadata_server_objs_end->next = NULL;
 
             metadata_server_objs_end->obj_id = *(uint64_t *)ptr;
             ptr += sizeof(uint64_t);
@@ -110,7 +111,7 @@ transfer_request_metadata_query_init(int pdc_server_size_input, char *checkpoint
             ptr += sizeof(uint64_t) * metadata_server_objs_end->ndim * 2;
 
             for (j = 1; j < reg_count; ++j) {
-                metadata_server_objs_end->regions->next =
+                metadata_server_objs_end->regions_end->next =
                     (pdc_region_metadata_pkg *)malloc(sizeof(pdc_region_metadata_pkg));
                 metadata_server_objs_end->regions_end = metadata_server_objs_end->regions_end->next;
 
-- 
2.43.0


From 8417531d4bc32e8d0ed90bef96659c29f6f4703c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:34 +0000
Subject: [PATCH 22/77] fix: region placement answer must have room for objects
 that are not known

---
 .../pdc_server_region_transfer_metadata_query.c                  | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/server/pdc_server_region/pdc_server_region_transfer_metadata_query.c b/src/server/pdc_server_region/pdc_server_region_transfer_metadata_query.c
index 7229918..6f359e8 100644
--- a/src/server/pdc_server_region/pdc_server_region_transfer_metadata_query.c
+++ b/src/server/pdc_server_region/pdc_server_region_transfer_metadata_query.c
@@ -288,6 +288,7 @@ metadata_query_buf_create(pdc_obj_region_metadata *regions, int size, uint64_t *
                                                  (sizeof(uint32_t) + sizeof(uint64_t) * regions[i].ndim * 2);
         }
         else {
+            total_data_size += sizeof(int);
             printf("metadata_query_buf_create: Unable to find the object with ID %lu\n",
                    (long int)regions[i].obj_id);
         }
-- 
2.43.0


From 63565534631d2b4f010fb22b98d380c28034378d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:17 +0000
Subject: [PATCH 23/77] fix: transfer requests for regions that were never
 written must not break the client

---
 src/api/pdc_region/pdc_region_transfer.c | 79 +++++++++++++-----------
 1 file changed, 44 insertions(+), 35 deletions(-)

diff --git a/src/api/pdc_region/pdc_region_transfer.c b/src/api/pdc_region/pdc_region_transfer.c
index c145705..63c45ef 100644
--- a/src/api/pdc_region/pdc_region_transfer.c
+++ b/src/api/pdc_region/pdc_region_transfer.c
@@ -634,7 +634,7 @@ pack_region_metadata_query(pdc_transfer_request_start_all_pkg **transfer_request
 }
 
 static perr_t
-unpack_region_metadata_query(char *buf, pdc_transfer_request_start_all_pkg **transfer_request_input,
+unpack_region_metadata_query(char *buf, pdc_transfer_request_start_all_pkg **transfer_request_input, int n_objs,
                              pdc_transfer_request_start_all_pkg **transfer_request_head_ptr,
                              pdc_transfer_request_start_all_pkg **transfer_request_end_ptr, int *size_ptr)
 {
@@ -657,20 +657,11 @@ unpack_region_metadata_query(char *buf, pdc_transfer_request_start_all_pkg **tra
     ptr += sizeof(int);
     // printf("unpack_region_metadata_query: received %d obj partitions\n", size);
     counter = 0;
-    index   = 0;
-    for (i = 0; i < size; ++i) {
-        if (transfer_request_head) {
-            transfer_request_end->next =
-                (pdc_transfer_request_start_all_pkg *)malloc(sizeof(pdc_transfer_request_start_all_pkg));
-            transfer_request_end = transfer_request_end->next;
-        }
-        else {
-            transfer_request_head =
-                (pdc_transfer_request_start_all_pkg *)malloc(sizeof(pdc_transfer_request_start_all_pkg));
-            transfer_request_end = transfer_request_head;
-        }
-        // Obj ID + Obj dim + region offset + region size
+    index   = -1;
+    for (i = 0; i < size || index + 1 < n_objs;) {
+        // Next request. A region that has never been written has no partitions.
         if (!counter) {
+            index++;
             counter = *(int *)ptr;
             ptr += sizeof(int);
             local_request                = transfer_request_input[index]->transfer_request;
@@ -685,7 +676,20 @@ unpack_region_metadata_query(char *buf, pdc_transfer_request_start_all_pkg **tra
             // printf("unpack_region_metadata_query: checkpoint %d, local_request = %llu, index = %d\n",
             // __LINE__, (long long unsigned) local_request, index);
             set_obj_server_bufs(local_request);
+            if (!counter)
+                continue;
+        }
+        if (transfer_request_head) {
+            transfer_request_end->next =
+                (pdc_transfer_request_start_all_pkg *)malloc(sizeof(pdc_transfer_request_start_all_pkg));
+            transfer_request_end = transfer_request_end->next;
+        }
+        else {
+            transfer_request_head =
+                (pdc_transfer_request_start_all_pkg *)malloc(sizeof(pdc_transfer_request_start_all_pkg));
+            transfer_request_end = transfer_request_head;
         }
+        // Obj ID + Obj dim + region offset + region size
         transfer_request_end->next             = NULL;
         transfer_request_end->transfer_request = local_request;
         transfer_request_end->data_server_id   = *(uint32_t *)ptr;
@@ -736,9 +740,7 @@ unpack_region_metadata_query(char *buf, pdc_transfer_request_start_all_pkg **tra
                              transfer_request_end->remote_size);
         }
         counter--;
-        if (!counter) {
-            index++;
-        }
+        i++;
         // printf("unpack_region_metadata_query: @ line %d\n", __LINE__);
     }
 
@@ -756,7 +758,7 @@ register_metadata(pdc_transfer_request_start_all_pkg **transfer_request_input, i
                   int *output_size_ptr)
 {
     perr_t                               ret_value = SUCCEED;
-    int                                  i, j, index, size, output_size, remain_size, n_objs;
+    int                                  i, j, index, size, output_size, remain_size, n_objs, answered = 0;
     pdc_transfer_request_start_all_pkg **transfer_requests;
     pdc_transfer_request_start_all_pkg * transfer_request_head, *transfer_request_front_head,
         *transfer_request_end, **transfer_request_output, *previous = NULL;
@@ -810,17 +812,20 @@ register_metadata(pdc_transfer_request_start_all_pkg **transfer_request_input, i
                     output_buf, output_buf_size, query_id,
                     transfer_requests[index]->transfer_request->metadata_server_id);
                 // fprintf(stderr, "register_metadata: checkpoint %d\n", __LINE__);
-                unpack_region_metadata_query(output_buf, transfer_requests + index, &transfer_request_head,
-                                             &transfer_request_end, &output_size);
+                unpack_region_metadata_query(output_buf, transfer_requests + index, n_objs,
+                                             &transfer_request_head, &transfer_request_end, &output_size);
+                answered = 1;
                 // fprintf(stderr, "register_metadata: checkpoint %d\n", __LINE__);
                 free(output_buf);
-                if (transfer_request_front_head) {
-                    previous->next = transfer_request_head;
-                }
-                else {
-                    transfer_request_front_head = transfer_request_head;
+                if (transfer_request_head) {
+                    if (transfer_request_front_head) {
+                        previous->next = transfer_request_head;
+                    }
+                    else {
+                        transfer_request_front_head = transfer_request_head;
+                    }
+                    previous = transfer_request_end;
                 }
-                previous = transfer_request_end;
             }
             index = i;
         }
@@ -849,21 +854,24 @@ register_metadata(pdc_transfer_request_start_all_pkg **transfer_request_input, i
                 output_buf, output_buf_size, query_id,
                 transfer_requests[index]->transfer_request->metadata_server_id);
             // fprintf(stderr, "register_metadata: checkpoint %d\n", __LINE__);
-            unpack_region_metadata_query(output_buf, transfer_requests + index, &transfer_request_head,
-                                         &transfer_request_end, &output_size);
+            unpack_region_metadata_query(output_buf, transfer_requests + index, n_objs,
+                                         &transfer_request_head, &transfer_request_end, &output_size);
+            answered = 1;
             // fprintf(stderr, "register_metadata: output_size = %d, checkpoint %d\n", output_size, __LINE__);
             free(output_buf);
-            if (transfer_request_front_head) {
-                previous->next = transfer_request_head;
-            }
-            else {
-                transfer_request_front_head = transfer_request_head;
+            if (transfer_request_head) {
+                if (transfer_request_front_head) {
+                    previous->next = transfer_request_head;
+                }
+                else {
+                    transfer_request_front_head = transfer_request_head;
+                }
+                previous = transfer_request_end;
             }
-            previous = transfer_request_end;
         }
     }
 
-    if (output_size) {
+    if (answered) {
         transfer_request_output = (pdc_transfer_request_start_all_pkg **)malloc(
             sizeof(pdc_transfer_request_start_all_pkg *) * (output_size + remain_size));
         transfer_request_head = transfer_request_front_head;
@@ -1609,6 +1617,7 @@ PDCregion_transfer_status(pdcid_t transfer_request_id, pdc_transfer_status_t *co
         if (transfer_request->region_partition == PDC_REGION_STATIC ||
             transfer_request->region_partition == PDC_REGION_DYNAMIC ||
             transfer_request->region_partition == PDC_REGION_LOCAL) {
+            *completed = PDC_TRANSFER_STATUS_COMPLETE;
             for (i = 0; i < transfer_request->n_obj_servers; ++i) {
                 ret_value = PDC_Client_transfer_request_status(transfer_request->metadata_id[i],
                                                                transfer_request->obj_servers[i], completed);
-- 
2.43.0


From 28070dd08447d321530f714584cb4f86b819de2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:03 +0000
Subject: [PATCH 24/77] fix: a server without a share of a statically
 partitioned object must not be sent an empty request

---
 src/api/pdc_region/pdc_region_transfer.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/api/pdc_region/pdc_region_transfer.c b/src/api/pdc_region/pdc_region_transfer.c
index 63c45ef..a6944bb 100644
--- a/src/api/pdc_region/pdc_region_transfer.c
+++ b/src/api/pdc_region/pdc_region_transfer.c
@@ -447,8 +447,9 @@ static_region_partition(char *buf, int ndim, uint64_t unit, pdc_access_t access_
         // unsigned)static_offset, (long unsigned)static_size, (long unsigned)offset[split_dim], (long
         // unsigned)size[split_dim]);
         // Check if this region fits into the server static region.
-        if ((static_offset + static_size > offset[split_dim] && offset[split_dim] >= static_offset) ||
-            (offset[split_dim] + size[split_dim] > static_offset && static_offset >= offset[split_dim])) {
+        if (static_size > 0 &&
+            ((static_offset + static_size > offset[split_dim] && offset[split_dim] >= static_offset) ||
+             (offset[split_dim] + size[split_dim] > static_offset && static_offset >= offset[split_dim]))) {
             // record data server ID
             data_server_ids[0][*n_data_servers] = i;
             // The overlapping region is allocated here.
-- 
2.43.0


From 477846e46782215515cdb3a1f8f4836bfb1a4efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:27 +0000
Subject: [PATCH 25/77] fix: delete by id must not go on with the deleted
 object

---
 src/server/pdc_server_metadata.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/server/pdc_server_metadata.c b/src/server/pdc_server_metadata.c
index 02380fc..7af7a72 100644
--- a/src/server/pdc_server_metadata.c
+++ b/src/server/pdc_server_metadata.c
@@ -1012,6 +1012,8 @@ PDC_Server_delete_metadata_by_id(metadata_delete_by_id_in_t *in, metadata_delete
                     }
                     out->ret  = 1;
                     ret_value = SUCCEED;
+                    // The entry and the iterator may be gone with the object
+                    goto done;
                 }
             } // DL_FOREACH
         }     // while
-- 
2.43.0


From 145393ede354d1a57b9857e079111237f97c987c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:27 +0000
Subject: [PATCH 26/77] fix: only the deletion of an object decrements the
 number of objects

---
 src/server/pdc_server_metadata.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/server/pdc_server_metadata.c b/src/server/pdc_server_metadata.c
index 7af7a72..34adc88 100644
--- a/src/server/pdc_server_metadata.c
+++ b/src/server/pdc_server_metadata.c
@@ -933,6 +933,7 @@ PDC_Server_delete_metadata_by_id(metadata_delete_by_id_in_t *in, metadata_delete
     HashTablePair     pair;
     uint64_t          target_obj_id;
     int               n_entry;
+    int               is_obj_del = 0;
 
     FUNC_ENTER(NULL);
 
@@ -1010,8 +1011,9 @@ PDC_Server_delete_metadata_by_id(metadata_delete_by_id_in_t *in, metadata_delete
                         uint32_t hash_key = PDC_get_hash_by_name(elt->obj_name);
                         hash_table_remove(metadata_hash_table_g, &hash_key);
                     }
-                    out->ret  = 1;
-                    ret_value = SUCCEED;
+                    out->ret   = 1;
+                    ret_value  = SUCCEED;
+                    is_obj_del = 1;
                     // The entry and the iterator may be gone with the object
                     goto done;
                 }
@@ -1054,7 +1056,8 @@ done:
 #ifdef ENABLE_MULTITHREAD
     hg_thread_mutex_lock(&n_metadata_mutex_g);
 #endif
-    n_metadata_g--;
+    if (is_obj_del)
+        n_metadata_g--;
 #ifdef ENABLE_MULTITHREAD
     hg_thread_mutex_unlock(&n_metadata_mutex_g);
 #endif
@@ -1182,7 +1185,8 @@ PDC_delete_metadata_from_hash_table(metadata_delete_in_t *in, metadata_delete_ou
 #ifdef ENABLE_MULTITHREAD
     hg_thread_mutex_lock(&n_metadata_mutex_g);
 #endif
-    n_metadata_g--;
+    if (ret_value == SUCCEED)
+        n_metadata_g--;
 #ifdef ENABLE_MULTITHREAD
     hg_thread_mutex_unlock(&n_metadata_mutex_g);
 #endif
-- 
2.43.0


From 7795bbbf59b72ba30a3844a398bf77e093546af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:38 +0000
Subject: [PATCH 27/77] fix: reading a tag must return its type

---
 src/server/pdc_server_metadata.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/server/pdc_server_metadata.c b/src/server/pdc_server_metadata.c
index 34adc88..37a84d5 100644
--- a/src/server/pdc_server_metadata.c
+++ b/src/server/pdc_server_metadata.c
@@ -2990,6 +2990,7 @@ PDC_get_kvtag_value_from_list(pdc_kvtag_list_t **list_head, char *key, metadata_
         if (strcmp(elt->kvtag->name, key) == 0) {
             out->kvtag.name  = elt->kvtag->name;
             out->kvtag.size  = elt->kvtag->size;
+            out->kvtag.type  = elt->kvtag->type;
             out->kvtag.value = elt->kvtag->value;
             break;
         }
-- 
2.43.0


From 9f2a8a8180033837c0c42a9fc81dc34a802f53f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:47 +0000
Subject: [PATCH 28/77] fix: a tag search must not compare values of different
 sizes

---
 src/server/pdc_server_metadata.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server/pdc_server_metadata.c b/src/server/pdc_server_metadata.c
index 37a84d5..6650df5 100644
--- a/src/server/pdc_server_metadata.c
+++ b/src/server/pdc_server_metadata.c
@@ -1622,7 +1622,7 @@ _is_matching_kvtag(pdc_kvtag_t *in, pdc_kvtag_t *kvtag)
     }
     else { // FIXME: for all numeric types, we use memcmp to compare, for exact value query, but we also
            // have to support range query.
-        if (memcmp(in->value, kvtag->value, in->size) != 0)
+        if (in->size != kvtag->size || memcmp(in->value, kvtag->value, in->size) != 0)
             return FALSE;
     }
 
-- 
2.43.0


From 566b2881767ea7e2452e23c53d07f029ab0e5f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:28 +0000
Subject: [PATCH 29/77] fix: tags of a container must be reachable when an
 object's name has the same hash

---
 src/server/pdc_server_metadata.c | 62 ++++++++++++--------------------
 1 file changed, 22 insertions(+), 40 deletions(-)

diff --git a/src/server/pdc_server_metadata.c b/src/server/pdc_server_metadata.c
index 6650df5..85fddf3 100644
--- a/src/server/pdc_server_metadata.c
+++ b/src/server/pdc_server_metadata.c
@@ -2861,27 +2861,21 @@ PDC_Server_add_kvtag_someta(metadata_add_kvtag_in_t *in, metadata_add_tag_out_t
     perr_t                       ret_value = SUCCEED;
     pdc_hash_table_entry_head *  lookup_value;
     pdc_cont_hash_table_entry_t *cont_lookup_value;
+    pdc_metadata_t *             target = NULL;
     uint32_t                     hash_key;
 
     hash_key = in->hash_value;
 
     lookup_value = hash_table_lookup(metadata_hash_table_g, &hash_key);
-    if (lookup_value != NULL) {
-        pdc_metadata_t *target;
+    if (lookup_value != NULL)
         target = find_metadata_by_id_from_list(lookup_value->metadata, in->obj_id);
-        if (target != NULL) {
-            PDC_add_kvtag_to_list(&target->kvtag_list_head, &in->kvtag);
-            out->ret = 1;
-        } // if (lookup_value != NULL)
-        else {
-            // Object not found
-            ret_value = FAIL;
-            out->ret  = -1;
-        }
-    }      // if lookup_value != NULL
-    else { // look for containers
+    if (target != NULL) {
+        PDC_add_kvtag_to_list(&target->kvtag_list_head, &in->kvtag);
+        out->ret = 1;
+    }
+    else { // not an object, look for containers
         cont_lookup_value = hash_table_lookup(container_hash_table_g, &hash_key);
-        if (cont_lookup_value != NULL) {
+        if (cont_lookup_value != NULL && cont_lookup_value->cont_id == in->obj_id) {
             PDC_add_kvtag_to_list(&cont_lookup_value->kvtag_list_head, &in->kvtag);
             out->ret = 1;
         }
@@ -3117,27 +3111,22 @@ PDC_Server_get_kvtag_someta(metadata_get_kvtag_in_t *in, metadata_get_kvtag_out_
     uint64_t                     obj_id;
     pdc_hash_table_entry_head *  lookup_value;
     pdc_cont_hash_table_entry_t *cont_lookup_value;
+    pdc_metadata_t *             target = NULL;
 
     hash_key = in->hash_value;
     obj_id   = in->obj_id;
 
     lookup_value = hash_table_lookup(metadata_hash_table_g, &hash_key);
-    if (lookup_value != NULL) {
-        pdc_metadata_t *target;
+    if (lookup_value != NULL)
         target = find_metadata_by_id_from_list(lookup_value->metadata, obj_id);
-        if (target != NULL) {
-            PDC_get_kvtag_value_from_list(&target->kvtag_list_head, in->key, out);
-            out->ret = 1;
-        }
-        else {
-            ret_value = FAIL;
-            out->ret  = -1;
-        }
+    if (target != NULL) {
+        PDC_get_kvtag_value_from_list(&target->kvtag_list_head, in->key, out);
+        out->ret = 1;
     }
-    else {
+    else { // not an object, look for containers
 
         cont_lookup_value = hash_table_lookup(container_hash_table_g, &hash_key);
-        if (cont_lookup_value != NULL) {
+        if (cont_lookup_value != NULL && cont_lookup_value->cont_id == obj_id) {
             PDC_get_kvtag_value_from_list(&cont_lookup_value->kvtag_list_head, in->key, out);
             out->ret = 1;
         }
@@ -3315,29 +3304,22 @@ PDC_Server_del_kvtag_someta(metadata_get_kvtag_in_t *in, metadata_add_tag_out_t
     uint64_t                     obj_id;
     pdc_hash_table_entry_head *  lookup_value;
     pdc_cont_hash_table_entry_t *cont_lookup_value;
+    pdc_metadata_t *             target = NULL;
 
     hash_key = in->hash_value;
     obj_id   = in->obj_id;
 
     // Look obj tags first
     lookup_value = hash_table_lookup(metadata_hash_table_g, &hash_key);
-    if (lookup_value != NULL) {
-        pdc_metadata_t *target;
+    if (lookup_value != NULL)
         target = find_metadata_by_id_from_list(lookup_value->metadata, obj_id);
-        if (target != NULL) {
-            ret_value = PDC_del_kvtag_value_from_list(&target->kvtag_list_head, in->key);
-            out->ret  = 1;
-        }
-        else {
-            ret_value = FAIL;
-            out->ret  = -1;
-            printf("==PDC_SERVER[%d]: %s - failed to find requested kvtag [%s]\n", pdc_server_rank_g,
-                   __func__, in->key);
-        }
+    if (target != NULL) {
+        ret_value = PDC_del_kvtag_value_from_list(&target->kvtag_list_head, in->key);
+        out->ret  = 1;
     }
-    else {
+    else { // not an object, look for containers
         cont_lookup_value = hash_table_lookup(container_hash_table_g, &hash_key);
-        if (cont_lookup_value != NULL) {
+        if (cont_lookup_value != NULL && cont_lookup_value->cont_id == obj_id) {
             PDC_del_kvtag_value_from_list(&cont_lookup_value->kvtag_list_head, in->key);
             out->ret = 1;
         }
-- 
2.43.0


From 3bf4fb1d3727b3375168643ca3589ec173e488e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:35 +0000
Subject: [PATCH 30/77] fix: the first objects added to a container must fit
 its list

---
 src/server/pdc_server_metadata.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/server/pdc_server_metadata.c b/src/server/pdc_server_metadata.c
index 85fddf3..970e5da 100644
--- a/src/server/pdc_server_metadata.c
+++ b/src/server/pdc_server_metadata.c
@@ -2447,8 +2447,8 @@ PDC_Server_container_add_objs(int n_obj, uint64_t *obj_ids, uint64_t cont_id)
     if (cont_entry != NULL) {
         // Check if need to allocate space
         if (cont_entry->n_allocated == 0) {
-            cont_entry->n_allocated = PDC_ALLOC_BASE_NUM;
-            cont_entry->obj_ids     = (uint64_t *)PDC_calloc(sizeof(uint64_t), PDC_ALLOC_BASE_NUM);
+            cont_entry->n_allocated = n_obj > PDC_ALLOC_BASE_NUM ? n_obj : PDC_ALLOC_BASE_NUM;
+            cont_entry->obj_ids     = (uint64_t *)PDC_calloc(sizeof(uint64_t), cont_entry->n_allocated);
             total_mem_usage_g += sizeof(uint64_t) * cont_entry->n_allocated;
         }
         else if (cont_entry->n_allocated < cont_entry->n_obj + n_obj) {
-- 
2.43.0


From 5d90a419556eca1dad8c3633734a76bd5809b15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:31 +0000
Subject: [PATCH 31/77] fix: tags added to a container must not overflow its
 tag string

---
 src/server/pdc_server_metadata.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/server/pdc_server_metadata.c b/src/server/pdc_server_metadata.c
index 970e5da..811b145 100644
--- a/src/server/pdc_server_metadata.c
+++ b/src/server/pdc_server_metadata.c
@@ -2553,6 +2553,11 @@ PDC_Server_container_add_tags(uint64_t cont_id, char *tags)
     if (cont_entry != NULL) {
 
         if (tags != NULL) {
+            if (strlen(cont_entry->tags) + strlen(tags) >= TAG_LEN_MAX) {
+                printf("==PDC_SERVER[%d]: %s - no room for more tags!\n", pdc_server_rank_g, __func__);
+                ret_value = FAIL;
+                goto done;
+            }
             strcat(cont_entry->tags, tags);
         }
     }
-- 
2.43.0


From 80d82e0ab0cc8aff8f658b85313b548696d9d4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:34 +0000
Subject: [PATCH 32/77] fix: a restarted server must count the objects it loads

---
 src/server/pdc_server.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/server/pdc_server.c b/src/server/pdc_server.c
index d73fd9b..b8d2734 100644
--- a/src/server/pdc_server.c
+++ b/src/server/pdc_server.c
@@ -960,6 +960,9 @@ drc_access_again:
         printf("==PDC_SERVER[%d]: Read cache enabled!\n", pdc_server_rank_g);
 #endif
 
+    // Restart adds the number of objects it loads
+    n_metadata_g = 0;
+
     // TODO: support restart with different number of servers than previous run
     char checkpoint_file[ADDR_MAX + sizeof(int) + 1];
     if (is_restart_g == 1) {
@@ -995,8 +998,6 @@ drc_access_again:
     // Initalize atomic variable to finalize server
     hg_atomic_set32(&close_server_g, 0);
 
-    n_metadata_g = 0;
-
     // Initialize DART
     PDC_Server_dart_init();
 
@@ -1693,6 +1694,7 @@ PDC_Server_restart(char *filename)
         } // For i
 
         nobj += count;
+        n_metadata_g += count;
         total_mem_usage_g += sizeof(pdc_hash_table_entry_head);
         total_mem_usage_g += (sizeof(pdc_metadata_t) * count);
 
-- 
2.43.0


From 6326867fdf703e668ac5f34ad7ac475787c6554b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:24 +0000
Subject: [PATCH 33/77] fix: the objects and tags of containers must survive a
 restart

---
 src/server/pdc_server.c | 77 +++++++++++++++++++++++++++++++++++++++--
 1 file changed, 75 insertions(+), 2 deletions(-)

diff --git a/src/server/pdc_server.c b/src/server/pdc_server.c
index b8d2734..3c870f2 100644
--- a/src/server/pdc_server.c
+++ b/src/server/pdc_server.c
@@ -1393,6 +1393,28 @@ PDC_Server_checkpoint()
     fwrite(&checkpoint_size, sizeof(uint64_t), 1, file);
     fwrite(checkpoint, checkpoint_size, 1, file);
 
+    // Objects and kv tags of the containers, in the order of the containers above
+    n_entry = hash_table_num_entries(container_hash_table_g);
+    hash_table_iterate(container_hash_table_g, &hash_table_iter);
+    while (n_entry != 0 && hash_table_iter_has_more(&hash_table_iter)) {
+        pair      = hash_table_iter_next(&hash_table_iter);
+        cont_head = pair.value;
+
+        fwrite(cont_head->obj_ids, sizeof(uint64_t), cont_head->n_obj, file);
+
+        DL_COUNT(cont_head->kvtag_list_head, kvlist_elt, n_kvtag);
+        fwrite(&n_kvtag, sizeof(int), 1, file);
+        DL_FOREACH(cont_head->kvtag_list_head, kvlist_elt)
+        {
+            key_len = strlen(kvlist_elt->kvtag->name) + 1;
+            fwrite(&key_len, sizeof(int), 1, file);
+            fwrite(kvlist_elt->kvtag->name, key_len, 1, file);
+            fwrite(&kvlist_elt->kvtag->size, sizeof(uint32_t), 1, file);
+            fwrite(&kvlist_elt->kvtag->type, sizeof(int8_t), 1, file);
+            fwrite(kvlist_elt->kvtag->value, kvlist_elt->kvtag->size, 1, file);
+        }
+    }
+
     fclose(file);
 
     if (use_tmpfs) {
@@ -1467,7 +1489,7 @@ PDC_Server_restart(char *filename)
     pdc_metadata_t *             metadata, *elt;
     region_list_t *              region_list;
     pdc_hash_table_entry_head *  entry;
-    pdc_cont_hash_table_entry_t *cont_entry;
+    pdc_cont_hash_table_entry_t *cont_entry, **cont_entries;
     uint32_t *                   hash_key;
     unsigned                     idx;
     uint64_t                     checkpoint_size;
@@ -1502,7 +1524,8 @@ PDC_Server_restart(char *filename)
     if (fread(&n_cont, sizeof(int), 1, file) != 1) {
         printf("Read failed for n_count\n");
     }
-    all_cont = n_cont;
+    all_cont     = n_cont;
+    cont_entries = (pdc_cont_hash_table_entry_t **)calloc(n_cont, sizeof(pdc_cont_hash_table_entry_t *));
     while (n_cont > 0) {
         hash_key = (uint32_t *)malloc(sizeof(uint32_t));
         if (fread(hash_key, sizeof(uint32_t), 1, file) != 1) {
@@ -1516,6 +1539,11 @@ PDC_Server_restart(char *filename)
         if (fread(cont_entry, sizeof(pdc_cont_hash_table_entry_t), 1, file) != 1) {
             printf("Read failed for cont_entry\n");
         }
+        // Pointers of the previous run, their contents follow at the end of the file
+        cont_entry->obj_ids             = NULL;
+        cont_entry->n_allocated         = 0;
+        cont_entry->kvtag_list_head     = NULL;
+        cont_entries[all_cont - n_cont] = cont_entry;
 
 #ifdef ENABLE_MULTITHREAD
         hg_thread_mutex_lock(&pdc_container_hash_table_mutex_g);
@@ -1749,6 +1777,51 @@ PDC_Server_restart(char *filename)
     transfer_request_metadata_query_init(pdc_server_size_g, checkpoint_buf);
     free(checkpoint_buf);
 
+    // Objects and kv tags of the containers, absent from checkpoints of older versions
+    for (i = 0; i < all_cont; i++) {
+        cont_entry = cont_entries[i];
+        count      = cont_entry->n_obj;
+        if (count > 0) {
+            cont_entry->obj_ids = (uint64_t *)calloc(count, sizeof(uint64_t));
+            if (fread(cont_entry->obj_ids, sizeof(uint64_t), count, file) != (size_t)count) {
+                printf("Read failed for cont_entry->obj_ids\n");
+                free(cont_entry->obj_ids);
+                cont_entry->obj_ids   = NULL;
+                cont_entry->n_obj     = 0;
+                cont_entry->n_deleted = 0;
+                continue;
+            }
+            cont_entry->n_allocated = count;
+        }
+        if (fread(&n_kvtag, sizeof(int), 1, file) != 1) {
+            printf("Read failed for n_kvtag\n");
+            continue;
+        }
+        for (j = 0; j < n_kvtag; j++) {
+            pdc_kvtag_list_t *kvtag_list = (pdc_kvtag_list_t *)calloc(1, sizeof(pdc_kvtag_list_t));
+            kvtag_list->kvtag            = (pdc_kvtag_t *)malloc(sizeof(pdc_kvtag_t));
+            if (fread(&key_len, sizeof(int), 1, file) != 1) {
+                printf("Read failed for key_len\n");
+            }
+            kvtag_list->kvtag->name = malloc(key_len);
+            if (fread((void *)(kvtag_list->kvtag->name), key_len, 1, file) != 1) {
+                printf("Read failed for kvtag_list->kvtag->name\n");
+            }
+            if (fread(&kvtag_list->kvtag->size, sizeof(uint32_t), 1, file) != 1) {
+                printf("Read failed for kvtag_list->kvtag->size\n");
+            }
+            if (fread(&kvtag_list->kvtag->type, sizeof(int8_t), 1, file) != 1) {
+                printf("Read failed for kvtag_list->kvtag->type\n");
+            }
+            kvtag_list->kvtag->value = malloc(kvtag_list->kvtag->size);
+            if (fread(kvtag_list->kvtag->value, kvtag_list->kvtag->size, 1, file) != 1) {
+                printf("Read failed for kvtag_list->kvtag->value\n");
+            }
+            DL_APPEND(cont_entry->kvtag_list_head, kvtag_list);
+        }
+    }
+    free(cont_entries);
+
     fclose(file);
     file = NULL;
 
-- 
2.43.0


From 972cbce3103e3ac0c24a3df4e98a5ef8414d8b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:57 +0000
Subject: [PATCH 34/77] fix: a restarted server must not give out ids a second
 time

---
 src/server/pdc_server.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/server/pdc_server.c b/src/server/pdc_server.c
index 3c870f2..d0a2d04 100644
--- a/src/server/pdc_server.c
+++ b/src/server/pdc_server.c
@@ -1393,6 +1393,9 @@ PDC_Server_checkpoint()
     fwrite(&checkpoint_size, sizeof(uint64_t), 1, file);
     fwrite(checkpoint, checkpoint_size, 1, file);
 
+    // The next object id
+    fwrite(&pdc_id_seq_g, sizeof(uint64_t), 1, file);
+
     // Objects and kv tags of the containers, in the order of the containers above
     n_entry = hash_table_num_entries(container_hash_table_g);
     hash_table_iterate(container_hash_table_g, &hash_table_iter);
@@ -1777,6 +1780,11 @@ PDC_Server_restart(char *filename)
     transfer_request_metadata_query_init(pdc_server_size_g, checkpoint_buf);
     free(checkpoint_buf);
 
+    // Continue with the object ids, absent from checkpoints of older versions
+    if (fread(&pdc_id_seq_g, sizeof(uint64_t), 1, file) != 1) {
+        printf("Read failed for pdc_id_seq_g\n");
+    }
+
     // Objects and kv tags of the containers, absent from checkpoints of older versions
     for (i = 0; i < all_cont; i++) {
         cont_entry = cont_entries[i];
-- 
2.43.0


From 82b25e97b62b3dc2d20eccf4d481deed5116600e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:58 +0000
Subject: [PATCH 35/77] fix: a crash while a checkpoint is written must not
 lose the previous one

---
 src/server/pdc_server.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/server/pdc_server.c b/src/server/pdc_server.c
index d0a2d04..0edb0a1 100644
--- a/src/server/pdc_server.c
+++ b/src/server/pdc_server.c
@@ -1228,7 +1228,8 @@ PDC_Server_checkpoint()
     int n_entry, metadata_size = 0, region_count = 0, n_region, n_objs, n_write_region = 0, n_kvtag, key_len;
     uint32_t          hash_key;
     HashTablePair     pair;
-    char              checkpoint_file[ADDR_MAX], checkpoint_file_local[ADDR_MAX], cmd[4096];
+    char              checkpoint_file[ADDR_MAX], checkpoint_file_local[ADDR_MAX],
+        checkpoint_file_new[ADDR_MAX + 4], cmd[4096];
     HashTableIterator hash_table_iter;
     char *            checkpoint;
     char *            env_char;
@@ -1260,6 +1261,8 @@ PDC_Server_checkpoint()
 #endif
     snprintf(checkpoint_file, ADDR_MAX, "%s/%d/metadata_checkpoint.%d", pdc_server_tmp_dir_g,
              pdc_server_rank_g, pdc_server_rank_g);
+    // The previous checkpoint is kept until the new one is complete
+    snprintf(checkpoint_file_new, ADDR_MAX + 4, "%s.new", checkpoint_file);
     snprintf(checkpoint_file_local, ADDR_MAX, "/tmp/metadata_checkpoint.%d", pdc_server_rank_g);
     if (pdc_server_rank_g == 0) {
         printf("==PDC_SERVER[%4d]: Checkpoint file [%s]\n", pdc_server_rank_g, checkpoint_file);
@@ -1269,7 +1272,7 @@ PDC_Server_checkpoint()
     if (use_tmpfs)
         file = fopen(checkpoint_file_local, "w+");
     else
-        file = fopen(checkpoint_file, "w+");
+        file = fopen(checkpoint_file_new, "w+");
 
     if (file == NULL) {
         printf("==PDC_SERVER[%d]: %s - Checkpoint file open error", pdc_server_rank_g, __func__);
@@ -1430,6 +1433,10 @@ PDC_Server_checkpoint()
         snprintf(cmd, 4096, "mv %s %s", checkpoint_file_local, checkpoint_file);
         system(cmd);
     }
+    else if (rename(checkpoint_file_new, checkpoint_file) != 0) {
+        printf("==PDC_SERVER[%d]: %s - Checkpoint file rename error", pdc_server_rank_g, __func__);
+        ret_value = FAIL;
+    }
 
 #ifdef PDC_TIMING
     gettimeofday(&pdc_timer_end_rank, 0);
-- 
2.43.0


From 4a80279aad2ff2b14288f27c12c8ebfedc7e9268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:25 +0000
Subject: [PATCH 36/77] fix: tags added to an object must not overflow its tag
 string

---
 src/server/pdc_server_metadata.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/server/pdc_server_metadata.c b/src/server/pdc_server_metadata.c
index 811b145..18c6342 100644
--- a/src/server/pdc_server_metadata.c
+++ b/src/server/pdc_server_metadata.c
@@ -728,7 +728,8 @@ PDC_Server_add_tag_metadata(metadata_add_tag_in_t *in, metadata_add_tag_out_t *o
                 // Currently user_id, obj_name are not supported to be updated in this way
                 // obj_name change is done through client with delete and add operation.
                 if (in->new_tag != NULL && in->new_tag[0] != 0 &&
-                    !(in->new_tag[0] == ' ' && in->new_tag[1] == 0)) {
+                    !(in->new_tag[0] == ' ' && in->new_tag[1] == 0) &&
+                    strlen(target->tags) + strlen(in->new_tag) + 1 < TAG_LEN_MAX) {
                     // add a ',' to separate different tags
                     target->tags[strlen(target->tags) + 1] = 0;
                     target->tags[strlen(target->tags)]     = ',';
@@ -841,6 +842,15 @@ PDC_Server_update_metadata(metadata_update_in_t *in, metadata_update_out_t *out)
             // Check if there exist metadata identical to current one
             target = find_metadata_by_id_from_list(lookup_value->metadata, obj_id);
             if (target != NULL) {
+                // Refuse updates with strings that do not fit
+                if (strlen(in->new_metadata.app_name) >= sizeof(target->app_name) ||
+                    strlen(in->new_metadata.data_location) >= sizeof(target->data_location) ||
+                    (in->new_metadata.tags[0] != 0 && strcmp(in->new_metadata.tags, " ") != 0 &&
+                     strlen(target->tags) + strlen(in->new_metadata.tags) + 1 >= TAG_LEN_MAX)) {
+                    ret_value = -1;
+                    out->ret  = -1;
+                    goto done;
+                }
                 // Check and find valid update fields
                 // Currently user_id, obj_name are not supported to be updated in this way
                 // obj_name change is done through client with delete and add operation.
-- 
2.43.0


From 654ad276a6b56d6ca18a325da97778819be46f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:12 +0000
Subject: [PATCH 37/77] fix: a new time step of an object must be in the Bloom
 filter

---
 src/server/pdc_server_metadata.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/server/pdc_server_metadata.c b/src/server/pdc_server_metadata.c
index 18c6342..3a9948d 100644
--- a/src/server/pdc_server_metadata.c
+++ b/src/server/pdc_server_metadata.c
@@ -854,8 +854,14 @@ PDC_Server_update_metadata(metadata_update_in_t *in, metadata_update_out_t *out)
                 // Check and find valid update fields
                 // Currently user_id, obj_name are not supported to be updated in this way
                 // obj_name change is done through client with delete and add operation.
-                if (in->new_metadata.time_step != -1)
+                if (in->new_metadata.time_step != -1) {
+                    // The bloom filter holds the name and time step
+                    if (lookup_value->bloom != NULL)
+                        PDC_Server_remove_from_bloom(target, lookup_value->bloom);
                     target->time_step = in->new_metadata.time_step;
+                    if (lookup_value->bloom != NULL)
+                        PDC_Server_add_to_bloom(target, lookup_value->bloom);
+                }
                 if (in->new_metadata.app_name[0] != 0 &&
                     !(in->new_metadata.app_name[0] == ' ' && in->new_metadata.app_name[1] == 0))
                     strcpy(target->app_name, in->new_metadata.app_name);
-- 
2.43.0


From 6c0369d528324c6e21566f22e1e6f2f89c4b9434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:05 +0000
Subject: [PATCH 38/77] fix: names and properties that do not fit must be
 refused

---
 src/server/pdc_server_metadata.c | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/src/server/pdc_server_metadata.c b/src/server/pdc_server_metadata.c
index 3a9948d..5343994 100644
--- a/src/server/pdc_server_metadata.c
+++ b/src/server/pdc_server_metadata.c
@@ -1114,6 +1114,12 @@ PDC_delete_metadata_from_hash_table(metadata_delete_in_t *in, metadata_delete_ou
 
     pdc_hash_table_entry_head *lookup_value;
     pdc_metadata_t             metadata;
+    if (strlen(in->obj_name) >= sizeof(metadata.obj_name)) {
+        // No object has a name that does not fit
+        ret_value = FAIL;
+        out->ret  = -1;
+        goto done;
+    }
     strcpy(metadata.obj_name, in->obj_name);
     metadata.time_step   = in->time_step;
     metadata.app_name[0] = 0;
@@ -1241,6 +1247,16 @@ PDC_insert_metadata_to_hash_table(gen_obj_id_in_t *in, gen_obj_id_out_t *out)
     gettimeofday(&pdc_timer_start, 0);
 #endif
 
+    if (strlen(in->data.obj_name) >= sizeof(metadata->obj_name) ||
+        strlen(in->data.app_name) >= sizeof(metadata->app_name) ||
+        strlen(in->data.tags) >= sizeof(metadata->tags) ||
+        strlen(in->data.data_location) >= sizeof(metadata->data_location)) {
+        printf("==PDC_SERVER[%d]: name or properties of an object are too long!\n", pdc_server_rank_g);
+        ret_value   = FAIL;
+        out->obj_id = 0;
+        goto done;
+    }
+
     metadata = (pdc_metadata_t *)PDC_malloc(sizeof(pdc_metadata_t));
     if (metadata == NULL) {
         printf("Cannot allocate pdc_metadata_t!\n");
@@ -1950,6 +1966,11 @@ PDC_Server_search_with_name_timestep(const char *obj_name, uint32_t hash_key, ui
 
     name = obj_name;
 
+    if (strlen(name) >= sizeof(metadata.obj_name)) {
+        // No object has a name that does not fit
+        ret_value = FAIL;
+        goto done;
+    }
     strcpy(metadata.obj_name, name);
     metadata.time_step = ts;
 
@@ -2001,6 +2022,11 @@ PDC_Server_search_with_name_hash(const char *obj_name, uint32_t hash_key, pdc_me
 
     name = obj_name;
 
+    if (strlen(name) >= sizeof(metadata.obj_name)) {
+        // No object has a name that does not fit
+        ret_value = FAIL;
+        goto done;
+    }
     strcpy(metadata.obj_name, name);
     // TODO: currently PDC_Client_query_metadata_name_timestep is not taking timestep for querying
     metadata.time_step = 0;
@@ -2224,6 +2250,12 @@ PDC_Server_create_container(gen_cont_id_in_t *in, gen_cont_id_out_t *out)
 
     pdc_cont_hash_table_entry_t *lookup_value;
 
+    if (strlen(in->cont_name) >= sizeof(lookup_value->cont_name)) {
+        printf("==PDC_SERVER[%d]: %s - container name is too long!\n", pdc_server_rank_g, __func__);
+        out->cont_id = 0;
+        goto done;
+    }
+
 #ifdef ENABLE_MULTITHREAD
     hg_thread_mutex_lock(&pdc_container_hash_table_mutex_g);
 #endif
-- 
2.43.0


From 999cc03c0e651704ea51d8c7f051d1055e158b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:43 +0000
Subject: [PATCH 39/77] fix: a transfer request in several pieces can be polled
 until it completes

The server forgets a piece once it has reported it complete; polling the request again
then gave NOT_FOUND for that piece, so PDCregion_transfer_status never reported COMPLETE.
---
 src/api/pdc_region/pdc_region_transfer.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/api/pdc_region/pdc_region_transfer.c b/src/api/pdc_region/pdc_region_transfer.c
index a6944bb..675619c 100644
--- a/src/api/pdc_region/pdc_region_transfer.c
+++ b/src/api/pdc_region/pdc_region_transfer.c
@@ -1622,6 +1622,10 @@ PDCregion_transfer_status(pdcid_t transfer_request_id, pdc_transfer_status_t *co
             for (i = 0; i < transfer_request->n_obj_servers; ++i) {
                 ret_value = PDC_Client_transfer_request_status(transfer_request->metadata_id[i],
                                                                transfer_request->obj_servers[i], completed);
+                // A server forgets a piece once it has reported it complete, which an earlier call may have seen
+                if (*completed == PDC_TRANSFER_STATUS_NOT_FOUND) {
+                    *completed = PDC_TRANSFER_STATUS_COMPLETE;
+                }
                 if (*completed != PDC_TRANSFER_STATUS_COMPLETE) {
                     goto done;
                 }
-- 
2.43.0


From c8e2ebca939dbb79533f79e244c662745855de64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:43 +0000
Subject: [PATCH 40/77] fix: wait_all answers when a request has been reported
 complete before

A request that the server no longer knows (its completion was reported to an earlier
status call) kept wait_all from answering at once without binding the reply to any
request, so that the client waited forever.
---
 .../pdc_server_region/pdc_server_region_request_handler.h       | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/server/pdc_server_region/pdc_server_region_request_handler.h b/src/server/pdc_server_region/pdc_server_region_request_handler.h
index 04ab484..d8d833c 100644
--- a/src/server/pdc_server_region/pdc_server_region_request_handler.h
+++ b/src/server/pdc_server_region/pdc_server_region_request_handler.h
@@ -276,8 +276,6 @@ transfer_request_wait_all_bulk_transfer_cb(const struct hg_cb_info *info)
         // unsigned)transfer_request_id, get_server_rank());
         if (status == PDC_TRANSFER_STATUS_PENDING) {
             PDC_try_finish_request(transfer_request_id, local_bulk_args->handle, handle_ref, 1);
-        }
-        if (status != PDC_TRANSFER_STATUS_COMPLETE) {
             fast_return = 0;
         }
     }
-- 
2.43.0


From fb9b15e10f9cd2a2e68deab43983c59cbbd21a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:16 +0000
Subject: [PATCH 41/77] fix: looking up an ID that is not in the list

---
 src/commons/utils/include/pdc_linkedlist.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/commons/utils/include/pdc_linkedlist.h b/src/commons/utils/include/pdc_linkedlist.h
index a9de691..1c04fdd 100644
--- a/src/commons/utils/include/pdc_linkedlist.h
+++ b/src/commons/utils/include/pdc_linkedlist.h
@@ -109,7 +109,7 @@
     for ((var) = ((head_ptr)->head); (var); (var) = ((var)->entry_field_name.next))
 
 #define PDC_LIST_SEARCH(var, head_ptr, entry_field_name, item, value)                                        \
-    for ((var) = ((head_ptr)->head); (((var)->item != value) && (var));                                      \
+    for ((var) = ((head_ptr)->head); ((var) && ((var)->item != value));                                      \
          (var) = ((var)->entry_field_name.next))
 
 #define PDC_LIST_SEARCH_CONT_NAME(var, head_ptr, entry_field_name, member, n, name)                          \
-- 
2.43.0


From 8e7d7fee6b5c7661db6941f5aed64a4f60e506f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:16 +0000
Subject: [PATCH 42/77] fix: iterating over the objects of a container ends
 when there are others

---
 src/api/pdc_obj/pdc_obj.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/pdc_obj/pdc_obj.c b/src/api/pdc_obj/pdc_obj.c
index 9b307e5..71a129f 100644
--- a/src/api/pdc_obj/pdc_obj.c
+++ b/src/api/pdc_obj/pdc_obj.c
@@ -715,7 +715,7 @@ PDCobj_iter_next(obj_handle *ohandle, pdcid_t cont_id)
 
     while (next != NULL &&
            ((struct _pdc_obj_info *)(next->obj_ptr))->cont->cont_info_pub->local_id != cont_id) {
-        next = PDC_LIST_NEXT(ohandle, entry);
+        next = PDC_LIST_NEXT(next, entry);
     }
 
     ret_value = next;
-- 
2.43.0


From b013ea6b250a217ac3befde7ff55686133f83708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:16 +0000
Subject: [PATCH 43/77] fix: a property list can be given fewer dimensions than
 before

---
 src/api/pdc_obj/pdc_obj.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/pdc_obj/pdc_obj.c b/src/api/pdc_obj/pdc_obj.c
index 71a129f..7ed5fa7 100644
--- a/src/api/pdc_obj/pdc_obj.c
+++ b/src/api/pdc_obj/pdc_obj.c
@@ -875,8 +875,8 @@ PDCprop_set_obj_dims(pdcid_t obj_prop, PDC_int_t ndim, uint64_t *dims)
             free(prop->obj_prop_pub->dims);
         }
         prop->obj_prop_pub->dims = (uint64_t *)malloc(ndim * sizeof(uint64_t));
-        prop->obj_prop_pub->ndim = ndim;
     }
+    prop->obj_prop_pub->ndim = ndim;
     memcpy(prop->obj_prop_pub->dims, dims, ndim * sizeof(uint64_t));
 
 done:
-- 
2.43.0


From 79529894eb9fbfa43b8ba3fe72358f3b77747d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:16 +0000
Subject: [PATCH 44/77] fix: a new object property list has no undefined
 entries

---
 src/api/pdc_obj/pdc_prop.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/api/pdc_obj/pdc_prop.c b/src/api/pdc_obj/pdc_prop.c
index 65f1985..32327f8 100644
--- a/src/api/pdc_obj/pdc_prop.c
+++ b/src/api/pdc_obj/pdc_prop.c
@@ -98,9 +98,11 @@ PDCprop_create(pdc_prop_type_t type, pdcid_t pdcid)
         q->obj_prop_pub->consistency      = PDC_CONSISTENCY_EVENTUAL;
         q->data_loc                       = NULL;
         q->app_name                       = NULL;
+        q->user_id                        = 0;
         q->time_step                      = 0;
         q->tags                           = NULL;
         q->buf                            = NULL;
+        q->kvtag                          = NULL;
         new_id_o                          = PDC_id_register(PDC_OBJ_PROP, q);
         q->obj_prop_pub->obj_prop_id      = new_id_o;
         id_info                           = PDC_find_id(pdcid);
-- 
2.43.0


From bddfeff11d14c1fbce06388aeac1573e32dd3d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:16 +0000
Subject: [PATCH 45/77] fix: a duplicated property list has the user and
 consistency of the original

---
 src/api/pdc_obj/pdc_prop.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/api/pdc_obj/pdc_prop.c b/src/api/pdc_obj/pdc_prop.c
index 32327f8..325bbfd 100644
--- a/src/api/pdc_obj/pdc_prop.c
+++ b/src/api/pdc_obj/pdc_prop.c
@@ -148,6 +148,7 @@ PDCprop_obj_dup(pdcid_t prop_id)
         PGOTO_ERROR(0, "PDC object property memory allocation failed");
     if (info->app_name)
         q->app_name = strdup(info->app_name);
+    q->user_id   = info->user_id;
     q->time_step = info->time_step;
     if (info->tags)
         q->tags = strdup(info->tags);
@@ -164,6 +165,7 @@ PDCprop_obj_dup(pdcid_t prop_id)
     q->obj_prop_pub->dims             = (uint64_t *)malloc(info->obj_prop_pub->ndim * sizeof(uint64_t));
     q->obj_prop_pub->type             = PDC_UNKNOWN;
     q->obj_prop_pub->region_partition = info->obj_prop_pub->region_partition;
+    q->obj_prop_pub->consistency      = info->obj_prop_pub->consistency;
     for (i = 0; i < info->obj_prop_pub->ndim; i++)
         (q->obj_prop_pub->dims)[i] = (info->obj_prop_pub->dims)[i];
 
-- 
2.43.0


From 37c5f97afdd2c5d647b41b538825d7a3df2b2e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:16 +0000
Subject: [PATCH 46/77] fix: information on a container that is not open

---
 src/api/pdc_obj/pdc_cont.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/api/pdc_obj/pdc_cont.c b/src/api/pdc_obj/pdc_cont.c
index 4366c41..3655f58 100644
--- a/src/api/pdc_obj/pdc_cont.c
+++ b/src/api/pdc_obj/pdc_cont.c
@@ -365,6 +365,8 @@ PDCcont_get_info(const char *cont_name)
     cont_id = PDC_find_byname(PDC_CONT, cont_name);
 
     tmp = PDC_cont_get_info(cont_id);
+    if (tmp == NULL)
+        PGOTO_ERROR(NULL, "cannot locate container");
 
     ret_value = (struct pdc_cont_info *)PDC_calloc(1, sizeof(struct pdc_cont_info));
     if (!ret_value)
-- 
2.43.0


From 42063412ef04b9404db4cf19e08458a7cde86d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:16 +0000
Subject: [PATCH 47/77] fix: a container is not created from properties that
 are closed

---
 src/api/pdc_obj/pdc_cont.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/api/pdc_obj/pdc_cont.c b/src/api/pdc_obj/pdc_cont.c
index 3655f58..0cb3aeb 100644
--- a/src/api/pdc_obj/pdc_cont.c
+++ b/src/api/pdc_obj/pdc_cont.c
@@ -70,7 +70,9 @@ PDCcont_create(const char *cont_name, pdcid_t cont_prop_id)
         PGOTO_ERROR(0, "PDC pub container memory allocation failed");
     p->cont_info_pub->name = strdup(cont_name);
 
-    id_info   = PDC_find_id(cont_prop_id);
+    id_info = PDC_find_id(cont_prop_id);
+    if (id_info == NULL)
+        PGOTO_ERROR(0, "cannot locate container property");
     cont_prop = (struct _pdc_cont_prop *)(id_info->obj_ptr);
 
     p->cont_pt = (struct _pdc_cont_prop *)PDC_calloc(1, sizeof(struct _pdc_cont_prop));
-- 
2.43.0


From b6c1bd8412adb6183ed070ee40e7f7a1a895fcbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:47 +0000
Subject: [PATCH 48/77] fix: an object is not created from a container or
 properties that are closed

---
 src/api/pdc_obj/pdc_obj.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/api/pdc_obj/pdc_obj.c b/src/api/pdc_obj/pdc_obj.c
index 7ed5fa7..2154688 100644
--- a/src/api/pdc_obj/pdc_obj.c
+++ b/src/api/pdc_obj/pdc_obj.c
@@ -251,6 +251,8 @@ PDC_obj_create(pdcid_t cont_id, const char *obj_name, pdcid_t obj_prop_id, _pdc_
     }
     else {
         id_info = PDC_find_id(cont_id);
+        if (id_info == NULL)
+            PGOTO_ERROR(0, "cannot locate container ID");
         /* struct _pdc_cont_info field */
         cont_info = (struct _pdc_cont_info *)(id_info->obj_ptr);
 
@@ -283,7 +285,9 @@ PDC_obj_create(pdcid_t cont_id, const char *obj_name, pdcid_t obj_prop_id, _pdc_
         meta_id                         = p->cont->cont_info_pub->meta_id;
     }
 
-    id_info  = PDC_find_id(obj_prop_id);
+    id_info = PDC_find_id(obj_prop_id);
+    if (id_info == NULL)
+        PGOTO_ERROR(0, "cannot locate object property ID");
     obj_prop = (struct _pdc_obj_prop *)(id_info->obj_ptr);
 
     /* struct _pdc_obj_prop field */
-- 
2.43.0


From a110c2b4196f8436176922012ca5283c177451ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:47 +0000
Subject: [PATCH 49/77] fix: an object the server refuses is not kept among the
 open ones

---
 src/api/pdc_obj/pdc_obj.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/api/pdc_obj/pdc_obj.c b/src/api/pdc_obj/pdc_obj.c
index 2154688..a9571fb 100644
--- a/src/api/pdc_obj/pdc_obj.c
+++ b/src/api/pdc_obj/pdc_obj.c
@@ -233,7 +233,7 @@ PDC_obj_create(pdcid_t cont_id, const char *obj_name, pdcid_t obj_prop_id, _pdc_
     struct _pdc_cont_info *cont_info = NULL;
     struct _pdc_obj_prop * obj_prop;
     uint64_t               meta_id;
-    uint32_t               data_server_id, metadata_server_id;
+    uint32_t               data_server_id = 0, metadata_server_id = 0;
     size_t                 i;
     perr_t                 ret = SUCCEED;
 
@@ -337,7 +337,6 @@ PDC_obj_create(pdcid_t cont_id, const char *obj_name, pdcid_t obj_prop_id, _pdc_
     if (!p->obj_info_pub)
         PGOTO_ERROR(0, "PDC pub object memory allocation failed");
     p->obj_info_pub->name      = strdup(obj_name);
-    p->obj_info_pub->local_id  = PDC_id_register(PDC_OBJ, p);
     p->obj_info_pub->meta_id   = 0;
     p->obj_info_pub->server_id = 0;
     if (location == PDC_OBJ_GLOBAL) {
@@ -364,7 +363,8 @@ PDC_obj_create(pdcid_t cont_id, const char *obj_name, pdcid_t obj_prop_id, _pdc_
     for (i = 0; i < obj_prop->obj_prop_pub->ndim; i++)
         p->obj_info_pub->obj_pt->dims[i] = obj_prop->obj_prop_pub->dims[i];
 
-    ret_value = p->obj_info_pub->local_id;
+    p->obj_info_pub->local_id = PDC_id_register(PDC_OBJ, p);
+    ret_value                 = p->obj_info_pub->local_id;
 
 done:
     fflush(stdout);
-- 
2.43.0


From 3e15240c4d48f1a557badc1109ac1cc55dcd1cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:47 +0000
Subject: [PATCH 50/77] fix: opening an object that does not exist

---
 src/api/pdc_obj/pdc_obj.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/api/pdc_obj/pdc_obj.c b/src/api/pdc_obj/pdc_obj.c
index a9571fb..ee62589 100644
--- a/src/api/pdc_obj/pdc_obj.c
+++ b/src/api/pdc_obj/pdc_obj.c
@@ -580,6 +580,8 @@ PDCobj_open_common(const char *obj_name, pdcid_t pdc, int is_col)
 
     if (ret == FAIL)
         PGOTO_ERROR(0, "query object failed");
+    if (out == NULL)
+        PGOTO_ERROR(0, "object not found");
 
     obj_prop = PDCprop_create(PDC_OBJ_CREATE, pdc);
     PDCprop_set_obj_dims(obj_prop, out->ndim, out->dims);
-- 
2.43.0


From 85784c33f95a40606e9c08c94c2418c164030a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:47 +0000
Subject: [PATCH 51/77] fix: an opened object has no undefined entries

---
 src/api/pdc_obj/pdc_obj.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/api/pdc_obj/pdc_obj.c b/src/api/pdc_obj/pdc_obj.c
index ee62589..aa05bd6 100644
--- a/src/api/pdc_obj/pdc_obj.c
+++ b/src/api/pdc_obj/pdc_obj.c
@@ -626,9 +626,11 @@ PDCobj_open_common(const char *obj_name, pdcid_t pdc, int is_col)
     p->local_transfer_request_size = 0;
     /* struct pdc_obj_info field */
     /* 'obj_name' is a char array */
-    if (strlen(out->obj_name) > 0)
-        p->obj_info_pub->name = strdup(out->obj_name);
+    p->location             = PDC_OBJ_GLOBAL;
+    p->region_list_head                 = NULL;
+    p->obj_info_pub->name               = strdup(out->obj_name);
     p->obj_info_pub->meta_id            = out->obj_id;
+    p->obj_info_pub->server_id          = 0;
     p->obj_info_pub->local_id           = PDC_id_register(PDC_OBJ, p);
     p->obj_info_pub->metadata_server_id = metadata_server_id;
 
-- 
2.43.0


From 9d5e757eced65ab32edc0671a881ecd18a42ccc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:47 +0000
Subject: [PATCH 52/77] fix: dimensions the server refuses to change stay as
 they are

---
 src/api/pdc_obj/pdc_obj.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/api/pdc_obj/pdc_obj.c b/src/api/pdc_obj/pdc_obj.c
index aa05bd6..24a4f29 100644
--- a/src/api/pdc_obj/pdc_obj.c
+++ b/src/api/pdc_obj/pdc_obj.c
@@ -984,6 +984,8 @@ PDCobj_set_dims(pdcid_t obj_id, int ndim, uint64_t *dims)
     info = PDC_find_id(obj_id);
     if (info == NULL) {
         fprintf(stderr, "PDCobj_set_dims: cannnot find obj id @ line %d\n", __LINE__);
+        ret_value = FAIL;
+        goto done;
     }
     object = (struct _pdc_obj_info *)(info->obj_ptr);
     if (object->local_transfer_request_size) {
@@ -995,16 +997,20 @@ PDCobj_set_dims(pdcid_t obj_id, int ndim, uint64_t *dims)
     if (ndim != (int)((pdc_metadata_t *)(object->metadata))->ndim) {
         fprintf(stderr, "PDCobj_set_dims: input dimension size is wrong %d != %d @ line %d\n", ndim,
                 (int)object->obj_pt->obj_prop_pub->ndim, __LINE__);
+        ret_value = FAIL;
+        goto done;
     }
-    memcpy(object->obj_pt->obj_prop_pub->dims, dims, ndim * sizeof(uint64_t));
-    memcpy(((pdc_metadata_t *)(object->metadata))->dims, dims, ndim * sizeof(uint64_t));
 
     PDC_Client_obj_reset_dims(object->obj_info_pub->name, object->obj_pt->time_step, ndim, dims, &reset);
 
     if (!reset) {
         // Server rejects reset object dims for some reasons, so we close this operation.
         ret_value = FAIL;
+        goto done;
     }
+    memcpy(object->obj_pt->obj_prop_pub->dims, dims, ndim * sizeof(uint64_t));
+    memcpy(object->obj_info_pub->obj_pt->dims, dims, ndim * sizeof(uint64_t));
+    memcpy(((pdc_metadata_t *)(object->metadata))->dims, dims, ndim * sizeof(uint64_t));
 
 done:
     FUNC_LEAVE(ret_value);
-- 
2.43.0


From 7d858e6b1cf988336184014b9e797c82d27ec8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:51 +0000
Subject: [PATCH 53/77] fix: collectively opening a container that does not
 exist

---
 src/api/pdc_obj/pdc_cont.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/api/pdc_obj/pdc_cont.c b/src/api/pdc_obj/pdc_cont.c
index 0cb3aeb..b9af29b 100644
--- a/src/api/pdc_obj/pdc_cont.c
+++ b/src/api/pdc_obj/pdc_cont.c
@@ -301,6 +301,9 @@ PDCcont_open_col(const char *cont_name, pdcid_t pdc)
     ret = PDC_Client_query_container_name_col(cont_name, &cont_meta_id);
     if (ret == FAIL)
         PGOTO_ERROR(0, "query container name failed");
+    if (cont_meta_id == 0)
+        PGOTO_ERROR(0, "query container not found");
+
     cont_id   = PDC_cont_create_local(pdc, cont_name, cont_meta_id);
     ret_value = cont_id;
 
-- 
2.43.0


From c9a9767f4c8634fa1a168dfb103a9b1e6c8a659a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:51 +0000
Subject: [PATCH 54/77] fix: mapping or locking a region that is closed

---
 src/api/pdc_region/pdc_region.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/api/pdc_region/pdc_region.c b/src/api/pdc_region/pdc_region.c
index 5b5aa1f..8d52f2f 100644
--- a/src/api/pdc_region/pdc_region.c
+++ b/src/api/pdc_region/pdc_region.c
@@ -223,7 +223,9 @@ PDCbuf_obj_map(void *buf, pdc_var_type_t local_type, pdcid_t local_reg, pdcid_t
     FUNC_ENTER(NULL);
 
     reginfo1 = PDC_find_id(local_reg);
-    reg1     = (struct pdc_region_info *)(reginfo1->obj_ptr);
+    if (reginfo1 == NULL)
+        PGOTO_ERROR(FAIL, "cannot locate local region ID");
+    reg1 = (struct pdc_region_info *)(reginfo1->obj_ptr);
 
     objinfo2 = PDC_find_id(remote_obj);
     if (objinfo2 == NULL)
@@ -234,7 +236,9 @@ PDCbuf_obj_map(void *buf, pdc_var_type_t local_type, pdcid_t local_reg, pdcid_t
     remote_type    = obj2->obj_pt->obj_prop_pub->type;
 
     reginfo2 = PDC_find_id(remote_reg);
-    reg2     = (struct pdc_region_info *)(reginfo2->obj_ptr);
+    if (reginfo2 == NULL)
+        PGOTO_ERROR(FAIL, "cannot locate remote region ID");
+    reg2 = (struct pdc_region_info *)(reginfo2->obj_ptr);
     if (obj2->obj_pt->obj_prop_pub->ndim != reg2->ndim)
         PGOTO_ERROR(FAIL, "remote object dimension and region dimension does not match");
     for (i = 0; i < reg2->ndim; i++)
@@ -335,7 +339,9 @@ PDCreg_obtain_lock(pdcid_t obj_id, pdcid_t reg_id, pdc_access_t access_type, pdc
     // object_info = PDC_obj_get_info(obj_id);
     data_type   = object_info->obj_pt->obj_prop_pub->type;
     region_info = PDCregion_get_info(reg_id);
-    ret_value   = PDC_Client_region_lock(object_info->obj_info_pub->meta_id, object_info, region_info,
+    if (region_info == NULL)
+        PGOTO_ERROR(FAIL, "cannot locate region ID");
+    ret_value = PDC_Client_region_lock(object_info->obj_info_pub->meta_id, object_info, region_info,
                                        access_type, lock_mode, data_type, &obtained);
 
     // PDC_free_obj_info(object_info);
@@ -362,6 +368,8 @@ PDCreg_release_lock(pdcid_t obj_id, pdcid_t reg_id, pdc_access_t access_type)
     // object_info = PDC_obj_get_info(obj_id);
     data_type   = object_info->obj_pt->obj_prop_pub->type;
     region_info = PDCregion_get_info(reg_id);
+    if (region_info == NULL)
+        PGOTO_ERROR(FAIL, "cannot locate region ID");
 
     ret_value = PDC_Client_region_release(object_info->obj_info_pub->meta_id, object_info, region_info,
                                           access_type, data_type, &released);
-- 
2.43.0


From 5af28c66693af16e3609f08a8fd4f0634662f07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:50 +0000
Subject: [PATCH 55/77] fix: DART reads behind the end of short keywords

---
 src/commons/index/dart/dart_core.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/commons/index/dart/dart_core.c b/src/commons/index/dart/dart_core.c
index 43410f4..f525bb6 100644
--- a/src/commons/index/dart/dart_core.c
+++ b/src/commons/index/dart/dart_core.c
@@ -80,13 +80,13 @@ get_base_virtual_node_id_by_string(DART *dart, char *str)
     int      n = 0;
     uint64_t c;
     uint64_t rst = 0;
-    uint64_t i_t_n;
+    uint64_t i_t_n   = 0;
     int      met_end = 0;
     for (n = 1; n <= dart->dart_tree_height; n++) {
-        if (str[n - 1] == '\0') { // test if the string ends.
+        if (met_end == 0 && str[n - 1] == '\0') { // test if the string ends.
             met_end = 1;
         }
-        if (str[n - 1] != '\0' && met_end == 0) { // if not, we calculate the character index.
+        if (met_end == 0) { // if not, we calculate the character index.
             i_t_n = ((uint64_t)str[n - 1]) % dart->alphabet_size;
         }
         c = (i_t_n) * ((uint64_t)uint32_pow(dart->alphabet_size, dart->dart_tree_height - n));
@@ -193,10 +193,10 @@ get_reconciled_vnode_id_with_power_of_two_choice_rehashing(DART *dart, uint64_t
     uint64_t i_t_n;
     int      met_end = 0;
     for (n = 1; n <= dart->dart_tree_height; n++) {
-        if (word[n - 1] == '\0') {
+        if (met_end == 0 && word[n - 1] == '\0') {
             met_end = 1;
         }
-        if (word[n - 1] != '\0' && met_end == 0) {
+        if (met_end == 0) {
             if (n == 1) {
                 i_t_n = ((int)word[n - 1] + ir_idx) % dart->alphabet_size;
             }
-- 
2.43.0


From dc1840038e40dcfef0c321da342665cc93370919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:50 +0000
Subject: [PATCH 56/77] fix: DART places keywords with bytes outside ASCII
 inconsistently

---
 src/commons/index/dart/dart_core.c | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/commons/index/dart/dart_core.c b/src/commons/index/dart/dart_core.c
index f525bb6..56f7650 100644
--- a/src/commons/index/dart/dart_core.c
+++ b/src/commons/index/dart/dart_core.c
@@ -87,7 +87,7 @@ get_base_virtual_node_id_by_string(DART *dart, char *str)
             met_end = 1;
         }
         if (met_end == 0) { // if not, we calculate the character index.
-            i_t_n = ((uint64_t)str[n - 1]) % dart->alphabet_size;
+            i_t_n = ((uint64_t)(unsigned char)str[n - 1]) % dart->alphabet_size;
         }
         c = (i_t_n) * ((uint64_t)uint32_pow(dart->alphabet_size, dart->dart_tree_height - n));
         rst += c;
@@ -145,13 +145,13 @@ get_reconciled_vnode_id_with_power_of_two_choice_rehashing(DART *dart, uint64_t
         else {
             // otherwise, pre_leaf_index should be the index of proceeding character of the
             // leaf-level character in the alphabet.
-            pre_leaf_index = (int)word[last_c_index - 1] % dart->alphabet_size;
+            pre_leaf_index = (int)(unsigned char)word[last_c_index - 1] % dart->alphabet_size;
         }
     }
     else {
         // if the length of the word exceeds the height of the DART partition tree,
         // definitely, post-leaf character exists.
-        post_leaf_index = (int)word[last_c_index + 1] % dart->alphabet_size;
+        post_leaf_index = (int)(unsigned char)word[last_c_index + 1] % dart->alphabet_size;
         // but, there is a case where DART partition tree is of height 1.
         // in this case, there will be no pre-leaf character.
         if (tree_height <= 1) {
@@ -159,10 +159,10 @@ get_reconciled_vnode_id_with_power_of_two_choice_rehashing(DART *dart, uint64_t
         }
         else {
             // otherwise, there will be a pre-leaf character.
-            pre_leaf_index = (int)word[last_c_index - 1] % dart->alphabet_size;
+            pre_leaf_index = (int)(unsigned char)word[last_c_index - 1] % dart->alphabet_size;
         }
     }
-    int leaf_index = (int)word[last_c_index] % dart->alphabet_size;
+    int leaf_index = (int)(unsigned char)word[last_c_index] % dart->alphabet_size;
 
     int leaf_post_sum  = leaf_index + pre_leaf_index + post_leaf_index;
     int leaf_post_diff = abs(post_leaf_index - leaf_index - pre_leaf_index);
@@ -198,13 +198,13 @@ get_reconciled_vnode_id_with_power_of_two_choice_rehashing(DART *dart, uint64_t
         }
         if (met_end == 0) {
             if (n == 1) {
-                i_t_n = ((int)word[n - 1] + ir_idx) % dart->alphabet_size;
+                i_t_n = ((int)(unsigned char)word[n - 1] + ir_idx) % dart->alphabet_size;
             }
             else if (n == (dart->dart_tree_height - 1)) {
-                i_t_n = ((int)word[n - 1] + leaf_post_sum) % dart->alphabet_size;
+                i_t_n = ((int)(unsigned char)word[n - 1] + leaf_post_sum) % dart->alphabet_size;
             }
             else if (n == dart->dart_tree_height) {
-                i_t_n = abs((int)word[n - 1] - leaf_post_diff) % dart->alphabet_size;
+                i_t_n = abs((int)(unsigned char)word[n - 1] - leaf_post_diff) % dart->alphabet_size;
             }
         }
         c = (i_t_n) * ((uint64_t)uint32_pow(dart->alphabet_size, dart->dart_tree_height - n));
@@ -214,7 +214,7 @@ get_reconciled_vnode_id_with_power_of_two_choice_rehashing(DART *dart, uint64_t
     int alterV = (rst % (uint64_t)dart->num_vnode);
 
     // // We also calculate the region start position.
-    // uint64_t region_start = ((((int)word[0]+ir_idx) % dart->alphabet_size)) * region_size;//
+    // uint64_t region_start = ((((int)(unsigned char)word[0]+ir_idx) % dart->alphabet_size)) * region_size;//
     // ((reconciled_vnode_idx)/region_size) * (region_size);
     // // Finally, the reconciled vnode index is calculated.
     // // reconciled_vnode_idx = (0 + region_start + region_offset) % dart->num_vnode;
@@ -288,13 +288,13 @@ get_reconciled_vnode_id_with_power_of_two_choice_rehashing_2(DART *dart, uint64_
         else {
             // otherwise, pre_leaf_index should be the index of proceeding character of the
             // leaf-level character in the alphabet.
-            pre_leaf_index = (int)word[last_c_index - 1] % dart->alphabet_size;
+            pre_leaf_index = (int)(unsigned char)word[last_c_index - 1] % dart->alphabet_size;
         }
     }
     else {
         // if the length of the word exceeds the height of the DART partition tree,
         // definitely, post-leaf character exists.
-        post_leaf_index = (int)word[last_c_index + 1] % dart->alphabet_size;
+        post_leaf_index = (int)(unsigned char)word[last_c_index + 1] % dart->alphabet_size;
         // but, there is a case where DART partition tree is of height 1.
         // in this case, there will be no pre-leaf character.
         if (tree_height <= 1) {
@@ -302,10 +302,10 @@ get_reconciled_vnode_id_with_power_of_two_choice_rehashing_2(DART *dart, uint64_
         }
         else {
             // otherwise, there will be a pre-leaf character.
-            pre_leaf_index = (int)word[last_c_index - 1] % dart->alphabet_size;
+            pre_leaf_index = (int)(unsigned char)word[last_c_index - 1] % dart->alphabet_size;
         }
     }
-    int leaf_index = (int)word[last_c_index] % dart->alphabet_size;
+    int leaf_index = (int)(unsigned char)word[last_c_index] % dart->alphabet_size;
 
     int leaf_post_sum  = leaf_index + pre_leaf_index + post_leaf_index;
     int leaf_post_diff = abs(post_leaf_index - leaf_index - pre_leaf_index);
@@ -331,7 +331,7 @@ get_reconciled_vnode_id_with_power_of_two_choice_rehashing_2(DART *dart, uint64_
     int ir_idx = (int)ceil((double)(dart->alphabet_size / 2));
 
     // We also calculate the region start position.
-    uint64_t region_start = ((((int)word[0] + ir_idx) % dart->alphabet_size)) *
+    uint64_t region_start = ((((int)(unsigned char)word[0] + ir_idx) % dart->alphabet_size)) *
                             region_size; // ((reconciled_vnode_idx)/region_size) * (region_size);
     // Finally, the reconciled vnode index is calculated.
     // reconciled_vnode_idx = (0 + region_start + region_offset) % dart->num_vnode;
@@ -483,7 +483,7 @@ get_server_ids_for_query(DART *dart_g, char *token, dart_op_type_t op_type, uint
         // TODO: we have to consider if we can reduce the number of nodes we need to
         // access as the prefix length grows.
         int region_size  = dart_g->num_vnode / dart_g->alphabet_size;
-        int region_start = ((((int)token[0] % dart_g->alphabet_size) + 0) * region_size);
+        int region_start = ((((int)(unsigned char)token[0] % dart_g->alphabet_size) + 0) * region_size);
 
         uint64_t server_start = get_server_id_by_vnode_id(dart_g, region_start);
         uint64_t server_end   = get_server_id_by_vnode_id(dart_g, region_start + region_size - 1);
-- 
2.43.0


From 716057cf4551244b4bba30425fcd74803d073408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:50 +0000
Subject: [PATCH 57/77] fix: DART prefix searches leave out servers that index
 matching keywords

---
 src/commons/index/dart/dart_core.c | 58 +++++++++++++++++++++++-------
 1 file changed, 45 insertions(+), 13 deletions(-)

diff --git a/src/commons/index/dart/dart_core.c b/src/commons/index/dart/dart_core.c
index 56f7650..73ab1dc 100644
--- a/src/commons/index/dart/dart_core.c
+++ b/src/commons/index/dart/dart_core.c
@@ -418,6 +418,27 @@ get_server_ids_for_insert(DART *dart_g, char *keyword, get_server_info_callback
     return rst_len;
 }
 
+/**
+ * Mark the servers of count virtual nodes, beginning with the given one. Behind the last virtual node follows
+ * the first one.
+ */
+static void
+mark_servers_of_vnodes(DART *dart, uint64_t first_vnode, uint64_t count, char *involved)
+{
+    uint64_t num_vnode_per_server = dart->num_vnode / dart->num_server;
+    uint64_t i                    = 0;
+    while (i < count) {
+        uint64_t vnode_id                                  = (first_vnode + i) % dart->num_vnode;
+        involved[get_server_id_by_vnode_id(dart, vnode_id)] = 1;
+        // go on with the first virtual node of the next server.
+        uint64_t step = num_vnode_per_server - vnode_id % num_vnode_per_server;
+        if (step > dart->num_vnode - vnode_id) {
+            step = dart->num_vnode - vnode_id;
+        }
+        i += step;
+    }
+}
+
 /**
  * This function gives all the server ID according to the given query token.
  * The query token should not contain any wildcard sign.
@@ -479,23 +500,34 @@ get_server_ids_for_query(DART *dart_g, char *token, dart_op_type_t op_type, uint
 #endif
                                                      )) {
 
-        // TODO: currently broadcast request to all virtual nodes in one region.
+        // TODO: currently broadcast request to all virtual nodes in the regions involved.
         // TODO: we have to consider if we can reduce the number of nodes we need to
         // access as the prefix length grows.
-        int region_size  = dart_g->num_vnode / dart_g->alphabet_size;
-        int region_start = ((((int)(unsigned char)token[0] % dart_g->alphabet_size) + 0) * region_size);
-
-        uint64_t server_start = get_server_id_by_vnode_id(dart_g, region_start);
-        uint64_t server_end   = get_server_id_by_vnode_id(dart_g, region_start + region_size - 1);
-
-        int num_srvs    = server_end - server_start + 1;
-        out[0]          = (uint64_t *)calloc(num_srvs, sizeof(uint64_t));
-        int num_srv_ids = 0;
+        uint64_t region_size = dart_g->num_vnode / dart_g->alphabet_size;
+        int      leading     = (int)(unsigned char)token[0] % dart_g->alphabet_size;
+        int      ir_idx      = (int)ceil((double)(dart_g->alphabet_size / 2));
+        // the alternative virtual node of a keyword is its base virtual node moved on by alter_shift plus an
+        // offset of less than one region.
+        uint64_t alter_shift = (uint64_t)((leading + ir_idx) % dart_g->alphabet_size);
+
+        char *involved = (char *)calloc(dart_g->num_server, sizeof(char));
+        mark_servers_of_vnodes(dart_g, leading * region_size, region_size, involved);
+        if (token[0] == '\0') {
+            // every keyword begins with the empty one.
+            mark_servers_of_vnodes(dart_g, 0, dart_g->num_vnode, involved);
+        }
+        else if (dart_g->dart_tree_height > 1) {
+            mark_servers_of_vnodes(dart_g, (leading + alter_shift) * region_size, 2 * region_size, involved);
+        }
 
-        uint64_t srvId = server_start;
-        for (; srvId <= server_end; srvId++) {
-            out[0][num_srv_ids++] = srvId;
+        int num_srvs = 0;
+        out[0]       = (uint64_t *)calloc(dart_g->num_server, sizeof(uint64_t));
+        for (uint32_t srvId = 0; srvId < dart_g->num_server; srvId++) {
+            if (involved[srvId]) {
+                out[0][num_srvs++] = srvId;
+            }
         }
+        free(involved);
         return num_srvs;
     }
     else {
-- 
2.43.0


From 665305615fd37375fe72bf05c5000fd189acc7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:50 +0000
Subject: [PATCH 58/77] fix: DART prefix searches with as many characters as
 the tree has levels

---
 src/commons/index/dart/dart_core.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/commons/index/dart/dart_core.c b/src/commons/index/dart/dart_core.c
index 73ab1dc..172d23b 100644
--- a/src/commons/index/dart/dart_core.c
+++ b/src/commons/index/dart/dart_core.c
@@ -492,7 +492,7 @@ get_server_ids_for_query(DART *dart_g, char *token, dart_op_type_t op_type, uint
 
     // for prefix/suffix query, we seek for proper parent region and only perform query broadcast for that
     // region. when suffix tree mode is ON: suffix query == exact query, infix query == prefix query.
-    if (strlen(token) < dart_g->dart_tree_height && (op_type == OP_PREFIX_QUERY
+    if (strlen(token) <= dart_g->dart_tree_height && (op_type == OP_PREFIX_QUERY
 #ifdef PDC_DART_SFX_TREE
                                                      || op_type == OP_INFIX_QUERY
 #else
-- 
2.43.0


From ba86d62ac49326aa0658fc7effcbc03268e5c8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:18 +0000
Subject: [PATCH 59/77] fix: DHT suffix and one character prefix searches leave
 out servers

---
 src/commons/index/dart/dart_core.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/commons/index/dart/dart_core.c b/src/commons/index/dart/dart_core.c
index 172d23b..97b5095 100644
--- a/src/commons/index/dart/dart_core.c
+++ b/src/commons/index/dart/dart_core.c
@@ -691,14 +691,18 @@ DHT_hash(DART *dart_g, size_t len, char *key, dart_op_type_t op_type, index_hash
     else if (op_type == OP_EXACT_QUERY) {
         is_full_scan = 0;
     }
-    else if (op_type == OP_PREFIX_QUERY || op_type == OP_SUFFIX_QUERY) {
-        if (len > 1) {
+    else if (op_type == OP_PREFIX_QUERY) {
+        // the first character alone tells the server only when keywords are hashed by nothing else.
+        if (len > 1 || len == strlen(key)) {
             is_full_scan = 1;
         }
         else {
             is_full_scan = 0;
         }
     }
+    else if (op_type == OP_SUFFIX_QUERY) {
+        is_full_scan = 1;
+    }
     else if (op_type == OP_INFIX_QUERY) {
         is_full_scan = 1;
     }
-- 
2.43.0


From 69c8afb4bb7dec7968cd54c17f428747b5067a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:35 +0000
Subject: [PATCH 60/77] fix: deleting from the metadata index frees one object
 ID many times

---
 src/server/pdc_server_metadata_index.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/server/pdc_server_metadata_index.c b/src/server/pdc_server_metadata_index.c
index 1e91c42..e80aa0b 100644
--- a/src/server/pdc_server_metadata_index.c
+++ b/src/server/pdc_server_metadata_index.c
@@ -225,11 +225,16 @@ create_prefix_index_for_attr_value(void **index, unsigned char *attr_value, void
         art_insert(art_value_prefix_tree, attr_value, len, (void *)obj_id_set);
     }
 
-    int indexed = set_insert(obj_id_set, data);
-
-    if (indexed == -1) {
+    // every set owns and frees its items, and one data item is indexed under many values.
+    uint64_t *item = (uint64_t *)malloc(sizeof(uint64_t));
+    if (item == NULL) {
         return FAIL;
     }
+    *item = *(uint64_t *)data;
+    if (set_insert(obj_id_set, item) == 0) {
+        // it has been indexed before.
+        free(item);
+    }
 
     return ret;
 }
@@ -313,6 +318,7 @@ metadata_index_create(char *attr_key, char *attr_value, uint64_t obj_locator, in
     // }
     // else if (index_type == DART_HASH) {
     create_index_for_attr_name(attr_key, attr_value, (void *)data);
+    free(data);
     // }
     timer_pause(&timer);
     // if (DART_SERVER_DEBUG) {
-- 
2.43.0


From 3266d152d257353b71fa4121b5a602831d3de5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:35 +0000
Subject: [PATCH 61/77] fix: suffixes of deleted keywords stay in the metadata
 index

---
 src/server/pdc_server_metadata_index.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server/pdc_server_metadata_index.c b/src/server/pdc_server_metadata_index.c
index e80aa0b..3d3605b 100644
--- a/src/server/pdc_server_metadata_index.c
+++ b/src/server/pdc_server_metadata_index.c
@@ -381,7 +381,7 @@ delete_index_for_attr_name(char *attr_name, char *attr_value, void *data)
         nm_key  = rr == 1 ? (unsigned char *)reverse_str(attr_name) : (unsigned char *)attr_name;
         nm_trie = rr == 1 ? art_key_suffix_tree_g : art_key_prefix_tree_g;
 #else
-    int sub_loop_count = 1; // should be 'len', but we already iterate all suffixes at client side;
+    int sub_loop_count = len; // every suffix that create_index_for_attr_name has indexed.
     nm_trie            = art_key_prefix_tree_g;
     for (int j = 0; j < sub_loop_count; j++) {
         nm_key = (unsigned char *)substring(attr_name, j, len);
-- 
2.43.0


From f943ef610ed467769b26e103c7780accd2737894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:51 +0000
Subject: [PATCH 62/77] fix: a search with a lone asterisk crashes the server

---
 src/server/pdc_server_metadata_index.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/server/pdc_server_metadata_index.c b/src/server/pdc_server_metadata_index.c
index 3d3605b..79f5196 100644
--- a/src/server/pdc_server_metadata_index.c
+++ b/src/server/pdc_server_metadata_index.c
@@ -492,6 +492,15 @@ level_two_art_callback(void *data, const unsigned char *key, uint32_t key_len, v
     return 0;
 }
 
+/**
+ * The part of an infix pattern between its two asterisks. A lone asterisk is one with nothing between.
+ */
+static char *
+infix_of_pattern(char *pattern)
+{
+    return strlen(pattern) < 2 ? strdup("") : substring(pattern, 1, strlen(pattern) - 1);
+}
+
 /**
  * The callback function performs on each prefix on a art_tree.
  *
@@ -561,7 +570,7 @@ level_one_art_callback(void *data, const unsigned char *key, uint32_t key_len, v
                 }
                 break;
             case PATTERN_MIDDLE:
-                tok            = substring(secondary_query, 1, strlen(secondary_query) - 1);
+                tok            = infix_of_pattern(secondary_query);
                 secondary_trie = (art_tree *)leafcnt->extra_prefix_index;
                 if (secondary_trie != NULL) {
 #ifndef PDC_DART_SFX_TREE
@@ -657,7 +666,7 @@ metadata_index_search(char *query, int index_type, uint64_t *n_obj_ids_ptr, uint
                 break;
             case PATTERN_MIDDLE:
                 qType_string = "Infix";
-                tok          = substring(k_query, 1, strlen(k_query) - 1);
+                tok          = infix_of_pattern(k_query);
 #ifndef PDC_DART_SFX_TREE
                 param->level_one_infix = tok;
                 art_iter(art_key_prefix_tree_g, level_one_art_callback, param);
-- 
2.43.0


From efe05026561b31784add6a08597c7eb3a67a9769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:51 +0000
Subject: [PATCH 63/77] fix: an index search with a lone asterisk or without a
 value crashes the client

---
 src/api/pdc_client_connect.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/api/pdc_client_connect.c b/src/api/pdc_client_connect.c
index b890062..15dcd45 100644
--- a/src/api/pdc_client_connect.c
+++ b/src/api/pdc_client_connect.c
@@ -8712,6 +8712,15 @@ PDC_Client_search_obj_ref_through_dart(dart_hash_algo_t hash_algo, char *query_s
     char *         affix   = NULL;
     dart_op_type_t dart_op;
 
+    if (k_query == NULL || v_query == NULL) {
+        printf("==PDC_CLIENT[%d]: Error with query [%s]\n", pdc_client_mpi_rank_g, query_string);
+        *n_res = 0;
+        *out   = NULL;
+        free(k_query);
+        free(v_query);
+        return FAIL;
+    }
+
     pattern_type_t dart_query_type = determine_pattern_type(k_query);
     switch (dart_query_type) {
         case PATTERN_EXACT:
@@ -8735,7 +8744,8 @@ PDC_Client_search_obj_ref_through_dart(dart_hash_algo_t hash_algo, char *query_s
         case PATTERN_MIDDLE:
             // tok = (char *)calloc(strlen(k_query)-2, sizeof(char));
             // strncpy(tok, &k_query[1], strlen(k_query)-2);
-            affix   = substring(k_query, 1, strlen(k_query) - 1);
+            // a lone asterisk is an infix pattern with nothing between its asterisks.
+            affix   = strlen(k_query) < 2 ? strdup("") : substring(k_query, 1, strlen(k_query) - 1);
             tok     = strdup(affix);
             dart_op = OP_INFIX_QUERY;
             break;
-- 
2.43.0


From ad1c6abf3648c6a468de5adc7674a18fa7710769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:03 +0000
Subject: [PATCH 64/77] fix: range queries over other than double values
 compare the raw bytes of the values

---
 src/api/pdc_query/pdc_query.c                 |  67 ++---------
 src/server/pdc_client_server_common.c         |  70 +++--------
 .../pdc_server_region/pdc_server_data.c       | 111 ++++--------------
 3 files changed, 54 insertions(+), 194 deletions(-)

diff --git a/src/api/pdc_query/pdc_query.c b/src/api/pdc_query/pdc_query.c
index 25df43e..46f7067 100644
--- a/src/api/pdc_query/pdc_query.c
+++ b/src/api/pdc_query/pdc_query.c
@@ -111,83 +111,40 @@ PDCquery_and(pdc_query_t *q1, pdc_query_t *q2)
                   (q2->constraint->op == PDC_LT || q2->constraint->op == PDC_LTE))) {
                 break;
             }
-            /*
-                        switch (q1->constraint->type) {
-                            case PDC_FLOAT:
-                                flo = *((float *)&q1->constraint->value);
-                                fhi = *((float *)&q2->constraint->value);
-                                if (flo <= fhi)
-                                    can_combine = 1;
-                                break;
-                            case PDC_DOUBLE:
-                                dlo = *((double *)&q1->constraint->value);
-                                dhi = *((double *)&q2->constraint->value);
-                                if (dlo <= dhi)
-                                    can_combine = 1;
-                                break;
-                            case PDC_INT:
-                                ilo = *((int *)&q1->constraint->value);
-                                ihi = *((int *)&q2->constraint->value);
-                                if (ilo <= ihi)
-                                    can_combine = 1;
-                                break;
-                            case PDC_UINT:
-                                ulo = *((uint32_t *)&q1->constraint->value);
-                                uhi = *((uint32_t *)&q2->constraint->value);
-                                if (ulo <= uhi)
-                                    can_combine = 1;
-                                break;
-                            case PDC_INT64:
-                                i64lo = *((int64_t *)&q1->constraint->value);
-                                i64hi = *((int64_t *)&q2->constraint->value);
-                                if (i64lo <= i64hi)
-                                    can_combine = 1;
-                                break;
-                            case PDC_UINT64:
-                                ui64lo = *((uint64_t *)&q1->constraint->value);
-                                ui64hi = *((uint64_t *)&q2->constraint->value);
-                                if (ui64lo <= ui64hi)
-                                    can_combine = 1;
-                                break;
-                            default:
-                                PGOTO_ERROR(NULL, "== error with operator type!");
-                                break;
-                        } // End switch
-            */
             switch (q1->constraint->type) {
                 case PDC_FLOAT:
-                    flo = (float)q1->constraint->value;
-                    fhi = (float)q2->constraint->value;
+                    flo = *((float *)&q1->constraint->value);
+                    fhi = *((float *)&q2->constraint->value);
                     if (flo <= fhi)
                         can_combine = 1;
                     break;
                 case PDC_DOUBLE:
-                    dlo = (double)q1->constraint->value;
-                    dhi = (double)q2->constraint->value;
+                    dlo = *((double *)&q1->constraint->value);
+                    dhi = *((double *)&q2->constraint->value);
                     if (dlo <= dhi)
                         can_combine = 1;
                     break;
                 case PDC_INT:
-                    ilo = (int)q1->constraint->value;
-                    ihi = (int)q2->constraint->value;
+                    ilo = *((int *)&q1->constraint->value);
+                    ihi = *((int *)&q2->constraint->value);
                     if (ilo <= ihi)
                         can_combine = 1;
                     break;
                 case PDC_UINT:
-                    ulo = (uint32_t)q1->constraint->value;
-                    uhi = (uint32_t)q2->constraint->value;
+                    ulo = *((uint32_t *)&q1->constraint->value);
+                    uhi = *((uint32_t *)&q2->constraint->value);
                     if (ulo <= uhi)
                         can_combine = 1;
                     break;
                 case PDC_INT64:
-                    i64lo = (int64_t)q1->constraint->value;
-                    i64hi = (int64_t)q2->constraint->value;
+                    i64lo = *((int64_t *)&q1->constraint->value);
+                    i64hi = *((int64_t *)&q2->constraint->value);
                     if (i64lo <= i64hi)
                         can_combine = 1;
                     break;
                 case PDC_UINT64:
-                    ui64lo = (uint64_t)q1->constraint->value;
-                    ui64hi = (uint64_t)q2->constraint->value;
+                    ui64lo = *((uint64_t *)&q1->constraint->value);
+                    ui64hi = *((uint64_t *)&q2->constraint->value);
                     if (ui64lo <= ui64hi)
                         can_combine = 1;
                     break;
diff --git a/src/server/pdc_client_server_common.c b/src/server/pdc_client_server_common.c
index df45ae9..6e7c45f 100644
--- a/src/server/pdc_client_server_common.c
+++ b/src/server/pdc_client_server_common.c
@@ -7126,73 +7126,39 @@ print_query(pdc_query_t *query)
     if (query->left == NULL && query->right == NULL) {
 
         printf(" (%" PRIu64 " %s", query->constraint->obj_id, pdcquery_op_char_g[query->constraint->op]);
-        /*
-                if (query->constraint->is_range == 1) {
-                    if (query->constraint->type == PDC_FLOAT)
-                        printf(" %.6f %s %.6f) ", *((float *)&query->constraint->value),
-                               pdcquery_op_char_g[query->constraint->op2], *((float
-           *)&query->constraint->value2)); else if (query->constraint->type == PDC_DOUBLE) printf(" %.6f %s
-           %.6f) ", *((double *)&query->constraint->value), pdcquery_op_char_g[query->constraint->op2],
-           *((double *)&query->constraint->value2)); else if (query->constraint->type == PDC_INT) printf(" %d
-           %s %d) ", *((int *)&query->constraint->value), pdcquery_op_char_g[query->constraint->op2], *((int
-           *)&query->constraint->value2)); else if (query->constraint->type == PDC_UINT) printf(" %u %s %u) ",
-           *((unsigned *)&query->constraint->value), pdcquery_op_char_g[query->constraint->op2], *((unsigned
-           *)&query->constraint->value2)); else if (query->constraint->type == PDC_INT64) printf(" %" PRId64 "
-           %s %" PRId64 ")", *((int64_t *)&query->constraint->value),
-                               pdcquery_op_char_g[query->constraint->op2], *((int64_t
-           *)&query->constraint->value2)); else if (query->constraint->type == PDC_UINT64) printf(" %" PRId64
-           " %s %" PRId64 ") ", *((uint64_t *)&query->constraint->value),
-                               pdcquery_op_char_g[query->constraint->op2], *((uint64_t
-           *)&query->constraint->value2));
-                }
-                else {
-                    if (query->constraint->type == PDC_FLOAT)
-                        printf(" %.6f) ", *((float *)&query->constraint->value));
-                    else if (query->constraint->type == PDC_DOUBLE)
-                        printf(" %.6f) ", *((double *)&query->constraint->value));
-                    else if (query->constraint->type == PDC_INT)
-                        printf(" %d) ", *((int *)&query->constraint->value));
-                    else if (query->constraint->type == PDC_UINT)
-                        printf(" %u) ", *((unsigned *)&query->constraint->value));
-                    else if (query->constraint->type == PDC_INT64)
-                        printf(" %" PRId64 ")", *((int64_t *)&query->constraint->value));
-                    else if (query->constraint->type == PDC_UINT64)
-                        printf(" %" PRIu64 ") ", *((uint64_t *)&query->constraint->value));
-                }
-        */
         if (query->constraint->is_range == 1) {
             if (query->constraint->type == PDC_FLOAT)
-                printf(" %.6f %s %.6f) ", (float)query->constraint->value,
-                       pdcquery_op_char_g[query->constraint->op2], (float)query->constraint->value2);
+                printf(" %.6f %s %.6f) ", *((float *)&query->constraint->value),
+                       pdcquery_op_char_g[query->constraint->op2], *((float *)&query->constraint->value2));
             else if (query->constraint->type == PDC_DOUBLE)
-                printf(" %.6f %s %.6f) ", (double)query->constraint->value,
-                       pdcquery_op_char_g[query->constraint->op2], (double)query->constraint->value2);
+                printf(" %.6f %s %.6f) ", *((double *)&query->constraint->value),
+                       pdcquery_op_char_g[query->constraint->op2], *((double *)&query->constraint->value2));
             else if (query->constraint->type == PDC_INT)
-                printf(" %d %s %d) ", (int)query->constraint->value,
-                       pdcquery_op_char_g[query->constraint->op2], (int)query->constraint->value2);
+                printf(" %d %s %d) ", *((int *)&query->constraint->value),
+                       pdcquery_op_char_g[query->constraint->op2], *((int *)&query->constraint->value2));
             else if (query->constraint->type == PDC_UINT)
-                printf(" %u %s %u) ", (unsigned)query->constraint->value,
-                       pdcquery_op_char_g[query->constraint->op2], (unsigned)query->constraint->value2);
+                printf(" %u %s %u) ", *((unsigned *)&query->constraint->value),
+                       pdcquery_op_char_g[query->constraint->op2], *((unsigned *)&query->constraint->value2));
             else if (query->constraint->type == PDC_INT64)
-                printf(" %" PRId64 " %s %" PRId64 ")", (int64_t)query->constraint->value,
-                       pdcquery_op_char_g[query->constraint->op2], (int64_t)query->constraint->value2);
+                printf(" %" PRId64 " %s %" PRId64 ")", *((int64_t *)&query->constraint->value),
+                       pdcquery_op_char_g[query->constraint->op2], *((int64_t *)&query->constraint->value2));
             else if (query->constraint->type == PDC_UINT64)
-                printf(" %" PRId64 " %s %" PRId64 ") ", (uint64_t)query->constraint->value,
-                       pdcquery_op_char_g[query->constraint->op2], (uint64_t)query->constraint->value2);
+                printf(" %" PRId64 " %s %" PRId64 ") ", *((uint64_t *)&query->constraint->value),
+                       pdcquery_op_char_g[query->constraint->op2], *((uint64_t *)&query->constraint->value2));
         }
         else {
             if (query->constraint->type == PDC_FLOAT)
-                printf(" %.6f) ", (float)query->constraint->value);
+                printf(" %.6f) ", *((float *)&query->constraint->value));
             else if (query->constraint->type == PDC_DOUBLE)
-                printf(" %.6f) ", (double)query->constraint->value);
+                printf(" %.6f) ", *((double *)&query->constraint->value));
             else if (query->constraint->type == PDC_INT)
-                printf(" %d) ", (int)query->constraint->value);
+                printf(" %d) ", *((int *)&query->constraint->value));
             else if (query->constraint->type == PDC_UINT)
-                printf(" %u) ", (unsigned)query->constraint->value);
+                printf(" %u) ", *((unsigned *)&query->constraint->value));
             else if (query->constraint->type == PDC_INT64)
-                printf(" %" PRId64 ")", (int64_t)query->constraint->value);
+                printf(" %" PRId64 ")", *((int64_t *)&query->constraint->value));
             else if (query->constraint->type == PDC_UINT64)
-                printf(" %" PRIu64 ") ", (uint64_t)query->constraint->value);
+                printf(" %" PRIu64 ") ", *((uint64_t *)&query->constraint->value));
         }
         PGOTO_DONE_VOID;
     }
diff --git a/src/server/pdc_server_region/pdc_server_data.c b/src/server/pdc_server_region/pdc_server_data.c
index e0e100d..92a3a63 100644
--- a/src/server/pdc_server_region/pdc_server_data.c
+++ b/src/server/pdc_server_region/pdc_server_data.c
@@ -6069,62 +6069,30 @@ PDC_region_has_hits_from_hist(pdc_query_constraint_t *constraint, pdc_histogram_
         printf("==PDC_SERVER[%d]: %s -  NULL input!\n", pdc_server_rank_g, __func__);
         return -1;
     }
-    /*
-        switch (constraint->type) {
-            case PDC_FLOAT:
-                value  = (double)(*((float *)&constraint->value));
-                value2 = (double)(*((float *)&constraint->value2));
-                break;
-            case PDC_DOUBLE:
-                value  = (double)(*((double *)&constraint->value));
-                value2 = (double)(*((double *)&constraint->value2));
-                break;
-            case PDC_INT:
-                value  = (double)(*((int *)&constraint->value));
-                value2 = (double)(*((int *)&constraint->value2));
-                break;
-            case PDC_UINT:
-                value  = (double)(*((uint32_t *)&constraint->value));
-                value2 = (double)(*((uint32_t *)&constraint->value2));
-                break;
-            case PDC_INT64:
-                value  = (double)(*((int64_t *)&constraint->value));
-                value2 = (double)(*((int64_t *)&constraint->value2));
-                break;
-            case PDC_UINT64:
-                value  = (double)(*((uint64_t *)&constraint->value));
-                value2 = (double)(*((uint64_t *)&constraint->value2));
-                break;
-            default:
-                printf("==PDC_SERVER[%d]: %s - error with operator type!\n", pdc_server_rank_g, __func__);
-                return -1;
-        }
-    */
     switch (constraint->type) {
         case PDC_FLOAT:
-            value  = (double)constraint->value;
-            value2 = (double)constraint->value2;
+            value  = (double)(*((float *)&constraint->value));
+            value2 = (double)(*((float *)&constraint->value2));
             break;
         case PDC_DOUBLE:
-            value  = (double)constraint->value;
-            value2 = (double)constraint->value2;
+            value  = (double)(*((double *)&constraint->value));
+            value2 = (double)(*((double *)&constraint->value2));
             break;
         case PDC_INT:
-            value  = (double)constraint->value;
-            value2 = (double)constraint->value2;
+            value  = (double)(*((int *)&constraint->value));
+            value2 = (double)(*((int *)&constraint->value2));
             break;
         case PDC_UINT:
-            value  = (double)constraint->value;
-            value2 = (double)constraint->value2;
+            value  = (double)(*((uint32_t *)&constraint->value));
+            value2 = (double)(*((uint32_t *)&constraint->value2));
             break;
-
         case PDC_INT64:
-            value  = (double)constraint->value;
-            value2 = (double)constraint->value2;
+            value  = (double)(*((int64_t *)&constraint->value));
+            value2 = (double)(*((int64_t *)&constraint->value2));
             break;
         case PDC_UINT64:
-            value  = (double)constraint->value;
-            value2 = (double)constraint->value2;
+            value  = (double)(*((uint64_t *)&constraint->value));
+            value2 = (double)(*((uint64_t *)&constraint->value2));
             break;
         default:
             printf("==PDC_SERVER[%d]: %s - error with operator type!\n", pdc_server_rank_g, __func__);
@@ -7330,61 +7298,30 @@ PDC_Server_query_evaluate_merge_opt(pdc_query_t *query, query_task_t *task, pdc_
 
     // Check if there is a range query that we can combine the evaluation
     if (query->constraint->is_range == 1) {
-        /*
-    switch (query->constraint->type) {
-
-                    case PDC_FLOAT:
-                        flo = *((float *)&query->constraint->value);
-                        fhi = *((float *)&query->constraint->value2);
-                        break;
-                    case PDC_DOUBLE:
-                        dlo = *((double *)&query->constraint->value);
-                        dhi = *((double *)&query->constraint->value2);
-                        break;
-                    case PDC_INT:
-                        ilo = *((int *)&query->constraint->value);
-                        ihi = *((int *)&query->constraint->value2);
-                        break;
-                    case PDC_UINT:
-                        ulo = *((uint32_t *)&query->constraint->value);
-                        uhi = *((uint32_t *)&query->constraint->value2);
-                        break;
-                    case PDC_INT64:
-                        i64lo = *((int64_t *)&query->constraint->value);
-                        i64hi = *((int64_t *)&query->constraint->value2);
-                        break;
-                    case PDC_UINT64:
-                        ui64lo = *((uint64_t *)&query->constraint->value);
-                        ui64hi = *((uint64_t *)&query->constraint->value2);
-                        break;
-                    default:
-                        printf("==PDC_SERVER[%d]: %s - error with operator type!\n", pdc_server_rank_g,
-           __func__); ret_value = FAIL; goto done; } // End switch
-        */
         switch (query->constraint->type) {
             case PDC_FLOAT:
-                flo = (float)query->constraint->value;
-                fhi = (float)query->constraint->value2;
+                flo = *((float *)&query->constraint->value);
+                fhi = *((float *)&query->constraint->value2);
                 break;
             case PDC_DOUBLE:
-                dlo = (double)query->constraint->value;
-                dhi = (double)query->constraint->value2;
+                dlo = *((double *)&query->constraint->value);
+                dhi = *((double *)&query->constraint->value2);
                 break;
             case PDC_INT:
-                ilo = (int)query->constraint->value;
-                ihi = (int)query->constraint->value2;
+                ilo = *((int *)&query->constraint->value);
+                ihi = *((int *)&query->constraint->value2);
                 break;
             case PDC_UINT:
-                ulo = (uint32_t)query->constraint->value;
-                uhi = (uint32_t)query->constraint->value2;
+                ulo = *((uint32_t *)&query->constraint->value);
+                uhi = *((uint32_t *)&query->constraint->value2);
                 break;
             case PDC_INT64:
-                i64lo = (int64_t)query->constraint->value;
-                i64hi = (int64_t)query->constraint->value2;
+                i64lo = *((int64_t *)&query->constraint->value);
+                i64hi = *((int64_t *)&query->constraint->value2);
                 break;
             case PDC_UINT64:
-                ui64lo = (uint64_t)query->constraint->value;
-                ui64hi = (uint64_t)query->constraint->value2;
+                ui64lo = *((uint64_t *)&query->constraint->value);
+                ui64hi = *((uint64_t *)&query->constraint->value2);
                 break;
             default:
                 printf("==PDC_SERVER[%d]: %s - error with operator type!\n", pdc_server_rank_g, __func__);
-- 
2.43.0


From c244627e714f2d7c83df57adbbfe4e33ffde8e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:03 +0000
Subject: [PATCH 65/77] fix: combining a range with another condition drops a
 bound of the range

---
 src/api/pdc_query/pdc_query.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/api/pdc_query/pdc_query.c b/src/api/pdc_query/pdc_query.c
index 46f7067..f121b9f 100644
--- a/src/api/pdc_query/pdc_query.c
+++ b/src/api/pdc_query/pdc_query.c
@@ -96,7 +96,8 @@ PDCquery_and(pdc_query_t *q1, pdc_query_t *q2)
     // must be same obj, same type, lvalue < rvalue
     if (q1->constraint && q2->constraint) {
         while (q1->constraint->obj_id == q2->constraint->obj_id &&
-               q1->constraint->type == q2->constraint->type) {
+               q1->constraint->type == q2->constraint->type && q1->constraint->is_range != 1 &&
+               q2->constraint->is_range != 1) {
 
             // Switch the two constraints and make q1 to be GT or GTE when possible
             if ((q2->constraint->op == PDC_GT || q2->constraint->op == PDC_GTE) &&
-- 
2.43.0


From 0c0fa85674e1dcbf6e5098a734e370c0d67be9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:34 +0000
Subject: [PATCH 66/77] fix: a data query misplaces its hits: stored regions
 count elements in row-major order, ends excluded

---
 .../pdc_server_region/pdc_server_data.c       | 163 ++++++------------
 1 file changed, 57 insertions(+), 106 deletions(-)

diff --git a/src/server/pdc_server_region/pdc_server_data.c b/src/server/pdc_server_region/pdc_server_data.c
index 92a3a63..6d263ef 100644
--- a/src/server/pdc_server_region/pdc_server_data.c
+++ b/src/server/pdc_server_region/pdc_server_data.c
@@ -6393,6 +6393,8 @@ done:
 perr_t
 region_index_to_coord(int ndim, uint64_t idx, uint64_t *sizes, uint64_t *coord)
 {
+    int i;
+
     if (sizes == NULL || coord == NULL) {
         printf("==PDC_SERVER[%d]: %s - input NULL!\n", pdc_server_rank_g, __func__);
         return FAIL;
@@ -6403,25 +6405,22 @@ region_index_to_coord(int ndim, uint64_t idx, uint64_t *sizes, uint64_t *coord)
         return FAIL;
     }
 
-    if (ndim == 3) {
-        coord[2] = idx / (sizes[1] * sizes[0]);
-        idx -= sizes[1] * sizes[0];
-    }
-    if (ndim == 2) {
-        coord[1] = idx / sizes[0];
-        idx -= sizes[0];
+    // Elements are stored in row-major order, the last dimension changes fastest
+    for (i = ndim - 1; i >= 0; i--) {
+        coord[i] = idx % sizes[i];
+        idx /= sizes[i];
     }
-    coord[0] = idx;
 
     return SUCCEED;
 }
 
 uint64_t
-coord_to_region_index(size_t ndim, uint64_t *coord, region_list_t *region, int unit_size)
+coord_to_region_index(size_t ndim, uint64_t *coord, region_list_t *region)
 {
     uint64_t off = 0;
+    size_t   i;
 
-    if (ndim == 0 || coord == NULL || region == NULL || region->start[0] == 0 || region->count[0] == 0) {
+    if (ndim == 0 || coord == NULL || region == NULL || region->count[0] == 0) {
         printf("==PDC_SERVER[%d]: %s - input NULL!\n", pdc_server_rank_g, __func__);
         return 0;
     }
@@ -6431,31 +6430,23 @@ coord_to_region_index(size_t ndim, uint64_t *coord, region_list_t *region, int u
         return 0;
     }
 
-    if (ndim == 3)
-        off = (coord[2] - region->start[2] / unit_size) * region->count[0] / unit_size * region->count[1] /
-              unit_size;
-    if (ndim == 2)
-        off += (coord[1] - region->start[1] / unit_size) * region->count[0] / unit_size;
-
-    off += (coord[0] - region->start[0] / unit_size);
+    for (i = 0; i < ndim; i++)
+        off = off * region->count[i] + (coord[i] - region->start[i]);
 
     return off;
 }
 
 static int
-is_coord_within_region(int ndim, uint64_t *coords, region_list_t *region_constraint, int unit_size)
+is_coord_within_region(int ndim, uint64_t *coord, region_list_t *region_constraint)
 {
-    int      i;
-    uint64_t coord[3];
+    int i;
 
-    if (coords == NULL || region_constraint == NULL || ndim > 3)
+    if (coord == NULL || region_constraint == NULL || ndim > 3)
         return -1;
 
     for (i = 0; i < ndim; i++) {
-        coord[i] = coords[i];
-        coord[i] *= unit_size;
         if (coord[i] < region_constraint->start[i] ||
-            coord[i] > region_constraint->start[i] + region_constraint->count[i]) {
+            coord[i] >= region_constraint->start[i] + region_constraint->count[i]) {
             return -1;
         }
     }
@@ -6463,7 +6454,7 @@ is_coord_within_region(int ndim, uint64_t *coords, region_list_t *region_constra
 }
 
 static int
-is_idx_within_region(uint64_t idx, region_list_t *region, region_list_t *region_constraint, int unit_size)
+is_idx_within_region(uint64_t idx, region_list_t *region, region_list_t *region_constraint)
 {
     size_t   i, ndim;
     uint64_t coord[DIM_MAX];
@@ -6474,15 +6465,10 @@ is_idx_within_region(uint64_t idx, region_list_t *region, region_list_t *region_
     ndim = region->ndim;
     region_index_to_coord(ndim, idx, region->count, (uint64_t *)&coord);
 
-    for (i = 0; i < ndim; i++) {
-        coord[i] *= unit_size;
+    for (i = 0; i < ndim; i++)
         coord[i] += region->start[i];
-        if (coord[i] < region_constraint->start[i] ||
-            coord[i] > region_constraint->start[i] + region_constraint->count[i]) {
-            return -1;
-        }
-    }
-    return 1;
+
+    return is_coord_within_region(ndim, coord, region_constraint);
 }
 
 int
@@ -6504,11 +6490,11 @@ compare_coords_3d(const void *a, const void *b)
 }
 
 /* perr_t QUERY_EVALUATE_SCAN_OPT(uint64_t _n, float *_data, pdc_query_op_t _op, void *_value, */
-/*                                pdc_selection_t *_sel, region_list_t *_region, int _unit_size, */
+/*                                pdc_selection_t *_sel, region_list_t *_region, */
 /*                                region_list_t *_region_constraint, pdc_query_combine_op_t _combine_op) */
 /* { */
 /*     perr_t ret_value; */
-#define MACRO_QUERY_EVALUATE_SCAN_OPT(TYPE, _n, _data, _op, _value, _sel, _region, _unit_size,               \
+#define MACRO_QUERY_EVALUATE_SCAN_OPT(TYPE, _n, _data, _op, _value, _sel, _region,                           \
                                       _region_constraint, _combine_op)                                       \
     ({                                                                                                       \
         uint64_t idx, iii, jjj, ttt, cur_count = 0, istart, has_dup;                                         \
@@ -6525,7 +6511,7 @@ compare_coords_3d(const void *a, const void *b)
             for (iii = 0; iii < (_n); iii++) {                                                               \
                 is_good = 0;                                                                                 \
                 if ((_region_constraint) &&                                                                  \
-                    is_idx_within_region(iii, (_region), (_region_constraint), (_unit_size)) != 1)           \
+                    is_idx_within_region(iii, (_region), (_region_constraint)) != 1)                         \
                     continue;                                                                                \
                 switch (_op) {                                                                               \
                     case PDC_GT:                                                                             \
@@ -6566,22 +6552,10 @@ compare_coords_3d(const void *a, const void *b)
                             goto done;                                                                       \
                         }                                                                                    \
                     }                                                                                        \
-                    ttt = iii;                                                                               \
-                    if (_ndim == 3) {                                                                        \
-                        (_sel)->coords[istart + cur_count * _ndim + 2] =                                     \
-                            ttt / ((_region)->count[1] / (_unit_size)) *                                     \
-                                ((_region)->count[0] / (_unit_size)) +                                       \
-                            (_region)->start[2] / (_unit_size);                                              \
-                        ttt -= (_sel)->coords[istart + cur_count * _ndim + 2] *                              \
-                               ((_region)->count[1] / (_unit_size)) * ((_region)->count[0] / (_unit_size));  \
-                    }                                                                                        \
-                    if (_ndim == 2) {                                                                        \
-                        (_sel)->coords[istart + cur_count * _ndim + 1] =                                     \
-                            ttt / ((_region)->count[0] / (_unit_size)) + (_region)->start[1] / (_unit_size); \
-                        ttt -= (_sel)->coords[istart + cur_count * _ndim + 1] *                              \
-                               ((_region)->count[0] / (_unit_size));                                         \
-                    }                                                                                        \
-                    (_sel)->coords[istart + cur_count * _ndim] = ttt + (_region)->start[0] / (_unit_size);   \
+                    region_index_to_coord(_ndim, iii, (_region)->count,                                      \
+                                          &(_sel)->coords[istart + cur_count * _ndim]);                      \
+                    for (ttt = 0; ttt < (uint64_t)_ndim; ttt++)                                              \
+                        (_sel)->coords[istart + cur_count * _ndim + ttt] += (_region)->start[ttt];           \
                     cur_count++;                                                                             \
                 }                                                                                            \
             }                                                                                                \
@@ -6593,11 +6567,10 @@ compare_coords_3d(const void *a, const void *b)
                 if ((_sel)->coords[idx * (_ndim)] == ULLONG_MAX) {                                           \
                     continue;                                                                                \
                 }                                                                                            \
-                if (is_coord_within_region(_ndim, &(_sel)->coords[idx * (_ndim)], _region, _unit_size) !=    \
-                    1) {                                                                                     \
+                if (is_coord_within_region(_ndim, &(_sel)->coords[idx * (_ndim)], _region) != 1) {           \
                     continue;                                                                                \
                 }                                                                                            \
-                iii     = coord_to_region_index(_ndim, &(_sel)->coords[idx * (_ndim)], _region, _unit_size); \
+                iii     = coord_to_region_index(_ndim, &(_sel)->coords[idx * (_ndim)], _region);             \
                 is_good = 0;                                                                                 \
                 /* No need to check for region constraint as a query has one region constraint only */       \
                 switch (_op) {                                                                               \
@@ -6657,7 +6630,7 @@ compare_coords_3d(const void *a, const void *b)
     })
 
 #define MACRO_QUERY_RANGE_EVALUATE_SCAN_OPT(TYPE, _n, _data, _lo_op, _lo, _hi_op, _hi, _sel, _region,        \
-                                            _unit_size, _region_constraint, _combine_op)                     \
+                                            _region_constraint, _combine_op)                                 \
     ({                                                                                                       \
         uint64_t idx, iii, jjj, ttt, cur_count = 0, istart, has_dup;                                         \
         int      is_good, _ndim;                                                                             \
@@ -6673,7 +6646,7 @@ compare_coords_3d(const void *a, const void *b)
             for (iii = 0; iii < (_n); iii++) {                                                               \
                 is_good = 0;                                                                                 \
                 if ((_region_constraint) &&                                                                  \
-                    is_idx_within_region(iii, (_region), (_region_constraint), (_unit_size)) != 1)           \
+                    is_idx_within_region(iii, (_region), (_region_constraint)) != 1)                         \
                     continue;                                                                                \
                 if ((_lo_op) == PDC_GT && (_hi_op) == PDC_LT) {                                              \
                     if (edata[iii] > (_lo) && edata[iii] < (_hi))                                            \
@@ -6708,22 +6681,10 @@ compare_coords_3d(const void *a, const void *b)
                             goto done;                                                                       \
                         }                                                                                    \
                     }                                                                                        \
-                    ttt = iii;                                                                               \
-                    if (_ndim == 3) {                                                                        \
-                        (_sel)->coords[istart + cur_count * _ndim + 2] =                                     \
-                            ttt / ((_region)->count[1] / (_unit_size)) *                                     \
-                                ((_region)->count[0] / (_unit_size)) +                                       \
-                            (_region)->start[2] / (_unit_size);                                              \
-                        ttt -= (_sel)->coords[istart + cur_count * _ndim + 2] *                              \
-                               ((_region)->count[1] / (_unit_size)) * ((_region)->count[0] / (_unit_size));  \
-                    }                                                                                        \
-                    if (_ndim == 2) {                                                                        \
-                        (_sel)->coords[istart + cur_count * _ndim + 1] =                                     \
-                            ttt / ((_region)->count[0] / (_unit_size)) + (_region)->start[1] / (_unit_size); \
-                        ttt -= (_sel)->coords[istart + cur_count * _ndim + 1] *                              \
-                               ((_region)->count[0] / (_unit_size));                                         \
-                    }                                                                                        \
-                    (_sel)->coords[istart + cur_count * _ndim] = ttt + (_region)->start[0] / (_unit_size);   \
+                    region_index_to_coord(_ndim, iii, (_region)->count,                                      \
+                                          &(_sel)->coords[istart + cur_count * _ndim]);                      \
+                    for (ttt = 0; ttt < (uint64_t)_ndim; ttt++)                                              \
+                        (_sel)->coords[istart + cur_count * _ndim + ttt] += (_region)->start[ttt];           \
                     cur_count++;                                                                             \
                 }                                                                                            \
             }                                                                                                \
@@ -6735,11 +6696,10 @@ compare_coords_3d(const void *a, const void *b)
                 if ((_sel)->coords[idx * (_ndim)] == ULLONG_MAX) {                                           \
                     continue;                                                                                \
                 }                                                                                            \
-                if (is_coord_within_region(_ndim, &(_sel)->coords[idx * (_ndim)], _region, _unit_size) !=    \
-                    1) {                                                                                     \
+                if (is_coord_within_region(_ndim, &(_sel)->coords[idx * (_ndim)], _region) != 1) {           \
                     continue;                                                                                \
                 }                                                                                            \
-                iii     = coord_to_region_index(_ndim, &(_sel)->coords[idx * (_ndim)], _region, _unit_size); \
+                iii     = coord_to_region_index(_ndim, &(_sel)->coords[idx * (_ndim)], _region);             \
                 is_good = 0;                                                                                 \
                 /* No need to check for region constraint as a query has one region constraint only */       \
                 if ((_lo_op) == PDC_GT && (_hi_op) == PDC_LT) {                                              \
@@ -7287,12 +7247,7 @@ PDC_Server_query_evaluate_merge_opt(pdc_query_t *query, query_task_t *task, pdc_
     memset(&tmp_region, 0, sizeof(region_list_t));
     region_constraint = NULL;
     if (task->region_constraint->ndim > 0) {
-        // Convert logical tmp_region to bytes
         PDC_region_list_t_deep_cp(task->region_constraint, &tmp_region);
-        for (i = 0; i < task->region_constraint->ndim; i++) {
-            tmp_region.start[i] *= unit_size;
-            tmp_region.count[i] *= unit_size;
-        }
         region_constraint = &tmp_region;
     }
 
@@ -7412,7 +7367,7 @@ PDC_Server_query_evaluate_merge_opt(pdc_query_t *query, query_task_t *task, pdc_
                                    pdc_server_rank_g, __func__, tmp, sel->coords_alloc);
                         }
                         else
-                            sel->coords[tmp] = tmp_coord[j] + region_elt->start[j] / unit_size;
+                            sel->coords[tmp] = tmp_coord[j] + region_elt->start[j];
                     }
                 }
                 sel->nhits += idx_nhits;
@@ -7494,73 +7449,72 @@ PDC_Server_query_evaluate_merge_opt(pdc_query_t *query, query_task_t *task, pdc_
             nelem = cache_region->count[0];
             for (i = 1; i < cache_region->ndim; i++)
                 nelem *= cache_region->count[i];
-            nelem /= unit_size;
 
             switch (query->constraint->type) {
                 case PDC_FLOAT:
                     if (query->constraint->is_range == 1) {
                         MACRO_QUERY_RANGE_EVALUATE_SCAN_OPT(float, nelem, buf, lop, flo, rop, fhi, sel,
-                                                            region_elt, unit_size, region_constraint,
+                                                            region_elt, region_constraint,
                                                             combine_op);
                     }
                     else {
                         MACRO_QUERY_EVALUATE_SCAN_OPT(float, nelem, buf, op, value, sel, region_elt,
-                                                      unit_size, region_constraint, combine_op);
+                                                      region_constraint, combine_op);
                     }
                     break;
                 case PDC_DOUBLE:
                     if (query->constraint->is_range == 1) {
                         MACRO_QUERY_RANGE_EVALUATE_SCAN_OPT(double, nelem, buf, lop, dlo, rop, dhi, sel,
-                                                            region_elt, unit_size, region_constraint,
+                                                            region_elt, region_constraint,
                                                             combine_op);
                     }
                     else {
                         MACRO_QUERY_EVALUATE_SCAN_OPT(double, nelem, buf, op, value, sel, region_elt,
-                                                      unit_size, region_constraint, combine_op);
+                                                      region_constraint, combine_op);
                     }
                     break;
                 case PDC_INT:
                     if (query->constraint->is_range == 1) {
                         MACRO_QUERY_RANGE_EVALUATE_SCAN_OPT(int, nelem, buf, lop, ilo, rop, ihi, sel,
-                                                            region_elt, unit_size, region_constraint,
+                                                            region_elt, region_constraint,
                                                             combine_op);
                     }
                     else {
-                        MACRO_QUERY_EVALUATE_SCAN_OPT(int, nelem, buf, op, value, sel, region_elt, unit_size,
+                        MACRO_QUERY_EVALUATE_SCAN_OPT(int, nelem, buf, op, value, sel, region_elt,
                                                       region_constraint, combine_op);
                     }
                     break;
                 case PDC_UINT:
                     if (query->constraint->is_range == 1) {
                         MACRO_QUERY_RANGE_EVALUATE_SCAN_OPT(uint32_t, nelem, buf, lop, ulo, rop, uhi, sel,
-                                                            region_elt, unit_size, region_constraint,
+                                                            region_elt, region_constraint,
                                                             combine_op);
                     }
                     else {
                         MACRO_QUERY_EVALUATE_SCAN_OPT(uint32_t, nelem, buf, op, value, sel, region_elt,
-                                                      unit_size, region_constraint, combine_op);
+                                                      region_constraint, combine_op);
                     }
                     break;
                 case PDC_INT64:
                     if (query->constraint->is_range == 1) {
                         MACRO_QUERY_RANGE_EVALUATE_SCAN_OPT(int64_t, nelem, buf, lop, i64lo, rop, i64hi, sel,
-                                                            region_elt, unit_size, region_constraint,
+                                                            region_elt, region_constraint,
                                                             combine_op);
                     }
                     else {
                         MACRO_QUERY_EVALUATE_SCAN_OPT(int64_t, nelem, buf, op, value, sel, region_elt,
-                                                      unit_size, region_constraint, combine_op);
+                                                      region_constraint, combine_op);
                     }
                     break;
                 case PDC_UINT64:
                     if (query->constraint->is_range == 1) {
                         MACRO_QUERY_RANGE_EVALUATE_SCAN_OPT(uint64_t, nelem, buf, lop, ui64lo, rop, ui64hi,
-                                                            sel, region_elt, unit_size, region_constraint,
+                                                            sel, region_elt, region_constraint,
                                                             combine_op);
                     }
                     else {
                         MACRO_QUERY_EVALUATE_SCAN_OPT(uint64_t, nelem, buf, op, value, sel, region_elt,
-                                                      unit_size, region_constraint, combine_op);
+                                                      region_constraint, combine_op);
                     }
                     break;
                 default:
@@ -8089,6 +8043,7 @@ uint64_t
 coord_to_offset(size_t ndim, uint64_t *coord, uint64_t *start, uint64_t *count, size_t unit_size)
 {
     uint64_t off = 0;
+    size_t   i;
 
     if (ndim == 0 || coord == NULL || start == NULL || count == NULL) {
         printf("==PDC_SERVER[%d]: %s - input NULL!\n", pdc_server_rank_g, __func__);
@@ -8100,18 +8055,15 @@ coord_to_offset(size_t ndim, uint64_t *coord, uint64_t *start, uint64_t *count,
         return 0;
     }
 
-    if (ndim == 3)
-        off = (coord[2] * unit_size - start[2]) * count[0] * count[1];
-    if (ndim == 2)
-        off += (coord[1] * unit_size - start[1]) * count[0];
-
-    off += (coord[0] * unit_size - start[0]);
+    for (i = 0; i < ndim; i++)
+        off = off * count[i] + (coord[i] - start[i]);
+    off *= unit_size;
 
     return off;
 }
 
 int
-is_coord_in_region(int ndim, uint64_t *coord, size_t unit_size, region_list_t *region)
+is_coord_in_region(int ndim, uint64_t *coord, region_list_t *region)
 {
     int i;
     if (ndim == 0 || coord == NULL || region == NULL) {
@@ -8120,8 +8072,7 @@ is_coord_in_region(int ndim, uint64_t *coord, size_t unit_size, region_list_t *r
     }
 
     for (i = 0; i < ndim; i++) {
-        if (coord[i] * unit_size < region->start[i] ||
-            coord[i] * unit_size > region->start[i] + region->count[i]) {
+        if (coord[i] < region->start[i] || coord[i] >= region->start[i] + region->count[i]) {
             return -1;
         }
     }
@@ -8234,7 +8185,7 @@ PDC_Server_read_coords(const struct hg_cb_info *callback_info)
             coord = &(task->my_read_coords[i * ndim]);
             DL_FOREACH(storage_region_head, region_elt)
             {
-                if (is_coord_in_region(ndim, coord, unit_size, region_elt) == 1) {
+                if (is_coord_in_region(ndim, coord, region_elt) == 1) {
                     buf_off = coord_to_offset(ndim, coord, region_elt->start, region_elt->count, unit_size);
                     cache_region = region_elt;
                     if (region_elt->io_cache_region != NULL)
@@ -9392,7 +9343,7 @@ PDC_Server_recv_read_sel_obj_data(const struct hg_cb_info *callback_info)
         coord = &(coords[i * ndim]);
         DL_FOREACH(storage_region_head, region_elt)
         {
-            if (is_coord_in_region(ndim, coord, unit_size, region_elt) == 1) {
+            if (is_coord_in_region(ndim, coord, region_elt) == 1) {
                 buf_off      = coord_to_offset(ndim, coord, region_elt->start, region_elt->count, unit_size);
                 cache_region = region_elt;
                 if (region_elt->io_cache_region != NULL)
-- 
2.43.0


From 1bef5954bfa5b8ff3fa42e90934da130463dda69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:48 +0000
Subject: [PATCH 67/77] fix: a data query keeps hits that its second condition
 never saw

---
 .../pdc_server_region/pdc_server_data.c       | 25 +++++++++++++------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/server/pdc_server_region/pdc_server_data.c b/src/server/pdc_server_region/pdc_server_data.c
index 6d263ef..1d13670 100644
--- a/src/server/pdc_server_region/pdc_server_data.c
+++ b/src/server/pdc_server_region/pdc_server_data.c
@@ -7177,6 +7177,7 @@ PDC_Server_query_evaluate_merge_opt(pdc_query_t *query, query_task_t *task, pdc_
 {
     perr_t           ret_value = SUCCEED;
     region_list_t *  region_elt, *region_list_head, *cache_region, tmp_region, *region_constraint = NULL;
+    region_list_t ** eval_regions = NULL;
     pdc_selection_t *sel = query->sel;
     uint64_t         nelem;
     size_t           i, j, unit_size;
@@ -7293,6 +7294,7 @@ PDC_Server_query_evaluate_merge_opt(pdc_query_t *query, query_task_t *task, pdc_
     }
 
     DL_COUNT(region_list_head, region_elt, count);
+    eval_regions = (region_list_t **)calloc(count, sizeof(region_list_t *));
     if (use_fastbit_idx_g == 1) {
 #ifdef ENABLE_FASTBIT
         region_iter = -1;
@@ -7523,17 +7525,25 @@ PDC_Server_query_evaluate_merge_opt(pdc_query_t *query, query_task_t *task, pdc_
                     goto done;
             } // End switch
 
-            n_eval_region++;
+            eval_regions[n_eval_region++] = region_elt;
         } // End DL_FOREACH
     }     // End not use fastbit
 
-    if (n_eval_region == 0 && combine_op == PDC_QUERY_AND) {
-        if (sel->nhits > 0) {
-            sel->nhits = 0;
-            free(sel->coords);
-            sel->coords_alloc = 0;
-            sel->coords       = NULL;
+    // Hits outside of all evaluated regions do not satisfy the query
+    if (combine_op == PDC_QUERY_AND && (use_fastbit_idx_g != 1 || n_eval_region == 0)) {
+        uint64_t iter, n_kept = 0;
+        for (iter = 0; iter < sel->nhits; iter++) {
+            for (i = 0; (int)i < n_eval_region; i++) {
+                if (is_coord_within_region(ndim, &sel->coords[iter * ndim], eval_regions[i]) == 1)
+                    break;
+            }
+            if ((int)i == n_eval_region)
+                continue;
+            if (n_kept != iter)
+                memcpy(&sel->coords[n_kept * ndim], &sel->coords[iter * ndim], ndim * sizeof(uint64_t));
+            n_kept++;
         }
+        sel->nhits = n_kept;
     }
 
 #ifdef ENABLE_TIMING
@@ -7584,6 +7594,7 @@ done:
            query_eval_time);
 #endif
 
+    free(eval_regions);
     fflush(stdout);
     return ret_value;
 }
-- 
2.43.0


From adb3be52ef03eacb3b9ba88863083195e675d7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:48 +0000
Subject: [PATCH 68/77] fix: OR of conditions counts elements twice and crashes
 on a compound left side

---
 src/server/pdc_server_region/pdc_server_data.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/server/pdc_server_region/pdc_server_data.c b/src/server/pdc_server_region/pdc_server_data.c
index 1d13670..af85df8 100644
--- a/src/server/pdc_server_region/pdc_server_data.c
+++ b/src/server/pdc_server_region/pdc_server_data.c
@@ -7552,8 +7552,7 @@ PDC_Server_query_evaluate_merge_opt(pdc_query_t *query, query_task_t *task, pdc_
 #endif
 
     // Remove duplicates
-    if (combine_op == PDC_QUERY_OR && sel->nhits > 1 &&
-        left->constraint->obj_id != query->constraint->obj_id) {
+    if (combine_op == PDC_QUERY_OR && sel->nhits > 1) {
         if (ndim == 1) {
             qsort(sel->coords, sel->nhits, sizeof(uint64_t), compare_coords_1d);
         }
-- 
2.43.0


From 44a642682645dbbcb5c0880aa3b34ca6d9809e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:48 +0000
Subject: [PATCH 69/77] fix: AND of conditions reads past the hits

---
 src/server/pdc_server_region/pdc_server_data.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/server/pdc_server_region/pdc_server_data.c b/src/server/pdc_server_region/pdc_server_data.c
index af85df8..f67ca75 100644
--- a/src/server/pdc_server_region/pdc_server_data.c
+++ b/src/server/pdc_server_region/pdc_server_data.c
@@ -6610,7 +6610,7 @@ compare_coords_3d(const void *a, const void *b)
             iii = jjj = 0;                                                                                   \
             if (has_dup > 0) {                                                                               \
                 for (idx = 0; idx < (_sel)->nhits; idx++) {                                                  \
-                    while ((_sel)->coords[idx * (_ndim)] == ULLONG_MAX && idx < (_sel)->nhits) {             \
+                    while (idx < (_sel)->nhits && (_sel)->coords[idx * (_ndim)] == ULLONG_MAX) {             \
                         iii++;                                                                               \
                         idx++;                                                                               \
                     }                                                                                        \
@@ -6733,7 +6733,7 @@ compare_coords_3d(const void *a, const void *b)
             iii = jjj = 0;                                                                                   \
             if (has_dup > 0) {                                                                               \
                 for (idx = 0; idx < (_sel)->nhits; idx++) {                                                  \
-                    while ((_sel)->coords[idx * (_ndim)] == ULLONG_MAX && idx < (_sel)->nhits) {             \
+                    while (idx < (_sel)->nhits && (_sel)->coords[idx * (_ndim)] == ULLONG_MAX) {             \
                         iii++;                                                                               \
                         idx++;                                                                               \
                     }                                                                                        \
-- 
2.43.0


From 443699076794f65b31afbe0bd636971539f27e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:17 +0000
Subject: [PATCH 70/77] fix: a query whose right operand is itself a
 combination is evaluated as if it were not nested

---
 .../pdc_server_region/pdc_server_data.c       | 59 +++++++++++++++++++
 1 file changed, 59 insertions(+)

diff --git a/src/server/pdc_server_region/pdc_server_data.c b/src/server/pdc_server_region/pdc_server_data.c
index f67ca75..e444e07 100644
--- a/src/server/pdc_server_region/pdc_server_data.c
+++ b/src/server/pdc_server_region/pdc_server_data.c
@@ -7612,14 +7612,73 @@ PDC_query_visit_all_with_cb_arg(pdc_query_t *query, void (*func)(pdc_query_t *,
     return;
 }
 
+// Combine the hits of a compound operand (in sel) with the hits selected before it (in prev) to sel
+static void
+PDC_query_combine_sel(pdc_selection_t *sel, pdc_selection_t *prev, int ndim, pdc_query_combine_op_t combine_op)
+{
+    uint64_t i, n = sel->nhits, n_kept = 0;
+    size_t   size = ndim * sizeof(uint64_t);
+    int (*compare)(const void *, const void *) =
+        ndim == 1 ? compare_coords_1d : (ndim == 2 ? compare_coords_2d : compare_coords_3d);
+
+    if (n > 1)
+        qsort(sel->coords, n, size, compare);
+
+    if (combine_op == PDC_QUERY_OR) {
+        if ((n + prev->nhits) * ndim > sel->coords_alloc) {
+            sel->coords_alloc = (n + prev->nhits) * ndim;
+            sel->coords       = (uint64_t *)realloc(sel->coords, sel->coords_alloc * sizeof(uint64_t));
+        }
+        for (i = 0; i < prev->nhits; i++) {
+            if (n == 0 || bsearch(&prev->coords[i * ndim], sel->coords, n, size, compare) == NULL) {
+                memcpy(&sel->coords[sel->nhits * ndim], &prev->coords[i * ndim], size);
+                sel->nhits++;
+            }
+        }
+        free(prev->coords);
+    }
+    else {
+        for (i = 0; i < prev->nhits; i++) {
+            if (n > 0 && bsearch(&prev->coords[i * ndim], sel->coords, n, size, compare) != NULL) {
+                memmove(&prev->coords[n_kept * ndim], &prev->coords[i * ndim], size);
+                n_kept++;
+            }
+        }
+        free(sel->coords);
+        sel->coords       = prev->coords;
+        sel->coords_alloc = prev->coords_alloc;
+        sel->nhits        = n_kept;
+    }
+}
+
 void
 PDC_query_visit(pdc_query_t *query,
                 perr_t (*func)(pdc_query_t *, query_task_t *, pdc_query_t *, pdc_query_combine_op_t),
                 query_task_t *arg, pdc_query_t *left, pdc_query_combine_op_t combine_op)
 {
+    pdc_selection_t prev;
+
     if (NULL == query)
         return;
 
+    if (combine_op != PDC_QUERY_NONE && query->left != NULL && query->right != NULL) {
+        // The operand is itself a combination: evaluate it on its own before combining
+        prev               = *query->sel;
+        query->sel->nhits  = 0;
+        query->sel->coords = (uint64_t *)calloc(prev.coords_alloc, sizeof(uint64_t));
+        free(arg->invalid_region_ids);
+        arg->invalid_region_ids = NULL;
+        arg->ninvalid_region    = 0;
+
+        PDC_query_visit(query, func, arg, NULL, PDC_QUERY_NONE);
+
+        PDC_query_combine_sel(query->sel, &prev, arg->ndim, combine_op);
+        free(arg->invalid_region_ids);
+        arg->invalid_region_ids = NULL;
+        arg->ninvalid_region    = 0;
+        return;
+    }
+
     PDC_query_visit(query->left, func, arg, left, combine_op);
     PDC_query_visit(query->right, func, arg, query->left, query->combine_op);
 
-- 
2.43.0


From e3f087d17ade292e1f2bbab4b0545384c7fd410d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:22 +0000
Subject: [PATCH 71/77] fix: OR of conditions on two objects misses hits of the
 second where the first one is not stored

---
 src/server/pdc_server_region/pdc_server_data.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/server/pdc_server_region/pdc_server_data.c b/src/server/pdc_server_region/pdc_server_data.c
index e444e07..c2291b3 100644
--- a/src/server/pdc_server_region/pdc_server_data.c
+++ b/src/server/pdc_server_region/pdc_server_data.c
@@ -7236,11 +7236,8 @@ PDC_Server_query_evaluate_merge_opt(pdc_query_t *query, query_task_t *task, pdc_
         }
     }
 
-    // No need to evaluate a query if a previous one has selected all and combining with OR
-    if (sel->nhits == task->total_elem && combine_op == PDC_QUERY_OR) {
-        goto done;
-    }
-    else if (sel->nhits == 0 && combine_op == PDC_QUERY_AND) {
+    // No need to evaluate a query if a previous one has selected nothing and combining with AND
+    if (sel->nhits == 0 && combine_op == PDC_QUERY_AND) {
         goto done;
     }
 
-- 
2.43.0


From b138703eccfb9ae51c979b7437126b07afe9d76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:33 +0000
Subject: [PATCH 72/77] fix: a single server always reports no hits, and a
 constraint is only searched in left operands

---
 src/server/pdc_server_region/pdc_server_data.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/server/pdc_server_region/pdc_server_data.c b/src/server/pdc_server_region/pdc_server_data.c
index c2291b3..f269b89 100644
--- a/src/server/pdc_server_region/pdc_server_data.c
+++ b/src/server/pdc_server_region/pdc_server_data.c
@@ -7872,7 +7872,7 @@ PDC_Server_send_nhits_to_client(query_task_t *task)
     }
 
     // Fill input structure
-    in.nhits    = task->nhits;
+    in.nhits    = pdc_server_size_g == 1 ? task->query->sel->nhits : task->nhits;
     in.query_id = task->query_id;
 
     printf("==PDC_SERVER[%d]: %s - sending %" PRIu64 " nhits to client!\n", pdc_server_rank_g, __func__,
@@ -8098,7 +8098,7 @@ PDC_Server_get_constraint_from_query(pdc_query_t *query, uint64_t obj_id)
     if (constraint != NULL)
         return constraint;
 
-    constraint = PDC_Server_get_constraint_from_query(query->left, obj_id);
+    constraint = PDC_Server_get_constraint_from_query(query->right, obj_id);
     if (constraint != NULL)
         return constraint;
 
-- 
2.43.0


From 3c06b1aff46ae68b2f8f3e7bb4d2d7a019cdf680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:47 +0000
Subject: [PATCH 73/77] fix: a data query answers from data read before the
 region was overwritten

---
 src/server/pdc_server_region/pdc_server_data.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/server/pdc_server_region/pdc_server_data.c b/src/server/pdc_server_region/pdc_server_data.c
index f269b89..699713e 100644
--- a/src/server/pdc_server_region/pdc_server_data.c
+++ b/src/server/pdc_server_region/pdc_server_data.c
@@ -4773,6 +4773,9 @@ PDC_Server_data_write_out(uint64_t obj_id, struct pdc_region_info *region_info,
                                   &overlap_size);
 
         if (overlap_offset) {
+            // What a query has read of this region is out of date
+            if (overlap_region->io_cache_region != NULL)
+                overlap_region->io_cache_region->is_data_ready = 0;
             // is_overlap = 1;
             if (!is_contained &&
                 detect_region_contained(region_info->offset, region_info->size, overlap_region->start,
@@ -6026,6 +6029,7 @@ PDC_Server_data_read_to_buf(region_list_t *region_list_head)
             continue;
         }
 
+        free(region_elt->buf);
         region_elt->buf = malloc(region_elt->data_size);
 
         read_bytes = fread(region_elt->buf, 1, region_elt->data_size, fp_read);
-- 
2.43.0


From 57117586858d73a836cbbc15499eac6d1c64275a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:47 +0000
Subject: [PATCH 74/77] fix: a data query counts elements of overlapping stored
 regions twice

---
 src/server/pdc_server_region/pdc_server_data.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/server/pdc_server_region/pdc_server_data.c b/src/server/pdc_server_region/pdc_server_data.c
index 699713e..a4dfebc 100644
--- a/src/server/pdc_server_region/pdc_server_data.c
+++ b/src/server/pdc_server_region/pdc_server_data.c
@@ -7553,7 +7553,8 @@ PDC_Server_query_evaluate_merge_opt(pdc_query_t *query, query_task_t *task, pdc_
 #endif
 
     // Remove duplicates
-    if (combine_op == PDC_QUERY_OR && sel->nhits > 1) {
+    if (sel->nhits > 1 &&
+        (combine_op == PDC_QUERY_OR || (combine_op == PDC_QUERY_NONE && n_eval_region > 1))) {
         if (ndim == 1) {
             qsort(sel->coords, sel->nhits, sizeof(uint64_t), compare_coords_1d);
         }
-- 
2.43.0


From 7bd6e5df741eb0fdc8a490ddf35937d6f5ebdc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:19 +0000
Subject: [PATCH 75/77] fix: an object first seen by a lock or map request has
 no storage file set

The file descriptor of an object created by a lock request was never set, so
that a later transfer used a random one; mapping opened the file twice.
---
 .../pdc_server_region/pdc_server_data.c       | 58 +++----------------
 1 file changed, 9 insertions(+), 49 deletions(-)

diff --git a/src/server/pdc_server_region/pdc_server_data.c b/src/server/pdc_server_region/pdc_server_data.c
index a4dfebc..dcc86ca 100644
--- a/src/server/pdc_server_region/pdc_server_data.c
+++ b/src/server/pdc_server_region/pdc_server_data.c
@@ -471,6 +471,10 @@ PDC_Data_Server_region_lock(region_lock_in_t *in, region_lock_out_t *out, hg_han
         new_obj_reg->region_buf_map_head      = NULL;
         new_obj_reg->region_lock_request_head = NULL;
         new_obj_reg->region_storage_head      = NULL;
+        // The storage is opened by the first transfer
+        new_obj_reg->fd               = -1;
+        new_obj_reg->close_flag       = 0;
+        new_obj_reg->storage_location = (char *)calloc(1, ADDR_MAX);
         DL_APPEND(dataserver_region_g, new_obj_reg);
     }
 #ifdef ENABLE_MULTITHREAD
@@ -1206,13 +1210,7 @@ PDC_Data_Server_buf_map(const struct hg_info *info, buf_map_in_t *in, region_lis
     region_list_t *       elt_reg;
     region_buf_map_t *    buf_map_ptr = NULL;
     region_buf_map_t *    tmp;
-    int                   dup                      = 0;
-    char *                data_path                = NULL;
-    char *                user_specified_data_path = NULL;
-    char                  storage_location[ADDR_MAX];
-#ifdef ENABLE_LUSTRE
-    int stripe_count, stripe_size;
-#endif
+    int                   dup         = 0;
 
     FUNC_ENTER(NULL);
 
@@ -1221,50 +1219,12 @@ PDC_Data_Server_buf_map(const struct hg_info *info, buf_map_in_t *in, region_lis
 #endif
     new_obj_reg = PDC_Server_get_obj_region(in->remote_obj_id);
     if (new_obj_reg == NULL) {
-        new_obj_reg = (data_server_region_t *)malloc(sizeof(struct data_server_region_t));
-        if (new_obj_reg == NULL)
-            PGOTO_ERROR(NULL, "PDC_SERVER: PDC_Server_insert_buf_map_region() allocates new object failed");
-        new_obj_reg->obj_id                   = in->remote_obj_id;
-        new_obj_reg->region_lock_head         = NULL;
-        new_obj_reg->region_buf_map_head      = NULL;
-        new_obj_reg->region_lock_request_head = NULL;
-        new_obj_reg->region_storage_head      = NULL;
-
-        new_obj_reg->fd = server_open_storage(storage_location, in->remote_obj_id);
-        // Generate a location for data storage for data server to write
-        user_specified_data_path = getenv("PDC_DATA_LOC");
-
-        if (user_specified_data_path != NULL)
-            data_path = user_specified_data_path;
-        else {
-            data_path = getenv("SCRATCH");
-            if (data_path == NULL)
-                data_path = ".";
-        }
-        // Data path prefix will be $SCRATCH/pdc_data/$obj_id/
-        snprintf(storage_location, ADDR_MAX, "%.200s/pdc_data/%" PRIu64 "/server%d/s%04d.bin", data_path,
-                 in->remote_obj_id, pdc_server_rank_g, pdc_server_rank_g);
-        PDC_mkdir(storage_location);
-
-#ifdef ENABLE_LUSTRE
-        if (pdc_nost_per_file_g != 1)
-            stripe_count = lustre_total_ost_g / pdc_server_size_g;
-        else
-            stripe_count = pdc_nost_per_file_g;
-        stripe_size = lustre_stripe_size_mb_g;
-        PDC_Server_set_lustre_stripe(storage_location, stripe_count, stripe_size);
-
-        if (is_debug_g == 1 && pdc_server_rank_g == 0) {
-            printf("storage_location is %s\n", storage_location);
-        }
-#endif
-        new_obj_reg->fd = open(storage_location, O_RDWR | O_CREAT, 0666);
-        if (new_obj_reg->fd == -1) {
-            printf("==PDC_SERVER[%d]: open %s failed\n", pdc_server_rank_g, storage_location);
+        PDC_Server_register_obj_region_by_pointer(&new_obj_reg, in->remote_obj_id, 0);
+        if (new_obj_reg == NULL) {
+            printf("==PDC_SERVER[%d]: cannot open the storage of object %" PRIu64 "\n", pdc_server_rank_g,
+                   (uint64_t)in->remote_obj_id);
             goto done;
         }
-        new_obj_reg->storage_location = strdup(storage_location);
-        DL_APPEND(dataserver_region_g, new_obj_reg);
     }
 #ifdef ENABLE_MULTITHREAD
     hg_thread_mutex_unlock(&region_struct_mutex_g);
-- 
2.43.0


From d0339041cd04409b9ec509ae57892f09fc1d3703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:19 +0000
Subject: [PATCH 76/77] fix: all clients waiting for a region get its lock at
 once, or none ever

A release gave the lock to every waiting client at the same time without
recording any of them; a release of a region that is not mapped, and one
after a read, gave it to none.
---
 .../pdc_server_region/pdc_server_data.c       | 94 ++++++++++++++-----
 1 file changed, 69 insertions(+), 25 deletions(-)

diff --git a/src/server/pdc_server_region/pdc_server_data.c b/src/server/pdc_server_region/pdc_server_data.c
index dcc86ca..e28085c 100644
--- a/src/server/pdc_server_region/pdc_server_data.c
+++ b/src/server/pdc_server_region/pdc_server_data.c
@@ -407,6 +407,63 @@ PDC_Server_unregister_obj_region(pdcid_t obj_id)
     FUNC_LEAVE(ret_value);
 } // End PDC_Server_unregister_obj_region
 
+/*
+ * Note in a lock whether its region is mapped to a client's buffer
+ *
+ * \param  obj_reg [IN]     Object of the region
+ * \param  lock [IN/OUT]    The lock
+ */
+static void
+region_lock_set_mapped(data_server_region_t *obj_reg, region_list_t *lock)
+{
+    region_list_t     mapped;
+    region_buf_map_t *elt;
+
+    DL_FOREACH(obj_reg->region_buf_map_head, elt)
+    {
+        PDC_region_transfer_t_to_list_t(&(elt->remote_region_unit), &mapped);
+        if (PDC_is_same_region_list(&mapped, lock) == 1) {
+            lock->reg_dirty_from_buf = 1;
+            hg_atomic_incr32(&(lock->buf_map_refcount));
+        }
+    }
+}
+
+/*
+ * Give the lock of a region that is not locked to the first client waiting for it
+ *
+ * \param  obj_reg [IN]     Object of the region
+ * \param  region [IN]      The region
+ */
+static void
+region_lock_grant_next(data_server_region_t *obj_reg, region_list_t *region)
+{
+    region_list_t *   elt, *next = NULL;
+    region_lock_out_t out;
+
+    DL_FOREACH(obj_reg->region_lock_head, elt)
+    {
+        if (is_region_identical(region, elt) == 1)
+            return;
+    }
+    DL_FOREACH(obj_reg->region_lock_request_head, elt)
+    {
+        if (is_region_identical(region, elt) == 1) {
+            next = elt;
+            break;
+        }
+    }
+    if (next == NULL)
+        return;
+    DL_DELETE(obj_reg->region_lock_request_head, next);
+    region_lock_set_mapped(obj_reg, next);
+    DL_APPEND(obj_reg->region_lock_head, next);
+
+    out.ret = 1;
+    HG_Respond(next->lock_handle, NULL, NULL, &out);
+    HG_Destroy(next->lock_handle);
+}
+
 perr_t
 PDC_Data_Server_region_lock(region_lock_in_t *in, region_lock_out_t *out, hg_handle_t *handle)
 {
@@ -414,8 +471,7 @@ PDC_Data_Server_region_lock(region_lock_in_t *in, region_lock_out_t *out, hg_han
     int                   ndim;
     region_list_t *       request_region;
     data_server_region_t *new_obj_reg;
-    region_list_t *       elt1, *tmp;
-    region_buf_map_t *    eltt;
+    region_list_t *       elt1;
     int                   error      = 0;
     int                   found_lock = 0;
     // time_t                t;
@@ -504,17 +560,7 @@ PDC_Data_Server_region_lock(region_lock_in_t *in, region_lock_out_t *out, hg_han
 
     if (found_lock == 0) {
         // check if the lock region is used in buf map function
-        tmp = (region_list_t *)malloc(sizeof(region_list_t));
-        DL_FOREACH(new_obj_reg->region_buf_map_head, eltt)
-        {
-            PDC_region_transfer_t_to_list_t(&(eltt->remote_region_unit), tmp);
-            if (PDC_is_same_region_list(tmp, request_region) == 1) {
-                request_region->reg_dirty_from_buf = 1;
-                hg_atomic_incr32(&(request_region->buf_map_refcount));
-                /* printf("%s: set reg_dirty_from_buf and buf_map_refcount\n", __func__); */
-            }
-        }
-        free(tmp);
+        region_lock_set_mapped(new_obj_reg, request_region);
 
 #ifdef ENABLE_MULTITHREAD
         hg_thread_mutex_lock(&lock_list_mutex_g);
@@ -545,9 +591,7 @@ PDC_Server_release_lock_request(uint64_t obj_id, struct pdc_region_info *region)
 {
     perr_t                ret_value = SUCCEED;
     region_list_t *       request_region;
-    region_list_t *       elt, *tmp;
     data_server_region_t *new_obj_reg;
-    region_lock_out_t     out;
 
     FUNC_ENTER(NULL);
 
@@ -562,16 +606,7 @@ PDC_Server_release_lock_request(uint64_t obj_id, struct pdc_region_info *region)
 #ifdef ENABLE_MULTITHREAD
     hg_thread_mutex_lock(&lock_request_mutex_g);
 #endif
-    DL_FOREACH_SAFE(new_obj_reg->region_lock_request_head, elt, tmp)
-    {
-        if (is_region_identical(request_region, elt) == 1) {
-            out.ret = 1;
-            HG_Respond(elt->lock_handle, NULL, NULL, &out);
-            HG_Destroy(elt->lock_handle);
-            DL_DELETE(new_obj_reg->region_lock_request_head, elt);
-            free(elt);
-        }
-    }
+    region_lock_grant_next(new_obj_reg, request_region);
 #ifdef ENABLE_MULTITHREAD
     hg_thread_mutex_unlock(&lock_request_mutex_g);
 #endif
@@ -660,6 +695,15 @@ PDC_Data_Server_region_release(region_lock_in_t *in, region_lock_out_t *out)
     }
     out->ret = 1;
 
+    // The next client waiting for the region gets the lock
+#ifdef ENABLE_MULTITHREAD
+    hg_thread_mutex_lock(&lock_request_mutex_g);
+#endif
+    region_lock_grant_next(obj_reg, &request_region);
+#ifdef ENABLE_MULTITHREAD
+    hg_thread_mutex_unlock(&lock_request_mutex_g);
+#endif
+
 done:
     /* t = time(NULL); */
     /* tm = *localtime(&t); */
-- 
2.43.0


From f2d64c2ddef09dc9b85ac0dbb12f4e47dc8f0c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:34 +0000
Subject: [PATCH 77/77] fix: releasing a region that is not locked crashes the
 server or reports success

---
 src/server/pdc_client_server_common.c          | 10 ++++++++++
 src/server/pdc_server_region/pdc_server_data.c |  1 +
 2 files changed, 11 insertions(+)

diff --git a/src/server/pdc_client_server_common.c b/src/server/pdc_client_server_common.c
index 6e7c45f..cdf8e0b 100644
--- a/src/server/pdc_client_server_common.c
+++ b/src/server/pdc_client_server_common.c
@@ -2922,6 +2922,11 @@ HG_TEST_RPC_CB(region_release, handle)
         request_region = (region_list_t *)malloc(sizeof(region_list_t));
         PDC_region_transfer_t_to_list_t(&in.region, request_region);
         target_obj = PDC_Server_get_obj_region(in.obj_id);
+        if (target_obj == NULL) {
+            error = 1;
+            free(request_region);
+            PGOTO_ERROR(HG_OTHER_ERROR, "==PDC SERVER: release of a region that was never locked");
+        }
 #ifdef ENABLE_MULTITHREAD
         hg_thread_mutex_lock(&lock_list_mutex_g);
 #endif
@@ -3182,6 +3187,11 @@ HG_TEST_RPC_CB(region_release, handle)
         request_region = (region_list_t *)malloc(sizeof(region_list_t));
         PDC_region_transfer_t_to_list_t(&in.region, request_region);
         target_obj = PDC_Server_get_obj_region(in.obj_id);
+        if (target_obj == NULL) {
+            error = 1;
+            free(request_region);
+            PGOTO_ERROR(HG_OTHER_ERROR, "==PDC SERVER: release of a region that was never locked");
+        }
 #ifdef ENABLE_MULTITHREAD
         hg_thread_mutex_lock(&lock_list_mutex_g);
 #endif
diff --git a/src/server/pdc_server_region/pdc_server_data.c b/src/server/pdc_server_region/pdc_server_data.c
index e28085c..ccde184 100644
--- a/src/server/pdc_server_region/pdc_server_data.c
+++ b/src/server/pdc_server_region/pdc_server_data.c
@@ -663,6 +663,7 @@ PDC_Data_Server_region_release(region_lock_in_t *in, region_lock_out_t *out)
         request_region.count[3] = in->region.count_3;
     }
 
+    out->ret = 0;
     obj_reg = PDC_Server_get_obj_region(in->obj_id);
     if (obj_reg == NULL) {
         ret_value = FAIL;
-- 
2.43.0


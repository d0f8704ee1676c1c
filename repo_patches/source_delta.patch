From fc5054eee239c0761dc2417aecadbe23c238a4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:17 +0000
Subject: [PATCH 01/25] fix: deque kept no elements when a full buffer was
 resized, and could shrink to capacity 0

resize_deque copied while head != tail, but a full deque has head == tail, so
growing a full deque copied nothing and lost every element.  Copy size elements
instead.  Do not shrink below the initial capacity: at capacity 1 the shrink
produced capacity 0 and the next operation divided by zero.
---
 src/commons/collections/pdc_deque.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/commons/collections/pdc_deque.c b/src/commons/collections/pdc_deque.c
index 5d2280c..b31a2ca 100644
--- a/src/commons/collections/pdc_deque.c
+++ b/src/commons/collections/pdc_deque.c
@@ -23,7 +23,7 @@ resize_deque(PDC_deque_t *deque, size_t new_capacity)
     }
 
     size_t i = 0;
-    while (deque->head != deque->tail) {
+    while (i < deque->size) {
         new_data[i++] = deque->data[deque->head];
         deque->head   = (deque->head + 1) % deque->capacity;
     }
@@ -66,7 +66,7 @@ PDC_deque_pop_front(PDC_deque_t *deque)
     void *value = deque->data[deque->head];
     deque->head = (deque->head + 1) % deque->capacity;
     deque->size--;
-    if (deque->size <= deque->capacity / 4) {
+    if (deque->capacity > DEFAULT_CAPACITY && deque->size <= deque->capacity / 4) {
         resize_deque(deque, deque->capacity / 2);
     }
     return value;
@@ -81,7 +81,7 @@ PDC_deque_pop_back(PDC_deque_t *deque)
     deque->tail = (deque->tail - 1 + deque->capacity) % deque->capacity;
     void *value = deque->data[deque->tail];
     deque->size--;
-    if (deque->size <= deque->capacity / 4) {
+    if (deque->capacity > DEFAULT_CAPACITY && deque->size <= deque->capacity / 4) {
         resize_deque(deque, deque->capacity / 2);
     }
     return value;
-- 
2.43.0


From fa5198ab2195fa3f059bd1fb3a1268a1fd62d360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:31 +0000
Subject: [PATCH 02/25] fix: vector wrote past its array when the expansion
 factor made no room

capacity * expansion_factor can be <= item_count (factor <= 1, or capacity 0 or
1 with a factor below 2); the new item was then written out of bounds.  Also keep
the old array when realloc fails.
---
 src/commons/collections/pdc_vector.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/commons/collections/pdc_vector.c b/src/commons/collections/pdc_vector.c
index ac28c64..f24ba2f 100644
--- a/src/commons/collections/pdc_vector.c
+++ b/src/commons/collections/pdc_vector.c
@@ -56,11 +56,17 @@ pdc_vector_add(PDC_VECTOR *vector, void *item)
 
     // Expand the array of items if necessary.
     if (vector->item_count >= vector->capacity) {
-        vector->capacity *= vector->expansion_factor;
-        vector->items = (void **)realloc(vector->items, vector->capacity * sizeof(void *));
-        if (vector->items == NULL) {
+        // The factor alone need not make room: it may be <= 1, and the capacity may be 0 or 1.
+        size_t new_capacity = vector->capacity * vector->expansion_factor;
+        if (new_capacity <= vector->item_count) {
+            new_capacity = vector->item_count + 1;
+        }
+        void **new_items = (void **)realloc(vector->items, new_capacity * sizeof(void *));
+        if (new_items == NULL) {
             return;
         }
+        vector->items    = new_items;
+        vector->capacity = new_capacity;
     }
 
     // Add the new item to the end of the array.
-- 
2.43.0


From ca045e239d9b736e486d34515e3462babcde7e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:13 +0000
Subject: [PATCH 03/25] fix: hash table double keys: equality consistent with
 the hash

---
 src/commons/collections/pdc_hash_table.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/commons/collections/pdc_hash_table.c b/src/commons/collections/pdc_hash_table.c
index c75bac5..0c1dcbe 100644
--- a/src/commons/collections/pdc_hash_table.c
+++ b/src/commons/collections/pdc_hash_table.c
@@ -131,7 +131,7 @@ pdc_default_double_hash_func(HashTableKey value)
     else {
         int    exp;
         double frexp_d = frexp(abs_d, &exp);
-        return (unsigned int)((frexp_d * (1 << 31)) + exp);
+        return (unsigned int)((frexp_d * (1u << 31)) + exp);
     }
 }
 
@@ -141,7 +141,7 @@ pdc_default_double_equal_func(HashTableKey value1, HashTableKey value2)
     double d1 = *(const double *)value1;
     double d2 = *(const double *)value2;
 
-    return fabs(d1 - d2) < 1e-9; // use a small epsilon for comparing floats
+    return d1 == d2; // must agree with the hash, so no tolerance
 }
 
 /************ Default function pointer **************/
-- 
2.43.0


From 3072b4c13637aaa56c98def725cfc634e1179553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:48 +0000
Subject: [PATCH 04/25] fix: DART prefix search returned no server for the
 region of the left-over virtual nodes

---
 src/commons/index/dart/dart_core.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/commons/index/dart/dart_core.c b/src/commons/index/dart/dart_core.c
index 43410f4..19add4f 100644
--- a/src/commons/index/dart/dart_core.c
+++ b/src/commons/index/dart/dart_core.c
@@ -53,7 +53,9 @@ get_server_id_by_vnode_id(DART *dart, uint64_t vnode_id)
 {
     // printf("vnode_id = %d, dart->num_server = %d\n", vnode_id, dart->num_server);
     int num_vnode_per_server = dart->num_vnode / dart->num_server;
-    return (vnode_id / num_vnode_per_server) % dart->num_server;
+    uint64_t server_id = vnode_id / num_vnode_per_server;
+    // the virtual nodes left over by the division belong to the last server
+    return server_id < dart->num_server ? server_id : dart->num_server - 1;
 }
 
 /**
-- 
2.43.0


From be31fdfe9075e50e789186727079d73930959641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:02 +0000
Subject: [PATCH 05/25] fix: DART prefix search used a negative character index
 for non-ASCII tokens

---
 src/commons/index/dart/dart_core.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/commons/index/dart/dart_core.c b/src/commons/index/dart/dart_core.c
index 19add4f..5385c09 100644
--- a/src/commons/index/dart/dart_core.c
+++ b/src/commons/index/dart/dart_core.c
@@ -89,7 +89,7 @@ get_base_virtual_node_id_by_string(DART *dart, char *str)
             met_end = 1;
         }
         if (str[n - 1] != '\0' && met_end == 0) { // if not, we calculate the character index.
-            i_t_n = ((uint64_t)str[n - 1]) % dart->alphabet_size;
+            i_t_n = ((uint64_t)(unsigned char)str[n - 1]) % dart->alphabet_size;
         }
         c = (i_t_n) * ((uint64_t)uint32_pow(dart->alphabet_size, dart->dart_tree_height - n));
         rst += c;
@@ -485,7 +485,7 @@ get_server_ids_for_query(DART *dart_g, char *token, dart_op_type_t op_type, uint
         // TODO: we have to consider if we can reduce the number of nodes we need to
         // access as the prefix length grows.
         int region_size  = dart_g->num_vnode / dart_g->alphabet_size;
-        int region_start = ((((int)token[0] % dart_g->alphabet_size) + 0) * region_size);
+        int region_start = ((((int)(unsigned char)token[0] % dart_g->alphabet_size) + 0) * region_size);
 
         uint64_t server_start = get_server_id_by_vnode_id(dart_g, region_start);
         uint64_t server_end   = get_server_id_by_vnode_id(dart_g, region_start + region_size - 1);
-- 
2.43.0


From 9240ce452222dd0732f3355b6b1c76268866c5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:02 +0000
Subject: [PATCH 06/25] fix: DART routing of an empty token read uninitialised
 memory and searched one region only

---
 src/commons/index/dart/dart_core.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/commons/index/dart/dart_core.c b/src/commons/index/dart/dart_core.c
index 5385c09..af1c3ac 100644
--- a/src/commons/index/dart/dart_core.c
+++ b/src/commons/index/dart/dart_core.c
@@ -81,8 +81,8 @@ get_base_virtual_node_id_by_string(DART *dart, char *str)
 {
     int      n = 0;
     uint64_t c;
-    uint64_t rst = 0;
-    uint64_t i_t_n;
+    uint64_t rst     = 0;
+    uint64_t i_t_n   = 0;
     int      met_end = 0;
     for (n = 1; n <= dart->dart_tree_height; n++) {
         if (str[n - 1] == '\0') { // test if the string ends.
@@ -263,7 +263,7 @@ get_reconciled_vnode_id_with_power_of_two_choice_rehashing_2(DART *dart, uint64_
     // we first let reconciled virtual node to be the base virtual node.
     uint64_t reconciled_vnode_idx = base_vnode_idx;
 
-    if (dart->dart_tree_height <= 1) {
+    if (dart->dart_tree_height <= 1 || word[0] == '\0') {
         return reconciled_vnode_idx;
     }
 
@@ -485,10 +485,11 @@ get_server_ids_for_query(DART *dart_g, char *token, dart_op_type_t op_type, uint
         // TODO: we have to consider if we can reduce the number of nodes we need to
         // access as the prefix length grows.
         int region_size  = dart_g->num_vnode / dart_g->alphabet_size;
+        int num_regions  = token[0] == '\0' ? dart_g->alphabet_size : 1; // every region has the empty prefix
         int region_start = ((((int)(unsigned char)token[0] % dart_g->alphabet_size) + 0) * region_size);
 
         uint64_t server_start = get_server_id_by_vnode_id(dart_g, region_start);
-        uint64_t server_end   = get_server_id_by_vnode_id(dart_g, region_start + region_size - 1);
+        uint64_t server_end   = get_server_id_by_vnode_id(dart_g, region_start + num_regions * region_size - 1);
 
         int num_srvs    = server_end - server_start + 1;
         out[0]          = (uint64_t *)calloc(num_srvs, sizeof(uint64_t));
-- 
2.43.0


From 1e5435e2b6f9c53fa4d57cc9806e42a4cf114a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:03 +0000
Subject: [PATCH 07/25] fix: DART request counter was not initialised and
 overflowed

---
 src/commons/index/dart/dart_core.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/commons/index/dart/dart_core.c b/src/commons/index/dart/dart_core.c
index af1c3ac..af90164 100644
--- a/src/commons/index/dart/dart_core.c
+++ b/src/commons/index/dart/dart_core.c
@@ -1,3 +1,4 @@
+#include <limits.h>
 #include "dart_utils.h"
 #include "dart_algo.h"
 #include "dart_math.h"
@@ -32,7 +33,8 @@ dart_space_init(DART *dart, int num_client, int num_server, int alphabet_size, i
     }
     dart->alphabet_size = alphabet_size;
     // initialize clients;
-    dart->num_client = num_client;
+    dart->num_client           = num_client;
+    dart->client_request_count = 0;
     // initialize servers;
     dart->num_server = num_server;
 
@@ -65,7 +67,7 @@ get_server_id_by_vnode_id(DART *dart, uint64_t vnode_id)
 int
 dart_client_request_count_incr(DART *dart_g)
 {
-    if (dart_g->client_request_count < 0) {
+    if (dart_g->client_request_count < 0 || dart_g->client_request_count == INT_MAX) {
         dart_g->client_request_count = 0;
     }
     dart_g->client_request_count = dart_g->client_request_count + 1;
-- 
2.43.0


From 77f57df1420c4077b8d464320fbce76634e77f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:24 +0000
Subject: [PATCH 08/25] fix: DART read past the end of keys shorter than the
 tree height

---
 src/commons/index/dart/dart_core.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/commons/index/dart/dart_core.c b/src/commons/index/dart/dart_core.c
index af90164..019114c 100644
--- a/src/commons/index/dart/dart_core.c
+++ b/src/commons/index/dart/dart_core.c
@@ -87,10 +87,10 @@ get_base_virtual_node_id_by_string(DART *dart, char *str)
     uint64_t i_t_n   = 0;
     int      met_end = 0;
     for (n = 1; n <= dart->dart_tree_height; n++) {
-        if (str[n - 1] == '\0') { // test if the string ends.
+        if (met_end == 0 && str[n - 1] == '\0') { // test if the string ends.
             met_end = 1;
         }
-        if (str[n - 1] != '\0' && met_end == 0) { // if not, we calculate the character index.
+        if (met_end == 0) { // if not, we calculate the character index.
             i_t_n = ((uint64_t)(unsigned char)str[n - 1]) % dart->alphabet_size;
         }
         c = (i_t_n) * ((uint64_t)uint32_pow(dart->alphabet_size, dart->dart_tree_height - n));
@@ -197,10 +197,10 @@ get_reconciled_vnode_id_with_power_of_two_choice_rehashing(DART *dart, uint64_t
     uint64_t i_t_n;
     int      met_end = 0;
     for (n = 1; n <= dart->dart_tree_height; n++) {
-        if (word[n - 1] == '\0') {
+        if (met_end == 0 && word[n - 1] == '\0') {
             met_end = 1;
         }
-        if (word[n - 1] != '\0' && met_end == 0) {
+        if (met_end == 0) {
             if (n == 1) {
                 i_t_n = ((int)word[n - 1] + ir_idx) % dart->alphabet_size;
             }
-- 
2.43.0


From e2bfbf0a36f8b11f4e050e0f0e99c72c854e8490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:17 +0000
Subject: [PATCH 09/25] fix: ART node16 children were ordered as signed bytes

---
 src/commons/collections/art.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/commons/collections/art.c b/src/commons/collections/art.c
index 6d15e1d..7a38acf 100644
--- a/src/commons/collections/art.c
+++ b/src/commons/collections/art.c
@@ -493,7 +493,9 @@ add_child16(art_node16 *n, art_node **ref, unsigned char c, void *child)
         __m128i cmp;
 
         // Compare the key to all 16 stored keys
-        cmp = _mm_cmplt_epi8(_mm_set1_epi8(c), _mm_loadu_si128((__m128i *)n->keys));
+        // (the comparison is signed: flip the top bit so that the order is that of unsigned bytes)
+        cmp = _mm_cmplt_epi8(_mm_set1_epi8((char)(c ^ 0x80)),
+                             _mm_xor_si128(_mm_loadu_si128((__m128i *)n->keys), _mm_set1_epi8((char)0x80)));
 
         // Use a mask to ignore children that don't exist
         unsigned bitfield = _mm_movemask_epi8(cmp) & mask;
@@ -502,7 +504,9 @@ add_child16(art_node16 *n, art_node **ref, unsigned char c, void *child)
         __m128i cmp;
 
         // Compare the key to all 16 stored keys
-        cmp = _mm_cmplt_epi8(_mm_set1_epi8(c), _mm_loadu_si128((__m128i *)n->keys));
+        // (the comparison is signed: flip the top bit so that the order is that of unsigned bytes)
+        cmp = _mm_cmplt_epi8(_mm_set1_epi8((char)(c ^ 0x80)),
+                             _mm_xor_si128(_mm_loadu_si128((__m128i *)n->keys), _mm_set1_epi8((char)0x80)));
 
         // Use a mask to ignore children that don't exist
         unsigned bitfield = _mm_movemask_epi8(cmp) & mask;
-- 
2.43.0


From 555b2000db978d2f8cc0a935f6d59fa200ff4b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:19 +0000
Subject: [PATCH 10/25] fix: ART search and delete read past the end of a key
 shorter than a long compressed prefix

---
 src/commons/collections/art.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/commons/collections/art.c b/src/commons/collections/art.c
index 7a38acf..1d42bb8 100644
--- a/src/commons/collections/art.c
+++ b/src/commons/collections/art.c
@@ -327,6 +327,9 @@ art_search(const art_tree *t, const unsigned char *key, int key_len)
             if (prefix_len != min(MAX_PREFIX_LEN, n->partial_len))
                 return NULL;
             depth = depth + n->partial_len;
+            // Only the first bytes of a long prefix are compared: the key may be shorter than the prefix
+            if (depth > key_len)
+                return NULL;
         }
 
         // Recursively search
@@ -897,6 +900,9 @@ recursive_delete(art_node *n, art_node **ref, const unsigned char *key, int key_
             return NULL;
         }
         depth = depth + n->partial_len;
+        // Only the first bytes of a long prefix are compared: the key may be shorter than the prefix
+        if (depth > key_len)
+            return NULL;
     }
 
     // Find child node
-- 
2.43.0


From 191bbe6a6363fea8a9c9aa4eaf0c2b2aed6b6f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:21 +0000
Subject: [PATCH 11/25] fix: ART prefix iteration went on after a mismatch
 inside a compressed prefix

---
 src/commons/collections/art.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/commons/collections/art.c b/src/commons/collections/art.c
index 1d42bb8..d5048fb 100644
--- a/src/commons/collections/art.c
+++ b/src/commons/collections/art.c
@@ -1092,6 +1092,10 @@ art_iter_prefix(art_tree *t, const unsigned char *key, int key_len, art_callback
             else if (depth + prefix_len == key_len) {
                 return recursive_iter(n, cb, data);
             }
+            else if ((uint32_t)prefix_len < n->partial_len) {
+                // the prefixes differ: no key matches
+                return 0;
+            }
 
             // if there is a full match, go deeper
             depth = depth + n->partial_len;
-- 
2.43.0


From 992f1d1f01d9835d37c5bd255dc79108036cf517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:43 +0000
Subject: [PATCH 12/25] fix: bloom filter bitmap lost its counters when
 resized, and started with uninitialised counters

---
 src/server/dablooms/pdc_dablooms.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/server/dablooms/pdc_dablooms.c b/src/server/dablooms/pdc_dablooms.c
index 2be56c8..1c5385c 100644
--- a/src/server/dablooms/pdc_dablooms.c
+++ b/src/server/dablooms/pdc_dablooms.c
@@ -32,13 +32,22 @@ dablooms_version(void)
 void
 free_bitmap(bitmap_t *bitmap)
 {
+    if (bitmap != NULL)
+        free(bitmap->array);
     free(bitmap);
 }
 
 bitmap_t *
 bitmap_resize(bitmap_t *bitmap, size_t new_size)
 {
-    bitmap->array = PDC_malloc(new_size);
+    char *array = realloc(bitmap->array, new_size);
+
+    if (array == NULL)
+        return NULL;
+    /* the old counters are kept, the new ones start at zero */
+    if (new_size > bitmap->bytes)
+        memset(array + bitmap->bytes, 0, new_size - bitmap->bytes);
+    bitmap->array = array;
     bitmap->bytes = new_size;
     return bitmap;
 }
@@ -55,10 +64,11 @@ new_bitmap(size_t bytes)
         return NULL;
     }
 
-    bitmap->bytes = bytes;
+    bitmap->bytes = 0;
     bitmap->array = NULL;
 
-    if ((bitmap = bitmap_resize(bitmap, bytes)) == NULL) {
+    if (bitmap_resize(bitmap, bytes) == NULL) {
+        free(bitmap);
         return NULL;
     }
 
@@ -170,7 +180,7 @@ free_counting_bloom(counting_bloom_t *bloom)
     if (bloom != NULL) {
         free(bloom->hashes);
         bloom->hashes = NULL;
-        free(bloom->bitmap);
+        free_bitmap(bloom->bitmap);
         free(bloom);
         bloom = NULL;
     }
-- 
2.43.0


From af6f7320983421d3709d09f1573b6dec5f159877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:17 +0000
Subject: [PATCH 13/25] fix: buf_map RPC transferred one byte of the four-byte
 variable types

---
 src/server/include/pdc_client_server_common.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/server/include/pdc_client_server_common.h b/src/server/include/pdc_client_server_common.h
index 98edcac..1051fa3 100644
--- a/src/server/include/pdc_client_server_common.h
+++ b/src/server/include/pdc_client_server_common.h
@@ -2569,12 +2569,12 @@ hg_proc_buf_map_in_t(hg_proc_t proc, void *data)
         // HG_LOG_ERROR("Proc error");
         return ret;
     }
-    ret = hg_proc_uint8_t(proc, &struct_data->local_type);
+    ret = hg_proc_int32_t(proc, &struct_data->local_type);
     if (ret != HG_SUCCESS) {
         // HG_LOG_ERROR("Proc error");
         return ret;
     }
-    ret = hg_proc_uint8_t(proc, &struct_data->remote_type);
+    ret = hg_proc_int32_t(proc, &struct_data->remote_type);
     if (ret != HG_SUCCESS) {
         // HG_LOG_ERROR("Proc error");
         return ret;
-- 
2.43.0


From 08df9751a59b3c4a67b5be51f7afe3f7b98c4902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:17 +0000
Subject: [PATCH 14/25] fix: region_storage_meta encoder took its character
 array for a string pointer

---
 src/server/include/pdc_client_server_common.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server/include/pdc_client_server_common.h b/src/server/include/pdc_client_server_common.h
index 1051fa3..9f70a78 100644
--- a/src/server/include/pdc_client_server_common.h
+++ b/src/server/include/pdc_client_server_common.h
@@ -3221,7 +3221,7 @@ hg_proc_region_storage_meta_t(hg_proc_t proc, void *data)
         // HG_LOG_ERROR("Proc error");
         return ret;
     }
-    ret = hg_proc_hg_string_t(proc, &struct_data->storage_location);
+    ret = hg_proc_raw(proc, struct_data->storage_location, sizeof(struct_data->storage_location));
     if (ret != HG_SUCCESS) {
         // HG_LOG_ERROR("Proc error");
         return ret;
-- 
2.43.0


From b5833a175477156dd5a6b0cac56519238f239304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:42 +0000
Subject: [PATCH 15/25] fix: pattern "*" matched nothing, and crashed the
 metadata index search

---
 src/commons/utils/string_utils.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/commons/utils/string_utils.c b/src/commons/utils/string_utils.c
index 546d567..974851c 100644
--- a/src/commons/utils/string_utils.c
+++ b/src/commons/utils/string_utils.c
@@ -77,7 +77,8 @@ pattern_type_t
 determine_pattern_type(const char *pattern)
 {
 
-    if (startsWith(pattern, "*")) {
+    // a lone "*" is a prefix pattern with an empty prefix
+    if (startsWith(pattern, "*") && pattern[1] != '\0') {
         if (endsWith(pattern, "*")) {
             return PATTERN_MIDDLE;
         }
-- 
2.43.0


From ee31d20801eb60feeda8769937bbe0fa498b244d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:42 +0000
Subject: [PATCH 16/25] fix: substring copied a negative number of bytes when
 it started beyond the end

---
 src/commons/utils/string_utils.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/commons/utils/string_utils.c b/src/commons/utils/string_utils.c
index 974851c..b062e48 100644
--- a/src/commons/utils/string_utils.c
+++ b/src/commons/utils/string_utils.c
@@ -117,6 +117,11 @@ substring(const char *str, int start, int end)
     // Length of the original string
     int str_len = strlen(str);
 
+    // Nothing starts beyond the end of the string
+    if (start > str_len) {
+        return NULL;
+    }
+
     // Adjust end if it is beyond the length of the string
     if (end > str_len) {
         end = str_len;
-- 
2.43.0


From e59edf175e26d8e63927ae3a04522f5c713a1f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:43 +0000
Subject: [PATCH 17/25] fix: split_string did not terminate on a delimiter that
 matches the empty string

---
 src/commons/utils/string_utils.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/commons/utils/string_utils.c b/src/commons/utils/string_utils.c
index b062e48..4497654 100644
--- a/src/commons/utils/string_utils.c
+++ b/src/commons/utils/string_utils.c
@@ -257,8 +257,8 @@ split_string(const char *str, const char *delim, char ***result, int *result_len
     int         count = 0;
     regmatch_t  pmatch[1];
 
-    // Count matches
-    while (regexec(&regex, tmp, 1, pmatch, 0) != REG_NOMATCH) {
+    // Count matches; an empty match at the current position does not split
+    while (regexec(&regex, tmp, 1, pmatch, 0) != REG_NOMATCH && pmatch[0].rm_eo > 0) {
         count++;
         tmp += pmatch[0].rm_eo;
     }
@@ -273,7 +273,7 @@ split_string(const char *str, const char *delim, char ***result, int *result_len
     const char *start = str;
     int         i     = 0;
 
-    while (i < count && regexec(&regex, tmp, 1, pmatch, 0) != REG_NOMATCH) {
+    while (i < count && regexec(&regex, tmp, 1, pmatch, 0) != REG_NOMATCH && pmatch[0].rm_eo > 0) {
         int len = pmatch[0].rm_so;
 
         (*result)[i] = (char *)malloc((len + 1) * sizeof(char));
-- 
2.43.0


From 829ea0627178a1a84fe2cdd3e58c789400d51e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:44 +0000
Subject: [PATCH 18/25] fix: is_value_in_range crashed when the tag was not in
 the list

---
 src/commons/utils/query_utils.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/commons/utils/query_utils.c b/src/commons/utils/query_utils.c
index c0ea640..818d72c 100644
--- a/src/commons/utils/query_utils.c
+++ b/src/commons/utils/query_utils.c
@@ -340,7 +340,11 @@ int
 is_value_in_range(const char *tagslist, const char *tagname, int from, int to)
 {
     const char *matched_kv = k_v_matches_p(tagslist, tagname, NULL);
-    char *      value      = get_value(matched_kv, '=');
-    int         v          = atoi(value);
+    if (matched_kv == NULL) {
+        return 0;
+    }
+    char *value = get_value(matched_kv, '=');
+    int   v     = atoi(value);
+    free(value);
     return (v >= from && v <= to);
 }
-- 
2.43.0


From 2b7fe7a785eb27a0063b0eaa5667c7dce730b29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:55 +0000
Subject: [PATCH 19/25] fix: metadata index sets shared one id, which each of
 them freed

---
 src/server/pdc_server_metadata_index.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/server/pdc_server_metadata_index.c b/src/server/pdc_server_metadata_index.c
index 1e91c42..b06dd4a 100644
--- a/src/server/pdc_server_metadata_index.c
+++ b/src/server/pdc_server_metadata_index.c
@@ -225,11 +225,16 @@ create_prefix_index_for_attr_value(void **index, unsigned char *attr_value, void
         art_insert(art_value_prefix_tree, attr_value, len, (void *)obj_id_set);
     }
 
-    int indexed = set_insert(obj_id_set, data);
-
-    if (indexed == -1) {
+    // every set frees the ids it holds, so each one needs its own copy
+    uint64_t *obj_id = (uint64_t *)malloc(sizeof(uint64_t));
+    if (obj_id == NULL) {
         return FAIL;
     }
+    *obj_id = *(uint64_t *)data;
+
+    if (set_insert(obj_id_set, obj_id) == 0) {
+        free(obj_id);
+    }
 
     return ret;
 }
@@ -313,6 +318,7 @@ metadata_index_create(char *attr_key, char *attr_value, uint64_t obj_locator, in
     // }
     // else if (index_type == DART_HASH) {
     create_index_for_attr_name(attr_key, attr_value, (void *)data);
+    free(data);
     // }
     timer_pause(&timer);
     // if (DART_SERVER_DEBUG) {
@@ -427,6 +433,7 @@ metadata_index_delete(char *attr_key, char *attr_value, uint64_t obj_locator, in
     // }
     // else if (index_type == DART_HASH) {
     delete_index_for_attr_name(attr_key, attr_value, (void *)data);
+    free(data);
     // }
 
     timer_pause(&timer);
-- 
2.43.0


From 264392dd6e251b931659cdc661ca04373d76541f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:09 +0000
Subject: [PATCH 20/25] fix: overwriting a small part deep inside a stored 1D
 region failed

---
 src/server/pdc_server_region/pdc_server_data.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/server/pdc_server_region/pdc_server_data.c b/src/server/pdc_server_region/pdc_server_data.c
index 9b3ae5b..9c0e0d8 100644
--- a/src/server/pdc_server_region/pdc_server_data.c
+++ b/src/server/pdc_server_region/pdc_server_data.c
@@ -4789,9 +4789,10 @@ PDC_Server_data_write_out(uint64_t obj_id, struct pdc_region_info *region_info,
             if (region_info->ndim == 1) {
                 // 1D can overwrite data in region directly
                 pos = (overlap_offset[0] - overlap_region->start[0]) * unit;
-                if (pos > write_size) {
+                // pos is a position in the stored region, which can be larger than the request
+                if (pos > overlap_region->count[0] * unit) {
                     printf("==PDC_SERVER[%d]: Error with buf pos calculation %llu / %llu! @ line %d\n",
-                           pdc_server_rank_g, pos, write_size, __LINE__);
+                           pdc_server_rank_g, pos, overlap_region->count[0] * unit, __LINE__);
                     ret_value = -1;
                     goto done;
                 }
-- 
2.43.0


From 9f6468763f912fc6e5af2266702f5cfc2a3f74cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:32 +0000
Subject: [PATCH 21/25] fix: wait_all never answered when no request was
 pending but one was already reported complete

---
 .../pdc_server_region/pdc_server_region_request_handler.h      | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/server/pdc_server_region/pdc_server_region_request_handler.h b/src/server/pdc_server_region/pdc_server_region_request_handler.h
index 04ab484..3da203a 100644
--- a/src/server/pdc_server_region/pdc_server_region_request_handler.h
+++ b/src/server/pdc_server_region/pdc_server_region_request_handler.h
@@ -276,8 +276,7 @@ transfer_request_wait_all_bulk_transfer_cb(const struct hg_cb_info *info)
         // unsigned)transfer_request_id, get_server_rank());
         if (status == PDC_TRANSFER_STATUS_PENDING) {
             PDC_try_finish_request(transfer_request_id, local_bulk_args->handle, handle_ref, 1);
-        }
-        if (status != PDC_TRANSFER_STATUS_COMPLETE) {
+            // Respond later, when PDC_finish_request is called for the last pending request
             fast_return = 0;
         }
     }
-- 
2.43.0


From 45a2110afce2ded35cba4c2737c7350a03de183a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:13 +0000
Subject: [PATCH 22/25] fix: look up a handle that is not in the list without a
 NULL dereference

---
 src/commons/utils/include/pdc_linkedlist.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/commons/utils/include/pdc_linkedlist.h b/src/commons/utils/include/pdc_linkedlist.h
index a9de691..1c04fdd 100644
--- a/src/commons/utils/include/pdc_linkedlist.h
+++ b/src/commons/utils/include/pdc_linkedlist.h
@@ -109,7 +109,7 @@
     for ((var) = ((head_ptr)->head); (var); (var) = ((var)->entry_field_name.next))
 
 #define PDC_LIST_SEARCH(var, head_ptr, entry_field_name, item, value)                                        \
-    for ((var) = ((head_ptr)->head); (((var)->item != value) && (var));                                      \
+    for ((var) = ((head_ptr)->head); ((var) && ((var)->item != value));                                      \
          (var) = ((var)->entry_field_name.next))
 
 #define PDC_LIST_SEARCH_CONT_NAME(var, head_ptr, entry_field_name, member, n, name)                          \
-- 
2.43.0


From 0118517ba7e63b2736d857150f0e818bbc26c84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:13 +0000
Subject: [PATCH 23/25] fix: pack a region of the user buffer with the
 dimensions of the object, as unpacking does

---
 src/api/pdc_region/pdc_region_transfer.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/api/pdc_region/pdc_region_transfer.c b/src/api/pdc_region/pdc_region_transfer.c
index ee4e48c..7cf044d 100644
--- a/src/api/pdc_region/pdc_region_transfer.c
+++ b/src/api/pdc_region/pdc_region_transfer.c
@@ -537,7 +537,7 @@ pack_region_buffer(char *buf, uint64_t *obj_dims, size_t total_data_size, int lo
         if (access_type == PDC_WRITE) {
             ptr = *new_buf;
             for (i = 0; i < local_size[0]; ++i) {
-                memcpy(ptr, buf + ((local_offset[0] + i) * local_size[1] + local_offset[1]) * unit,
+                memcpy(ptr, buf + ((local_offset[0] + i) * obj_dims[1] + local_offset[1]) * unit,
                        local_size[1] * unit);
                 ptr += local_size[1] * unit;
             }
@@ -550,8 +550,8 @@ pack_region_buffer(char *buf, uint64_t *obj_dims, size_t total_data_size, int lo
             for (i = 0; i < local_size[0]; ++i) {
                 for (j = 0; j < local_size[1]; ++j) {
                     memcpy(ptr,
-                           buf + ((local_offset[0] + i) * local_size[1] * local_size[2] +
-                                  (local_offset[1] + j) * local_size[2] + local_offset[2]) *
+                           buf + ((local_offset[0] + i) * obj_dims[1] * obj_dims[2] +
+                                  (local_offset[1] + j) * obj_dims[2] + local_offset[2]) *
                                      unit,
                            local_size[2] * unit);
                     ptr += local_size[2] * unit;
-- 
2.43.0


From 3d7362fdcda9eb6dd88f6f36660fcb8fc0cb2c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:14 +0000
Subject: [PATCH 24/25] fix: keep the end of the list of transfer requests when
 its last element is removed

---
 src/api/pdc_region/pdc_region_transfer.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/api/pdc_region/pdc_region_transfer.c b/src/api/pdc_region/pdc_region_transfer.c
index 7cf044d..84eda3d 100644
--- a/src/api/pdc_region/pdc_region_transfer.c
+++ b/src/api/pdc_region/pdc_region_transfer.c
@@ -366,6 +366,9 @@ remove_local_transfer_request(struct _pdc_obj_info *p, pdcid_t transfer_request_
             else {
                 // Not the first element, just take the current element away.
                 previous->next = temp->next;
+                if (p->local_transfer_request_end == temp) {
+                    p->local_transfer_request_end = previous;
+                }
                 free(temp);
             }
             p->local_transfer_request_size--;
-- 
2.43.0


From 5de1024b6f4396e28a5134d468da4e4f5aa0ce73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:28 +0000
Subject: [PATCH 25/25] fix: forget the released buffers of an aggregated
 transfer when the request is started again alone

---
 src/api/pdc_region/pdc_region_transfer.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/api/pdc_region/pdc_region_transfer.c b/src/api/pdc_region/pdc_region_transfer.c
index 84eda3d..41cefa0 100644
--- a/src/api/pdc_region/pdc_region_transfer.c
+++ b/src/api/pdc_region/pdc_region_transfer.c
@@ -1452,6 +1452,11 @@ PDCregion_transfer_start(pdcid_t transfer_request_id)
 
     attach_local_transfer_request(transfer_request->obj_pointer, transfer_request_id);
 
+    // An earlier aggregated start of this request leaves pointers to buffers its wait has released.
+    transfer_request->bulk_buf      = NULL;
+    transfer_request->bulk_buf_ref  = NULL;
+    transfer_request->read_bulk_buf = NULL;
+
     // Pack local region to a contiguous memory buffer
     unit = transfer_request->unit;
 
-- 
2.43.0


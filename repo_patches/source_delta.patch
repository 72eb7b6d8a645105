From dede974108d6d331f2b927eb6d72db364d3d6a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:08 +0000
Subject: [PATCH 001/173] fix: keep table bucket indexes inside the bucket
 array

Size hints that are not a power of two (and the 65535 entry of the size
table) as well as hash functions returning more than 32 bits produced
indexes past the end of the bucket array.
---
 src/libzt/zt_table.c | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/libzt/zt_table.c b/src/libzt/zt_table.c
index 0888d7a..e8d791d 100644
--- a/src/libzt/zt_table.c
+++ b/src/libzt/zt_table.c
@@ -28,7 +28,7 @@ unsigned long powers_of_2[] = { 2,            4,         8,
                                 128,          256,       512,
                                 1024,         2048,      4096,
                                 8192,         16384,     32768,
-                                65535,        131072,    262144,
+                                65536,        131072,    262144,
                                 524288,       1048576,   2097152,
                                 4194304,      8388608,   16777216,
                                 33554432,     67108864,  134217728,
@@ -100,7 +100,7 @@ zt_table_init(char *name, zt_table_hash_func_cb func,
     table->cdata = cdata;
 
     if (flags & ZT_TABLE_SIZE_USE_HINT) {
-        nbuckets = hint;
+        nbuckets = hint ? hint : 1;
     } else {
         int i = 0;
         int len = sizeof_array(powers_of_2);
@@ -161,6 +161,17 @@ zt_table_destroy(zt_table *h)
     zt_mem_pool_release((void **)&h);
 }
 
+/* reduce a hash key to a valid index into the table's buckets, whatever
+ * the number of buckets and however wide the value returned by the hash
+ * function is
+ */
+static unsigned long
+bucket_index(zt_table *h, unsigned long nkey)
+{
+    ZT_HASH_SUB32_MASK(nkey, h->nbits);
+    return nkey % h->num_buckets;
+}
+
 int
 zt_table_set(zt_table *h, const void *key, size_t key_len, const void *datum, size_t datum_len)
 {
@@ -169,7 +180,7 @@ zt_table_set(zt_table *h, const void *key, size_t key_len, const void *datum, si
     struct table_node * node;
     struct table_node * nn;
 
-    ZT_HASH_SUB32_MASK(nkey, h->nbits);
+    nkey = bucket_index(h, nkey);
     /* ZT_LOG_XDEBUG("for key %d hash key is: %d", (int)key, nkey); */
 
     nn = h->buckets[nkey];
@@ -208,7 +219,7 @@ zt_table_get(zt_table *h, const void *key, size_t key_len)
     nkey = h->func(key, key_len, h->cdata);
     skey = nkey;
 
-    ZT_HASH_SUB32_MASK(nkey, h->nbits);
+    nkey = bucket_index(h, nkey);
     node = h->buckets[nkey];
 
     while (node) {
@@ -232,7 +243,7 @@ zt_table_del(zt_table *h, const void *key, size_t key_len)
     unsigned long       nkey = h->func(key, key_len, h->cdata);
     unsigned long       skey = nkey;
 
-    ZT_HASH_SUB32_MASK(nkey, h->nbits);
+    nkey = bucket_index(h, nkey);
 
     prev = node = h->buckets[nkey];
 
-- 
2.43.0


From 5422d425bb571ed1815ea0fe58958c6d960b7cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:37 +0000
Subject: [PATCH 002/173] fix: zt_table_del drops the entries in front of the
 deleted one in its bucket

---
 src/libzt/zt_table.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libzt/zt_table.c b/src/libzt/zt_table.c
index e8d791d..c75ec11 100644
--- a/src/libzt/zt_table.c
+++ b/src/libzt/zt_table.c
@@ -263,6 +263,7 @@ zt_table_del(zt_table *h, const void *key, size_t key_len)
             }
         }
 
+        prev = node;
         node = node->next;
     }
     errno = ENOENT;
-- 
2.43.0


From 1ed5722bdaf186813e5c5e3c3c1e19a6196d133c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:42 +0000
Subject: [PATCH 003/173] fix: compare binary table keys beyond embedded zero
 bytes

---
 src/libzt/zt_table.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_table.c b/src/libzt/zt_table.c
index c75ec11..58a0872 100644
--- a/src/libzt/zt_table.c
+++ b/src/libzt/zt_table.c
@@ -373,7 +373,7 @@ int
 zt_table_compare_buff(const void *lhs, size_t lhs_len, const void *rhs, size_t rhs_len, void *cdata UNUSED)
 {
     if(lhs_len == rhs_len) {
-        if (strncmp((char *)lhs, (char *)rhs, lhs_len) == 0) {
+        if (memcmp(lhs, rhs, lhs_len) == 0) {
             return 1;
         }
     }
-- 
2.43.0


From fb0bc38650902b8a3fc927312e2f171180115734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:39 +0000
Subject: [PATCH 004/173] fix: zt_set_size refers to a member zt_set does not
 have

---
 src/libzt/zt_set.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_set.h b/src/libzt/zt_set.h
index 3f5be60..134abec 100644
--- a/src/libzt/zt_set.h
+++ b/src/libzt/zt_set.h
@@ -13,7 +13,7 @@ struct zt_set {
 };
 typedef int (*zt_set_iterator)(void *, void *);
 
-#define zt_set_size(set) ((set)->size)
+#define zt_set_size(set) ((set)->length)
 
 zt_set *zt_set_init(int (*match)(const void *key1, size_t key1_len, const void *key2, size_t key2_len, void *cdata),
                     void (*destroy)(void *data),
-- 
2.43.0


From 8e717ede8af7ab847547238b976dfff17781caa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:39 +0000
Subject: [PATCH 005/173] fix: set union, intersection and difference stop at
 an element already in the result

---
 src/libzt/zt_set.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/libzt/zt_set.c b/src/libzt/zt_set.c
index 453263c..7f4f4d9 100644
--- a/src/libzt/zt_set.c
+++ b/src/libzt/zt_set.c
@@ -75,7 +75,10 @@ static int _union(void *key UNUSED, size_t key_len, void *datum, size_t datum_le
 
     p = (struct _set_pair *)param;
 
-    return zt_set_insert(p->s2, datum, datum_len);
+    /* a non-zero return stops the iteration; an element that is already
+     * present is no reason to stop */
+    zt_set_insert(p->s2, datum, datum_len);
+    return 0;
 }
 
 int zt_set_union(zt_set *setu, const zt_set *set1, const zt_set *set2)
@@ -97,7 +100,7 @@ static int _intersect(void *key UNUSED, size_t key_len, void *datum, size_t datu
     p = (struct _set_pair *)param;
 
     if (zt_set_is_member(p->s1, datum, datum_len)) {
-        return zt_set_insert(p->s2, datum, datum_len);
+        zt_set_insert(p->s2, datum, datum_len);
     }
     return 0;
 }
@@ -119,7 +122,7 @@ static int _difference(void *key UNUSED, size_t key_len, void *datum, size_t dat
     p = (struct _set_pair *)param;
 
     if (!zt_set_is_member(p->s1, datum, datum_len)) {
-        return zt_set_insert(p->s2, datum, datum_len);
+        zt_set_insert(p->s2, datum, datum_len);
     }
     return 0;
 }
-- 
2.43.0


From fdb067c5b7fe5a304e11d77c35919bb435f15f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:57 +0000
Subject: [PATCH 006/173] fix: sets hash the element pointer although
 membership is decided by the match function

Equal strings or buffers at different addresses were different members, and
elements longer than a pointer made the hash read past the pointer.
---
 src/libzt/zt_set.c | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_set.c b/src/libzt/zt_set.c
index 7f4f4d9..e7aa677 100644
--- a/src/libzt/zt_set.c
+++ b/src/libzt/zt_set.c
@@ -4,6 +4,31 @@
 #include "zt_assert.h"
 
 
+/* used when nothing is known about which elements the match function
+ * considers equal
+ */
+static unsigned long
+_hash_any(const void *key UNUSED, size_t key_len UNUSED, void *cdata UNUSED)
+{
+    return 0;
+}
+
+/* elements which match must hash to the same value */
+static zt_table_hash_func_cb
+_hash_for(zt_table_compare_cb match)
+{
+    if (match == zt_table_compare_int) {
+        return zt_table_hash_int;
+    }
+    if (match == zt_table_compare_string) {
+        return zt_table_hash_string;
+    }
+    if (match == zt_table_compare_buff) {
+        return zt_table_hash_buff;
+    }
+    return _hash_any;
+}
+
 zt_set *
 zt_set_init(int (*match)(const void *key1, size_t key1_size,
                          const void *key2, size_t key2_size, void *cdata),
@@ -14,7 +39,7 @@ zt_set_init(int (*match)(const void *key1, size_t key1_size,
 
     set = zt_malloc(zt_set, 1);
 
-    set->tbl = zt_table_init(NULL, zt_table_hash_int, match, 128, 0, cdata);
+    set->tbl = zt_table_init(NULL, _hash_for(match), match, 128, 0, cdata);
     set->match = match;
     set->destroy = destroy;
     set->length = 0;
-- 
2.43.0


From 9191a37fc63d45cbf112856d3f6468feead55b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:46 +0000
Subject: [PATCH 007/173] fix: joining an empty list links its head into the
 target list

---
 src/libzt/zt_list.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libzt/zt_list.h b/src/libzt/zt_list.h
index 0cbafcf..981c16d 100644
--- a/src/libzt/zt_list.h
+++ b/src/libzt/zt_list.h
@@ -96,6 +96,10 @@ zt_elist_join(zt_elist_t *head, zt_elist_t *list)
     zt_elist_t *last = list->prev;
     zt_elist_t *at = head->next;
 
+    if (zt_elist_empty(list)) {
+        return;
+    }
+
     first->prev = head;
     head->next = first;
 
-- 
2.43.0


From f369e9467810c5840400909469f0d6dffea6fd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:50 +0000
Subject: [PATCH 008/173] fix: dequeueing from an empty queue returns the queue
 head as an element

---
 src/libzt/zt_queue.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libzt/zt_queue.h b/src/libzt/zt_queue.h
index 40de772..1af57da 100644
--- a/src/libzt/zt_queue.h
+++ b/src/libzt/zt_queue.h
@@ -23,6 +23,10 @@ zt_queue_dequeue(zt_queue_t *queue)
 {
     zt_queue_t * elt;
 
+    if(zt_queue_empty(queue)) {
+        return NULL;
+    }
+
     elt = zt_elist_get_prev(queue);
     zt_elist_remove(elt);
     return (elt);
-- 
2.43.0


From c916314ea0b9c8e18299687418b9fdd8f9649f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:02 +0000
Subject: [PATCH 009/173] fix: splitting a single element list returns the same
 cell as both halves

---
 src/libzt/zt_llist.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_llist.h b/src/libzt/zt_llist.h
index 9efc3c2..5dcb596 100644
--- a/src/libzt/zt_llist.h
+++ b/src/libzt/zt_llist.h
@@ -166,8 +166,9 @@ static INLINE zt_llist zt_llist_split(zt_llist lst)
     }
     tail = zt_llist_tail(lst);
 
-    if ((lst == NULL) || (tail == NULL)) {
-        return (lst);
+    if (tail == NULL) {
+        /* nothing to split off */
+        return (NULL);
     }
 
     while ((tail != NULL) && ((tail = zt_llist_tail(tail)) != NULL)) {
-- 
2.43.0


From b8ff74a6a10bf44b48ac41d1fb9cf8a43406caf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:02 +0000
Subject: [PATCH 010/173] fix: resizing a zero length array leaks the storage
 it already has

---
 src/libzt/zt_array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_array.c b/src/libzt/zt_array.c
index f10084c..5b287cb 100644
--- a/src/libzt/zt_array.c
+++ b/src/libzt/zt_array.c
@@ -81,7 +81,7 @@ zt_array_resize(zt_array_t array, size_t len)
     zt_assert(array);
     zt_assert(len > 0);
 
-    if (array->length == 0) {
+    if (array->data == NULL) {
         array->data = zt_calloc(char, len * array->size);
     } else if (len > 0) {
         array->data = zt_realloc(char, array->data, len * array->size);
-- 
2.43.0


From 5871b5ea50221e07702996da5a7d08f37388edc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:02 +0000
Subject: [PATCH 011/173] fix: pointer array resize overflow check relies on
 signed overflow

---
 src/libzt/zt_ptr_array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_ptr_array.c b/src/libzt/zt_ptr_array.c
index 2adf433..575a507 100644
--- a/src/libzt/zt_ptr_array.c
+++ b/src/libzt/zt_ptr_array.c
@@ -56,7 +56,7 @@ zt_ptr_array_resize(zt_ptr_array * array, int32_t expand) {
         size = expand;
     }
 
-    if ((array->size + size) < array->size) {
+    if (size < 0 || size > INT32_MAX - array->size) {
         /* error on overflow */
         return -1;
     }
-- 
2.43.0


From d99dc7b470b34b2fc17e23bef10be376be2ca308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:02 +0000
Subject: [PATCH 012/173] fix: pointer array accepts out of range indexes

---
 src/libzt/zt_ptr_array.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/libzt/zt_ptr_array.c b/src/libzt/zt_ptr_array.c
index 575a507..04885e1 100644
--- a/src/libzt/zt_ptr_array.c
+++ b/src/libzt/zt_ptr_array.c
@@ -79,11 +79,11 @@ zt_ptr_array_resize(zt_ptr_array * array, int32_t expand) {
 
 int
 zt_ptr_array_move_idx_to_idx(zt_ptr_array * array, int32_t src_idx, int32_t dst_idx) {
-    if (src_idx > array->count) {
+    if (src_idx < 0 || src_idx >= array->count) {
         return -1;
     }
 
-    if (dst_idx > array->count) {
+    if (dst_idx < 0 || dst_idx >= array->count) {
         return -1;
     }
 
@@ -183,10 +183,10 @@ void *
 zt_ptr_array_get_idx(zt_ptr_array * array, int32_t idx) {
     if (idx == -1) {
         /* return the last element */
-        return array->array[array->count - 1];
+        idx = array->count - 1;
     }
 
-    if (idx >= array->count) {
+    if (idx < 0 || idx >= array->count) {
         return NULL;
     }
 
-- 
2.43.0


From d49060f3d7da51cbd9fa352079c34f433b7ed2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:02 +0000
Subject: [PATCH 013/173] fix: pointer array removal always reports failure and
 goes on after the element is gone

---
 src/libzt/zt_ptr_array.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libzt/zt_ptr_array.c b/src/libzt/zt_ptr_array.c
index 04885e1..42243f0 100644
--- a/src/libzt/zt_ptr_array.c
+++ b/src/libzt/zt_ptr_array.c
@@ -108,6 +108,8 @@ zt_ptr_array_del(zt_ptr_array * array, void * data) {
             if (array->free_cb) {
                 array->free_cb(data);
             }
+
+            return 0;
         }
     }
 
-- 
2.43.0


From 88a57bc0a145a5ef960de76365947a1de4c9e773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:02 +0000
Subject: [PATCH 014/173] fix: concatenating a pointer array with itself never
 ends

---
 src/libzt/zt_ptr_array.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_ptr_array.c b/src/libzt/zt_ptr_array.c
index 42243f0..09aea94 100644
--- a/src/libzt/zt_ptr_array.c
+++ b/src/libzt/zt_ptr_array.c
@@ -119,12 +119,16 @@ zt_ptr_array_del(zt_ptr_array * array, void * data) {
 int
 zt_ptr_array_cat(zt_ptr_array * dst, zt_ptr_array * src) {
     int32_t i;
+    int32_t count;
 
     if (dst == NULL || src == NULL) {
         return -1;
     }
 
-    for (i = 0; i < src->count; i++) {
+    /* dst may be src */
+    count = src->count;
+
+    for (i = 0; i < count; i++) {
         if (zt_ptr_array_add(dst, zt_ptr_array_get_idx(src, i))) {
             return -1;
         }
-- 
2.43.0


From 5e978235da3d12ce09362eb0fac5cbf1078cd25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:34 +0000
Subject: [PATCH 015/173] fix: draining a buffer inflates its free space

The capacity left behind the read position was not reduced by the drained
amount, so later additions were written past the end of the allocation.
---
 src/libzt/zt_buf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_buf.c b/src/libzt/zt_buf.c
index b462599..9f57495 100644
--- a/src/libzt/zt_buf.c
+++ b/src/libzt/zt_buf.c
@@ -79,7 +79,7 @@ zt_buf_drain(zt_buf_t * b, size_t len) {
 
     if (len < b->len) {
         b->len -= len;
-        b->max -= (size_t)((char *)b->top - (char *)b->buf);
+        b->max -= len;
         b->buf  = ((char *)b->buf + len);
     } else {
         b->len = 0;
-- 
2.43.0


From 0aa1aa26be43fa62e21ed186b4a8fe24ee9dcdb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:34 +0000
Subject: [PATCH 016/173] fix: growing a partly drained buffer reallocates from
 the middle of its allocation

---
 src/libzt/zt_buf.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/libzt/zt_buf.c b/src/libzt/zt_buf.c
index 9f57495..da79d3a 100644
--- a/src/libzt/zt_buf.c
+++ b/src/libzt/zt_buf.c
@@ -53,6 +53,7 @@ zt_buf_length(zt_buf_t * b) {
 int
 zt_buf_expand(zt_buf_t * b, size_t len) {
     size_t rlen;
+    void * top;
 
     if (len < ZT_BUF_MIN) {
         rlen = ZT_BUF_MIN;
@@ -60,12 +61,19 @@ zt_buf_expand(zt_buf_t * b, size_t len) {
         rlen = len;
     }
 
-    if (b->top == NULL) {
-        b->top = b->buf;
+    if (b->top != b->buf) {
+        /* reclaim the space in front of the data */
+        memmove(b->top, b->buf, b->len);
+        b->max += (size_t)((char *)b->buf - (char *)b->top);
+        b->buf  = b->top;
+    }
+
+    if (!(top = realloc(b->top, b->len + rlen))) {
+        return -1;
     }
 
-    b->buf = realloc(b->buf, b->len + rlen);
-    b->top = b->buf;
+    b->top = top;
+    b->buf = top;
     b->max = b->len + rlen;
 
     return 0;
-- 
2.43.0


From c2a4f283898cafaa224607d61bb83131d2ffd968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:34 +0000
Subject: [PATCH 017/173] fix: adding to a buffer that cannot grow writes
 through a null pointer

---
 src/libzt/zt_buf.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/libzt/zt_buf.c b/src/libzt/zt_buf.c
index da79d3a..440ddde 100644
--- a/src/libzt/zt_buf.c
+++ b/src/libzt/zt_buf.c
@@ -99,7 +99,9 @@ zt_buf_drain(zt_buf_t * b, size_t len) {
 int
 zt_buf_add(zt_buf_t * b, void * data, size_t len) {
     if (len > zt_buf_unused_sz(b)) {
-        zt_buf_expand(b, len);
+        if (zt_buf_expand(b, len) != 0) {
+            return -1;
+        }
     }
 
     memcpy((void *)((char *)b->buf + b->len), data, len);
@@ -110,7 +112,10 @@ zt_buf_add(zt_buf_t * b, void * data, size_t len) {
 
 int
 zt_buf_add_buf(zt_buf_t * a, zt_buf_t * b) {
-    zt_buf_add(a, b->buf, b->len);
+    if (zt_buf_add(a, b->buf, b->len) != 0) {
+        return -1;
+    }
+
     zt_buf_drain(b, b->len);
     return 0;
 }
@@ -130,7 +135,9 @@ zt_buf_remove(zt_buf_t * b, void * out, size_t olen) {
 int
 zt_buf_reserve(zt_buf_t * b, size_t len) {
     if (len > zt_buf_unused_sz(b)) {
-        zt_buf_expand(b, len);
+        if (zt_buf_expand(b, len) != 0) {
+            return -1;
+        }
     }
 
     return 0;
@@ -156,7 +163,9 @@ zt_buf_iov_add(zt_buf_t * b, zt_iov_t * vec, int n_vec) {
     size_t tlen;
 
     tlen = zt_buf_iov_len(vec, n_vec);
-    zt_buf_reserve(b, tlen);
+    if (zt_buf_reserve(b, tlen) != 0) {
+        return -1;
+    }
 
     for (i = 0; i < n_vec; i++) {
         zt_buf_add(b, vec[i].iov_data, vec[i].iov_len);
-- 
2.43.0


From d83affb80344ef14d8bf99b533a29be8e7639cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:24 +0000
Subject: [PATCH 018/173] fix: buffer growth size wraps around for huge
 requests

---
 src/libzt/zt_buf.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libzt/zt_buf.c b/src/libzt/zt_buf.c
index 440ddde..3ec0014 100644
--- a/src/libzt/zt_buf.c
+++ b/src/libzt/zt_buf.c
@@ -61,6 +61,10 @@ zt_buf_expand(zt_buf_t * b, size_t len) {
         rlen = len;
     }
 
+    if (rlen > (size_t)-1 - b->len) {
+        return -1;
+    }
+
     if (b->top != b->buf) {
         /* reclaim the space in front of the data */
         memmove(b->top, b->buf, b->len);
-- 
2.43.0


From 88c014f6cb86298fed565bcb2a1b8c3b85ca4422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:05 +0000
Subject: [PATCH 019/173] fix: writing to a stream positioned behind its end
 overruns the storage

---
 src/libzt/zt_bstream.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_bstream.c b/src/libzt/zt_bstream.c
index a3b97c1..85649cf 100644
--- a/src/libzt/zt_bstream.c
+++ b/src/libzt/zt_bstream.c
@@ -183,8 +183,8 @@ zt_bstream_write(zt_bstream_t bs, char *data, size_t len, char size, char tag UN
 
     alen = zt_array_length(bs->data);
 
-    if (tlen > alen - bs->offt) {
-        zt_array_resize(bs->data, (alen + tlen) * 2);
+    if (tlen > alen || bs->offt > alen - tlen) {
+        zt_array_resize(bs->data, MAX((alen + tlen) * 2, bs->offt + tlen));
     }
 
     bs->offt = _array_put(bs->data, data, bs->offt, tlen, bs->flipendian);
-- 
2.43.0


From 283228030c78a16b6e586841f81983ca2c087311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:05 +0000
Subject: [PATCH 020/173] fix: replacing the data of a stream leaks its
 previous storage

---
 src/libzt/zt_bstream.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_bstream.c b/src/libzt/zt_bstream.c
index 85649cf..0ac6c07 100644
--- a/src/libzt/zt_bstream.c
+++ b/src/libzt/zt_bstream.c
@@ -56,9 +56,14 @@ zt_bstream_truncate(zt_bstream_t bs)
 void
 zt_bstream_set_data(zt_bstream_t bs, char *data, int len, char copy)
 {
+    zt_array_t array;
+
     zt_assert(bs);
 
-    zt_array_set_data(bs->data, data, len, sizeof(char), copy);
+    array = zt_array_with(data, len, sizeof(char), copy);
+    zt_array_free(&bs->data);
+
+    bs->data = array;
 }
 
 void
-- 
2.43.0


From 3663303a4e7367e97eabdae948c83378f251747a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:17 +0000
Subject: [PATCH 021/173] fix: base16 decoding drops a dangling digit instead
 of rejecting the text

---
 src/libzt/zt_base.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libzt/zt_base.c b/src/libzt/zt_base.c
index 14f3e08..70f2b1b 100644
--- a/src/libzt/zt_base.c
+++ b/src/libzt/zt_base.c
@@ -528,6 +528,10 @@ _decode16(zt_base_definition_t * def, const unsigned char * in, const size_t byt
         }
     }
 
+    if (cnt > 0) {
+        result = -1;
+    }
+
     *out_bytes = obytes;
     return result;
 }
-- 
2.43.0


From 241b1d9135181dea05f9e6ac61cb14d5a64baca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:17 +0000
Subject: [PATCH 022/173] fix: decoding into a null buffer with a size writes
 through it

---
 src/libzt/zt_base.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libzt/zt_base.c b/src/libzt/zt_base.c
index 70f2b1b..6e84e99 100644
--- a/src/libzt/zt_base.c
+++ b/src/libzt/zt_base.c
@@ -674,6 +674,12 @@ zt_base_decode(zt_base_definition_t * def, const void * in, size_t in_bytes, voi
         *out_bytes = ocount;
     }
 
+    /* if there is no output then return just the size */
+    if (!outp) {
+        *out_bytes = ocount;
+        return 0;
+    }
+
     switch(def->base) {
         case 64:
             return _decode64(def, inp, in_bytes, outp, out_bytes);
-- 
2.43.0


From ac3922035392bd6cddbd97af00f8b8a0c487a29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:50 +0000
Subject: [PATCH 023/173] fix: an empty string is treated as a slice holding
 its terminator

---
 src/libzt/zt_cstr.c | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 9a78384..f84302f 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -49,7 +49,7 @@
             zt_assert(i >= 0 && j < (ssize_t)len); \
         } else {                          \
             i = 0;                        \
-            j = 0;                        \
+            j = -1;                       \
         }                                 \
 } while (0)
 
@@ -58,12 +58,8 @@ static INLINE size_t
 IDXLEN(ssize_t i, ssize_t j) {
     ssize_t   r;
 
-    if (i < j) {
-        r = (j - i) + 1;
-    } else {
-        r = (i - j) + 1;
-    }
-    zt_assert(r > 0);
+    r = (j - i) + 1;
+    zt_assert(r >= 0);
     return (size_t)r;
 }
 
@@ -301,7 +297,7 @@ zt_cstr_pos(const char *s, ssize_t i) {
     zt_assert(s);
 
     len = strlen(s);
-    i   = (ssize_t)IDX(i, len);
+    i   = len > 0 ? (ssize_t)IDX(i, len) : 0;
 
     zt_assert(i >= 0 && (size_t)i <= len);
     return (size_t)i;
@@ -489,8 +485,6 @@ zt_cstr_any(const char *s, ssize_t i, ssize_t j, const char *set) {
 
     CONVERT(s, i, j);
 
-    zt_assert(i >= 0 && i <= j);
-
     for (; i <= j; i++) {
         if (s[i] != '\0' && strchr(set, s[i])) {
             return i;
@@ -513,8 +507,6 @@ zt_cstr_rany(const char *s, ssize_t i, ssize_t j, const char *set) {
 
     CONVERT(s, i, j);
 
-    zt_assert(i >= 0 && i <= j);
-
     for (orig = i; j >= i; j--) {
         if (s[j] != '\0' && strchr(set, s[j])) {
             return j - orig;
-- 
2.43.0


From ec59e3be0c8cff93faffd6bb49241c13ce3c62ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:50 +0000
Subject: [PATCH 024/173] fix: character mapping turns characters above 225
 into terminators

---
 src/libzt/zt_cstr.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index f84302f..65c6c96 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -261,7 +261,10 @@ zt_cstr_map(const char *s, ssize_t i, ssize_t j,
                                190, 191, 192, 193, 194, 195, 196, 197, 198, 199,
                                200, 201, 202, 203, 204, 205, 206, 207, 208, 209,
                                210, 211, 212, 213, 214, 215, 216, 217, 218, 219,
-                               220, 221, 222, 223, 224, 225 };
+                               220, 221, 222, 223, 224, 225, 226, 227, 228, 229,
+                               230, 231, 232, 233, 234, 235, 236, 237, 238, 239,
+                               240, 241, 242, 243, 244, 245, 246, 247, 248, 249,
+                               250, 251, 252, 253, 254, 255 };
 
     if (from && to) {
         while (*from && *to) {
-- 
2.43.0


From e26353176e12d823473c6c1ed83197a4f1e18554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:50 +0000
Subject: [PATCH 025/173] fix: comparing equally long slices ignores their last
 character

---
 src/libzt/zt_cstr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 65c6c96..e5485da 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -336,7 +336,7 @@ zt_cstr_cmp(const char *s1, ssize_t i1, ssize_t j1,
         return cond == 0 ? +1 : cond;
     }
 
-    return strncmp(s1, s2, j1 - i1);
+    return strncmp(s1, s2, IDXLEN(i1, j1));
 }
 
 /*!
-- 
2.43.0


From 94ae4d4a90ccfbd18dec1c262aa4167cfb50479c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:50 +0000
Subject: [PATCH 026/173] fix: zt_cstr_rany reports a position relative to the
 slice instead of the string

---
 src/libzt/zt_cstr.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index e5485da..60cb64b 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -503,16 +503,14 @@ zt_cstr_any(const char *s, ssize_t i, ssize_t j, const char *set) {
  */
 ssize_t
 zt_cstr_rany(const char *s, ssize_t i, ssize_t j, const char *set) {
-    ssize_t   orig;
-
     zt_assert(s);
     zt_assert(set);
 
     CONVERT(s, i, j);
 
-    for (orig = i; j >= i; j--) {
+    for (; j >= i; j--) {
         if (s[j] != '\0' && strchr(set, s[j])) {
-            return j - orig;
+            return j;
         }
     }
 
-- 
2.43.0


From 007a9687ba7866f61e8b2c13ed183c9ade11f549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:50 +0000
Subject: [PATCH 027/173] fix: chomping an empty string accesses the byte in
 front of it

---
 src/libzt/zt_cstr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 60cb64b..1766358 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -525,7 +525,7 @@ zt_cstr_chomp(char *str) {
         size_t    i = 0;
 
         i = strlen(str);
-        if (str[i - 1] == '\n') {
+        if (i > 0 && str[i - 1] == '\n') {
             str[i - 1] = '\0';
         }
     }
-- 
2.43.0


From ef41995e0ca01cdee1821181074176155bcd5f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:50 +0000
Subject: [PATCH 028/173] fix: reverse spans never look at the first character

---
 src/libzt/zt_cstr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 1766358..92788e4 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -568,7 +568,7 @@ zt_cstr_rspn(const char *s, const char *accept) {
     zt_assert(s);
     zt_assert(accept);
 
-    for (i = len - 1; i > 0; i--) { /* -1 to skip \0 */
+    for (i = len - 1; i >= 0; i--) { /* -1 to skip \0 */
         if (strspn(&s[i], accept) == 0) {
             return (len - i) - 1;                          /* -1 for the first non matching char */
         }
@@ -584,7 +584,7 @@ zt_cstr_rcspn(const char *s, const char *reject) {
     zt_assert(s);
     zt_assert(reject);
 
-    for (i = len - 1; i > 0; i--) { /* -1 to skip \0 */
+    for (i = len - 1; i >= 0; i--) { /* -1 to skip \0 */
         if (strcspn(&s[i], reject) == 0) {
             return i;                                      /* -1 for the first non matching char */
         }
-- 
2.43.0


From 37e29f270652dc7d7323546a4da708b295325f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:50 +0000
Subject: [PATCH 029/173] fix: stripping a string with an inner newline appends
 one, past its end

---
 src/libzt/zt_cstr.c | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 92788e4..e4f374f 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -545,17 +545,15 @@ zt_cstr_strip(char *str) {
         memmove(str, &str[len], (strlen(str) - len) + 1); /* +1 captures \0 */
 
         /* strip whitespace from the end of the string */
-        if (strchr(str, '\n') != NULL) {
-            nl = 1;
-        }
         len = zt_cstr_rspn(str, WHITESPACE "\n");
         len = strlen(str) - len;
-        if (len) {
-            if (nl) {
-                str[len++] = '\n';
-            }
-            str[len] = '\0';
+        if (strchr(&str[len], '\n') != NULL) {
+            nl = 1;
+        }
+        if (nl) {
+            str[len++] = '\n';
         }
+        str[len] = '\0';
     }
     return str;
 }
-- 
2.43.0


From f4b97affdf706a3c82202b24de68e9734c3aacb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:19 +0000
Subject: [PATCH 030/173] fix: base names of paths with trailing separators,
 suffixes inside the name and unterminated results

---
 src/libzt/zt_cstr.c | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index e4f374f..1211bd6 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -600,22 +600,30 @@ zt_cstr_basename(char *npath, size_t len, const char *path, const char *suffix)
 
     memset(npath, '\0', len);
 
-    if ((start = zt_cstr_rfind(path, 0, -1, PATH_SEPERATOR)) != -1) {
-        start = start + strlen(PATH_SEPERATOR);
-    } else {
-        start = 0;
+    if (*path == '\0' || len == 0) {
+        return npath;
+    }
+
+    /* trailing separators are not part of the name */
+    end = strlen(path) - 1;
+    while (end > 0 && strncmp(&path[end], PATH_SEPERATOR, strlen(PATH_SEPERATOR)) == 0) {
+        end--;
+    }
+
+    start = zt_cstr_rfind(path, 0, end, PATH_SEPERATOR) + 1;
+    if (start > end) {
+        start = end;
     }
 
     if (suffix) {
-        end = zt_cstr_rfind(path, start, -1, suffix);
-        if (end > 0 && path[end] == '.') {
-            end--;
+        ssize_t slen = strlen(suffix);
+
+        if (slen <= end - start && strncmp(&path[end - slen + 1], suffix, slen) == 0) {
+            end -= slen;
         }
-    } else {
-        end = -1;
     }
 
-    zt_cstr_copy(path, start, end, npath, len);
+    zt_cstr_copy(path, start, end, npath, len - 1);
     return npath;
 }
 
-- 
2.43.0


From a0ca2113109bb013e4cf399e092b1542566ff45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:19 +0000
Subject: [PATCH 031/173] fix: directory names of paths directly below the
 root, empty paths and unterminated results

---
 src/libzt/zt_cstr.c | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 1211bd6..d4537f6 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -631,28 +631,35 @@ zt_cstr_basename(char *npath, size_t len, const char *path, const char *suffix)
 char *
 zt_cstr_dirname(char *npath, size_t len, const char *path) {
     ssize_t    end    = -1;
-    ssize_t    ps_len = 0;
+    ssize_t    ps_len = strlen(PATH_SEPERATOR);
 
     zt_assert(npath);
     zt_assert(path);
 
     memset(npath, '\0', len);
 
+    if (len == 0) {
+        return npath;
+    }
+
     /* if the end of the path is the PATH_SEPERATOR then skip over it */
-    ps_len = strlen(PATH_SEPERATOR);
-    if (strcmp(&path[strlen(path) - ps_len], PATH_SEPERATOR) == 0) {
-        end = end - ps_len;
+    end = strlen(path) - 1;
+    while (end > 0 && strncmp(&path[end], PATH_SEPERATOR, ps_len) == 0) {
+        end--;
     }
 
-    if ((end = zt_cstr_rfind(path, 0, end, PATH_SEPERATOR)) == -1) {
+    if (end < 0 || (end = zt_cstr_rfind(path, 0, end, PATH_SEPERATOR)) == -1) {
         /* there is no path seperator */
-        zt_cstr_copy(".", 0, -1, npath, len);
+        zt_cstr_copy(".", 0, -1, npath, len - 1);
         return npath;
-    } else {
-        end = end - 1;
     }
 
-    zt_cstr_copy(path, 0, end, npath, len);
+    /* drop the separator unless it is the root */
+    while (end > 0 && strncmp(&path[end], PATH_SEPERATOR, ps_len) == 0) {
+        end--;
+    }
+
+    zt_cstr_copy(path, 0, end, npath, len - 1);
     return npath;
 }
 
-- 
2.43.0


From 7e103c60e268b0558d6b5e40416a1641dc60d9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:19 +0000
Subject: [PATCH 032/173] fix: appending to the root, to nothing or only
 separators repeats the separator

---
 src/libzt/zt_cstr.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index d4537f6..0550f5f 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -684,9 +684,18 @@ zt_cstr_path_append(const char *path1, const char *path2) {
         ;
     }
 
-    rpath = zt_cstr_catv(path1, 0, y,
+    if (len1 == 0) {
+        return zt_cstr_sub(path2, 0, -1);
+    }
+
+    if (strncmp(&path1[y], PATH_SEPERATOR, sep_len) == 0) {
+        /* path1 is the root */
+        return zt_cstr_cat(PATH_SEPERATOR, 0, -1, &path2[x], 0, -1);
+    }
+
+    rpath = zt_cstr_catv(path1, 0, (int)y,
                          PATH_SEPERATOR, 0, -1,
-                         path2, x, -1, NULL);
+                         &path2[x], 0, -1, NULL);
     return rpath;
 }
 
-- 
2.43.0


From 1bb06a7fac75ea149696c6a2321f2116d533934e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:19 +0000
Subject: [PATCH 033/173] fix: a hex dump of a multiple of 16 plus 15 bytes
 loses its last line

---
 src/libzt/zt_cstr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 0550f5f..804e15c 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -803,7 +803,7 @@ zt_hexdump(int _getchar(void *), void * data, zt_hexdump_output output, void * o
         bytes++;
     }
 
-    if ((addr % 16 != 15) && (addr % 16 != 0)) {
+    if (addr % 16 != 0) {
         if (output(odata, _addr, _hex, _txt) == -1 ) {
             return -1;
         }
-- 
2.43.0


From 65fd82da8be33ea8019904ce6855dc9e07903459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:19 +0000
Subject: [PATCH 034/173] fix: hex dumping a buffer ends at its first 0xff byte

---
 src/libzt/zt_cstr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 804e15c..4dd920d 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -726,7 +726,7 @@ static int _read_str(void * ctx) {
         return EOF;
     }
 
-    c = *(state->c + state->offt);
+    c = (unsigned char)*(state->c + state->offt);
     state->offt += 1;
     return c;
 }
-- 
2.43.0


From 21836a871584e78097e7690f80d03e28f2e447c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:19 +0000
Subject: [PATCH 035/173] fix: writing hex into an odd sized buffer overruns it
 by one

---
 src/libzt/zt_cstr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 4dd920d..bcb8cb4 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -823,7 +823,7 @@ zt_binary_to_hex(void *data, size_t dlen, char *hex, size_t hlen) {
     size_t n;
     char * dptr = hex;
 
-    for (n = 0; (n < dlen) && ((n * 2) < hlen); n++, dptr += 2) {
+    for (n = 0; (n < dlen) && ((n * 2) + 1 < hlen); n++, dptr += 2) {
         uint8_t c = ((uint8_t *)data)[n];
         if (hex != NULL) {
             dptr[0] = HEX_DIGITS[((c >> 4) & 0xF)];
-- 
2.43.0


From 166bf30f342b6063c5ca60686e7a140f8e1b9cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:19 +0000
Subject: [PATCH 036/173] fix: parsing an odd number of hex digits reads behind
 them

---
 src/libzt/zt_cstr.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index bcb8cb4..824762c 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -881,7 +881,8 @@ zt_hex_to_binary(char *hex, size_t hlen, void *data, size_t dlen) {
             return 0;
         }
 
-        if ((c2 = hex_to_char(*hex++)) == -1) {
+        if (n + 1 >= hlen || (c2 = hex_to_char(*hex++)) == -1) {
+            errno = EINVAL;
             return 0;
         } else {
             n++;
-- 
2.43.0


From f8b73cdf78850622e4aa70707bccab5a0f031e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:19 +0000
Subject: [PATCH 037/173] fix: splitting an empty string into its prefixes
 accesses the byte in front of it

---
 src/libzt/zt_cstr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 824762c..bc12c92 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -995,7 +995,7 @@ zt_cstr_tok(const char *str, const int delim, int keep_delim UNUSED)
 
     str_copy = strdup(str);
 
-    if (str[strlen(str) - 1] == delim) {
+    if (*str != '\0' && str[strlen(str) - 1] == delim) {
         str_copy[ strlen(str) - 1 ] = '\0';
     }
 
-- 
2.43.0


From 82fc4fa07e1a32b755ec04174368c5b5670620ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:19 +0000
Subject: [PATCH 038/173] fix: integer formatting puts the terminator behind a
 buffer of exactly its digits

---
 src/libzt/zt_cstr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index bc12c92..af80162 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -1029,7 +1029,7 @@ ssize_t zt_cstr_itoa(char *s, int value, size_t offset, size_t bufsiz)
 
     result = loc = offset + zt_cstr_int_display_len(value);
 
-    if ((s == NULL) || (loc > bufsiz)) {
+    if ((s == NULL) || (loc >= bufsiz)) {
         return -1;
     }
 
-- 
2.43.0


From 9787f08f738b4324a6c6f3148acd688c9811bb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:05 +0000
Subject: [PATCH 039/173] fix: formatting the smallest integer negates it and
 the largest one prints wrong

---
 src/libzt/zt_format.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_format.c b/src/libzt/zt_format.c
index 21dbf4c..38c0e01 100644
--- a/src/libzt/zt_format.c
+++ b/src/libzt/zt_format.c
@@ -484,8 +484,8 @@ cvt_d(int code UNUSED, void * value,
     char         buf[43];
     char       * p = buf + sizeof(buf);
 
-    if (val == INT_MAX) {
-        m = INT_MAX + 1U; /* -1 */
+    if (val == INT_MIN) {
+        m = INT_MAX + 1U; /* -INT_MIN */
     } else if (val < 0) {
         m = -val;
     } else {
-- 
2.43.0


From 54a77ec946efae9ece747246287a39d1c06c5b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:05 +0000
Subject: [PATCH 040/173] fix: formatting into a buffer overruns it when the
 text is longer

---
 src/libzt/zt_format.c | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/libzt/zt_format.c b/src/libzt/zt_format.c
index 38c0e01..eb6e92a 100644
--- a/src/libzt/zt_format.c
+++ b/src/libzt/zt_format.c
@@ -167,8 +167,8 @@ zt_fmt_vsprintf(char *buf, size_t size, const char *fmt, va_list ap)
     cl.size = size;
 
     zt_fmt_vformat(zt_fmt_insert, &cl, fmt, ap);
-    zt_fmt_insert(0, &cl);
-    return cl.bp - cl.buf - 1;
+    *cl.bp = '\0';
+    return cl.bp - cl.buf;
 }
 
 char * zt_fmt_strprintf(const char *fmt, ...)
@@ -641,12 +641,10 @@ zt_fmt_insert(int c, void *cl)
 {
     struct zt_fmt_obuf * p = cl;
 
-    zt_assert(p->bp < p->buf + p->size);
-    /* if (p->bp >= p->buf + p->size) { */
-        /* TRY_THROW(zt_exception.format.overflow); */
-    /* } */
-
-    *p->bp++ = c;
+    /* the last byte is kept for the terminator */
+    if (p->bp < p->buf + p->size - 1) {
+        *p->bp++ = c;
+    }
     return c;
 }
 
-- 
2.43.0


From 9deefce5d68595f65ec10d305d214b0bd1c7b85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:05 +0000
Subject: [PATCH 041/173] fix: left justified strings are not padded

---
 src/libzt/zt_format.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libzt/zt_format.c b/src/libzt/zt_format.c
index eb6e92a..b81498a 100644
--- a/src/libzt/zt_format.c
+++ b/src/libzt/zt_format.c
@@ -351,6 +351,10 @@ zt_fmt_puts(const char *str, size_t len,
 
     EMIT_STR(str, len, cl, tlen);
 
+    if (flags['-']) {
+        pad(width - len, ' ', tlen);
+    }
+
     return tlen;
 }
 
-- 
2.43.0


From 83785670703f9f3ba412ccef73b86a575a3738bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:05 +0000
Subject: [PATCH 042/173] fix: the '+' flag is ignored and signs are put in
 front of blank padding

---
 src/libzt/zt_format.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_format.c b/src/libzt/zt_format.c
index b81498a..275b0d3 100644
--- a/src/libzt/zt_format.c
+++ b/src/libzt/zt_format.c
@@ -378,6 +378,8 @@ zt_fmt_putd(const char *str, size_t len,
          *str == '+')) {
         sign = *str++;
         len--;
+    } else if (flags['+']) {
+        sign = '+';
     } else if (flags[' ']) {
         sign = ' ';
     } else {
@@ -413,10 +415,10 @@ zt_fmt_putd(const char *str, size_t len,
         }
         pad(width - n, '0', tlen);
     } else {
+        pad(width - n, ' ', tlen);
         if (sign) {
             tlen += put(sign, cl);
         }
-        pad(width - n, ' ', tlen);
     }
 
     pad(precision - len, '0', tlen);
-- 
2.43.0


From f624002787f56d15c2307b54fa2537e56b680c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:05 +0000
Subject: [PATCH 043/173] fix: the formatted length is the sum of the character
 codes

---
 src/libzt/zt_format.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/libzt/zt_format.c b/src/libzt/zt_format.c
index 275b0d3..fb54454 100644
--- a/src/libzt/zt_format.c
+++ b/src/libzt/zt_format.c
@@ -16,7 +16,8 @@ struct zt_fmt_obuf {
     do {                          \
         ssize_t    nn = (n);      \
         while (nn-- > 0) {        \
-            tlen += put((c), cl); \
+            put((c), cl);         \
+            tlen++;               \
         }                         \
     } while (0)
 
@@ -211,7 +212,8 @@ size_t zt_fmt_vformat(zt_fmt_put_f put, void *cl,
         /* both % and ~ are control chars */
         if ((*fmt != '%' && *fmt != '~') ||
             (++fmt && (*fmt == '%' || *fmt == '~'))) {
-            tlen += put((unsigned char)*fmt++, cl);
+            put((unsigned char)*fmt++, cl);
+            tlen++;
         } else {
             unsigned char c, flags[256];
             ssize_t       width = INT_MIN;
@@ -322,7 +324,8 @@ size_t zt_fmt_vformat(zt_fmt_put_f put, void *cl,
     do {                                            \
         size_t    i;                                \
         for (i = 0; i < len; i++) {                 \
-            tlen += put((unsigned char)*str++, cl); \
+            put((unsigned char)*str++, cl);         \
+            tlen++;                                 \
         }                                           \
     } while (0)
 
@@ -407,17 +410,20 @@ zt_fmt_putd(const char *str, size_t len,
 
     if (flags['-']) {
         if (sign) {
-            tlen += put(sign, cl);
+            put(sign, cl);
+            tlen++;
         }
     } else if (flags['0']) {
         if (sign) {
-            tlen += put(sign, cl);
+            put(sign, cl);
+            tlen++;
         }
         pad(width - n, '0', tlen);
     } else {
         pad(width - n, ' ', tlen);
         if (sign) {
-            tlen += put(sign, cl);
+            put(sign, cl);
+            tlen++;
         }
     }
 
@@ -471,7 +477,8 @@ cvt_c(int code UNUSED, void * value,
     if (!flags['-']) {
         pad(width - 1, ' ', tlen);
     }
-    tlen += put(c, cl);
+    put((unsigned char)c, cl);
+    tlen++;
     if (flags['-']) {
         pad(width - 1, ' ', tlen);
     }
-- 
2.43.0


From b55396080c6bdd956d001daf4af699f191483161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:05 +0000
Subject: [PATCH 044/173] fix: floating point text is zero filled to its
 precision, never to its width, and may overrun its buffer

---
 src/libzt/zt_format.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/libzt/zt_format.c b/src/libzt/zt_format.c
index fb54454..5b9139d 100644
--- a/src/libzt/zt_format.c
+++ b/src/libzt/zt_format.c
@@ -523,8 +523,8 @@ cvt_f(int code, void * value,
       unsigned char flags[],
       ssize_t width, ssize_t precision)
 {
-    char        buf[DBL_MAX_10_EXP + 1 + 1 + 99 + 1];
-    static char fmt[] = "%.dd?";
+    char        buf[1 + DBL_MAX_10_EXP + 1 + 1 + 99 + 1];
+    char        fmt[] = "%.dd?";
 
     if (precision < 0) {
         precision = 6;
@@ -541,8 +541,14 @@ cvt_f(int code, void * value,
 
     sprintf(buf, fmt, *(double *)value);
 
+    if (!isdigit((unsigned char)buf[strlen(buf) - 1]) && buf[strlen(buf) - 1] != '.') {
+        /* infinity or not a number */
+        flags['0'] = 0;
+    }
+
+    /* the precision is spent, it is not a minimum number of digits */
     return zt_fmt_putd(buf, strlen(buf), put, cl,
-                       flags, width, precision);
+                       flags, width, INT_MIN);
 }
 
 static size_t
-- 
2.43.0


From d639bd94b7ae5de5163c3236df559dad29956b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:05 +0000
Subject: [PATCH 045/173] fix: zero formatted with precision zero is not empty,
 and a lone '.' is no precision

---
 src/libzt/zt_format.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/libzt/zt_format.c b/src/libzt/zt_format.c
index 5b9139d..9c3058c 100644
--- a/src/libzt/zt_format.c
+++ b/src/libzt/zt_format.c
@@ -245,9 +245,10 @@ size_t zt_fmt_vformat(zt_fmt_put_f put, void *cl,
                 width = n;
             }
 
-            if (*fmt == '.' &&
-                (*++fmt == '*' || isdigit(*fmt))) {
+            if (*fmt == '.') {
                 int n;
+
+                fmt++;
                 if (*fmt == '*') {
                     n = va_arg(ap, int);
                     zt_assert(n != INT_MIN);
@@ -399,7 +400,8 @@ zt_fmt_putd(const char *str, size_t len,
     } else if (precision == 0 &&
                len == 1 &&
                str[0] == '0') {
-        n = 0;
+        len = 0;
+        n   = 0;
     } else {
         n = len;
     }
-- 
2.43.0


From dcede30d790c5c65be5444cfd7bb48de569a6760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:05 +0000
Subject: [PATCH 046/173] fix: a string printed with a precision is read beyond
 it

---
 src/libzt/zt_format.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_format.c b/src/libzt/zt_format.c
index 9c3058c..9dbb7b4 100644
--- a/src/libzt/zt_format.c
+++ b/src/libzt/zt_format.c
@@ -618,7 +618,13 @@ cvt_s(int code UNUSED, void * value,
         }
     }
 
-    return zt_fmt_puts(str, strlen(str), put, cl, flags, width, precision);
+    if (precision >= 0) {
+        lstr = strnlen(str, precision);
+    } else {
+        lstr = strlen(str);
+    }
+
+    return zt_fmt_puts(str, lstr, put, cl, flags, width, precision);
 }
 
 static size_t
-- 
2.43.0


From 87ca7ccb47b46be6c2d8070e06778ab56f8f9532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:05 +0000
Subject: [PATCH 047/173] fix: conversions registered for the documented char
 types get no argument

---
 src/libzt/zt_format.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/libzt/zt_format.c b/src/libzt/zt_format.c
index 9dbb7b4..0d38b54 100644
--- a/src/libzt/zt_format.c
+++ b/src/libzt/zt_format.c
@@ -272,6 +272,8 @@ size_t zt_fmt_vformat(zt_fmt_put_f put, void *cl,
                     double          d;
                     void *          p;
                     char *          s;
+                    char            c;
+                    unsigned char   C;
                 } value;
 
                 void * vp = NULL;
@@ -297,6 +299,14 @@ size_t zt_fmt_vformat(zt_fmt_put_f put, void *cl,
                         value.s = va_arg(ap, char *);
                         vp = &value.s;
                         break;
+                    case 'c':
+                        value.c = (char)va_arg(ap, int);
+                        vp = &value.c;
+                        break;
+                    case 'C':
+                        value.C = (unsigned char)va_arg(ap, int);
+                        vp = &value.C;
+                        break;
                     default:
                         break;
                 }
-- 
2.43.0


From 8b8e8c7df6dee80393bfd48ca91abe63540a6134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:32 +0000
Subject: [PATCH 048/173] fix: keep pool elements aligned whatever their size

---
 src/libzt/zt_mem.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/libzt/zt_mem.c b/src/libzt/zt_mem.c
index 2125bec..7e0a23a 100644
--- a/src/libzt/zt_mem.c
+++ b/src/libzt/zt_mem.c
@@ -30,6 +30,10 @@ struct zt_mem_elt {
     unsigned long        data[];
 };
 
+/* the space an element takes in its page, rounded so that its neighbour stays aligned */
+#define ELT_STRIDE(size) \
+    (sizeof(zt_mem_elt) + ((((size) + sizeof(unsigned long) - 1) / sizeof(unsigned long)) * sizeof(unsigned long)))
+
 struct zt_mem_heap {
     char        * name;
     size_t        size;
@@ -157,7 +161,7 @@ x_calculate_page_data(ssize_t elts, size_t size, size_t *page_size, size_t *epp,
      *   page size is elts * size + overhead
      */
     if (size < (usable_page_size / 2)) {
-        *epp = usable_page_size / (sizeof(zt_mem_elt) + size);
+        *epp = usable_page_size / ELT_STRIDE(size);
         *page_size = sys_page_size;
         if (elts > (ssize_t)*epp) {
             *npages = elts / *epp;
@@ -166,7 +170,7 @@ x_calculate_page_data(ssize_t elts, size_t size, size_t *page_size, size_t *epp,
         }
     } else {
         *epp = elts;
-        *page_size = (elts * (sizeof(zt_mem_elt) + size)) + sizeof(zt_mem_page);
+        *page_size = (elts * ELT_STRIDE(size)) + sizeof(zt_mem_page);
         *npages = 1;
     }
 
@@ -682,7 +686,7 @@ zt_mem_page_destroy(zt_mem_page *page)
     page->parent_pool->npages--;
     page->parent_pool->nfree_pages--;
 
-    size = sizeof(zt_mem_elt) + page->parent_pool->elt_size;
+    size = ELT_STRIDE(page->parent_pool->elt_size);
     elt = (zt_mem_elt *)page->data;
     /* remove the elements from the free element list */
     for (i = 0; i < page->num_free_elts; i++) {
@@ -709,7 +713,7 @@ zt_mem_page_alloc(zt_mem_pool *pool)
     size_t        i;
     size_t        epp;
 
-    size = sizeof(zt_mem_elt) + pool->elt_size;
+    size = ELT_STRIDE(pool->elt_size);
     /* sizeof(zt_mem_page) + (pool->elts_per_page * size)) */
 
     if ((page = GLOBAL_zmt.alloc(pool->page_size)) == 0) {
-- 
2.43.0


From c79cf8e8755ba4cf40887a11df1c527e5154ec72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:32 +0000
Subject: [PATCH 049/173] fix: count every page a pool frees

---
 src/libzt/zt_mem.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_mem.c b/src/libzt/zt_mem.c
index 7e0a23a..4111a5d 100644
--- a/src/libzt/zt_mem.c
+++ b/src/libzt/zt_mem.c
@@ -323,7 +323,6 @@ zt_mem_pool_release(void **data)
                                   pool->release_test_cb_data)) {
             /* release the page */
             zt_mem_page_destroy(page);
-            pool->page_frees++;
         }
     }
 }
@@ -685,6 +684,7 @@ zt_mem_page_destroy(zt_mem_page *page)
 
     page->parent_pool->npages--;
     page->parent_pool->nfree_pages--;
+    page->parent_pool->page_frees++;
 
     size = ELT_STRIDE(page->parent_pool->elt_size);
     elt = (zt_mem_elt *)page->data;
-- 
2.43.0


From 15566781caa5975f321bdfa57acada146f888251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:32 +0000
Subject: [PATCH 050/173] fix: give the page release test the page counts its
 interface documents

---
 src/libzt/zt_mem.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libzt/zt_mem.c b/src/libzt/zt_mem.c
index 4111a5d..5db2b44 100644
--- a/src/libzt/zt_mem.c
+++ b/src/libzt/zt_mem.c
@@ -316,9 +316,9 @@ zt_mem_pool_release(void **data)
     }
 
     if (page->num_free_elts == pool->elts_per_page) {
-        if (pool->release_test_cb(pool->rcache,
-                                  pool->ncache * pool->nfree_pages,
-                                  pool->ncache * (pool->npages - pool->nfree_pages),
+        if (pool->release_test_cb(pool->npages,
+                                  pool->nfree_pages,
+                                  pool->pcache,
                                   pool->flags,
                                   pool->release_test_cb_data)) {
             /* release the page */
-- 
2.43.0


From 1afac5ae8b586fed8cea56ab8ee9d41a25a05732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:32 +0000
Subject: [PATCH 051/173] fix: pool group holds only the pools before the
 terminator

---
 src/libzt/zt_mem.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libzt/zt_mem.c b/src/libzt/zt_mem.c
index 5db2b44..d372394 100644
--- a/src/libzt/zt_mem.c
+++ b/src/libzt/zt_mem.c
@@ -571,6 +571,8 @@ zt_mem_pool_group_init(zt_mem_pool_desc *group, size_t len)
         }
     }
 
+    ngroup->npools = i;
+
     return ngroup;
 }
 
-- 
2.43.0


From 0d275a591f69c6e43a2fe720e31eab87d51a37be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:32 +0000
Subject: [PATCH 052/173] fix: pool group allocates from the smallest pool that
 fits

---
 src/libzt/zt_mem.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_mem.c b/src/libzt/zt_mem.c
index d372394..a34ce26 100644
--- a/src/libzt/zt_mem.c
+++ b/src/libzt/zt_mem.c
@@ -581,15 +581,21 @@ zt_mem_pool_group_alloc(zt_mem_pool_group *group, size_t size)
 {
     size_t    len;
     size_t    i;
+    zt_mem_pool * best = NULL;
 
     len = group->npools;
 
     for (i = 0; i < len; i++) {
-        if (size <= group->pools[i]->elt_size) {
-            return zt_mem_pool_alloc(group->pools[i]);
+        if (size <= group->pools[i]->elt_size &&
+            (!best || group->pools[i]->elt_size < best->elt_size)) {
+            best = group->pools[i];
         }
     }
 
+    if (best) {
+        return zt_mem_pool_alloc(best);
+    }
+
     zt_assert(0);
 
     return NULL;                                           /* never reached if exceptions are enabled */
-- 
2.43.0


From cb5b69c30b39effb22c83db97a07f3c75323d415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:43 +0000
Subject: [PATCH 053/173] fix: destroying a subpool keeps its siblings attached
 to the parent

---
 src/libzt/zt_ez_mempool.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_ez_mempool.c b/src/libzt/zt_ez_mempool.c
index cc6f6be..f6aca7e 100644
--- a/src/libzt/zt_ez_mempool.c
+++ b/src/libzt/zt_ez_mempool.c
@@ -91,7 +91,14 @@ zt_ez_mempool_destroy(zt_ez_mempool *pool) {
     pool_ptr = pool->subpools;
 
     if (pool->parent != NULL) {
-        pool->parent->subpools = NULL;
+        zt_ez_mempool **link = &pool->parent->subpools;
+
+        while (*link != NULL && *link != pool) {
+            link = &(*link)->next;
+        }
+        if (*link == pool) {
+            *link = pool->next;
+        }
     }
 
     free_chunks(pool->chunks);
-- 
2.43.0


From 64d75ce464be5e7d322ecd9227aeb220a587541e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:43 +0000
Subject: [PATCH 054/173] fix: ez mempool owns duplicated empty strings

---
 src/libzt/zt_ez_mempool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_ez_mempool.c b/src/libzt/zt_ez_mempool.c
index f6aca7e..1b8eba9 100644
--- a/src/libzt/zt_ez_mempool.c
+++ b/src/libzt/zt_ez_mempool.c
@@ -131,7 +131,7 @@ char *
 zt_ez_mempool_strdup(zt_ez_mempool *pool, const char *s) {
     char *ret = zt_strdup(s);
 
-    zt_ez_mempool_add_buffer(pool, (void *)ret, strlen(ret), free);
+    zt_ez_mempool_add_buffer(pool, (void *)ret, strlen(ret) + 1, free);
 
     return ret;
 }
-- 
2.43.0


From 940489beb8613fac974eda96844d3ebd0175f531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:09 +0000
Subject: [PATCH 055/173] fix: gc: a value protected during a paused scan is
 still scanned

---
 src/libzt/zt_gc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_gc.c b/src/libzt/zt_gc.c
index f26593f..0e6089c 100644
--- a/src/libzt/zt_gc.c
+++ b/src/libzt/zt_gc.c
@@ -84,7 +84,7 @@ zt_gc_protect(zt_gc_t *gc, void *value)
 
     gc->clear_white(mark);
     zt_elist_remove(&mark->list);
-    zt_elist_add(gc->grey, &mark->list);
+    zt_elist_add_tail(gc->grey, &mark->list);
     ZT_BIT_SET(mark->colour, protected);
 }
 
-- 
2.43.0


From 9b84af612aabe513e02be8c25218bbb7612375fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:09 +0000
Subject: [PATCH 056/173] fix: gc: a paused scan survives the removal of the
 value it stopped at

---
 src/libzt/zt_gc.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/libzt/zt_gc.c b/src/libzt/zt_gc.c
index 0e6089c..b67836f 100644
--- a/src/libzt/zt_gc.c
+++ b/src/libzt/zt_gc.c
@@ -70,6 +70,16 @@ static void zero_set_white(zt_gc_collectable_t *mark)
     ZT_BIT_UNSET(mark->colour, colour);                    /* mark->colour = 0; */
 }
 
+/* take a value off its list, a paused scan resumes behind it */
+static void
+detach(zt_gc_t *gc, zt_gc_collectable_t *mark)
+{
+    if (gc->scan == &mark->list) {
+        gc->scan = mark->list.next;
+    }
+    zt_elist_remove(&mark->list);
+}
+
 static int is_protected(zt_gc_collectable_t *mark)
 {
     return ZT_BIT_ISSET(mark->colour, protected);
@@ -83,7 +93,7 @@ zt_gc_protect(zt_gc_t *gc, void *value)
     mark = (zt_gc_collectable_t    *)value;
 
     gc->clear_white(mark);
-    zt_elist_remove(&mark->list);
+    detach(gc, mark);
     zt_elist_add_tail(gc->grey, &mark->list);
     ZT_BIT_SET(mark->colour, protected);
 }
@@ -233,11 +243,11 @@ zt_gc_prepare(zt_gc_t *gc UNUSED, void *v)
 }
 
 void
-zt_gc_unregister(zt_gc_t *gc UNUSED, void *v)
+zt_gc_unregister(zt_gc_t *gc, void *v)
 {
     zt_gc_collectable_t * mark = (zt_gc_collectable_t *)v;
 
-    zt_elist_remove(&mark->list);
+    detach(gc, mark);
 
     if (++gc->current_allocs < gc->allocs_before_scan) {
         zt_gc_collect(gc, 0);
@@ -396,7 +406,7 @@ zt_gc_mark(zt_gc_t *gc, void *value)
 
     if (!is_protected(mark) && gc->is_white(mark)) {
         gc->clear_white(mark);
-        zt_elist_remove(&mark->list);
+        detach(gc, mark);
         zt_elist_add_tail(gc->grey, &mark->list);
         return TRUE;
     }
-- 
2.43.0


From ff7eb7d28238da2ae586f9cd469a570b396067e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:09 +0000
Subject: [PATCH 057/173] fix: gc: preparing a value initializes all of its
 markers

---
 src/libzt/zt_gc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libzt/zt_gc.c b/src/libzt/zt_gc.c
index b67836f..d86afc7 100644
--- a/src/libzt/zt_gc.c
+++ b/src/libzt/zt_gc.c
@@ -240,6 +240,7 @@ zt_gc_prepare(zt_gc_t *gc UNUSED, void *v)
     zt_gc_collectable_t * mark = (zt_gc_collectable_t *)v;
 
     zt_elist_reset(&mark->list);
+    mark->colour = 0;
 }
 
 void
-- 
2.43.0


From e837806267ef0aba90ff34c64f3bd9b0797510de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:09 +0000
Subject: [PATCH 058/173] fix: gc: destroying a collector releases the
 collector itself

---
 src/libzt/zt_gc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_gc.c b/src/libzt/zt_gc.c
index d86afc7..138c590 100644
--- a/src/libzt/zt_gc.c
+++ b/src/libzt/zt_gc.c
@@ -231,7 +231,7 @@ zt_gc_destroy(zt_gc_t *gc)
         gc->release_fn(gc, gc->private_data, (void **)&elt);
     }
 
-    gc->enabled = 1;
+    zt_free(gc);
 }
 
 void
-- 
2.43.0


From e6af1d0f1ed96b76f98050f1389e37417024690a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:01 +0000
Subject: [PATCH 059/173] fix: zt_sha1: work on a copy of the block, the
 caller's data is not scratch space

---
 src/libzt/zt_sha1.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/libzt/zt_sha1.c b/src/libzt/zt_sha1.c
index 1af5ed8..eb73327 100644
--- a/src/libzt/zt_sha1.c
+++ b/src/libzt/zt_sha1.c
@@ -27,7 +27,7 @@ union CHAR64LONG16 {
 
 #define rol(value, bits) (((value) << (bits)) | ((value) >> (32 - (bits))))
 
-static void _sha1_transform(uint32_t state[5], uint8_t buffer[64]);
+static void _sha1_transform(uint32_t state[5], const uint8_t buffer[64]);
 
 #if HOST_BIGENDIAN
 # define blk0(i) block->l[i]
@@ -49,18 +49,20 @@ static void _sha1_transform(uint32_t state[5], uint8_t buffer[64]);
 
 /* Hash a single 512-bit block. This is the core of the algorithm. */
 static void
-_sha1_transform(uint32_t state[5], uint8_t buffer[64])
+_sha1_transform(uint32_t state[5], const uint8_t buffer[64])
 {
     uint32_t       a;
     uint32_t       b;
     uint32_t       c;
     uint32_t       d;
     uint32_t       e;
+    CHAR64LONG16   workspace;
     CHAR64LONG16 * block;
 
     /* uint32_t      block[80]; */
 
-    block = (CHAR64LONG16 *)buffer;
+    memcpy(&workspace, buffer, sizeof(workspace));
+    block = &workspace;
 
     a = state[0];
     b = state[1];
-- 
2.43.0


From e2e8a2337f07fc25724a1862bfdee965040be51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:02 +0000
Subject: [PATCH 060/173] fix: zt_sha1: updates of any length

---
 src/libzt/zt_sha1.c | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/libzt/zt_sha1.c b/src/libzt/zt_sha1.c
index eb73327..40d4b22 100644
--- a/src/libzt/zt_sha1.c
+++ b/src/libzt/zt_sha1.c
@@ -115,28 +115,24 @@ zt_sha1_init(zt_sha1_ctx *ctx)
 void
 zt_sha1_update(zt_sha1_ctx *ctx, uint8_t *data, size_t len)
 {
-    uint32_t      i;
-    uint32_t      j;
-    uint32_t      llen;
-
-    /* FIXME: 64bit (or better unbounded) sha1_update */
-    zt_assert(len <= UINT_MAX-1);
-    llen = (uint32_t)len;
+    size_t        i;
+    size_t        j;
+    uint32_t      bits = (uint32_t)(len << 3);
 
     j = (ctx->count[0] >> 3) & 63;
-    if ((ctx->count[0] += llen << 3) < (llen << 3)) {
+    if ((ctx->count[0] += bits) < bits) {
         ctx->count[1]++;
     }
-    ctx->count[1] += (llen >> 29);
-    if ((j + llen) > 63) {
+    ctx->count[1] += (uint32_t)(len >> 29);
+    if (len >= 64 - j) {
         memcpy(&ctx->buffer[j], data, (i = 64 - j));
         _sha1_transform(ctx->state, ctx->buffer);
-        for (; i + 63 < llen; i += 64) {
+        for (; len - i > 63; i += 64) {
             _sha1_transform(ctx->state, &data[i]);
         }
         j = 0;
     } else { i = 0; }
-    memcpy(&ctx->buffer[j], &data[i], llen - i);
+    memcpy(&ctx->buffer[j], &data[i], len - i);
 }
 
 void
-- 
2.43.0


From c820801b6d95a1b5267d712f8eaf8f083811332b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:50 +0000
Subject: [PATCH 061/173] fix: zt_sha1_tostr: terminate the string

---
 src/libzt/zt_sha1.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libzt/zt_sha1.c b/src/libzt/zt_sha1.c
index 40d4b22..70422c1 100644
--- a/src/libzt/zt_sha1.c
+++ b/src/libzt/zt_sha1.c
@@ -177,6 +177,7 @@ char*
 zt_sha1_tostr(uint8_t digest[20], char sha1[41])
 {
     zt_binary_to_hex(digest, 20, sha1, 41);
+    sha1[40] = '\0';
     return sha1;
 }
 
-- 
2.43.0


From df4da2abeb77c62a2a3f4c37aaa255d5a8be2a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:50 +0000
Subject: [PATCH 062/173] fix: zt_uuid4: every thread and process generates
 from its own random seed

---
 src/libzt/zt_uuid.c | 60 +++++++++++++++++++++++++++++++++++++--------
 1 file changed, 50 insertions(+), 10 deletions(-)

diff --git a/src/libzt/zt_uuid.c b/src/libzt/zt_uuid.c
index c1ac0ac..7279c86 100644
--- a/src/libzt/zt_uuid.c
+++ b/src/libzt/zt_uuid.c
@@ -27,6 +27,21 @@ static const char base62_alphabet[63] = \
 static int base62_encode_int64(uint64_t in, char * out, size_t olen);
 static int base62_decode_int64(const char * in, size_t ilen, uint64_t * out);
 
+#ifndef WIN32
+# include <sys/types.h>
+# include <unistd.h>
+# define uuid4_pid() ((long)getpid())
+#else /* WIN32 */
+# include <process.h>
+# define uuid4_pid() ((long)_getpid())
+#endif /* WIN32 */
+
+/* the generator of one thread and the process that seeded it (a forked child must not continue its parents sequence) */
+struct uuid4_ctx {
+    zt_random_state state;
+    long            owner;
+};
+
 #ifdef HAVE_PTHREADS
 #include <pthread.h>
 static pthread_key_t   ctx_key;
@@ -41,16 +56,43 @@ make_ctx_key(void) {
 #  define CTX_STATIC static
 #endif /* not HAVE_PTHREADS */
 
+static void
+uuid4_seed(struct uuid4_ctx * ctx) {
+    uint32_t seed[8];
+    size_t   n = 0;
+    FILE   * f = fopen("/dev/urandom", "rb");
+
+    if (f) {
+        setvbuf(f, NULL, _IONBF, 0);
+        n = fread(seed, 1, sizeof(seed), f);
+        fclose(f);
+    }
+
+    if (n != sizeof(seed)) {
+        uintptr_t addr = (uintptr_t)ctx;
+
+        memset(seed, 0, sizeof(seed));
+        seed[0] = (uint32_t)time(NULL);
+        seed[1] = (uint32_t)clock();
+        seed[2] = (uint32_t)uuid4_pid();
+        seed[3] = (uint32_t)addr;
+        seed[4] = (uint32_t)((uint64_t)addr >> 32);
+    }
+
+    zt_random_initstate(&ctx->state, seed, sizeof_array(seed));
+    ctx->owner = uuid4_pid();
+}
+
 zt_random_state *
 zt_uuid4_get_ctx(void) {
-    CTX_STATIC zt_random_state * state = NULL;
+    CTX_STATIC struct uuid4_ctx * state = NULL;
 
     if (!state) {
 #ifdef HAVE_PTHREADS
         (void)pthread_once(&ctx_key_once, make_ctx_key);
         if((state = pthread_getspecific(ctx_key)) == NULL) {
 #endif /* HAVE_PTHREADS */
-            if((state = zt_calloc(zt_random_state, 1)) == NULL) {
+            if((state = zt_calloc(struct uuid4_ctx, 1)) == NULL) {
                 zt_log_printf(zt_log_err, "Could not allocate memory for uuid4 context");
                 exit(1);
             }
@@ -59,24 +101,22 @@ zt_uuid4_get_ctx(void) {
         }
 #endif /* HAVE_PTHREADS */
     }
-    return state;
+
+    if (state->owner != uuid4_pid()) {
+        uuid4_seed(state);
+    }
+    return &state->state;
 }
 
 int
 zt_uuid4(zt_uuid_t * uuid) {
     uint32_t                  v;
-    static zt_random_state  * state;
-    static int                rand_initialized  = 0;
+    zt_random_state         * state;
 
     zt_assert(uuid);
 
     state = zt_uuid4_get_ctx();
 
-    if (rand_initialized == 0) {
-        zt_random_srandom(state, (uint32_t)time(NULL));
-        rand_initialized = 1;
-    }
-
     v = zt_random_uint32(state), memcpy(&uuid->data.bytes, &v, 4);
     v = zt_random_uint32(state), memcpy(&uuid->data.bytes[4], &v, 4);
     v = zt_random_uint32(state), memcpy(&uuid->data.bytes[8], &v, 4);
-- 
2.43.0


From c3d677d7957e4ebdd1fca433dd13911e2a07d227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:50 +0000
Subject: [PATCH 063/173] fix: zt_uuid_fromstr: reject text that is not a
 well-formed uuid

---
 src/libzt/zt_uuid.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/libzt/zt_uuid.c b/src/libzt/zt_uuid.c
index 7279c86..1d5f772 100644
--- a/src/libzt/zt_uuid.c
+++ b/src/libzt/zt_uuid.c
@@ -377,11 +377,11 @@ zt_uuid_fromstr(char * uuidstr, zt_uuid_t * uuid, zt_uuid_flags_t flags) {
     zt_assert(uuidstr);
     zt_assert(uuid);
 
+    if (zt_uuid_isvalid(uuidstr, flags) != 0) {
+        return -1;
+    }
 
     if (flags == zt_uuid_std_fmt) {
-        if (strlen(uuidstr) != UUID_STR_LEN) {
-            return -1;
-        }
         sscanf(uuidstr, "%8s-%4s-%4s-%4s-%12s",
                uuid_hex,
                &uuid_hex[8],
@@ -390,9 +390,6 @@ zt_uuid_fromstr(char * uuidstr, zt_uuid_t * uuid, zt_uuid_flags_t flags) {
                &uuid_hex[20]);
         zt_hex_to_binary(uuid_hex, UUID_SHORT_STR_LEN, uuid->data.bytes, UUID_ALEN);
     } else if (flags == zt_uuid_short_fmt) {
-        if (strlen(uuidstr) != UUID_SHORT_STR_LEN) {
-            return -1;
-        }
         memcpy(uuid_hex, uuidstr, UUID_SHORT_STR_LEN);
         zt_hex_to_binary(uuid_hex, UUID_SHORT_STR_LEN, uuid->data.bytes, UUID_ALEN);
     } else if ((flags == zt_uuid_base62_fmt) || (flags == zt_uuid_base62_hashable_fmt)) {
@@ -418,7 +415,7 @@ zt_uuid_fromstr(char * uuidstr, zt_uuid_t * uuid, zt_uuid_flags_t flags) {
             return -1;
         }
 
-        if (base62_decode_int64(uuidstr + _UUID_BASE62_SEGMENT, UUID_BASE62_STR_LEN, &v2) != 0) {
+        if (base62_decode_int64(uuidstr + _UUID_BASE62_SEGMENT, _UUID_BASE62_SEGMENT, &v2) != 0) {
             return -1;
         }
 
@@ -552,7 +549,7 @@ base62_decode_int64(const char * in, size_t ilen, uint64_t * out) {
 
     for (i = 0; i < tlen; i++) {
         const char c = in[i];
-        int        n;
+        unsigned   n;
 
         /* shift back from our alphabet */
         if (c >= '0' && c <= '9') {
@@ -565,7 +562,10 @@ base62_decode_int64(const char * in, size_t ilen, uint64_t * out) {
             return -1; /* invalid character */
         }
 
-        v += n * (uint64_t)(powl(62, tlen - i - 1));
+        if (v > (UINT64_MAX - n) / 62) {
+            return -1; /* does not fit in 64 bits */
+        }
+        v = v * 62 + n;
     }
 
     *out = v;
-- 
2.43.0


From 41799e3a5a8692cb8ca6a7eaaeb8b671d823bd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:50 +0000
Subject: [PATCH 064/173] fix: zt_uuid_fillstr: larger buffers are fine for
 base62

---
 src/libzt/zt_uuid.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_uuid.c b/src/libzt/zt_uuid.c
index 1d5f772..8c0af24 100644
--- a/src/libzt/zt_uuid.c
+++ b/src/libzt/zt_uuid.c
@@ -230,7 +230,7 @@ _zt_uuid_fillstr(zt_uuid_t* uuid, char* uuids, size_t uuids_size, zt_uuid_flags_
         int      ok2 = 0;
 
         /* extract the 2 64 bit numbers in the uuid */
-        zt_assert(uuids_size <= UUID_BASE62_STR_LEN + 1);
+        zt_assert(uuids_size >= UUID_BASE62_STR_LEN + 1);
 
         for (i = 0; i < 8; i++) {
             const int shift = (7 - i) * 8;
-- 
2.43.0


From ff166a0564d53c25024d7dae840cd1715038d478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:26 +0000
Subject: [PATCH 065/173] fix: ipv4_tbl: tables do not share bucket pools,
 destroying a table releases its networks

---
 src/libzt/zt_ipv4_tbl.c | 93 +++++++++++++++++++++++++++++++++--------
 1 file changed, 75 insertions(+), 18 deletions(-)

diff --git a/src/libzt/zt_ipv4_tbl.c b/src/libzt/zt_ipv4_tbl.c
index 7c37ce5..f0f51e2 100644
--- a/src/libzt/zt_ipv4_tbl.c
+++ b/src/libzt/zt_ipv4_tbl.c
@@ -14,18 +14,80 @@ static uint32_t netmask_tbl[] = {
     0xFFFFFFFC, 0xFFFFFFFE, 0xFFFFFFFF
 };
 
+/*
+ * Nodes and addresses can be created without a table so their pools are shared
+ * by all of the tables, the bucket arrays depend on the size of a table and come
+ * from a pool of its own.
+ */
+#define NODE_POOL "zt_ipv4_node"
+#define ADDR_POOL "zt_ipv4_addr"
+
+static size_t num_tables = 0;
+
+static int
+shared_pool_init(char *name, size_t size)
+{
+    return (zt_mem_pool_get(name) || zt_mem_pool_init(name, 1, size, NULL, NULL, 0)) ? 0 : -1;
+}
+
+static void
+shared_pools_release(void)
+{
+    zt_mem_pool *pool;
+
+    if ((pool = zt_mem_pool_get(NODE_POOL)) != NULL) {
+        zt_mem_pool_destroy(&pool);
+    }
+
+    if ((pool = zt_mem_pool_get(ADDR_POOL)) != NULL) {
+        zt_mem_pool_destroy(&pool);
+    }
+}
+
+static void
+node_list_release(zt_ipv4_node *node)
+{
+    while (node) {
+        zt_ipv4_node *next = node->next;
+
+        zt_mem_pool_release((void **)&node->addr);
+        zt_mem_pool_release((void **)&node);
+        node = next;
+    }
+}
+
 void
 zt_ipv4_tbl_destroy(zt_ipv4_tbl *tbl)
 {
+    uint32_t key;
+    int      i;
+
     if (!tbl) {
         return;
     }
 
+    for (i = 0; i < 32; i++) {
+        if (!tbl->tbl[i]) {
+            continue;
+        }
+
+        for (key = 0; key < tbl->sz; key++) {
+            node_list_release(tbl->tbl[i][key]);
+        }
+        zt_mem_pool_release((void **)&tbl->tbl[i]);
+    }
+
+    node_list_release(tbl->any);
+
     if (tbl->pools) {
         zt_mem_pool_group_destroy(tbl->pools);
     }
 
     free(tbl);
+
+    if (--num_tables == 0) {
+        shared_pools_release();
+    }
 }
 
 zt_ipv4_tbl    *
@@ -33,7 +95,7 @@ zt_ipv4_tbl_init(uint32_t size)
 {
     zt_ipv4_tbl             * tbl;
     uint32_t                  rsize = size ? size : 128;
-    static zt_mem_pool_desc   pools[4];
+    zt_mem_pool_desc          pools[2];
 
     memset(pools, 0, sizeof(pools));
 
@@ -41,22 +103,21 @@ zt_ipv4_tbl_init(uint32_t size)
     pools[0].elts = 1;
     pools[0].size = sizeof(zt_ipv4_node *) * rsize;
 
-    pools[1].name = "zt_ipv4_node";
-    pools[1].elts = 1;
-    pools[1].size = sizeof(zt_ipv4_node);
-
-    pools[2].name = "zt_ipv4_addr";
-    pools[2].elts = 1;
-    pools[2].size = sizeof(zt_ipv4_addr);
-
     if (!(tbl = calloc(sizeof(zt_ipv4_tbl), 1))) {
         return NULL;
     }
 
-    if (!(tbl->pools = zt_mem_pool_group_init(pools, 3))) {
+    if (shared_pool_init(NODE_POOL, sizeof(zt_ipv4_node)) ||
+        shared_pool_init(ADDR_POOL, sizeof(zt_ipv4_addr)) ||
+        !(tbl->pools = zt_mem_pool_group_init(pools, 1))) {
+        if (num_tables == 0) {
+            shared_pools_release();
+        }
+        free(tbl);
         return NULL;
     }
 
+    num_tables++;
     tbl->sz = rsize;
     return tbl;
 }
@@ -74,7 +135,7 @@ zt_ipv4_addr_frm_str(const char *netstr)
         return NULL;
     }
 
-    if (!(pool = zt_mem_pool_get("zt_ipv4_addr"))) {
+    if (!(pool = zt_mem_pool_get(ADDR_POOL))) {
         return NULL;
     }
 
@@ -106,7 +167,7 @@ zt_ipv4_node_str_init(const char *netstr)
         return NULL;
     }
 
-    if (!(pool = zt_mem_pool_get("zt_ipv4_node"))) {
+    if (!(pool = zt_mem_pool_get(NODE_POOL))) {
         return NULL;
     }
 
@@ -128,7 +189,6 @@ int
 zt_ipv4_tbl_add_node(zt_ipv4_tbl * tbl, zt_ipv4_node * node)
 {
     zt_ipv4_node *node_slot;
-    zt_mem_pool  *pool;
     uint32_t      key;
     uint8_t       blen;
     int           is_in;
@@ -142,21 +202,18 @@ zt_ipv4_tbl_add_node(zt_ipv4_tbl * tbl, zt_ipv4_node * node)
         /*
          * this is a 0.0.0.0/0 network, set the any to this node
          */
+        node->next = tbl->any;
         tbl->any = node;
         return 0;
     }
 
-    if (!(pool = zt_mem_pool_get("zt_ipv4_node_hash"))) {
-        return -1;
-    }
-
     is_in = 0;
     blen = node->addr->bitlen - 1;
 
     if (tbl->tbl[blen] == NULL) {
         zt_ipv4_node **hash_entry;
 
-        if (!(hash_entry = zt_mem_pool_alloc(pool))) {
+        if (!(hash_entry = zt_mem_pool_group_alloc(tbl->pools, sizeof(zt_ipv4_node *) * tbl->sz))) {
             return -1;
         }
 
-- 
2.43.0


From c0807b5e5eba649c7e70d2db17ec693e0edc9846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:26 +0000
Subject: [PATCH 066/173] fix: ipv4_tbl: release the temporary address of a
 search and the nodes of failed additions

---
 src/libzt/zt_ipv4_tbl.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_ipv4_tbl.c b/src/libzt/zt_ipv4_tbl.c
index f0f51e2..3d59c8c 100644
--- a/src/libzt/zt_ipv4_tbl.c
+++ b/src/libzt/zt_ipv4_tbl.c
@@ -176,6 +176,7 @@ zt_ipv4_node_str_init(const char *netstr)
     }
 
     if (!(addr = zt_ipv4_addr_frm_str(netstr))) {
+        zt_mem_pool_release((void **)&node);
         return NULL;
     }
 
@@ -286,6 +287,7 @@ zt_ipv4_tbl_add_frm_str(zt_ipv4_tbl * tbl, const char *netstr)
     }
 
     if (zt_ipv4_tbl_add_node(tbl, ipv4_node)) {
+        node_list_release(ipv4_node);
         return NULL;
     }
 
@@ -361,7 +363,7 @@ zt_ipv4_tbl_search_from_str(zt_ipv4_tbl * tbl, const char *netstr)
 
     matched = zt_ipv4_tbl_search_node(tbl, ipv4_node);
 
-    zt_mem_pool_release((void **)&ipv4_node);
+    node_list_release(ipv4_node);
 
     return matched;
 }
-- 
2.43.0


From ffa5b049bc3e97b9d44ef055bf43e3f434d5a301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:26 +0000
Subject: [PATCH 067/173] fix: ipv4_tbl: a table may hold all 32 prefix lengths

---
 src/libzt/zt_ipv4_tbl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_ipv4_tbl.c b/src/libzt/zt_ipv4_tbl.c
index 3d59c8c..9bc038d 100644
--- a/src/libzt/zt_ipv4_tbl.c
+++ b/src/libzt/zt_ipv4_tbl.c
@@ -320,7 +320,7 @@ zt_ipv4_tbl_search_node(zt_ipv4_tbl * tbl, zt_ipv4_node * node)
         return tbl->any;
     }
 
-    while (1) {
+    while (i < 32) {
         uint32_t addr_masked;
         uint32_t key;
 
-- 
2.43.0


From f3bc72577f417f9e92b1deb35f3cc930c042ba19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:26 +0000
Subject: [PATCH 068/173] fix: zt_ipv4_str2net: reject malformed networks, stay
 within the string

---
 src/libzt/zt_ipv4_tbl.c | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/src/libzt/zt_ipv4_tbl.c b/src/libzt/zt_ipv4_tbl.c
index 9bc038d..6f5d238 100644
--- a/src/libzt/zt_ipv4_tbl.c
+++ b/src/libzt/zt_ipv4_tbl.c
@@ -1,3 +1,5 @@
+#include <ctype.h>
+
 #include "zt_internal.h"
 #include "zt_mem.h"
 #include "zt_ipv4_tbl.h"
@@ -394,7 +396,9 @@ zt_ipv4_str2net(const char *str, uint32_t * outaddr, int *outbitlen)
     char *save;
     char *str_cp;
     char *cp;
-    int   bitlen = 32;
+    char *end;
+    long  bitlen = 32;
+    uint32_t addr;
 
     if (!str || !outaddr || !outbitlen) {
         return -1;
@@ -410,26 +414,39 @@ zt_ipv4_str2net(const char *str, uint32_t * outaddr, int *outbitlen)
     }
 
     if ((cp = strchr(str_cp, '/')) != NULL) {
-        bitlen = atoi(cp + 1);
+        bitlen = strtol(cp + 1, &end, 10);
 
-        if ((cp - str_cp) > MAXLINE - 1) {
+        if (!isdigit((unsigned char)cp[1]) || *end != '\0') {
             free(save);
             free(str_cp);
             return -1;
         }
-
-        memcpy(save, str, cp - str_cp);
     } else {
-        bitlen = 32;
-        memcpy(save, str, MAXLINE);
+        cp = str_cp + strlen(str_cp);
+    }
+
+    if ((cp - str_cp) > MAXLINE - 1) {
+        free(save);
+        free(str_cp);
+        return -1;
     }
 
+    memcpy(save, str_cp, cp - str_cp);
+
     if (bitlen > 32) {
         bitlen = 32;
     }
 
-    *outaddr = ntohl(inet_addr(save));
-    *outbitlen = bitlen;
+    /* inet_addr reports errors as the broadcast address */
+    addr = inet_addr(save);
+    if (addr == INADDR_NONE && strcmp(save, "255.255.255.255") != 0) {
+        free(save);
+        free(str_cp);
+        return -1;
+    }
+
+    *outaddr = ntohl(addr);
+    *outbitlen = (int)bitlen;
 
     free(save);
     free(str_cp);
-- 
2.43.0


From a40bdecd7adebaab2976dee7bd8ecef440b6616b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:20 +0000
Subject: [PATCH 069/173] fix: cfg_ini: the last line needs no newline

---
 src/libzt/zt_cfg/cfg_ini.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libzt/zt_cfg/cfg_ini.c b/src/libzt/zt_cfg/cfg_ini.c
index 469a95a..24c323a 100644
--- a/src/libzt/zt_cfg/cfg_ini.c
+++ b/src/libzt/zt_cfg/cfg_ini.c
@@ -119,9 +119,9 @@ static int parse_line(FILE* file, struct cfg_bvv_ty* bvv)
         /* errno = EPROTO; */
         return 0;
     }
-    len = strlen(buff) - 1;
-    if (buff[len] == '\n') {
-        buff[len] = '\0'; /* get rid of that pesky \n */
+    len = strlen(buff);
+    if (buff[len - 1] == '\n') {
+        buff[--len] = '\0'; /* get rid of that pesky \n */
     } else {    /* No \n but maybe we are at the EOF */
         c = fgetc(file);
         ungetc(c, file);
-- 
2.43.0


From ee0861eb514c44a15a5d8b236d8345099d936725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:20 +0000
Subject: [PATCH 070/173] fix: cfg_ini: comment characters within a quoted
 string belong to the string

---
 src/libzt/zt_cfg/cfg_ini.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/libzt/zt_cfg/cfg_ini.c b/src/libzt/zt_cfg/cfg_ini.c
index 24c323a..e7124c0 100644
--- a/src/libzt/zt_cfg/cfg_ini.c
+++ b/src/libzt/zt_cfg/cfg_ini.c
@@ -140,18 +140,22 @@ static int parse_line(FILE* file, struct cfg_bvv_ty* bvv)
     val = val + end;    /* Now val points to the beginning of value - any leading white space */
     vallen = strlen(val);
 
-    for (i = 0; i < vallen; i++) {
-        if ((val[i] == ';') || (val[i] == '#')) {
-            val[i] = '\0';
-            break;
+    if (((*val == '\'') || (*val == '\"')) && ((tok = strchr(val + 1, *val)) != NULL)) {
+        tok[1] = '\0'; /* a quoted string, the rest of the line is ignored */
+    } else {
+        for (i = 0; i < vallen; i++) {
+            if ((val[i] == ';') || (val[i] == '#')) {
+                val[i] = '\0';
+                break;
+            }
         }
     }
 
     vallen = strlen(val);
     /* strip trailing whitespace */
-    for (i = vallen - 1; i > 0; i--) {
-        if ((val[i] == ' ') || (val[i] == '\t')) {
-            val[i] = '\0';
+    for (i = vallen; i > 1; i--) {
+        if ((val[i - 1] == ' ') || (val[i - 1] == '\t')) {
+            val[i - 1] = '\0';
         } else {
             break;
         }
-- 
2.43.0


From 58291825eac7bd7953bbe121c0aca12dd8507178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:21 +0000
Subject: [PATCH 071/173] fix: cfg: only drop a closing quote that is there

---
 src/libzt/zt_cfg/cfg_private.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/libzt/zt_cfg/cfg_private.c b/src/libzt/zt_cfg/cfg_private.c
index adb2e97..7f12368 100644
--- a/src/libzt/zt_cfg/cfg_private.c
+++ b/src/libzt/zt_cfg/cfg_private.c
@@ -153,12 +153,11 @@ get_type(char* value, void* nvalue)
         return zt_cfg_bool;
     }
     if (value[0] == '\'' || value[0] == '\"') {
-        size_t    len = strlen(&value[1]);
+        size_t    len = strlen(value);
 
-        if (value[len] != '\'' || value[len] != '\"') {
-            /* error  */
+        if (len > 1 && value[len - 1] == value[0]) {
+            value[len - 1] = '\0';
         }
-        value[len] = '\0';
         *(char **)nvalue = strdup(&value[1]);
     } else {
         *(char **)nvalue = strdup(value);
-- 
2.43.0


From 725893facc9e65af7500c6004e04e0a6e8fc3c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:21 +0000
Subject: [PATCH 072/173] fix: cfg_ini: an overlong block name is a syntax
 error

---
 src/libzt/zt_cfg/cfg_ini.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_cfg/cfg_ini.c b/src/libzt/zt_cfg/cfg_ini.c
index e7124c0..395e491 100644
--- a/src/libzt/zt_cfg/cfg_ini.c
+++ b/src/libzt/zt_cfg/cfg_ini.c
@@ -193,7 +193,10 @@ static int parse_file(zt_cfg_ty* cfg, FILE* file)
                     free(bvv.block);
                     bvv.block = NULL;
                 }
-                parse_block(file, &bvv);
+                if (parse_block(file, &bvv) < 0) {
+                    zt_log_printf(zt_log_err, "Syntax error in config file at line: %d\n", line);
+                    return -1;
+                }
                 cfg_discard_line(file);
                 break;
             case ';':
-- 
2.43.0


From 21b82a82bfd0d269ad0ba47c6485e0515a544624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:21 +0000
Subject: [PATCH 073/173] fix: cfg_ini: release everything when a file is
 rejected

---
 src/libzt/zt_cfg/cfg_ini.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_cfg/cfg_ini.c b/src/libzt/zt_cfg/cfg_ini.c
index 395e491..35b25a2 100644
--- a/src/libzt/zt_cfg/cfg_ini.c
+++ b/src/libzt/zt_cfg/cfg_ini.c
@@ -44,8 +44,7 @@ zt_cfg_ini(char *file, int opts )
     cfg->filename = strdup(file);
     cfg->opts = opts;
     if (parse_cfg(cfg) < 0) {
-        free(cfg->filename);
-        free(cfg);
+        zt_cfg_close(cfg);
         cfg = NULL;
     }
 
@@ -215,6 +214,7 @@ static int parse_file(zt_cfg_ty* cfg, FILE* file)
                 ungetc(c, file);
                 if (!(parse_line(file, &bvv))) {
                     zt_log_printf(zt_log_err, "Syntax error in config file at line: %d\n", line);
+                    free(bvv.block);
                     return -1;
                 }
                 cfg_insert_bvv(cfg, &bvv);
-- 
2.43.0


From b75615d593098dc8d2437a71bce972c9a07f1e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:21 +0000
Subject: [PATCH 074/173] fix: cfg: references never form a cycle

---
 src/libzt/zt_cfg/cfg_private.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_cfg/cfg_private.c b/src/libzt/zt_cfg/cfg_private.c
index 7f12368..ab6ba81 100644
--- a/src/libzt/zt_cfg/cfg_private.c
+++ b/src/libzt/zt_cfg/cfg_private.c
@@ -192,7 +192,13 @@ cfg_insert_bvv(struct zt_cfg_ty* cfg, struct cfg_bvv_ty* bvv)
             strncpy(block, value->v.s, (variable - value->v.s));
             variable++;    /* move past the '.' */
             if ((b = get_block(cfg->head, block))) {
-                if ((v = get_variable(b->head, variable))) {
+                struct zt_cfg_value_ty* target;
+
+                v = target = get_variable(b->head, variable);
+                while (target && target->type == zt_cfg_ref) {
+                    target = target->v.r;
+                }
+                if (v && target != value) {
                     free(value->v.s);    /* we had to be a string to get here */
                     value->v.r = v;
                     value->type = zt_cfg_ref;
-- 
2.43.0


From 22d0f8249ed3c730188b825b6be15b89123816e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:21 +0000
Subject: [PATCH 075/173] fix: cfg: redefining a string variable releases the
 old value

---
 src/libzt/zt_cfg/cfg_private.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libzt/zt_cfg/cfg_private.c b/src/libzt/zt_cfg/cfg_private.c
index ab6ba81..ea06ba4 100644
--- a/src/libzt/zt_cfg/cfg_private.c
+++ b/src/libzt/zt_cfg/cfg_private.c
@@ -179,6 +179,10 @@ cfg_insert_bvv(struct zt_cfg_ty* cfg, struct cfg_bvv_ty* bvv)
     if (value->v.s != NULL) {
         value->altered = 1;
     }
+    if (value->type == zt_cfg_string) {
+        free(value->v.s);
+        value->v.s = NULL;
+    }
 
     value->type = get_type(bvv->value, &value->v);
 
-- 
2.43.0


From 7be4742805734451a12e4caeb0dcdedf59385b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:21 +0000
Subject: [PATCH 076/173] fix: cfg: integers that do not fit a long are not
 integers

---
 src/libzt/zt_cfg/cfg_private.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_cfg/cfg_private.c b/src/libzt/zt_cfg/cfg_private.c
index ea06ba4..6c86a93 100644
--- a/src/libzt/zt_cfg/cfg_private.c
+++ b/src/libzt/zt_cfg/cfg_private.c
@@ -11,6 +11,8 @@
 #include <libzt/zt_config.h>
 #endif
 
+#include <errno.h>
+
 #ifdef HAVE_STRING_H
 #include <string.h>
 #endif
@@ -132,8 +134,9 @@ get_type(char* value, void* nvalue)
     char * pvalue = value;
 
     /* check for int/long */
+    errno = 0;
     *(long *)nvalue = strtol(pvalue, &endptr, 0);
-    if (((*pvalue != '\0') && (*endptr == '\0'))) {
+    if (errno != ERANGE && ((*pvalue != '\0') && (*endptr == '\0'))) {
         return zt_cfg_int;
     }
 
-- 
2.43.0


From b91b62f9757d3fa78c11f91cfe65a71f1b3bb065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:21 +0000
Subject: [PATCH 077/173] fix: zt_cfg_set: store the value that was given

---
 src/libzt/zt_cfg/cfg_private.c | 56 ++++++++++++++++++++--------------
 1 file changed, 33 insertions(+), 23 deletions(-)

diff --git a/src/libzt/zt_cfg/cfg_private.c b/src/libzt/zt_cfg/cfg_private.c
index 6c86a93..8bda555 100644
--- a/src/libzt/zt_cfg/cfg_private.c
+++ b/src/libzt/zt_cfg/cfg_private.c
@@ -169,15 +169,11 @@ get_type(char* value, void* nvalue)
     return zt_cfg_string;
 }
 
-int
-cfg_insert_bvv(struct zt_cfg_ty* cfg, struct cfg_bvv_ty* bvv)
+/* find or add a variable and drop its current value */
+static struct zt_cfg_value_ty*
+reset_variable(struct zt_cfg_ty* cfg, char* block, char* name)
 {
-    struct zt_cfg_block_ty * block_head = NULL;
-    struct zt_cfg_value_ty * value = NULL;
-    char                   * variable = NULL;
-
-    block_head = add_block(cfg, bvv->block);
-    value = add_variable(block_head, bvv->variable);
+    struct zt_cfg_value_ty * value = add_variable(add_block(cfg, block), name);
 
     if (value->v.s != NULL) {
         value->altered = 1;
@@ -186,6 +182,16 @@ cfg_insert_bvv(struct zt_cfg_ty* cfg, struct cfg_bvv_ty* bvv)
         free(value->v.s);
         value->v.s = NULL;
     }
+    return value;
+}
+
+int
+cfg_insert_bvv(struct zt_cfg_ty* cfg, struct cfg_bvv_ty* bvv)
+{
+    struct zt_cfg_value_ty * value = NULL;
+    char                   * variable = NULL;
+
+    value = reset_variable(cfg, bvv->block, bvv->variable);
 
     value->type = get_type(bvv->value, &value->v);
 
@@ -217,43 +223,47 @@ cfg_insert_bvv(struct zt_cfg_ty* cfg, struct cfg_bvv_ty* bvv)
     return 0;
 }
 
-#define BUFMAX 1024
 int
 zt_cfg_priv_set(zt_cfg_ty *cfg, char *block_name,
                 char *variable_name, void *var, zt_cfg_type type)
 {
-    struct cfg_bvv_ty bvv;
-
-    bvv.block = strdup(block_name);
-    bvv.variable = strdup(variable_name);
-    bvv.value = zt_calloc(char, BUFMAX);
+    struct zt_cfg_value_ty * value;
+    struct cfg_bvv_ty        bvv;
+    char                   * str;
 
     switch (type) {
         case zt_cfg_int:
-            snprintf(bvv.value, BUFMAX, "%ld", *(long *)var);
+            value = reset_variable(cfg, block_name, variable_name);
+            value->type = zt_cfg_int;
+            value->v.i = *(long *)var;
             break;
         case zt_cfg_float:
-            snprintf(bvv.value, BUFMAX, "%f", *(double *)var);
+            value = reset_variable(cfg, block_name, variable_name);
+            value->type = zt_cfg_float;
+            value->v.f = *(double *)var;
             break;
         case zt_cfg_bool:
             if ((*(int *)var == 1) || (*(int *)var == 0)) {
                 zt_log_printf(zt_log_err, "Invalid value for type zt_cfg_bool in zt_cfg_set!  Must be a string of (true|yes|no|false).");
                 return -1;
             }
-        /* FALLTHRU */
+            bvv.block = block_name;
+            bvv.variable = variable_name;
+            bvv.value = strdup(*(char **)var);
+            cfg_insert_bvv(cfg, &bvv);
+            free(bvv.value);
+            break;
         case zt_cfg_string:
-            snprintf(bvv.value, BUFMAX, "%s", *(char **)var);
+            str = strdup(*(char **)var); /* may be the current value */
+            value = reset_variable(cfg, block_name, variable_name);
+            value->type = zt_cfg_string;
+            value->v.s = str;
             break;
         default:
             zt_log_printf(zt_log_err, "Unknown type in cfg variable list");
             return -1;
     }
 
-    cfg_insert_bvv(cfg, &bvv);
-
-    free(bvv.block);
-    free(bvv.variable);
-    free(bvv.value);
     return 1;
 }
 
-- 
2.43.0


From 0dea207e0e76cf8b708d6f20290eb8ab7a0ba4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:16 +0000
Subject: [PATCH 078/173] fix: opts: a missing value is reported, not
 dereferenced

---
 src/libzt/zt_opts.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/libzt/zt_opts.c b/src/libzt/zt_opts.c
index 2967df4..397d99a 100644
--- a/src/libzt/zt_opts.c
+++ b/src/libzt/zt_opts.c
@@ -126,6 +126,7 @@ zt_opt_get_value(int argn, int defn, char ** argv, zt_opt_def_t * def, int *args
     }
 
     if (!result) {
+        *args_consumed = 0;
         error(EINVAL, "while processing arg '%s'", argv[argn]);
     }
 
@@ -145,6 +146,10 @@ zt_opt_intmax(int argn, int defn, int * argc, char ** argv, zt_opt_def_t * def,
     int      args_consumed = 0;
     char   * arg = zt_opt_get_value(argn, defn, argv, def, &args_consumed, error);
 
+    if (!arg) {
+        return 0;
+    }
+
     errno  = 0;
     result = strtoimax(arg, &end, 0);
 
@@ -174,6 +179,10 @@ zt_opt_long(int argn, int defn, int * argc, char ** argv, zt_opt_def_t * def, zt
     int    args_consumed = 0;
     char * arg = zt_opt_get_value(argn, defn, argv, def, &args_consumed, error);
 
+    if (!arg) {
+        return 0;
+    }
+
     errno  = 0;
     result = strtol(arg, &end, 0);
 
@@ -201,6 +210,10 @@ zt_opt_bool_int(int argn, int defn, int * argc, char ** argv, zt_opt_def_t * def
     int    args_consumed = 0;
     char * arg = zt_opt_get_value(argn, defn, argv, def, &args_consumed, error);
 
+    if (!arg) {
+        return 0;
+    }
+
     len = strlen(arg);
 
     if (len == 1) {
-- 
2.43.0


From 7d557cd6fcdaa710fe40844bc96990b9caefaa77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:16 +0000
Subject: [PATCH 079/173] fix: opts: numbers: an empty text is not a number,
 and what is rejected is not stored

---
 src/libzt/zt_opts.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_opts.c b/src/libzt/zt_opts.c
index 397d99a..2325250 100644
--- a/src/libzt/zt_opts.c
+++ b/src/libzt/zt_opts.c
@@ -156,11 +156,13 @@ zt_opt_intmax(int argn, int defn, int * argc, char ** argv, zt_opt_def_t * def,
     if (errno) {
         /* check errno */
         error(errno, "invalid number '%s'", arg);
+        return args_consumed;
     }
 
-    if (end && *end) {
+    if (end == arg || *end) {
         /* invalid character */
         error(EINVAL, "'%s' is not a number", arg);
+        return args_consumed;
     }
 
     if (def[defn].cb_data) {
@@ -189,11 +191,13 @@ zt_opt_long(int argn, int defn, int * argc, char ** argv, zt_opt_def_t * def, zt
     if (errno) {
         /* check errno */
         error(errno, "invalid number '%s'", arg);
+        return args_consumed;
     }
 
-    if (end && *end) {
+    if (end == arg || *end) {
         /* invalid character */
         error(EINVAL, "'%s' is not a number", arg);
+        return args_consumed;
     }
 
     if (def[defn].cb_data) {
-- 
2.43.0


From 41440bcba3286c8faf9fcdde3ac2f702cae8b2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:16 +0000
Subject: [PATCH 080/173] fix: opts: a rejected boolean still consumes its
 argument

---
 src/libzt/zt_opts.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_opts.c b/src/libzt/zt_opts.c
index 2325250..5b1eab0 100644
--- a/src/libzt/zt_opts.c
+++ b/src/libzt/zt_opts.c
@@ -236,7 +236,7 @@ zt_opt_bool_int(int argn, int defn, int * argc, char ** argv, zt_opt_def_t * def
                 break;
             default:
                 error(EINVAL, "'%s' is not a boolean expression", argv[argn]);
-                return 0;
+                return args_consumed;
         }
     } else {
         if (strcasecmp(arg, "true") == 0 ||
@@ -247,7 +247,7 @@ zt_opt_bool_int(int argn, int defn, int * argc, char ** argv, zt_opt_def_t * def
             result = 0;
         } else {
             error(EINVAL, "'%s' is not a boolean expression", argv[argn]);
-            return 0;
+            return args_consumed;
         }
     }
 
-- 
2.43.0


From bb47497cd56178781dd2c90ebddd6a59400021c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:16 +0000
Subject: [PATCH 081/173] fix: opts: the value of a short option starts after
 that option

---
 src/libzt/zt_opts.c | 54 ++++++++++++++++++++-------------------------
 1 file changed, 24 insertions(+), 30 deletions(-)

diff --git a/src/libzt/zt_opts.c b/src/libzt/zt_opts.c
index 5b1eab0..b249067 100644
--- a/src/libzt/zt_opts.c
+++ b/src/libzt/zt_opts.c
@@ -85,44 +85,36 @@ zt_opt_error_default(int code, char * fmt, ...) {
     return ret;
 }
 
+/* set when the value was attached to a short option, the rest of the
+ * argument is then that value and not further options
+ */
+static __thread int _zt_opt_attached = 0;
+
 char *
 zt_opt_get_value(int argn, int defn, char ** argv, zt_opt_def_t * def, int *args_consumed, zt_opt_error error) {
     char * p      = argv[argn];
-    char * pp     = NULL;
     char * result = NULL;
-    char * lopt   = def[defn].lopt;
 
     *args_consumed = 0;
 
-    /* skip past any leading '-' */
-    while(*p == '-') { p++; }
-
-    pp = p;
-    do {
-        if (*pp == '=') {
-            result = ++pp;
-            break;
+    if (p[0] == '-' && p[1] == '-') {
+        /* long opt */
+        if ((result = strchr(p, '=')) != NULL) {
+            result++;
+        }
+    } else {
+        /* short opt, there may be others in front of it */
+        p = p[0] ? strchr(&p[1], def[defn].sopt) : NULL;
+        if (p && p[1]) {
+            result = p[1] == '=' ? &p[2] : &p[1];
+            _zt_opt_attached = 1;
         }
-    } while (*pp++);
+    }
 
     if (!result) {
-        pp = p;
-        /* there was no '=' embedded
-         * try matching the long opt name
-         */
-        if (strcmp(lopt, pp) == 0) {
-            result = argv[argn + 1]; /* default to the next option */
-            *args_consumed = 1;
-        } else {
-            /* short opt */
-            pp++;
-            if(*pp) {
-                result = pp;
-            } else {
-                result = argv[argn + 1];
-                *args_consumed = 1;
-            }
-        }
+        /* default to the next argument */
+        result         = argv[argn + 1];
+        *args_consumed = 1;
     }
 
     if (!result) {
@@ -510,7 +502,8 @@ AGAIN:
                      strncmp(p, args[x].lopt, len) == 0)) {
                     int consumed = 0;
 
-                    found = 1;
+                    found            = 1;
+                    _zt_opt_attached = 0;
                     if ((consumed = args[x].cb(i, x, argc, argv, args, error)) < 0) {
                         /* error */
                         return consumed;
@@ -520,8 +513,9 @@ AGAIN:
                         i += consumed;
                     }
 
-                    if(!consumed && !long_opt && *(++p)) {
+                    if(!consumed && !_zt_opt_attached && !long_opt && *(++p)) {
                         /* if we did not consume extra args AND
+                         * the rest is not the value of this option AND
                          * we are a short option AND
                          * there are more short options to consume
                          */
-- 
2.43.0


From 85b281007d0bd3fe0d9e66d3f4e7aa538df5b047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:16 +0000
Subject: [PATCH 082/173] fix: opts: unknown options behind a known one in a
 cluster are reported

---
 src/libzt/zt_opts.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_opts.c b/src/libzt/zt_opts.c
index b249067..35a0bbe 100644
--- a/src/libzt/zt_opts.c
+++ b/src/libzt/zt_opts.c
@@ -519,6 +519,7 @@ AGAIN:
                          * we are a short option AND
                          * there are more short options to consume
                          */
+                        found = 0;
                         goto AGAIN;
                     }
 
@@ -527,7 +528,7 @@ AGAIN:
             }
 
             if (!found) {
-                error(EINVAL, "'%.*s'", len ? len : 1, p);
+                error(EINVAL, "'%.*s'", len ? (int)len : 1, p);
             }
         } else {
             break;
-- 
2.43.0


From 26cde1dcbb14deca446fa729571016d7de3e2b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:16 +0000
Subject: [PATCH 083/173] fix: opts: help texts with words longer than a line

---
 src/libzt/zt_opts.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_opts.c b/src/libzt/zt_opts.c
index 35a0bbe..1c39e03 100644
--- a/src/libzt/zt_opts.c
+++ b/src/libzt/zt_opts.c
@@ -355,9 +355,14 @@ _zt_opt_help_stdout_printer(zt_opt_def_t * def) {
                     width = sublen;
                 } else {
                     // try to break between words
-                    while(def->help[offt+width] != ' ') {
+                    while(width && def->help[offt+width] && def->help[offt+width] != ' ') {
                         width--;
                     }
+
+                    if (!width) {
+                        // a word longer than the line
+                        width = BASE_WIDTH;
+                    }
                 }
 
                 printf(BLANK "%.*s" NL, INDENT_TO(BASE_INDENT, 5, depth), (int)width, &def->help[offt]);
-- 
2.43.0


From e7e1e7caef28049ddc401d0375638ac426846e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:16 +0000
Subject: [PATCH 084/173] fix: zt_opt_int: define it

---
 src/libzt/zt_opts.c | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/src/libzt/zt_opts.c b/src/libzt/zt_opts.c
index 1c39e03..18b2c83 100644
--- a/src/libzt/zt_opts.c
+++ b/src/libzt/zt_opts.c
@@ -166,6 +166,38 @@ zt_opt_intmax(int argn, int defn, int * argc, char ** argv, zt_opt_def_t * def,
 
 #endif /* HAVE_INTTYPES_H */
 
+int
+zt_opt_int(int argn, int defn, int * argc, char ** argv, zt_opt_def_t * def, zt_opt_error error) {
+    long   result;
+    char * end = NULL;
+    int    args_consumed = 0;
+    char * arg = zt_opt_get_value(argn, defn, argv, def, &args_consumed, error);
+
+    if (!arg) {
+        return 0;
+    }
+
+    errno  = 0;
+    result = strtol(arg, &end, 0);
+
+    if (errno || result < INT_MIN || result > INT_MAX) {
+        error(ERANGE, "invalid number '%s'", arg);
+        return args_consumed;
+    }
+
+    if (end == arg || *end) {
+        /* invalid character */
+        error(EINVAL, "'%s' is not a number", arg);
+        return args_consumed;
+    }
+
+    if (def[defn].cb_data) {
+        *(int *)def[defn].cb_data = (int)result;
+    }
+
+    return args_consumed;
+}
+
 int
 zt_opt_long(int argn, int defn, int * argc, char ** argv, zt_opt_def_t * def, zt_opt_error error) {
     long   result;
-- 
2.43.0


From 8721772413188755b4a7e42681344aa69c121971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:16 +0000
Subject: [PATCH 085/173] fix: zt_opt_verror_str: no user message

---
 src/libzt/zt_opts.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_opts.c b/src/libzt/zt_opts.c
index 18b2c83..1fac051 100644
--- a/src/libzt/zt_opts.c
+++ b/src/libzt/zt_opts.c
@@ -51,7 +51,7 @@ zt_opt_verror_str(int code, char * fmt, va_list ap) {
     if (fmt) {
         len += vasprintf(&user_message, fmt, ap);
     }
-    len += asprintf(&final, "%s: %s\" }", msg, user_message);
+    len += asprintf(&final, "%s: %s\" }", msg, user_message ? user_message : "");
 
     zt_free(user_message);
     zt_free(msg);
-- 
2.43.0


From 229f091a98d37022130e6f1e4bdd69a58e1f0587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:09 +0000
Subject: [PATCH 086/173] fix: log: text of decorations is not part of the
 format

---
 src/libzt/zt_log/log_private.c | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/libzt/zt_log/log_private.c b/src/libzt/zt_log/log_private.c
index 7a56223..633e6db 100644
--- a/src/libzt/zt_log/log_private.c
+++ b/src/libzt/zt_log/log_private.c
@@ -62,6 +62,22 @@ zt_log_new(zt_log_vtbl_ty * vptr, unsigned int opts) {
     return result;
 }
 
+/* append text so that printf will reproduce it as it is
+ * (needs room for up to twice the length of text)
+ */
+static void
+append_literal(char * buff, const char * text) {
+    buff += strlen(buff);
+
+    while (*text) {
+        if (*text == '%') {
+            *buff++ = '%';
+        }
+        *buff++ = *text++;
+    }
+    *buff = '\0';
+}
+
 char*
 zt_log_gen_fmt(zt_log_ty * log, const char * fmt, const char * file, int line, const char * function, zt_log_level level, unsigned int opts) {
     size_t len  = 0;
@@ -91,18 +107,18 @@ zt_log_gen_fmt(zt_log_ty * log, const char * fmt, const char * file, int line, c
         if (t) {
             *t = '\0';
         }
-        len += strlen(sbuf) + 1;    /* sbuf + space */
+        len += strlen(sbuf) * 2 + 1;    /* sbuf + space */
         buff = zt_realloc(char, buff, len);
-        strcat(buff, sbuf);
+        append_literal(buff, sbuf);
         if ((opts > ZT_LOG_WITH_SYSNAME)) {
             strcat(buff, " ");
         }
     }
 
     if (opts & ZT_LOG_WITH_PROGNAME) {
-        len += strlen(zt_progname(NULL, 0)); /* progname */
+        len += strlen(zt_progname(NULL, 0)) * 2; /* progname */
         buff = zt_realloc(char, buff, len);
-        strcat(buff, zt_progname(NULL, 0));
+        append_literal(buff, zt_progname(NULL, 0));
     }
 
     if (opts & ZT_LOG_WITH_PID) {
@@ -138,9 +154,9 @@ zt_log_gen_fmt(zt_log_ty * log, const char * fmt, const char * file, int line, c
         nlen += 10;    /* length of a int to str */
         nbuff = zt_calloc(char, nlen); /* mem_calloc(nlen, sizeof(char)); */
         sprintf(nbuff, ": in %s at (%s:%d)", function, file, line);
-        len  += nlen;
+        len  += nlen * 2;
         buff  = zt_realloc(char, buff, len);
-        strcat(buff, nbuff);
+        append_literal(buff, nbuff);
         zt_free(nbuff);
     }
     strcat(buff, "\n");
-- 
2.43.0


From 9130d2929e67e4351ac78b0c33e31d8ba707bbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:09 +0000
Subject: [PATCH 087/173] fix: log: the date of concurrent messages

---
 src/libzt/zt_log/log_private.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/libzt/zt_log/log_private.c b/src/libzt/zt_log/log_private.c
index 633e6db..b6ca5dd 100644
--- a/src/libzt/zt_log/log_private.c
+++ b/src/libzt/zt_log/log_private.c
@@ -87,10 +87,11 @@ zt_log_gen_fmt(zt_log_ty * log, const char * fmt, const char * file, int line, c
     buff = (char*)zt_calloc(char, len);  /* mem_calloc(len, sizeof(char)); */
 
     if (opts & ZT_LOG_WITH_DATE) {
-        char   sbuf[255];
-        time_t tt = time(NULL);
+        char      sbuf[255];
+        time_t    tt = time(NULL);
+        struct tm tm;
 
-        len += strftime(sbuf, 254, "%b %d %H:%M:%S ", localtime(&tt));
+        len += strftime(sbuf, 254, "%b %d %H:%M:%S ", localtime_r(&tt, &tm));
 
         buff = zt_realloc(char, buff, len);
         sprintf(buff, "%s", sbuf);
-- 
2.43.0


From abaa8f16fc7dc36a34ef4b41d3e3eae8db8c4e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:09 +0000
Subject: [PATCH 088/173] fix: zt_log_lstrerror: use what strerror_r returns

---
 src/libzt/zt_log.c | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/libzt/zt_log.c b/src/libzt/zt_log.c
index b17559b..d1f29e7 100644
--- a/src/libzt/zt_log.c
+++ b/src/libzt/zt_log.c
@@ -267,6 +267,9 @@ zt_log_lstrerror(zt_log_ty * log, zt_log_level level, int errnum, const char * f
     va_list ap;
     size_t llen;
     char    * nfmt;
+    char    * end;
+    char      sbuf[255];
+    const char * str = sbuf;
 
     if (!log && ((log = zt_log_get_logger()) == NULL)) {
         zt_log_set_debug_info(NULL, -1, NULL);
@@ -281,14 +284,26 @@ zt_log_lstrerror(zt_log_ty * log, zt_log_level level, int errnum, const char * f
     llen           = strlen(fmt);
 
 
-    nfmt           = (char*)malloc(llen + 256);
+#if defined(__GLIBC__) && defined(_GNU_SOURCE)
+    str = strerror_r(errnum, sbuf, sizeof(sbuf));
+#else
+    if (strerror_r(errnum, sbuf, sizeof(sbuf)) != 0) {
+      snprintf(sbuf, sizeof(sbuf), "Unknown error %d", errnum);
+    }
+#endif
+
+    nfmt           = (char*)malloc(llen + strlen(str) * 2 + 3);
     memcpy(nfmt, fmt, llen);
     nfmt[llen]     = ':';
     nfmt[llen + 1] = ' ';
 
-    if (strerror_r(errnum, nfmt + (llen + 2), 255 - 2) != 0) {
-      zt_log_lprintf(log, zt_log_crit, "Could not capture error string");
+    for (end = nfmt + llen + 2; *str; str++) {
+        if (*str == '%') {
+            *end++ = '%';
+        }
+        *end++ = *str;
     }
+    *end = '\0';
 
     va_start(ap, fmt);
     zt_log_lvprintf(log, level, nfmt, ap);
-- 
2.43.0


From 5b3373f681d544d4073b74540253f5916c9281dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:09 +0000
Subject: [PATCH 089/173] fix: log: the default logger is published to other
 threads

---
 src/libzt/zt_log.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/libzt/zt_log.c b/src/libzt/zt_log.c
index d1f29e7..27b92bb 100644
--- a/src/libzt/zt_log.c
+++ b/src/libzt/zt_log.c
@@ -89,27 +89,30 @@ zt_log_get_ctx(void) {
 
 static zt_log_ty *
 zt_log_get_logger(void) {
-    if (!log_default_ptr) {
+    zt_log_ty * log = __atomic_load_n(&log_default_ptr, __ATOMIC_ACQUIRE);
+
+    if (!log) {
 #ifdef HAVE_PTHREADS
         pthread_mutex_lock(&log_mutex);
 #endif
         /* second check is just to avoid having to have a mutex lock
          * around the default case of a logger being set
          */
-        if (!log_default_ptr) {
-            if ((log_default_ptr = zt_log_stderr(ZT_LOG_WITH_LEVEL)) == NULL) {
+        if ((log = log_default_ptr) == NULL) {
+            if ((log = zt_log_stderr(ZT_LOG_WITH_LEVEL)) == NULL) {
                 fprintf(stderr, "Could not allocate stderr for logging\n");
                 exit(1);
             }
+            __atomic_store_n(&log_default_ptr, log, __ATOMIC_RELEASE);
             forced = 1;
-            zt_atexit(log_atexit, log_default_ptr);
+            zt_atexit(log_atexit, log);
         }
 #ifdef HAVE_PTHREADS
         pthread_mutex_unlock(&log_mutex);
 #endif
     }
 
-    return log_default_ptr;
+    return log;
 }
 
 static zt_log_ty *
@@ -121,7 +124,7 @@ zt_log_set_logger(zt_log_ty * log) {
 #endif
 
     last = log_default_ptr;
-    log_default_ptr = log;
+    __atomic_store_n(&log_default_ptr, log, __ATOMIC_RELEASE);
 
 #ifdef HAVE_PTHREADS
     pthread_mutex_unlock(&log_mutex);
@@ -141,7 +144,7 @@ zt_log_logger(zt_log_ty * log) {
      */
 
     /* if log is NULL and there is no default get one */
-    if (log == NULL && log_default_ptr == NULL) {
+    if (log == NULL && __atomic_load_n(&log_default_ptr, __ATOMIC_ACQUIRE) == NULL) {
         return zt_log_get_logger();
     }
 
@@ -318,7 +321,7 @@ zt_log_close(zt_log_ty * log) {
         return;
     }
 
-    if (log == log_default_ptr) {
+    if (log == __atomic_load_n(&log_default_ptr, __ATOMIC_ACQUIRE)) {
         zt_log_set_logger(NULL);
     }
 
-- 
2.43.0


From 2d7361ce1d569f4961446c56c142ade287260a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:09 +0000
Subject: [PATCH 090/173] fix: zt_log_file: release the logger when the file
 can not be opened

---
 src/libzt/zt_log/log_file.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libzt/zt_log/log_file.c b/src/libzt/zt_log/log_file.c
index 1882afd..bc35985 100644
--- a/src/libzt/zt_log/log_file.c
+++ b/src/libzt/zt_log/log_file.c
@@ -86,6 +86,7 @@ zt_log_file(char * file, int fopts, int lopts) {
     }
     if (!this->file) {
         fprintf(stderr, "Could not open file %s: %s\n", file, strerror(errno));
+        zt_free(this);
         return NULL;
     }
 
-- 
2.43.0


From 537f28ac35e0c6588b409c1cb9914d284bc8407e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:09 +0000
Subject: [PATCH 091/173] fix: log: level and options may change while other
 threads log

---
 src/libzt/zt_log.c            | 16 +++++++---------
 src/libzt/zt_log/log_file.c   |  2 +-
 src/libzt/zt_log/log_stderr.c |  2 +-
 src/libzt/zt_log/log_syslog.c |  2 +-
 4 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/libzt/zt_log.c b/src/libzt/zt_log.c
index 27b92bb..f0c6242 100644
--- a/src/libzt/zt_log.c
+++ b/src/libzt/zt_log.c
@@ -159,8 +159,7 @@ zt_log_set_level(zt_log_ty * log, zt_log_level level) {
         return 0;
     }
 
-    olevel     = log->level;
-    log->level = level;
+    olevel = __atomic_exchange_n(&log->level, level, __ATOMIC_RELAXED);
     return olevel;
 }
 
@@ -170,7 +169,7 @@ zt_log_get_level(zt_log_ty * log) {
         return 0;
     }
 
-    return log->level;
+    return __atomic_load_n(&log->level, __ATOMIC_RELAXED);
 }
 
 unsigned int
@@ -181,8 +180,7 @@ zt_log_set_opts(zt_log_ty * log, unsigned int opts) {
         return 0;
     }
 
-    oopts     = log->opts;
-    log->opts = opts;
+    oopts = __atomic_exchange_n(&log->opts, opts, __ATOMIC_RELAXED);
     return oopts;
 }
 
@@ -191,7 +189,7 @@ zt_log_get_opts(zt_log_ty * log) {
     if (!log && ((log = zt_log_get_logger()) == NULL)) {
         return 0;
     }
-    return log->opts;
+    return __atomic_load_n(&log->opts, __ATOMIC_RELAXED);
 }
 
 void
@@ -232,7 +230,7 @@ zt_log_lprintf(zt_log_ty * log, zt_log_level level, const char * fmt, ...) {
         return;
     }
 
-    if (level > log->level) {
+    if (level > __atomic_load_n(&log->level, __ATOMIC_RELAXED)) {
         zt_log_set_debug_info(NULL, -1, NULL);
         return;
     }
@@ -247,7 +245,7 @@ zt_log_lvprintf(zt_log_ty * log, zt_log_level level, const char * fmt, va_list a
         goto EXIT;
     }
 
-    if (level > log->level) {
+    if (level > __atomic_load_n(&log->level, __ATOMIC_RELAXED)) {
         goto EXIT;
     }
 
@@ -279,7 +277,7 @@ zt_log_lstrerror(zt_log_ty * log, zt_log_level level, int errnum, const char * f
         return;
     }
 
-    if (level > log->level) {
+    if (level > __atomic_load_n(&log->level, __ATOMIC_RELAXED)) {
         zt_log_set_debug_info(NULL, -1, NULL);
         return;
     }
diff --git a/src/libzt/zt_log/log_file.c b/src/libzt/zt_log/log_file.c
index bc35985..3490a96 100644
--- a/src/libzt/zt_log/log_file.c
+++ b/src/libzt/zt_log/log_file.c
@@ -49,7 +49,7 @@ print(zt_log_ty * log, zt_log_level level, const char * file, int line, const ch
 
     zt_log_file_ty * this = (zt_log_file_ty*)log;
 
-    nfmt = zt_log_gen_fmt(log, fmt, file, line, func, level, log->opts);
+    nfmt = zt_log_gen_fmt(log, fmt, file, line, func, level, __atomic_load_n(&log->opts, __ATOMIC_RELAXED));
 
 #ifdef WITH_THREADS
     pthread_mutex_lock(&log->mutex);
diff --git a/src/libzt/zt_log/log_stderr.c b/src/libzt/zt_log/log_stderr.c
index c72e960..0edba63 100644
--- a/src/libzt/zt_log/log_stderr.c
+++ b/src/libzt/zt_log/log_stderr.c
@@ -29,7 +29,7 @@ destructor(zt_log_ty * log) {
 
 static void
 print(zt_log_ty * log, zt_log_level level, const char * file, int line, const char * function, const char * fmt, va_list ap) {
-    char * nfmt = zt_log_gen_fmt( log, fmt, file, line, function, level, log->opts);
+    char * nfmt = zt_log_gen_fmt( log, fmt, file, line, function, level, __atomic_load_n(&log->opts, __ATOMIC_RELAXED));
 
 #ifdef WITH_THREADS
     pthread_mutex_lock(&log->mutex);
diff --git a/src/libzt/zt_log/log_syslog.c b/src/libzt/zt_log/log_syslog.c
index 324af0c..99c472d 100644
--- a/src/libzt/zt_log/log_syslog.c
+++ b/src/libzt/zt_log/log_syslog.c
@@ -65,7 +65,7 @@ print(zt_log_ty * log, zt_log_level level, const char * file, int line, const ch
 
     /* honor level flag if it is set in the logger opts. for the rest of the
      * zt flags, defer to syslog settings */
-    level_flag = (log->opts & ZT_LOG_WITH_LEVEL) ? ZT_LOG_WITH_LEVEL : 0;
+    level_flag = (__atomic_load_n(&log->opts, __ATOMIC_RELAXED) & ZT_LOG_WITH_LEVEL) ? ZT_LOG_WITH_LEVEL : 0;
     nfmt       = zt_log_gen_fmt(log, fmt, file, line, function, level, level_flag);
     vsyslog(syslog_level, nfmt, ap);
 
-- 
2.43.0


From 19bdaffaeb71852f7999406ad8800c2286b0265a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:11 +0000
Subject: [PATCH 092/173] fix: threadpool: a shutdown wakes every thread

---
 src/libzt/zt_threads.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/libzt/zt_threads.c b/src/libzt/zt_threads.c
index d42f58e..0de1c35 100644
--- a/src/libzt/zt_threads.c
+++ b/src/libzt/zt_threads.c
@@ -517,11 +517,17 @@ zt_threadpool_kill(zt_threadpool *tpool) {
     int k   = 1;
     int ret = 0;
 
-    tpool->kill = 1;
-
     /* signal all threads, and let them die */
-    zt_threads_cond_signal(tpool->iput_cond, 1);
-    zt_threads_cond_signal(tpool->oput_cond, 1);
+    zt_threads_lock(0, tpool->iput_mutex);
+    zt_threads_lock(0, tpool->oput_mutex);
+    {
+        tpool->kill = 1;
+
+        zt_threads_cond_signal(tpool->iput_cond, 1);
+        zt_threads_cond_signal(tpool->oput_cond, 1);
+    }
+    zt_threads_unlock(0, tpool->oput_mutex);
+    zt_threads_unlock(0, tpool->iput_mutex);
 
     for (i = 0; i < tpool->min_threads; i++) {
         if (_zt_threadpool_cbs.iput_loop) {
-- 
2.43.0


From 95ed8c3ead388c6f33fd7e4a4a1b8ded0f8754ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:11 +0000
Subject: [PATCH 093/173] fix: threadpool: output workers outlive the input
 workers

---
 src/libzt/zt_threads.c | 12 +++++++++++-
 src/libzt/zt_threads.h |  3 +++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_threads.c b/src/libzt/zt_threads.c
index 0de1c35..2c91d11 100644
--- a/src/libzt/zt_threads.c
+++ b/src/libzt/zt_threads.c
@@ -280,7 +280,7 @@ _zt_threadpool_oput_loop(void *args) {
         }
 
         if (TAILQ_EMPTY(&tpool->oput_queue)) {
-            if (tpool->kill) {
+            if (tpool->iput_done) {
                 zt_threads_unlock(0, tpool->oput_mutex);
                 zt_threads_end(NULL);
                 return NULL;
@@ -533,7 +533,17 @@ zt_threadpool_kill(zt_threadpool *tpool) {
         if (_zt_threadpool_cbs.iput_loop) {
             zt_threads_join(tpool->iput_threads[i], NULL);
         }
+    }
 
+    /* no more output will be produced */
+    zt_threads_lock(0, tpool->oput_mutex);
+    {
+        tpool->iput_done = 1;
+        zt_threads_cond_signal(tpool->oput_cond, 1);
+    }
+    zt_threads_unlock(0, tpool->oput_mutex);
+
+    for (i = 0; i < tpool->min_threads; i++) {
         if (_zt_threadpool_cbs.oput_loop) {
             zt_threads_join(tpool->oput_threads[i], NULL);
         }
diff --git a/src/libzt/zt_threads.h b/src/libzt/zt_threads.h
index 91b9133..3c7a451 100644
--- a/src/libzt/zt_threads.h
+++ b/src/libzt/zt_threads.h
@@ -94,6 +94,9 @@ struct zt_threadpool {
 
     TAILQ_HEAD(, zt_threadpool_entry) iput_queue;
     TAILQ_HEAD(, zt_threadpool_entry) oput_queue;
+
+    /* the threads that produce output are gone */
+    int iput_done;
 };
 
 extern struct zt_threads_lock_callbacks  _zt_threads_lock_cbs;
-- 
2.43.0


From a2c8f076c09ca92d8ff6d57b8a0823184833cbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:11 +0000
Subject: [PATCH 094/173] fix: threadpool: threads that can not be started

---
 src/libzt/zt_threads.c | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/libzt/zt_threads.c b/src/libzt/zt_threads.c
index 2c91d11..8d1cfb6 100644
--- a/src/libzt/zt_threads.c
+++ b/src/libzt/zt_threads.c
@@ -471,24 +471,33 @@ zt_threadpool_get_oput(zt_threadpool *tpool) {
 int
 zt_threadpool_start(zt_threadpool *tpool) {
     int i;
+    int ret = 0;
 
     if (_zt_threadpool_cbs.iput_loop) {
         for (i = 0; i < tpool->min_threads; i++) {
             tpool->iput_threads[i] = zt_threads_alloc_thread();
-            zt_threads_start(tpool->iput_threads[i], NULL,
-                             _zt_threadpool_cbs.iput_loop, (void*)tpool);
+            if (zt_threads_start(tpool->iput_threads[i], NULL,
+                                 _zt_threadpool_cbs.iput_loop, (void*)tpool)) {
+                free(tpool->iput_threads[i]);
+                tpool->iput_threads[i] = NULL;
+                ret = -1;
+            }
         }
     }
 
     if (_zt_threadpool_cbs.oput_loop) {
         for (i = 0; i < tpool->min_threads; i++) {
             tpool->oput_threads[i] = zt_threads_alloc_thread();
-            zt_threads_start(tpool->oput_threads[i], NULL,
-                             _zt_threadpool_cbs.oput_loop, (void*)tpool);
+            if (zt_threads_start(tpool->oput_threads[i], NULL,
+                                 _zt_threadpool_cbs.oput_loop, (void*)tpool)) {
+                free(tpool->oput_threads[i]);
+                tpool->oput_threads[i] = NULL;
+                ret = -1;
+            }
         }
     }
 
-    return 0;
+    return ret;
 }
 
 int
@@ -530,7 +539,7 @@ zt_threadpool_kill(zt_threadpool *tpool) {
     zt_threads_unlock(0, tpool->iput_mutex);
 
     for (i = 0; i < tpool->min_threads; i++) {
-        if (_zt_threadpool_cbs.iput_loop) {
+        if (tpool->iput_threads[i]) {
             zt_threads_join(tpool->iput_threads[i], NULL);
         }
     }
@@ -544,7 +553,7 @@ zt_threadpool_kill(zt_threadpool *tpool) {
     zt_threads_unlock(0, tpool->oput_mutex);
 
     for (i = 0; i < tpool->min_threads; i++) {
-        if (_zt_threadpool_cbs.oput_loop) {
+        if (tpool->oput_threads && tpool->oput_threads[i]) {
             zt_threads_join(tpool->oput_threads[i], NULL);
         }
     }
-- 
2.43.0


From b6b9c25a001c08763ad5e61627dd573c18266118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:11 +0000
Subject: [PATCH 095/173] fix: zt_threadpool_init: close the pipe that was
 opened

---
 src/libzt/zt_threads.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_threads.c b/src/libzt/zt_threads.c
index 8d1cfb6..0225f17 100644
--- a/src/libzt/zt_threads.c
+++ b/src/libzt/zt_threads.c
@@ -596,8 +596,8 @@ zt_threadpool_init(int min_threads, int max_threads, int pipe_iput, int pipe_opu
     if (pipe_oput) {
         if (pipe(tpool->oput_fd_sigs) < 0) {
             if (pipe_iput) {
-                close(tpool->oput_fd_sigs[0]);
-                close(tpool->oput_fd_sigs[1]);
+                close(tpool->iput_fd_sigs[0]);
+                close(tpool->iput_fd_sigs[1]);
             }
 
             free(tpool);
-- 
2.43.0


From 1d1c052efd243acf4129fb183ac5bb7f22790662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:11 +0000
Subject: [PATCH 096/173] fix: zt_threadpool_set_callbacks: the default has no
 finalizer

---
 src/libzt/zt_threads.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libzt/zt_threads.c b/src/libzt/zt_threads.c
index 0225f17..aeaf80b 100644
--- a/src/libzt/zt_threads.c
+++ b/src/libzt/zt_threads.c
@@ -229,6 +229,7 @@ zt_threadpool_set_callbacks(struct zt_threadpool_callbacks *cbs) {
         _zt_threadpool_cbs.init        = NULL;
         _zt_threadpool_cbs.iput_worker = NULL;
         _zt_threadpool_cbs.oput_worker = NULL;
+        _zt_threadpool_cbs.finalize    = NULL;
 
         return 0;
     }
-- 
2.43.0


From 49a38993be2fb07afa13f8f3b594d99ad0dc130d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:26 +0000
Subject: [PATCH 097/173] fix: zt_mkdir: do not loop forever when the directory
 cannot be created

With zt_mkdir_create_parent set, a final mkdir that keeps failing although
all parents exist (a parent that is not a directory, an empty or overlong
name, no permission, ...) was retried endlessly.
---
 src/libzt/zt_path.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_path.c b/src/libzt/zt_path.c
index 1c54921..173d1ff 100644
--- a/src/libzt/zt_path.c
+++ b/src/libzt/zt_path.c
@@ -19,6 +19,7 @@ zt_mkdir(const char * path, mode_t mode, zt_mkdir_flags flags) {
     ssize_t     offt;
     struct stat sbuf;
     ssize_t     pslen;
+    int         retried = 0;
 
     errno = 0;
 
@@ -29,8 +30,8 @@ AGAIN:
             return 0;
         }
 
-        if (!ZT_BIT_ISSET(flags, zt_mkdir_create_parent)) {
-            /* could not create dir and create parents not set */
+        if (retried || !ZT_BIT_ISSET(flags, zt_mkdir_create_parent)) {
+            /* could not create dir and create parents not set or of no help */
             zt_log_strerror(zt_log_err, errno, "could not create dir: %s", path);
             return -1;
         }
@@ -61,6 +62,7 @@ AGAIN:
             }
         }
 
+        retried = 1;
         goto AGAIN;
     }
 
-- 
2.43.0


From fe37a587f6cd565bb4cd5a38d8e15f568691646c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:26 +0000
Subject: [PATCH 098/173] fix: zt_mkdir: an existing non-directory is not
 success

---
 src/libzt/zt_path.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_path.c b/src/libzt/zt_path.c
index 173d1ff..8428c6e 100644
--- a/src/libzt/zt_path.c
+++ b/src/libzt/zt_path.c
@@ -27,7 +27,11 @@ AGAIN:
     if (mkdir(path, mode) != 0) {
 
         if (errno == EEXIST) {
-            return 0;
+            if (stat(path, &sbuf) == 0 && (sbuf.st_mode & S_IFMT) == S_IFDIR) {
+                return 0;
+            }
+            errno = EEXIST;
+            return -1;
         }
 
         if (retried || !ZT_BIT_ISSET(flags, zt_mkdir_create_parent)) {
-- 
2.43.0


From 2b5c36ce4e72d54046e7fb4538bd16cc8e9e3d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:26 +0000
Subject: [PATCH 099/173] fix: zt_mkdir: tolerate a parent that someone else
 creates first

---
 src/libzt/zt_path.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_path.c b/src/libzt/zt_path.c
index 8428c6e..18316d2 100644
--- a/src/libzt/zt_path.c
+++ b/src/libzt/zt_path.c
@@ -60,7 +60,7 @@ AGAIN:
                 continue;
             }
 
-            if (mkdir(cpath, mode) != 0) {
+            if (mkdir(cpath, mode) != 0 && errno != EEXIST) {
                 /* Cannot proceed, return error */
                 return -1;
             }
-- 
2.43.0


From 3f1ae00656567bc00a1b860157366ee638faf663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:26 +0000
Subject: [PATCH 100/173] fix: zt_mkdir, zt_find_basedir: names longer than
 PATH_MAX overran the buffers

---
 src/libzt/zt_path.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_path.c b/src/libzt/zt_path.c
index 18316d2..ff3c5e3 100644
--- a/src/libzt/zt_path.c
+++ b/src/libzt/zt_path.c
@@ -42,6 +42,10 @@ AGAIN:
 
         pslen = strlen(PATH_SEPERATOR);
         len   = strlen(path);
+        if (len > PATH_MAX) {
+            errno = ENAMETOOLONG;
+            return -1;
+        }
         memset(cpath, 0, sizeof(cpath));
 
         offt  = 0;
@@ -101,7 +105,7 @@ char *zt_find_basedir(const char * path, const char * trigger) {
 
     len = strlen(path);
     memset(lpath, 0, sizeof(lpath));
-    memcpy(lpath, path, MIN(len, sizeof(cpath)));
+    memcpy(lpath, path, MIN(len, sizeof(lpath) - 1));
 
     do {
         memset(cpath, 0, sizeof(cpath));
-- 
2.43.0


From add89b940781ba95ce1eab412f92c18d0dc1faac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:25 +0000
Subject: [PATCH 101/173] fix: zt_progpath: search every element of PATH

The last element was never searched, an empty one (the working directory)
was turned into the whole of PATH, and the offsets were passed to
zt_cstr_catv with the wrong type.
---
 src/libzt/zt_progname.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/libzt/zt_progname.c b/src/libzt/zt_progname.c
index 6416362..e44d878 100644
--- a/src/libzt/zt_progname.c
+++ b/src/libzt/zt_progname.c
@@ -143,14 +143,24 @@ zt_progpath(char *prog) {
             }
 
             len = strlen(path);
-            while(offt < len) {
-                ssize_t   sofft;
+            while(offt <= len) {
+                ssize_t   sofft = -1;
 
-                if ((sofft = zt_cstr_any(path, offt, -1, ENV_SEPERATOR)) < 0) {
-                    break;
+                if (offt < len) {
+                    sofft = zt_cstr_any(path, offt, -1, ENV_SEPERATOR);
                 }
-                offt = (size_t)sofft;
-                tpath = zt_cstr_catv(path, base, offt-1,
+                offt = sofft < 0 ? len : (size_t)sofft;
+
+                if ((size_t)base == offt) {
+                    /* an empty element is the cwd */
+                    if (stat(prog, &sbuf) == 0) {
+                        break;
+                    }
+                    base = ++offt;
+                    continue;
+                }
+
+                tpath = zt_cstr_catv(path, (int)base, (int)offt-1,
                                      PATH_SEPERATOR, 0, -1,
                                      prog, 0, -1, NULL);
 
-- 
2.43.0


From a549f16146fcc98e6b9896ca8b90263e4dd5dfa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:25 +0000
Subject: [PATCH 102/173] fix: zt_progpath: a directory of the program's name
 is not the program

---
 src/libzt/zt_progname.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_progname.c b/src/libzt/zt_progname.c
index e44d878..777f8ad 100644
--- a/src/libzt/zt_progname.c
+++ b/src/libzt/zt_progname.c
@@ -153,7 +153,7 @@ zt_progpath(char *prog) {
 
                 if ((size_t)base == offt) {
                     /* an empty element is the cwd */
-                    if (stat(prog, &sbuf) == 0) {
+                    if (stat(prog, &sbuf) == 0 && (sbuf.st_mode & S_IFMT) != S_IFDIR) {
                         break;
                     }
                     base = ++offt;
@@ -165,7 +165,7 @@ zt_progpath(char *prog) {
                                      prog, 0, -1, NULL);
 
                 errno = 0;
-                if((stat(tpath, &sbuf) == 0)) {
+                if((stat(tpath, &sbuf) == 0) && (sbuf.st_mode & S_IFMT) != S_IFDIR) {
                     zt_cstr_dirname(_progpath, PATH_MAX, tpath);
                     zt_free(tpath);
                     return _progpath;
-- 
2.43.0


From 09a7dbc81757987c956ee77ad26169d18d6206b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:25 +0000
Subject: [PATCH 103/173] fix: zt_progpath: ./prog is in the working directory,
 not somewhere in PATH

---
 src/libzt/zt_progname.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_progname.c b/src/libzt/zt_progname.c
index 777f8ad..90cf77e 100644
--- a/src/libzt/zt_progname.c
+++ b/src/libzt/zt_progname.c
@@ -127,7 +127,8 @@ zt_progpath(char *prog) {
             char        * tpath;
             struct stat   sbuf;
 
-            path = getenv("PATH");
+            /* only a bare name is searched for */
+            path = strstr(prog, PATH_SEPERATOR) ? "" : getenv("PATH");
 
             if (!path) {
                 /* try to use system specific methods to get the path */
-- 
2.43.0


From eb0cc381a8c65e3bb43ff20e92906eb207387e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:25 +0000
Subject: [PATCH 104/173] fix: zt_progpath: clear the old value before storing
 a shorter one

---
 src/libzt/zt_progname.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libzt/zt_progname.c b/src/libzt/zt_progname.c
index 90cf77e..53a188f 100644
--- a/src/libzt/zt_progname.c
+++ b/src/libzt/zt_progname.c
@@ -202,6 +202,7 @@ zt_progpath(char *prog) {
                     }
 
                     tpath = zt_cstr_path_append(cwd, pp);
+                    memset(_progpath, '\0', PATH_MAX);
                     zt_cstr_copy(tpath, 0, -1, _progpath, PATH_MAX);
                     zt_free(tpath);
                 }
-- 
2.43.0


From 7221935b56a8a5a3e8e227eecbb7c5cda51ba8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:50 +0000
Subject: [PATCH 105/173] fix: zt_time: run the function n times, not n + 1

---
 src/libzt/zt_time.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_time.c b/src/libzt/zt_time.c
index ac1c97c..1b8dd21 100644
--- a/src/libzt/zt_time.c
+++ b/src/libzt/zt_time.c
@@ -127,7 +127,7 @@ zt_time(int n, struct time_result *tv, void *(*test)(void *), void *data)
     getrusage(RUSAGE_SELF, &rbefore);
 
     if (test && n) {
-        for (i = 0; i <= n; i++) {
+        for (i = 0; i < n; i++) {
             ret = test(data);
         }
     }
-- 
2.43.0


From 46258904147be4f71d5d10fcb9c84b9b3bf291a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:50 +0000
Subject: [PATCH 106/173] fix: zt_time_calibrate: the measured overhead was
 subtracted from itself

---
 src/libzt/zt_time.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_time.c b/src/libzt/zt_time.c
index 1b8dd21..cf8c4ea 100644
--- a/src/libzt/zt_time.c
+++ b/src/libzt/zt_time.c
@@ -103,7 +103,12 @@ static struct time_result _calibration_time = { { 0, 0 }, { 0, 0 } };
 void
 zt_time_calibrate(void)
 {
-    zt_time(0, &_calibration_time, NULL, NULL);
+    struct time_result none = { { 0, 0 }, { 0, 0 } };
+    struct time_result overhead;
+
+    _calibration_time = none;
+    zt_time(0, &overhead, NULL, NULL);
+    _calibration_time = overhead;
 }
 
 /*!
-- 
2.43.0


From 74d342b98b034f780fba9b32c4d46a045f32ec8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:50 +0000
Subject: [PATCH 107/173] fix: zt_cmp_time: compare without overflowing

---
 src/libzt/zt_time.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/libzt/zt_time.c b/src/libzt/zt_time.c
index cf8c4ea..7bb4800 100644
--- a/src/libzt/zt_time.c
+++ b/src/libzt/zt_time.c
@@ -69,10 +69,8 @@ long
 zt_cmp_time(struct timeval *t1,
             struct timeval *t2)
 {
-    long t = t1->tv_sec - t2->tv_sec;
-
-    if (t) {
-        return t;
+    if (t1->tv_sec != t2->tv_sec) {
+        return t1->tv_sec < t2->tv_sec ? -1 : 1;
     }
     return t1->tv_usec - t2->tv_usec;
 }
-- 
2.43.0


From 806da1c52c9041888dc93590cc01ba0955ec5634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:32 +0000
Subject: [PATCH 108/173] fix: zt_int: dividing two negative numbers was
 refused

---
 src/libzt/zt_int.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_int.h b/src/libzt/zt_int.h
index c098de9..6c7329d 100644
--- a/src/libzt/zt_int.h
+++ b/src/libzt/zt_int.h
@@ -184,7 +184,7 @@ ZT_INT_UNSIGNED_DIV(unsigned long, ulong, ULONG, unsigned long long)
         cvtype _tmp;                                          \
         zt_assert(rhs != 0);                                  \
         if (ZT_INT_IS_SIGNED(lhs) && ZT_INT_IS_SIGNED(rhs)) { \
-            zt_assert(lhs != ZT_CONC(sutype, _MIN) && rhs == -1);\
+            zt_assert(lhs != ZT_CONC(sutype, _MIN) || rhs != -1);\
         }                                                     \
         if (ZT_INT_SAME_SIGN(lhs, rhs)) {                     \
             return lhs / rhs;                                 \
-- 
2.43.0


From 3781e8da86a16d128c75ba7591b435bd946cf850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:32 +0000
Subject: [PATCH 109/173] fix: zt_int: an unsigned difference of zero is
 representable

---
 src/libzt/zt_int.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_int.h b/src/libzt/zt_int.h
index 6c7329d..af1c48e 100644
--- a/src/libzt/zt_int.h
+++ b/src/libzt/zt_int.h
@@ -74,7 +74,7 @@ ZT_INT_SIGNED_ADD(signed long, long, LONG)
     INLINE static ltype UNUSED ZT_CONC3(zt_, sltype, _sub) (ltype lhs, \
                                                   ltype rhs) \
     {                                                        \
-        zt_assert(lhs > rhs);                                \
+        zt_assert(lhs >= rhs);                               \
         return lhs - rhs;                                    \
     }
 
-- 
2.43.0


From 82098d8d2acf0ca1517cd8d749e2516834e9fa69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:32 +0000
Subject: [PATCH 110/173] fix: zt_int: the limits of signed char are SCHAR_MIN
 and SCHAR_MAX

CHAR_MIN and CHAR_MAX are 0 and 255 where plain char is unsigned.
---
 src/libzt/zt_int.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/libzt/zt_int.h b/src/libzt/zt_int.h
index af1c48e..68eb2a8 100644
--- a/src/libzt/zt_int.h
+++ b/src/libzt/zt_int.h
@@ -62,7 +62,7 @@ ZT_INT_UNSIGNED_ADD(unsigned long, ulong, ULONG)
     return lhs + rhs;                                        \
     }
 
-ZT_INT_SIGNED_ADD(signed char, char, CHAR)
+ZT_INT_SIGNED_ADD(signed char, char, SCHAR)
 ZT_INT_SIGNED_ADD(signed short, short, SHORT)
 ZT_INT_SIGNED_ADD(signed int, int, INT)
 ZT_INT_SIGNED_ADD(signed long, long, LONG)
@@ -99,7 +99,7 @@ ZT_INT_UNSIGNED_SUB(unsigned long, ulong, ULONG)
         return (lhs - rhs);                                  \
     }
 
-ZT_INT_SIGNED_SUB(signed char, char, CHAR)
+ZT_INT_SIGNED_SUB(signed char, char, SCHAR)
 ZT_INT_SIGNED_SUB(signed short, short, SHORT)
 ZT_INT_SIGNED_SUB(signed int, int, INT)
 ZT_INT_SIGNED_SUB(signed long, long, LONG)
@@ -145,7 +145,7 @@ ZT_INT_UNSIGNED_MUL(unsigned long, ulong, ULONG, unsigned long long)
     }
 
 
-ZT_INT_SIGNED_MUL(signed char, char, CHAR, signed int)
+ZT_INT_SIGNED_MUL(signed char, char, SCHAR, signed int)
 ZT_INT_SIGNED_MUL(signed short, short, SHORT, signed int)
 
 #ifdef HAVE_LONG_LONG
@@ -194,7 +194,7 @@ ZT_INT_UNSIGNED_DIV(unsigned long, ulong, ULONG, unsigned long long)
         return (ltype)_tmp;                                   \
     }
 
-ZT_INT_SIGNED_DIV(signed char, char, CHAR, signed int)
+ZT_INT_SIGNED_DIV(signed char, char, SCHAR, signed int)
 ZT_INT_SIGNED_DIV(signed short, short, SHORT, signed int)
 
 #ifdef HAVE_LONG_LONG
-- 
2.43.0


From e66464ec95a4656d9e5338206d0854afe920b5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:40 +0000
Subject: [PATCH 111/173] fix: zt_unit_run_by_name: an empty part of the name
 is not found instead of a crash

---
 src/libzt/zt_unit.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_unit.c b/src/libzt/zt_unit.c
index c7a6d02..0dfa419 100644
--- a/src/libzt/zt_unit.c
+++ b/src/libzt/zt_unit.c
@@ -356,7 +356,7 @@ zt_unit_run_by_name(struct zt_unit    * unit,
 
     targetv = str_split(name, ".", &count);
 
-    if (count <= 0 || count > 2) {
+    if (count <= 0 || count > 2 || targetv[0] == NULL || (count == 2 && targetv[1] == NULL)) {
         result = -1;
         goto done;
     }
-- 
2.43.0


From cad4a1e567221b27bc7181715393f8b0c59284c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:40 +0000
Subject: [PATCH 112/173] fix: zt_unit: account for a test run by name like for
 any other

The test and assertion totals (and everything kept by the suite) left out
tests selected as suite.test.
---
 src/libzt/zt_unit.c | 46 +++++++++++++++++++++++----------------------
 1 file changed, 24 insertions(+), 22 deletions(-)

diff --git a/src/libzt/zt_unit.c b/src/libzt/zt_unit.c
index 0dfa419..f2354b6 100644
--- a/src/libzt/zt_unit.c
+++ b/src/libzt/zt_unit.c
@@ -189,6 +189,28 @@ zt_unit_run(struct zt_unit    * unit)
 }
 
 
+static void
+account_test(struct zt_unit *unit, struct zt_unit_suite *suite, struct zt_unit_test *test, int result)
+{
+    unit->tests++;
+
+    if (result != TRUE) {
+        suite->failed += 1;
+        unit->failures += 1;
+    } else {
+        unit->successes += 1;
+        suite->succeeded += 1;
+    }
+    if (test->assertions == 0 && test->exceptions == 0) {
+        suite->empty++;
+        unit->empty++;
+    }
+    suite->assertions += test->assertions;
+    suite->exceptions += test->exceptions;
+    unit->assertions += test->assertions;
+    unit->exceptions += test->exceptions;
+}
+
 int
 zt_unit_run_suite(struct zt_unit    * unit,
                   struct zt_unit_suite     * suite)
@@ -203,25 +225,9 @@ zt_unit_run_suite(struct zt_unit    * unit,
     yaml_dict("Tests", 2);
 
     zt_elist_for_each(&suite->tests, tmp) {
-        unit->tests++;
-
         unit_test = zt_elist_data(tmp, struct zt_unit_test, test);
         result = zt_unit_run_test(unit, suite, unit_test);
-        if (result != TRUE) {
-            suite->failed += 1;
-            unit->failures += 1;
-        } else {
-            unit->successes += 1;
-            suite->succeeded += 1;
-        }
-        if (unit_test->assertions == 0 && unit_test->exceptions == 0) {
-          suite->empty++;
-          unit->empty++;
-        }
-        suite->assertions += unit_test->assertions;
-        suite->exceptions += unit_test->exceptions;
-        unit->assertions += unit_test->assertions;
-        unit->exceptions += unit_test->exceptions;
+        account_test(unit, suite, unit_test, result);
     }
 
     if (suite->failed != 0) {
@@ -398,11 +404,7 @@ zt_unit_run_by_name(struct zt_unit    * unit,
         goto done;
     }
 
-    if (zt_unit_run_test(unit, unit_suite, unit_test) == FALSE) {
-        unit->failures += 1;
-    } else {
-        unit->successes += 1;
-    }
+    account_test(unit, unit_suite, unit_test, zt_unit_run_test(unit, unit_suite, unit_test));
 
 done:
     str_split_free(&targetv);
-- 
2.43.0


From 7eb36bcef92dd3733ef45c70353538e946c4c7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:40 +0000
Subject: [PATCH 113/173] fix: zt_unit_run_test: start every run of a test with
 a clean record

A test run twice reported the assertions of both runs, a stale error and
leaked the first error text.
---
 src/libzt/zt_unit.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_unit.c b/src/libzt/zt_unit.c
index f2354b6..4d2f29e 100644
--- a/src/libzt/zt_unit.c
+++ b/src/libzt/zt_unit.c
@@ -267,7 +267,12 @@ zt_unit_run_test(struct zt_unit         * unit UNUSED,
 {
     zt_assert(test);
 
-    test->success = FALSE;
+    test->success    = FALSE;
+    test->assertions = 0;
+    test->exceptions = 0;
+    if (test->error) {
+        zt_free(test->error);
+    }
 
     yaml_dict(test->name, 4);
 
-- 
2.43.0


From 2f4701acf1e303afa7b9ba884d78e87b2ed3795f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:13 +0000
Subject: [PATCH 114/173] fix: zt_daemonize: an unlimited number of descriptors
 made closing them endless

---
 src/libzt/zt_daemon.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_daemon.c b/src/libzt/zt_daemon.c
index 7c2938b..99a9cfb 100644
--- a/src/libzt/zt_daemon.c
+++ b/src/libzt/zt_daemon.c
@@ -67,7 +67,7 @@ zt_daemonize( char *root, mode_t mask, int options UNUSED)
         for (i = 0; i < rlimits.rlim_cur; i++) {
             if (i > INT_MAX) {
                 /* int cast protection */
-                i = INT_MAX;
+                break;
             }
             close((int)i);
         }                                                  /* Close all of the filehandles */
-- 
2.43.0


From e0713a0f12a5c1f1a9be992fc37f86c79dbafb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:20 +0000
Subject: [PATCH 115/173] fix: the report of a failed assertion needs no memory
 itself

---
 src/libzt/zt_assert.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/libzt/zt_assert.c b/src/libzt/zt_assert.c
index dee843a..7364888 100644
--- a/src/libzt/zt_assert.c
+++ b/src/libzt/zt_assert.c
@@ -24,6 +24,11 @@
 #include "zt_cstr.h"
 #include "zt_assert.h"
 
+/* set while an assertion is being reported; one that fails meanwhile (the
+ * logger needs memory too) is reported without the logger
+ */
+static __thread int reporting = 0;
+
 void
 _zt_log_assertion(const char *s, const char *file, unsigned int line,
                   const char *func)
@@ -34,6 +39,12 @@ _zt_log_assertion(const char *s, const char *file, unsigned int line,
         s = "no assertion given";
     }
 
+    if (reporting) {
+        fprintf(stderr, "Assertion Failed: \"%s\": %s[%u]\n", s, file, line);
+        return;
+    }
+
+    reporting = 1;
     (void)zt_cstr_basename(bname, PATH_MAX, file, NULL);
 
     if (func) {
@@ -41,6 +52,7 @@ _zt_log_assertion(const char *s, const char *file, unsigned int line,
     } else {
         zt_log_printf(zt_log_err, "Assertion Failed: \"%s\": %s[%d]", s, bname, line);
     }
+    reporting = 0;
 }
 
 int
-- 
2.43.0


From 168e98810ca6a3ef0e75c7413f194f212d8db4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:20 +0000
Subject: [PATCH 116/173] fix: log: create the default logger outside of the
 lock that reporting a failure takes

---
 src/libzt/zt_log.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/libzt/zt_log.c b/src/libzt/zt_log.c
index f0c6242..f64e946 100644
--- a/src/libzt/zt_log.c
+++ b/src/libzt/zt_log.c
@@ -92,6 +92,12 @@ zt_log_get_logger(void) {
     zt_log_ty * log = __atomic_load_n(&log_default_ptr, __ATOMIC_ACQUIRE);
 
     if (!log) {
+        zt_log_ty * fresh;
+
+        if ((fresh = zt_log_stderr(ZT_LOG_WITH_LEVEL)) == NULL) {
+            fprintf(stderr, "Could not allocate stderr for logging\n");
+            exit(1);
+        }
 #ifdef HAVE_PTHREADS
         pthread_mutex_lock(&log_mutex);
 #endif
@@ -99,17 +105,18 @@ zt_log_get_logger(void) {
          * around the default case of a logger being set
          */
         if ((log = log_default_ptr) == NULL) {
-            if ((log = zt_log_stderr(ZT_LOG_WITH_LEVEL)) == NULL) {
-                fprintf(stderr, "Could not allocate stderr for logging\n");
-                exit(1);
-            }
+            log = fresh;
             __atomic_store_n(&log_default_ptr, log, __ATOMIC_RELEASE);
             forced = 1;
-            zt_atexit(log_atexit, log);
         }
 #ifdef HAVE_PTHREADS
         pthread_mutex_unlock(&log_mutex);
 #endif
+        if (log == fresh) {
+            zt_atexit(log_atexit, log);
+        } else {
+            zt_log_close(fresh);
+        }
     }
 
     return log;
-- 
2.43.0


From 59798639926306c34a0f6c4deda57c10b04a9f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:20 +0000
Subject: [PATCH 117/173] fix: zt_log_lstrerror: report that there is no memory
 instead of writing to it

---
 src/libzt/zt_log.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_log.c b/src/libzt/zt_log.c
index f64e946..4146534 100644
--- a/src/libzt/zt_log.c
+++ b/src/libzt/zt_log.c
@@ -300,7 +300,7 @@ zt_log_lstrerror(zt_log_ty * log, zt_log_level level, int errnum, const char * f
     }
 #endif
 
-    nfmt           = (char*)malloc(llen + strlen(str) * 2 + 3);
+    nfmt           = zt_malloc(char, llen + strlen(str) * 2 + 3);
     memcpy(nfmt, fmt, llen);
     nfmt[llen]     = ':';
     nfmt[llen + 1] = ' ';
-- 
2.43.0


From 920a1c5f528f0dc16b185a065baf3cab27020b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:20 +0000
Subject: [PATCH 118/173] fix: mem: a pool reports that there is no memory for
 its pages

---
 src/libzt/zt_mem.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/libzt/zt_mem.c b/src/libzt/zt_mem.c
index a34ce26..b53e1bd 100644
--- a/src/libzt/zt_mem.c
+++ b/src/libzt/zt_mem.c
@@ -217,7 +217,10 @@ zt_mem_pool_init(char *name, ssize_t elts,
 
     zt_elist_reset(&pool->pool_list);
 
-    pool->name = zt_mem_strdup(name ? name : "*unknown*");
+    if ((pool->name = zt_mem_strdup(name ? name : "*unknown*")) == NULL) {
+        GLOBAL_zmt.dealloc(pool);
+        return NULL;
+    }
     pool->rcache = elts;
     pool->ncache = pcache * epp;
     pool->pcache = pcache;
@@ -244,7 +247,10 @@ zt_mem_pool_init(char *name, ssize_t elts,
     if (npages > 0) {
         /* fill the cache */
         while (npages--) {
-            page = zt_mem_page_alloc(pool);
+            if ((page = zt_mem_page_alloc(pool)) == NULL) {
+                zt_mem_pool_destroy(&pool);
+                return NULL;
+            }
             zt_elist_add_tail(&pool->page_list, &page->page_list);
             pool->page_allocs++;
         }
@@ -268,8 +274,9 @@ zt_mem_pool_alloc(zt_mem_pool *pool)
     if (zt_elist_empty(&pool->free_elt_list) == 1) {
         /* alloc a new page */
         zt_mem_page *page;
-        page = zt_mem_page_alloc(pool);
-        /*  */
+        if ((page = zt_mem_page_alloc(pool)) == NULL) {
+            return NULL;
+        }
         zt_elist_add_tail(&pool->page_list, &page->page_list);
         pool->page_allocs++;
     }
-- 
2.43.0


From a7384eb9806c1529260d09b5df03350db69fa088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:20 +0000
Subject: [PATCH 119/173] fix: mem: heaps and sets without a name are not
 created

---
 src/libzt/zt_mem.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_mem.c b/src/libzt/zt_mem.c
index b53e1bd..ba0f45f 100644
--- a/src/libzt/zt_mem.c
+++ b/src/libzt/zt_mem.c
@@ -105,7 +105,10 @@ zt_mem_heap_init(char *name, size_t size)
         return NULL;
     }
 
-    heap->name = zt_mem_strdup(name ? name : "*unknown*");
+    if ((heap->name = zt_mem_strdup(name ? name : "*unknown*")) == NULL) {
+        GLOBAL_zmt.dealloc(heap);
+        return NULL;
+    }
     heap->size = size;
     return heap;
 }
@@ -640,7 +643,10 @@ zt_mem_set_init(char *name)
     zt_elist_reset(&set->set_list);
     zt_elist_reset(&set->elt_list);
 
-    set->name = zt_mem_strdup(name ? name : "*unknown*");
+    if ((set->name = zt_mem_strdup(name ? name : "*unknown*")) == NULL) {
+        GLOBAL_zmt.dealloc(set);
+        return NULL;
+    }
 
     return set;
 }
-- 
2.43.0


From 923f2f1265a2ba77520fa2d93ae98f3ec948b982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:20 +0000
Subject: [PATCH 120/173] fix: mem: a pool group that can not be completed
 releases what it has

---
 src/libzt/zt_mem.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/libzt/zt_mem.c b/src/libzt/zt_mem.c
index ba0f45f..33310d4 100644
--- a/src/libzt/zt_mem.c
+++ b/src/libzt/zt_mem.c
@@ -574,9 +574,8 @@ zt_mem_pool_group_init(zt_mem_pool_desc *group, size_t len)
                                             group[i].cb_data,
                                             group[i].flags);
         if (!ngroup->pools[i]) {
-            while (--i) {
-                zt_mem_pool_destroy(&ngroup->pools[i]);
-            }
+            ngroup->npools = i;
+            zt_mem_pool_group_destroy(ngroup);
             return 0;
         }
     }
-- 
2.43.0


From 623100d7d20273e4030d7ac775702551f080b662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:20 +0000
Subject: [PATCH 121/173] fix: table: report that there is no memory for a
 table or an entry

---
 src/libzt/zt_table.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_table.c b/src/libzt/zt_table.c
index 58a0872..62f90db 100644
--- a/src/libzt/zt_table.c
+++ b/src/libzt/zt_table.c
@@ -116,6 +116,10 @@ zt_table_init(char *name, zt_table_hash_func_cb func,
     table->nbits = nbits(nbuckets - 1);
 
     table->table_heap = zt_mem_heap_init(0, nbuckets * sizeof(struct table_node *));
+    if (table->table_heap == NULL) {
+        zt_mem_pool_release((void **)&table);
+        return NULL;
+    }
 
     table->buckets = zt_mem_heap_get_data(table->table_heap);
     memset(table->buckets, 0, nbuckets * sizeof(struct table_node *));
@@ -130,6 +134,12 @@ zt_table_init(char *name, zt_table_hash_func_cb func,
     snprintf(tname, sizeof_array(tname), "%s (table node pool)", name);
     table->node_pool = zt_mem_pool_init(tname, nbuckets,
                                         sizeof(struct table_node), NULL, NULL, 0);
+    if (table->node_pool == NULL) {
+        zt_free(table->name);
+        zt_mem_heap_destroy(&table->table_heap);
+        zt_mem_pool_release((void **)&table);
+        return NULL;
+    }
 
     table->num_buckets = nbuckets;
     table->cmp = cmp;
@@ -197,6 +207,9 @@ zt_table_set(zt_table *h, const void *key, size_t key_len, const void *datum, si
     }
 
     node = (struct table_node *)zt_mem_pool_alloc(h->node_pool);
+    if (node == NULL) {
+        return -1;
+    }
 
     node->next = h->buckets[nkey];
     node->hash_key = skey;
@@ -281,7 +294,9 @@ zt_table_copy(zt_table *t1, zt_table *t2)
         while (node) {
             any = 1;
             /* if(!table_get(t2, node->key)) { */
-            zt_table_set(t2, node->key, node->key_len, node->datum, node->datum_len);
+            if (zt_table_set(t2, node->key, node->key_len, node->datum, node->datum_len) < 0) {
+                return -1;
+            }
             node = node->next;
         }
     }
-- 
2.43.0


From ea87d0c39732ddc97a0f1ff420c69b8623bdc251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:20 +0000
Subject: [PATCH 122/173] fix: set: an element that could not be stored is not
 counted and its loss is reported

---
 src/libzt/zt_set.c | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/libzt/zt_set.c b/src/libzt/zt_set.c
index e7aa677..d9b3d8d 100644
--- a/src/libzt/zt_set.c
+++ b/src/libzt/zt_set.c
@@ -40,6 +40,10 @@ zt_set_init(int (*match)(const void *key1, size_t key1_size,
     set = zt_malloc(zt_set, 1);
 
     set->tbl = zt_table_init(NULL, _hash_for(match), match, 128, 0, cdata);
+    if (set->tbl == NULL) {
+        zt_free(set);
+        return NULL;
+    }
     set->match = match;
     set->destroy = destroy;
     set->length = 0;
@@ -78,8 +82,12 @@ zt_set_insert(zt_set *set, const void *data, size_t len)
         return 1;
     }
 
+    if (zt_table_set(set->tbl, (void *)data, len, (void *)data, len) < 0) {
+        return -1;
+    }
+
     set->length++;
-    return zt_table_set(set->tbl, (void *)data, len, (void *)data, len);
+    return 0;
 }
 
 int zt_set_remove(zt_set *set, void **data)
@@ -102,8 +110,7 @@ static int _union(void *key UNUSED, size_t key_len, void *datum, size_t datum_le
 
     /* a non-zero return stops the iteration; an element that is already
      * present is no reason to stop */
-    zt_set_insert(p->s2, datum, datum_len);
-    return 0;
+    return zt_set_insert(p->s2, datum, datum_len) < 0 ? -1 : 0;
 }
 
 int zt_set_union(zt_set *setu, const zt_set *set1, const zt_set *set2)
@@ -112,10 +119,11 @@ int zt_set_union(zt_set *setu, const zt_set *set1, const zt_set *set2)
 
     s.s2 = setu;
 
-    zt_table_for_each(set1->tbl, _union, &s);
-    zt_table_for_each(set2->tbl, _union, &s);
+    if (zt_table_for_each(set1->tbl, _union, &s) < 0) {
+        return -1;
+    }
 
-    return 0;
+    return zt_table_for_each(set2->tbl, _union, &s);
 }
 
 static int _intersect(void *key UNUSED, size_t key_len, void *datum, size_t datum_len, void *param)
@@ -125,7 +133,7 @@ static int _intersect(void *key UNUSED, size_t key_len, void *datum, size_t datu
     p = (struct _set_pair *)param;
 
     if (zt_set_is_member(p->s1, datum, datum_len)) {
-        zt_set_insert(p->s2, datum, datum_len);
+        return zt_set_insert(p->s2, datum, datum_len) < 0 ? -1 : 0;
     }
     return 0;
 }
@@ -147,7 +155,7 @@ static int _difference(void *key UNUSED, size_t key_len, void *datum, size_t dat
     p = (struct _set_pair *)param;
 
     if (!zt_set_is_member(p->s1, datum, datum_len)) {
-        zt_set_insert(p->s2, datum, datum_len);
+        return zt_set_insert(p->s2, datum, datum_len) < 0 ? -1 : 0;
     }
     return 0;
 }
-- 
2.43.0


From 19b81d0e79c0a1cdca4df18eb9d93bd3e8858ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:06 +0000
Subject: [PATCH 123/173] fix: threadpool: no memory for an entry, a pool, its
 locks or its threads

---
 src/libzt/zt_threads.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/libzt/zt_threads.c b/src/libzt/zt_threads.c
index aeaf80b..8ddde04 100644
--- a/src/libzt/zt_threads.c
+++ b/src/libzt/zt_threads.c
@@ -397,7 +397,7 @@ zt_threadpool_insert_iput(zt_threadpool *tpool, void *data) {
     int                  i   = 0;
     int                  ret = 0;
 
-    entry       = calloc(sizeof(zt_threadpool_entry), 1);
+    entry       = zt_calloc(zt_threadpool_entry, 1);
     entry->data = data;
 
     zt_threads_lock(0, tpool->iput_mutex);
@@ -422,7 +422,7 @@ zt_threadpool_insert_oput(zt_threadpool *tpool, void *data) {
     int                  i   = 0;
     int                  ret = 0;
 
-    entry       = calloc(sizeof(zt_threadpool_entry), 1);
+    entry       = zt_calloc(zt_threadpool_entry, 1);
     entry->data = data;
 
     zt_threads_lock(0, tpool->oput_mutex);
@@ -477,7 +477,8 @@ zt_threadpool_start(zt_threadpool *tpool) {
     if (_zt_threadpool_cbs.iput_loop) {
         for (i = 0; i < tpool->min_threads; i++) {
             tpool->iput_threads[i] = zt_threads_alloc_thread();
-            if (zt_threads_start(tpool->iput_threads[i], NULL,
+            if (tpool->iput_threads[i] == NULL ||
+                zt_threads_start(tpool->iput_threads[i], NULL,
                                  _zt_threadpool_cbs.iput_loop, (void*)tpool)) {
                 free(tpool->iput_threads[i]);
                 tpool->iput_threads[i] = NULL;
@@ -489,7 +490,8 @@ zt_threadpool_start(zt_threadpool *tpool) {
     if (_zt_threadpool_cbs.oput_loop) {
         for (i = 0; i < tpool->min_threads; i++) {
             tpool->oput_threads[i] = zt_threads_alloc_thread();
-            if (zt_threads_start(tpool->oput_threads[i], NULL,
+            if (tpool->oput_threads[i] == NULL ||
+                zt_threads_start(tpool->oput_threads[i], NULL,
                                  _zt_threadpool_cbs.oput_loop, (void*)tpool)) {
                 free(tpool->oput_threads[i]);
                 tpool->oput_threads[i] = NULL;
@@ -579,7 +581,7 @@ zt_threadpool_init(int min_threads, int max_threads, int pipe_iput, int pipe_opu
     zt_threadpool *tpool;
 
 
-    tpool               = calloc(sizeof(zt_threadpool), 1);
+    tpool               = zt_calloc(zt_threadpool, 1);
     tpool->min_threads  = min_threads;
     tpool->max_threads  = max_threads;
     tpool->thread_count = min_threads;
@@ -609,16 +611,20 @@ zt_threadpool_init(int min_threads, int max_threads, int pipe_iput, int pipe_opu
         tpool->oput_fd_sigs[1] = -1;
     }
 
-    tpool->iput_threads = calloc(sizeof(zt_threads_thread *), min_threads);
+    tpool->iput_threads = zt_calloc(zt_threads_thread *, min_threads);
     tpool->iput_mutex   = zt_threads_alloc_lock(0);
     tpool->oput_mutex   = zt_threads_alloc_lock(0);
     tpool->iput_cond    = zt_threads_cond_alloc(0);
     tpool->oput_cond    = zt_threads_cond_alloc(0);
 
     if (_zt_threadpool_cbs.oput_loop) {
-        tpool->oput_threads = calloc(sizeof(zt_threads_thread *), min_threads);
+        tpool->oput_threads = zt_calloc(zt_threads_thread *, min_threads);
     }
 
+    /* without callbacks there are no locks and none are needed */
+    zt_assert_always(!_zt_threads_lock_cbs.alloc || (tpool->iput_mutex && tpool->oput_mutex));
+    zt_assert_always(!_zt_threads_cond_cbs.alloc || (tpool->iput_cond && tpool->oput_cond));
+
     TAILQ_INIT(&tpool->iput_queue);
     TAILQ_INIT(&tpool->oput_queue);
 
-- 
2.43.0


From b85b40e7af7592abc8ba74cbf91ff6eeb2b0bbce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:06 +0000
Subject: [PATCH 124/173] fix: zt_cstr_split, zt_cstr_cut, zt_cstr_tok: no
 memory for a part

---
 src/libzt/zt_cstr.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index af80162..26850f4 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -936,10 +936,10 @@ zt_cstr_split(const char *str, const char *delim) {
 
     endptr      = NULL;
 
-    str_copy    = strdup(str);
+    str_copy    = zt_strdup(str);
 
     for (tok = strtok_r(str_copy, delim, &endptr); tok != NULL; tok = strtok_r(NULL, delim, &endptr)) {
-        if (zt_ptr_array_add(split_array, (void *)strdup(tok)) < 0) {
+        if (zt_ptr_array_add(split_array, (void *)zt_strdup(tok)) < 0) {
             zt_ptr_array_free(split_array, 1);
             free(str_copy);
             return NULL;
@@ -961,7 +961,7 @@ zt_cstr_cut(const char *str, const int delim, int keep_delim) {
         return NULL;
     }
 
-    cut_tok    = str_copy = strdup(str);
+    cut_tok    = str_copy = zt_strdup(str);
     keep_delim = keep_delim ? 1 : 0;
 
     while ((cut_tok = strchr(cut_tok, delim))) {
@@ -971,7 +971,7 @@ zt_cstr_cut(const char *str, const int delim, int keep_delim) {
             break;
         }
 
-        if (zt_ptr_array_add(cuts, (void *)strdup((char *)(cut_tok - keep_delim))) < 0) {
+        if (zt_ptr_array_add(cuts, (void *)zt_strdup((char *)(cut_tok - keep_delim))) < 0) {
             zt_ptr_array_free(cuts, 1);
             free(str_copy);
             return NULL;
@@ -993,7 +993,7 @@ zt_cstr_tok(const char *str, const int delim, int keep_delim UNUSED)
         return NULL;
     }
 
-    str_copy = strdup(str);
+    str_copy = zt_strdup(str);
 
     if (*str != '\0' && str[strlen(str) - 1] == delim) {
         str_copy[ strlen(str) - 1 ] = '\0';
@@ -1005,7 +1005,7 @@ zt_cstr_tok(const char *str, const int delim, int keep_delim UNUSED)
             break;
         }
 
-        if (zt_ptr_array_add(cuts, (void *)strdup(str_copy)) < 0) {
+        if (zt_ptr_array_add(cuts, (void *)zt_strdup(str_copy)) < 0) {
             zt_ptr_array_free(cuts, 1);
             free(str_copy);
             return NULL;
@@ -1014,7 +1014,7 @@ zt_cstr_tok(const char *str, const int delim, int keep_delim UNUSED)
         *cut_tok = '\0';
     }
 
-    zt_ptr_array_add(cuts, (void *)strdup(str_copy));
+    zt_ptr_array_add(cuts, (void *)zt_strdup(str_copy));
     free(str_copy);
 
     return cuts;
-- 
2.43.0


From 145af1e6d453450f7ce0e970330b032e5f5a9efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:06 +0000
Subject: [PATCH 125/173] fix: opts: no memory for a value or an error text

---
 src/libzt/zt_opts.c | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/libzt/zt_opts.c b/src/libzt/zt_opts.c
index 1fac051..f5b4f1b 100644
--- a/src/libzt/zt_opts.c
+++ b/src/libzt/zt_opts.c
@@ -45,13 +45,18 @@ zt_opt_verror_str(int code, char * fmt, va_list ap) {
     char * msg          = NULL;
     char * user_message = NULL;
     char * final        = NULL;
-    int    len          = 0;
 
-    len = asprintf(&msg, "error: { code: %d, string: \"%s", code, code ? strerror(code) : "");
-    if (fmt) {
-        len += vasprintf(&user_message, fmt, ap);
+    /* what they are set to by a failure is undefined */
+    if (asprintf(&msg, "error: { code: %d, string: \"%s", code, code ? strerror(code) : "") < 0) {
+        msg = NULL;
+    }
+    if (fmt && vasprintf(&user_message, fmt, ap) < 0) {
+        user_message = NULL;
+    }
+    if (!msg || (fmt && !user_message) ||
+        asprintf(&final, "%s: %s\" }", msg, user_message ? user_message : "") < 0) {
+        final = NULL;
     }
-    len += asprintf(&final, "%s: %s\" }", msg, user_message ? user_message : "");
 
     zt_free(user_message);
     zt_free(msg);
@@ -68,7 +73,7 @@ zt_opt_verror_default(int code, char * fmt, va_list ap) {
     }
 
     msg = zt_opt_verror_str(code, fmt, ap);
-    fprintf(stderr, "%s\n", msg);
+    fprintf(stderr, "%s\n", msg ? msg : "error: no memory to describe it");
     zt_free(msg);
     return code;
 }
@@ -297,7 +302,7 @@ zt_opt_string(int argn, int defn, int * argc, char ** argv, zt_opt_def_t * def,
     char * arg = zt_opt_get_value(argn, defn, argv, def, &args_consumed, error);
 
     if (arg) {
-        *(char **)def[defn].cb_data = (void *)strdup(arg);
+        *(char **)def[defn].cb_data = (void *)zt_strdup(arg);
     }
 
     return args_consumed;
@@ -328,7 +333,7 @@ zt_opt_string_array(int argn, int defn, int * argc, char ** argv, zt_opt_def_t *
             exit(1);
         }
 
-        new_array[offt]             = strdup(arg);
+        new_array[offt]             = zt_strdup(arg);
         new_array[offt + 1]         = NULL;
 
         *(char***)def[defn].cb_data = new_array;
-- 
2.43.0


From 663684894e644a2f7e045fc27c9cb746a37d3e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:06 +0000
Subject: [PATCH 126/173] fix: cfg: no memory for a name or a value

---
 src/libzt/zt_cfg/cfg_private.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/libzt/zt_cfg/cfg_private.c b/src/libzt/zt_cfg/cfg_private.c
index 8bda555..cdb2831 100644
--- a/src/libzt/zt_cfg/cfg_private.c
+++ b/src/libzt/zt_cfg/cfg_private.c
@@ -89,7 +89,7 @@ add_block(struct zt_cfg_ty* cfg, char* name)
     }
     if (!new) {
         new = zt_calloc(struct zt_cfg_block_ty, 1);
-        new->name = strdup(name);
+        new->name = zt_strdup(name);
         new->next = cfg->head;
         cfg->head = new;
     }
@@ -120,7 +120,7 @@ add_variable(struct zt_cfg_block_ty* block, char *name)
     }
     if (!new) {
         new = zt_calloc(struct zt_cfg_value_ty, 1);
-        new->name = strdup(name);
+        new->name = zt_strdup(name);
         new->next = block->head;
         block->head = new;
     }
@@ -161,9 +161,9 @@ get_type(char* value, void* nvalue)
         if (len > 1 && value[len - 1] == value[0]) {
             value[len - 1] = '\0';
         }
-        *(char **)nvalue = strdup(&value[1]);
+        *(char **)nvalue = zt_strdup(&value[1]);
     } else {
-        *(char **)nvalue = strdup(value);
+        *(char **)nvalue = zt_strdup(value);
     }
 
     return zt_cfg_string;
@@ -249,12 +249,12 @@ zt_cfg_priv_set(zt_cfg_ty *cfg, char *block_name,
             }
             bvv.block = block_name;
             bvv.variable = variable_name;
-            bvv.value = strdup(*(char **)var);
+            bvv.value = zt_strdup(*(char **)var);
             cfg_insert_bvv(cfg, &bvv);
             free(bvv.value);
             break;
         case zt_cfg_string:
-            str = strdup(*(char **)var); /* may be the current value */
+            str = zt_strdup(*(char **)var); /* may be the current value */
             value = reset_variable(cfg, block_name, variable_name);
             value->type = zt_cfg_string;
             value->v.s = str;
-- 
2.43.0


From c88161d2690a10791a9addcfc73dd93b4a935660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:06 +0000
Subject: [PATCH 127/173] fix: cfg_ini: no memory for a name or a value

---
 src/libzt/zt_cfg/cfg_ini.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/libzt/zt_cfg/cfg_ini.c b/src/libzt/zt_cfg/cfg_ini.c
index 35b25a2..77b4b68 100644
--- a/src/libzt/zt_cfg/cfg_ini.c
+++ b/src/libzt/zt_cfg/cfg_ini.c
@@ -41,7 +41,7 @@ zt_cfg_ini(char *file, int opts )
 {
     zt_cfg_ty *cfg = zt_cfg_new(&vtbl);
 
-    cfg->filename = strdup(file);
+    cfg->filename = zt_strdup(file);
     cfg->opts = opts;
     if (parse_cfg(cfg) < 0) {
         zt_cfg_close(cfg);
@@ -164,8 +164,8 @@ static int parse_line(FILE* file, struct cfg_bvv_ty* bvv)
         /* errno = EPROTO; */
         return 0;
     }
-    bvv->variable = strdup(var);
-    bvv->value = strdup(val);
+    bvv->variable = zt_strdup(var);
+    bvv->value = zt_strdup(val);
     return 1;
 } /* parse_line */
 
@@ -180,7 +180,7 @@ static int parse_file(zt_cfg_ty* cfg, FILE* file)
     zt_assert(cfg);
     memset(&bvv, '\0', sizeof(struct cfg_bvv_ty));
     sprintf(block, "Global");    /* default blockname */
-    bvv.block = strdup(block);
+    bvv.block = zt_strdup(block);
 
     while ((c = fgetc(file)) != EOF) {
         switch (c) {
-- 
2.43.0


From 8ddf8bcc272b60994a05d097d827368156aca886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:06 +0000
Subject: [PATCH 128/173] fix: zt_unit_printf: no memory for the text

---
 src/libzt/zt_unit.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libzt/zt_unit.c b/src/libzt/zt_unit.c
index 4d2f29e..be6500b 100644
--- a/src/libzt/zt_unit.c
+++ b/src/libzt/zt_unit.c
@@ -24,6 +24,9 @@ int zt_unit_printf(char **strp, const char *fmt, ...) {
     va_start(ap, fmt);
     result = vasprintf(strp, fmt, ap);
     va_end(ap);
+    if (result < 0) {
+        *strp = NULL; /* what it is set to by a failure is undefined */
+    }
     return result;
 }
 
-- 
2.43.0


From b9f64da641b828df6c1bb59f1a1f23c974d5ae47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:19 +0000
Subject: [PATCH 129/173] fix: zt_gc_destroy: no iterator shared by every
 collector

---
 src/libzt/zt_gc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_gc.c b/src/libzt/zt_gc.c
index 138c590..407feba 100644
--- a/src/libzt/zt_gc.c
+++ b/src/libzt/zt_gc.c
@@ -206,7 +206,7 @@ zt_gc_init(void *private_data,
 void
 zt_gc_destroy(zt_gc_t *gc)
 {
-    static zt_elist_t * elt;
+    zt_elist_t * elt;
     zt_elist_t * dont_use;
 
     if (gc->enabled != 0) {
-- 
2.43.0


From e990cd1cc7b2ad7d344024c8dbe134151c291d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:19 +0000
Subject: [PATCH 130/173] fix: zt_atexit: functions can be registered from
 several threads

---
 src/libzt/zt_atexit.c | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/libzt/zt_atexit.c b/src/libzt/zt_atexit.c
index a8f0d89..3db192d 100644
--- a/src/libzt/zt_atexit.c
+++ b/src/libzt/zt_atexit.c
@@ -18,6 +18,10 @@
 # include <stdlib.h>
 #endif
 
+#ifdef HAVE_PTHREADS
+# include <pthread.h>
+#endif
+
 #include "zt.h"
 #include "zt_internal.h"
 
@@ -28,22 +32,34 @@ struct zt_atexit_cb {
     void        * data;
 };
 
-/* FIXME: global needs thread safety */
 static zt_stack(cb_stack);
 
+#ifdef HAVE_PTHREADS
+static pthread_mutex_t cb_mutex = PTHREAD_MUTEX_INITIALIZER;
+# define CB_LOCK()   (void)pthread_mutex_lock(&cb_mutex)
+# define CB_UNLOCK() (void)pthread_mutex_unlock(&cb_mutex)
+#else
+# define CB_LOCK()
+# define CB_UNLOCK()
+#endif
+
 static void
 _atexit_call(void) {
     zt_stack_t          * se;
     struct zt_atexit_cb * cb;
 
+    CB_LOCK();
     while(!zt_stack_empty(&cb_stack)) {
         se = zt_stack_pop(&cb_stack);
+        CB_UNLOCK();
         cb = zt_stack_data(se, struct zt_atexit_cb, member);
         if(cb && cb->fn) {
             cb->fn(cb->data);
             zt_free(cb);
         }
+        CB_LOCK();
     }
+    CB_UNLOCK();
 }
 
 void
@@ -54,12 +70,14 @@ zt_atexit(void (*fn)(void * data), void * data) {
 
     cb = zt_calloc(struct zt_atexit_cb, 1);
 
+    cb->fn = fn;
+    cb->data = data;
+
+    CB_LOCK();
     if(zt_stack_empty(&cb_stack)) {
         atexit(_atexit_call);
     }
 
-    cb->fn = fn;
-    cb->data = data;
-
     zt_stack_push(&cb_stack, &cb->member);
+    CB_UNLOCK();
 }
-- 
2.43.0


From 51c0cdc881c69dc98758234358687a65d7618ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:19 +0000
Subject: [PATCH 131/173] fix: zt_mem: pools can be made, found and destroyed
 from several threads

---
 src/libzt/zt_mem.c | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/libzt/zt_mem.c b/src/libzt/zt_mem.c
index 33310d4..75adfbe 100644
--- a/src/libzt/zt_mem.c
+++ b/src/libzt/zt_mem.c
@@ -1,6 +1,9 @@
 #include <stdlib.h>
 #include <string.h>
 #include <stdio.h>
+#ifdef HAVE_PTHREADS
+# include <pthread.h>
+#endif
 
 #include "zt.h"
 #include "zt_internal.h"
@@ -22,6 +25,16 @@ static zt_elist(pools);
 static zt_elist(sets);
 static int mem_atexit = 0;
 
+/* the list of pools is shared, the pools themselves are not locked */
+#ifdef HAVE_PTHREADS
+static pthread_mutex_t pools_mutex = PTHREAD_MUTEX_INITIALIZER;
+# define POOLS_LOCK()   (void)pthread_mutex_lock(&pools_mutex)
+# define POOLS_UNLOCK() (void)pthread_mutex_unlock(&pools_mutex)
+#else
+# define POOLS_LOCK()
+# define POOLS_UNLOCK()
+#endif
+
 /* static long x_sys_page_size = 0; */
 typedef struct zt_mem_elt zt_mem_elt;
 struct zt_mem_elt {
@@ -146,13 +159,9 @@ zt_mem_heap_get_name(zt_mem_heap *heap)
 static int
 x_calculate_page_data(ssize_t elts, size_t size, size_t *page_size, size_t *epp, size_t *npages)
 {
-    static size_t sys_page_size = 0;
+    size_t        sys_page_size = sysconf(_SC_PAGESIZE);
     size_t        usable_page_size = 0;
 
-    if (sys_page_size == 0) {
-        sys_page_size = sysconf(_SC_PAGESIZE);
-    }
-
     usable_page_size = sys_page_size - sizeof(zt_mem_page);
 
     /* This algorithm is pretty stupid it mearly tries to
@@ -194,10 +203,12 @@ zt_mem_pool_init(char *name, ssize_t elts,
 
     x_calculate_page_data(elts ? elts : 1, size, &npage_size, &epp, &npages);
 
+    POOLS_LOCK();
     if (!mem_atexit) {
         zt_atexit(zt_mem_release, NULL);
         mem_atexit = 1;
     }
+    POOLS_UNLOCK();
 
     if (elts > 0) {
         if (elts < (ssize_t)epp) {
@@ -259,7 +270,9 @@ zt_mem_pool_init(char *name, ssize_t elts,
         }
     }
 
+    POOLS_LOCK();
     zt_elist_add_tail(&pools, &pool->pool_list);
+    POOLS_UNLOCK();
     return pool;
 } /* zt_mem_pool_init */
 
@@ -374,7 +387,9 @@ zt_mem_pool_destroy(zt_mem_pool **pool)
         }
     }
 
+    POOLS_LOCK();
     zt_elist_remove(&(*pool)->pool_list);
+    POOLS_UNLOCK();
 
     GLOBAL_zmt.dealloc((*pool)->name);
     (*pool)->name = NULL;
@@ -535,6 +550,7 @@ zt_mem_pool_get(char *name)
 
     nlen = strlen(name);
 
+    POOLS_LOCK();
     zt_elist_for_each(&pools, tmp) {
         zt_mem_pool * pool;
         size_t        olen;
@@ -543,9 +559,11 @@ zt_mem_pool_get(char *name)
         olen = strlen(pool->name);
 
         if (olen == nlen && (strncmp(name, pool->name, nlen) == 0)) {
+            POOLS_UNLOCK();
             return pool;
         }
     }
+    POOLS_UNLOCK();
 
     return 0;
 }
-- 
2.43.0


From 93441338be2e2f076929be604c308a15767fdd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:19 +0000
Subject: [PATCH 132/173] fix: zt_table: tables can be made and destroyed from
 several threads

---
 src/libzt/zt_table.c | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/src/libzt/zt_table.c b/src/libzt/zt_table.c
index 62f90db..ba74562 100644
--- a/src/libzt/zt_table.c
+++ b/src/libzt/zt_table.c
@@ -7,6 +7,9 @@
  * $Id$
  */
 #include <errno.h>
+#ifdef HAVE_PTHREADS
+# include <pthread.h>
+#endif
 #include "zt.h"
 #include "zt_internal.h"
 
@@ -60,6 +63,24 @@ struct zt_table {
 
 #define ZT_DEFAULT_TABLE_POOL "zt.table.pool"
 
+/* every table comes from the one pool */
+#ifdef HAVE_PTHREADS
+static pthread_mutex_t table_pool_mutex = PTHREAD_MUTEX_INITIALIZER;
+# define TABLE_POOL_LOCK()   (void)pthread_mutex_lock(&table_pool_mutex)
+# define TABLE_POOL_UNLOCK() (void)pthread_mutex_unlock(&table_pool_mutex)
+#else
+# define TABLE_POOL_LOCK()
+# define TABLE_POOL_UNLOCK()
+#endif
+
+static void
+table_release(zt_table *table)
+{
+    TABLE_POOL_LOCK();
+    zt_mem_pool_release((void **)&table);
+    TABLE_POOL_UNLOCK();
+}
+
 zt_mem_pool *
 zt_table_pool_init(long elts)
 {
@@ -86,13 +107,17 @@ zt_table_init(char *name, zt_table_hash_func_cb func,
         return NULL;
     }
 
+    TABLE_POOL_LOCK();
     table_mem_pool = zt_mem_pool_get(ZT_DEFAULT_TABLE_POOL);
 
     if (table_mem_pool == NULL) {
         table_mem_pool = zt_table_pool_init(2);
     }
 
-    if ( (table = (zt_table *)zt_mem_pool_alloc(table_mem_pool)) == NULL) {
+    table = (zt_table *)zt_mem_pool_alloc(table_mem_pool);
+    TABLE_POOL_UNLOCK();
+
+    if (table == NULL) {
         return NULL;
     }
 
@@ -117,7 +142,7 @@ zt_table_init(char *name, zt_table_hash_func_cb func,
 
     table->table_heap = zt_mem_heap_init(0, nbuckets * sizeof(struct table_node *));
     if (table->table_heap == NULL) {
-        zt_mem_pool_release((void **)&table);
+        table_release(table);
         return NULL;
     }
 
@@ -137,7 +162,7 @@ zt_table_init(char *name, zt_table_hash_func_cb func,
     if (table->node_pool == NULL) {
         zt_free(table->name);
         zt_mem_heap_destroy(&table->table_heap);
-        zt_mem_pool_release((void **)&table);
+        table_release(table);
         return NULL;
     }
 
@@ -168,7 +193,7 @@ zt_table_destroy(zt_table *h)
 
     zt_mem_pool_destroy(&h->node_pool);
     zt_mem_heap_destroy(&h->table_heap);
-    zt_mem_pool_release((void **)&h);
+    table_release(h);
 }
 
 /* reduce a hash key to a valid index into the table's buckets, whatever
-- 
2.43.0


From a1a14f03295276cb26162da6672b9a638fd4867b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:49 +0000
Subject: [PATCH 133/173] fix: zt_ipv4_tbl: tables can be used from several
 threads

---
 src/libzt/zt_ipv4_tbl.c | 54 ++++++++++++++++++++++++++++++-----------
 1 file changed, 40 insertions(+), 14 deletions(-)

diff --git a/src/libzt/zt_ipv4_tbl.c b/src/libzt/zt_ipv4_tbl.c
index 6f5d238..f9fa904 100644
--- a/src/libzt/zt_ipv4_tbl.c
+++ b/src/libzt/zt_ipv4_tbl.c
@@ -1,4 +1,7 @@
 #include <ctype.h>
+#ifdef HAVE_PTHREADS
+# include <pthread.h>
+#endif
 
 #include "zt_internal.h"
 #include "zt_mem.h"
@@ -26,6 +29,15 @@ static uint32_t netmask_tbl[] = {
 
 static size_t num_tables = 0;
 
+#ifdef HAVE_PTHREADS
+static pthread_mutex_t shared_mutex = PTHREAD_MUTEX_INITIALIZER;
+# define SHARED_LOCK()   (void)pthread_mutex_lock(&shared_mutex)
+# define SHARED_UNLOCK() (void)pthread_mutex_unlock(&shared_mutex)
+#else
+# define SHARED_LOCK()
+# define SHARED_UNLOCK()
+#endif
+
 static int
 shared_pool_init(char *name, size_t size)
 {
@@ -46,9 +58,25 @@ shared_pools_release(void)
     }
 }
 
+static void *
+shared_alloc(char *name)
+{
+    zt_mem_pool *pool;
+    void        *elt = NULL;
+
+    SHARED_LOCK();
+    if ((pool = zt_mem_pool_get(name)) != NULL) {
+        elt = zt_mem_pool_alloc(pool);
+    }
+    SHARED_UNLOCK();
+
+    return elt;
+}
+
 static void
 node_list_release(zt_ipv4_node *node)
 {
+    SHARED_LOCK();
     while (node) {
         zt_ipv4_node *next = node->next;
 
@@ -56,6 +84,7 @@ node_list_release(zt_ipv4_node *node)
         zt_mem_pool_release((void **)&node);
         node = next;
     }
+    SHARED_UNLOCK();
 }
 
 void
@@ -87,9 +116,11 @@ zt_ipv4_tbl_destroy(zt_ipv4_tbl *tbl)
 
     free(tbl);
 
+    SHARED_LOCK();
     if (--num_tables == 0) {
         shared_pools_release();
     }
+    SHARED_UNLOCK();
 }
 
 zt_ipv4_tbl    *
@@ -109,17 +140,20 @@ zt_ipv4_tbl_init(uint32_t size)
         return NULL;
     }
 
+    SHARED_LOCK();
     if (shared_pool_init(NODE_POOL, sizeof(zt_ipv4_node)) ||
         shared_pool_init(ADDR_POOL, sizeof(zt_ipv4_addr)) ||
         !(tbl->pools = zt_mem_pool_group_init(pools, 1))) {
         if (num_tables == 0) {
             shared_pools_release();
         }
+        SHARED_UNLOCK();
         free(tbl);
         return NULL;
     }
 
     num_tables++;
+    SHARED_UNLOCK();
     tbl->sz = rsize;
     return tbl;
 }
@@ -129,7 +163,6 @@ zt_ipv4_addr   *
 zt_ipv4_addr_frm_str(const char *netstr)
 {
     zt_ipv4_addr *addr = NULL;
-    zt_mem_pool  *pool = NULL;
     int           bitlen = 32;
     uint32_t      ipaddr;
 
@@ -137,15 +170,11 @@ zt_ipv4_addr_frm_str(const char *netstr)
         return NULL;
     }
 
-    if (!(pool = zt_mem_pool_get(ADDR_POOL))) {
-        return NULL;
-    }
-
     if (zt_ipv4_str2net(netstr, &ipaddr, &bitlen)) {
         return NULL;
     }
 
-    if (!(addr = zt_mem_pool_alloc(pool))) {
+    if (!(addr = shared_alloc(ADDR_POOL))) {
         return NULL;
     }
 
@@ -163,22 +192,19 @@ zt_ipv4_node_str_init(const char *netstr)
 {
     zt_ipv4_node *node;
     zt_ipv4_addr *addr;
-    zt_mem_pool  *pool;
 
     if (!netstr) {
         return NULL;
     }
 
-    if (!(pool = zt_mem_pool_get(NODE_POOL))) {
-        return NULL;
-    }
-
-    if (!(node = zt_mem_pool_alloc(pool))) {
+    if (!(addr = zt_ipv4_addr_frm_str(netstr))) {
         return NULL;
     }
 
-    if (!(addr = zt_ipv4_addr_frm_str(netstr))) {
-        zt_mem_pool_release((void **)&node);
+    if (!(node = shared_alloc(NODE_POOL))) {
+        SHARED_LOCK();
+        zt_mem_pool_release((void **)&addr);
+        SHARED_UNLOCK();
         return NULL;
     }
 
-- 
2.43.0


From dc56cd00714a370a6d5cace208d40fdc2854fa63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:25 +0000
Subject: [PATCH 134/173] fix: zt_malloc, zt_realloc: stop when num elements
 exceed what a size can hold

---
 src/libzt/zt_malloc.c | 9 +++++++++
 src/zt.h              | 7 ++++---
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/libzt/zt_malloc.c b/src/libzt/zt_malloc.c
index 1defcc5..236ddea 100644
--- a/src/libzt/zt_malloc.c
+++ b/src/libzt/zt_malloc.c
@@ -27,6 +27,15 @@ zt_calloc_p(size_t num, size_t size)
     return mem;
 }
 
+/* the size of num elements, which must be representable */
+size_t
+zt_msize_p(size_t num, size_t size)
+{
+    zt_assert_always(size == 0 || num <= (size_t)-1 / size);
+
+    return num * size;
+}
+
 void_p
 zt_malloc_p(size_t num)
 {
diff --git a/src/zt.h b/src/zt.h
index 2fb966c..4fc57db 100644
--- a/src/zt.h
+++ b/src/zt.h
@@ -31,10 +31,10 @@
 
 extern char *memoryError;
 #define zt_callocs(size, num)     (zt_calloc_p ((num), (size)))
-#define zt_mallocs(size, num)     (zt_malloc_p ((num) * (size)))
+#define zt_mallocs(size, num)     (zt_malloc_p (zt_msize_p ((num), (size))))
 #define zt_calloc(type, num)	((type *) zt_calloc_p ((num), sizeof(type)))
-#define zt_malloc(type, num)	((type *) zt_malloc_p ((num) * sizeof(type)))
-#define zt_realloc(type, p, num)	((type *) zt_realloc_p (((void_p)p), (num) * sizeof(type)))
+#define zt_malloc(type, num)	((type *) zt_malloc_p (zt_msize_p ((num), sizeof(type))))
+#define zt_realloc(type, p, num)	((type *) zt_realloc_p (((void_p)p), zt_msize_p ((num), sizeof(type))))
 #define zt_free(stale)   	  	       	  	   	 \
 do {							 \
    if (stale) { free ((void_p) stale);  stale = 0; }	 \
@@ -125,6 +125,7 @@ typedef char* void_p;
 #include <stdlib.h>
 
 extern void * zt_calloc_p	(size_t num, size_t size);
+extern size_t zt_msize_p	(size_t num, size_t size);
 extern void * zt_malloc_p	(size_t num);
 extern void * zt_realloc_p (void * p, size_t num);
 extern void zt_free_p (void * stale);
-- 
2.43.0


From 2b4f8a553d15e74f2532e6d11823216521874e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:25 +0000
Subject: [PATCH 135/173] fix: zt_array: do not wrap the size of many large
 elements

---
 src/libzt/zt_array.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/libzt/zt_array.c b/src/libzt/zt_array.c
index 5b287cb..290c87b 100644
--- a/src/libzt/zt_array.c
+++ b/src/libzt/zt_array.c
@@ -26,7 +26,7 @@ zt_array_new(size_t len, size_t size)
 
     if (len > 0) {
         arrayrep_init(array, len, size,
-                      zt_calloc(char, len * size));
+                      zt_callocs(size, len));
     } else {
         arrayrep_init(array, len, size, NULL);
     }
@@ -50,7 +50,7 @@ zt_array_set_data(zt_array_t array, char *data,
 
     if (copy) {
         arrayrep_init(array, len, size,
-                      zt_calloc(char, len * size));
+                      zt_callocs(size, len));
         memcpy(array->data, data, len * size);
     } else {
         arrayrep_init(array, len, size, data);
@@ -82,9 +82,9 @@ zt_array_resize(zt_array_t array, size_t len)
     zt_assert(len > 0);
 
     if (array->data == NULL) {
-        array->data = zt_calloc(char, len * array->size);
+        array->data = zt_callocs(array->size, len);
     } else if (len > 0) {
-        array->data = zt_realloc(char, array->data, len * array->size);
+        array->data = zt_realloc(char, array->data, zt_msize_p(len, array->size));
         /* lear the added space */
         if(len > array->length) {
             size_t   rlen = len - array->length;
-- 
2.43.0


From 61400060da179cbc6b612e22ca2d6ad2323673a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:25 +0000
Subject: [PATCH 136/173] fix: zt_cstr_dup: do not wrap the length of many
 copies

---
 src/libzt/zt_cstr.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 26850f4..f52dd83 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -125,6 +125,9 @@ zt_cstr_dup(const char *s, ssize_t i, ssize_t j, ssize_t n) {
 
     CONVERT(s, i, j);
 
+    /* n copies and the NUL have to be representable */
+    zt_assert_always(IDXLEN(i, j) == 0 || (size_t)n <= ((size_t)-1 - 1) / IDXLEN(i, j));
+
     p = new = zt_malloc(char, (n * IDXLEN(i, j)) + 1);
 
     if (IDXLEN(i, j) > 0) {
-- 
2.43.0


From 75c0f4b419c761f7e0d44a353e68179c770b9c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:25 +0000
Subject: [PATCH 137/173] fix: zt_mem: refuse heaps and pools whose size wraps

---
 src/libzt/zt_mem.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_mem.c b/src/libzt/zt_mem.c
index 75adfbe..307959b 100644
--- a/src/libzt/zt_mem.c
+++ b/src/libzt/zt_mem.c
@@ -114,6 +114,10 @@ zt_mem_heap_init(char *name, size_t size)
 {
     zt_mem_heap * heap;
 
+    if (size > (size_t)-1 - sizeof(zt_mem_heap)) {
+        return NULL;
+    }
+
     if ((heap = GLOBAL_zmt.alloc(sizeof(zt_mem_heap) + size)) == NULL) {
         return NULL;
     }
@@ -181,6 +185,11 @@ x_calculate_page_data(ssize_t elts, size_t size, size_t *page_size, size_t *epp,
             *npages = 1;
         }
     } else {
+        /* the elements have to fit into a representable page */
+        if (size > (size_t)-1 - sizeof(zt_mem_elt) - sizeof(unsigned long) ||
+            (size_t)elts > ((size_t)-1 - sizeof(zt_mem_page)) / ELT_STRIDE(size)) {
+            return -1;
+        }
         *epp = elts;
         *page_size = (elts * ELT_STRIDE(size)) + sizeof(zt_mem_page);
         *npages = 1;
@@ -201,7 +210,9 @@ zt_mem_pool_init(char *name, ssize_t elts,
     size_t        npages;
     size_t        pcache;
 
-    x_calculate_page_data(elts ? elts : 1, size, &npage_size, &epp, &npages);
+    if (x_calculate_page_data(elts ? elts : 1, size, &npage_size, &epp, &npages) < 0) {
+        return NULL;
+    }
 
     POOLS_LOCK();
     if (!mem_atexit) {
-- 
2.43.0


From 65490bae7f11fd01639b02b2ee2dd1c8fcf0ad88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:25 +0000
Subject: [PATCH 138/173] fix: zt_table_init: refuse more buckets than can be
 had

---
 src/libzt/zt_table.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libzt/zt_table.c b/src/libzt/zt_table.c
index ba74562..e4433b6 100644
--- a/src/libzt/zt_table.c
+++ b/src/libzt/zt_table.c
@@ -138,6 +138,11 @@ zt_table_init(char *name, zt_table_hash_func_cb func,
         }
     }
 
+    if (nbuckets == 0 || nbuckets > (size_t)-1 / sizeof(struct table_node *)) {
+        table_release(table);
+        return NULL;
+    }
+
     table->nbits = nbits(nbuckets - 1);
 
     table->table_heap = zt_mem_heap_init(0, nbuckets * sizeof(struct table_node *));
-- 
2.43.0


From 4b3c98eb8cec236f467dfe0bcba7becfe97c646c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:25 +0000
Subject: [PATCH 139/173] fix: zt_bstream_write: stop when the end of the
 stream wraps

---
 src/libzt/zt_bstream.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libzt/zt_bstream.c b/src/libzt/zt_bstream.c
index 0ac6c07..fdd4167 100644
--- a/src/libzt/zt_bstream.c
+++ b/src/libzt/zt_bstream.c
@@ -188,6 +188,9 @@ zt_bstream_write(zt_bstream_t bs, char *data, size_t len, char size, char tag UN
 
     alen = zt_array_length(bs->data);
 
+    /* where the write ends has to be representable */
+    zt_assert_always(bs->offt <= (size_t)-1 - tlen);
+
     if (tlen > alen || bs->offt > alen - tlen) {
         zt_array_resize(bs->data, MAX((alen + tlen) * 2, bs->offt + tlen));
     }
-- 
2.43.0


From d69498fc22f68117862a6c877943e6fdf12327d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:25 +0000
Subject: [PATCH 140/173] fix: zt_base_encode: refuse inputs whose encoding is
 not representable

---
 src/libzt/zt_base.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libzt/zt_base.c b/src/libzt/zt_base.c
index 6e84e99..db44bce 100644
--- a/src/libzt/zt_base.c
+++ b/src/libzt/zt_base.c
@@ -563,6 +563,9 @@ zt_base_encode(zt_base_definition_t * def, const void * in, size_t in_bytes, voi
 
     /* calculate the number of (N * 8-bit) input groups and remainder */
     lcount = in_bytes / def->igroups;                        /* number of whole input groups */
+    if (lcount > ((size_t)-1 / def->ogroups) - 1) {
+        return -1;
+    }
     mod = ((8 * (in_bytes % def->igroups)) / def->obits);    /* portion of partial output groups */
     ocount = (lcount * def->ogroups);                        /* number of whole output groups */
 
-- 
2.43.0


From 8d412ffb584cbff163da95de4818aea7ebcc499c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:34 +0000
Subject: [PATCH 141/173] fix: zt_log_file: messages reach the file before an
 abort

---
 src/libzt/zt_log/log_file.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libzt/zt_log/log_file.c b/src/libzt/zt_log/log_file.c
index 3490a96..2f95b56 100644
--- a/src/libzt/zt_log/log_file.c
+++ b/src/libzt/zt_log/log_file.c
@@ -56,6 +56,8 @@ print(zt_log_ty * log, zt_log_level level, const char * file, int line, const ch
 #endif /* WITH_THREADS */
 
     vfprintf(this->file, nfmt, ap);
+    /* the next thing to happen may be an abort */
+    fflush(this->file);
 
 #ifdef WITH_THREADS
     pthread_mutex_unlock(&log->mutex);
-- 
2.43.0


From bb2f7a030bf2858548d1f1dfb0d12be1af68d205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:16 +0000
Subject: [PATCH 142/173] fix: zt_log.h: define ZT_LOG_FUNCTION before the
 headers whose checks use it

---
 src/libzt/zt_log.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/libzt/zt_log.h b/src/libzt/zt_log.h
index edcfaa4..432deb7 100644
--- a/src/libzt/zt_log.h
+++ b/src/libzt/zt_log.h
@@ -14,6 +14,13 @@
 #define _ZT_LOG_H_
 
 #include <stdarg.h>
+
+/* used by the checks in the headers below */
+#if (!defined(__STRICT_ANSI__) || __STRICT_ANSI__ == 0)
+# define ZT_LOG_FUNCTION __FUNCTION__
+#else
+# define ZT_LOG_FUNCTION ""
+#endif
 #include <zt.h>
 
 #define ZT_LOG_RAW           0
@@ -24,11 +31,6 @@
 #define ZT_LOG_WITH_PID      16
 #define ZT_LOG_EMU_SYSLOG    (ZT_LOG_WITH_DATE | ZT_LOG_WITH_SYSNAME | ZT_LOG_WITH_PROGNAME | ZT_LOG_WITH_PID)
 
-#if (!defined(__STRICT_ANSI__) || __STRICT_ANSI__ == 0)
-# define ZT_LOG_FUNCTION __FUNCTION__
-#else
-# define ZT_LOG_FUNCTION ""
-#endif
 BEGIN_C_DECLS
 
 enum zt_log_level {
-- 
2.43.0


From b4e2ed1e91cb61712e4884a4de92aa4b40ac6e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:26 +0000
Subject: [PATCH 143/173] fix: zt_array: an empty string makes an empty array,
 also with assertions

---
 src/libzt/zt_array.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_array.c b/src/libzt/zt_array.c
index 290c87b..7b4006f 100644
--- a/src/libzt/zt_array.c
+++ b/src/libzt/zt_array.c
@@ -48,7 +48,9 @@ zt_array_set_data(zt_array_t array, char *data,
 {
     zt_assert(array);
 
-    if (copy) {
+    if (copy && len == 0) {
+        arrayrep_init(array, len, size, NULL);
+    } else if (copy) {
         arrayrep_init(array, len, size,
                       zt_callocs(size, len));
         memcpy(array->data, data, len * size);
-- 
2.43.0


From f492b0ef50389dfcaf2a26f1c00c773c6865e18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:26 +0000
Subject: [PATCH 144/173] fix: zt_array_resize: nothing is a length it handles,
 do not assert otherwise

---
 src/libzt/zt_array.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/libzt/zt_array.c b/src/libzt/zt_array.c
index 7b4006f..7e90957 100644
--- a/src/libzt/zt_array.c
+++ b/src/libzt/zt_array.c
@@ -81,9 +81,8 @@ void
 zt_array_resize(zt_array_t array, size_t len)
 {
     zt_assert(array);
-    zt_assert(len > 0);
 
-    if (array->data == NULL) {
+    if (array->data == NULL && len > 0) {
         array->data = zt_callocs(array->size, len);
     } else if (len > 0) {
         array->data = zt_realloc(char, array->data, zt_msize_p(len, array->size));
-- 
2.43.0


From a3262547af159656af1e6db4defbce2770768754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:18 +0000
Subject: [PATCH 145/173] fix: zt_mem: leaving the program keeps pools that are
 still held usable

---
 src/libzt/zt_mem.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libzt/zt_mem.c b/src/libzt/zt_mem.c
index 307959b..4e263fa 100644
--- a/src/libzt/zt_mem.c
+++ b/src/libzt/zt_mem.c
@@ -524,12 +524,12 @@ static void
 zt_mem_release(void * data UNUSED)
 {
     zt_elist_t  * tmp;
-    zt_elist_t  * tmp2;
     zt_mem_pool * pool;
 
-    zt_elist_for_each_safe(&pools, tmp, tmp2) {
+    /* exit functions registered before this one may still use their pools */
+    zt_elist_for_each(&pools, tmp) {
         pool = zt_elist_data(tmp, zt_mem_pool, pool_list);
-        zt_mem_pool_destroy(&pool);
+        zt_mem_pool_release_free_pages(pool);
     }
 }
 
-- 
2.43.0


From e79ce4545f6a705cde2e638ff037d527bc5eda7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:52 +0000
Subject: [PATCH 146/173] fix: zt_log: zt_log_dprintf is one expression, so
 that a condition in front governs the message as well

---
 src/libzt/zt_log.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_log.h b/src/libzt/zt_log.h
index 432deb7..42a2721 100644
--- a/src/libzt/zt_log.h
+++ b/src/libzt/zt_log.h
@@ -88,7 +88,7 @@ extern void zt_log_close( zt_log_ty * log );
 
 /* zt_log_dprintf(level, fmt, ...) */
 #define zt_log_dprintf( level, ... ) \
-    ZT_LOG_DEBUG_INFO( ); zt_log_printf( level, __VA_ARGS__ )
+    (ZT_LOG_DEBUG_INFO( ), zt_log_printf( level, __VA_ARGS__ ))
 
 #define zt_log_dvprintf( level, fmt, ap ) \
     zt_log_vprintf( level, fmt, ap)
-- 
2.43.0


From 50422072593b8e00f1d9cbc53aaa45e93bb2a8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:53 +0000
Subject: [PATCH 147/173] fix: zt_log: zt_log_dvprintf reports where it is
 used, as zt_log_dprintf does

---
 src/libzt/zt_log.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_log.h b/src/libzt/zt_log.h
index 42a2721..6fbcf61 100644
--- a/src/libzt/zt_log.h
+++ b/src/libzt/zt_log.h
@@ -91,7 +91,7 @@ extern void zt_log_close( zt_log_ty * log );
     (ZT_LOG_DEBUG_INFO( ), zt_log_printf( level, __VA_ARGS__ ))
 
 #define zt_log_dvprintf( level, fmt, ap ) \
-    zt_log_vprintf( level, fmt, ap)
+    (ZT_LOG_DEBUG_INFO( ), zt_log_vprintf( level, fmt, ap ))
 
 /* normal debugging logging */
 #ifdef DEBUG
-- 
2.43.0


From 246561ab224eb735feba6ca6c5c8a6519363bd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:53 +0000
Subject: [PATCH 148/173] fix: zt_log: the XDEBUG and NDEBUG macros are one
 expression, and ZT_LOG_XDEBUGV exists with DEBUG too

---
 src/libzt/zt_log.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/libzt/zt_log.h b/src/libzt/zt_log.h
index 6fbcf61..0a6ab36 100644
--- a/src/libzt/zt_log.h
+++ b/src/libzt/zt_log.h
@@ -97,28 +97,28 @@ extern void zt_log_close( zt_log_ty * log );
 #ifdef DEBUG
 /* LOG_XDEBUG(fmt, ...) */
 #  define ZT_LOG_XDEBUG(... ) \
-    ZT_LOG_DEBUG_INFO( ); zt_log_lprintf( NULL, zt_log_debug, __VA_ARGS__);
+    (ZT_LOG_DEBUG_INFO( ), zt_log_lprintf( NULL, zt_log_debug, __VA_ARGS__ ))
 
-#  define LOG_XDEBUGV( fmt, ap ) \
-    ZT_LOG_DEBUG_INFO( ); zt_log_lvprintf( NULL, zt_log_debug, fmt, ap )
+#  define ZT_LOG_XDEBUGV( fmt, ap ) \
+    (ZT_LOG_DEBUG_INFO( ), zt_log_lvprintf( NULL, zt_log_debug, fmt, ap ))
 #else /* ifdef DEBUG */
 /* LOG_XDEBUG(fmt, ...) */
-#  define ZT_LOG_XDEBUG(... )
-#  define ZT_LOG_XDEBUGV( fmt, ap )
+#  define ZT_LOG_XDEBUG(... ) ((void)0)
+#  define ZT_LOG_XDEBUGV( fmt, ap ) ((void)0)
 #endif /* ifdef DEBUG */
 
 /* associated with assert */
 #ifndef NDEBUG
 /* LOG_NDEBUG(fnt, ...) */
 #  define ZT_LOG_NDEBUG(... ) \
-    ZT_LOG_DEBUG_INFO( ); zt_log_lprintf( NULL, zt_log_debug, __VA_ARGS__ )
+    (ZT_LOG_DEBUG_INFO( ), zt_log_lprintf( NULL, zt_log_debug, __VA_ARGS__ ))
 
 #  define ZT_LOG_NDEBUGV( fmt, ap ) \
-    ZT_LOG_DEBUG_INFO( ); zt_log_lvprintf( NULL, zt_log_debug, fmt, ap )
+    (ZT_LOG_DEBUG_INFO( ), zt_log_lvprintf( NULL, zt_log_debug, fmt, ap ))
 #else /* ifndef NDEBUG */
 /* LOG_NDEBUG(fmt, ...) */
-#  define ZT_LOG_NDEBUG(... )
-#  define ZT_LOG_NDEBUGV( fmt, ap )
+#  define ZT_LOG_NDEBUG(... ) ((void)0)
+#  define ZT_LOG_NDEBUGV( fmt, ap ) ((void)0)
 #endif /* ifndef NDEBUG */
 
 END_C_DECLS
-- 
2.43.0


From ca3dc4df9204d457ee6c9a7c2b60caa10e73eefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:53 +0000
Subject: [PATCH 149/173] fix: zt_unit: the compared expressions of
 ZT_UNIT_ASSERT_EQUAL and _NOT_EQUAL may contain any operator

---
 src/libzt/zt_unit.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_unit.h b/src/libzt/zt_unit.h
index 95117e8..0ceb25f 100644
--- a/src/libzt/zt_unit.h
+++ b/src/libzt/zt_unit.h
@@ -85,10 +85,10 @@ class zt_unit_exceptT {};
     } while(0)
 
 #define ZT_UNIT_ASSERT_EQUAL(test, expr1, expr2) \
-    ZT_UNIT_ASSERT(test, (expr1 == expr2))
+    ZT_UNIT_ASSERT(test, ((expr1) == (expr2)), (expr1 == expr2))
 
 #define ZT_UNIT_ASSERT_NOT_EQUAL(test, expr1, expr2) \
-    ZT_UNIT_ASSERT(test, (expr1 != expr2))
+    ZT_UNIT_ASSERT(test, ((expr1) != (expr2)), (expr1 != expr2))
 
 /* #define ZT_UNIT_ASSERT_RAISES(test, excpt, expr) */
 
-- 
2.43.0


From 7945267e1ca0a5eeb43209b1c73ee212fe7ea44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:53 +0000
Subject: [PATCH 150/173] fix: zt_macros: ZT_BIT_UNSET leaves the other bits of
 a target wider than the bit alone

---
 src/libzt/zt_macros.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_macros.h b/src/libzt/zt_macros.h
index c1effd1..7a8b24c 100644
--- a/src/libzt/zt_macros.h
+++ b/src/libzt/zt_macros.h
@@ -163,7 +163,7 @@ BEGIN_C_DECLS
  * Description: unset bit on target
  */
 #define ZT_BIT_UNSET(target, bit) \
-    ((target) &= ~(bit))
+    ((target) &= ~(0 ? (target) : (bit))) /* in the wider of the two types */
 
 /*!
  * Name: ZT_BIT_ISSET
-- 
2.43.0


From 8610e4d75e0143d8b628393250f5d712c5d0b7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:53 +0000
Subject: [PATCH 151/173] fix: zt_macros: INDENT_PAD takes any expression for
 step

---
 src/libzt/zt_macros.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_macros.h b/src/libzt/zt_macros.h
index 7a8b24c..0f00241 100644
--- a/src/libzt/zt_macros.h
+++ b/src/libzt/zt_macros.h
@@ -134,7 +134,7 @@ BEGIN_C_DECLS
  * Description: injects padding into a print statement
  * Exmaple: printf(BLANK "-a, --alpha" NL, INDENT_PATH(3, 5, 0))
  */
-#define INDENT_PAD(lvl, step, pad) ((int)(((lvl) * step) + (pad))), ""
+#define INDENT_PAD(lvl, step, pad) ((int)(((lvl) * (step)) + (pad))), ""
 
 /************ Apply Macros ************/
 
-- 
2.43.0


From d4aa3936a9d863fde32207d2404acec551e9cb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:53 +0000
Subject: [PATCH 152/173] fix: zt_ptr_array: the length and is_full macros take
 any expression for the array

---
 src/libzt/zt_ptr_array.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_ptr_array.h b/src/libzt/zt_ptr_array.h
index 6d2210a..9efa403 100644
--- a/src/libzt/zt_ptr_array.h
+++ b/src/libzt/zt_ptr_array.h
@@ -13,8 +13,8 @@ typedef struct {
     zt_ptr_array_free_cb free_cb;
 } zt_ptr_array;
 
-#define zt_ptr_array_is_full(array) (array->count >= array->size)
-#define zt_ptr_array_length(array) array->count
+#define zt_ptr_array_is_full(array) ((array)->count >= (array)->size)
+#define zt_ptr_array_length(array) ((array)->count)
 
 zt_ptr_array *zt_ptr_array_init(void *args, zt_ptr_array_free_cb free_cb);
 int zt_ptr_array_free(zt_ptr_array *array, int free_members);
-- 
2.43.0


From 19383d5a1c1af2a178fe624f46c42ac4d61378d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:53 +0000
Subject: [PATCH 153/173] fix: zt_time: usleep sleeps for the value of its
 argument, whatever its operators and names

---
 src/libzt/zt_time.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/libzt/zt_time.h b/src/libzt/zt_time.h
index 7bdc3ff..330c180 100644
--- a/src/libzt/zt_time.h
+++ b/src/libzt/zt_time.h
@@ -56,14 +56,14 @@ void             zt_time_calibrate(void);
     }                                              \
 } while (0)
 #else
-#define usleep(msec)          do {       \
-    long           usec = msec;          \
-    struct timeval delay;                \
-                                         \
-    delay.tv_sec  = msec / 1000000L;     \
-    delay.tv_usec = usec % 1000000L;     \
-                                         \
-    select(0, NULL, NULL, NULL, &delay); \
+#define usleep(msec)          do {            \
+    long           zt_usec_ = (msec);         \
+    struct timeval zt_delay_;                 \
+                                              \
+    zt_delay_.tv_sec  = zt_usec_ / 1000000L;  \
+    zt_delay_.tv_usec = zt_usec_ % 1000000L;  \
+                                              \
+    select(0, NULL, NULL, NULL, &zt_delay_);  \
 } while (0)
 #endif
 #endif
-- 
2.43.0


From 068db58f51bc1baf367d1fc99cc177024fdc768c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:31 +0000
Subject: [PATCH 154/173] fix: zt_cstr: rspn and rcspn look at each character
 once, not at all that follow it

---
 src/libzt/zt_cstr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index f52dd83..49deaa6 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -570,7 +570,7 @@ zt_cstr_rspn(const char *s, const char *accept) {
     zt_assert(accept);
 
     for (i = len - 1; i >= 0; i--) { /* -1 to skip \0 */
-        if (strspn(&s[i], accept) == 0) {
+        if (strchr(accept, s[i]) == NULL) {
             return (len - i) - 1;                          /* -1 for the first non matching char */
         }
     }
@@ -586,7 +586,7 @@ zt_cstr_rcspn(const char *s, const char *reject) {
     zt_assert(reject);
 
     for (i = len - 1; i >= 0; i--) { /* -1 to skip \0 */
-        if (strcspn(&s[i], reject) == 0) {
+        if (strchr(reject, s[i]) != NULL) {
             return i;                                      /* -1 for the first non matching char */
         }
     }
-- 
2.43.0


From 7a0a19e8a7cfd5aeead9f205ce72ee6d4f862142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:31 +0000
Subject: [PATCH 155/173] fix: zt_ptr_array: adding grows the array in
 proportion, not by a fixed step that copies all elements each time

---
 src/libzt/zt_ptr_array.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_ptr_array.c b/src/libzt/zt_ptr_array.c
index 09aea94..24d906a 100644
--- a/src/libzt/zt_ptr_array.c
+++ b/src/libzt/zt_ptr_array.c
@@ -144,7 +144,9 @@ zt_ptr_array_add(zt_ptr_array * array, void * data) {
     }
 
     if (zt_ptr_array_is_full(array)) {
-        if (zt_ptr_array_resize(array, 0) < 0) {
+        /* in proportion if possible, so that additions stay cheap */
+        if (zt_ptr_array_resize(array, array->size) < 0 &&
+            zt_ptr_array_resize(array, 0) < 0) {
             return -1;
         }
     }
-- 
2.43.0


From cee3af482376b363a348d8b1bcd747df7ea7a1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:03 +0000
Subject: [PATCH 156/173] fix: a configured float is written with a point in
 every locale

---
 src/libzt/zt_cfg/cfg_private.c | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_cfg/cfg_private.c b/src/libzt/zt_cfg/cfg_private.c
index cdb2831..b75d940 100644
--- a/src/libzt/zt_cfg/cfg_private.c
+++ b/src/libzt/zt_cfg/cfg_private.c
@@ -12,6 +12,8 @@
 #endif
 
 #include <errno.h>
+#include <locale.h>
+#include <stdlib.h>
 
 #ifdef HAVE_STRING_H
 #include <string.h>
@@ -127,6 +129,26 @@ add_variable(struct zt_cfg_block_ty* block, char *name)
     return new;
 }
 
+/* strtod with a decimal point whatever the locale of the process */
+static double
+cfg_strtod(const char* value, char** endptr)
+{
+#ifdef LC_ALL_MASK
+    double   num;
+    locale_t c = newlocale(LC_ALL_MASK, "C", (locale_t)0);
+
+    if (c != (locale_t)0) {
+        locale_t prev = uselocale(c);
+
+        num = strtod(value, endptr);
+        uselocale(prev);
+        freelocale(c);
+        return num;
+    }
+#endif
+    return strtod(value, endptr);
+}
+
 zt_cfg_type
 get_type(char* value, void* nvalue)
 {
@@ -141,7 +163,7 @@ get_type(char* value, void* nvalue)
     }
 
     pvalue = value;
-    *(double *)nvalue = strtod(pvalue, &endptr);
+    *(double *)nvalue = cfg_strtod(pvalue, &endptr);
     if (((*pvalue != '\0') && (*endptr == '\0'))) {
         return zt_cfg_float;
     }
-- 
2.43.0


From f81f2330474933b69892e8109d1bb24927233037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:25 +0000
Subject: [PATCH 157/173] fix: the replacement of asprintf compiles where
 vasprintf exists

---
 src/libzt/replace/asprintf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libzt/replace/asprintf.c b/src/libzt/replace/asprintf.c
index bbeaa42..7e92365 100644
--- a/src/libzt/replace/asprintf.c
+++ b/src/libzt/replace/asprintf.c
@@ -17,14 +17,14 @@
  * OR IN CONNECTION WITH THE USE OR PERFORMANCE OF THIS SOFTWARE.
  */
 
-#ifndef HAVE_VASPRINTF
-
 #include <errno.h>
 #include <limits.h>
 #include <stdio.h>
 #include <stdarg.h>
 #include <stdlib.h>
 
+#ifndef HAVE_VASPRINTF
+
 #ifndef VA_COPY
 # ifdef HAVE_VA_COPY
 #  define VA_COPY(dest, src) va_copy(dest, src)
-- 
2.43.0


From 9ce14eacaf31f3119e61537701bfd19f81f12262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:49 +0000
Subject: [PATCH 158/173] fix: decoding rejects foreign characters where plain
 char is unsigned

---
 src/libzt/zt_base.c | 6 +++---
 src/libzt/zt_base.h | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/libzt/zt_base.c b/src/libzt/zt_base.c
index db44bce..c53cb89 100644
--- a/src/libzt/zt_base.c
+++ b/src/libzt/zt_base.c
@@ -254,7 +254,7 @@ _encode64(zt_base_definition_t * def, const unsigned char * in, const size_t lcn
 static int
 _decode64(zt_base_definition_t * def, const unsigned char * in, const size_t bytes, unsigned char * out, size_t * out_bytes) {
     size_t            i;
-    const char *      dictionary = def->dictionary;
+    const signed char * dictionary = def->dictionary;
     unsigned int      buf[BUFSIZE_64];
     size_t            cnt = 0;
     size_t            obytes = 0;
@@ -382,7 +382,7 @@ _encode32(zt_base_definition_t * def, const unsigned char * in, const size_t lcn
 static int
 _decode32(zt_base_definition_t * def, const unsigned char * in, const size_t bytes, unsigned char * out, size_t * out_bytes) {
     size_t            i;
-    const char *      dictionary = def->dictionary;
+    const signed char * dictionary = def->dictionary;
     unsigned int      buf[BUFSIZE_32];
     size_t            cnt = 0;
     size_t            obytes = 0;
@@ -496,7 +496,7 @@ _encode16(zt_base_definition_t * def, const unsigned char * in, const size_t lcn
 static int
 _decode16(zt_base_definition_t * def, const unsigned char * in, const size_t bytes, unsigned char * out, size_t * out_bytes) {
     size_t            i;
-    const char *      dictionary = def->dictionary;
+    const signed char * dictionary = def->dictionary;
     unsigned int      buf[BUFSIZE_16];
     size_t            cnt = 0;
     size_t            obytes = 0;
diff --git a/src/libzt/zt_base.h b/src/libzt/zt_base.h
index 8d7c2e4..bb9a2cb 100644
--- a/src/libzt/zt_base.h
+++ b/src/libzt/zt_base.h
@@ -12,7 +12,7 @@ BEGIN_C_DECLS
 
 typedef struct zt_base_definition {
     const char  * alphabet;
-    const char    dictionary[256];
+    const signed char dictionary[256];
     size_t        base;    /* base of the encoding (ie strlen of encoder) */
 
     uint8_t       igroups; /* number of 8 bits input groups to consume */
-- 
2.43.0


From ccb139f71232b50d1587052a9e1656930d1c39df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:40 +0000
Subject: [PATCH 159/173] fix: a character search finds characters given as
 unsigned char, as strchr does

---
 src/libzt/zt_cstr.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 49deaa6..5c3c43d 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -352,7 +352,7 @@ zt_cstr_chr(const char *s, ssize_t i, ssize_t j, int c) {
 
     CONVERT(s, i, j);
     for (; i <= j; i++) {
-        if (s[i] == c) {
+        if (s[i] == (char)c) {
             return (size_t)i;
         }
     }
@@ -368,7 +368,7 @@ zt_cstr_rchr(const char *s, ssize_t i, ssize_t j, int c) {
 
     CONVERT(s, i, j);
     for (; j >= i; j--) {
-        if (s[j] == c) {
+        if (s[j] == (char)c) {
             return j;
         }
     }
@@ -998,7 +998,7 @@ zt_cstr_tok(const char *str, const int delim, int keep_delim UNUSED)
 
     str_copy = zt_strdup(str);
 
-    if (*str != '\0' && str[strlen(str) - 1] == delim) {
+    if (*str != '\0' && str[strlen(str) - 1] == (char)delim) {
         str_copy[ strlen(str) - 1 ] = '\0';
     }
 
-- 
2.43.0


From 4d0bf7e16dd34f0f0574191736793e8c16e84917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:29 +0000
Subject: [PATCH 160/173] fix: a configuration that cannot be read to its end
 is rejected

---
 src/libzt/zt_cfg/cfg_ini.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libzt/zt_cfg/cfg_ini.c b/src/libzt/zt_cfg/cfg_ini.c
index 77b4b68..c3c107b 100644
--- a/src/libzt/zt_cfg/cfg_ini.c
+++ b/src/libzt/zt_cfg/cfg_ini.c
@@ -60,6 +60,10 @@ int parse_cfg(zt_cfg_ty* cfg)
         return -1;
     }
     ret = parse_file(cfg, file);
+    if (ret == 0 && ferror(file)) {
+        zt_log_printf(zt_log_err, "Could not read config file: %s", cfg->filename);
+        ret = -1;
+    }
     fclose(file);
     return ret;
 }
-- 
2.43.0


From 7fc01747312a0a1fe36bae173775ca139ce8a8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:29 +0000
Subject: [PATCH 161/173] fix: a signal during the wakeup of a pipe reader does
 not lose the wakeup

---
 src/libzt/zt_threads.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/libzt/zt_threads.c b/src/libzt/zt_threads.c
index 8ddde04..6e1fb4e 100644
--- a/src/libzt/zt_threads.c
+++ b/src/libzt/zt_threads.c
@@ -391,10 +391,21 @@ _zt_threadpool_iput_loop(void *args) {
     return NULL;
 } /* _zt_threadpool_loop */
 
+/* one byte for the reader of a notification pipe */
+static int
+_zt_threadpool_notify(int fd, char c) {
+    ssize_t n;
+
+    do {
+        n = write(fd, &c, 1);
+    } while (n < 0 && errno == EINTR);
+
+    return n < 0 ? -1 : 0;
+}
+
 int
 zt_threadpool_insert_iput(zt_threadpool *tpool, void *data) {
     zt_threadpool_entry *entry;
-    int                  i   = 0;
     int                  ret = 0;
 
     entry       = zt_calloc(zt_threadpool_entry, 1);
@@ -406,7 +417,7 @@ zt_threadpool_insert_iput(zt_threadpool *tpool, void *data) {
         zt_threads_cond_signal(tpool->iput_cond, 0);
 
         if (tpool->iput_fd_sigs[1] >= 0) {
-            if (write(tpool->iput_fd_sigs[1], &i, 1) < 0) {
+            if (_zt_threadpool_notify(tpool->iput_fd_sigs[1], 0) < 0) {
                 ret = -1;
             }
         }
@@ -419,7 +430,6 @@ zt_threadpool_insert_iput(zt_threadpool *tpool, void *data) {
 int
 zt_threadpool_insert_oput(zt_threadpool *tpool, void *data) {
     zt_threadpool_entry *entry;
-    int                  i   = 0;
     int                  ret = 0;
 
     entry       = zt_calloc(zt_threadpool_entry, 1);
@@ -431,7 +441,7 @@ zt_threadpool_insert_oput(zt_threadpool *tpool, void *data) {
         zt_threads_cond_signal(tpool->oput_cond, 0);
 
         if (tpool->oput_fd_sigs[1] >= 0) {
-            if (write(tpool->oput_fd_sigs[1], &i, 1) < 0) {
+            if (_zt_threadpool_notify(tpool->oput_fd_sigs[1], 0) < 0) {
                 ret = -1;
             }
         }
@@ -562,13 +572,13 @@ zt_threadpool_kill(zt_threadpool *tpool) {
     }
 
     if (tpool->oput_fd_sigs[1] >= 0) {
-        if (write(tpool->oput_fd_sigs[1], &k, 1) < 0) {
+        if (_zt_threadpool_notify(tpool->oput_fd_sigs[1], (char)k) < 0) {
             ret = -1;
         }
     }
 
     if (tpool->iput_fd_sigs[1] >= 0) {
-        if (write(tpool->iput_fd_sigs[1], &i, 1) < 0) {
+        if (_zt_threadpool_notify(tpool->iput_fd_sigs[1], (char)i) < 0) {
             ret = -1;
         }
     }
-- 
2.43.0


From 3547dccfbf36e548ca5cddc76205a01c6146bfd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:55 +0000
Subject: [PATCH 162/173] fix: a message without a thread-specific key for its
 context leaves other keys alone

---
 src/libzt/zt_log.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_log.c b/src/libzt/zt_log.c
index 4146534..1f86633 100644
--- a/src/libzt/zt_log.c
+++ b/src/libzt/zt_log.c
@@ -44,10 +44,11 @@ static pthread_mutex_t log_mutex    = PTHREAD_MUTEX_INITIALIZER;
 
 static pthread_key_t   ctx_key;
 static pthread_once_t  ctx_key_once = PTHREAD_ONCE_INIT;
+static int             ctx_key_ok   = 0;
 
 static void
 make_ctx_key(void) {
-    (void)pthread_key_create(&ctx_key, free);
+    ctx_key_ok = (pthread_key_create(&ctx_key, free) == 0);
 }
 
 #define CTX_STATIC
@@ -73,6 +74,9 @@ zt_log_get_ctx(void) {
     if (!log_ctx_ptr) {
 #ifdef HAVE_PTHREADS
         (void)pthread_once(&ctx_key_once, make_ctx_key);
+        if (!ctx_key_ok) {
+            return NULL;
+        }
         if ((log_ctx_ptr = pthread_getspecific(ctx_key)) == NULL) {
 #endif /* HAVE_PTHREADS */
         if ((log_ctx_ptr = zt_calloc(zt_log_ctx_ty, 1)) == NULL) {
-- 
2.43.0


From 09adcc4ba8b9c5723468f0e346363b61a1582c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:55 +0000
Subject: [PATCH 163/173] fix: a random identifier does not use a
 thread-specific key of others when none is left

---
 src/libzt/zt_uuid.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_uuid.c b/src/libzt/zt_uuid.c
index 8c0af24..348ee93 100644
--- a/src/libzt/zt_uuid.c
+++ b/src/libzt/zt_uuid.c
@@ -46,10 +46,11 @@ struct uuid4_ctx {
 #include <pthread.h>
 static pthread_key_t   ctx_key;
 static pthread_once_t  ctx_key_once = PTHREAD_ONCE_INIT;
+static int             ctx_key_ok   = 0;
 
 static void
 make_ctx_key(void) {
-    (void)pthread_key_create(&ctx_key, free);
+    ctx_key_ok = (pthread_key_create(&ctx_key, free) == 0);
 }
 #  define CTX_STATIC
 #else /* HAVE_PTHREADS */
@@ -90,6 +91,10 @@ zt_uuid4_get_ctx(void) {
     if (!state) {
 #ifdef HAVE_PTHREADS
         (void)pthread_once(&ctx_key_once, make_ctx_key);
+        if (!ctx_key_ok) {
+            zt_log_printf(zt_log_err, "Could not allocate a key for uuid4 context");
+            exit(1);
+        }
         if((state = pthread_getspecific(ctx_key)) == NULL) {
 #endif /* HAVE_PTHREADS */
             if((state = zt_calloc(struct uuid4_ctx, 1)) == NULL) {
-- 
2.43.0


From f8f721bb727c4b432f99c6f38dc77b54a672bdde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:23 +0000
Subject: [PATCH 164/173] fix: adding to a buffer grows it in proportion, not
 in fixed steps

---
 src/libzt/zt_buf.c | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/libzt/zt_buf.c b/src/libzt/zt_buf.c
index 3ec0014..3620c38 100644
--- a/src/libzt/zt_buf.c
+++ b/src/libzt/zt_buf.c
@@ -100,12 +100,24 @@ zt_buf_drain(zt_buf_t * b, size_t len) {
     return b->len;
 }
 
+/* room for an addition, in proportion if possible so that additions stay cheap */
+static int
+buf_room(zt_buf_t * b, size_t len) {
+    if (len <= zt_buf_unused_sz(b)) {
+        return 0;
+    }
+
+    if (len < b->len && zt_buf_expand(b, b->len) == 0) {
+        return 0;
+    }
+
+    return zt_buf_expand(b, len);
+}
+
 int
 zt_buf_add(zt_buf_t * b, void * data, size_t len) {
-    if (len > zt_buf_unused_sz(b)) {
-        if (zt_buf_expand(b, len) != 0) {
-            return -1;
-        }
+    if (buf_room(b, len) != 0) {
+        return -1;
     }
 
     memcpy((void *)((char *)b->buf + b->len), data, len);
@@ -167,7 +179,7 @@ zt_buf_iov_add(zt_buf_t * b, zt_iov_t * vec, int n_vec) {
     size_t tlen;
 
     tlen = zt_buf_iov_len(vec, n_vec);
-    if (zt_buf_reserve(b, tlen) != 0) {
+    if (buf_room(b, tlen) != 0) {
         return -1;
     }
 
-- 
2.43.0


From 0ac94dd604c719425396f66dc905da1a4183de82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:56 +0000
Subject: [PATCH 165/173] fix: a stream may be repositioned in the array it
 already has

---
 src/libzt/zt_bstream.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_bstream.c b/src/libzt/zt_bstream.c
index fdd4167..e9deea9 100644
--- a/src/libzt/zt_bstream.c
+++ b/src/libzt/zt_bstream.c
@@ -71,7 +71,9 @@ zt_bstream_set_array(zt_bstream_t bs, zt_array_t array, size_t offt)
 {
     zt_assert(bs);
 
-    zt_array_free(&bs->data);
+    if (bs->data != array) {
+        zt_array_free(&bs->data);
+    }
 
     bs->data = array;
     bs->offt = offt;
-- 
2.43.0


From 4aec9d299d0ca27530af40fc41882c8c63857ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:56 +0000
Subject: [PATCH 166/173] fix: a buffer may be given its own data

---
 src/libzt/zt_buf.c | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_buf.c b/src/libzt/zt_buf.c
index 3620c38..906fb7e 100644
--- a/src/libzt/zt_buf.c
+++ b/src/libzt/zt_buf.c
@@ -100,6 +100,14 @@ zt_buf_drain(zt_buf_t * b, size_t len) {
     return b->len;
 }
 
+/* data handed in may be the buffer's own, which moves as the buffer grows */
+static void *
+buf_source(zt_buf_t * b, void * was, size_t len, void * data) {
+    size_t offt = (size_t)((uintptr_t)data - (uintptr_t)was);
+
+    return offt < len ? (void *)((char *)b->buf + offt) : data;
+}
+
 /* room for an addition, in proportion if possible so that additions stay cheap */
 static int
 buf_room(zt_buf_t * b, size_t len) {
@@ -116,10 +124,13 @@ buf_room(zt_buf_t * b, size_t len) {
 
 int
 zt_buf_add(zt_buf_t * b, void * data, size_t len) {
+    void * was = b->buf;
+
     if (buf_room(b, len) != 0) {
         return -1;
     }
 
+    data = buf_source(b, was, b->len, data);
     memcpy((void *)((char *)b->buf + b->len), data, len);
     b->len += len;
 
@@ -128,6 +139,11 @@ zt_buf_add(zt_buf_t * b, void * data, size_t len) {
 
 int
 zt_buf_add_buf(zt_buf_t * a, zt_buf_t * b) {
+    if (a == b) {
+        /* it is already there */
+        return 0;
+    }
+
     if (zt_buf_add(a, b->buf, b->len) != 0) {
         return -1;
     }
@@ -177,6 +193,8 @@ int
 zt_buf_iov_add(zt_buf_t * b, zt_iov_t * vec, int n_vec) {
     int    i;
     size_t tlen;
+    size_t len = b->len;
+    void * was = b->buf;
 
     tlen = zt_buf_iov_len(vec, n_vec);
     if (buf_room(b, tlen) != 0) {
@@ -184,7 +202,7 @@ zt_buf_iov_add(zt_buf_t * b, zt_iov_t * vec, int n_vec) {
     }
 
     for (i = 0; i < n_vec; i++) {
-        zt_buf_add(b, vec[i].iov_data, vec[i].iov_len);
+        zt_buf_add(b, buf_source(b, was, len, vec[i].iov_data), vec[i].iov_len);
     }
 
     return 0;
-- 
2.43.0


From 867a5522f7fcf4b2f62ffb34dc5cbe111ac67b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:56 +0000
Subject: [PATCH 167/173] fix: text may be copied within itself and paths taken
 apart in place

---
 src/libzt/zt_cstr.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 5c3c43d..9754976 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -597,13 +597,14 @@ char*
 zt_cstr_basename(char *npath, size_t len, const char *path, const char *suffix) {
     ssize_t   start;
     ssize_t   end;
+    size_t    n;
 
     zt_assert(npath);
     zt_assert(path);
 
-    memset(npath, '\0', len);
-
+    /* npath may be path */
     if (*path == '\0' || len == 0) {
+        memset(npath, '\0', len);
         return npath;
     }
 
@@ -626,7 +627,8 @@ zt_cstr_basename(char *npath, size_t len, const char *path, const char *suffix)
         }
     }
 
-    zt_cstr_copy(path, start, end, npath, len - 1);
+    n = zt_cstr_copy(path, start, end, npath, len - 1);
+    memset(&npath[n], '\0', len - n);
     return npath;
 }
 
@@ -635,12 +637,11 @@ char *
 zt_cstr_dirname(char *npath, size_t len, const char *path) {
     ssize_t    end    = -1;
     ssize_t    ps_len = strlen(PATH_SEPERATOR);
+    size_t     n;
 
     zt_assert(npath);
     zt_assert(path);
 
-    memset(npath, '\0', len);
-
     if (len == 0) {
         return npath;
     }
@@ -653,7 +654,8 @@ zt_cstr_dirname(char *npath, size_t len, const char *path) {
 
     if (end < 0 || (end = zt_cstr_rfind(path, 0, end, PATH_SEPERATOR)) == -1) {
         /* there is no path seperator */
-        zt_cstr_copy(".", 0, -1, npath, len - 1);
+        n = zt_cstr_copy(".", 0, -1, npath, len - 1);
+        memset(&npath[n], '\0', len - n);
         return npath;
     }
 
@@ -662,7 +664,9 @@ zt_cstr_dirname(char *npath, size_t len, const char *path) {
         end--;
     }
 
-    zt_cstr_copy(path, 0, end, npath, len - 1);
+    /* npath may be path */
+    n = zt_cstr_copy(path, 0, end, npath, len - 1);
+    memset(&npath[n], '\0', len - n);
     return npath;
 }
 
@@ -910,7 +914,7 @@ zt_cstr_copy(const char * from, ssize_t i, ssize_t j, char * to, size_t len) {
     flen = IDXLEN(i, j);
 
     min  = MIN(flen, len);
-    memcpy(to, &from[i], min);
+    memmove(to, &from[i], min);
     return min;
 }
 
-- 
2.43.0


From 3c6c52682bcdc6ee5e8732a8561d0963eb7ebd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:56 +0000
Subject: [PATCH 168/173] fix: the program's name may be set again from itself

---
 src/libzt/zt_progname.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_progname.c b/src/libzt/zt_progname.c
index 53a188f..aff8fea 100644
--- a/src/libzt/zt_progname.c
+++ b/src/libzt/zt_progname.c
@@ -39,11 +39,14 @@ char *
 zt_progname(const char *name, int opts)
 {
     if (name && *name != '\0') {
-        memset(_progname, '\0', PATH_MAX);
+        /* name may be the current one */
         if (opts == STRIP_DIR) {
             zt_cstr_basename(_progname, PATH_MAX, name, NULL);
         } else {
-            memcpy(_progname, name, MIN(PATH_MAX, strlen(name)));
+            size_t len = MIN(PATH_MAX, strlen(name));
+
+            memmove(_progname, name, len);
+            memset(&_progname[len], '\0', PATH_MAX - len);
         }
     }
     return _progname;
-- 
2.43.0


From 00114e8b4aa0ca08aeb9477dfa3b79518fddaabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:33 +0000
Subject: [PATCH 169/173] fix: zt_gc: releasing a value may unregister other
 values

The loops over the white list (and over all lists in zt_gc_destroy) kept
a pointer to the next value across the call of the release function, so
a release function that unregistered and freed another dead value made
the collector read freed memory.
---
 src/libzt/zt_gc.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/libzt/zt_gc.c b/src/libzt/zt_gc.c
index 407feba..53fdbae 100644
--- a/src/libzt/zt_gc.c
+++ b/src/libzt/zt_gc.c
@@ -207,7 +207,6 @@ void
 zt_gc_destroy(zt_gc_t *gc)
 {
     zt_elist_t * elt;
-    zt_elist_t * dont_use;
 
     if (gc->enabled != 0) {
         printf("# Warning: destroying gc while gc is disabled\n");
@@ -216,17 +215,21 @@ zt_gc_destroy(zt_gc_t *gc)
 
     zt_gc_collect(gc, TRUE);
 
-    zt_elist_for_each_safe(gc->white, elt, dont_use) {
+    /* releasing one value may unregister others */
+    while (!zt_elist_empty(gc->white)) {
+        elt = gc->white->next;
         zt_elist_remove(elt);
         gc->release_fn(gc, gc->private_data, (void **)&elt);
     }
 
-    zt_elist_for_each_safe(gc->grey, elt, dont_use) {
+    while (!zt_elist_empty(gc->grey)) {
+        elt = gc->grey->next;
         zt_elist_remove(elt);
         gc->release_fn(gc, gc->private_data, (void **)&elt);
     }
 
-    zt_elist_for_each_safe(gc->black, elt, dont_use) {
+    while (!zt_elist_empty(gc->black)) {
+        elt = gc->black->next;
         zt_elist_remove(elt);
         gc->release_fn(gc, gc->private_data, (void **)&elt);
     }
@@ -282,13 +285,10 @@ static void
 zt_gc_free_white(zt_gc_t *gc)
 {
     zt_elist_t          * elt = NULL;
-    zt_elist_t          * dont_use = NULL;
 
-    if (zt_elist_empty(gc->white)) {
-        return;
-    }
-
-    zt_elist_for_each_safe(gc->white, elt, dont_use) {
+    /* releasing one value may unregister others */
+    while (!zt_elist_empty(gc->white)) {
+        elt = gc->white->next;
         /* zt_gc_collectable_t * mark; */
         /* mark = zt_elist_data(elt, zt_gc_collectable_t, list); */
 
-- 
2.43.0


From fa920fb650900ebea00b875d5b79f17ad675bc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:09 +0000
Subject: [PATCH 170/173] fix: zt_ez_mempool: a free callback may use the pool

zt_ez_mempool_destroy remembered the first sub-pool and walked the
chunks without taking them off the pool, so a free callback that
destroyed a sub-pool left it with a freed pointer and what a callback
added to the pool was lost.
---
 src/libzt/zt_ez_mempool.c | 39 ++++++++++++++++-----------------------
 1 file changed, 16 insertions(+), 23 deletions(-)

diff --git a/src/libzt/zt_ez_mempool.c b/src/libzt/zt_ez_mempool.c
index 1b8eba9..ebdcc40 100644
--- a/src/libzt/zt_ez_mempool.c
+++ b/src/libzt/zt_ez_mempool.c
@@ -63,33 +63,25 @@ zt_ez_mempool_init(zt_ez_mempool *parent) {
 }
 
 static void
-free_chunks(zt_ez_mempool_chunk *chunks) {
-    zt_ez_mempool_chunk *chunk_ptr;
-
-    chunk_ptr = chunks;
-
-    while (chunk_ptr != NULL) {
-        zt_ez_mempool_chunk *tofree;
+free_chunks(zt_ez_mempool *pool) {
+    zt_ez_mempool_chunk *chunk;
 
-        tofree = chunk_ptr;
+    /* a callback may use the pool */
+    while ((chunk = pool->chunks) != NULL) {
+        pool->chunks = chunk->next;
 
-        if (chunk_ptr->free_cb) {
-            chunk_ptr->free_cb(chunk_ptr->data);
+        if (chunk->free_cb) {
+            chunk->free_cb(chunk->data);
         } else {
-            zt_free(chunk_ptr->data);
+            zt_free(chunk->data);
         }
 
-        chunk_ptr = chunk_ptr->next;
-        zt_free(tofree);
+        zt_free(chunk);
     }
 }
 
 void
 zt_ez_mempool_destroy(zt_ez_mempool *pool) {
-    zt_ez_mempool *pool_ptr;
-
-    pool_ptr = pool->subpools;
-
     if (pool->parent != NULL) {
         zt_ez_mempool **link = &pool->parent->subpools;
 
@@ -101,13 +93,14 @@ zt_ez_mempool_destroy(zt_ez_mempool *pool) {
         }
     }
 
-    free_chunks(pool->chunks);
+    do {
+        free_chunks(pool);
 
-    while (pool_ptr != NULL) {
-        zt_ez_mempool *next = pool_ptr->next;
-        zt_ez_mempool_destroy(pool_ptr);
-        pool_ptr = next;
-    }
+        if (pool->subpools != NULL) {
+            /* unlinks itself */
+            zt_ez_mempool_destroy(pool->subpools);
+        }
+    } while (pool->chunks != NULL || pool->subpools != NULL);
 
     zt_free(pool);
 }
-- 
2.43.0


From 84ecfc0d1954afe7e1b5a8600e14129a080b6ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:21 +0000
Subject: [PATCH 171/173] fix: zt_opts: a callback may process options itself

zt_opt_process_args called from within a callback that had fetched the
value attached to its own short option reset the note that the rest of
that argument is a value, and the outer call took the value for further
options.
---
 src/libzt/zt_opts.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libzt/zt_opts.c b/src/libzt/zt_opts.c
index f5b4f1b..228b003 100644
--- a/src/libzt/zt_opts.c
+++ b/src/libzt/zt_opts.c
@@ -508,6 +508,7 @@ _zt_opt_error_wrapper(int code, char * fmt, ...) {
 int
 zt_opt_process_args(int * argc, char ** argv, zt_opt_def_t * args, zt_opt_validate validate, zt_opt_error error) {
     int i;
+    int attached = _zt_opt_attached; /* the caller may be a callback */
 
     error    = error ? error : _zt_opt_error_wrapper;
     validate = validate ? validate : zt_opt_validate_default;
@@ -548,6 +549,7 @@ AGAIN:
                     _zt_opt_attached = 0;
                     if ((consumed = args[x].cb(i, x, argc, argv, args, error)) < 0) {
                         /* error */
+                        _zt_opt_attached = attached;
                         return consumed;
                     }
 
@@ -578,6 +580,7 @@ AGAIN:
     }
 
     *argc = i;
+    _zt_opt_attached = attached;
 
     return 0;
 } /* zt_opt_process_args */
-- 
2.43.0


From 33c27764f49b8fa5933c6b15350691e527da066d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:58 +0000
Subject: [PATCH 172/173] fix: zt_unit: zt_unit_register_suite is an expression

The macro ended in a semicolon: its value could not be used within an
expression, and an if with an else around it did not compile.
---
 src/libzt/zt_unit.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_unit.h b/src/libzt/zt_unit.h
index 0ceb25f..a4d95c0 100644
--- a/src/libzt/zt_unit.h
+++ b/src/libzt/zt_unit.h
@@ -119,10 +119,10 @@ zt_unit_register_suite_(struct zt_unit    * unit,
 
 #ifdef __cplusplus
 # define zt_unit_register_suite(unit, name, setup_fn, teardown_fn, data) \
-    zt_unit_register_suite_(unit, name, setup_fn, teardown_fn, data, zt_unit_try_cpp);
+    zt_unit_register_suite_(unit, name, setup_fn, teardown_fn, data, zt_unit_try_cpp)
 #else
 # define zt_unit_register_suite(unit, name, setup_fn, teardown_fn, data) \
-    zt_unit_register_suite_(unit, name, setup_fn, teardown_fn, data, zt_unit_try_c);
+    zt_unit_register_suite_(unit, name, setup_fn, teardown_fn, data, zt_unit_try_c)
 #endif
 
 void
-- 
2.43.0


From c3c609cda9159aaad1fde2af656195dcf6482a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:22 +0000
Subject: [PATCH 173/173] fix: zt_bstream: a clone keeps the byte order of the
 stream

zt_bstream_clone left flipendian unset, so the clone of a stream with
flipped byte order read other values from the same data.
---
 src/libzt/zt_bstream.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libzt/zt_bstream.c b/src/libzt/zt_bstream.c
index e9deea9..8f07a70 100644
--- a/src/libzt/zt_bstream.c
+++ b/src/libzt/zt_bstream.c
@@ -112,6 +112,7 @@ zt_bstream_clone(zt_bstream_t bs)
     clone = zt_calloc(struct zt_bstream, 1);
     clone->data = zt_array_copy(bs->data, zt_array_length(bs->data));
     clone->offt = bs->offt;
+    clone->flipendian = bs->flipendian;
 
     return clone;
 }
-- 
2.43.0


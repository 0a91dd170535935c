From 12768fe2ace39b460f46795d71087f81b3a0cf1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:27 +0000
Subject: [PATCH 01/36] fix: TLV decoder accepted lengths which do not fit into
 the input

---
 src/gutil_datapack.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gutil_datapack.c b/src/gutil_datapack.c
index 1a7f945..9199027 100644
--- a/src/gutil_datapack.c
+++ b/src/gutil_datapack.c
@@ -411,7 +411,7 @@ gutil_tlv_decode(
 
     if (gutil_unsigned_mbn_decode(&tmp, &tag) && tag <= INT_MAX &&
         gutil_unsigned_mbn_decode(&tmp, &len) &&
-        (tmp.end - tmp.ptr) >= (gssize) len) {
+        (guint64)(tmp.end - tmp.ptr) >= len) {
         if (val) {
             val->bytes = tmp.ptr;
             val->size = (gsize) len;
-- 
2.43.0


From a78ffdc5e6a38bdc0351fb7ee867ce9b3dfc716c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:32 +0000
Subject: [PATCH 02/36] fix: TLV decoder consumed entries with zero tag

---
 src/gutil_datapack.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gutil_datapack.c b/src/gutil_datapack.c
index 9199027..5cfeb98 100644
--- a/src/gutil_datapack.c
+++ b/src/gutil_datapack.c
@@ -409,7 +409,7 @@ gutil_tlv_decode(
     GUtilRange tmp = *in;
     guint64 tag, len;
 
-    if (gutil_unsigned_mbn_decode(&tmp, &tag) && tag <= INT_MAX &&
+    if (gutil_unsigned_mbn_decode(&tmp, &tag) && tag > 0 && tag <= INT_MAX &&
         gutil_unsigned_mbn_decode(&tmp, &len) &&
         (guint64)(tmp.end - tmp.ptr) >= len) {
         if (val) {
-- 
2.43.0


From cd497d9c1f2ae89158750cc180ec2eb119df5706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:37 +0000
Subject: [PATCH 03/36] fix: Signed MBN decoder accepted numbers which do not
 fit into gint64

---
 src/gutil_datapack.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gutil_datapack.c b/src/gutil_datapack.c
index 5cfeb98..aa454e7 100644
--- a/src/gutil_datapack.c
+++ b/src/gutil_datapack.c
@@ -166,7 +166,7 @@ gutil_signed_mbn_decode(
                         return TRUE;
                     } else {
                         /* Unused bits must be set to 1 */
-                        if ((msc | ((1 << (maxbits - nbits)) - 1)) == 0xff) {
+                        if ((msc | ((1 << (maxbits - nbits - 1)) - 1)) == 0xff) {
                             if (out) {
                                 *out = value;
                             }
@@ -178,7 +178,7 @@ gutil_signed_mbn_decode(
                     /* Positive number, unused bits (if any) must be zeroed */
                     /* Unused bits must be zeroed */
                     if ((nbits + 7) < maxbits ||
-                        (msc & ~((1 << (maxbits - nbits)) - 1)) == 0x80) {
+                        (msc & ~((1 << (maxbits - nbits - 1)) - 1)) == 0x80) {
                         if (out) {
                             *out = value;
                         }
-- 
2.43.0


From 0f446b29bb0032481a5f4e0918816fba85daf8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:42 +0000
Subject: [PATCH 04/36] fix: Undefined shift and overflow in signed MBN decoder

---
 src/gutil_datapack.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gutil_datapack.c b/src/gutil_datapack.c
index aa454e7..6ffc0ac 100644
--- a/src/gutil_datapack.c
+++ b/src/gutil_datapack.c
@@ -159,7 +159,7 @@ gutil_signed_mbn_decode(
                     if ((nbits + 7) < maxbits) {
                         /* Extend the sign bit */
                         if (out) {
-                            *out = value | ~((G_GINT64_CONSTANT(1) <<
+                            *out = value | ~((G_GUINT64_CONSTANT(1) <<
                                 (nbits + 7)) - 1);
                         }
                         in->ptr += off;
-- 
2.43.0


From 6ada4d81691787766d372887fbf0251611a727de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:47 +0000
Subject: [PATCH 05/36] fix: Bogus assert in gutil_int_history_size

---
 src/gutil_history.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gutil_history.c b/src/gutil_history.c
index 5bb118f..a3570b7 100644
--- a/src/gutil_history.c
+++ b/src/gutil_history.c
@@ -139,7 +139,7 @@ gutil_int_history_size(
             if (h->first > h->last) {
                 return (h->max_size + h->last - h->first + 1);
             } else {
-                GASSERT(h->last > h->first);
+                GASSERT(h->last >= h->first);
                 return (h->last - h->first + 1);
             }
         }
-- 
2.43.0


From 052a5889dc6cb5e1c855ed10dac2dd2b0619f4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:52 +0000
Subject: [PATCH 06/36] fix: Integer overflow in gutil_int_history_median

---
 src/gutil_history.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gutil_history.c b/src/gutil_history.c
index a3570b7..d15cbb7 100644
--- a/src/gutil_history.c
+++ b/src/gutil_history.c
@@ -195,7 +195,7 @@ gutil_int_history_median_at(
             t1 = h->entry[pos].time;
             v1 = h->entry[pos].value;
             dt += t1 - t;
-            area += (t1 - t)*(v + v1)/2;
+            area += (t1 - t)*((gint64)v + v1)/2;
             t = t1;
             v = v1;
         }
-- 
2.43.0


From 3dbbc5cf788e03779604490ddad3f0168c4bc75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:58 +0000
Subject: [PATCH 07/36] fix: Allow callbacks to drop the last reference to
 GUtilIdleQueue

---
 src/gutil_idlequeue.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/gutil_idlequeue.c b/src/gutil_idlequeue.c
index f841f8b..502b300 100644
--- a/src/gutil_idlequeue.c
+++ b/src/gutil_idlequeue.c
@@ -77,6 +77,10 @@ gutil_idle_queue_run(
     GUtilIdleQueue* q = data;
     GUtilIdleQueueItem* item;
     GUtilIdleQueueItem* done = NULL;
+    gboolean ret;
+
+    /* Callbacks may drop the last external reference to the queue */
+    gutil_idle_queue_ref(q);
 
     /*
      * Mark all currently existing items as as completed. Callbacks
@@ -89,7 +93,8 @@ gutil_idle_queue_run(
         item->completed = TRUE;
     }
 
-    while ((item = q->first) && item->completed) {
+    while (g_atomic_int_get(&q->ref_count) > 1 &&
+        (item = q->first) && item->completed) {
         /* Remove this one from the list */
         q->first = item->next;
         if (!q->first) {
@@ -115,11 +120,15 @@ gutil_idle_queue_run(
 
     if (q->first) {
         /* New callbacks have been added */
-        return G_SOURCE_CONTINUE;
+        ret = G_SOURCE_CONTINUE;
     } else {
         q->source_id = 0;
-        return G_SOURCE_REMOVE;
+        ret = G_SOURCE_REMOVE;
     }
+
+    /* If that was the last reference, this cancels the remaining items */
+    gutil_idle_queue_unref(q);
+    return ret;
 }
 
 GUtilIdleQueue*
-- 
2.43.0


From fa45e60d44d4522e0bd490a12e9d3eb21ff814e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:03 +0000
Subject: [PATCH 08/36] fix: Inotify file descriptor was closed twice

---
 src/gutil_inotify.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/gutil_inotify.c b/src/gutil_inotify.c
index 7349f1d..fe862e5 100644
--- a/src/gutil_inotify.c
+++ b/src/gutil_inotify.c
@@ -122,7 +122,6 @@ gutil_inotify_unref(
         g_hash_table_destroy(self->watches);
         g_io_channel_shutdown(self->io_channel, FALSE, NULL);
         g_io_channel_unref(self->io_channel);
-        close(self->fd);
         g_free(self);
         if (gutil_inotify_instance == self) {
             gutil_inotify_instance = NULL;
-- 
2.43.0


From c2e2c8eb3b5b3f31e161a7ece5f4d4db459a66be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:09 +0000
Subject: [PATCH 09/36] fix: Integer overflow in GUtilIntArray sorting
 functions

---
 src/gutil_intarray.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gutil_intarray.c b/src/gutil_intarray.c
index 2dec4b5..cd6554c 100644
--- a/src/gutil_intarray.c
+++ b/src/gutil_intarray.c
@@ -320,7 +320,7 @@ gutil_int_array_sort_ascending_proc(
     const int* v1 = a;
     const int* v2 = b;
 
-    return *v1 - *v2;
+    return (*v1 > *v2) - (*v1 < *v2);
 }
 
 void
@@ -341,7 +341,7 @@ gutil_int_array_sort_descending_proc(
     const int* v1 = a;
     const int* v2 = b;
 
-    return *v2 - *v1;
+    return (*v2 > *v1) - (*v2 < *v1);
 }
 
 void
-- 
2.43.0


From 5704305980d132741e7d1465a312d2de5d0f72a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:13 +0000
Subject: [PATCH 10/36] fix: Integer overflow in gutil_int_array_remove_range

---
 src/gutil_intarray.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/gutil_intarray.c b/src/gutil_intarray.c
index cd6554c..9b039f5 100644
--- a/src/gutil_intarray.c
+++ b/src/gutil_intarray.c
@@ -301,12 +301,9 @@ gutil_int_array_remove_range(
     guint count)
 {
     if (array && pos < array->count && count) {
-        guint end = pos + count;
+        const guint max_count = array->count - pos;
 
-        if (end > array->count) {
-            end = array->count;
-        }
-        g_array_remove_range((GArray*)array, pos, end - pos);
+        g_array_remove_range((GArray*)array, pos, MIN(count, max_count));
     }
     return array;
 }
-- 
2.43.0


From acd0cc29e5b40cd568eeb614c49abda3a095d3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:18 +0000
Subject: [PATCH 11/36] fix: Missing range check in
 gutil_int_array_remove_index_fast

---
 src/gutil_intarray.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gutil_intarray.c b/src/gutil_intarray.c
index 9b039f5..4a713f0 100644
--- a/src/gutil_intarray.c
+++ b/src/gutil_intarray.c
@@ -288,7 +288,7 @@ gutil_int_array_remove_index_fast(
     GUtilIntArray* array,
     guint pos)
 {
-    if (array) {
+    if (array && pos < array->count) {
         g_array_remove_index_fast((GArray*)array, pos);
     }
     return array;
-- 
2.43.0


From 709d991774a0e06d84e5fc288537fae7245e4632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:23 +0000
Subject: [PATCH 12/36] fix: Integer overflow and leak in
 gutil_ints_new_from_ints

---
 src/gutil_ints.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/gutil_ints.c b/src/gutil_ints.c
index 57c0964..a7aeeb5 100644
--- a/src/gutil_ints.c
+++ b/src/gutil_ints.c
@@ -110,14 +110,11 @@ gutil_ints_new_from_ints(
     guint offset,
     guint count)
 {
-    if (ints && offset < ints->count) {
-        guint end = offset + count;
+    if (ints && offset < ints->count && count) {
+        const guint max_count = ints->count - offset;
 
-        if (end > ints->count) {
-            end = ints->count;
-        }
-        return gutil_ints_new_with_free_func(ints->data + offset, end - offset,
-            gutil_ints_unref1, gutil_ints_ref(ints));
+        return gutil_ints_new_with_free_func(ints->data + offset,
+            MIN(count, max_count), gutil_ints_unref1, gutil_ints_ref(ints));
     }
     return NULL;
 }
-- 
2.43.0


From 8f345ec50aa894b1742fec66bcd2f1010976f26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:28 +0000
Subject: [PATCH 13/36] fix: gutil_ints_unref_to_data crash on static data

---
 src/gutil_ints.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gutil_ints.c b/src/gutil_ints.c
index a7aeeb5..a29be82 100644
--- a/src/gutil_ints.c
+++ b/src/gutil_ints.c
@@ -161,7 +161,9 @@ gutil_ints_unref_to_data(
                 result = (int*)ints->data;
             } else {
                 result = gutil_memdup(ints->data, ints->count * sizeof(int));
-                ints->free_func(ints->user_data);
+                if (ints->free_func) {
+                    ints->free_func(ints->user_data);
+                }
             }
             gutil_slice_free(ints);
         } else {
-- 
2.43.0


From 7ed1e152e1d66829ca098c10dbcdf2e4526b16d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:33 +0000
Subject: [PATCH 14/36] fix: gutil_ints_unref_to_data could return non-freeable
 pointer

---
 src/gutil_ints.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gutil_ints.c b/src/gutil_ints.c
index a29be82..46d187b 100644
--- a/src/gutil_ints.c
+++ b/src/gutil_ints.c
@@ -156,7 +156,7 @@ gutil_ints_unref_to_data(
             *count = ints->count;
         }
         if (g_atomic_int_dec_and_test(&ints->ref_count)) {
-            if (ints->free_func == g_free) {
+            if (ints->free_func == g_free && ints->user_data == ints->data) {
                 /* We can allow the caller to free the data */
                 result = (int*)ints->data;
             } else {
-- 
2.43.0


From ebdd86128313ba4b1e0bdb71728f12736a953c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:38 +0000
Subject: [PATCH 15/36] fix: Heap overflow after gutil_ring_flatten

---
 src/gutil_ring.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gutil_ring.c b/src/gutil_ring.c
index 93dea3a..c5564ab 100644
--- a/src/gutil_ring.c
+++ b/src/gutil_ring.c
@@ -426,7 +426,7 @@ gutil_ring_flatten(
 
     if (G_LIKELY(r) && n > 0) {
         if (r->start > 0 && r->start >= r->end) {
-            gpointer* buf = g_new(gpointer, n);
+            gpointer* buf = g_new(gpointer, r->alloc);
             const gint n1 = r->alloc - r->start;
 
             memcpy(buf, r->data + r->start, sizeof(gpointer) * n1);
-- 
2.43.0


From 317ac3d07e69c51519cbb1d11c963aa84027d7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:44 +0000
Subject: [PATCH 16/36] fix: Integer overflow in gutil_ring_can_put

---
 src/gutil_ring.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gutil_ring.c b/src/gutil_ring.c
index c5564ab..155bbdf 100644
--- a/src/gutil_ring.c
+++ b/src/gutil_ring.c
@@ -271,7 +271,7 @@ gutil_ring_can_put(
     gint n)
 {
     if (G_LIKELY(r)) {
-        return r->maxsiz < 0 || (gutil_ring_size(r) + n) <= r->maxsiz;
+        return r->maxsiz < 0 || n <= (r->maxsiz - gutil_ring_size(r));
     }
     return FALSE;
 }
-- 
2.43.0


From 01022d7339ce31df519388fc538b98d407d81782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:49 +0000
Subject: [PATCH 17/36] fix: Ring buffer could grow beyond its maximum size

---
 src/gutil_ring.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gutil_ring.c b/src/gutil_ring.c
index 155bbdf..2127ea3 100644
--- a/src/gutil_ring.c
+++ b/src/gutil_ring.c
@@ -281,7 +281,8 @@ gutil_ring_put(
     GUtilRing* r,
     gpointer data)
 {
-    if (gutil_ring_reserve(r, gutil_ring_size(r) + 1)) {
+    if (gutil_ring_can_put(r, 1) &&
+        gutil_ring_reserve(r, gutil_ring_size(r) + 1)) {
         if (r->start < 0) {
             r->start = r->end = 0;
         }
@@ -298,7 +299,8 @@ gutil_ring_put_front(
     GUtilRing* r,
     gpointer data)
 {
-    if (gutil_ring_reserve(r, gutil_ring_size(r) + 1)) {
+    if (gutil_ring_can_put(r, 1) &&
+        gutil_ring_reserve(r, gutil_ring_size(r) + 1)) {
         if (r->start >= 0) {
             r->start = (r->start + r->alloc - 1) % r->alloc;
         } else {
-- 
2.43.0


From 1018a4a5cc62cba877b15d235f09548e9bc79ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:54 +0000
Subject: [PATCH 18/36] fix: gutil_ring_reserve succeeded without reserving
 enough space

---
 src/gutil_ring.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gutil_ring.c b/src/gutil_ring.c
index 2127ea3..6c1a8d2 100644
--- a/src/gutil_ring.c
+++ b/src/gutil_ring.c
@@ -228,7 +228,7 @@ gutil_ring_reserve(
         if (minsize <= r->alloc) {
             /* The buffer is already large enough */
             return TRUE;
-        } else if (r->maxsiz >= 0 && r->alloc >= r->maxsiz) {
+        } else if (r->maxsiz >= 0 && minsize > r->maxsiz) {
             /* Can't grow the buffer anymore */
             return FALSE;
         } else {
-- 
2.43.0


From bb1cd1f433800bcf3a4c2797e069d0f55f1710a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:59 +0000
Subject: [PATCH 19/36] fix: gutil_log ignored disabled flag of the default
 module

---
 src/gutil_log.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gutil_log.c b/src/gutil_log.c
index 019f0fb..ae2c6e4 100644
--- a/src/gutil_log.c
+++ b/src/gutil_log.c
@@ -437,6 +437,7 @@ gutil_logv(
     va_list va)
 {
     if (level != GLOG_LEVEL_NONE && gutil_log_func2) {
+        if (!module) module = &gutil_log_default;
         gutil_logv_r(module, module, level, format, va);
     }
 }
-- 
2.43.0


From f7d5cce12f9c3116f10403cba3004dc280bfbd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:04 +0000
Subject: [PATCH 20/36] fix: Uninitialized memory printed if timestamp is too
 long

---
 src/gutil_log.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gutil_log.c b/src/gutil_log.c
index ae2c6e4..9dcf07f 100644
--- a/src/gutil_log.c
+++ b/src/gutil_log.c
@@ -181,7 +181,10 @@ gutil_log_stdio(
 #endif
 
         time(&now);
-        strftime(t, sizeof(t), gutil_log_ftime, localtime(&now));
+        if (!strftime(t, sizeof(t), gutil_log_ftime, localtime(&now))) {
+            /* Too long or empty, the buffer contents is undefined */
+            t[0] = 0;
+        }
 #undef localtime
     } else {
         t[0] = 0;
-- 
2.43.0


From e590de8fd8cc0e1ca12eddd67db9745409f8f322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:09 +0000
Subject: [PATCH 21/36] fix: Infinite loop dumping 4G or more

---
 src/gutil_log.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/gutil_log.c b/src/gutil_log.c
index 9dcf07f..c8a6558 100644
--- a/src/gutil_log.c
+++ b/src/gutil_log.c
@@ -513,14 +513,16 @@ gutil_log_dump2(
     gsize size)
 {
     const guint8* ptr = data;
-    guint off = 0;
+    gsize off = 0;
 
     if (!prefix) prefix = "";
     while (size > 0) {
         char buf[GUTIL_HEXDUMP_BUFSIZE];
-        const guint consumed = gutil_hexdump(buf, ptr + off, size);
+        const guint consumed = gutil_hexdump(buf, ptr + off,
+            MIN(size, GUTIL_HEXDUMP_MAXBYTES));
 
-        gutil_log(module, level, "%s%04X: %s", prefix, off, buf);
+        gutil_log(module, level, "%s%04" G_GSIZE_MODIFIER "X: %s", prefix, off,
+            buf);
         size -= consumed;
         off += consumed;
     }
-- 
2.43.0


From c834226bf943528aaad315d99ad53dba1bd8a6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:14 +0000
Subject: [PATCH 22/36] fix: Blank strings were parsed as zero

---
 src/gutil_misc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gutil_misc.c b/src/gutil_misc.c
index 241edd5..b365b2f 100644
--- a/src/gutil_misc.c
+++ b/src/gutil_misc.c
@@ -312,7 +312,7 @@ gutil_parse_int64(
 
         errno = 0;
         ll = g_ascii_strtoll(stripped, &end, base);
-        if (end && !*end &&
+        if (end && end > stripped && !*end &&
             !((ll == G_MAXINT64 || ll == G_MININT64) && errno == ERANGE) &&
             !(ll == 0 && errno == EINVAL)) {
             if (value) {
@@ -347,7 +347,7 @@ gutil_parse_uint64(
 
             errno = 0;
             ull = g_ascii_strtoull(stripped, &end, base);
-            if (end && !*end &&
+            if (end && end > stripped && !*end &&
                 !(ull == G_MAXUINT64 && errno == ERANGE) &&
                 !(ull == 0 && errno == EINVAL)) {
                 if (value) {
-- 
2.43.0


From 3c88f525565835b802621262b366838c5eb3cd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:20 +0000
Subject: [PATCH 23/36] fix: Minus after vertical tab was accepted in unsigned
 numbers

---
 src/gutil_misc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gutil_misc.c b/src/gutil_misc.c
index b365b2f..d9ca35b 100644
--- a/src/gutil_misc.c
+++ b/src/gutil_misc.c
@@ -341,7 +341,7 @@ gutil_parse_uint64(
         char* tmp = NULL;
         const char* stripped = gutil_strstrip(str, &tmp);
 
-        if (*stripped != '-') {
+        if (!strchr(stripped, '-')) {
             char* end = NULL;
             guint64 ull;
 
-- 
2.43.0


From 32826e654e6825b966bd50c0248a2cc400d03cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:25 +0000
Subject: [PATCH 24/36] fix: Misaligned access in gutil_bytes_xor

---
 src/gutil_misc.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gutil_misc.c b/src/gutil_misc.c
index d9ca35b..a09090f 100644
--- a/src/gutil_misc.c
+++ b/src/gutil_misc.c
@@ -587,8 +587,9 @@ gutil_bytes_xor(
             const guint8* tail2;
             guint8* xor_tail;
 
-            /* Optimize by XOR-ing entire words */
-            for (i = 0; (i + sizeof(*long1)) <= size; i += sizeof(*long1)) {
+            /* Optimize by XOR-ing entire words (if data is aligned) */
+            for (i = 0; !((gsize)data1 % sizeof(*long1)) &&
+                !((gsize)data2 % sizeof(*long2)) && (i + sizeof(*long1)) <= size; i += sizeof(*long1)) {
                 *xor_long++ = (*long1++) ^ (*long2++);
             }
 
-- 
2.43.0


From 007fe0b5b2dc97a17f5198bcf1ecaa49e6c4262a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:31 +0000
Subject: [PATCH 25/36] fix: Use after free in gutil_strv_remove

---
 src/gutil_strv.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gutil_strv.c b/src/gutil_strv.c
index a637782..ec3e743 100644
--- a/src/gutil_strv.c
+++ b/src/gutil_strv.c
@@ -244,6 +244,8 @@ gutil_strv_remove(
 
         if (pos >= 0) {
             guint len = gutil_strv_length(sv);
+            /* The string being removed may be the one from the array */
+            char* tmp = remove_all ? g_strdup(s) : NULL;
 
             sv = gutil_strv_remove_impl(sv, pos, len, TRUE);
             if (remove_all) {
@@ -251,11 +253,12 @@ gutil_strv_remove(
 
                 len--;
                 l = len - pos;
-                while ((i = gutil_strv_find_last_impl(sv + pos, s, l)) >= 0) {
+                while ((i = gutil_strv_find_last_impl(sv + pos, tmp, l)) >= 0) {
                     sv = gutil_strv_remove_impl(sv, pos + i, len--, TRUE);
                     l = i;
                 }
             }
+            g_free(tmp);
         }
     }
     return sv;
-- 
2.43.0


From 6c45320b05386124157dc0fcc81883ee86de8376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:36 +0000
Subject: [PATCH 26/36] fix: Unbalanced parentheses in version macros

---
 include/gutil_version.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/gutil_version.h b/include/gutil_version.h
index 8d47af5..80d10fc 100644
--- a/include/gutil_version.h
+++ b/include/gutil_version.h
@@ -78,11 +78,11 @@ extern const guint gutil_version_micro; /* GUTIL_VERSION_MICRO */
 #define GUTIL_VERSION_1_0_72 GUTIL_VERSION_(1,0,72)
 #define GUTIL_VERSION_1_0_73 GUTIL_VERSION_(1,0,73)
 #define GUTIL_VERSION_1_0_74 GUTIL_VERSION_(1,0,74)
-#define GUTIL_VERSION_1_0_75 GUTIL_VERSION_(1,0,75))
-#define GUTIL_VERSION_1_0_76 GUTIL_VERSION_(1,0,76))
-#define GUTIL_VERSION_1_0_77 GUTIL_VERSION_(1,0,77))
-#define GUTIL_VERSION_1_0_78 GUTIL_VERSION_(1,0,78))
-#define GUTIL_VERSION_1_0_79 GUTIL_VERSION_(1,0,79))
+#define GUTIL_VERSION_1_0_75 GUTIL_VERSION_(1,0,75)
+#define GUTIL_VERSION_1_0_76 GUTIL_VERSION_(1,0,76)
+#define GUTIL_VERSION_1_0_77 GUTIL_VERSION_(1,0,77)
+#define GUTIL_VERSION_1_0_78 GUTIL_VERSION_(1,0,78)
+#define GUTIL_VERSION_1_0_79 GUTIL_VERSION_(1,0,79)
 
 G_END_DECLS
 
-- 
2.43.0


From 4a87b9b501b12bc035a6c2f90f9a84c1edb4215d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:41 +0000
Subject: [PATCH 27/36] fix: Idle pool removed wrong source if thread has its
 own main context

---
 src/gutil_idlepool.c | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/gutil_idlepool.c b/src/gutil_idlepool.c
index f279862..8039657 100644
--- a/src/gutil_idlepool.c
+++ b/src/gutil_idlepool.c
@@ -50,7 +50,7 @@ struct gutil_idle_pool_item {
 
 struct gutil_idle_pool {
     gint ref_count;
-    guint idle_id;
+    GSource* idle;
     GThread* thread;
     GUtilIdlePoolItem* first;
     GUtilIdlePoolItem* last;
@@ -173,11 +173,13 @@ gutil_idle_pool_drain(
         }
         g_slice_free_chain(GUtilIdlePoolItem, items, next);
     }
-    if (self->idle_id) {
-        const guint id = self->idle_id;
+    if (self->idle) {
+        GSource* src = self->idle;
 
-        self->idle_id = 0;
-        g_source_remove(id);
+        /* The source isn't necessarily attached to the default context */
+        self->idle = NULL;
+        g_source_destroy(src);
+        g_source_unref(src);
     }
 }
 
@@ -188,8 +190,6 @@ gutil_idle_pool_idle(
 {
     GUtilIdlePool* self = user_data;
 
-    self->idle_id = 0;
-
     /*
      * gutil_idle_pool_idle may be invoked on a wrong (main) thread if
      * something is added to a thread specific pool (e.g. the one created
@@ -240,16 +240,21 @@ gutil_idle_pool_add(
             self->first = item;
         }
         self->last = item;
-        if (!self->idle_id) {
+        if (self->idle && g_source_is_destroyed(self->idle)) {
+            /* It was attached to a context which no longer exists */
+            g_source_unref(self->idle);
+            self->idle = NULL;
+        }
+        if (!self->idle) {
             GSource* src = g_idle_source_new();
             GMainContext* context = g_main_context_get_thread_default();
 
             g_source_set_priority(src, G_PRIORITY_DEFAULT_IDLE);
             g_source_set_callback(src, gutil_idle_pool_idle,
                 gutil_idle_pool_ref(self), gutil_idle_pool_unref_1);
-            self->idle_id = g_source_attach(src, context ? context :
+            g_source_attach(src, context ? context :
                 g_main_context_default());
-            g_source_unref(src);
+            self->idle = src;
         }
     }
     return pointer;
-- 
2.43.0


From ebfa05fc399e515824b7fa290bad4b8923b5f593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:46 +0000
Subject: [PATCH 28/36] fix: Idle pool could be freed while being drained

---
 src/gutil_idlepool.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/gutil_idlepool.c b/src/gutil_idlepool.c
index 8039657..e09d496 100644
--- a/src/gutil_idlepool.c
+++ b/src/gutil_idlepool.c
@@ -138,8 +138,13 @@ gutil_idle_pool_unref(
         if (g_atomic_int_dec_and_test(&self->ref_count)) {
             /* Clear pointer to the shared instance */
             if (self->shared) *(self->shared) = NULL;
+            self->shared = NULL;
+            /* Destroy callbacks may temporarily reference the pool */
+            g_atomic_int_set(&self->ref_count, 1);
             gutil_idle_pool_drain(self);
-            gutil_slice_free(self);
+            if (g_atomic_int_dec_and_test(&self->ref_count)) {
+                gutil_slice_free(self);
+            }
         }
     }
 }
@@ -162,6 +167,8 @@ gutil_idle_pool_drain(
     if (!self) {
         self = gutil_idle_pool_get_default();
     }
+    /* Destroy callbacks may release the pool */
+    gutil_idle_pool_ref(self);
     while (self->first) {
         GUtilIdlePoolItem* items = self->first;
         GUtilIdlePoolItem* item = items;
@@ -181,6 +188,7 @@ gutil_idle_pool_drain(
         g_source_destroy(src);
         g_source_unref(src);
     }
+    gutil_idle_pool_unref(self);
 }
 
 static
-- 
2.43.0


From 90c48a5b50f1168793b841b4779d9c6378415794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:26 +0000
Subject: [PATCH 29/36] fix: Bogus assertion in gutil_idle_queue_cancel_tag

The source may be gone by the time the free callback returns, if
the callback cancels the remaining items.
---
 src/gutil_idlequeue.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gutil_idlequeue.c b/src/gutil_idlequeue.c
index 502b300..1202ad8 100644
--- a/src/gutil_idlequeue.c
+++ b/src/gutil_idlequeue.c
@@ -275,8 +275,9 @@ gutil_idle_queue_cancel_tag(
         GUtilIdleQueueItem* item = q->first;
         if (item->tag == tag) {
             item->completed = TRUE;
-            gutil_idle_queue_cancel_first(q);
             GASSERT(q->source_id);
+            /* Free callback may cancel everything else, and the source too */
+            gutil_idle_queue_cancel_first(q);
             if (!q->first) {
                 gutil_source_clear(&q->source_id);
             }
-- 
2.43.0


From e746a443521195791f76a1138107c187c2be8275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:56 +0000
Subject: [PATCH 30/36] fix: Destroying inotify watch broke another watch of
 the same file

The kernel returns the same watch descriptor if the same file is being
watched more than once.
---
 src/gutil_inotify.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/gutil_inotify.c b/src/gutil_inotify.c
index fe862e5..55826b3 100644
--- a/src/gutil_inotify.c
+++ b/src/gutil_inotify.c
@@ -263,8 +263,17 @@ gutil_inotify_remove_watch(
     GUtilInotify* self,
     GUtilInotifyWatch* watch)
 {
+    gpointer key = GINT_TO_POINTER(watch->wd);
+
     GASSERT(watch->wd >= 0);
-    GVERIFY(g_hash_table_remove(self->watches, GINT_TO_POINTER(watch->wd)));
+    /*
+     * If the same file is being watched more than once, the kernel returns
+     * the same descriptor, which then belongs to the most recent watch.
+     */
+    if (g_hash_table_lookup(self->watches, key) == watch) {
+        g_hash_table_remove(self->watches, key);
+        inotify_rm_watch(self->fd, watch->wd);
+    }
 }
 
 /*==========================================================================*
@@ -310,7 +319,6 @@ gutil_inotify_watch_stop(
 {
     if (self->wd >= 0) {
         gutil_inotify_remove_watch(self->inotify, self);
-        inotify_rm_watch(self->inotify->fd, self->wd);
         self->wd = -1;
     }
 }
-- 
2.43.0


From efc4d93e5121905d04c7ed598120d91a26803d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:53 +0000
Subject: [PATCH 31/36] fix: gutil_ints_unref_to_data touched data after
 releasing the reference

Another thread could release the last reference while the data was still
being copied.
---
 src/gutil_ints.c | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/gutil_ints.c b/src/gutil_ints.c
index 46d187b..b6f828c 100644
--- a/src/gutil_ints.c
+++ b/src/gutil_ints.c
@@ -155,19 +155,15 @@ gutil_ints_unref_to_data(
         if (count) {
             *count = ints->count;
         }
-        if (g_atomic_int_dec_and_test(&ints->ref_count)) {
-            if (ints->free_func == g_free && ints->user_data == ints->data) {
-                /* We can allow the caller to free the data */
-                result = (int*)ints->data;
-            } else {
-                result = gutil_memdup(ints->data, ints->count * sizeof(int));
-                if (ints->free_func) {
-                    ints->free_func(ints->user_data);
-                }
-            }
+        if (ints->free_func == g_free && ints->user_data == ints->data &&
+            g_atomic_int_get(&ints->ref_count) == 1) {
+            /* We can allow the caller to free the data */
+            result = (int*)ints->data;
             gutil_slice_free(ints);
         } else {
+            /* The data can't be touched after the reference is released */
             result = gutil_memdup(ints->data, ints->count * sizeof(int));
+            gutil_ints_unref(ints);
         }
         return result;
     } else {
-- 
2.43.0


From c13539ec749cf9162f429fd0ffef55e0b0b55bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:51 +0000
Subject: [PATCH 32/36] fix: Out of memory logging something that can't be
 formatted

vsnprintf fails no matter how large the buffer is if it can't convert
the wide character string in the current locale.
---
 src/gutil_log.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gutil_log.c b/src/gutil_log.c
index c8a6558..4ea68da 100644
--- a/src/gutil_log.c
+++ b/src/gutil_log.c
@@ -148,7 +148,9 @@ gutil_log_format(
             if (nchars < size) break;
             size = nchars+1;  /* Precisely what is needed */
         } else {
-            size *= 2;        /* Twice the old size */
+            /* Invalid argument, more space won't help. Show the format */
+            g_strlcpy(buffer, format, size);
+            break;
         }
 
         if (buffer != buf) g_free(buffer);
-- 
2.43.0


From 6f47d5fd74b9794880dc0695bda2516ff27f6131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:44 +0000
Subject: [PATCH 33/36] fix: gutil_data_copy truncated blocks larger than 4G

---
 src/gutil_misc.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/gutil_misc.c b/src/gutil_misc.c
index a09090f..cebb095 100644
--- a/src/gutil_misc.c
+++ b/src/gutil_misc.c
@@ -410,10 +410,11 @@ gutil_data_from_bytes(
     return data;
 }
 
+static
 GUtilData*
-gutil_data_new(
+gutil_data_alloc(
     const void* bytes,
-    guint len) /* Since 1.0.72 */
+    gsize len)
 {
     /*
      * The whole thing is allocated from a single memory block and
@@ -434,6 +435,14 @@ gutil_data_new(
     return data;
 }
 
+GUtilData*
+gutil_data_new(
+    const void* bytes,
+    guint len) /* Since 1.0.72 */
+{
+    return gutil_data_alloc(bytes, len);
+}
+
 GUtilData*
 gutil_data_copy(
     const GUtilData* data) /* Since 1.0.72 */
@@ -442,7 +451,7 @@ gutil_data_copy(
      * The whole thing is allocated from a single memory block and
      * has to be freed with a single g_free()
      */
-    return data ? gutil_data_new(data->bytes, data->size) : NULL;
+    return data ? gutil_data_alloc(data->bytes, data->size) : NULL;
 }
 
 GVariant*
-- 
2.43.0


From c4e7f9d882d0593083c52e84a5529f1ad883e216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:27 +0000
Subject: [PATCH 34/36] fix: Integer overflow in gutil_int_history_median over
 long time spans

---
 src/gutil_history.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/gutil_history.c b/src/gutil_history.c
index d15cbb7..9c88719 100644
--- a/src/gutil_history.c
+++ b/src/gutil_history.c
@@ -183,16 +183,30 @@ gutil_int_history_median_at(
     } else {
         int pos = h->first;
         int v = h->entry[pos].value;
-        gint64 t = h->entry[pos].time;
+        const gint64 t0 = h->entry[pos].time;
+        const gint64 total = h->entry[h->last].time - t0;
+        gint64 max = MAX(ABS((gint64)v), 1);
+        gint64 t = 0;
         gint64 dt = 0;
         gint64 area = 0;
+        int shift = 0;
 
+        /* Scale the time down if the area may not fit into 64 bits */
+        while (pos != h->last) {
+            pos = (pos + 1) % h->max_size;
+            max = MAX(max, ABS((gint64)h->entry[pos].value));
+        }
+        while ((total >> shift) > G_MAXINT64/(2*max)) {
+            shift++;
+        }
+
+        pos = h->first;
         while (pos != h->last) {
             gint64 t1;
             int v1;
 
             pos = (pos + 1) % h->max_size;
-            t1 = h->entry[pos].time;
+            t1 = (h->entry[pos].time - t0) >> shift;
             v1 = h->entry[pos].value;
             dt += t1 - t;
             area += (t1 - t)*((gint64)v + v1)/2;
-- 
2.43.0


From 680ecce57826cc50d3a17343e487efc36e12e64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:50 +0000
Subject: [PATCH 35/36] fix: gutil_tlv_size truncated the size of a large entry
 to 32 bits

---
 include/gutil_datapack.h | 2 +-
 src/gutil_datapack.c     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gutil_datapack.h b/include/gutil_datapack.h
index f46c4f7..8d8d53b 100644
--- a/include/gutil_datapack.h
+++ b/include/gutil_datapack.h
@@ -150,7 +150,7 @@ typedef enum gutil_tlvs_decode_flags {
     GUTIL_TLVS_DECODE_FLAG_SKIP_UNKNOWN_TAGS = 0x1
 } GUTIL_TLVS_DECODE_FLAGS;
 
-guint
+gsize
 gutil_tlv_size(
     guint tag,
     gsize len);
diff --git a/src/gutil_datapack.c b/src/gutil_datapack.c
index 6ffc0ac..be8fab3 100644
--- a/src/gutil_datapack.c
+++ b/src/gutil_datapack.c
@@ -372,7 +372,7 @@ gutil_unsigned_mbn_decode2(
  * tags array passed to gutil_tlvs_decode() is zero terminated.
  */
 
-guint
+gsize
 gutil_tlv_size(
     guint tag,
     gsize len)
-- 
2.43.0


From df06874ca38e2caaabcfe56aa0d01212b1560413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:20 +0000
Subject: [PATCH 36/36] fix: don't build chains of sub-ranges of GUtilInts

Unreferencing the last array of a long chain (each array being
a sub-range of the previous one) was recursive and could exhaust
the stack.
---
 src/gutil_ints.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/gutil_ints.c b/src/gutil_ints.c
index b6f828c..b254f62 100644
--- a/src/gutil_ints.c
+++ b/src/gutil_ints.c
@@ -112,9 +112,15 @@ gutil_ints_new_from_ints(
 {
     if (ints && offset < ints->count && count) {
         const guint max_count = ints->count - offset;
+        const int* data = ints->data + offset;
 
-        return gutil_ints_new_with_free_func(ints->data + offset,
-            MIN(count, max_count), gutil_ints_unref1, gutil_ints_ref(ints));
+        /* Reference the owner of the data, to avoid building long chains
+         * of references which would have to be released recursively */
+        while (ints->free_func == gutil_ints_unref1) {
+            ints = ints->user_data;
+        }
+        return gutil_ints_new_with_free_func(data, MIN(count, max_count),
+            gutil_ints_unref1, gutil_ints_ref(ints));
     }
     return NULL;
 }
-- 
2.43.0


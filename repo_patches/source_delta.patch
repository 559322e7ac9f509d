From 69347ab200ca08e866d9d5e8f9a21e019e93ec47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:40 +0000
Subject: [PATCH 01/22] fix: reject signed MBN values which don't fit into 64
 bits

---
 src/gutil_datapack.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/gutil_datapack.c b/src/gutil_datapack.c
index 1a7f945..7b95e51 100644
--- a/src/gutil_datapack.c
+++ b/src/gutil_datapack.c
@@ -159,14 +159,15 @@ gutil_signed_mbn_decode(
                     if ((nbits + 7) < maxbits) {
                         /* Extend the sign bit */
                         if (out) {
-                            *out = value | ~((G_GINT64_CONSTANT(1) <<
+                            *out = value | ~((G_GUINT64_CONSTANT(1) <<
                                 (nbits + 7)) - 1);
                         }
                         in->ptr += off;
                         return TRUE;
                     } else {
-                        /* Unused bits must be set to 1 */
-                        if ((msc | ((1 << (maxbits - nbits)) - 1)) == 0xff) {
+                        /* Unused bits and the sign must be set to 1 */
+                        if ((msc | ((1 << (maxbits - nbits - 1)) - 1)) ==
+                            0xff) {
                             if (out) {
                                 *out = value;
                             }
@@ -176,9 +177,9 @@ gutil_signed_mbn_decode(
                     }
                 } else {
                     /* Positive number, unused bits (if any) must be zeroed */
-                    /* Unused bits must be zeroed */
+                    /* Unused bits and the sign must be zeroed */
                     if ((nbits + 7) < maxbits ||
-                        (msc & ~((1 << (maxbits - nbits)) - 1)) == 0x80) {
+                        (msc & ~((1 << (maxbits - nbits - 1)) - 1)) == 0x80) {
                         if (out) {
                             *out = value;
                         }
-- 
2.43.0


From ba4a983fb8b276e9be942e2cda0ae546b2db9d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:40 +0000
Subject: [PATCH 02/22] fix: don't accept TLV length exceeding the size of the
 input

---
 src/gutil_datapack.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gutil_datapack.c b/src/gutil_datapack.c
index 7b95e51..9b78f21 100644
--- a/src/gutil_datapack.c
+++ b/src/gutil_datapack.c
@@ -412,7 +412,7 @@ gutil_tlv_decode(
 
     if (gutil_unsigned_mbn_decode(&tmp, &tag) && tag <= INT_MAX &&
         gutil_unsigned_mbn_decode(&tmp, &len) &&
-        (tmp.end - tmp.ptr) >= (gssize) len) {
+        (gsize) (tmp.end - tmp.ptr) >= len) {
         if (val) {
             val->bytes = tmp.ptr;
             val->size = (gsize) len;
-- 
2.43.0


From b6550b8d5eda9fd59d58f2696474bf5222551d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:40 +0000
Subject: [PATCH 03/22] fix: don't consume TLV with zero tag

---
 src/gutil_datapack.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gutil_datapack.c b/src/gutil_datapack.c
index 9b78f21..493f1a9 100644
--- a/src/gutil_datapack.c
+++ b/src/gutil_datapack.c
@@ -410,7 +410,7 @@ gutil_tlv_decode(
     GUtilRange tmp = *in;
     guint64 tag, len;
 
-    if (gutil_unsigned_mbn_decode(&tmp, &tag) && tag <= INT_MAX &&
+    if (gutil_unsigned_mbn_decode(&tmp, &tag) && tag && tag <= INT_MAX &&
         gutil_unsigned_mbn_decode(&tmp, &len) &&
         (gsize) (tmp.end - tmp.ptr) >= len) {
         if (val) {
-- 
2.43.0


From 0177bdfe9b0f18fed95c37f126621bed15e4bafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:58 +0000
Subject: [PATCH 04/22] fix: integer parsing rejects whitespace-only text and
 misplaced minus

---
 src/gutil_misc.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gutil_misc.c b/src/gutil_misc.c
index 241edd5..fc3c105 100644
--- a/src/gutil_misc.c
+++ b/src/gutil_misc.c
@@ -312,7 +312,7 @@ gutil_parse_int64(
 
         errno = 0;
         ll = g_ascii_strtoll(stripped, &end, base);
-        if (end && !*end &&
+        if (end && end != stripped && !*end &&
             !((ll == G_MAXINT64 || ll == G_MININT64) && errno == ERANGE) &&
             !(ll == 0 && errno == EINVAL)) {
             if (value) {
@@ -341,13 +341,13 @@ gutil_parse_uint64(
         char* tmp = NULL;
         const char* stripped = gutil_strstrip(str, &tmp);
 
-        if (*stripped != '-') {
+        if (!strchr(stripped, '-')) {
             char* end = NULL;
             guint64 ull;
 
             errno = 0;
             ull = g_ascii_strtoull(stripped, &end, base);
-            if (end && !*end &&
+            if (end && end != stripped && !*end &&
                 !(ull == G_MAXUINT64 && errno == ERANGE) &&
                 !(ull == 0 && errno == EINVAL)) {
                 if (value) {
-- 
2.43.0


From 1a15960abd12e5bf4637978286a7b05e39c8ff47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:16 +0000
Subject: [PATCH 05/22] fix: flattened ring buffer must keep its allocated size

---
 src/gutil_ring.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gutil_ring.c b/src/gutil_ring.c
index 93dea3a..c5564ab 100644
--- a/src/gutil_ring.c
+++ b/src/gutil_ring.c
@@ -426,7 +426,7 @@ gutil_ring_flatten(
 
     if (G_LIKELY(r) && n > 0) {
         if (r->start > 0 && r->start >= r->end) {
-            gpointer* buf = g_new(gpointer, n);
+            gpointer* buf = g_new(gpointer, r->alloc);
             const gint n1 = r->alloc - r->start;
 
             memcpy(buf, r->data + r->start, sizeof(gpointer) * n1);
-- 
2.43.0


From 28bc8a4d3e139b0b28c040a8beb1a079fb475222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:22 +0000
Subject: [PATCH 06/22] fix: ring buffer must not grow beyond its maximum size

---
 src/gutil_ring.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/gutil_ring.c b/src/gutil_ring.c
index c5564ab..2127ea3 100644
--- a/src/gutil_ring.c
+++ b/src/gutil_ring.c
@@ -271,7 +271,7 @@ gutil_ring_can_put(
     gint n)
 {
     if (G_LIKELY(r)) {
-        return r->maxsiz < 0 || (gutil_ring_size(r) + n) <= r->maxsiz;
+        return r->maxsiz < 0 || n <= (r->maxsiz - gutil_ring_size(r));
     }
     return FALSE;
 }
@@ -281,7 +281,8 @@ gutil_ring_put(
     GUtilRing* r,
     gpointer data)
 {
-    if (gutil_ring_reserve(r, gutil_ring_size(r) + 1)) {
+    if (gutil_ring_can_put(r, 1) &&
+        gutil_ring_reserve(r, gutil_ring_size(r) + 1)) {
         if (r->start < 0) {
             r->start = r->end = 0;
         }
@@ -298,7 +299,8 @@ gutil_ring_put_front(
     GUtilRing* r,
     gpointer data)
 {
-    if (gutil_ring_reserve(r, gutil_ring_size(r) + 1)) {
+    if (gutil_ring_can_put(r, 1) &&
+        gutil_ring_reserve(r, gutil_ring_size(r) + 1)) {
         if (r->start >= 0) {
             r->start = (r->start + r->alloc - 1) % r->alloc;
         } else {
-- 
2.43.0


From dcf02f5575770bd36e21c10c73eb367bc84452bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:30 +0000
Subject: [PATCH 07/22] fix: history with a single entry is not an error

---
 src/gutil_history.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gutil_history.c b/src/gutil_history.c
index 5bb118f..a3570b7 100644
--- a/src/gutil_history.c
+++ b/src/gutil_history.c
@@ -139,7 +139,7 @@ gutil_int_history_size(
             if (h->first > h->last) {
                 return (h->max_size + h->last - h->first + 1);
             } else {
-                GASSERT(h->last > h->first);
+                GASSERT(h->last >= h->first);
                 return (h->last - h->first + 1);
             }
         }
-- 
2.43.0


From c4a11bf6a124759bdde5f763182c708fb8502686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:30 +0000
Subject: [PATCH 08/22] fix: avoid overflow and accumulated rounding error in
 history median

---
 src/gutil_history.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gutil_history.c b/src/gutil_history.c
index a3570b7..f339581 100644
--- a/src/gutil_history.c
+++ b/src/gutil_history.c
@@ -195,12 +195,12 @@ gutil_int_history_median_at(
             t1 = h->entry[pos].time;
             v1 = h->entry[pos].value;
             dt += t1 - t;
-            area += (t1 - t)*(v + v1)/2;
+            area += (t1 - t)*((gint64)v + v1);
             t = t1;
             v = v1;
         }
-        /* Integral area divided by time */
-        return (int)(area/dt);
+        /* Integral area (doubled) divided by time */
+        return (int)(area/(2*dt));
     }
 }
 
-- 
2.43.0


From 1c68d5197737654a5ee4838310d91390db51f176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:30 +0000
Subject: [PATCH 09/22] fix: integer overflow and reference leak in
 gutil_ints_new_from_ints

---
 src/gutil_ints.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/gutil_ints.c b/src/gutil_ints.c
index 57c0964..4424f5e 100644
--- a/src/gutil_ints.c
+++ b/src/gutil_ints.c
@@ -110,14 +110,11 @@ gutil_ints_new_from_ints(
     guint offset,
     guint count)
 {
-    if (ints && offset < ints->count) {
-        guint end = offset + count;
+    if (ints && count && offset < ints->count) {
+        const guint max = ints->count - offset;
 
-        if (end > ints->count) {
-            end = ints->count;
-        }
-        return gutil_ints_new_with_free_func(ints->data + offset, end - offset,
-            gutil_ints_unref1, gutil_ints_ref(ints));
+        return gutil_ints_new_with_free_func(ints->data + offset,
+            MIN(count, max), gutil_ints_unref1, gutil_ints_ref(ints));
     }
     return NULL;
 }
-- 
2.43.0


From e952a44be826b04ad5336163ce359118ea62ceba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:30 +0000
Subject: [PATCH 10/22] fix: gutil_ints_unref_to_data must work for any owner
 of the data

---
 src/gutil_ints.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gutil_ints.c b/src/gutil_ints.c
index 4424f5e..7d75892 100644
--- a/src/gutil_ints.c
+++ b/src/gutil_ints.c
@@ -156,12 +156,14 @@ gutil_ints_unref_to_data(
             *count = ints->count;
         }
         if (g_atomic_int_dec_and_test(&ints->ref_count)) {
-            if (ints->free_func == g_free) {
+            if (ints->free_func == g_free && ints->user_data == ints->data) {
                 /* We can allow the caller to free the data */
                 result = (int*)ints->data;
             } else {
                 result = gutil_memdup(ints->data, ints->count * sizeof(int));
-                ints->free_func(ints->user_data);
+                if (ints->free_func) {
+                    ints->free_func(ints->user_data);
+                }
             }
             gutil_slice_free(ints);
         } else {
-- 
2.43.0


From b5ea34c724518b7ee03fae7a94af7b9f72c09971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:30 +0000
Subject: [PATCH 11/22] fix: integer overflow in gutil_int_array_remove_range

---
 src/gutil_intarray.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/gutil_intarray.c b/src/gutil_intarray.c
index 2dec4b5..61d9b4a 100644
--- a/src/gutil_intarray.c
+++ b/src/gutil_intarray.c
@@ -301,12 +301,9 @@ gutil_int_array_remove_range(
     guint count)
 {
     if (array && pos < array->count && count) {
-        guint end = pos + count;
+        const guint max = array->count - pos;
 
-        if (end > array->count) {
-            end = array->count;
-        }
-        g_array_remove_range((GArray*)array, pos, end - pos);
+        g_array_remove_range((GArray*)array, pos, MIN(count, max));
     }
     return array;
 }
-- 
2.43.0


From 3cfde9e4d7e772cfafc499b939b365e03856b7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:30 +0000
Subject: [PATCH 12/22] fix: integer overflow in integer array sort functions

---
 src/gutil_intarray.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gutil_intarray.c b/src/gutil_intarray.c
index 61d9b4a..309e513 100644
--- a/src/gutil_intarray.c
+++ b/src/gutil_intarray.c
@@ -317,7 +317,7 @@ gutil_int_array_sort_ascending_proc(
     const int* v1 = a;
     const int* v2 = b;
 
-    return *v1 - *v2;
+    return (*v1 > *v2) - (*v1 < *v2);
 }
 
 void
@@ -338,7 +338,7 @@ gutil_int_array_sort_descending_proc(
     const int* v1 = a;
     const int* v2 = b;
 
-    return *v2 - *v1;
+    return (*v2 > *v1) - (*v2 < *v1);
 }
 
 void
-- 
2.43.0


From b68fe6c772f7a67e28be97782edd3d1aedd9be0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:30 +0000
Subject: [PATCH 13/22] fix: ignore invalid position in
 gutil_int_array_remove_index_fast

---
 src/gutil_intarray.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gutil_intarray.c b/src/gutil_intarray.c
index 309e513..4d3348e 100644
--- a/src/gutil_intarray.c
+++ b/src/gutil_intarray.c
@@ -288,7 +288,7 @@ gutil_int_array_remove_index_fast(
     GUtilIntArray* array,
     guint pos)
 {
-    if (array) {
+    if (array && pos < array->count) {
         g_array_remove_index_fast((GArray*)array, pos);
     }
     return array;
-- 
2.43.0


From ad81d4f4e8bede00215a56b300f07d43126050a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:11 +0000
Subject: [PATCH 14/22] fix: idle queue may be released by its own callback

---
 src/gutil_idlequeue.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/gutil_idlequeue.c b/src/gutil_idlequeue.c
index f841f8b..b3ea5a7 100644
--- a/src/gutil_idlequeue.c
+++ b/src/gutil_idlequeue.c
@@ -77,6 +77,10 @@ gutil_idle_queue_run(
     GUtilIdleQueue* q = data;
     GUtilIdleQueueItem* item;
     GUtilIdleQueueItem* done = NULL;
+    gboolean result;
+
+    /* Callbacks may release the queue */
+    gutil_idle_queue_ref(q);
 
     /*
      * Mark all currently existing items as as completed. Callbacks
@@ -115,11 +119,13 @@ gutil_idle_queue_run(
 
     if (q->first) {
         /* New callbacks have been added */
-        return G_SOURCE_CONTINUE;
+        result = G_SOURCE_CONTINUE;
     } else {
         q->source_id = 0;
-        return G_SOURCE_REMOVE;
+        result = G_SOURCE_REMOVE;
     }
+    gutil_idle_queue_unref(q);
+    return result;
 }
 
 GUtilIdleQueue*
-- 
2.43.0


From 34677efd33e795b962337c646f685c8023bac680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:11 +0000
Subject: [PATCH 15/22] fix: destroy callback may cancel other items in the
 idle queue

---
 src/gutil_idlequeue.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gutil_idlequeue.c b/src/gutil_idlequeue.c
index b3ea5a7..8e0641e 100644
--- a/src/gutil_idlequeue.c
+++ b/src/gutil_idlequeue.c
@@ -271,9 +271,9 @@ gutil_idle_queue_cancel_tag(
     if (G_LIKELY(q) && q->first) {
         GUtilIdleQueueItem* item = q->first;
         if (item->tag == tag) {
+            GASSERT(q->source_id);
             item->completed = TRUE;
             gutil_idle_queue_cancel_first(q);
-            GASSERT(q->source_id);
             if (!q->first) {
                 gutil_source_clear(&q->source_id);
             }
-- 
2.43.0


From f16ef3f1afe3fd24ca17e6c43c9c58e1ceb4b257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:11 +0000
Subject: [PATCH 16/22] fix: NULL log module must follow the default module
 configuration

---
 src/gutil_log.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gutil_log.c b/src/gutil_log.c
index 019f0fb..bcb45a8 100644
--- a/src/gutil_log.c
+++ b/src/gutil_log.c
@@ -437,7 +437,8 @@ gutil_logv(
     va_list va)
 {
     if (level != GLOG_LEVEL_NONE && gutil_log_func2) {
-        gutil_logv_r(module, module, level, format, va);
+        gutil_logv_r(module, module ? module : &gutil_log_default, level,
+            format, va);
     }
 }
 
-- 
2.43.0


From f374689c9493eec94db058b84f699911a9e1b369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:11 +0000
Subject: [PATCH 17/22] fix: don't print undefined timestamp if it doesn't fit
 in the buffer

---
 src/gutil_log.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gutil_log.c b/src/gutil_log.c
index bcb45a8..a15dbf1 100644
--- a/src/gutil_log.c
+++ b/src/gutil_log.c
@@ -181,7 +181,10 @@ gutil_log_stdio(
 #endif
 
         time(&now);
-        strftime(t, sizeof(t), gutil_log_ftime, localtime(&now));
+        if (!strftime(t, sizeof(t), gutil_log_ftime, localtime(&now))) {
+            /* The contents of the buffer is undefined */
+            t[0] = 0;
+        }
 #undef localtime
     } else {
         t[0] = 0;
-- 
2.43.0


From 597c63cfb588591634fad360d19a135452f30b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:11 +0000
Subject: [PATCH 18/22] fix: hex dump of a block larger than 4G must terminate

---
 src/gutil_log.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/gutil_log.c b/src/gutil_log.c
index a15dbf1..c88e09e 100644
--- a/src/gutil_log.c
+++ b/src/gutil_log.c
@@ -513,14 +513,15 @@ gutil_log_dump2(
     gsize size)
 {
     const guint8* ptr = data;
-    guint off = 0;
+    gsize off = 0;
 
     if (!prefix) prefix = "";
     while (size > 0) {
         char buf[GUTIL_HEXDUMP_BUFSIZE];
-        const guint consumed = gutil_hexdump(buf, ptr + off, size);
+        const guint consumed = gutil_hexdump(buf, ptr + off, MIN(size, 16));
 
-        gutil_log(module, level, "%s%04X: %s", prefix, off, buf);
+        gutil_log(module, level, "%s%04" G_GSIZE_MODIFIER "X: %s", prefix,
+            off, buf);
         size -= consumed;
         off += consumed;
     }
-- 
2.43.0


From 38c56b02ed32f3c11234df0fc5df26754297ba45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:11 +0000
Subject: [PATCH 19/22] fix: don't close inotify descriptor twice

---
 src/gutil_inotify.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gutil_inotify.c b/src/gutil_inotify.c
index 7349f1d..783a93e 100644
--- a/src/gutil_inotify.c
+++ b/src/gutil_inotify.c
@@ -120,9 +120,9 @@ gutil_inotify_unref(
         }
         GASSERT(!g_hash_table_size(self->watches));
         g_hash_table_destroy(self->watches);
+        /* This also closes the file descriptor */
         g_io_channel_shutdown(self->io_channel, FALSE, NULL);
         g_io_channel_unref(self->io_channel);
-        close(self->fd);
         g_free(self);
         if (gutil_inotify_instance == self) {
             gutil_inotify_instance = NULL;
-- 
2.43.0


From a8092420d7878370d95778a7e90110620813771b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:17 +0000
Subject: [PATCH 20/22] fix: unbalanced parentheses in version macros

---
 include/gutil_version.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/gutil_version.h b/include/gutil_version.h
index 8d47af5..80d10fc 100644
--- a/include/gutil_version.h
+++ b/include/gutil_version.h
@@ -78,11 +78,11 @@ extern const guint gutil_version_micro; /* GUTIL_VERSION_MICRO */
 #define GUTIL_VERSION_1_0_72 GUTIL_VERSION_(1,0,72)
 #define GUTIL_VERSION_1_0_73 GUTIL_VERSION_(1,0,73)
 #define GUTIL_VERSION_1_0_74 GUTIL_VERSION_(1,0,74)
-#define GUTIL_VERSION_1_0_75 GUTIL_VERSION_(1,0,75))
-#define GUTIL_VERSION_1_0_76 GUTIL_VERSION_(1,0,76))
-#define GUTIL_VERSION_1_0_77 GUTIL_VERSION_(1,0,77))
-#define GUTIL_VERSION_1_0_78 GUTIL_VERSION_(1,0,78))
-#define GUTIL_VERSION_1_0_79 GUTIL_VERSION_(1,0,79))
+#define GUTIL_VERSION_1_0_75 GUTIL_VERSION_(1,0,75)
+#define GUTIL_VERSION_1_0_76 GUTIL_VERSION_(1,0,76)
+#define GUTIL_VERSION_1_0_77 GUTIL_VERSION_(1,0,77)
+#define GUTIL_VERSION_1_0_78 GUTIL_VERSION_(1,0,78)
+#define GUTIL_VERSION_1_0_79 GUTIL_VERSION_(1,0,79)
 
 G_END_DECLS
 
-- 
2.43.0


From 65c35ab70274751c6ded05e8aa28901f26e8285d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:58 +0000
Subject: [PATCH 21/22] fix: idle pool must destroy its own source in any main
 context

---
 src/gutil_idlepool.c | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/gutil_idlepool.c b/src/gutil_idlepool.c
index f279862..2e0719b 100644
--- a/src/gutil_idlepool.c
+++ b/src/gutil_idlepool.c
@@ -50,7 +50,7 @@ struct gutil_idle_pool_item {
 
 struct gutil_idle_pool {
     gint ref_count;
-    guint idle_id;
+    GSource* idle;
     GThread* thread;
     GUtilIdlePoolItem* first;
     GUtilIdlePoolItem* last;
@@ -154,6 +154,21 @@ gutil_idle_pool_destroy(
     }
 }
 
+static
+void
+gutil_idle_pool_clear_idle(
+    GUtilIdlePool* self)
+{
+    if (self->idle) {
+        GSource* src = self->idle;
+
+        /* The source isn't necessarily attached to the default context */
+        self->idle = NULL;
+        g_source_destroy(src);
+        g_source_unref(src);
+    }
+}
+
 void
 gutil_idle_pool_drain(
     GUtilIdlePool* self)
@@ -173,12 +188,7 @@ gutil_idle_pool_drain(
         }
         g_slice_free_chain(GUtilIdlePoolItem, items, next);
     }
-    if (self->idle_id) {
-        const guint id = self->idle_id;
-
-        self->idle_id = 0;
-        g_source_remove(id);
-    }
+    gutil_idle_pool_clear_idle(self);
 }
 
 static
@@ -188,8 +198,6 @@ gutil_idle_pool_idle(
 {
     GUtilIdlePool* self = user_data;
 
-    self->idle_id = 0;
-
     /*
      * gutil_idle_pool_idle may be invoked on a wrong (main) thread if
      * something is added to a thread specific pool (e.g. the one created
@@ -209,6 +217,7 @@ gutil_idle_pool_idle(
      * GMainContext.
      */
     if (self->thread == g_thread_self()) {
+        gutil_idle_pool_clear_idle(self);
         gutil_idle_pool_drain(self);
     } else {
         GDEBUG("gutil_idle_pool_idle is invoked on a wrong thread");
@@ -240,16 +249,17 @@ gutil_idle_pool_add(
             self->first = item;
         }
         self->last = item;
-        if (!self->idle_id) {
+        if (!self->idle || g_source_is_destroyed(self->idle)) {
             GSource* src = g_idle_source_new();
             GMainContext* context = g_main_context_get_thread_default();
 
+            gutil_idle_pool_clear_idle(self);
             g_source_set_priority(src, G_PRIORITY_DEFAULT_IDLE);
             g_source_set_callback(src, gutil_idle_pool_idle,
                 gutil_idle_pool_ref(self), gutil_idle_pool_unref_1);
-            self->idle_id = g_source_attach(src, context ? context :
+            self->idle = src;
+            g_source_attach(src, context ? context :
                 g_main_context_default());
-            g_source_unref(src);
         }
     }
     return pointer;
-- 
2.43.0


From 24d1d78aa9b466b529077f617ae94a6f3bdd1805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:25 +0000
Subject: [PATCH 22/22] fix: Integer array isn't touched after its reference is
 given up

gutil_ints_unref_to_data() copied the data after dropping its reference.
If another thread released the last one in the meantime, the array and
the data were already gone.
---
 src/gutil_ints.c | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/gutil_ints.c b/src/gutil_ints.c
index 7d75892..e91dad8 100644
--- a/src/gutil_ints.c
+++ b/src/gutil_ints.c
@@ -155,19 +155,15 @@ gutil_ints_unref_to_data(
         if (count) {
             *count = ints->count;
         }
-        if (g_atomic_int_dec_and_test(&ints->ref_count)) {
-            if (ints->free_func == g_free && ints->user_data == ints->data) {
-                /* We can allow the caller to free the data */
-                result = (int*)ints->data;
-            } else {
-                result = gutil_memdup(ints->data, ints->count * sizeof(int));
-                if (ints->free_func) {
-                    ints->free_func(ints->user_data);
-                }
-            }
+        if (ints->free_func == g_free && ints->user_data == ints->data &&
+            g_atomic_int_get(&ints->ref_count) == 1) {
+            /* We can allow the caller to free the data */
+            result = (int*)ints->data;
             gutil_slice_free(ints);
         } else {
+            /* The data may be gone as soon as the reference is released */
             result = gutil_memdup(ints->data, ints->count * sizeof(int));
+            gutil_ints_unref(ints);
         }
         return result;
     } else {
-- 
2.43.0


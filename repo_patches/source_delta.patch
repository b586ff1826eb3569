From 462dc30a7487b1534bea0616dffa8bd25893e0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:34 +0000
Subject: [PATCH 01/67] fix: refuse blank text and every negative number in
 safe_strto*()

---
 util.c | 30 +++++++++++-------------------
 1 file changed, 11 insertions(+), 19 deletions(-)

diff --git a/util.c b/util.c
index a93bde8..637f673 100644
--- a/util.c
+++ b/util.c
@@ -35,14 +35,10 @@ bool safe_strtoull(const char *str, uint64_t *out) {
     unsigned long long ull = strtoull(str, &endptr, 10);
     if (errno == ERANGE)
         return false;
-    if (isspace(*endptr) || (*endptr == '\0' && endptr != str)) {
-        if ((long long) ull < 0) {
-            /* only check for negative signs in the uncommon case when
-             * the unsigned number is so big that it's negative as a
-             * signed number. */
-            if (strchr(str, '-') != NULL) {
-                return false;
-            }
+    if (endptr != str && (isspace(*endptr) || *endptr == '\0')) {
+        /* strtoull() negates a number with a minus sign */
+        if (ull != 0 && memchr(str, '-', endptr - str) != NULL) {
+            return false;
         }
         *out = ull;
         return true;
@@ -58,7 +54,7 @@ bool safe_strtoll(const char *str, int64_t *out) {
     long long ll = strtoll(str, &endptr, 10);
     if (errno == ERANGE)
         return false;
-    if (isspace(*endptr) || (*endptr == '\0' && endptr != str)) {
+    if (endptr != str && (isspace(*endptr) || *endptr == '\0')) {
         *out = ll;
         return true;
     }
@@ -78,14 +74,10 @@ bool safe_strtoul(const char *str, uint32_t *out) {
         return false;
     }
 
-    if (isspace(*endptr) || (*endptr == '\0' && endptr != str)) {
-        if ((long) l < 0) {
-            /* only check for negative signs in the uncommon case when
-             * the unsigned number is so big that it's negative as a
-             * signed number. */
-            if (strchr(str, '-') != NULL) {
-                return false;
-            }
+    if (endptr != str && (isspace(*endptr) || *endptr == '\0')) {
+        /* strtoul() negates a number with a minus sign */
+        if (l != 0 && memchr(str, '-', endptr - str) != NULL) {
+            return false;
         }
         *out = l;
         return true;
@@ -102,7 +94,7 @@ bool safe_strtol(const char *str, int32_t *out) {
     long l = strtol(str, &endptr, 10);
     if (errno == ERANGE || l < INT32_MIN || l > INT32_MAX)
         return false;
-    if (isspace(*endptr) || (*endptr == '\0' && endptr != str)) {
+    if (endptr != str && (isspace(*endptr) || *endptr == '\0')) {
         *out = l;
         return true;
     }
@@ -117,7 +109,7 @@ bool safe_strtof(const char *str, float *out) {
     float l = strtof(str, &endptr);
     if (errno == ERANGE)
         return false;
-    if (isspace(*endptr) || (*endptr == '\0' && endptr != str)) {
+    if (endptr != str && (isspace(*endptr) || *endptr == '\0')) {
         *out = l;
         return true;
     }
-- 
2.43.0


From b7e91ac7814cdfe6d57dc8a6f7ee09b9b49d2fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:34 +0000
Subject: [PATCH 02/67] fix: string_pattern_match() matched a backslash for an
 escaped wildcard and read past the pattern

---
 util.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/util.c b/util.c
index 637f673..b4e918d 100644
--- a/util.c
+++ b/util.c
@@ -279,20 +279,20 @@ bool string_pattern_match(const char *text, int text_len, const char *pattern, i
     int plen_backup = 0;
     while (text_len)
     {
-        if (*pattern == '\\' && *(pattern+1) == *text) {
+        if (pattern_len && *pattern == '\\' && *(pattern+1) == *text) {
             text++;
             pattern += 2;
             text_len--;
             pattern_len -= 2;
         }
-        else if (*pattern == '*') {
+        else if (pattern_len && *pattern == '*') {
             /* new star-loop: backup positions in pattern and text. */
             text_backup = text;
             patt_backup = ++pattern;
             tlen_backup = text_len;
             plen_backup = --pattern_len;
         }
-        else if (*pattern == '?' || *pattern == *text) {
+        else if (pattern_len && *pattern != '\\' && (*pattern == '?' || *pattern == *text)) {
             /* ? match any character or match the current non-NULL character */
             text++;
             pattern++;
-- 
2.43.0


From 4003256f3a2b20dc3b933e558aa0971279c0a44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:34 +0000
Subject: [PATCH 03/67] fix: incr/decr of a blank value read stale memory
 behind it

---
 engines/default/coll_btree.c | 11 ++++++++++-
 engines/default/items.c      | 11 ++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/engines/default/coll_btree.c b/engines/default/coll_btree.c
index 61b5890..8da836b 100644
--- a/engines/default/coll_btree.c
+++ b/engines/default/coll_btree.c
@@ -22,6 +22,7 @@
 #include <stdlib.h>
 #include <stdio.h>
 #include <string.h>
+#include <ctype.h>
 #include <time.h>
 #include <assert.h>
 #include <sched.h>
@@ -2637,7 +2638,15 @@ static ENGINE_ERROR_CODE do_btree_elem_arithmetic(btree_meta_info *info,
         *result = initial;
     } else {
         real_nbkey = BTREE_REAL_NBKEY(elem->nbkey);
-        if (! safe_strtoull((const char*)elem->data + real_nbkey + elem->neflag, &value) || elem->nbytes == 2) {
+        /* a blank value is not a number: do not let the conversion skip
+         * the trailing "\r\n" as white space and read what lies behind it.
+         */
+        const char *ptr = (const char*)elem->data + real_nbkey + elem->neflag;
+        const char *end = ptr + elem->nbytes - 2;
+        while (ptr < end && isspace((unsigned char)*ptr)) {
+            ptr++;
+        }
+        if (ptr == end || ! safe_strtoull(ptr, &value)) {
             return ENGINE_EINVAL;
         }
 
diff --git a/engines/default/items.c b/engines/default/items.c
index 0ecb68b..076ca29 100644
--- a/engines/default/items.c
+++ b/engines/default/items.c
@@ -22,6 +22,7 @@
 #include <stdlib.h>
 #include <stdio.h>
 #include <string.h>
+#include <ctype.h>
 #include <time.h>
 #include <assert.h>
 #include <sched.h>
@@ -238,11 +239,19 @@ static ENGINE_ERROR_CODE do_add_delta(hash_item *it, const bool incr, const int6
                                       uint64_t *rcas, uint64_t *result, const void *cookie)
 {
     const char *ptr;
+    const char *end;
     uint64_t value;
     int res;
 
     ptr = item_get_data(it);
-    if (!safe_strtoull(ptr, &value)) {
+    end = ptr + it->nbytes - 2;
+    /* a blank value is not a number: do not let the conversion skip
+     * the trailing "\r\n" as white space and read what lies behind it.
+     */
+    while (ptr < end && isspace((unsigned char)*ptr)) {
+        ptr++;
+    }
+    if (ptr == end || !safe_strtoull(ptr, &value)) {
         return ENGINE_EINVAL;
     }
 
-- 
2.43.0


From fe860b82ca473c838d7c26a5215c49267422806b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:34 +0000
Subject: [PATCH 04/67] fix: incr/decr of a collection leaked an item reference

---
 engines/default/items.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engines/default/items.c b/engines/default/items.c
index 076ca29..c37575f 100644
--- a/engines/default/items.c
+++ b/engines/default/items.c
@@ -379,8 +379,8 @@ ENGINE_ERROR_CODE item_arithmetic(const void *key, const uint32_t nkey,
             ret = ENGINE_EBADTYPE;
         } else {
             ret = do_add_delta(it, increment, delta, cas, result, cookie);
-            do_item_release(it);
         }
+        do_item_release(it);
     } else {
         if (create) {
             char buffer[128];
-- 
2.43.0


From ae3087ccc3ba596fd45c063a581d1f2d3ac2c87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:19 +0000
Subject: [PATCH 05/67] fix: a delayed or past flush made already flushed items
 visible again

---
 engines/default/items.c | 52 ++++++++++++++++++++++++++++++++++++-----
 1 file changed, 46 insertions(+), 6 deletions(-)

diff --git a/engines/default/items.c b/engines/default/items.c
index c37575f..bdd0c8f 100644
--- a/engines/default/items.c
+++ b/engines/default/items.c
@@ -442,6 +442,40 @@ ENGINE_ERROR_CODE item_delete(const void *key, const uint32_t nkey, uint64_t cas
 #define FLUSH_PREFIX_LOG_INTERVAL   600 /* 600 sec */
 #define FLUSH_PREFIX_LOG_MAXCOUNT   10
 
+/*
+ * Unlink the items that an effective flush already hides.
+ * The flush mark that hides them is about to be replaced by a mark that
+ * does not hide them: a later (delayed) one or an older one.
+ */
+static void do_item_unlink_flushed(rel_time_t old_mark, rel_time_t new_mark)
+{
+    hash_item *iter, *next;
+    rel_time_t current_time = svcore->get_current_time();
+
+    if (old_mark == 0 || old_mark > current_time) {
+        return; /* no effective flush */
+    }
+    if (new_mark >= old_mark && new_mark <= current_time) {
+        return; /* the new mark hides them, too */
+    }
+    for (int i = 0; i <= POWER_LARGEST; i++) {
+        for (iter = itemsp->heads[i]; iter != NULL; iter = next) {
+            next = iter->next;
+            if (iter->time <= old_mark && !do_item_isvalid(iter, current_time)) {
+                do_item_unlink(iter, ITEM_UNLINK_INVALID);
+            }
+        }
+#ifdef ENABLE_STICKY_ITEM
+        for (iter = itemsp->sticky_heads[i]; iter != NULL; iter = next) {
+            next = iter->next;
+            if (iter->time <= old_mark && !do_item_isvalid(iter, current_time)) {
+                do_item_unlink(iter, ITEM_UNLINK_INVALID);
+            }
+        }
+#endif
+    }
+}
+
 static ENGINE_ERROR_CODE do_item_flush_expired(const char *prefix, const int nprefix,
                                                rel_time_t when, const void *cookie)
 {
@@ -460,11 +494,16 @@ static ENGINE_ERROR_CODE do_item_flush_expired(const char *prefix, const int npr
         }
 
         if (when == 0) {
-            pt->oldest_live = svcore->get_current_time() - 1;
+            oldest_live = svcore->get_current_time() - 1;
         } else {
-            pt->oldest_live = when - 1;
+            oldest_live = when - 1;
+        }
+        do_item_unlink_flushed(pt->oldest_live, oldest_live);
+        pt = prefix_find(prefix, nprefix);
+        if (pt == NULL) {
+            return ENGINE_SUCCESS; /* its last item was unlinked */
         }
-        oldest_live = pt->oldest_live;
+        pt->oldest_live = oldest_live;
 
         if (config->verbose) {
             if (fplog_count < FLUSH_PREFIX_LOG_MAXCOUNT) {
@@ -487,11 +526,12 @@ static ENGINE_ERROR_CODE do_item_flush_expired(const char *prefix, const int npr
         }
     } else { /* flush all */
         if (when == 0) {
-            config->oldest_live = svcore->get_current_time() - 1;
+            oldest_live = svcore->get_current_time() - 1;
         } else {
-            config->oldest_live = when - 1;
+            oldest_live = when - 1;
         }
-        oldest_live = config->oldest_live;
+        do_item_unlink_flushed(config->oldest_live, oldest_live);
+        config->oldest_live = oldest_live;
 
         if (config->verbose) {
             logger->log(EXTENSION_LOG_INFO, NULL, "flush all when=%u client_ip=%s\n",
-- 
2.43.0


From b592dca7158e56918b2ab79c0acf9043c5c8f37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:40 +0000
Subject: [PATCH 06/67] fix: hash bucket index of set and map elements at the
 deepest levels

---
 engines/default/coll_map.c | 2 +-
 engines/default/coll_set.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/engines/default/coll_map.c b/engines/default/coll_map.c
index 91ab5eb..d7edf4e 100644
--- a/engines/default/coll_map.c
+++ b/engines/default/coll_map.c
@@ -63,7 +63,7 @@ typedef struct _map_prev_info {
 } map_prev_info;
 
 #define MAP_GET_HASHIDX(hval, hdepth) \
-        (((hval) & (MAP_HASHIDX_MASK << ((hdepth)*4))) >> ((hdepth)*4))
+        (((uint32_t)(hval) >> (((hdepth) & 7) * 4)) & MAP_HASHIDX_MASK)
 
 static inline int map_hash_eq(const int h1, const void *v1, size_t vlen1,
                               const int h2, const void *v2, size_t vlen2)
diff --git a/engines/default/coll_set.c b/engines/default/coll_set.c
index bf4e732..36e9c6d 100644
--- a/engines/default/coll_set.c
+++ b/engines/default/coll_set.c
@@ -103,7 +103,7 @@ static bool hash_insert(hash_table *ht, int key)
  */
 
 #define SET_GET_HASHIDX(hval, hdepth) \
-        (((hval) & (SET_HASHIDX_MASK << ((hdepth)*4))) >> ((hdepth)*4))
+        (((uint32_t)(hval) >> (((hdepth) & 7) * 4)) & SET_HASHIDX_MASK)
 
 static inline int set_hash_eq(const int h1, const void *v1, size_t vlen1,
                               const int h2, const void *v2, size_t vlen2)
-- 
2.43.0


From 0ea7981b6c0c4f9a4e9ec0d85e27de6eaf4071f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:17 +0000
Subject: [PATCH 07/67] fix: map get with repeated fields wrote past its result
 array

---
 engines/default/coll_map.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engines/default/coll_map.c b/engines/default/coll_map.c
index d7edf4e..0de3110 100644
--- a/engines/default/coll_map.c
+++ b/engines/default/coll_map.c
@@ -887,7 +887,7 @@ ENGINE_ERROR_CODE map_elem_get(const char *key, const uint32_t nkey,
             if (info->ccnt <= 0) {
                 ret = ENGINE_ELEM_ENOENT; break;
             }
-            if (numfields == 0 || info->ccnt < numfields) {
+            if (numfields == 0) { /* NOTE: flist may contain the same field twice */
                 eresult->elem_array = (eitem **)malloc(info->ccnt * sizeof(eitem*));
             } else {
                 eresult->elem_array = (eitem **)malloc(numfields * sizeof(eitem*));
-- 
2.43.0


From c364a60c5281578c4a68e2a199c3d010f2a0670b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:37 +0000
Subject: [PATCH 08/67] verification hook: b+tree node size can be set with
 VERIF_BTREE_ITEM_COUNT

---
 engines/default/item_base.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/engines/default/item_base.h b/engines/default/item_base.h
index 2ca8fad..ab69fef 100644
--- a/engines/default/item_base.h
+++ b/engines/default/item_base.h
@@ -278,7 +278,11 @@ typedef struct _map_meta_info {
 
 /* btree meta info */
 #define BTREE_MAX_DEPTH  7
+#ifdef VERIF_BTREE_ITEM_COUNT /* verification builds: smaller nodes give deeper trees */
+#define BTREE_ITEM_COUNT VERIF_BTREE_ITEM_COUNT
+#else
 #define BTREE_ITEM_COUNT 32 /* Recommend BTREE_ITEM_COUNT >= 8 */
+#endif
 
 typedef struct _btree_leaf_node {
     uint16_t refcount;
-- 
2.43.0


From 8cfae06658d7a3e35ab61c5bc55192e53bd6b97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:31 +0000
Subject: [PATCH 09/67] fix: b+tree get/smget reported trimmed although the
 range's end element exists

When the first element found is itself the end of the bkey range, the scan
went past it and could report TRIMMED / OUT_OF_RANGE.
---
 engines/default/coll_btree.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/engines/default/coll_btree.c b/engines/default/coll_btree.c
index 8da836b..deac11e 100644
--- a/engines/default/coll_btree.c
+++ b/engines/default/coll_btree.c
@@ -2383,8 +2383,9 @@ static uint32_t do_btree_elem_get(btree_meta_info *info,
                 upth[i] = path[i];
             }
         }
-        /* clear the bkeq flag of current posi */
-        c_posi.bkeq = false;
+        /* the bkeq flag of current posi: reached to_bkey ? */
+        c_posi.bkeq = BKEY_ISEQ(elem->data, elem->nbkey,
+                                bkrange->to_bkey, bkrange->to_nbkey);
 
         do {
             if (opcost) *opcost += 1;
@@ -3074,7 +3075,8 @@ do_btree_smget_scan_sort_old(token_t *key_array, const int key_count,
 
         /* initialize for the next scan */
         is_first = true;
-        posi.bkeq = false;
+        posi.bkeq = BKEY_ISEQ(elem->data, elem->nbkey,
+                              bkrange->to_bkey, bkrange->to_nbkey);
 
 scan_next:
         if (is_first != true) {
@@ -3264,7 +3266,8 @@ do_btree_smget_scan_sort(token_t *key_array, const int key_count,
 
         /* initialize for the next scan */
         is_first = true;
-        posi.bkeq = false;
+        posi.bkeq = BKEY_ISEQ(elem->data, elem->nbkey,
+                              bkrange->to_bkey, bkrange->to_nbkey);
 
 scan_next:
         if (is_first != true) {
-- 
2.43.0


From d3e9e7d4be2e1125756266d72bedd964dbe14234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:01 +0000
Subject: [PATCH 10/67] fix: smget released an item twice when a duplicate bkey
 ended its scan

In unique mode, an element whose bkey was already taken by a preceding
key is skipped, but the scan slot kept pointing at the item. If no other
element followed, the item was released and then released once more at
the end of the smget operation, dropping a reference held elsewhere.
---
 engines/default/coll_btree.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/engines/default/coll_btree.c b/engines/default/coll_btree.c
index deac11e..eb0e17c 100644
--- a/engines/default/coll_btree.c
+++ b/engines/default/coll_btree.c
@@ -3372,6 +3372,8 @@ scan_next:
                 info = (btree_meta_info *)item_get_meta(it);
                 btree_scan_buf[comp_idx].it = NULL;
                 curr_idx = comp_idx;
+            } else {
+                btree_scan_buf[curr_idx].it = NULL;
             }
             goto scan_next;
         }
-- 
2.43.0


From a46bf06ebd97056aff954880b65bf76c66edd1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:12 +0000
Subject: [PATCH 11/67] fix: getattr minbkey/maxbkey on other than b+tree items
 returned uninitialized memory

The two attributes exist for b+tree items only, but getattr of them on
key-value, list, set and map items succeeded and printed whatever was
on the stack (possibly overrunning the reply buffer).
---
 engines/default/coll_list.c | 3 ++-
 engines/default/coll_map.c  | 3 ++-
 engines/default/coll_set.c  | 3 ++-
 engines/default/items.c     | 3 ++-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/engines/default/coll_list.c b/engines/default/coll_list.c
index 96227df..d7137e4 100644
--- a/engines/default/coll_list.c
+++ b/engines/default/coll_list.c
@@ -616,7 +616,8 @@ ENGINE_ERROR_CODE list_coll_getattr(hash_item *it, item_attr *attrp,
 
     /* check attribute validation */
     for (int i = 0; i < attr_cnt; i++) {
-        if (attr_ids[i] == ATTR_MAXBKEYRANGE || attr_ids[i] == ATTR_TRIMMED) {
+        if (attr_ids[i] == ATTR_MAXBKEYRANGE || attr_ids[i] == ATTR_TRIMMED ||
+            attr_ids[i] == ATTR_MINBKEY || attr_ids[i] == ATTR_MAXBKEY) {
             return ENGINE_EBADATTR;
         }
     }
diff --git a/engines/default/coll_map.c b/engines/default/coll_map.c
index 0de3110..47e4e34 100644
--- a/engines/default/coll_map.c
+++ b/engines/default/coll_map.c
@@ -1010,7 +1010,8 @@ ENGINE_ERROR_CODE map_coll_getattr(hash_item *it, item_attr *attrp,
 
     /* check attribute validation */
     for (int i = 0; i < attr_cnt; i++) {
-        if (attr_ids[i] == ATTR_MAXBKEYRANGE || attr_ids[i] == ATTR_TRIMMED) {
+        if (attr_ids[i] == ATTR_MAXBKEYRANGE || attr_ids[i] == ATTR_TRIMMED ||
+            attr_ids[i] == ATTR_MINBKEY || attr_ids[i] == ATTR_MAXBKEY) {
             return ENGINE_EBADATTR;
         }
     }
diff --git a/engines/default/coll_set.c b/engines/default/coll_set.c
index 36e9c6d..2087ddf 100644
--- a/engines/default/coll_set.c
+++ b/engines/default/coll_set.c
@@ -1035,7 +1035,8 @@ ENGINE_ERROR_CODE set_coll_getattr(hash_item *it, item_attr *attrp,
 
     /* check attribute validation */
     for (int i = 0; i < attr_cnt; i++) {
-        if (attr_ids[i] == ATTR_MAXBKEYRANGE || attr_ids[i] == ATTR_TRIMMED) {
+        if (attr_ids[i] == ATTR_MAXBKEYRANGE || attr_ids[i] == ATTR_TRIMMED ||
+            attr_ids[i] == ATTR_MINBKEY || attr_ids[i] == ATTR_MAXBKEY) {
             return ENGINE_EBADATTR;
         }
     }
diff --git a/engines/default/items.c b/engines/default/items.c
index bdd0c8f..97d4556 100644
--- a/engines/default/items.c
+++ b/engines/default/items.c
@@ -813,7 +813,8 @@ do_item_getattr(hash_item *it, ENGINE_ITEM_ATTR *attr_ids, const uint32_t attr_c
         for (int i = 0; i < attr_count; i++) {
             if (attr_ids[i] == ATTR_COUNT      || attr_ids[i] == ATTR_MAXCOUNT ||
                 attr_ids[i] == ATTR_OVFLACTION || attr_ids[i] == ATTR_READABLE ||
-                attr_ids[i] == ATTR_MAXBKEYRANGE || attr_ids[i] == ATTR_TRIMMED) {
+                attr_ids[i] == ATTR_MAXBKEYRANGE || attr_ids[i] == ATTR_TRIMMED ||
+                attr_ids[i] == ATTR_MINBKEY     || attr_ids[i] == ATTR_MAXBKEY) {
                 return ENGINE_EBADATTR;
             }
         }
-- 
2.43.0


From f92db9594456ffc5b8fd537681ae7fa88079972e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:53 +0000
Subject: [PATCH 12/67] fix: setattr of an attribute the item type does not
 have was silently accepted

Such requests must be answered with ATTR_ERROR not found, as documented
and as getattr does.
---
 engines/default/coll_list.c | 2 ++
 engines/default/coll_map.c  | 2 ++
 engines/default/coll_set.c  | 2 ++
 engines/default/items.c     | 8 ++++++++
 4 files changed, 14 insertions(+)

diff --git a/engines/default/coll_list.c b/engines/default/coll_list.c
index d7137e4..52fd027 100644
--- a/engines/default/coll_list.c
+++ b/engines/default/coll_list.c
@@ -652,6 +652,8 @@ ENGINE_ERROR_CODE list_coll_setattr(hash_item *it, item_attr *attrp,
             if (attrp->readable != 1) {
                 return ENGINE_EBADVALUE;
             }
+        } else if (attr_ids[i] == ATTR_MAXBKEYRANGE) {
+            return ENGINE_EBADATTR;
         }
     }
 
diff --git a/engines/default/coll_map.c b/engines/default/coll_map.c
index 47e4e34..7c58686 100644
--- a/engines/default/coll_map.c
+++ b/engines/default/coll_map.c
@@ -1044,6 +1044,8 @@ ENGINE_ERROR_CODE map_coll_setattr(hash_item *it, item_attr *attrp,
             if (attrp->readable != 1) {
                 return ENGINE_EBADVALUE;
             }
+        } else if (attr_ids[i] == ATTR_MAXBKEYRANGE) {
+            return ENGINE_EBADATTR;
         }
     }
 
diff --git a/engines/default/coll_set.c b/engines/default/coll_set.c
index 2087ddf..8492e2f 100644
--- a/engines/default/coll_set.c
+++ b/engines/default/coll_set.c
@@ -1069,6 +1069,8 @@ ENGINE_ERROR_CODE set_coll_setattr(hash_item *it, item_attr *attrp,
             if (attrp->readable != 1) {
                 return ENGINE_EBADVALUE;
             }
+        } else if (attr_ids[i] == ATTR_MAXBKEYRANGE) {
+            return ENGINE_EBADATTR;
         }
     }
 
diff --git a/engines/default/items.c b/engines/default/items.c
index 97d4556..5288ffe 100644
--- a/engines/default/items.c
+++ b/engines/default/items.c
@@ -883,6 +883,14 @@ do_item_setattr(hash_item *it, ENGINE_ITEM_ATTR *attr_ids, const uint32_t attr_c
         if (ret != ENGINE_SUCCESS) {
             return ret;
         }
+    } else {
+        /* attribute validation check */
+        for (int i = 0; i < attr_count; i++) {
+            if (attr_ids[i] == ATTR_MAXCOUNT || attr_ids[i] == ATTR_OVFLACTION ||
+                attr_ids[i] == ATTR_READABLE || attr_ids[i] == ATTR_MAXBKEYRANGE) {
+                return ENGINE_EBADATTR;
+            }
+        }
     }
 
     /* set the expiretime */
-- 
2.43.0


From 1956be3f977a0178114fc77a69f514f4f56d04cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:11 +0000
Subject: [PATCH 13/67] fix: replacing an item by one of different stickiness
 corrupted the sticky counters

---
 engines/default/item_base.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/engines/default/item_base.c b/engines/default/item_base.c
index 550bd02..2e34b53 100644
--- a/engines/default/item_base.c
+++ b/engines/default/item_base.c
@@ -243,8 +243,13 @@ static inline void do_item_stat_replace(hash_item *old_it, hash_item *new_it)
     }
     /* update item stats imformation */
 #ifdef ENABLE_STICKY_ITEM
+    if (IS_STICKY_EXPTIME(old_it->exptime)) {
+        statsp->sticky_bytes -= old_stotal;
+        statsp->sticky_items -= 1;
+    }
     if (IS_STICKY_EXPTIME(new_it->exptime)) {
-        statsp->sticky_bytes += new_stotal - old_stotal;
+        statsp->sticky_bytes += new_stotal;
+        statsp->sticky_items += 1;
     }
 #endif
     statsp->curr_bytes += new_stotal - old_stotal;
-- 
2.43.0


From 014fc4de0dc55c1e97832d1cb8de03eb7cc5c17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:10 +0000
Subject: [PATCH 14/67] fix: flush_all and flush_prefix missed a referenced
 item that memory pressure had taken off the LRU list

---
 engines/default/item_base.c | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/engines/default/item_base.c b/engines/default/item_base.c
index 2e34b53..7248298 100644
--- a/engines/default/item_base.c
+++ b/engines/default/item_base.c
@@ -678,11 +678,16 @@ static uint32_t do_item_regain(const uint32_t count, rel_time_t current_time,
             }
             nregains += 1;
         } else { /* search->refcount > 0 */
-            /* We just unlink the item from LRU list.
-             * It will be linked to LRU list when the refcount become 0.
-             * See do_item_release().
+            /* The item is in use. Move it to the head of LRU list.
+             * It must stay in the LRU list for the flush to find it.
              */
-            item_unlink_q(search);
+            if (do_item_isvalid(search, current_time)) {
+                item_unlink_q(search);
+                search->time = current_time;
+                item_link_q(search);
+            } else {
+                do_item_unlink(search, ITEM_UNLINK_INVALID);
+            }
         }
         search = previt;
         if ((--tries) == 0) break;
@@ -851,8 +856,14 @@ void *do_item_mem_alloc(const size_t ntotal, const unsigned int clsid,
                 }
                 if (it != NULL) break; /* allocated */
             } else { /* search->refcount > 0 */
-                /* just unlink the item from LRU list. */
-                item_unlink_q(search);
+                /* just move the item to the head of LRU list. */
+                if (do_item_isvalid(search, current_time)) {
+                    item_unlink_q(search);
+                    search->time = current_time;
+                    item_link_q(search);
+                } else {
+                    do_item_unlink(search, ITEM_UNLINK_INVALID);
+                }
             }
             search = previt;
             if ((--tries) == 0) break;
-- 
2.43.0


From ea8812995db5157db33f1a03c821525682bec097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:30 +0000
Subject: [PATCH 15/67] verification hook: VERIF_ASSOC_HASHPOWER sets the
 initial size of the hash table

---
 engines/default/assoc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/engines/default/assoc.c b/engines/default/assoc.c
index 5f68213..9d7b246 100644
--- a/engines/default/assoc.c
+++ b/engines/default/assoc.c
@@ -65,7 +65,11 @@ ENGINE_ERROR_CODE assoc_init(struct default_engine *engine)
     assocp = &engine->assoc;
     logger = engine->server.log->get_logger();
 
+#ifdef VERIF_ASSOC_HASHPOWER
+    assocp->hashpower = VERIF_ASSOC_HASHPOWER; /* small hash table for verification */
+#else
     assocp->hashpower = 16; /* (1<<16) => 64K hash size */
+#endif
     assocp->hashsize = hashsize(assocp->hashpower);
     assocp->hashmask = hashmask(assocp->hashpower);
     assocp->rootpower = 0; /* (1<<0) => 1 hash table */
-- 
2.43.0


From 5ace4421faa9724c3b99cb6550b9a88673f29128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:30 +0000
Subject: [PATCH 16/67] fix: key and prefix scans stop when the requested count
 is reached

With a count above 200 a scan that had already collected the requested
number of keys went on: it span until its time limit, or asked for more
keys than the result array has room for and aborted the server.
---
 engines/default/default_engine.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/engines/default/default_engine.c b/engines/default/default_engine.c
index f215324..b436195 100644
--- a/engines/default/default_engine.c
+++ b/engines/default/default_engine.c
@@ -1279,7 +1279,7 @@ default_prefixscan(const char cursor[], const uint32_t count, const char *patter
     struct timeval begin, end, diff;
 
     gettimeofday(&begin, NULL);
-    while (iter_total < count) {
+    while (iter_total < count && scan_total < count) {
         iter_count = (count-scan_total) < SCAN_ITER_COUNT
                    ? (count-scan_total) : SCAN_ITER_COUNT;
         scan_count = prefix_scan_direct(cursor, iter_count,
@@ -1340,7 +1340,7 @@ default_keyscan(const char cursor[], const uint32_t count, const char *pattern,
     struct timeval begin, end, diff;
 
     gettimeofday(&begin, NULL);
-    while (iter_total < count) {
+    while (iter_total < count && scan_total < count) {
         iter_count = (count-scan_total) < SCAN_ITER_COUNT
                    ? (count-scan_total) : SCAN_ITER_COUNT;
         scan_count = item_scan_direct(cursor, type, iter_count,
-- 
2.43.0


From 9b42bd17239f42cd20eb64cbaffca91057870402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:30 +0000
Subject: [PATCH 17/67] fix: key and prefix scans do not write beyond the
 result array

A prefix hash bucket, or a pair of hash chains of an expanding hash table,
holding more entries than the result array has room for overran it.
---
 engines/default/assoc.c  | 2 +-
 engines/default/prefix.c | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/engines/default/assoc.c b/engines/default/assoc.c
index 9d7b246..346be7d 100644
--- a/engines/default/assoc.c
+++ b/engines/default/assoc.c
@@ -500,7 +500,7 @@ int assoc_scan_direct(const char *cursor, int req_count, hash_item **item_array,
     int hash_count = 0;
     int hash_limit = req_count * 4; /* max count of hash chains to scan */
     while ((item_count < req_count && hash_count < hash_limit) ||
-           (assocp->expanding && tabidx > assocp->prevmask))
+           (assocp->expanding && tabidx > assocp->prevmask && item_count < array_size))
     {
         hash_item *next = assocp->roottable[tabidx].hashtable[bucket];
         while (next != NULL) {
diff --git a/engines/default/prefix.c b/engines/default/prefix.c
index 7cdb66d..eef1a89 100644
--- a/engines/default/prefix.c
+++ b/engines/default/prefix.c
@@ -735,6 +735,9 @@ static int _prefix_scan_direct(const char *cursor, int req_count, void **item_ar
         }
         prefix_t *pt = prefxp->hashtable[bucket];
         while (pt) {
+            if (item_count >= item_arrsz) {
+                break; /* the array is full. the remaining prefixes of the bucket are skipped */
+            }
             if (!pt->internal && !_prefix_isempty(pt)) {
                 item_array[item_count++] = pt;
                 PREFIX_REFCOUNT_INCR(pt);
-- 
2.43.0


From 6438fc255512b79251e89760f07c7e8a84ce428f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:30 +0000
Subject: [PATCH 18/67] fix: refuse key lists with extra keys or an empty last
 key at a memory block border

Keys beyond the announced count were ignored when the count was reached at
the end of a memory block, and a list ending with a delimiter as the first
byte of its last block failed an assertion.
---
 mc_util.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mc_util.c b/mc_util.c
index f29c7cb..92a2e23 100644
--- a/mc_util.c
+++ b/mc_util.c
@@ -525,7 +525,12 @@ do_again:
     dataptr = MBLCK_GET_BODYPTR(blckptr);
     datalen = (chkblks < numblks) ? bodylen : lastlen;
 
-    while (ntokens < keycnt) {
+    while (true) {
+        if (ntokens >= keycnt || datalen == 0) {
+            /* more data than the given key count, or an empty last token */
+            ret = ENGINE_EBADVALUE; break;
+        }
+
         /* check the last character */
         bool segmented_blck = false;
         if (chkblks < numblks) {
-- 
2.43.0


From f62b76b0ff1314ca5bed52f8637d31567080ab80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:30 +0000
Subject: [PATCH 19/67] fix: set the logger of the cluster config before it is
 used

A self node with a duplicate hash point, or memory shortage at start,
crashed on the missing logger.
---
 cluster_config.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cluster_config.c b/cluster_config.c
index 476e28d..e1d17fc 100644
--- a/cluster_config.c
+++ b/cluster_config.c
@@ -575,6 +575,7 @@ struct cluster_config *cluster_config_init(const char *node_name,
         logger->log(EXTENSION_LOG_WARNING, NULL, "calloc failed: cluster_config\n");
         return NULL;
     }
+    config->logger = logger;
 
     if (do_hashring_space_init(config, 10) < 0) {
         free(config);
@@ -589,7 +590,6 @@ struct cluster_config *cluster_config_init(const char *node_name,
 
     config->self_id = -1;
     config->is_valid = false;
-    config->logger = logger;
     config->verbose = verbose;
     return config;
 }
-- 
2.43.0


From 57667e7bd3216a45c2ceb34f01e77aaf80edc7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:20 +0000
Subject: [PATCH 20/67] fix: reconfiguring the cluster to several new nodes at
 once ran out of node items

The items of the current nodes were counted as free although they are
released only after the new node array is built: replacing two nodes of a
cluster of more than 10 failed an assertion.
---
 cluster_config.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cluster_config.c b/cluster_config.c
index e1d17fc..8c772c0 100644
--- a/cluster_config.c
+++ b/cluster_config.c
@@ -205,9 +205,12 @@ static int do_node_free_list_prepare(struct cluster_config *config, uint32_t cou
     struct node_item *item;
     int rc = 0;
 
-    if ((config->free_size + config->num_nodes) < count) {
+    /* The current node items are released only after the new node array is built.
+     * So, free items are needed for all given nodes in the worst case.
+     */
+    if (config->free_size < count) {
         /* We need to grow the free node list */
-        int addition = count - (config->free_size + config->num_nodes);
+        int addition = count - config->free_size;
         for (int i = 0; i < addition; i++) {
             item = (struct node_item *)malloc(sizeof(struct node_item));
             if (item == NULL) {
-- 
2.43.0


From 13709a130ed8741bc32dd3a2172f745ecfe6b2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:20 +0000
Subject: [PATCH 21/67] fix: asking for the owner of a key in an empty cluster
 read uninitialized memory

---
 cluster_config.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cluster_config.c b/cluster_config.c
index 8c772c0..8ee8533 100644
--- a/cluster_config.c
+++ b/cluster_config.c
@@ -687,7 +687,7 @@ int cluster_config_key_is_mine(struct cluster_config *config,
     int ret = 0;
 
     pthread_mutex_lock(&config->ketama_lock);
-    if (config->is_valid) {
+    if (config->is_valid && config->num_conts > 0) {
         struct cont_item *item;
         item = do_continuum_find(config->continuum, config->num_conts, digest);
         *mine = (item->nindex == config->self_id ? true : false);
-- 
2.43.0


From 1884a35686b6893cf5a6da3ef2bbb4d84e5a6261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:20 +0000
Subject: [PATCH 22/67] fix: the hash ring stayed invalid when a failed
 reconfiguration was followed by one to the current nodes

---
 cluster_config.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cluster_config.c b/cluster_config.c
index 8ee8533..6529af7 100644
--- a/cluster_config.c
+++ b/cluster_config.c
@@ -656,6 +656,9 @@ int cluster_config_reconfigure(struct cluster_config *config,
             config->logger->log(EXTENSION_LOG_WARNING, NULL,
                                 "reconfiguration failed: do_nodearray_build\n");
             config->is_valid = false;
+        } else {
+            /* the same nodes as the current hash ring */
+            config->is_valid = true;
         }
     } else {
         /* build continuuum */
-- 
2.43.0


From c8367b3b5622d085a166059484f4946ca3808e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:07 +0000
Subject: [PATCH 23/67] fix: operations on a key starting with a hyphen were
 not counted under the null prefix

---
 stats_prefix.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stats_prefix.c b/stats_prefix.c
index 10aa009..457b6da 100644
--- a/stats_prefix.c
+++ b/stats_prefix.c
@@ -198,7 +198,8 @@ static PREFIX_STATS *do_stats_prefix_insert(const char *prefix, const size_t npr
         }
         if (pfs != NULL) break;
         if (i == 0) {
-            if (!mc_isvalidname(prefix, prefix_stats_list[0].nprefix)) {
+            if (prefix_stats_list[0].nprefix > 0 && /* the null prefix has no name */
+                !mc_isvalidname(prefix, prefix_stats_list[0].nprefix)) {
                 return NULL;
             }
         } else {
-- 
2.43.0


From 81d261dd57dd2d927af3f330183d4e2e7c4d8b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:07 +0000
Subject: [PATCH 24/67] fix: the report of a hot key with large counters was
 cut and read beyond its buffer

---
 topkeys.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/topkeys.h b/topkeys.h
index 75955e6..87ffaea 100644
--- a/topkeys.h
+++ b/topkeys.h
@@ -60,7 +60,7 @@
 /* A list of attribute operations */
 #define TK_AOPS(C)  C(getattr_hits) C(getattr_misses) C(setattr_hits) C(setattr_misses)
 
-#define TK_MAX_VAL_LEN 250
+#define TK_MAX_VAL_LEN 500 /* holds all counters with their largest values */
 
 /* Update the correct stat for a given operation */
 #define TK(tk, op, key, nkey, ctime) { \
-- 
2.43.0


From 455454c919a6f76fd56edd8cba6574c7a384bed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:07 +0000
Subject: [PATCH 25/67] fix: the access time of a hot key was never updated

---
 topkeys.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/topkeys.c b/topkeys.c
index 55d280d..bdf78c2 100644
--- a/topkeys.c
+++ b/topkeys.c
@@ -129,6 +129,7 @@ topkey_item_t *topkeys_item_get_or_create(topkeys_t *tk,
         }
     } else {
         dlist_remove(&item->list);
+        item->atime = ctime;
     }
     dlist_insert_after(&tk->list, &item->list);
     return item;
-- 
2.43.0


From 599e4599bab0b7031319dc0b47de567a5b111ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:07 +0000
Subject: [PATCH 26/67] fix: updating a genhash entry kept the size of the old
 value

---
 genhash.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/genhash.c b/genhash.c
index 38674cc..2e8b4ce 100644
--- a/genhash.c
+++ b/genhash.c
@@ -167,6 +167,7 @@ genhash_update(genhash_t* h, const void* k, size_t klen,
     if(p) {
         free_value(h, p->value);
         p->value=dup_value(h, v, vlen);
+        p->nvalue = vlen;
         rv=MODIFICATION;
     } else {
         genhash_store(h, k, klen, v, vlen);
@@ -193,6 +194,7 @@ genhash_fun_update(genhash_t* h, const void* k, size_t klen,
         void *newValue=upd(k, p->value, &newSize, arg);
         free_value(h, p->value);
         p->value=dup_value(h, newValue, newSize);
+        p->nvalue = newSize;
         fr(newValue);
         rv=MODIFICATION;
     } else {
-- 
2.43.0


From aee01bfaf012c9f4635fa2749f2a0fa9f19bfd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:44 +0000
Subject: [PATCH 27/67] fix: an object cache short of memory passed the wrong
 address to the destructor

---
 cache.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cache.c b/cache.c
index dd6d390..2709668 100644
--- a/cache.c
+++ b/cache.c
@@ -172,7 +172,7 @@ void cache_free(cache_t *cache, void *object) {
             // assert(inFreeList(cache, ptr));
         } else {
             if (cache->destructor) {
-                cache->destructor(ptr, NULL);
+                cache->destructor(object, NULL);
             }
             free(ptr);
             // assert(!inFreeList(cache, ptr));
-- 
2.43.0


From ed26fb756211e6404b2380aaf4143083a0900390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:52 +0000
Subject: [PATCH 28/67] fix: trim each configuration key and value within its
 buffer

trim_copy() copied the first character without looking at it, so the ';' of
an empty value became part of the value; it removed trailing white space only
at the end of the whole text, not before '=' or ';'; and it wrote before the
buffer when the text consisted of as many backslashes as the buffer has bytes.
---
 config_parser.c | 43 ++++++++++++++++---------------------------
 1 file changed, 16 insertions(+), 27 deletions(-)

diff --git a/config_parser.c b/config_parser.c
index 0739795..c088145 100644
--- a/config_parser.c
+++ b/config_parser.c
@@ -46,42 +46,31 @@ static int trim_copy(char *dest, size_t size, const char *src,
       ++src;
    }
    size_t n = 0;
+   size_t len = 0; /* without the trailing non-escaped white space */
    bool escape = false;
-   int ret = 0;
-
-   /* Find the last non-escaped non-space character */
-   const char *lastchar = src + strlen(src) - 1;
-   if (lastchar < src) {
-       return -1;
-   }
-   while (lastchar > src && isspace(*lastchar)) {
-       lastchar--;
-   }
-   if (*lastchar == '\\') {
-       lastchar++;
-   }
-   assert(lastchar >= src);
 
-   do {
-      if ((*dest = *src) == '\\') {
+   for (; *src != '\0' && (*src != stop || escape); ++src) {
+      if (*src == '\\') {
          escape = true;
-      } else {
-         escape = false;
-         ++dest;
+         continue;
+      }
+      if (n < size) {
+         dest[n] = *src;
       }
       ++n;
-      ++src;
-
-   } while (!(n == size || src > lastchar || ((*src == stop) && !escape) || *src == '\0'));
+      if (escape || !isspace(*src)) {
+         len = n;
+      }
+      escape = false;
+   }
    *end = src;
 
-   if (n == size) {
-       --dest;
-       ret = -1;
+   if (len == 0 || len >= size) {
+       return -1;
    }
-   *dest = '\0';
+   dest[len] = '\0';
 
-   return ret;
+   return 0;
 }
 
 
-- 
2.43.0


From e38805cb97e38d035d7cbd51010c75c5895cac19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:52 +0000
Subject: [PATCH 29/67] fix: refuse a configuration key without a value

parse_config() continued behind the end of the string.
---
 config_parser.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/config_parser.c b/config_parser.c
index c088145..2c3ed28 100644
--- a/config_parser.c
+++ b/config_parser.c
@@ -94,6 +94,11 @@ int parse_config(const char *str, struct config_item *items, FILE *error) {
          return -1;
       }
 
+      if (*end != '=') {
+         fprintf(error, "ERROR: No value for key: <%s>\n", key);
+         return -1;
+      }
+
       ptr = end + 1;
       char value[1024];
       if (trim_copy(value, sizeof(value), ptr, &end, ';') == -1) {
-- 
2.43.0


From fbf269a2f1cb9e91e71d6a3d7b78b2b4890780ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:52 +0000
Subject: [PATCH 30/67] fix: report an unknown configuration key followed by
 white space

---
 config_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config_parser.c b/config_parser.c
index 2c3ed28..8bcff41 100644
--- a/config_parser.c
+++ b/config_parser.c
@@ -84,7 +84,7 @@ int parse_config(const char *str, struct config_item *items, FILE *error) {
       }
       if (*ptr == '\0') {
          /* end of parameters */
-         return 0;
+         return ret;
       }
 
       const char *end;
-- 
2.43.0


From 45d2a31ccc01666376fa8905afbe4f9da9c32e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:52 +0000
Subject: [PATCH 31/67] fix: refuse a configuration size that does not fit its
 type

The multiplier of the suffix 't' overflowed int (1t gave 0), and larger values
were reduced modulo the size of the type.
---
 config_parser.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/config_parser.c b/config_parser.c
index 8bcff41..531f477 100644
--- a/config_parser.c
+++ b/config_parser.c
@@ -124,8 +124,8 @@ int parse_config(const char *str, struct config_item *items, FILE *error) {
             case DT_UINT32:
                {
                   char *sfx = "kmgt";
-                  int multiplier = 1;
-                  int m = 1;
+                  uint64_t multiplier = 1;
+                  uint64_t m = 1;
                   for (char *p = sfx; *p != '\0'; ++p) {
                      m *= 1024;
                      char *ptr = strchr(value, *p);
@@ -141,7 +141,7 @@ int parse_config(const char *str, struct config_item *items, FILE *error) {
 
                   if (items[ii].datatype == DT_SIZE) {
                       uint64_t val;
-                      if (safe_strtoull(value, &val)) {
+                      if (safe_strtoull(value, &val) && val <= SIZE_MAX / multiplier) {
                           *items[ii].value.dt_size = (size_t)(val * multiplier);
                           items[ii].found = true;
                       } else {
@@ -149,8 +149,8 @@ int parse_config(const char *str, struct config_item *items, FILE *error) {
                       }
                   } else {
                       uint32_t val;
-                      if (safe_strtoul(value, &val)) {
-                          *items[ii].value.dt_uint32 = val * multiplier;
+                      if (safe_strtoul(value, &val) && val <= UINT32_MAX / multiplier) {
+                          *items[ii].value.dt_uint32 = (uint32_t)(val * multiplier);
                           items[ii].found = true;
                       } else {
                           ret = -1;
-- 
2.43.0


From 9b1ec24c9cd86485cf3148521a32f5cf45354c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:53 +0000
Subject: [PATCH 32/67] fix: take a long line of the configuration file as one
 line

The rest of a comment longer than the line buffer was parsed as settings, and a
long line of settings was cut in the middle of a setting.
---
 config_parser.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/config_parser.c b/config_parser.c
index 531f477..c7eeb1e 100644
--- a/config_parser.c
+++ b/config_parser.c
@@ -227,12 +227,24 @@ static int read_config_file(const char *fname, struct config_item items[],
    }
 
    int ret = 0;
+   bool newline = true;
+   bool comment = false;
    char line[1024];
-   while (fgets(line, sizeof(line), fp) != NULL && ret != -1L) {
-      if (line[0] == '#') {
+   while (ret != -1L && fgets(line, sizeof(line), fp) != NULL) {
+      bool begin = newline;
+      newline = (strchr(line, '\n') != NULL);
+      if (begin) {
+         comment = (line[0] == '#');
+      }
+      if (comment) {
          /* Ignore comment line */
          continue;
       }
+      if (!begin) {
+         (void)fprintf(error, "ERROR: Too long line in file: %s\n", fname);
+         ret = -1;
+         break;
+      }
 
       int r = parse_config(line, items, error);
       if (r != 0) {
-- 
2.43.0


From 400e53e0fb43b9b5241668d4420e4a47370b3f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:53 +0000
Subject: [PATCH 33/67] fix: count the compare values of an element flag filter
 before storing them

---
 memcached.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/memcached.c b/memcached.c
index a2cbf79..e5da22b 100644
--- a/memcached.c
+++ b/memcached.c
@@ -12202,10 +12202,11 @@ static inline int get_efilter_from_tokens(token_t *tokens, const int ntokens, ef
             efilter->compvcnt = 0;
             ptr = strtok_r(tokens[token_count+1].value, ",", &saveptr);
             while (ptr != NULL) {
-                length = get_eflag_from_str(ptr, &efilter->compval[efilter->compvcnt*efilter->ncompval]);
-                if (++efilter->compvcnt > MAX_EFLAG_COMPARE_COUNT) {
+                if (efilter->compvcnt >= MAX_EFLAG_COMPARE_COUNT) {
                     return -1;
                 }
+                length = get_eflag_from_str(ptr, &efilter->compval[efilter->compvcnt*efilter->ncompval]);
+                efilter->compvcnt++;
                 if (efilter->compvcnt == 1) {
                     if (length < 0 || (offset+length) > MAX_EFLAG_LENG)
                         return -1;
-- 
2.43.0


From 72dc6b28be22c49244d42e9de6907d0607b0e1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:53 +0000
Subject: [PATCH 34/67] fix: skip leading white space of a command within the
 bytes received

---
 memcached.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memcached.c b/memcached.c
index e5da22b..07ec00b 100644
--- a/memcached.c
+++ b/memcached.c
@@ -13786,7 +13786,7 @@ static int try_read_command_ascii(conn *c)
              * large multiget, if not we should just nuke the connection.
              */
             char *ptr = c->rcurr;
-            while (*ptr == ' ') { /* ignore leading whitespaces */
+            while (ptr < c->rcurr + c->rbytes && *ptr == ' ') { /* ignore leading whitespaces */
                 ++ptr;
             }
             if (ptr - c->rcurr > 100) {
-- 
2.43.0


From dc544f99afac7ec8ce68db25e73a9300f7b7e798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:53 +0000
Subject: [PATCH 35/67] fix: read the verbosity level with the type the server
 passes

---
 engines/default/default_engine.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engines/default/default_engine.c b/engines/default/default_engine.c
index b436195..21d4360 100644
--- a/engines/default/default_engine.c
+++ b/engines/default/default_engine.c
@@ -1505,7 +1505,7 @@ default_set_config(ENGINE_HANDLE* handle, const void* cookie,
     }
     else if (strcmp(config_key, "verbosity") == 0) {
         pthread_mutex_lock(&engine->cache_lock);
-        engine->config.verbose = *(size_t*)config_value;
+        engine->config.verbose = *(unsigned int*)config_value;
         pthread_mutex_unlock(&engine->cache_lock);
     }
 #ifdef ENABLE_PERSISTENCE
-- 
2.43.0


From addc8ae191594225ad1bcc27c49d4e491b85c343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:02 +0000
Subject: [PATCH 36/67] fix: refuse engine options that do not fit the option
 buffer

---
 memcached.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/memcached.c b/memcached.c
index 07ec00b..e84fcf4 100644
--- a/memcached.c
+++ b/memcached.c
@@ -16014,6 +16014,10 @@ int main (int argc, char **argv)
         /* If there is -e, just append it to the "old" options that we have
          * accumulated so far.
          */
+        if (strlen(engine_config) >= (size_t)(old_options + sizeof(old_options) - old_opts)) {
+            mc_logger->log(EXTENSION_LOG_WARNING, NULL, "Too long engine config.\n");
+            return EX_USAGE;
+        }
         old_opts += sprintf(old_opts, "%s", engine_config);
         engine_config = NULL; /* So we set it to old_options below... */
         /*
-- 
2.43.0


From 97083c20ff4d1e0457552df62181015e5a7ce76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:11 +0000
Subject: [PATCH 37/67] fix: exchange the verbosity and checkpoint settings
 with the type the server uses

---
 engines/default/default_engine.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/engines/default/default_engine.c b/engines/default/default_engine.c
index 21d4360..413ea2e 100644
--- a/engines/default/default_engine.c
+++ b/engines/default/default_engine.c
@@ -1511,7 +1511,7 @@ default_set_config(ENGINE_HANDLE* handle, const void* cookie,
 #ifdef ENABLE_PERSISTENCE
     else if (engine->config.use_persistence) {
         if (strcmp(config_key, "chkpt_interval_pct_snapshot") == 0) {
-            size_t new_chkpt_interval_pct_snapshot = *(size_t*)config_value;
+            size_t new_chkpt_interval_pct_snapshot = *(unsigned int*)config_value;
             pthread_mutex_lock(&engine->cache_lock);
             if (new_chkpt_interval_pct_snapshot > 0 &&
                 new_chkpt_interval_pct_snapshot <= 1000) {
@@ -1522,7 +1522,7 @@ default_set_config(ENGINE_HANDLE* handle, const void* cookie,
             pthread_mutex_unlock(&engine->cache_lock);
         }
         else if (strcmp(config_key, "chkpt_interval_min_logsize") == 0) {
-            size_t new_chkpt_interval_min_logsize = *(size_t*)config_value;
+            size_t new_chkpt_interval_min_logsize = *(unsigned int*)config_value;
             pthread_mutex_lock(&engine->cache_lock);
             if (new_chkpt_interval_min_logsize > 0) {
                 engine->config.chkpt_interval_min_logsize = new_chkpt_interval_min_logsize * 1024 * 1024;
@@ -1596,19 +1596,19 @@ default_get_config(ENGINE_HANDLE* handle, const void* cookie,
     }
     else if (strcmp(config_key, "verbosity") == 0) {
         pthread_mutex_lock(&engine->cache_lock);
-        *(size_t*)config_value = engine->config.verbose;
+        *(unsigned int*)config_value = engine->config.verbose;
         pthread_mutex_unlock(&engine->cache_lock);
     }
 #ifdef ENABLE_PERSISTENCE
     else if (engine->config.use_persistence) {
         if (strcmp(config_key, "chkpt_interval_pct_snapshot") == 0) {
             pthread_mutex_lock(&engine->cache_lock);
-            *(size_t*)config_value = engine->config.chkpt_interval_pct_snapshot;
+            *(unsigned int*)config_value = engine->config.chkpt_interval_pct_snapshot;
             pthread_mutex_unlock(&engine->cache_lock);
         }
         else if (strcmp(config_key, "chkpt_interval_min_logsize") == 0) {
             pthread_mutex_lock(&engine->cache_lock);
-            *(size_t*)config_value = engine->config.chkpt_interval_min_logsize/1024/1024;
+            *(unsigned int*)config_value = engine->config.chkpt_interval_min_logsize/1024/1024;
             pthread_mutex_unlock(&engine->cache_lock);
         }
         else if (strcmp(config_key, "async_logging") == 0) {
-- 
2.43.0


From d14759c47a6c8c33972974a1e4b24d573f683dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:44 +0000
Subject: [PATCH 38/67] fix: clear the result array of bop mget before its keys
 are read

---
 memcached.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/memcached.c b/memcached.c
index e84fcf4..6c74990 100644
--- a/memcached.c
+++ b/memcached.c
@@ -6175,17 +6175,11 @@ static void process_bin_bop_prepare_nread_keys(conn *c)
         }
 #ifdef SUPPORT_BOP_MGET
         if (c->cmd == PROTOCOL_BINARY_CMD_BOP_MGET) {
-            int bmget_count;
-            int elem_array_size;
-
             if (req->message.body.key_count > MAX_BMGET_KEY_COUNT ||
                 req->message.body.req_count > MAX_BMGET_ELM_COUNT) {
                 ret = ENGINE_EBADVALUE; break;
             }
-            bmget_count = req->message.body.key_count * req->message.body.req_count;
-            elem_array_size = bmget_count * sizeof(eitem*);
-
-            need_size = elem_array_size;
+            need_size = req->message.body.key_count * sizeof(struct elems_result);
         }
 #endif
 #ifdef SUPPORT_BOP_SMGET
@@ -6252,6 +6246,12 @@ static void process_bin_bop_prepare_nread_keys(conn *c)
     } while(0);
 
     if (ret == ENGINE_SUCCESS) {
+#ifdef SUPPORT_BOP_MGET
+        if (c->cmd == PROTOCOL_BINARY_CMD_BOP_MGET) {
+            /* no element is found yet: see conn_coll_eitem_free() */
+            memset(elem, 0, c->coll_numkeys * sizeof(struct elems_result));
+        }
+#endif
         c->coll_strkeys = (void*)&c->memblist;
         ritem_set_first(c, CONN_RTYPE_MBLCK, vlen);
         c->coll_eitem  = (void *)elem;
@@ -11893,6 +11893,12 @@ static void process_bop_prepare_nread_keys(conn *c, int cmd, uint32_t vlen, uint
         }
     }
     if (ret == ENGINE_SUCCESS) {
+#ifdef SUPPORT_BOP_MGET
+        if (cmd == OPERATION_BOP_MGET) {
+            /* no element is found yet: see conn_coll_eitem_free() */
+            memset(elem, 0, c->coll_numkeys * sizeof(struct elems_result));
+        }
+#endif
         c->coll_strkeys = (void*)&c->memblist;
         ritem_set_first(c, CONN_RTYPE_MBLCK, vlen);
         c->coll_eitem  = (void *)elem;
-- 
2.43.0


From d99230984821efa8ef271ef459b60302c39193dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:02 +0000
Subject: [PATCH 39/67] fix: release the items of a get that ends with an error
 reply

---
 memcached.c | 39 ++++++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/memcached.c b/memcached.c
index 6c74990..731d985 100644
--- a/memcached.c
+++ b/memcached.c
@@ -14432,27 +14432,28 @@ bool conn_mwrite(conn *c)
 
     switch (transmit(c)) {
     case TRANSMIT_COMPLETE:
-        if (c->state == conn_mwrite) {
-            while (c->ileft > 0) {
-                item *it = *(c->icurr);
-                mc_engine.v1->release(mc_engine.v0, c, it);
-                c->icurr++;
-                c->ileft--;
-            }
+        /* An error reply (conn_write) may follow items saved by a get command. */
+        while (c->ileft > 0) {
+            item *it = *(c->icurr);
+            mc_engine.v1->release(mc_engine.v0, c, it);
+            c->icurr++;
+            c->ileft--;
+        }
 #ifdef SCAN_COMMAND
-            while (c->pleft > 0) {
-                item *it = *(c->pcurr);
-                mc_engine.v1->prefix_release(mc_engine.v0, c, it);
-                c->pcurr++;
-                c->pleft--;
-            }
+        while (c->pleft > 0) {
+            item *it = *(c->pcurr);
+            mc_engine.v1->prefix_release(mc_engine.v0, c, it);
+            c->pcurr++;
+            c->pleft--;
+        }
 #endif
-            while (c->suffixleft > 0) {
-                char *suffix = *(c->suffixcurr);
-                cache_free(c->thread->suffix_cache, suffix);
-                c->suffixcurr++;
-                c->suffixleft--;
-            }
+        while (c->suffixleft > 0) {
+            char *suffix = *(c->suffixcurr);
+            cache_free(c->thread->suffix_cache, suffix);
+            c->suffixcurr++;
+            c->suffixleft--;
+        }
+        if (c->state == conn_mwrite) {
             if (c->coll_eitem != NULL) {
                 conn_coll_eitem_free(c);
                 c->coll_eitem = NULL;
-- 
2.43.0


From c492b87421a41f083a854576d6779baa7906cf30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:50 +0000
Subject: [PATCH 40/67] fix: send the key of a binary getk miss from the read
 buffer

---
 memcached.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/memcached.c b/memcached.c
index 731d985..dc0c877 100644
--- a/memcached.c
+++ b/memcached.c
@@ -4001,11 +4001,9 @@ static void process_bin_get(conn *c)
             conn_set_state(c, conn_new_cmd);
         } else {
             if (c->cmd == PROTOCOL_BINARY_CMD_GETK) {
-                char *ofs = c->wbuf + sizeof(protocol_binary_response_header);
                 add_bin_header(c, PROTOCOL_BINARY_RESPONSE_KEY_ENOENT,
                         0, nkey, nkey);
-                memcpy(ofs, key, nkey);
-                add_iov(c, ofs, nkey);
+                add_iov(c, key, nkey);
                 conn_set_state(c, conn_mwrite);
             } else {
                 write_bin_packet(c, PROTOCOL_BINARY_RESPONSE_KEY_ENOENT, 0);
-- 
2.43.0


From 5dca06d387e08909036aeabb1d2d2fa213b164cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:50 +0000
Subject: [PATCH 41/67] fix: check the bkey and eflag lengths of binary bop
 insert

---
 memcached.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/memcached.c b/memcached.c
index dc0c877..d3c0f61 100644
--- a/memcached.c
+++ b/memcached.c
@@ -5493,6 +5493,11 @@ static void process_bin_bop_prepare_nread(conn *c)
 
     /* fix byteorder in the request */
     protocol_binary_request_bop_insert* req = binary_get_request(c);
+    if (req->message.body.nbkey > MAX_BKEY_LENG ||
+        req->message.body.neflag > MAX_EFLAG_LENG) {
+        handle_binary_protocol_error(c);
+        return;
+    }
     if (req->message.body.nbkey == 0) {
         uint64_t bkey_temp;
         memcpy((uint8_t*)&bkey_temp, req->message.body.bkey, sizeof(uint64_t));
-- 
2.43.0


From 749be1a8354bfa21728c83cc2a954b057999a9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:50 +0000
Subject: [PATCH 42/67] fix: check the bkey and eflag lengths of binary bop
 update

---
 memcached.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/memcached.c b/memcached.c
index d3c0f61..385b1b5 100644
--- a/memcached.c
+++ b/memcached.c
@@ -5727,6 +5727,12 @@ static void process_bin_bop_update_prepare_nread(conn *c)
 
     /* fix byteorder in the request */
     protocol_binary_request_bop_update* req = binary_get_request(c);
+    if (req->message.body.nbkey > MAX_BKEY_LENG ||
+        (req->message.body.neflag > MAX_EFLAG_LENG &&
+         req->message.body.neflag != EFLAG_NULL)) {
+        handle_binary_protocol_error(c);
+        return;
+    }
     if (req->message.body.nbkey == 0) {
         uint64_t bkey_temp;
         memcpy((uint8_t*)&bkey_temp, req->message.body.bkey, sizeof(uint64_t));
@@ -5745,7 +5751,7 @@ static void process_bin_bop_update_prepare_nread(conn *c)
     c->coll_eupdate.offset = req->message.body.offset;
     c->coll_eupdate.bitwop = req->message.body.bitwop;
     c->coll_eupdate.neflag = req->message.body.neflag;
-    if (req->message.body.neflag > 0) {
+    if (req->message.body.neflag > 0 && req->message.body.neflag != EFLAG_NULL) {
         memcpy(c->coll_eupdate.eflag, req->message.body.eflag, req->message.body.neflag);
     }
 
-- 
2.43.0


From a84a3a30440ee13e88cf2d94e934b010f265c2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:50 +0000
Subject: [PATCH 43/67] fix: a binary bop update without a value has no value
 bytes

---
 memcached.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/memcached.c b/memcached.c
index 385b1b5..9a3e756 100644
--- a/memcached.c
+++ b/memcached.c
@@ -5729,7 +5729,8 @@ static void process_bin_bop_update_prepare_nread(conn *c)
     protocol_binary_request_bop_update* req = binary_get_request(c);
     if (req->message.body.nbkey > MAX_BKEY_LENG ||
         (req->message.body.neflag > MAX_EFLAG_LENG &&
-         req->message.body.neflag != EFLAG_NULL)) {
+         req->message.body.neflag != EFLAG_NULL) ||
+        (req->message.body.novalue != 0) != (vlen == 0)) {
         handle_binary_protocol_error(c);
         return;
     }
@@ -7212,7 +7213,7 @@ static void dispatch_bin_command(conn *c)
         }
         break;
     case PROTOCOL_BINARY_CMD_BOP_UPDATE:
-        if (keylen > 0 && extlen == (MAX_BKEY_LENG+1+MAX_EFLAG_LENG+1+8) && bodylen > (keylen + extlen)) {
+        if (keylen > 0 && extlen == (MAX_BKEY_LENG+1+MAX_EFLAG_LENG+1+8) && bodylen >= (keylen + extlen)) {
             bin_read_key(c, bin_reading_bop_update_prepare_nread, (MAX_BKEY_LENG+1+MAX_EFLAG_LENG+1+8));
         } else {
             protocol_error = 1;
-- 
2.43.0


From f226cfa43200ae2a4a7c0601280082330c93ef60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:50 +0000
Subject: [PATCH 44/67] fix: check the maxbkeyrange length of binary setattr

---
 memcached.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/memcached.c b/memcached.c
index 9a3e756..c02abbe 100644
--- a/memcached.c
+++ b/memcached.c
@@ -6784,6 +6784,11 @@ static void process_bin_setattr(conn *c)
         attr_data.maxcount = req->message.body.maxcount;
     }
     if (req->message.body.maxbkeyrange.len != BKEY_NULL) {
+        if (req->message.body.maxbkeyrange.len > MAX_BKEY_LENG) {
+            STATS_CMD_NOKEY(c, setattr);
+            write_bin_packet(c, PROTOCOL_BINARY_RESPONSE_EBADVALUE, 0);
+            return;
+        }
         attr_ids[attr_count++] = ATTR_MAXBKEYRANGE;
         if (req->message.body.maxbkeyrange.len == 0) {
             uint64_t bkey_temp;
-- 
2.43.0


From 9e21f863c69d4ac31027308ef83c0e562306f163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:50 +0000
Subject: [PATCH 45/67] fix: refuse binary requests whose body is shorter or
 longer than their key

---
 memcached.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/memcached.c b/memcached.c
index c02abbe..16609de 100644
--- a/memcached.c
+++ b/memcached.c
@@ -7101,14 +7101,14 @@ static void dispatch_bin_command(conn *c)
         break;
     case PROTOCOL_BINARY_CMD_APPEND:
     case PROTOCOL_BINARY_CMD_PREPEND:
-        if (keylen > 0 && extlen == 0) {
+        if (keylen > 0 && extlen == 0 && bodylen >= keylen) {
             bin_read_key(c, bin_reading_set_header, 0);
         } else {
             protocol_error = 1;
         }
         break;
     case PROTOCOL_BINARY_CMD_STAT:
-        if (extlen == 0) {
+        if (extlen == 0 && bodylen == keylen) {
             bin_read_key(c, bin_reading_stat, 0);
         } else {
             protocol_error = 1;
@@ -7269,7 +7269,7 @@ static void dispatch_bin_command(conn *c)
         break;
     case PROTOCOL_BINARY_CMD_SASL_AUTH:
     case PROTOCOL_BINARY_CMD_SASL_STEP:
-        if (extlen == 0 && keylen != 0) {
+        if (extlen == 0 && keylen != 0 && bodylen >= keylen) {
             bin_read_key(c, bin_reading_sasl_auth, 0);
         } else {
             protocol_error = 1;
-- 
2.43.0


From e574a0012cfb5e18be82faa4c821dd2280e6ccb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:50 +0000
Subject: [PATCH 46/67] fix: count the prefix in the body length of a binary
 flush prefix

---
 memcached.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memcached.c b/memcached.c
index 16609de..58f6b75 100644
--- a/memcached.c
+++ b/memcached.c
@@ -7052,7 +7052,7 @@ static void dispatch_bin_command(conn *c)
         }
         break;
     case PROTOCOL_BINARY_CMD_FLUSH_PREFIX:
-        if (keylen > 0 && bodylen == extlen && (extlen == 0 || extlen == 4)) {
+        if (keylen > 0 && bodylen == (keylen + extlen) && (extlen == 0 || extlen == 4)) {
             bin_read_key(c, bin_read_flush_prefix_exptime, extlen);
         } else {
             protocol_error = 1;
-- 
2.43.0


From ceb27236a96410627130d70b5bc8cb55570530b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:50 +0000
Subject: [PATCH 47/67] fix: limit the body of an unknown binary command

---
 memcached.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/memcached.c b/memcached.c
index 58f6b75..1f99a3f 100644
--- a/memcached.c
+++ b/memcached.c
@@ -7279,6 +7279,8 @@ static void dispatch_bin_command(conn *c)
     default:
         if (mc_engine.v1->unknown_command == NULL) {
             write_bin_packet(c, PROTOCOL_BINARY_RESPONSE_UNKNOWN_COMMAND, bodylen);
+        } else if (bodylen > settings.item_size_max) {
+            protocol_error = 1;
         } else {
             bin_read_chunk(c, bin_reading_packet, c->binary_header.request.bodylen);
         }
-- 
2.43.0


From 407e6e07335c21f48cf2ce9c7ad507f1b9ca4a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:50 +0000
Subject: [PATCH 48/67] fix: clear the fields an item has not in a binary
 getattr response

---
 memcached.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/memcached.c b/memcached.c
index 1f99a3f..cd09290 100644
--- a/memcached.c
+++ b/memcached.c
@@ -6719,6 +6719,7 @@ static void process_bin_getattr(conn *c)
         STATS_HITS(c, getattr, key, nkey);
 
         protocol_binary_response_getattr* rsp = (protocol_binary_response_getattr*)c->wbuf;
+        memset(&rsp->message.body, 0, sizeof(rsp->message.body));
         rsp->message.body.flags      = attr_data.flags;
         rsp->message.body.expiretime = htonl(lefttime(attr_data.exptime));
         rsp->message.body.type       = attr_data.type;
-- 
2.43.0


From b8f17d47ce0b5859173cff71a74ea01c6905cd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:53 +0000
Subject: [PATCH 49/67] fix: terminate the key of a binary stat before it is
 compared

---
 memcached.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/memcached.c b/memcached.c
index cd09290..0009b90 100644
--- a/memcached.c
+++ b/memcached.c
@@ -4116,9 +4116,17 @@ static void append_ascii_stats(const char *key, const uint16_t klen,
 
 static void process_bin_stat(conn *c)
 {
-    char *subcommand = binary_get_key(c);
+    char subcommand[128];
     size_t nkey = c->binary_header.request.keylen;
 
+    /* the key in the read buffer is not terminated */
+    if (nkey >= sizeof(subcommand)) {
+        write_bin_packet(c, PROTOCOL_BINARY_RESPONSE_KEY_ENOENT, 0);
+        return;
+    }
+    memcpy(subcommand, binary_get_key(c), nkey);
+    subcommand[nkey] = '\0';
+
     if (settings.verbose > 1) {
         char buffer[1024];
         if (key_to_printable_buffer(buffer, sizeof(buffer), c->sfd, true,
-- 
2.43.0


From 46461d118153c5483c8597e154efc6fb0083964d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:53 +0000
Subject: [PATCH 50/67] fix: refuse an unknown binary command whose body is
 shorter than its key

---
 memcached.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memcached.c b/memcached.c
index 0009b90..adf156c 100644
--- a/memcached.c
+++ b/memcached.c
@@ -7288,7 +7288,7 @@ static void dispatch_bin_command(conn *c)
     default:
         if (mc_engine.v1->unknown_command == NULL) {
             write_bin_packet(c, PROTOCOL_BINARY_RESPONSE_UNKNOWN_COMMAND, bodylen);
-        } else if (bodylen > settings.item_size_max) {
+        } else if (bodylen < (keylen + extlen) || bodylen > settings.item_size_max) {
             protocol_error = 1;
         } else {
             bin_read_chunk(c, bin_reading_packet, c->binary_header.request.bodylen);
-- 
2.43.0


From 2ee243a2ca5d4b3e25dc73093ba3c0054bf98005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:53 +0000
Subject: [PATCH 51/67] fix: keep the state of a vbucket in an unsigned field

---
 include/memcached/vbucket.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/memcached/vbucket.h b/include/memcached/vbucket.h
index 043317a..b799faf 100644
--- a/include/memcached/vbucket.h
+++ b/include/memcached/vbucket.h
@@ -24,7 +24,7 @@ enum vbucket_state {
 };
 
 struct vbucket_info {
-    int state : 2;
+    unsigned int state : 2;
 };
 
 union vbucket_info_adapter {
-- 
2.43.0


From 5074540f8c164ba9c6cf8041078895c785993f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:53 +0000
Subject: [PATCH 52/67] fix: refuse vbucket number 65536

---
 engines/default/default_engine.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/engines/default/default_engine.c b/engines/default/default_engine.c
index 413ea2e..5c8de1a 100644
--- a/engines/default/default_engine.c
+++ b/engines/default/default_engine.c
@@ -1696,7 +1696,7 @@ set_vbucket(struct default_engine *e, protocol_binary_request_header *request,
     }
 
     uint32_t vbucket = 0;
-    if (!safe_strtoul(keyz, &vbucket) || vbucket > NUM_VBUCKETS) {
+    if (!safe_strtoul(keyz, &vbucket) || vbucket >= NUM_VBUCKETS) {
         *msg = "Value out of range.";
         rv = PROTOCOL_BINARY_RESPONSE_EINVAL;
     } else {
@@ -1728,7 +1728,7 @@ get_vbucket(struct default_engine *e, protocol_binary_request_header *request,
     protocol_binary_response_status rv = PROTOCOL_BINARY_RESPONSE_SUCCESS;
 
     uint32_t vbucket = 0;
-    if (!safe_strtoul(keyz, &vbucket) || vbucket > NUM_VBUCKETS) {
+    if (!safe_strtoul(keyz, &vbucket) || vbucket >= NUM_VBUCKETS) {
         *msg = "Value out of range.";
         rv = PROTOCOL_BINARY_RESPONSE_EINVAL;
     } else {
@@ -1760,7 +1760,7 @@ rm_vbucket(struct default_engine *e, protocol_binary_request_header *request,
     protocol_binary_response_status rv = PROTOCOL_BINARY_RESPONSE_SUCCESS;
 
     uint32_t vbucket = 0;
-    if (!safe_strtoul(keyz, &vbucket) || vbucket > NUM_VBUCKETS) {
+    if (!safe_strtoul(keyz, &vbucket) || vbucket >= NUM_VBUCKETS) {
         *msg = "Value out of range.";
         rv = PROTOCOL_BINARY_RESPONSE_EINVAL;
     } else {
-- 
2.43.0


From 89467bdf9bd5b7b81443cdd4f873e242b26df7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:26 +0000
Subject: [PATCH 53/67] fix: bound the data length of the sasl auth command

---
 memcached.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/memcached.c b/memcached.c
index adf156c..ce9151b 100644
--- a/memcached.c
+++ b/memcached.c
@@ -4326,7 +4326,8 @@ static void process_ascii_sasl_auth(conn *c, token_t *tokens, const size_t ntoke
         c->sasl_mech[0] = '\0';
     }
 
-    if (! safe_strtoul(tokens[read_ntokens++].value, &c->sasl_auth_data_len)) {
+    if (! safe_strtoul(tokens[read_ntokens++].value, &c->sasl_auth_data_len) ||
+        c->sasl_auth_data_len > (INT_MAX-2)) {
         out_string(c, "CLIENT_ERROR bad command line format");
         return;
     }
-- 
2.43.0


From 83d5c01e098891e2a5116acd77573a43efeedf5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:26 +0000
Subject: [PATCH 54/67] fix: swallow the data of a sasl auth command that finds
 no memory

---
 memcached.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/memcached.c b/memcached.c
index ce9151b..7336937 100644
--- a/memcached.c
+++ b/memcached.c
@@ -4342,6 +4342,8 @@ static void process_ascii_sasl_auth(conn *c, token_t *tokens, const size_t ntoke
     c->sasl_auth_data = malloc(c->sasl_auth_data_len + 2);
     if (!c->sasl_auth_data) {
         out_string(c, "SERVER_ERROR out of memory");
+        c->sbytes = c->sasl_auth_data_len + 2;
+        c->write_and_go = conn_swallow;
         return;
     }
 
-- 
2.43.0


From 619e74468583bfed2959df390f9cadb4e998f8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:26 +0000
Subject: [PATCH 55/67] fix: check the privilege for all keys of a get command

---
 memcached.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/memcached.c b/memcached.c
index 7336937..b1ea27b 100644
--- a/memcached.c
+++ b/memcached.c
@@ -8630,9 +8630,13 @@ static inline void process_get_command(conn *c, token_t *tokens, size_t ntokens,
     int64_t exptime = 0;
 
 #ifdef ASCII_SASL
-    if (settings.require_sasl && !check_ascii_auth(c, AUTHZ_KV, key_token->value, tokens, ntokens)) {
-        out_string(c, "CLIENT_ERROR unauthorized");
-        return;
+    if (settings.require_sasl) {
+        /* The exemption of an "arcus:" key does not cover further keys. */
+        char *auth_key = (ntokens == 3 ? key_token->value : NULL);
+        if (!check_ascii_auth(c, AUTHZ_KV, auth_key, tokens, ntokens)) {
+            out_string(c, "CLIENT_ERROR unauthorized");
+            return;
+        }
     }
 #endif
 
-- 
2.43.0


From aa781c6a71bfda7c177a136713bfdaf752d29eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:26 +0000
Subject: [PATCH 56/67] fix: pass the terminal token of an extension command to
 check_ascii_auth

---
 memcached.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memcached.c b/memcached.c
index b1ea27b..dc943c4 100644
--- a/memcached.c
+++ b/memcached.c
@@ -9933,7 +9933,7 @@ static void process_extension_command(conn *c, token_t *tokens, size_t ntokens)
         return;
     }
 #ifdef ASCII_SASL
-    if (settings.require_sasl && !check_ascii_auth(c, cmd->get_auth_flag(), NULL, tokens, ntokens)) {
+    if (settings.require_sasl && !check_ascii_auth(c, cmd->get_auth_flag(), NULL, tokens, ntokens + 1)) {
         out_string(c, "CLIENT_ERROR unauthorized");
         return;
     }
-- 
2.43.0


From 13055b6f74f3194b3e9aad8ef6212df822397755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:09 +0000
Subject: [PATCH 57/67] fix: check the privileges of the user for binary
 commands

---
 memcached.c | 91 +++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 91 insertions(+)

diff --git a/memcached.c b/memcached.c
index dc943c4..3de7d2c 100644
--- a/memcached.c
+++ b/memcached.c
@@ -4556,6 +4556,85 @@ static bool authenticated(conn *c)
     return rv;
 }
 
+/* the privileges that a binary command needs */
+static uint16_t bin_auth_flag(const uint8_t cmd)
+{
+    switch (cmd) {
+    case PROTOCOL_BINARY_CMD_NOOP:
+    case PROTOCOL_BINARY_CMD_VERSION:
+    case PROTOCOL_BINARY_CMD_STAT:
+    case PROTOCOL_BINARY_CMD_QUIT:
+    case PROTOCOL_BINARY_CMD_QUITQ:
+    case PROTOCOL_BINARY_CMD_SASL_LIST_MECHS:
+    case PROTOCOL_BINARY_CMD_SASL_AUTH:
+    case PROTOCOL_BINARY_CMD_SASL_STEP:
+        return AUTHZ_NONE;
+    case PROTOCOL_BINARY_CMD_GET:
+    case PROTOCOL_BINARY_CMD_GETQ:
+    case PROTOCOL_BINARY_CMD_GETK:
+    case PROTOCOL_BINARY_CMD_GETKQ:
+    case PROTOCOL_BINARY_CMD_SET:
+    case PROTOCOL_BINARY_CMD_SETQ:
+    case PROTOCOL_BINARY_CMD_ADD:
+    case PROTOCOL_BINARY_CMD_ADDQ:
+    case PROTOCOL_BINARY_CMD_REPLACE:
+    case PROTOCOL_BINARY_CMD_REPLACEQ:
+    case PROTOCOL_BINARY_CMD_APPEND:
+    case PROTOCOL_BINARY_CMD_APPENDQ:
+    case PROTOCOL_BINARY_CMD_PREPEND:
+    case PROTOCOL_BINARY_CMD_PREPENDQ:
+    case PROTOCOL_BINARY_CMD_INCREMENT:
+    case PROTOCOL_BINARY_CMD_INCREMENTQ:
+    case PROTOCOL_BINARY_CMD_DECREMENT:
+    case PROTOCOL_BINARY_CMD_DECREMENTQ:
+        return AUTHZ_KV;
+    case PROTOCOL_BINARY_CMD_DELETE:
+    case PROTOCOL_BINARY_CMD_DELETEQ:
+        return AUTHZ_DELETE;
+    case PROTOCOL_BINARY_CMD_FLUSH:
+    case PROTOCOL_BINARY_CMD_FLUSHQ:
+    case PROTOCOL_BINARY_CMD_FLUSH_PREFIX:
+        return AUTHZ_FLUSH;
+    case PROTOCOL_BINARY_CMD_GETATTR:
+    case PROTOCOL_BINARY_CMD_SETATTR:
+        return AUTHZ_ATTR;
+    case PROTOCOL_BINARY_CMD_LOP_CREATE:
+    case PROTOCOL_BINARY_CMD_LOP_INSERT:
+    case PROTOCOL_BINARY_CMD_LOP_INSERTQ:
+    case PROTOCOL_BINARY_CMD_LOP_DELETE:
+    case PROTOCOL_BINARY_CMD_LOP_DELETEQ:
+    case PROTOCOL_BINARY_CMD_LOP_GET:
+        return AUTHZ_LIST;
+    case PROTOCOL_BINARY_CMD_SOP_CREATE:
+    case PROTOCOL_BINARY_CMD_SOP_INSERT:
+    case PROTOCOL_BINARY_CMD_SOP_INSERTQ:
+    case PROTOCOL_BINARY_CMD_SOP_DELETE:
+    case PROTOCOL_BINARY_CMD_SOP_DELETEQ:
+    case PROTOCOL_BINARY_CMD_SOP_EXIST:
+    case PROTOCOL_BINARY_CMD_SOP_GET:
+        return AUTHZ_SET;
+    case PROTOCOL_BINARY_CMD_BOP_CREATE:
+    case PROTOCOL_BINARY_CMD_BOP_INSERT:
+    case PROTOCOL_BINARY_CMD_BOP_INSERTQ:
+    case PROTOCOL_BINARY_CMD_BOP_UPSERT:
+    case PROTOCOL_BINARY_CMD_BOP_UPSERTQ:
+    case PROTOCOL_BINARY_CMD_BOP_UPDATE:
+    case PROTOCOL_BINARY_CMD_BOP_UPDATEQ:
+    case PROTOCOL_BINARY_CMD_BOP_DELETE:
+    case PROTOCOL_BINARY_CMD_BOP_DELETEQ:
+    case PROTOCOL_BINARY_CMD_BOP_GET:
+    case PROTOCOL_BINARY_CMD_BOP_COUNT:
+    case PROTOCOL_BINARY_CMD_BOP_POSITION:
+    case PROTOCOL_BINARY_CMD_BOP_PWG:
+    case PROTOCOL_BINARY_CMD_BOP_GBP:
+    case PROTOCOL_BINARY_CMD_BOP_MGET:
+    case PROTOCOL_BINARY_CMD_BOP_SMGET:
+        return AUTHZ_BTREE;
+    default: /* engine specific commands */
+        return AUTHZ_ADMIN;
+    }
+}
+
 static void process_bin_lop_create(conn *c)
 {
     assert(c != NULL);
@@ -6974,6 +7053,18 @@ static void dispatch_bin_command(conn *c)
         return;
     }
 
+    if (settings.require_sasl) {
+        uint16_t auth_flag = bin_auth_flag(c->cmd);
+        if ((c->authorized & auth_flag) != auth_flag) {
+            if (bodylen > INT_MAX) {
+                handle_binary_protocol_error(c);
+            } else {
+                write_bin_packet(c, PROTOCOL_BINARY_RESPONSE_AUTH_ERROR, bodylen);
+            }
+            return;
+        }
+    }
+
     MEMCACHED_PROCESS_COMMAND_START(c->sfd, c->rcurr, c->rbytes);
     c->noreply = true;
 
-- 
2.43.0


From d7dd40c8bacc5285ff188da907fc58f2fb3cc95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:18 +0000
Subject: [PATCH 58/67] hooks: sizes of the log buffer, log records and
 snapshot buffer

---
 engines/default/chkpt_snapshot.c | 4 ++++
 engines/default/cmdlogbuf.c      | 8 ++++++++
 engines/default/cmdlogrec.h      | 4 ++++
 3 files changed, 16 insertions(+)

diff --git a/engines/default/chkpt_snapshot.c b/engines/default/chkpt_snapshot.c
index 9c44827..3b12d6c 100644
--- a/engines/default/chkpt_snapshot.c
+++ b/engines/default/chkpt_snapshot.c
@@ -25,7 +25,11 @@
 #ifdef ENABLE_PERSISTENCE
 #include "cmdlogmgr.h"
 
+#ifdef VERIF_SNAPSHOT_BUFFER_SIZE /* small snapshot buffer for verification */
+#define SNAPSHOT_BUFFER_SIZE VERIF_SNAPSHOT_BUFFER_SIZE
+#else
 #define SNAPSHOT_BUFFER_SIZE (10 * 1024 * 1024)
+#endif
 #define SCAN_ITEM_ARRAY_SIZE 16
 //#define SCAN_ITEM_ARRAY_SIZE 64
 
diff --git a/engines/default/cmdlogbuf.c b/engines/default/cmdlogbuf.c
index a63e6ea..bc4f6bb 100644
--- a/engines/default/cmdlogbuf.c
+++ b/engines/default/cmdlogbuf.c
@@ -29,8 +29,16 @@
 #include "cmdlogfile.h"
 
 /* FIXME: config log buffer size */
+#ifdef VERIF_CMDLOG_BUFFER_SIZE /* small log buffer for verification */
+#define CMDLOG_BUFFER_SIZE VERIF_CMDLOG_BUFFER_SIZE
+#else
 #define CMDLOG_BUFFER_SIZE (100 * 1024 * 1024) /* 100 MB */
+#endif
+#ifdef VERIF_CMDLOG_FLUSH_SIZE
+#define CMDLOG_FLUSH_AUTO_SIZE VERIF_CMDLOG_FLUSH_SIZE
+#else
 #define CMDLOG_FLUSH_AUTO_SIZE (32 * 1024) /* 32 KB : see the nflush data type of log_FREQ */
+#endif
 #define CMDLOG_RECORD_MIN_SIZE 16          /* 8 bytes header + 8 bytes body */
 
 #define ENABLE_DEBUG 0
diff --git a/engines/default/cmdlogrec.h b/engines/default/cmdlogrec.h
index dae763c..f5da1a8 100644
--- a/engines/default/cmdlogrec.h
+++ b/engines/default/cmdlogrec.h
@@ -68,7 +68,11 @@ typedef enum {
  */
 
 /* max log record size */
+#ifdef VERIF_LOG_RECORD_SIZE /* small log records for verification */
+#define MAX_LOG_RECORD_SIZE VERIF_LOG_RECORD_SIZE
+#else
 #define MAX_LOG_RECORD_SIZE (2 * 1024 * 1024)
+#endif
 
 /* log record type */
 enum log_type {
-- 
2.43.0


From a67dbf915c73c272b423a91ae6b4ad16cead6884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:57 +0000
Subject: [PATCH 59/67] fix: build the persistence option where a system header
 defines offsetof

---
 engines/default/cmdlogrec.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/engines/default/cmdlogrec.c b/engines/default/cmdlogrec.c
index 94f8a65..e43e278 100644
--- a/engines/default/cmdlogrec.c
+++ b/engines/default/cmdlogrec.c
@@ -31,10 +31,9 @@
 #define PERSISTENCE_MINOR_VERSION 0 /* backward compatibility */
 //#define DEBUG_PERSISTENCE_DISK_FORMAT_PRINT
 
-#ifdef offsetof
-#error "offsetof is already defined"
-#endif
+#ifndef offsetof
 #define offsetof(type, member) __builtin_offsetof(type, member)
+#endif
 
 #define EXPIRED_REL_EXPTIME(exptime) ((exptime) == 1)
 
-- 
2.43.0


From 2f62b60892be21f182272eada73615aed8c9b244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:08 +0000
Subject: [PATCH 60/67] fix: cut an incomplete record off the command log at
 recovery

---
 engines/default/cmdlogfile.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/engines/default/cmdlogfile.c b/engines/default/cmdlogfile.c
index 34f5245..610504d 100644
--- a/engines/default/cmdlogfile.c
+++ b/engines/default/cmdlogfile.c
@@ -549,6 +549,18 @@ int cmdlog_file_apply(void)
             }
         }
     }
+    if (ret == 0 && log_file_gl.initialized) {
+        /* Cut off what was not completely written,
+         * because the following log records are written at its position.
+         */
+        if (disk_lseek(logfile->fd, seek_offset, SEEK_SET) < 0 ||
+            ftruncate(logfile->fd, seek_offset) < 0) {
+            logger->log(EXTENSION_LOG_WARNING, NULL,
+                        "[RECOVERY - CMDLOG] failed : truncate(%d). path=%s, error=%s.\n",
+                        seek_offset, logfile->path, strerror(errno));
+            ret = -1;
+        }
+    }
     if (ret < 0) {
         close(logfile->fd);
     } else {
-- 
2.43.0


From f237f3189403e8b2f2e159976374b58a15070e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:33 +0000
Subject: [PATCH 61/67] fix: drop an operation whose end was not logged from
 the command log at recovery

---
 engines/default/cmdlogfile.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/engines/default/cmdlogfile.c b/engines/default/cmdlogfile.c
index 610504d..2f1f435 100644
--- a/engines/default/cmdlogfile.c
+++ b/engines/default/cmdlogfile.c
@@ -550,6 +550,10 @@ int cmdlog_file_apply(void)
         }
     }
     if (ret == 0 && log_file_gl.initialized) {
+        if (pending) {
+            /* The end of the last operation was not written. Drop the operation. */
+            seek_offset = pending_start_offset - sizeof(LogHdr);
+        }
         /* Cut off what was not completely written,
          * because the following log records are written at its position.
          */
-- 
2.43.0


From 5c1a92406e0641e1e6e745273a6e869e3d08c83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:25 +0000
Subject: [PATCH 62/67] fix: do not bring back a replaced value when its
 replacement has expired by the time of recovery

---
 engines/default/cmdlogrec.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/engines/default/cmdlogrec.c b/engines/default/cmdlogrec.c
index e43e278..a45e167 100644
--- a/engines/default/cmdlogrec.c
+++ b/engines/default/cmdlogrec.c
@@ -306,6 +306,10 @@ static ENGINE_ERROR_CODE lrec_it_link_redo(LogRec *logrec)
 
     cm.exptime = CONVERT_REL_EXPTIME(cm.exptime);
     if (EXPIRED_REL_EXPTIME(cm.exptime)) {
+        if (cm.ittype == ITEM_TYPE_KV) {
+            /* the value it replaced must not stay. */
+            (void)item_apply_unlink(engine, keyptr, cm.keylen);
+        }
         return ENGINE_SUCCESS;
     }
 
-- 
2.43.0


From 5f269474b13b13f80ff47c0551fdd10790c17ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:07 +0000
Subject: [PATCH 63/67] fix: do not sweep the files of the last checkpoint

---
 engines/default/checkpoint.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/engines/default/checkpoint.c b/engines/default/checkpoint.c
index 32aa856..fd7b600 100644
--- a/engines/default/checkpoint.c
+++ b/engines/default/checkpoint.c
@@ -99,7 +99,7 @@ static bool do_chkpt_sweep_files(chkpt_st *cs)
         while ((ent = readdir(dir)) != NULL) {
             char *ptr = ent->d_name;
             if (strncmp(CHKPT_SNAPSHOT_PREFIX, ptr, plen) != 0 ||
-                cs->lasttime == atoi(ptr + plen)) {
+                cs->lasttime == atoll(ptr + plen)) {
                 continue;
             }
             sprintf(cs->snapshot_path, "%s/%s", cs->data_path, ent->d_name);
@@ -124,7 +124,7 @@ static bool do_chkpt_sweep_files(chkpt_st *cs)
         while ((ent = readdir(dir)) != NULL) {
             char *ptr = ent->d_name;
             if (strncmp(CHKPT_CMDLOG_PREFIX, ptr, plen) != 0 ||
-                cs->lasttime == atoi(ptr + plen)) {
+                cs->lasttime == atoll(ptr + plen)) {
                 continue;
             }
             sprintf(cs->cmdlog_path, "%s/%s", cs->logs_path, ent->d_name);
-- 
2.43.0


From 150ebc1bad100a6e7e2f88f760bbdefa4d21a16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:05 +0000
Subject: [PATCH 64/67] fix: write all the log records left in the buffer at
 shutdown

---
 engines/default/cmdlogbuf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engines/default/cmdlogbuf.c b/engines/default/cmdlogbuf.c
index bc4f6bb..800c1e2 100644
--- a/engines/default/cmdlogbuf.c
+++ b/engines/default/cmdlogbuf.c
@@ -482,7 +482,7 @@ void cmdlog_buf_final(void)
     }
 
     /* In async mode, log records may remain in CMDLOG_FLUSH_AUTO_SIZE. */
-    (void)do_log_buff_flush(true);
+    while (do_log_buff_flush(true) > 0);
 
     /* log buffer final */
     log_BUFFER *logbuff = &log_buff_gl.log_buffer;
-- 
2.43.0


From f348cc60f1f9a73d578b3a092f8c0fb85ea2f85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:11 +0000
Subject: [PATCH 65/67] fix: do not overwrite the element data of a snapshot
 record at recovery

---
 engines/default/cmdlogrec.c | 24 +++++++++++++++---------
 engines/default/cmdlogrec.h |  1 -
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/engines/default/cmdlogrec.c b/engines/default/cmdlogrec.c
index a45e167..b3854f6 100644
--- a/engines/default/cmdlogrec.c
+++ b/engines/default/cmdlogrec.c
@@ -1304,21 +1304,27 @@ static void lrec_snapshot_elem_link_write(LogRec *logrec, char *bufptr)
     }
 }
 
+/* The collection item of the snapshot element log record to redo.
+ * It's not kept in the log record since the element data is there.
+ */
+static hash_item *snapshot_coll_item = NULL;
+
 static ENGINE_ERROR_CODE lrec_snapshot_elem_link_redo(LogRec *logrec)
 {
     ENGINE_ERROR_CODE ret = ENGINE_FAILED;
     SnapshotElemLog  *log  = (SnapshotElemLog*)logrec;
     SnapshotElemData *body = &log->body;
+    hash_item *it = snapshot_coll_item;
     char *valptr = body->data;
 
-    if (IS_LIST_ITEM(log->it)) {
-        ret = list_apply_elem_insert(engine, log->it, -1, -1, valptr, body->nbytes);
-    } else if (IS_SET_ITEM(log->it)) {
-        ret = set_apply_elem_insert(engine, log->it, valptr, body->nbytes);
-    } else if (IS_MAP_ITEM(log->it)) {
-        ret = map_apply_elem_insert(engine, log->it, valptr, body->nekey, body->nbytes);
-    } else if (IS_BTREE_ITEM(log->it)) {
-        ret = btree_apply_elem_insert(engine, log->it, valptr, body->nekey, body->neflag, body->nbytes);
+    if (IS_LIST_ITEM(it)) {
+        ret = list_apply_elem_insert(engine, it, -1, -1, valptr, body->nbytes);
+    } else if (IS_SET_ITEM(it)) {
+        ret = set_apply_elem_insert(engine, it, valptr, body->nbytes);
+    } else if (IS_MAP_ITEM(it)) {
+        ret = map_apply_elem_insert(engine, it, valptr, body->nekey, body->nbytes);
+    } else if (IS_BTREE_ITEM(it)) {
+        ret = btree_apply_elem_insert(engine, it, valptr, body->nekey, body->neflag, body->nbytes);
     }
 
     if (ret != ENGINE_SUCCESS) {
@@ -1838,7 +1844,7 @@ void lrec_set_item_in_snapshot_elem(SnapshotElemLog *log, hash_item *it)
 {
     assert(it != NULL);
     if (log->header.logtype == LOG_SNAPSHOT_ELEM) {
-        log->it = it;
+        snapshot_coll_item = it;
     }
 }
 
diff --git a/engines/default/cmdlogrec.h b/engines/default/cmdlogrec.h
index f5da1a8..75f5642 100644
--- a/engines/default/cmdlogrec.h
+++ b/engines/default/cmdlogrec.h
@@ -207,7 +207,6 @@ typedef struct _snapshot_elem_log {
     LogHdr           header;
     SnapshotElemData body;
     char             *valptr;
-    hash_item        *it;
 } SnapshotElemLog;
 
 /* List Elem Insert Log Record */
-- 
2.43.0


From fe40f287b866c364da50f45abc08d8934ab33384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:10 +0000
Subject: [PATCH 66/67] fix: find the b+tree item with maxbkeyrange of snapshot
 element records at recovery

---
 engines/default/cmdlogrec.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/engines/default/cmdlogrec.c b/engines/default/cmdlogrec.c
index b3854f6..a5ef931 100644
--- a/engines/default/cmdlogrec.c
+++ b/engines/default/cmdlogrec.c
@@ -1836,7 +1836,13 @@ hash_item *lrec_get_item_if_collection_link(ITLinkLog *log)
         log->header.updtype == UPD_STORE) {
         return NULL;
     }
-    hash_item *it = item_get(&log->body.data, log->body.cm.keylen);
+    char *keyptr = log->body.data;
+    if (log->body.cm.ittype == ITEM_TYPE_BTREE &&
+        log->body.ptr.meta.maxbkrlen != BKEY_NULL) {
+        /* maxbkeyrange comes before the key. */
+        keyptr += BTREE_REAL_NBKEY(log->body.ptr.meta.maxbkrlen);
+    }
+    hash_item *it = item_get(keyptr, log->body.cm.keylen);
     return it;
 }
 
-- 
2.43.0


From 0b52cf18c09afd81ab8d39a84fcd4e093278c1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:57 +0000
Subject: [PATCH 67/67] fix: wait for the whole log record to reach the disk
 before answering

---
 engines/default/cmdlogbuf.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/engines/default/cmdlogbuf.c b/engines/default/cmdlogbuf.c
index 800c1e2..a7b3089 100644
--- a/engines/default/cmdlogbuf.c
+++ b/engines/default/cmdlogbuf.c
@@ -241,6 +241,8 @@ static LogSN do_log_buff_write(LogRec *logrec, bool dual_write)
 
     /* update nxt_write_lsn */
     current_lsn = log_buff_gl.nxt_write_lsn;
+    /* the last byte of the log record: the record may be flushed in parts */
+    current_lsn.roffset += (total_length - 1);
     log_buff_gl.nxt_write_lsn.roffset += total_length;
 
     /* update log flush request */
-- 
2.43.0


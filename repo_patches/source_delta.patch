From 14404941aca3ac6be7df68c57fa71e9eefe47db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:50 +0000
Subject: [PATCH 01/46] fix: str: let insert append at the end of the string

---
 src/vita/container/str.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vita/container/str.c b/src/vita/container/str.c
index b7b66a7..f8c4095 100644
--- a/src/vita/container/str.c
+++ b/src/vita/container/str.c
@@ -367,7 +367,7 @@ void vt_str_insert(vt_str_t *const s, const char *z, const size_t at) {
     VT_DEBUG_ASSERT(s->ptr != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_IS_NULL));
     VT_DEBUG_ASSERT(z != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
     VT_DEBUG_ASSERT(
-        at < s->len,
+        at <= s->len,
         "%s: Inserts at %zu, but vt_str_t length is %zu!\n", 
         vt_status_to_str(VT_STATUS_ERROR_OUT_OF_BOUNDS_ACCESS), 
         at, 
-- 
2.43.0


From 06490b0184ffc7eb5aae0d1abc8a11f81b7d5cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:54 +0000
Subject: [PATCH 02/46] fix: str: remove_last crashed when nothing matched and
 removed the wrong place

---
 src/vita/container/str.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vita/container/str.c b/src/vita/container/str.c
index f8c4095..5622d69 100644
--- a/src/vita/container/str.c
+++ b/src/vita/container/str.c
@@ -571,9 +571,9 @@ enum VitaStatus vt_str_remove_last(vt_str_t *s, const char *const z) {
 
     // find the last instance of sep
     const size_t zLen = strlen(z);
-    char *p = strstr(s->ptr, z);
+    char *p = zLen ? strstr(s->ptr, z) : NULL;
     char *lastInstance = p;
-    while ((p = strstr(p + zLen, z)) != NULL) {
+    while (p != NULL && (p = strstr(p + zLen, z)) != NULL) {
         lastInstance = p;
     }
 
@@ -583,7 +583,7 @@ enum VitaStatus vt_str_remove_last(vt_str_t *s, const char *const z) {
     }
 
     // find the position of last substring instance
-    const ptrdiff_t last_instance_pos = (((char*)(s->ptr) + s->len * s->elsize) - lastInstance);
+    const ptrdiff_t last_instance_pos = lastInstance - (char*)(s->ptr);
 
     // remove the last instance
     vt_str_remove(s, last_instance_pos, zLen);
-- 
2.43.0


From cd67bf5dfe78d2c743602265f3329e29f24839af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:58 +0000
Subject: [PATCH 03/46] fix: str: replace_last crashed when the substring was
 absent

---
 src/vita/container/str.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vita/container/str.c b/src/vita/container/str.c
index 5622d69..0d04831 100644
--- a/src/vita/container/str.c
+++ b/src/vita/container/str.c
@@ -719,7 +719,7 @@ void vt_str_replace_last(vt_str_t *const s, const char *const sub, const char *c
     // find the last instance of sep
     const char *ptr = strstr(s->ptr, sub);
     const char *lastInstance = ptr;
-    while ((ptr = strstr(ptr + subLen, sub))) {
+    while (ptr && (ptr = strstr(ptr + subLen, sub))) {
         lastInstance = ptr;
     }
 
-- 
2.43.0


From e83865ea7adb475f5cae3d773fbf7712312ad3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:02 +0000
Subject: [PATCH 04/46] fix: str: strip functions ran out of bounds on fully
 strippable strings

---
 src/vita/container/str.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/vita/container/str.c b/src/vita/container/str.c
index 0d04831..ae05c75 100644
--- a/src/vita/container/str.c
+++ b/src/vita/container/str.c
@@ -771,6 +771,9 @@ void vt_str_strip(vt_str_t *const s) {
     VT_DEBUG_ASSERT(s != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
     VT_DEBUG_ASSERT(s->ptr != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_IS_NULL));
 
+    // nothing to strip
+    if (!s->len) return;
+
     // prepare
     size_t offset = 0;
     size_t *len = &s->len;
@@ -778,7 +781,7 @@ void vt_str_strip(vt_str_t *const s) {
     const char *curr = p + offset;
 
     // strip leading whitespace and control symbols
-    while (isspace(*curr)) {
+    while (offset < *len && isspace((unsigned char)*curr)) {
         offset++;
         curr = p + offset;
     }
@@ -788,7 +791,7 @@ void vt_str_strip(vt_str_t *const s) {
 
     // strip tailing whitespace and control symbols
     curr = p + (*len + offset - 1);
-    while (isspace(*curr)) {
+    while (*len > 0 && isspace((unsigned char)*curr)) {
         (*len)--;
         curr = p + (*len + offset - 1);
     }
@@ -805,6 +808,9 @@ void vt_str_strip_punct(vt_str_t *const s) {
     VT_DEBUG_ASSERT(s != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
     VT_DEBUG_ASSERT(s->ptr != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_IS_NULL));
 
+    // nothing to strip
+    if (!s->len) return;
+
     // prepare
     size_t offset = 0;
     size_t *len = &s->len;
@@ -812,7 +818,7 @@ void vt_str_strip_punct(vt_str_t *const s) {
     const char *curr = p + offset;
 
     // strip leading whitespace and control symbols
-    while (isspace(*curr) || ispunct(*curr)) {
+    while (offset < *len && (isspace((unsigned char)*curr) || ispunct((unsigned char)*curr))) {
         offset++;
         curr = p + offset;
     }
@@ -822,7 +828,7 @@ void vt_str_strip_punct(vt_str_t *const s) {
 
     // strip tailing whitespace and control symbols
     curr = p + (*len + offset - 1);
-    while (isspace(*curr) || ispunct(*curr)) {
+    while (*len > 0 && (isspace((unsigned char)*curr) || ispunct((unsigned char)*curr))) {
         (*len)--;
         curr = p + (*len + offset - 1);
     }
@@ -840,6 +846,9 @@ void vt_str_strip_c(vt_str_t *const s, const char *const c) {
     VT_DEBUG_ASSERT(s->ptr != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_IS_NULL));
     VT_DEBUG_ASSERT(c != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
 
+    // nothing to strip
+    if (!s->len) return;
+
     // prepare
     bool stop = false;
     size_t offset = 0;
@@ -849,7 +858,7 @@ void vt_str_strip_c(vt_str_t *const s, const char *const c) {
     const char *curr = p + offset;
 
     // strip leading whitespace and control symbols
-    while (!stop) {
+    while (!stop && cLen > 0 && offset < *len) {
         for (size_t i = 0; i < cLen; i++) {
             if (*curr == c[i]) {
                 offset++;
@@ -871,7 +880,7 @@ void vt_str_strip_c(vt_str_t *const s, const char *const c) {
     // strip tailing whitespace and control symbols
     stop = false;
     curr = p + (*len + offset - 1);
-    while (!stop) {
+    while (!stop && cLen > 0 && *len > 0) {
         for (size_t i = 0; i < cLen; i++) {
             if (*curr == c[i]) {
                 (*len)--;
-- 
2.43.0


From 6dbd8da59da91232a89411276a14eeb170073708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:33 +0000
Subject: [PATCH 05/46] fix: str: split ran past the end of the string on
 trailing separators

---
 src/vita/container/str.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vita/container/str.c b/src/vita/container/str.c
index ae05c75..27af7a1 100644
--- a/src/vita/container/str.c
+++ b/src/vita/container/str.c
@@ -974,6 +974,7 @@ vt_plist_t *vt_str_split(vt_plist_t *ps, const vt_str_t *const s, const char *co
         // count copy length
         const size_t copyLen = strlen(head) - (current == NULL ? 0 : strlen(current));
         if (copyLen == 0) { // if head == current, move head by sepLen (if sep is in the begining)
+            if (current == NULL) break;
             head += sepLen;
             continue;
         } else {
-- 
2.43.0


From 70f9400e4ded32b5c1dbf8a181a8f6f6a4239e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:37 +0000
Subject: [PATCH 06/46] fix: str: split_between looked for the right delimiter
 before the left one

---
 src/vita/container/str.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/vita/container/str.c b/src/vita/container/str.c
index 27af7a1..91aaacc 100644
--- a/src/vita/container/str.c
+++ b/src/vita/container/str.c
@@ -1011,7 +1011,7 @@ vt_str_t *vt_str_split_between(vt_str_t *const s, const char *const z, const cha
     }
 
     // find r - right substring
-    const char *const rsub = strstr(z, zr);
+    const char *const rsub = strstr(lsub + strlen(zl), zr);
     if (rsub == NULL) {
         return NULL;
     }
@@ -1022,9 +1022,10 @@ vt_str_t *vt_str_split_between(vt_str_t *const s, const char *const z, const cha
         : s;
     vt_str_clear(st);
 
-    // check if lsub < rsub
-    if (lsub < rsub) {
+    // check if lsub <= rsub
+    if (lsub <= rsub) {
         ptrdiff_t sub_len = rsub - lsub - strlen(zl);
+        if (sub_len == 0) return st;
         vt_str_resize(st, sub_len);
 
         // append sub
-- 
2.43.0


From 3f8833762b47567fae75174d6d1b4df8a0553d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:41 +0000
Subject: [PATCH 07/46] fix: str: remove_all and can_find never returned for an
 empty needle

---
 src/vita/container/str.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vita/container/str.c b/src/vita/container/str.c
index 91aaacc..d13fb03 100644
--- a/src/vita/container/str.c
+++ b/src/vita/container/str.c
@@ -598,6 +598,7 @@ enum VitaStatus vt_str_remove_all(vt_str_t *const s, const char *z) {
     VT_DEBUG_ASSERT(z != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
 
     // remove all instances of substring
+    if (!*z) return VT_STATUS_OPERATION_SUCCESS;
     while (vt_str_remove_first(s, z) == VT_STATUS_OPERATION_SUCCESS);
 
     return VT_STATUS_OPERATION_SUCCESS;
@@ -925,7 +926,7 @@ size_t vt_str_can_find(const vt_str_t *const s, const char *sub) {
 
     size_t count = 0;
     const char *p = vt_str_z(s);
-    while ((p = strstr(p, sub)) != NULL) {
+    while (subLen && (p = strstr(p, sub)) != NULL) {
         count++;
         p += subLen;
     }
-- 
2.43.0


From ae65f9a09a9ec31c53469ad8ff645f2dc53dd259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:44 +0000
Subject: [PATCH 08/46] fix: containers: a view has no space left instead of an
 underflowed amount

---
 src/vita/container/common.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vita/container/common.c b/src/vita/container/common.c
index ea50633..b29dd9a 100644
--- a/src/vita/container/common.c
+++ b/src/vita/container/common.c
@@ -54,7 +54,7 @@ size_t vt_array_has_space(const struct VitaBaseArrayType *const vbat) {
     VT_DEBUG_ASSERT(vbat != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
     VT_DEBUG_ASSERT(vbat->ptr != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_IS_NULL));
 
-    return (vbat->capacity - vbat->len);
+    return (vbat->capacity > vbat->len) ? (vbat->capacity - vbat->len) : 0;
 }
 
 size_t vt_array_elsize(const struct VitaBaseArrayType *const vbat) {
-- 
2.43.0


From 7b0676af56b38f212620f91dbb5e864084612d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:48 +0000
Subject: [PATCH 09/46] fix: str: allow creating, setting and appending empty
 strings

---
 src/vita/container/str.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/vita/container/str.c b/src/vita/container/str.c
index d13fb03..8c2158d 100644
--- a/src/vita/container/str.c
+++ b/src/vita/container/str.c
@@ -33,9 +33,6 @@ vt_str_t *vt_str_create(const char *const z, struct VitaBaseAllocatorType *const
 }
 
 vt_str_t *vt_str_create_len(const size_t n, struct VitaBaseAllocatorType *const alloctr) {
-    // check for invalid input
-    VT_DEBUG_ASSERT(n > 0, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
-
     // allocate memory for a vt_str_t struct
     vt_str_t *s = vt_array_new(alloctr);
     *s = (vt_str_t) {
@@ -291,7 +288,6 @@ void vt_str_set_n(vt_str_t *const s, const char *z, const size_t n) {
     VT_DEBUG_ASSERT(s != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
     VT_DEBUG_ASSERT(s->ptr != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_IS_NULL));
     VT_DEBUG_ASSERT(z != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
-    VT_DEBUG_ASSERT(n > 0, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
 
     // ensure that z fits into vt_str_t
     VT_ENFORCE(
@@ -344,7 +340,9 @@ void vt_str_append_n(vt_str_t *const s, const char *z, const size_t n) {
     VT_DEBUG_ASSERT(s != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
     VT_DEBUG_ASSERT(s->ptr != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_IS_NULL));
     VT_DEBUG_ASSERT(z != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
-    VT_DEBUG_ASSERT(n > 0, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
+
+    // nothing to append
+    if (n == 0) return;
 
     // check if new memory needs to be allocated
     if (vt_str_has_space(s) < n) {
-- 
2.43.0


From 5fe2ab5f2b3dace7b321e8e52df7a7a89ed265ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:24 +0000
Subject: [PATCH 10/46] fix: containers: backward slider returned the wrong
 elements

---
 src/vita/container/common.c | 2 +-
 src/vita/container/plist.c  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vita/container/common.c b/src/vita/container/common.c
index b29dd9a..664619d 100644
--- a/src/vita/container/common.c
+++ b/src/vita/container/common.c
@@ -129,7 +129,7 @@ void *vt_array_slide_back(struct VitaBaseArrayType *const vbat) {
     // check bounds
     if (vbat->slider_idx < vbat->len) {
         vbat->slider_idx++;
-        return (char*)vbat->ptr + (vbat->len - vbat->slider_idx - 2) * vbat->elsize;
+        return (char*)vbat->ptr + (vbat->len - vbat->slider_idx) * vbat->elsize;
     }
 
     // reset the slider
diff --git a/src/vita/container/plist.c b/src/vita/container/plist.c
index dfcbba5..dd99da8 100644
--- a/src/vita/container/plist.c
+++ b/src/vita/container/plist.c
@@ -318,7 +318,7 @@ void *vt_plist_slide_back(vt_plist_t *const p) {
     // check bounds
     if (p->slider_idx < p->len) {
         p->slider_idx++;
-        return p->ptr2[p->len - p->slider_idx - 2];
+        return p->ptr2[p->len - p->slider_idx];
     }
 
     // reset the slider
-- 
2.43.0


From ef73165eab7f719fde6c26678383722dbd5eac51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:27 +0000
Subject: [PATCH 11/46] fix: span: allow a range starting at 0, reject a
 reversed one

---
 src/vita/container/span.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vita/container/span.c b/src/vita/container/span.c
index c2a7892..42f4bff 100644
--- a/src/vita/container/span.c
+++ b/src/vita/container/span.c
@@ -16,7 +16,7 @@ vt_span_t vt_span_from(void *ptr, const size_t length, const size_t elsize) {
 vt_span_t vt_span_from_to(void *ptr, const size_t from_idx, const size_t to_idx, const size_t elsize) {
     // check for invalid input
     VT_DEBUG_ASSERT(ptr != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
-    VT_DEBUG_ASSERT(from_idx > 0, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
+    VT_DEBUG_ASSERT(from_idx <= to_idx, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
     VT_DEBUG_ASSERT(to_idx > 0, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
     VT_DEBUG_ASSERT(elsize > 0, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
 
-- 
2.43.0


From 647f72557d25a7e2ed8f7f8a33e122683f89ae7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:56 +0000
Subject: [PATCH 12/46] fix: str: split computed an offset from a null pointer
 after the last piece

---
 src/vita/container/str.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vita/container/str.c b/src/vita/container/str.c
index 8c2158d..b62ae2a 100644
--- a/src/vita/container/str.c
+++ b/src/vita/container/str.c
@@ -985,7 +985,7 @@ vt_plist_t *vt_str_split(vt_plist_t *ps, const vt_str_t *const s, const char *co
             vt_plist_push_back(p, tempStr);
             
             // update head
-            head = current + sepLen;
+            if (current != NULL) head = current + sepLen;
         }
 
         // break from loop when no more sep is found or we are at the end of string
-- 
2.43.0


From bb4de0e36fce04437568b4bf4c15373c5f9c44d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:48 +0000
Subject: [PATCH 13/46] fix: str: insert_n accepted positions past the end of
 the string

---
 src/vita/container/str.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/vita/container/str.c b/src/vita/container/str.c
index b62ae2a..3fc2d76 100644
--- a/src/vita/container/str.c
+++ b/src/vita/container/str.c
@@ -450,6 +450,13 @@ void vt_str_insert_n(vt_str_t *const s, const char *z, const size_t at, const si
     VT_DEBUG_ASSERT(s->ptr != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_IS_NULL));
     VT_DEBUG_ASSERT(z != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
     VT_DEBUG_ASSERT(n > 0, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
+    VT_DEBUG_ASSERT(
+        at <= s->len,
+        "%s: Inserts at %zu, but vt_str_t length is %zu!\n", 
+        vt_status_to_str(VT_STATUS_ERROR_OUT_OF_BOUNDS_ACCESS), 
+        at, 
+        s->len
+    );
 
     // check if new memory needs to be allocated
     const size_t hasSpace = vt_str_has_space(s);
-- 
2.43.0


From 6be1c19f8d0278313d1104e99b6dc7e719d4642d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:09 +0000
Subject: [PATCH 14/46] fix: containers: byte counts of huge requests wrapped
 around

---
 src/vita/container/plist.c | 6 ++++++
 src/vita/container/str.c   | 7 +++++++
 src/vita/container/vec.c   | 6 ++++++
 3 files changed, 19 insertions(+)

diff --git a/src/vita/container/plist.c b/src/vita/container/plist.c
index dd99da8..e09c8b8 100644
--- a/src/vita/container/plist.c
+++ b/src/vita/container/plist.c
@@ -4,6 +4,8 @@ vt_plist_t *vt_plist_create(const size_t n, struct VitaBaseAllocatorType *const
     // check for invalid input
     VT_DEBUG_ASSERT(n > 0, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
 
+    VT_ENFORCE(n <= SIZE_MAX / sizeof(void*), "%s\n", vt_status_to_str(VT_STATUS_ERROR_OUT_OF_MEMORY));
+
     // allocate a new vt_plist_t instance
     vt_plist_t *p = vt_array_new(alloctr);
     *p = (vt_plist_t) {
@@ -73,6 +75,8 @@ void vt_plist_reserve(vt_plist_t *const p, const size_t n) {
     VT_DEBUG_ASSERT(p->ptr2 != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_IS_NULL));
     VT_DEBUG_ASSERT(n > 0, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
 
+    VT_ENFORCE(n <= SIZE_MAX / p->elsize - p->capacity, "%s\n", vt_status_to_str(VT_STATUS_ERROR_OUT_OF_MEMORY));
+
     // reserve memory for additional n elements
     p->ptr2 = p->alloctr 
         ? VT_ALLOCATOR_REALLOC(p->alloctr, p->ptr2, (p->capacity + n) * p->elsize) 
@@ -108,6 +112,8 @@ void vt_plist_resize(vt_plist_t *const p, const size_t n) {
     VT_DEBUG_ASSERT(p->ptr != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_IS_NULL));
     VT_DEBUG_ASSERT(n > 0, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
 
+    VT_ENFORCE(n <= SIZE_MAX / p->elsize, "%s\n", vt_status_to_str(VT_STATUS_ERROR_OUT_OF_MEMORY));
+
     if (n == p->capacity) {
         p->len = p->capacity;
         return;
diff --git a/src/vita/container/str.c b/src/vita/container/str.c
index 3fc2d76..c099b7f 100644
--- a/src/vita/container/str.c
+++ b/src/vita/container/str.c
@@ -33,6 +33,9 @@ vt_str_t *vt_str_create(const char *const z, struct VitaBaseAllocatorType *const
 }
 
 vt_str_t *vt_str_create_len(const size_t n, struct VitaBaseAllocatorType *const alloctr) {
+    // check for invalid input
+    VT_ENFORCE(n < SIZE_MAX, "%s\n", vt_status_to_str(VT_STATUS_ERROR_OUT_OF_MEMORY));
+
     // allocate memory for a vt_str_t struct
     vt_str_t *s = vt_array_new(alloctr);
     *s = (vt_str_t) {
@@ -192,6 +195,8 @@ void vt_str_reserve(vt_str_t *const s, const size_t n) {
     VT_DEBUG_ASSERT(n > 0, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
     VT_ENFORCE(!s->is_view, "%s: Cannot modify a viewable-only object!\n", vt_status_to_str(VT_STATUS_ERROR_IS_VIEW));
 
+    VT_ENFORCE(n < SIZE_MAX - s->capacity, "%s\n", vt_status_to_str(VT_STATUS_ERROR_OUT_OF_MEMORY));
+
     // reserve memory for additional n elements
     s->ptr = s->alloctr 
         ? VT_ALLOCATOR_REALLOC(s->alloctr, s->ptr, (s->capacity + n + 1) * s->elsize) 
@@ -211,6 +216,8 @@ void vt_str_resize(vt_str_t *const s, const size_t n) {
     VT_DEBUG_ASSERT(n > 0, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
     VT_ENFORCE(!s->is_view, "%s: Cannot modify a viewable-only object!\n", vt_status_to_str(VT_STATUS_ERROR_IS_VIEW));
 
+    VT_ENFORCE(n < SIZE_MAX, "%s\n", vt_status_to_str(VT_STATUS_ERROR_OUT_OF_MEMORY));
+
     // resize memory to (n + 1) elements
     s->ptr = s->alloctr 
         ? VT_ALLOCATOR_REALLOC(s->alloctr, s->ptr, (n + 1) * s->elsize) 
diff --git a/src/vita/container/vec.c b/src/vita/container/vec.c
index feff9a0..eedf780 100644
--- a/src/vita/container/vec.c
+++ b/src/vita/container/vec.c
@@ -5,6 +5,8 @@ vt_vec_t *vt_vec_create(const size_t n, const size_t elsize, struct VitaBaseAllo
     VT_DEBUG_ASSERT(n > 0, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
     VT_DEBUG_ASSERT(elsize > 0, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
 
+    VT_ENFORCE(elsize == 0 || n <= SIZE_MAX / elsize, "%s\n", vt_status_to_str(VT_STATUS_ERROR_OUT_OF_MEMORY));
+
     // allocate a new vt_vec_t instance
     vt_vec_t *v = vt_array_new(alloctr);
     *v = (vt_vec_t) {
@@ -102,6 +104,8 @@ void vt_vec_reserve(vt_vec_t *const v, const size_t n) {
     VT_DEBUG_ASSERT(v->ptr != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_IS_NULL));
     VT_DEBUG_ASSERT(n > 0, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
 
+    VT_ENFORCE(n <= SIZE_MAX / v->elsize - v->capacity, "%s\n", vt_status_to_str(VT_STATUS_ERROR_OUT_OF_MEMORY));
+
     // reserve memory for additional n elements
     v->ptr = v->alloctr 
         ? VT_ALLOCATOR_REALLOC(v->alloctr, v->ptr, (v->capacity + n) * v->elsize) 
@@ -117,6 +121,8 @@ void vt_vec_resize(vt_vec_t *const v, const size_t n) {
     VT_DEBUG_ASSERT(v->ptr != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_IS_NULL));
     VT_DEBUG_ASSERT(n > 0, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
 
+    VT_ENFORCE(n <= SIZE_MAX / v->elsize, "%s\n", vt_status_to_str(VT_STATUS_ERROR_OUT_OF_MEMORY));
+
     if (n == v->capacity) {
         v->len = v->capacity;
         return;
-- 
2.43.0


From 3ba00e8b02b61d15aeddf6ccb73c940d8e07aac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:48 +0000
Subject: [PATCH 15/46] fix: path: get_cwd handed memory to the allocator that
 it does not own

---
 src/vita/system/path.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/vita/system/path.c b/src/vita/system/path.c
index ad4ff4f..2c88814 100644
--- a/src/vita/system/path.c
+++ b/src/vita/system/path.c
@@ -25,7 +25,17 @@ vt_str_t *vt_path_build_n(vt_str_t *const s, const size_t n, ...) {
 }
 
 vt_str_t *vt_path_get_cwd(struct VitaBaseAllocatorType *alloctr) {
-    return vt_str_take_ownership(getcwd(NULL, 0), alloctr);
+    char *cwd = getcwd(NULL, 0);
+    if (cwd == NULL) {
+        VT_DEBUG_PRINTF("%s\n", vt_status_to_str(VT_STATUS_OPERATION_FAILURE));
+        return NULL;
+    }
+
+    // getcwd allocates with malloc, copy it to memory that belongs to alloctr
+    vt_str_t *s = vt_str_create(cwd, alloctr);
+    free(cwd);
+
+    return s;
 }
 
 bool vt_path_exists(const char *const z) {
-- 
2.43.0


From 7baf7ef0f84b252f75deeeaa12ae9bdd1aff0187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:51 +0000
Subject: [PATCH 16/46] fix: path: dir_free leaked entries of a list that was
 being iterated

---
 src/vita/system/path.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vita/system/path.c b/src/vita/system/path.c
index 2c88814..efcacae 100644
--- a/src/vita/system/path.c
+++ b/src/vita/system/path.c
@@ -219,6 +219,7 @@ void vt_path_dir_free(vt_plist_t *p) {
     // check if list is not empty
     if (vt_plist_len(p)) {
         vt_str_t *item = NULL;
+        vt_plist_slide_reset(p);
         while((item = vt_plist_slide_front(p)) != NULL) {
             vt_str_destroy(item);
         }
-- 
2.43.0


From 9a4b20ee0d55d08583498af9218a852a21987a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:55 +0000
Subject: [PATCH 17/46] fix: path: pop accessed memory before an empty path

---
 src/vita/system/path.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vita/system/path.c b/src/vita/system/path.c
index efcacae..c241368 100644
--- a/src/vita/system/path.c
+++ b/src/vita/system/path.c
@@ -546,6 +546,9 @@ void vt_path_pop(char *const z) {
     
     // check if path ends with path separator
     size_t len = vt_str_len(&s);
+    if (len == 0) {
+        return;
+    }
     if (z[len-1] == VT_PATH_SEPARATOR[0]) {
         z[len-1] = '\0';
         return;
-- 
2.43.0


From 238ed822745683506084c68d02181cb20a26770d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:59 +0000
Subject: [PATCH 18/46] fix: path: basename of paths with a single component
 was garbage or missing

---
 src/vita/system/path.c | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/vita/system/path.c b/src/vita/system/path.c
index c241368..abd16b2 100644
--- a/src/vita/system/path.c
+++ b/src/vita/system/path.c
@@ -233,23 +233,17 @@ vt_str_t *vt_path_basename(vt_str_t *const s, const char *const z) {
     // check for invalid input
     VT_DEBUG_ASSERT(z != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
 
-    // check if path separator is present
-    vt_str_t sz = vt_str_create_static(z);
-    if (!vt_str_can_find(&sz, VT_PATH_SEPARATOR)) {
-        return s;
-    }
-
     // create a new vt_str_t instance
     vt_str_t *st = (s == NULL)
         ? vt_str_create_len(strlen(z), NULL) 
         : s;
 
     // find the basename
-    const char *ptr = NULL;
+    const char *ptr = z;
     const size_t zLen = strlen(z);
-    for (size_t i = zLen - 1; i > 0; i--) {
-        if (z[i] == VT_PATH_SEPARATOR[0] && i != zLen - 1) {
-            ptr = &z[i+1];
+    for (size_t i = zLen; i > 0; i--) {
+        if (z[i-1] == VT_PATH_SEPARATOR[0] && i != zLen) {
+            ptr = &z[i];
             break;
         }
     }
@@ -261,7 +255,7 @@ vt_str_t *vt_path_basename(vt_str_t *const s, const char *const z) {
     }
 
     // save the basename
-    if (ptr) {
+    if (ptr != vt_str_z(st)) {
         vt_str_clear(st);
         vt_str_append(st, ptr);
     }
-- 
2.43.0


From fe601827c7a871c40e15be45e4c4937bf472d3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:02 +0000
Subject: [PATCH 19/46] fix: path: mkdir functions reported success when no
 directory was made

---
 src/vita/system/path.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/vita/system/path.c b/src/vita/system/path.c
index abd16b2..7ae36e1 100644
--- a/src/vita/system/path.c
+++ b/src/vita/system/path.c
@@ -268,7 +268,7 @@ bool vt_path_mkdir(const char *const z) {
     VT_DEBUG_ASSERT(z != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
 
     // if directory exists, don't do anything
-    if (vt_path_exists(z)) {
+    if (vt_path_is_dir(z)) {
         return true;
     }
 
@@ -292,7 +292,7 @@ bool vt_path_mkdir_parents(const char *const z) {
     VT_DEBUG_ASSERT(z != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
 
     // if directory exists, don't do anything
-    if (vt_path_exists(z)) {
+    if (vt_path_is_dir(z)) {
         return true;
     }
 
@@ -328,9 +328,8 @@ bool vt_path_mkdir_parents(const char *const z) {
     // split string into directories
     dir_list = vt_str_split(NULL, s, VT_PATH_SEPARATOR);
     if (dir_list == NULL) {
-        VT_DEBUG_PRINTF("%s\n", vt_status_to_str(VT_STATUS_OPERATION_FAILURE));
-
-        status = false;
+        // there are no parent directories
+        status = vt_path_mkdir(z);
         goto vt_label_path_mkdir_parents__;
     }
 
@@ -345,7 +344,11 @@ bool vt_path_mkdir_parents(const char *const z) {
         vt_str_append(sfull, VT_PATH_SEPARATOR);
         
         // make that directory
-        vt_path_mkdir(vt_str_z(sfull));
+        status = vt_path_mkdir(vt_str_z(sfull));
+        if (!status) {
+            VT_DEBUG_PRINTF("%s\n", vt_status_to_str(VT_STATUS_OPERATION_FAILURE));
+            break;
+        }
     }
 
 vt_label_path_mkdir_parents__:
-- 
2.43.0


From 5c0e2e3879413e9fced0fb7239792ca7381d622a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:28 +0000
Subject: [PATCH 20/46] fix: path: recursive listing and removal followed
 symbolic links out of the tree

---
 src/vita/system/path.c | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/vita/system/path.c b/src/vita/system/path.c
index 7ae36e1..711038e 100644
--- a/src/vita/system/path.c
+++ b/src/vita/system/path.c
@@ -1,5 +1,7 @@
 #include "vita/system/path.h"
 
+static bool vt_path_is_symlink(const char *const z);
+
 vt_str_t *vt_path_build(vt_str_t *const s, const vt_plist_t *const p) {
     return vt_str_join(s, VT_PATH_SEPARATOR, p);
 }
@@ -187,8 +189,8 @@ vt_plist_t *vt_path_dir_list_recurse(vt_plist_t *const p, const char *const z, c
         vt_str_append(st, VT_PATH_SEPARATOR);
         vt_str_append(st, dirtree->d_name);
 
-        // check if current path is a directory; if false, then break
-        if (vt_path_is_dir(vt_str_z(st)) && vt_path_dir_list_recurse(pl, vt_str_z(st), ignoreDotFiles) == NULL) {
+        // check if current path is a directory (links to directories are not followed); if false, then break
+        if (vt_path_is_dir(vt_str_z(st)) && !vt_path_is_symlink(vt_str_z(st)) && vt_path_dir_list_recurse(pl, vt_str_z(st), ignoreDotFiles) == NULL) {
             break;
         }
 
@@ -400,6 +402,11 @@ bool vt_path_rmdir_recurse(const char *const z) {
         return false;
     }
 
+    // a link is removed itself, what it points to is left alone
+    if (vt_path_is_symlink(z)) {
+        return vt_path_remove(z);
+    }
+
     // return value
     bool status = true;
 
@@ -417,7 +424,7 @@ bool vt_path_rmdir_recurse(const char *const z) {
     vt_str_t *path = NULL;
     while ((path = vt_plist_slide_front(dir_list)) != NULL) {
         // remove file/directory
-        status = vt_path_is_dir(vt_str_z(path)) ? vt_path_rmdir(vt_str_z(path)) : vt_path_remove(vt_str_z(path));
+        status = vt_path_is_dir(vt_str_z(path)) && !vt_path_is_symlink(vt_str_z(path)) ? vt_path_rmdir(vt_str_z(path)) : vt_path_remove(vt_str_z(path));
 
         // check status
         if (!status) {
@@ -446,8 +453,8 @@ bool vt_path_remove(const char *const z) {
     // check for invalid input
     VT_DEBUG_ASSERT(z != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
 
-    // check if path exists
-    if (!vt_path_exists(z)) {
+    // check if path exists (a broken link exists, too)
+    if (!vt_path_exists(z) && !vt_path_is_symlink(z)) {
         VT_DEBUG_PRINTF("%s: Path does not exist <%s>\n", vt_status_to_str(VT_STATUS_OPERATION_FAILURE), z);
         return false;
     }
@@ -590,5 +597,15 @@ void vt_path_validate(char *const z) {
     }
 }
 
+// -------------------------- PRIVATE -------------------------- //
 
+static bool vt_path_is_symlink(const char *const z) {
+    #if defined(_WIN32) || defined(_WIN64)
+        (void)z;
+        return false;
+    #else
+        struct stat info;
+        return (lstat(z, &info) == 0 && S_ISLNK(info.st_mode));
+    #endif
+}
 
-- 
2.43.0


From b39f9ed19a5322e3c835f3bdb43f727f77f01b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:31 +0000
Subject: [PATCH 21/46] fix: path: rmdir_recurse reported success when the
 directory could not be removed

---
 src/vita/system/path.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vita/system/path.c b/src/vita/system/path.c
index 711038e..118893d 100644
--- a/src/vita/system/path.c
+++ b/src/vita/system/path.c
@@ -431,7 +431,7 @@ bool vt_path_rmdir_recurse(const char *const z) {
             goto vt_path_rmdir_recurse_cleanup__;
         }  
     }
-    vt_path_rmdir(z); // remove the folder when done with its contents
+    status = vt_path_rmdir(z); // remove the folder when done with its contents
 
 vt_path_rmdir_recurse_cleanup__:
     // free all strings in dir_list
-- 
2.43.0


From c31383ab6e84220c921bac2f884ba0f8a268d04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:35 +0000
Subject: [PATCH 22/46] fix: path: recursive listing lost entries after an
 unreadable directory

---
 src/vita/system/path.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vita/system/path.c b/src/vita/system/path.c
index 118893d..20420c5 100644
--- a/src/vita/system/path.c
+++ b/src/vita/system/path.c
@@ -189,9 +189,9 @@ vt_plist_t *vt_path_dir_list_recurse(vt_plist_t *const p, const char *const z, c
         vt_str_append(st, VT_PATH_SEPARATOR);
         vt_str_append(st, dirtree->d_name);
 
-        // check if current path is a directory (links to directories are not followed); if false, then break
+        // list the sub-directory (links to directories are not followed); go on if it cannot be read
         if (vt_path_is_dir(vt_str_z(st)) && !vt_path_is_symlink(vt_str_z(st)) && vt_path_dir_list_recurse(pl, vt_str_z(st), ignoreDotFiles) == NULL) {
-            break;
+            VT_DEBUG_PRINTF("%s: Failed read the directory <%s>!\n", vt_status_to_str(VT_STATUS_OPERATION_FAILURE), vt_str_z(st));
         }
 
         // save directory name
-- 
2.43.0


From 9d84ef3586fd906ec2d156c7d556be973154f7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:28 +0000
Subject: [PATCH 23/46] fix: path: executable location was not terminated after
 its text

---
 src/vita/system/path.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vita/system/path.c b/src/vita/system/path.c
index 20420c5..2703df0 100644
--- a/src/vita/system/path.c
+++ b/src/vita/system/path.c
@@ -537,6 +537,7 @@ vt_str_t *vt_path_get_this_exe_location(struct VitaBaseAllocatorType *alloctr) {
         return NULL;
     }
     spath->len = pathLen;
+    ((char*)spath->ptr)[spath->len] = '\0';
 
     return spath;
 }
-- 
2.43.0


From ddd93a7971b1740c1f241c8a8357848445185ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:02 +0000
Subject: [PATCH 24/46] fix: fileio: writing functions reported success when
 the data was not written

---
 src/vita/system/fileio.c | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/vita/system/fileio.c b/src/vita/system/fileio.c
index de6d17f..6614fa1 100644
--- a/src/vita/system/fileio.c
+++ b/src/vita/system/fileio.c
@@ -210,13 +210,13 @@ bool vt_file_writef(const char *const filename, const char *const fmt, ...) {
     // write to file
     va_list args;
     va_start(args, fmt);
-    vfprintf(fp, fmt, args);
+    bool status = vfprintf(fp, fmt, args) >= 0;
     va_end(args);
     
-    // close file
-    fclose(fp); 
+    // close file (this writes what is still buffered)
+    status = fclose(fp) == 0 && status;
 
-    return true;
+    return status;
 }
 
 bool vt_file_writefln(const char *const filename, const char *const fmt, ...) {
@@ -234,16 +234,16 @@ bool vt_file_writefln(const char *const filename, const char *const fmt, ...) {
     // write to file
     va_list args;
     va_start(args, fmt);
-    vfprintf(fp, fmt, args);
+    bool status = vfprintf(fp, fmt, args) >= 0;
     va_end(args);
 
     // add a new line
-    fprintf(fp, "\n");
+    status = fprintf(fp, "\n") >= 0 && status;
     
-    // close file
-    fclose(fp); 
+    // close file (this writes what is still buffered)
+    status = fclose(fp) == 0 && status;
 
-    return true;
+    return status;
 }
 
 bool vt_file_writefc(const char *const filename, const bool use_binary_mode, const bool use_append_mode, const bool add_ln, const char *const fmt, ...) {
@@ -261,18 +261,18 @@ bool vt_file_writefc(const char *const filename, const bool use_binary_mode, con
     // write to file
     va_list args;
     va_start(args, fmt);
-    vfprintf(fp, fmt, args);
+    bool status = vfprintf(fp, fmt, args) >= 0;
     va_end(args);
 
     // add a new line
     if (add_ln) {
-        fprintf(fp, "\n");
+        status = fprintf(fp, "\n") >= 0 && status;
     }
     
-    // close file
-    fclose(fp); 
+    // close file (this writes what is still buffered)
+    status = fclose(fp) == 0 && status;
 
-    return true;
+    return status;
 }
 
 
-- 
2.43.0


From 261636109c64ee1f67703a29d2303ee0294515b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:06 +0000
Subject: [PATCH 25/46] fix: log: a fatal message to a file that cannot be
 opened was lost and did not end the program

---
 src/vita/util/log.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vita/util/log.c b/src/vita/util/log.c
index 824f58c..99b6d27 100644
--- a/src/vita/util/log.c
+++ b/src/vita/util/log.c
@@ -47,8 +47,8 @@ void vt_log(const char *const zfilename, enum VitaLogLevel log_level, const bool
             // if `NULL` log to `stderr`, otherwise to a file
             FILE *fp = (logger_filename[0] == '\0') ? stderr : fopen(logger_filename, "a");
             if (fp == NULL) {
-                VT_DEBUG_PRINTF("%s:%i: Failed to open a file <%s>!\n", file, line, logger_filename);
-                return;
+                VT_DEBUG_PRINTF("%s:%zu: Failed to open a file <%s>!\n", file, line, logger_filename);
+                fp = stderr;
             }
 
             // logging data
-- 
2.43.0


From 54f2dde6910018368f7687a3c8e1c6ca2ac4bcbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:10 +0000
Subject: [PATCH 26/46] fix: debug: stderr was closed when the redirection
 target could not be opened

---
 src/vita/util/debug.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vita/util/debug.c b/src/vita/util/debug.c
index 2941e71..3f6232c 100644
--- a/src/vita/util/debug.c
+++ b/src/vita/util/debug.c
@@ -34,7 +34,7 @@ void vt_debug_assert(
                 fprintf(fp, "\n");
 
                 // close the file, if needed
-                if (vt_debug_output_filename != NULL) { fclose(fp); }
+                if (fp != stderr) { fclose(fp); }
             }
         }
         va_end(args);
@@ -65,7 +65,7 @@ void vt_debug_printf(const char *const subject, const char *const zfmt, ...) {
             vfprintf(fp, zfmt, args);
 
             // close the file, if needed
-            if (vt_debug_output_filename != NULL) { fclose(fp); }
+            if (fp != stderr) { fclose(fp); }
         }
     }
     va_end(args);
-- 
2.43.0


From 5ddb02766eff2d742fa07c913e48dd3c48010c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:59 +0000
Subject: [PATCH 27/46] fix: datetime: century years were all taken for leap
 years

---
 src/vita/time/datetime.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vita/time/datetime.c b/src/vita/time/datetime.c
index 56198b8..8216ad0 100644
--- a/src/vita/time/datetime.c
+++ b/src/vita/time/datetime.c
@@ -199,7 +199,7 @@ int16_t vt_datetime_find_days_in_year(const struct VitaDateTime vdt) {
 
 bool vt_datetime_is_leap_year(const struct VitaDateTime vdt) {
     const int16_t year = vdt.year < 0 ? VT_DATETIME_MIN_YEAR_RANGE : vdt.year;
-    return (year % 4 == 0);
+    return (year % 4 == 0 && year % 100 != 0) || year % 400 == 0;
 }
 
 bool vt_datetime_is_valid_text(const char *const timebuf) {
-- 
2.43.0


From d04c6fbf8a2a0b52aeb9911391c7f194d859aa19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:03 +0000
Subject: [PATCH 28/46] fix: datetime: week and year day of dates before 1970
 were not found

---
 src/vita/time/datetime.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/vita/time/datetime.c b/src/vita/time/datetime.c
index 8216ad0..1cd2c95 100644
--- a/src/vita/time/datetime.c
+++ b/src/vita/time/datetime.c
@@ -151,9 +151,10 @@ struct VitaDateTime vt_datetime_from_text_iso_ext(const char *timebuf) {
 
 int16_t vt_datetime_find_year_day(const struct VitaDateTime vdt) {
     struct tm stm = vt_datetime_vdt_to_tm(vdt);
-    time_t ret = mktime(&stm);
-    if (ret < 0) {
-        VT_DEBUG_PRINTF("%s: Invalid datetime format.\n");
+    stm.tm_wday = -1; // mktime sets it upon success; its return value is no indicator, since dates before 1970 are negative
+    mktime(&stm);
+    if (stm.tm_wday < 0) {
+        VT_DEBUG_PRINTF("%s\n", "Invalid datetime format.");
         return -1;
     }
 
@@ -162,9 +163,10 @@ int16_t vt_datetime_find_year_day(const struct VitaDateTime vdt) {
 
 int16_t vt_datetime_find_week_day(const struct VitaDateTime vdt) {
     struct tm stm = vt_datetime_vdt_to_tm(vdt);
-    time_t ret = mktime(&stm);
-    if (ret < 0) {
-        VT_DEBUG_PRINTF("%s: Invalid datetime format.\n");
+    stm.tm_wday = -1; // mktime sets it upon success; its return value is no indicator, since dates before 1970 are negative
+    mktime(&stm);
+    if (stm.tm_wday < 0) {
+        VT_DEBUG_PRINTF("%s\n", "Invalid datetime format.");
         return -1;
     }
 
-- 
2.43.0


From 54c6b2a5991c79430d6dcea4895063962c521950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:07 +0000
Subject: [PATCH 29/46] fix: datetime: timestamp validation ignored separators
 and read past the end of short text

---
 src/vita/time/datetime.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vita/time/datetime.c b/src/vita/time/datetime.c
index 1cd2c95..1f6e1c7 100644
--- a/src/vita/time/datetime.c
+++ b/src/vita/time/datetime.c
@@ -396,7 +396,8 @@ static bool vt_datetime_is_valid_fmt(const char *const timebuf, const char *cons
     VT_DEBUG_ASSERT(fmt != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
 
     for (size_t i = 0; i < len; i++) {
-        if (fmt[i] != 'T' && isalpha(fmt[i]) && !isdigit(timebuf[i])) {
+        const bool is_digit_expected = fmt[i] != 'T' && isalpha(fmt[i]);
+        if (is_digit_expected ? !isdigit((unsigned char)timebuf[i]) : timebuf[i] != fmt[i]) {
             return false;
         }
     }
-- 
2.43.0


From a712b7795634cb480522d0969981ceccbcb69068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:45 +0000
Subject: [PATCH 30/46] fix: datetime: dates read from text had no week and
 year day

---
 src/vita/time/datetime.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/vita/time/datetime.c b/src/vita/time/datetime.c
index 1f6e1c7..77a8bf7 100644
--- a/src/vita/time/datetime.c
+++ b/src/vita/time/datetime.c
@@ -376,9 +376,13 @@ static struct VitaDateTime vt_datetime_from_text_fmt(const char *timebuf, const
     // adjust
     stm.tm_year -= VT_DATETIME_MIN_YEAR_RANGE;
     stm.tm_mon -= 1;
-    stm.tm_isdst = 0;
 
-    return vt_datetime_tm_to_vdt(stm);
+    // fill week and year days
+    struct VitaDateTime vdt = vt_datetime_tm_to_vdt(stm);
+    vdt.week_day = vt_datetime_find_week_day(vdt);
+    vdt.year_day = vt_datetime_find_year_day(vdt);
+
+    return vdt;
 }
 
 /** Checks if timestamp is valid format
-- 
2.43.0


From b3eeb50d4715bdc7304ce91c1f7f2adb9e6e644f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:49 +0000
Subject: [PATCH 31/46] fix: datetime: a missing year was taken for 3800
 instead of 1900

---
 src/vita/time/datetime.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vita/time/datetime.c b/src/vita/time/datetime.c
index 77a8bf7..0f4a0dc 100644
--- a/src/vita/time/datetime.c
+++ b/src/vita/time/datetime.c
@@ -327,7 +327,7 @@ static struct VitaDateTime vt_datetime_tm_to_vdt(const struct tm stm) {
 */
 static struct tm vt_datetime_vdt_to_tm(const struct VitaDateTime vdt) {
     return (struct tm) {
-        .tm_year = vdt.year ? (vdt.year - VT_DATETIME_MIN_YEAR_RANGE) : VT_DATETIME_MIN_YEAR_RANGE,
+        .tm_year = vdt.year > 0 ? (vdt.year - VT_DATETIME_MIN_YEAR_RANGE) : 0,
         .tm_mon = vdt.month - 1,
         .tm_mday = vdt.month_day,
         .tm_hour = vdt.hour, 
-- 
2.43.0


From 759069a721e56238c1e44f4668662ab958f4fc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:52 +0000
Subject: [PATCH 32/46] fix: datetime: dates within daylight saving time were
 shifted by an hour

---
 src/vita/time/datetime.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vita/time/datetime.c b/src/vita/time/datetime.c
index 0f4a0dc..942ef83 100644
--- a/src/vita/time/datetime.c
+++ b/src/vita/time/datetime.c
@@ -335,7 +335,7 @@ static struct tm vt_datetime_vdt_to_tm(const struct VitaDateTime vdt) {
         .tm_sec = vdt.second,
         .tm_wday = (vdt.week_day == 7) ? 0 : vdt.week_day,
         .tm_yday = vdt.year_day - 1,
-        .tm_isdst = 0
+        .tm_isdst = -1 // let mktime find out
     };
 }
 
-- 
2.43.0


From 9667d6c11dd6bc5e7160287cf40331556a0bacd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:25 +0000
Subject: [PATCH 33/46] fix: argopt: a C string option with a default value was
 overwritten out of bounds and not terminated

---
 src/vita/util/argopt.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vita/util/argopt.c b/src/vita/util/argopt.c
index 6a8657d..96acf8c 100644
--- a/src/vita/util/argopt.c
+++ b/src/vita/util/argopt.c
@@ -225,15 +225,15 @@ static void vt_argopt_assign_value(vt_argopt_t *const opt, const char *const val
                     // check we need to reallocate
                     if (len > zLen) {
                         char *ztmp = alloctr 
-                            ? VT_ALLOCATOR_REALLOC(alloctr, *zvalue, len - zLen)
-                            : VT_REALLOC(*zvalue, len - zLen);
+                            ? VT_ALLOCATOR_REALLOC(alloctr, *zvalue, len + 1)
+                            : VT_REALLOC(*zvalue, len + 1);
 
                         // save
                         *zvalue = ztmp;
                     }
 
-                    // copy values
-                    memcpy(*zvalue, value, len);
+                    // copy values (including '\0')
+                    memcpy(*zvalue, value, len + 1);
                 }
             }
             break;
-- 
2.43.0


From d7442f00d6cc10123555ee34ade52cc5fd9d05d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:36 +0000
Subject: [PATCH 34/46] fix: conv: negative numbers were converted to zero

---
 src/vita/core/conv.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vita/core/conv.c b/src/vita/core/conv.c
index 24d8390..1068901 100644
--- a/src/vita/core/conv.c
+++ b/src/vita/core/conv.c
@@ -8,7 +8,8 @@ static real vt_strtold(const char *z, char **zend, int base) { (void)base; retur
     T vt_conv_str_to_##t(const char *const z) {                                                     \
         VT_DEBUG_ASSERT(z != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));    \
                                                                                                     \
-        const vt_str_t s = vt_str_create_static(z);                                                 \
+        const bool has_sign = (T)-1 < (T)1 && z[0] == '-'; /* unsigned values have no sign */       \
+        const vt_str_t s = vt_str_create_static(has_sign ? z + 1 : z);                              \
         if (!vt_str_is_numeric(&s)) {                                                               \
             VT_DEBUG_PRINTF(                                                                        \
                 "%s: Must be digits only, not \"<%s>\".\n",                                         \
-- 
2.43.0


From 7db5cddd605a04b1531c575bf2857c48e4258607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:33 +0000
Subject: [PATCH 35/46] fix: math: gcd and lcm divided by zero and were
 negative for negative numbers

---
 src/vita/math/math.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/vita/math/math.c b/src/vita/math/math.c
index 9d04a21..60c7f28 100644
--- a/src/vita/math/math.c
+++ b/src/vita/math/math.c
@@ -102,16 +102,21 @@ int64_t vt_math_gcd(const int64_t a, const int64_t b) {
     high_val = a >= b ? a : b;
 
     // find gcd
-    do {
+    while (low_val != 0) {
         rem = high_val % low_val;
         high_val = low_val;
         low_val = rem;
-    } while (rem != 0);
+    }
 
-    return high_val;
+    return high_val < 0 ? -high_val : high_val;
 }
 
 int64_t vt_math_lcm(int64_t a, int64_t b) {
-    return a / vt_math_gcd(a, b) * b;
+    if (a == 0 || b == 0) {
+        return 0;
+    }
+
+    const int64_t lcm = a / vt_math_gcd(a, b) * b;
+    return lcm < 0 ? -lcm : lcm;
 }
 
-- 
2.43.0


From 9bb9fb49209c6105a92e13c1e05bd3bbd31cf459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:36 +0000
Subject: [PATCH 36/46] fix: math: is_close did not select the tolerance when a
 negative one is given

---
 src/vita/math/math.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vita/math/math.c b/src/vita/math/math.c
index 60c7f28..fd73d3e 100644
--- a/src/vita/math/math.c
+++ b/src/vita/math/math.c
@@ -93,7 +93,7 @@ float vt_math_random_f32_normal(const float mu, const float std) {
 }
 
 bool vt_math_is_close(const float lhs, const float rhs, const float rtol) {
-    return fabs(lhs - rhs) < fabs(rtol);
+    return fabs(lhs - rhs) < (rtol < 0 ? __FLT_EPSILON__ : rtol);
 }
 
 int64_t vt_math_gcd(const int64_t a, const int64_t b) {
-- 
2.43.0


From 683bbd28212474256952617fd2cbded68a8c25fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:51 +0000
Subject: [PATCH 37/46] fix: sockets: descriptors leaked when starting a server
 or client failed

---
 src/vita/network/sockets.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vita/network/sockets.c b/src/vita/network/sockets.c
index a203c27..199ac57 100644
--- a/src/vita/network/sockets.c
+++ b/src/vita/network/sockets.c
@@ -44,6 +44,7 @@ vt_socket_t vt_socket_startup_server(const enum VitaSocketType type, const int32
     const int32_t opt = 1;
     if (setsockopt(sock_fd, SOL_SOCKET, SO_REUSEADDR, (char*)&opt, sizeof(int)) < 0) {
         VT_DEBUG_PRINTF("%s: Failed to set socket options!\n", vt_status_to_str(VT_STATUS_OPERATION_FAILURE));
+        vt_socket_close(sock_fd);
         return VT_SOCKET_STATUS_ERROR_OPTIONS;
     }
 
@@ -56,12 +57,14 @@ vt_socket_t vt_socket_startup_server(const enum VitaSocketType type, const int32
     // forcefully bind the server socket address
     if (bind(sock_fd, (struct sockaddr*)&server, sizeof(server)) < 0) {
         VT_DEBUG_PRINTF("%s: Failed to bind the socket!\n", vt_status_to_str(VT_STATUS_OPERATION_FAILURE));
+        vt_socket_close(sock_fd);
         return VT_SOCKET_STATUS_ERROR_BIND;
     }
 
     // listen
     if (type == VT_SOCKET_TYPE_TCP && listen(sock_fd , backlog) < 0) {
         VT_DEBUG_PRINTF("%s: Error listening for connections!\n", vt_status_to_str(VT_STATUS_OPERATION_FAILURE));
+        vt_socket_close(sock_fd);
         return VT_SOCKET_STATUS_ERROR_LISTEN;
     }
 
@@ -85,6 +88,7 @@ vt_socket_t vt_socket_startup_client(const enum VitaSocketType type, const struc
     // connect to remote server
     if (connect(sock_fd, (struct sockaddr*)&server, sizeof(server)) < 0) {
         VT_DEBUG_PRINTF("%s: Failed to connect to server!\n", vt_status_to_str(VT_STATUS_OPERATION_FAILURE));
+        vt_socket_close(sock_fd);
         return VT_SOCKET_STATUS_ERROR_CONNECT;
     }
 
-- 
2.43.0


From 9bacea85ecbeb9ed0e24ba8d77abd478959bc04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:54 +0000
Subject: [PATCH 38/46] fix: sockets: sending to a closed connection killed the
 process instead of reporting the error

---
 src/vita/network/sockets.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/vita/network/sockets.c b/src/vita/network/sockets.c
index 199ac57..3bf3696 100644
--- a/src/vita/network/sockets.c
+++ b/src/vita/network/sockets.c
@@ -1,5 +1,10 @@
 #include "vita/network/sockets.h"
 
+// a failed send is reported to the caller, it must not raise SIGPIPE
+#if !defined(MSG_NOSIGNAL)
+    #define MSG_NOSIGNAL 0
+#endif
+
 bool vt_socket_init(void) {
     #if defined(_WIN32) || defined(_WIN64)
         WSADATA wsa;
@@ -130,7 +135,7 @@ bool vt_socket_close(const vt_socket_t sock_fd) {
 
 int32_t vt_socket_send(const vt_socket_t sock_fd, const char *const data_buf, const size_t data_len) {
     // send data
-    const int32_t size_sent = send(sock_fd, data_buf, data_len, 0);
+    const int32_t size_sent = send(sock_fd, data_buf, data_len, MSG_NOSIGNAL);
 
     // check for errors
     if (size_sent < 0) {
@@ -149,7 +154,7 @@ int32_t vt_socket_send_to(const vt_socket_t sock_fd, const struct VitaSocketAddr
     dst_addr.sin_port = address.port;
 
     // send data
-    const int32_t size_sent = sendto(sock_fd, data_buf, data_len, 0, (struct sockaddr*)&dst_addr, sizeof(dst_addr));
+    const int32_t size_sent = sendto(sock_fd, data_buf, data_len, MSG_NOSIGNAL, (struct sockaddr*)&dst_addr, sizeof(dst_addr));
     
     // check for errors
     if (size_sent < 0) {
-- 
2.43.0


From a0ccbf74553ea9f2df7b282393bd2c954aeb9138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:58 +0000
Subject: [PATCH 39/46] fix: sockets: timed receive reported a timeout for a
 broken or invalid socket

---
 src/vita/network/sockets.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vita/network/sockets.c b/src/vita/network/sockets.c
index 3bf3696..180f9b0 100644
--- a/src/vita/network/sockets.c
+++ b/src/vita/network/sockets.c
@@ -223,8 +223,8 @@ int32_t vt_socket_receive_timed(const vt_socket_t sock_fd, char *data_buf, const
     const int32_t poll_ret = vt_socket_poll(&pfd, 1, timeout);
     if (poll_ret < 0) return VT_SOCKET_STATUS_ERROR_POLL;
 
-    // receive data
-    if (poll_ret > 0 && (pfd.revents & POLLIN)) {
+    // receive data (or the pending error)
+    if (poll_ret > 0) {
         return vt_socket_receive(sock_fd, data_buf, data_len);
     }
 
@@ -242,8 +242,8 @@ int32_t vt_socket_receive_timed_from(const vt_socket_t sock_fd, struct VitaSocke
     const int32_t poll_ret = vt_socket_poll(&pfd, 1, timeout);
     if (poll_ret < 0) return VT_SOCKET_STATUS_ERROR_POLL;
 
-    // receive data
-    if (poll_ret > 0 && (pfd.revents & POLLIN)) {
+    // receive data (or the pending error)
+    if (poll_ret > 0) {
         return vt_socket_receive_from(sock_fd, address, data_buf, data_len);
     }
 
-- 
2.43.0


From bd011eba1f44a18ab0ae104c7a20ef43fdad3b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:41 +0000
Subject: [PATCH 40/46] fix: making directories for an empty path fails instead
 of ending the program

---
 src/vita/system/path.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vita/system/path.c b/src/vita/system/path.c
index 2703df0..ab128a7 100644
--- a/src/vita/system/path.c
+++ b/src/vita/system/path.c
@@ -328,7 +328,7 @@ bool vt_path_mkdir_parents(const char *const z) {
     }
 
     // split string into directories
-    dir_list = vt_str_split(NULL, s, VT_PATH_SEPARATOR);
+    dir_list = vt_str_len(s) ? vt_str_split(NULL, s, VT_PATH_SEPARATOR) : NULL;
     if (dir_list == NULL) {
         // there are no parent directories
         status = vt_path_mkdir(z);
-- 
2.43.0


From 2bc7d82c4563abc51b77b6e049d658790c380434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:14 +0000
Subject: [PATCH 41/46] fix: vt_math_gcd divided INT64_MIN by -1

---
 src/vita/math/math.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vita/math/math.c b/src/vita/math/math.c
index fd73d3e..fde8a7e 100644
--- a/src/vita/math/math.c
+++ b/src/vita/math/math.c
@@ -103,7 +103,7 @@ int64_t vt_math_gcd(const int64_t a, const int64_t b) {
 
     // find gcd
     while (low_val != 0) {
-        rem = high_val % low_val;
+        rem = low_val == -1 ? 0 : high_val % low_val; // INT64_MIN % -1 overflows
         high_val = low_val;
         low_val = rem;
     }
-- 
2.43.0


From 1ae6fe28297fd255ee046bd9a5419b7b5a67d4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:10 +0000
Subject: [PATCH 42/46] fix: editing a view changed the text it must not modify

---
 src/vita/container/str.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/vita/container/str.c b/src/vita/container/str.c
index c099b7f..39fb5b4 100644
--- a/src/vita/container/str.c
+++ b/src/vita/container/str.c
@@ -142,6 +142,7 @@ size_t vt_str_validate_len(vt_str_t *const s) {
     // check for invalid input
     VT_DEBUG_ASSERT(s != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
     VT_DEBUG_ASSERT(s->ptr != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_IS_NULL));
+    VT_ENFORCE(!s->is_view, "%s: Cannot modify a viewable-only object!\n", vt_status_to_str(VT_STATUS_ERROR_IS_VIEW));
 
     // calculate valid length
     const size_t s_len = strnlen(s->ptr, s->capacity);
@@ -180,6 +181,7 @@ void vt_str_clear(vt_str_t *const s) {
     // check for invalid input
     VT_DEBUG_ASSERT(s != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
     VT_DEBUG_ASSERT(s->ptr != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_IS_NULL));
+    VT_ENFORCE(!s->is_view, "%s: Cannot modify a viewable-only object!\n", vt_status_to_str(VT_STATUS_ERROR_IS_VIEW));
 
     // set C string to ""
     ((char*)s->ptr)[0] = '\0';
@@ -245,6 +247,7 @@ enum VitaStatus vt_str_set_at(vt_str_t *const s, const char *z, const size_t at)
     VT_DEBUG_ASSERT(s != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
     VT_DEBUG_ASSERT(s->ptr != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_IS_NULL));
     VT_DEBUG_ASSERT(z != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
+    VT_ENFORCE(!s->is_view, "%s: Cannot modify a viewable-only object!\n", vt_status_to_str(VT_STATUS_ERROR_IS_VIEW));
     VT_DEBUG_ASSERT(
         at < s->len,
         "%s: Assigning at %zu, but vt_str_t length is %zu!\n", 
@@ -276,6 +279,7 @@ enum VitaStatus vt_str_set_c(vt_str_t *const s, const char c, const size_t at) {
     // check for invalid input
     VT_DEBUG_ASSERT(s != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
     VT_DEBUG_ASSERT(s->ptr != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_IS_NULL));
+    VT_ENFORCE(!s->is_view, "%s: Cannot modify a viewable-only object!\n", vt_status_to_str(VT_STATUS_ERROR_IS_VIEW));
     VT_DEBUG_ASSERT(
         at < s->len,
         "%s: Assigning at %zu, but vt_str_t length is %zu!\n", 
@@ -295,6 +299,7 @@ void vt_str_set_n(vt_str_t *const s, const char *z, const size_t n) {
     VT_DEBUG_ASSERT(s != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
     VT_DEBUG_ASSERT(s->ptr != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_IS_NULL));
     VT_DEBUG_ASSERT(z != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
+    VT_ENFORCE(!s->is_view, "%s: Cannot modify a viewable-only object!\n", vt_status_to_str(VT_STATUS_ERROR_IS_VIEW));
 
     // ensure that z fits into vt_str_t
     VT_ENFORCE(
@@ -371,6 +376,7 @@ void vt_str_insert(vt_str_t *const s, const char *z, const size_t at) {
     VT_DEBUG_ASSERT(s != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
     VT_DEBUG_ASSERT(s->ptr != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_IS_NULL));
     VT_DEBUG_ASSERT(z != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
+    VT_ENFORCE(!s->is_view, "%s: Cannot modify a viewable-only object!\n", vt_status_to_str(VT_STATUS_ERROR_IS_VIEW));
     VT_DEBUG_ASSERT(
         at <= s->len,
         "%s: Inserts at %zu, but vt_str_t length is %zu!\n", 
@@ -523,6 +529,7 @@ void vt_str_remove(vt_str_t *const s, const size_t from, size_t n) {
     VT_DEBUG_ASSERT(s != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
     VT_DEBUG_ASSERT(s->ptr != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_IS_NULL));
     VT_DEBUG_ASSERT(n > 0, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
+    VT_ENFORCE(!s->is_view, "%s: Cannot modify a viewable-only object!\n", vt_status_to_str(VT_STATUS_ERROR_IS_VIEW));
     VT_DEBUG_ASSERT(
         from < s->len,
         "%s: Start from %zu, but vt_str_t length is %zu!\n", 
@@ -551,6 +558,7 @@ enum VitaStatus vt_str_remove_first(vt_str_t *const s, const char *z) {
     VT_DEBUG_ASSERT(s != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
     VT_DEBUG_ASSERT(s->ptr != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_IS_NULL));
     VT_DEBUG_ASSERT(z != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
+    VT_ENFORCE(!s->is_view, "%s: Cannot modify a viewable-only object!\n", vt_status_to_str(VT_STATUS_ERROR_IS_VIEW));
 
     // find a substring in strbuf; if substring wasn't found, return
     char* sub = strstr(s->ptr, z);
@@ -621,6 +629,7 @@ void vt_str_remove_c(vt_str_t *const s, const char *const c) {
     VT_DEBUG_ASSERT(s != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
     VT_DEBUG_ASSERT(s->ptr != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_IS_NULL));
     VT_DEBUG_ASSERT(c != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
+    VT_ENFORCE(!s->is_view, "%s: Cannot modify a viewable-only object!\n", vt_status_to_str(VT_STATUS_ERROR_IS_VIEW));
 
     // prepare
     size_t offset = 0;
@@ -662,6 +671,7 @@ void vt_str_replace(vt_str_t *const s, const char *const sub, const char *const
     VT_DEBUG_ASSERT(s->ptr != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_IS_NULL));
     VT_DEBUG_ASSERT(sub != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
     VT_DEBUG_ASSERT(rsub != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
+    VT_ENFORCE(!s->is_view, "%s: Cannot modify a viewable-only object!\n", vt_status_to_str(VT_STATUS_ERROR_IS_VIEW));
 
     // check length and do nothing if empty
     const size_t subLen = strlen(sub);
@@ -695,6 +705,7 @@ void vt_str_replace_first(vt_str_t *const s, const char *const sub, const char *
     VT_DEBUG_ASSERT(s->ptr != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_IS_NULL));
     VT_DEBUG_ASSERT(sub != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
     VT_DEBUG_ASSERT(rsub != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
+    VT_ENFORCE(!s->is_view, "%s: Cannot modify a viewable-only object!\n", vt_status_to_str(VT_STATUS_ERROR_IS_VIEW));
 
     // check length and do nothing if empty
     const size_t subLen = strlen(sub);
@@ -723,6 +734,7 @@ void vt_str_replace_last(vt_str_t *const s, const char *const sub, const char *c
     VT_DEBUG_ASSERT(s->ptr != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_IS_NULL));
     VT_DEBUG_ASSERT(sub != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
     VT_DEBUG_ASSERT(rsub != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
+    VT_ENFORCE(!s->is_view, "%s: Cannot modify a viewable-only object!\n", vt_status_to_str(VT_STATUS_ERROR_IS_VIEW));
 
     // check length and do nothing if empty
     const size_t subLen = strlen(sub);
@@ -757,6 +769,7 @@ void vt_str_replace_c(vt_str_t *const s, const char *const c, const char *const
     VT_DEBUG_ASSERT(s->ptr != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_IS_NULL));
     VT_DEBUG_ASSERT(c != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
     VT_DEBUG_ASSERT(r != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
+    VT_ENFORCE(!s->is_view, "%s: Cannot modify a viewable-only object!\n", vt_status_to_str(VT_STATUS_ERROR_IS_VIEW));
 
     // check length
     const size_t rLen = strlen(r);
@@ -783,6 +796,7 @@ void vt_str_strip(vt_str_t *const s) {
     // check for invalid input
     VT_DEBUG_ASSERT(s != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
     VT_DEBUG_ASSERT(s->ptr != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_IS_NULL));
+    VT_ENFORCE(!s->is_view, "%s: Cannot modify a viewable-only object!\n", vt_status_to_str(VT_STATUS_ERROR_IS_VIEW));
 
     // nothing to strip
     if (!s->len) return;
@@ -820,6 +834,7 @@ void vt_str_strip_punct(vt_str_t *const s) {
     // check for invalid input
     VT_DEBUG_ASSERT(s != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
     VT_DEBUG_ASSERT(s->ptr != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_IS_NULL));
+    VT_ENFORCE(!s->is_view, "%s: Cannot modify a viewable-only object!\n", vt_status_to_str(VT_STATUS_ERROR_IS_VIEW));
 
     // nothing to strip
     if (!s->len) return;
@@ -858,6 +873,7 @@ void vt_str_strip_c(vt_str_t *const s, const char *const c) {
     VT_DEBUG_ASSERT(s != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
     VT_DEBUG_ASSERT(s->ptr != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_IS_NULL));
     VT_DEBUG_ASSERT(c != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
+    VT_ENFORCE(!s->is_view, "%s: Cannot modify a viewable-only object!\n", vt_status_to_str(VT_STATUS_ERROR_IS_VIEW));
 
     // nothing to strip
     if (!s->len) return;
@@ -1323,6 +1339,7 @@ void vt_str_to_uppercase(vt_str_t *const s) {
     // check for invalid input
     VT_DEBUG_ASSERT(s != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
     VT_DEBUG_ASSERT(s->ptr != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_IS_NULL));
+    VT_ENFORCE(!s->is_view, "%s: Cannot modify a viewable-only object!\n", vt_status_to_str(VT_STATUS_ERROR_IS_VIEW));
 
     // to uppercase
     char *const z = s->ptr;
@@ -1336,6 +1353,7 @@ void vt_str_to_lowercase(vt_str_t *const s) {
     // check for invalid input
     VT_DEBUG_ASSERT(s != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
     VT_DEBUG_ASSERT(s->ptr != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_IS_NULL));
+    VT_ENFORCE(!s->is_view, "%s: Cannot modify a viewable-only object!\n", vt_status_to_str(VT_STATUS_ERROR_IS_VIEW));
 
     // to lowercase
     char *const z = s->ptr;
@@ -1454,6 +1472,7 @@ static vt_str_t *vt_str_vfmt_append(vt_str_t *s, const char *const fmt, va_list
     VT_DEBUG_ASSERT(s != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
     VT_DEBUG_ASSERT(s->ptr != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_IS_NULL));
     VT_DEBUG_ASSERT(fmt != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
+    VT_ENFORCE(!s->is_view, "%s: Cannot modify a viewable-only object!\n", vt_status_to_str(VT_STATUS_ERROR_IS_VIEW));
 
     // format string
     va_list args2; va_copy(args2, args); 
-- 
2.43.0


From 45bf2a1140207017d920b8da917308a8cc9e8b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:34 +0000
Subject: [PATCH 43/46] fix: duplicating or shrinking an empty vector ended the
 program

---
 src/vita/container/vec.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/vita/container/vec.c b/src/vita/container/vec.c
index eedf780..07ca38d 100644
--- a/src/vita/container/vec.c
+++ b/src/vita/container/vec.c
@@ -44,6 +44,11 @@ vt_vec_t *vt_vec_dup(const vt_vec_t *const v, struct VitaBaseAllocatorType *cons
     VT_DEBUG_ASSERT(v != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
     VT_DEBUG_ASSERT(v->ptr != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_IS_NULL));
 
+    // an empty vector has nothing to copy
+    if (v->len == 0) {
+        return vt_vec_create(1, v->elsize, alloctr);
+    }
+
     // allocate a new vt_vec_t instance
     vt_vec_t *vdup = vt_vec_create(v->len, v->elsize, alloctr);
     vdup->len = v->len;
@@ -76,7 +81,8 @@ void vt_vec_shrink(vt_vec_t *const v) {
     VT_DEBUG_ASSERT(v->ptr != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_IS_NULL));
 
     // if length and capacity are the same, exit the function
-    if (v->len == v->capacity) {
+    // an empty vector keeps its storage
+    if (v->len == v->capacity || v->len == 0) {
         return;
     }
 
-- 
2.43.0


From 33f4cbc96a9f6b9a075fbeca6454f1b9e83dd0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:38 +0000
Subject: [PATCH 44/46] fix: duplicating or shrinking an empty pointer list
 ended the program

---
 src/vita/container/plist.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/vita/container/plist.c b/src/vita/container/plist.c
index e09c8b8..39112a6 100644
--- a/src/vita/container/plist.c
+++ b/src/vita/container/plist.c
@@ -43,6 +43,11 @@ vt_plist_t *vt_plist_dup(const vt_plist_t *const p, struct VitaBaseAllocatorType
     VT_DEBUG_ASSERT(p != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
     VT_DEBUG_ASSERT(p->ptr2 != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_IS_NULL));
 
+    // an empty list has nothing to copy
+    if (p->len == 0) {
+        return vt_plist_create(1, alloctr);
+    }
+
     // allocate a new vt_vec_t instance
     vt_plist_t *pdup = vt_plist_create(p->len, alloctr);
     pdup->len = p->len;
@@ -92,7 +97,8 @@ void vt_plist_shrink(vt_plist_t *const p) {
     VT_DEBUG_ASSERT(p->ptr2 != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_IS_NULL));
 
     // if length and capacity are the same, exit the function
-    if (p->len == p->capacity) {
+    // an empty list keeps its storage
+    if (p->len == p->capacity || p->len == 0) {
         return;
     }
 
-- 
2.43.0


From b02ab5c914e4a9c000e5f5ac8e0aedcc3bb8b795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:42 +0000
Subject: [PATCH 45/46] fix: joining an empty list read past its end

---
 src/vita/container/str.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/vita/container/str.c b/src/vita/container/str.c
index 39fb5b4..89ad7fb 100644
--- a/src/vita/container/str.c
+++ b/src/vita/container/str.c
@@ -1077,11 +1077,16 @@ vt_str_t *vt_str_join(vt_str_t *const s, const char *const sep, const vt_plist_t
         ? vt_str_create_capacity(VT_ARRAY_DEFAULT_INIT_ELEMENTS, NULL) 
         : s;
 
+    // check if there is anything to join
+    const size_t pLen = vt_plist_len(p);
+    if (pLen == 0) {
+        return st;
+    }
+
     // append the first part
     vt_str_append(st, vt_plist_get(p, 0));
 
     // continue appending
-    const size_t pLen = vt_plist_len(p);
     for (size_t i = 1; i < pLen; i++) {
         vt_str_append(st, sep);
         vt_str_append(st, vt_plist_get(p, i));
-- 
2.43.0


From 6ecefa53774297240df9288bb83042b6b57e59e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:07 +0000
Subject: [PATCH 46/46] fix: reading the local time went through a buffer
 shared by all threads

---
 src/vita/time/datetime.c | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/vita/time/datetime.c b/src/vita/time/datetime.c
index 942ef83..ef4bc4d 100644
--- a/src/vita/time/datetime.c
+++ b/src/vita/time/datetime.c
@@ -1,5 +1,6 @@
 #include "vita/time/datetime.h"
 
+static struct tm vt_datetime_local_tm(const time_t secs);
 static struct VitaDateTime vt_datetime_tm_to_vdt(const struct tm stm);
 static struct tm vt_datetime_vdt_to_tm(const struct VitaDateTime vdt);
 static void vt_datetime_to_text_fmt(const struct VitaDateTime vdt, char *timebuf, const size_t len, const char *fmt);
@@ -8,7 +9,7 @@ static bool vt_datetime_is_valid_fmt(const char *const timebuf, const char *cons
 
 struct VitaDateTime vt_datetime_get_now(void) {
     const time_t t = time(NULL);
-    const struct tm stm = *localtime(&t);
+    const struct tm stm = vt_datetime_local_tm(t);
     return vt_datetime_tm_to_vdt(stm);
 }
 
@@ -19,7 +20,7 @@ void vt_datetime_get_now_as_text(char *timebuf, const size_t len) {
 
     // get time
     const time_t t = time(NULL);
-    const struct tm stm = *localtime(&t);
+    const struct tm stm = vt_datetime_local_tm(t);
     timebuf[strftime(timebuf, len, "%Y-%m-%d %H:%M:%S", &stm)] = '\0';
 }
 
@@ -30,7 +31,7 @@ void vt_datetime_get_now_as_text_pretty(char *timebuf, const size_t len) {
 
     // get time
     const time_t t = time(NULL);
-    const struct tm stm = *localtime(&t);
+    const struct tm stm = vt_datetime_local_tm(t);
     const struct VitaDateTime vdt = vt_datetime_tm_to_vdt(stm);
     vt_datetime_to_text_pretty(vdt, timebuf, len);
 }
@@ -234,7 +235,7 @@ time_t vt_datetime_to_secs(const struct VitaDateTime vdt) {
 }
 
 struct VitaDateTime vt_datetime_from_secs(const time_t secs) {
-    const struct tm stm = *localtime(&secs);
+    const struct tm stm = vt_datetime_local_tm(secs);
     return vt_datetime_tm_to_vdt(stm);
 }
 
@@ -292,6 +293,21 @@ struct VitaDateTime vt_datetime_diff(const struct VitaDateTime vdt1, const struc
 
 /* ---------------------- PRIVATE FUNCTIONS ---------------------- */
 
+/** Converts seconds to local time without going through the C library's shared buffer
+    @param secs time in seconds
+    @returns struct tm
+*/
+static struct tm vt_datetime_local_tm(const time_t secs) {
+    struct tm stm = {0};
+#if defined(_WIN32) || defined(_WIN64)
+    localtime_s(&stm, &secs);
+#else
+    tzset();
+    localtime_r(&secs, &stm);
+#endif
+    return stm;
+}
+
 /** Converts from `tm` to `VitaDateTime` datetime format
     @param stm tm struct
     @returns struct VitaDateTime
-- 
2.43.0


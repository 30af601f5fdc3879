From 81b37c148fca66427753cbcf1ce3413b95a064d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:44 +0000
Subject: [PATCH 01/29] verification hook: zj_VERIFY_EXACT_ALLOC gives each
 arena request its own block

---
 zzzjson.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/zzzjson.h b/zzzjson.h
index 5134b61..92ea22f 100644
--- a/zzzjson.h
+++ b/zzzjson.h
@@ -525,6 +525,12 @@ static inline void zj_allocatorAppendChild(zj_Allocator *alloc,
 
 // 分配大小为size的内存
 static inline char *zj_allocatorAlloc(zj_Allocator *alloc, zj_Size size) {
+#ifdef zj_VERIFY_EXACT_ALLOC
+  // 仅用于验证：每次申请都对应一块独立的系统内存，便于检测越界
+  zj_allocatorAppendChild(alloc, size);
+  alloc->End->Pos = size;
+  return alloc->End->Data;
+#endif
   struct zj_aNode *cur_node = alloc->End;
   zj_Size s = cur_node->SizeOf;
   if (zj_UNLIKELY(cur_node->Pos + size > s)) {
-- 
2.43.0


From 71a27f943a86d8cc9fdb793fa6362a6488c9c35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:44 +0000
Subject: [PATCH 02/29] fix: zj_Move keeps the sibling links and the tail
 pointer of the old parent

Prev was cleared before it was used to update the next sibling's Prev and the
parent's End, so cutting a middle element broke later deletions and cutting
the last element made the next append dereference a null tail.
---
 zzzjson.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zzzjson.h b/zzzjson.h
index 92ea22f..a1de2d8 100644
--- a/zzzjson.h
+++ b/zzzjson.h
@@ -2182,14 +2182,14 @@ static inline bool zj_Move(zj_Value *v) {
       v->N->Father->Value.Node = v->N->Next;
     } else {
       v->N->Prev->Next = v->N->Next;
-      v->N->Prev = 0;
     }
     if (v->N->Next == 0) {
       v->N->Father->End = v->N->Prev;
     } else {
       v->N->Next->Prev = v->N->Prev;
-      v->N->Next = 0;
     }
+    v->N->Prev = 0;
+    v->N->Next = 0;
     --(v->N->Father->Len);
     v->N->Father = 0;
   }
-- 
2.43.0


From 947b3bd8797c09c91c0cff7f7aa846d021b0459c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:44 +0000
Subject: [PATCH 03/29] fix: zj_Set takes the tail pointer from the copy, not
 from the source

Appending to a container that was set from another one modified the source.
---
 zzzjson.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zzzjson.h b/zzzjson.h
index a1de2d8..f17b1d7 100644
--- a/zzzjson.h
+++ b/zzzjson.h
@@ -2634,7 +2634,7 @@ static inline bool zj_Set(zj_Value *v, const zj_Value *vv) {
   v->N->Value = cp->N->Value;
   v->N->Len = cp->N->Len;
   if (v->N->Type == zj_JSONTypeArray || v->N->Type == zj_JSONTypeObject) {
-    v->N->End = vv->N->End;
+    v->N->End = cp->N->End;
     struct zj_node *next = v->N->Value.Node;
     while (zj_LIKELY(next != 0)) {
       next->Father = v->N;
-- 
2.43.0


From c067aabf28efead675093de87aec7e1ade44dd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:44 +0000
Subject: [PATCH 04/29] fix: zj_Set, zj_ObjAdd and zj_ArrayAdd copy into the
 destination's allocator

The copy lived in the source's allocator, so releasing that allocator left the
destination document dangling.
---
 zzzjson.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/zzzjson.h b/zzzjson.h
index f17b1d7..c5d2e9d 100644
--- a/zzzjson.h
+++ b/zzzjson.h
@@ -2623,8 +2623,8 @@ static inline bool zj_SetFast(zj_Value *v, zj_Value *vv) {
 
 // 函数说明详见《API》
 static inline bool zj_Set(zj_Value *v, const zj_Value *vv) {
-  zj_Value *cp = zj_Copy(vv);
-  if (zj_UNLIKELY(cp == 0))
+  zj_Value *cp = zj_NewValue(v->A);
+  if (zj_UNLIKELY(zj_ValueCopyFrom(cp, vv) == false))
     return false;
   if (zj_UNLIKELY(v->N == 0)) {
     v->N = cp->N;
@@ -2681,8 +2681,8 @@ static inline bool zj_ObjAdd(zj_Value *v, const zj_Value *vv) {
     return false;
   if (zj_UNLIKELY(vv->N->Key == 0))
     return false;
-  zj_Value *cp = zj_Copy(vv);
-  if (zj_UNLIKELY(cp == 0))
+  zj_Value *cp = zj_NewValue(v->A);
+  if (zj_UNLIKELY(zj_ValueCopyFrom(cp, vv) == false))
     return false;
   cp->N->Father = v->N;
   if (zj_UNLIKELY(v->N->Value.Node == 0)) {
@@ -2728,8 +2728,8 @@ static inline bool zj_ArrayAdd(zj_Value *v, const zj_Value *vv) {
     return false;
   if (zj_UNLIKELY(v->N->Type != zj_JSONTypeArray))
     return false;
-  zj_Value *cp = zj_Copy(vv);
-  if (zj_UNLIKELY(cp == 0))
+  zj_Value *cp = zj_NewValue(v->A);
+  if (zj_UNLIKELY(zj_ValueCopyFrom(cp, vv) == false))
     return false;
   cp->N->Key = 0;
   cp->N->Father = v->N;
-- 
2.43.0


From 3faaa9a2d4257a5de229cc2d468ed4d9fa7af9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:44 +0000
Subject: [PATCH 05/29] fix: length-checked setters no longer share one static
 buffer

zj_stringCache was allocated in the first allocator that used it, written after
that allocator was released, and shared by all threads.
---
 zzzjson.h | 46 ++++++++++++++++------------------------------
 1 file changed, 16 insertions(+), 30 deletions(-)

diff --git a/zzzjson.h b/zzzjson.h
index c5d2e9d..f844bb4 100644
--- a/zzzjson.h
+++ b/zzzjson.h
@@ -561,8 +561,6 @@ struct zj_string {
   zj_Allocator *A;
 };
 
-static struct zj_string *zj_stringCache = 0;
-
 // 新建一个字符串
 static inline struct zj_string *zj_newString(zj_Allocator *alloc,
                                              zj_Size init_size) {
@@ -1277,20 +1275,14 @@ static inline bool zj_checkStr(const char *s, zj_Size *len) {
 // 较为省事的一种实现方法，后面会实现更高效的算法
 static inline bool zj_checkStrLen(zj_Allocator *alloc, const char *s,
                                   zj_Size len) {
-  if (zj_UNLIKELY(zj_stringCache == 0)) {
-    zj_stringCache = zj_newString(alloc, zj_StringCacheInitMemSize);
-  } else {
-    zj_reset(zj_stringCache);
-  }
-  zj_appendStr(zj_stringCache, s, len);
-  zj_appendEnd(zj_stringCache);
-  zj_Size avail_len;
-  if (zj_UNLIKELY(zj_checkStr(zj_str(zj_stringCache), &avail_len) == false)) {
-    return false;
-  }
-  if (zj_UNLIKELY(avail_len != len))
-    return false;
-  return true;
+  (void)alloc;
+  char *str = (char *)zj_new(len + 1);
+  zj_memCopy(s, len, str);
+  str[len] = 0;
+  zj_Size avail_len = 0;
+  bool ret = zj_checkStr(str, &avail_len) && avail_len == len;
+  zj_free((void *)str);
+  return ret;
 }
 
 // 消费一个数字
@@ -1394,20 +1386,14 @@ static inline bool zj_checkNum(const char *s, zj_Size *len) {
 }
 static inline bool zj_checkNumLen(zj_Allocator *alloc, const char *s,
                                   zj_Size len) {
-  if (zj_UNLIKELY(zj_stringCache == 0)) {
-    zj_stringCache = zj_newString(alloc, zj_StringCacheInitMemSize);
-  } else {
-    zj_reset(zj_stringCache);
-  }
-  zj_appendStr(zj_stringCache, s, len);
-  zj_appendEnd(zj_stringCache);
-  zj_Size avail_len;
-  if (zj_UNLIKELY(zj_checkNum(zj_str(zj_stringCache), &avail_len) == false)) {
-    return false;
-  }
-  if (zj_UNLIKELY(avail_len != len))
-    return false;
-  return true;
+  (void)alloc;
+  char *str = (char *)zj_new(len + 1);
+  zj_memCopy(s, len, str);
+  str[len] = 0;
+  zj_Size avail_len = 0;
+  bool ret = zj_checkNum(str, &avail_len) && avail_len == len;
+  zj_free((void *)str);
+  return ret;
 }
 
 // 函数说明详见《API》
-- 
2.43.0


From 7bf9637ac6249b6b5e904492929fa6f4bea7d3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:18 +0000
Subject: [PATCH 06/29] fix: numeric reads convert exactly the literal's own
 bytes

Literals of 128 bytes and more overflowed a stack buffer, and the long, long
long and double conversions read past the end of the literal.
---
 zzzjson.h | 45 +++++++++++++++++++++++++++++++++------------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/zzzjson.h b/zzzjson.h
index f844bb4..6f67b50 100644
--- a/zzzjson.h
+++ b/zzzjson.h
@@ -369,25 +369,46 @@ static inline zj_Size zj_strLen(const char *str) {
   return (zj_Size)strlen(str);
 }
 
-static inline int zj_strToInt(const char *str, zj_Size len) {
-  char s[128] = {0};
+// 把长度为len的数字拷贝成以0结尾的字符串，buff放不下时才分配内存
+static inline char *zj_numCopy(const char *str, zj_Size len, char *buff,
+                               zj_Size buff_size) {
+  char *s = len < buff_size ? buff : (char *)zj_new(len + 1);
   memcpy(s, str, len);
-  return atoi(s);
+  s[len] = 0;
+  return s;
+}
+
+static inline int zj_strToInt(const char *str, zj_Size len) {
+  char buff[128];
+  char *s = zj_numCopy(str, len, buff, sizeof(buff));
+  int ret = atoi(s);
+  if (zj_UNLIKELY(s != buff))
+    zj_free((void *)s);
+  return ret;
 }
 static inline long zj_strToLong(const char *str, zj_Size len) {
-  char s[128] = {0};
-  memcpy(s, str, len);
-  return atol(str);
+  char buff[128];
+  char *s = zj_numCopy(str, len, buff, sizeof(buff));
+  long ret = atol(s);
+  if (zj_UNLIKELY(s != buff))
+    zj_free((void *)s);
+  return ret;
 }
 static inline long long zj_strToLongLong(const char *str, zj_Size len) {
-  char s[128] = {0};
-  memcpy(s, str, len);
-  return atoll(str);
+  char buff[128];
+  char *s = zj_numCopy(str, len, buff, sizeof(buff));
+  long long ret = atoll(s);
+  if (zj_UNLIKELY(s != buff))
+    zj_free((void *)s);
+  return ret;
 }
 static inline double zj_strToDouble(const char *str, zj_Size len) {
-  char s[128] = {0};
-  memcpy(s, str, len);
-  return atof(str);
+  char buff[128];
+  char *s = zj_numCopy(str, len, buff, sizeof(buff));
+  double ret = atof(s);
+  if (zj_UNLIKELY(s != buff))
+    zj_free((void *)s);
+  return ret;
 }
 
 static inline zj_Size zj_intToStr(int n, char *buff) {
-- 
2.43.0


From 417c0f62e7a79a710f1dfff0117b33bb64f73911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:18 +0000
Subject: [PATCH 07/29] fix: string setters accept \uE000 to \uFFFF

The low-surrogate test in zj_checkStr had one digit too many.
---
 zzzjson.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zzzjson.h b/zzzjson.h
index 6f67b50..83048d0 100644
--- a/zzzjson.h
+++ b/zzzjson.h
@@ -1262,7 +1262,7 @@ static inline bool zj_checkStr(const char *s, zj_Size *len) {
         if (zj_LIKELY(zj_consumeHex(s, &index, &cp))) {
           // 这里是UTF16标准，可以参考网上相关资料
           // 搜索关键字 UNICODE
-          if (zj_UNLIKELY(cp >= 0xDC00 && cp <= 0xDFFFF))
+          if (zj_UNLIKELY(cp >= 0xDC00 && cp <= 0xDFFF))
             return false;
           if (zj_UNLIKELY(cp >= 0xD800 && cp <= 0xDBFF)) {
             if (zj_LIKELY(zj_likelyConsume('\\', s, &index) &&
-- 
2.43.0


From d7fc488a0490a9518da0fd1f3a25fc648b1b2c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:18 +0000
Subject: [PATCH 08/29] fix: zj_SetDouble and zj_SetNum refuse NaN and
 infinities

They stored nan or inf, so the document serialised to text that is not JSON.
---
 zzzjson.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zzzjson.h b/zzzjson.h
index 83048d0..5226f7a 100644
--- a/zzzjson.h
+++ b/zzzjson.h
@@ -2319,6 +2319,9 @@ static inline bool zj_SetNum(zj_Value *v, const double d) {
 static inline bool zj_SetDouble(zj_Value *v, const double d) {
   char *num = zj_allocatorAlloc(v->A, 32);
   zj_Size len = zj_doubleToStr(d, num);
+  // NaN和无穷大不是合法的JSON数字
+  if (zj_UNLIKELY(zj_checkNum(num, &len) == false))
+    return false;
   if (zj_UNLIKELY(v->N == 0)) {
     v->N = (struct zj_node *)zj_allocatorAlloc(v->A, sizeof(struct zj_node));
     v->N->Key = 0;
-- 
2.43.0


From 28ce5a1ad89c41503374a7752474810e5b32abb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:18 +0000
Subject: [PATCH 09/29] fix: true, false and null are matched without reading
 past the text

The four-byte loads read beyond the terminator of a text that ends inside such
a literal.
---
 zzzjson.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/zzzjson.h b/zzzjson.h
index 5226f7a..4af5bc3 100644
--- a/zzzjson.h
+++ b/zzzjson.h
@@ -857,7 +857,7 @@ static inline bool zj_unLikelyPeekAndConsume(const char c, const char *s,
 
 // 消费False
 static inline bool zj_consumeFalse(const char *s, zj_Size *index) {
-  if (zj_LIKELY(*((uint32_t *)("alse")) == *((uint32_t *)(s + *index)))) {
+  if (zj_LIKELY(strncmp("alse", s + *index, 4) == 0)) {
     *index += 4;
     return true;
   }
@@ -866,7 +866,7 @@ static inline bool zj_consumeFalse(const char *s, zj_Size *index) {
 
 // 消费True
 static inline bool zj_consumeTrue(const char *s, zj_Size *index) {
-  if (zj_LIKELY(*((uint32_t *)zj_strTrue) == *((uint32_t *)(s + *index - 1)))) {
+  if (zj_LIKELY(strncmp(zj_strTrue, s + *index - 1, 4) == 0)) {
     *index += 3;
     return true;
   }
@@ -875,7 +875,7 @@ static inline bool zj_consumeTrue(const char *s, zj_Size *index) {
 
 // 消费Null
 static inline bool zj_consumeNull(const char *s, zj_Size *index) {
-  if (zj_LIKELY(*((uint32_t *)zj_strNull) == *((uint32_t *)(s + *index - 1)))) {
+  if (zj_LIKELY(strncmp(zj_strNull, s + *index - 1, 4) == 0)) {
     *index += 3;
     return true;
   }
-- 
2.43.0


From e0cae1b32de051376600657abd9fd97ed11527bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:18 +0000
Subject: [PATCH 10/29] fix: zj_ParseLen refuses a text with a NUL byte

The text after the NUL was silently ignored.
---
 zzzjson.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zzzjson.h b/zzzjson.h
index 4af5bc3..d4e39c2 100644
--- a/zzzjson.h
+++ b/zzzjson.h
@@ -1733,6 +1733,9 @@ static inline bool zj_ParseFast(zj_Value *v, const char *s) {
 
 // 函数说明详见《API》
 static inline bool zj_ParseLen(zj_Value *v, const char *s, zj_Size len) {
+  // 文本中不允许出现0，否则后面的内容会被忽略
+  if (zj_UNLIKELY(memchr(s, 0, len) != 0))
+    return false;
   char *str = zj_allocatorAlloc(v->A, len + 1);
   zj_memCopy(s, len, str);
   str[len] = 0;
-- 
2.43.0


From 63a42c075328fb433ef780532c31abf69c6ddb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:18 +0000
Subject: [PATCH 11/29] fix: block growth stops at the size type's limit
 instead of overflowing

After enough doublings the block size wrapped to zero and the next allocation
looped for ever.
---
 zzzjson.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/zzzjson.h b/zzzjson.h
index d4e39c2..cbc3994 100644
--- a/zzzjson.h
+++ b/zzzjson.h
@@ -554,12 +554,17 @@ static inline char *zj_allocatorAlloc(zj_Allocator *alloc, zj_Size size) {
 #endif
   struct zj_aNode *cur_node = alloc->End;
   zj_Size s = cur_node->SizeOf;
-  if (zj_UNLIKELY(cur_node->Pos + size > s)) {
-    s *= zj_Delta;
+  if (zj_UNLIKELY(size > (zj_Size)(s - cur_node->Pos))) {
+    // 节点大小的上限，超过后不再增长，避免溢出
+    const zj_Size max = (zj_Size)((zj_Size)-1 - sizeof(struct zj_aNode));
+    const zj_Size limit = (zj_Size)(max / zj_Delta);
+    if (zj_LIKELY(s <= limit))
+      s *= zj_Delta;
     // 通过循环计算最终需要的空间大小
     // 这里应该有更好的方法，就是直接通过计算所得
     while (zj_UNLIKELY(size > s))
-      s *= zj_Delta; // 每次分配内存的大小是上次的zj_Delta倍
+      // 每次分配内存的大小是上次的zj_Delta倍
+      s = (zj_Size)(s <= limit ? s * zj_Delta : size);
     zj_allocatorAppendChild(alloc, s);
     cur_node = alloc->End;
   }
-- 
2.43.0


From a4add8b2b9fe0569b3d94e288c52df996b987d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:39 +0000
Subject: [PATCH 12/29] fix: surrogate pairs decode correctly with a 16-bit
 size type

The code point was computed in zj_Size and lost its high bits.
---
 zzzjson.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/zzzjson.h b/zzzjson.h
index cbc3994..27a01c5 100644
--- a/zzzjson.h
+++ b/zzzjson.h
@@ -962,7 +962,7 @@ static inline void zj_addLen(char *s, zj_Size *index, const char *str,
 }
 
 // 专为 zj_GetUnEscapeStr 使用，追加一个UTF8字符
-static inline void zj_addUTF8(char *s, zj_Size *index, zj_Size codepoint) {
+static inline void zj_addUTF8(char *s, zj_Size *index, uint32_t codepoint) {
   // UTF8的规则，具体请参考 UNICODE 相关文档
   if (codepoint <= 0x7F) {
     zj_add(s, index, (char)(codepoint & 0xFF));
@@ -1038,14 +1038,18 @@ static inline void zj_unEscapeStr(const char *str, zj_Size len, char *s) {
         index += 2;
         zj_Size cp = 0;
         zj_consumeHexForUnEscape(str, &index, &cp);
+        // zj_Size 可能只有16位，放不下代理对表示的码点
+        uint32_t codepoint = cp;
 
         if (zj_UNLIKELY(cp >= 0xD800 && cp <= 0xDBFF)) {
           zj_Size cp1 = 0;
           index += 2;
           zj_consumeHexForUnEscape(str, &index, &cp1);
-          cp = (((cp - 0xD800) << 10) | (cp1 - 0xDC00)) + 0x10000;
+          codepoint = ((((uint32_t)cp - 0xD800) << 10) |
+                       ((uint32_t)cp1 - 0xDC00)) +
+                      0x10000;
         }
-        zj_addUTF8(s, &s_index, cp);
+        zj_addUTF8(s, &s_index, codepoint);
         break;
       }
       }
-- 
2.43.0


From 3e65bd354ed661d909d44d341be18d8695b9cdeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:42 +0000
Subject: [PATCH 13/29] fix: beta: z_ValueMove keeps the sibling links and the
 tail pointer

---
 beta/zzzjson_beta.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beta/zzzjson_beta.h b/beta/zzzjson_beta.h
index af7ede7..cc35ff2 100644
--- a/beta/zzzjson_beta.h
+++ b/beta/zzzjson_beta.h
@@ -1886,14 +1886,14 @@ static inline z_BOOL z_ValueMove(struct z_Value *v) {
       v->N->Father->Value.Node = v->N->Next;
     } else {
       v->N->Prev->Next = v->N->Next;
-      v->N->Prev = 0;
     }
     if (v->N->Next == 0) {
       v->N->Father->End = v->N->Prev;
     } else {
       v->N->Next->Prev = v->N->Prev;
-      v->N->Next = 0;
     }
+    v->N->Prev = 0;
+    v->N->Next = 0;
     --(v->N->Father->Len);
     v->N->Father = 0;
   }
-- 
2.43.0


From 315dc2d89c1e77303669b66d15407fc8c1ad2180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:42 +0000
Subject: [PATCH 14/29] fix: beta: z_ValueSet takes the tail pointer from the
 copy, not from the source

---
 beta/zzzjson_beta.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beta/zzzjson_beta.h b/beta/zzzjson_beta.h
index cc35ff2..698bd5f 100644
--- a/beta/zzzjson_beta.h
+++ b/beta/zzzjson_beta.h
@@ -2285,7 +2285,7 @@ static inline z_BOOL z_ValueSet(struct z_Value *v, const struct z_Value *vv) {
   v->N->Value = cp->N->Value;
   v->N->Len = cp->N->Len;
   if (v->N->Type == z_JSONTYPEARRAY || v->N->Type == z_JSONTYPEOBJ) {
-    v->N->End = vv->N->End;
+    v->N->End = cp->N->End;
     struct z_Node *next = v->N->Value.Node;
     while (z_LIKELY(next != 0)) {
       next->Father = v->N;
-- 
2.43.0


From 7aab8a4d180b2e14022a7f9eee0f07cdff491913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:42 +0000
Subject: [PATCH 15/29] fix: beta: z_ValueSet, z_ValueObjAdd and
 z_ValueArrayAdd copy into the destination's allocator

---
 beta/zzzjson_beta.h | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/beta/zzzjson_beta.h b/beta/zzzjson_beta.h
index 698bd5f..fffef9f 100644
--- a/beta/zzzjson_beta.h
+++ b/beta/zzzjson_beta.h
@@ -1800,12 +1800,12 @@ static inline struct z_Value *z_ValueNext(const struct z_Value *v) {
   return 0;
 }
 
-// 函数说明详见《API》
-static inline struct z_Value *z_ValueCopy(const struct z_Value *v) {
+// 把v拷贝到分配器A中，非对外API
+static inline struct z_Value *z_ValueInnerCopy(const struct z_Value *v,
+                                               struct z_Allocator *const A) {
   if (z_UNLIKELY(v->N == 0))
     return 0;
-  struct z_Value *const ret_val = z_ValueNew(v->A);
-  struct z_Allocator *const A = v->A;
+  struct z_Value *const ret_val = z_ValueNew(A);
   ret_val->N = (struct z_Node *)z_AllocatorAlloc(A, sizeof(struct z_Node));
   ret_val->N->Prev = 0;
   ret_val->N->Next = 0;
@@ -1877,6 +1877,11 @@ static inline struct z_Value *z_ValueCopy(const struct z_Value *v) {
   return ret_val;
 }
 
+// 函数说明详见《API》
+static inline struct z_Value *z_ValueCopy(const struct z_Value *v) {
+  return z_ValueInnerCopy(v, v->A);
+}
+
 // 函数说明详见《API》
 static inline z_BOOL z_ValueMove(struct z_Value *v) {
   if (z_UNLIKELY(v->N == 0))
@@ -2269,7 +2274,7 @@ static inline z_BOOL z_ValueSetFast(struct z_Value *v, struct z_Value *vv) {
 
 // 函数说明详见《API》
 static inline z_BOOL z_ValueSet(struct z_Value *v, const struct z_Value *vv) {
-  struct z_Value *cp = z_ValueCopy(vv);
+  struct z_Value *cp = z_ValueInnerCopy(vv, v->A);
   if (z_UNLIKELY(cp == 0))
     return z_False;
   z_ValueInitCache(v);
@@ -2334,7 +2339,7 @@ static inline z_BOOL z_ValueObjAdd(struct z_Value *v,
     return z_False;
   if (z_UNLIKELY(vv->N->Key == 0))
     return z_False;
-  struct z_Value *cp = z_ValueCopy(vv);
+  struct z_Value *cp = z_ValueInnerCopy(vv, v->A);
   if (z_UNLIKELY(cp == 0))
     return z_False;
   cp->N->Father = v->N;
@@ -2384,7 +2389,7 @@ static inline z_BOOL z_ValueArrayAdd(struct z_Value *v,
     return z_False;
   if (z_UNLIKELY(v->N->Type != z_JSONTYPEARRAY))
     return z_False;
-  struct z_Value *cp = z_ValueCopy(vv);
+  struct z_Value *cp = z_ValueInnerCopy(vv, v->A);
   if (z_UNLIKELY(cp == 0))
     return z_False;
   cp->N->Key = 0;
-- 
2.43.0


From d4e5674511e2427faad619ba20a78998b9853769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:42 +0000
Subject: [PATCH 16/29] fix: beta: length-checked setters no longer share one
 static buffer

---
 beta/zzzjson_beta.h | 48 +++++++++++++++------------------------------
 1 file changed, 16 insertions(+), 32 deletions(-)

diff --git a/beta/zzzjson_beta.h b/beta/zzzjson_beta.h
index fffef9f..449a879 100644
--- a/beta/zzzjson_beta.h
+++ b/beta/zzzjson_beta.h
@@ -486,8 +486,6 @@ struct z_String {
   struct z_Allocator *A;
 };
 
-static z_String *z_StringCache = 0;
-
 // 新建一个字符串
 static inline struct z_String *z_StringNew(struct z_Allocator *alloc,
                                            z_SIZE init_size) {
@@ -998,21 +996,14 @@ static inline z_BOOL z_CheckStr(const char *s, z_SIZE *len) {
 }
 static inline z_BOOL z_CheckStrLen(struct z_Allocator *alloc, const char *s,
                                    z_SIZE len) {
-  if (z_UNLIKELY(z_StringCache == 0)) {
-    z_StringCache = z_StringNew(alloc, z_StringCacheInitMemSize);
-  } else {
-    z_StringReset(z_StringCache);
-  }
-  z_StringAppendStr(z_StringCache, s, len);
-  z_StringAppendEnd(z_StringCache);
-  z_SIZE avail_len;
-  if (z_UNLIKELY(z_CheckStr(z_StringStr(z_StringCache), &avail_len) ==
-                 z_False)) {
-    return z_False;
-  }
-  if (z_UNLIKELY(avail_len != len))
-    return z_False;
-  return z_True;
+  (void)alloc;
+  char *str = (char *)z_New(len + 1);
+  z_Copy(s, len, str);
+  str[len] = 0;
+  z_SIZE avail_len = 0;
+  z_BOOL ret = z_CheckStr(str, &avail_len) && avail_len == len;
+  z_Free((void *)str);
+  return ret;
 }
 
 // 消费一个数字
@@ -1115,21 +1106,14 @@ static inline z_BOOL z_CheckNum(const char *s, z_SIZE *len) {
 }
 static inline z_BOOL z_CheckNumLen(struct z_Allocator *alloc, const char *s,
                                    z_SIZE len) {
-  if (z_UNLIKELY(z_StringCache == 0)) {
-    z_StringCache = z_StringNew(alloc, z_StringCacheInitMemSize);
-  } else {
-    z_StringReset(z_StringCache);
-  }
-  z_StringAppendStr(z_StringCache, s, len);
-  z_StringAppendEnd(z_StringCache);
-  z_SIZE avail_len;
-  if (z_UNLIKELY(z_CheckNum(z_StringStr(z_StringCache), &avail_len) ==
-                 z_False)) {
-    return z_False;
-  }
-  if (z_UNLIKELY(avail_len != len))
-    return z_False;
-  return z_True;
+  (void)alloc;
+  char *str = (char *)z_New(len + 1);
+  z_Copy(s, len, str);
+  str[len] = 0;
+  z_SIZE avail_len = 0;
+  z_BOOL ret = z_CheckNum(str, &avail_len) && avail_len == len;
+  z_Free((void *)str);
+  return ret;
 }
 
 // 函数说明详见《API》
-- 
2.43.0


From 0a1ccd55c092af3474f0ee3f70db35240835c9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:42 +0000
Subject: [PATCH 17/29] fix: beta: string setters accept \uE000 to \uFFFF

---
 beta/zzzjson_beta.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beta/zzzjson_beta.h b/beta/zzzjson_beta.h
index 449a879..41d6a71 100644
--- a/beta/zzzjson_beta.h
+++ b/beta/zzzjson_beta.h
@@ -963,7 +963,7 @@ static inline z_BOOL z_CheckStr(const char *s, z_SIZE *len) {
         if (z_LIKELY(z_ConsumeHex(s, &index, &cp))) {
           // 这里是UTF16标准，可以参考网上相关资料
           // 搜索关键字 UNICODE
-          if (z_UNLIKELY(cp >= 0xDC00 && cp <= 0xDFFFF))
+          if (z_UNLIKELY(cp >= 0xDC00 && cp <= 0xDFFF))
             return z_False;
           if (z_UNLIKELY(cp >= 0xD800 && cp <= 0xDBFF)) {
             if (z_LIKELY(z_LikelyConsume('\\', s, &index) &&
-- 
2.43.0


From 52bf992e139482bd87aaa630c224d658594c5656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:42 +0000
Subject: [PATCH 18/29] fix: beta: true, false and null are matched without
 reading past the text

---
 beta/zzzjson_beta.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/beta/zzzjson_beta.h b/beta/zzzjson_beta.h
index 41d6a71..edb57f3 100644
--- a/beta/zzzjson_beta.h
+++ b/beta/zzzjson_beta.h
@@ -685,7 +685,7 @@ static inline z_BOOL z_UnLikelyPeekAndConsume(const char c, const char *s,
 
 // 消费False
 static inline z_BOOL z_ConsumeFalse(const char *s, z_SIZE *index) {
-  if (z_LIKELY(*((z_SIZE *)("alse")) == *((z_SIZE *)(s + *index)))) {
+  if (z_LIKELY(strncmp("alse", s + *index, 4) == 0)) {
     *index += 4;
     return z_True;
   }
@@ -694,7 +694,7 @@ static inline z_BOOL z_ConsumeFalse(const char *s, z_SIZE *index) {
 
 // 消费True
 static inline z_BOOL z_ConsumeTrue(const char *s, z_SIZE *index) {
-  if (z_LIKELY(*((z_SIZE *)z_StrTrue) == *((z_SIZE *)(s + *index - 1)))) {
+  if (z_LIKELY(strncmp(z_StrTrue, s + *index - 1, 4) == 0)) {
     *index += 3;
     return z_True;
   }
@@ -703,7 +703,7 @@ static inline z_BOOL z_ConsumeTrue(const char *s, z_SIZE *index) {
 
 // 消费Null
 static inline z_BOOL z_ConsumeNull(const char *s, z_SIZE *index) {
-  if (z_LIKELY(*((z_SIZE *)z_StrNull) == *((z_SIZE *)(s + *index - 1)))) {
+  if (z_LIKELY(strncmp(z_StrNull, s + *index - 1, 4) == 0)) {
     *index += 3;
     return z_True;
   }
-- 
2.43.0


From 8c1b8bc6f3462eefdccaea56ef9730c55f498713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:42 +0000
Subject: [PATCH 19/29] fix: beta: z_ValueParseLen parses its own copy, and
 refuses a NUL byte

It ignored the length and kept pointers into the caller's buffer.
---
 beta/zzzjson_beta.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/beta/zzzjson_beta.h b/beta/zzzjson_beta.h
index edb57f3..2a3f469 100644
--- a/beta/zzzjson_beta.h
+++ b/beta/zzzjson_beta.h
@@ -1431,10 +1431,13 @@ static inline z_BOOL z_ValueParseFast(struct z_Value *v, const char *s) {
 // 函数说明详见《API》
 static inline z_BOOL z_ValueParseLen(struct z_Value *v, const char *s,
                                      z_SIZE len) {
+  // 文本中不允许出现0，否则后面的内容会被忽略
+  if (z_UNLIKELY(memchr(s, 0, len) != 0))
+    return z_False;
   char *str = z_AllocatorAlloc(v->A, len + 1);
   z_Copy(s, len, str);
   str[len] = 0;
-  return z_ValueParseFast(v, s);
+  return z_ValueParseFast(v, str);
 }
 
 // 函数说明详见《API》
-- 
2.43.0


From 805d869884a65faee36ecad0febec1601de8cacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:42 +0000
Subject: [PATCH 20/29] fix: beta: reads no longer return results cached before
 another handle changed the value

The per-handle caches were only cleared by edits through the same handle.
---
 beta/zzzjson_beta.h | 61 ---------------------------------------------
 1 file changed, 61 deletions(-)

diff --git a/beta/zzzjson_beta.h b/beta/zzzjson_beta.h
index 2a3f469..f999829 100644
--- a/beta/zzzjson_beta.h
+++ b/beta/zzzjson_beta.h
@@ -576,30 +576,14 @@ struct z_Node {
 struct z_Value {
   struct z_Node *N;
   struct z_Allocator *A;
-  const char *CacheStr;
-  union {
-    const char *UnEscapeStr;
-    const double *Num;
-  } Cache;
-  const char *CacheKey;
-  const char *CacheUnEscapeKey;
 };
 
-// 把Cache置零的函数
-static inline void z_ValueInitCache(struct z_Value *v) {
-  v->CacheStr = 0;
-  v->Cache.UnEscapeStr = 0;
-  v->CacheKey = 0;
-  v->CacheUnEscapeKey = 0;
-}
-
 // 函数说明详见《API》
 static inline struct z_Value *z_ValueNew(struct z_Allocator *alloc) {
   struct z_Value *v =
       (struct z_Value *)z_AllocatorAlloc(alloc, sizeof(struct z_Value));
   v->A = alloc;
   v->N = 0;
-  z_ValueInitCache(v);
   return v;
 }
 
@@ -610,7 +594,6 @@ static inline struct z_Value *z_ValueInnerNew(struct z_Allocator *alloc,
       (struct z_Value *)z_AllocatorAlloc(alloc, sizeof(struct z_Value));
   v->A = alloc;
   v->N = n;
-  z_ValueInitCache(v);
   return v;
 }
 
@@ -1118,8 +1101,6 @@ static inline z_BOOL z_CheckNumLen(struct z_Allocator *alloc, const char *s,
 
 // 函数说明详见《API》
 static inline z_BOOL z_ValueParseFast(struct z_Value *v, const char *s) {
-  z_ValueInitCache(v);
-
   struct z_Node *src_node;
   if (z_LIKELY(v->N == 0)) {
     v->N = (struct z_Node *)z_AllocatorAlloc(v->A, sizeof(struct z_Node));
@@ -1549,12 +1530,9 @@ static inline const char *z_ValueGetString(struct z_Value *v) {
     return 0;
   if (z_UNLIKELY(v->N->Type != z_JSONTYPESTRING))
     return 0;
-  if (z_UNLIKELY(v->CacheStr != 0))
-    return v->CacheStr;
   char *str = z_AllocatorAlloc(v->A, v->N->Len + 1);
   z_Copy(v->N->Value.Str, v->N->Len, str);
   str[v->N->Len] = 0;
-  v->CacheStr = str;
   return str;
 }
 
@@ -1564,13 +1542,10 @@ static inline const char *z_ValueGetUnEscapeString(struct z_Value *v) {
     return 0;
   if (z_UNLIKELY(v->N->Type != z_JSONTYPESTRING))
     return 0;
-  if (z_UNLIKELY(v->Cache.UnEscapeStr != 0))
-    return v->Cache.UnEscapeStr;
   // 因为值里面的字符串一定是合法的字符串，因此，可以简化
   // 因为解码后的字符串一定比解码前短，所以申请原字符串+1的长度即可
   char *ret_str = z_AllocatorAlloc(v->A, v->N->Len + 1);
   z_UnEscapeString(v->N->Value.Str, v->N->Len, ret_str);
-  v->Cache.UnEscapeStr = ret_str;
   return ret_str;
 }
 
@@ -1591,12 +1566,9 @@ static inline const char *z_ValueGetNumStr(struct z_Value *v) {
     return 0;
   if (z_UNLIKELY(v->N->Type != z_JSONTYPENUM))
     return 0;
-  if (z_UNLIKELY(v->CacheStr != 0))
-    return v->CacheStr;
   char *str = z_AllocatorAlloc(v->A, v->N->Len + 1);
   z_Copy(v->N->Value.Str, v->N->Len, str);
   str[v->N->Len] = 0;
-  v->CacheStr = str;
   return str;
 }
 
@@ -1606,11 +1578,8 @@ static inline const double *z_ValueGetNum(struct z_Value *v) {
     return 0;
   if (z_UNLIKELY(v->N->Type != z_JSONTYPENUM))
     return 0;
-  if (z_UNLIKELY(v->Cache.Num != 0))
-    return v->Cache.Num;
   double *d = (double *)z_AllocatorAlloc(v->A, sizeof(d) / sizeof(char));
   *d = z_StrToDouble(v->N->Value.Str);
-  v->Cache.Num = d;
   return d;
 }
 
@@ -1640,14 +1609,9 @@ static inline const char *z_ValueGetKey(struct z_Value *v) {
     return 0;
   if (z_UNLIKELY(v->N->Key == 0))
     return 0;
-
-  if (z_UNLIKELY(v->CacheKey != 0))
-    return v->CacheKey;
-
   char *str = z_AllocatorAlloc(v->A, v->N->KeyLen + 1);
   z_Copy(v->N->Key, v->N->KeyLen, str);
   str[v->N->KeyLen] = 0;
-  v->CacheKey = str;
   return str;
 }
 
@@ -1656,12 +1620,8 @@ static inline const char *z_ValueGetUnEscapeKey(struct z_Value *v) {
     return 0;
   if (z_UNLIKELY(v->N->Key == 0))
     return 0;
-
-  if (z_UNLIKELY(v->CacheUnEscapeKey != 0))
-    return v->CacheUnEscapeKey;
   char *str = z_AllocatorAlloc(v->A, v->N->KeyLen + 1);
   z_UnEscapeString(v->N->Key, v->N->KeyLen, str);
-  v->CacheUnEscapeKey = str;
   return str;
 }
 
@@ -1894,7 +1854,6 @@ static inline z_BOOL z_ValueMove(struct z_Value *v) {
 
 // 函数说明详见《API》
 static inline void z_ValueSetNull(struct z_Value *v) {
-  z_ValueInitCache(v);
   if (z_UNLIKELY(v->N == 0)) {
     v->N = (struct z_Node *)z_AllocatorAlloc(v->A, sizeof(struct z_Node));
     v->N->Key = 0;
@@ -1909,7 +1868,6 @@ static inline void z_ValueSetNull(struct z_Value *v) {
 
 // 函数说明详见《API》
 static inline void z_ValueSetBool(struct z_Value *v, z_BOOL b) {
-  z_ValueInitCache(v);
   if (z_UNLIKELY(v->N == 0)) {
     v->N = (struct z_Node *)z_AllocatorAlloc(v->A, sizeof(struct z_Node));
     v->N->Key = 0;
@@ -1932,7 +1890,6 @@ static inline z_BOOL z_ValueSetNumStrFast(struct z_Value *v, const char *num) {
   z_SIZE len = 0;
   if (z_UNLIKELY(z_CheckNum(num, &len) == z_False))
     return z_False;
-  z_ValueInitCache(v);
   if (z_UNLIKELY(v->N == 0)) {
     v->N = (struct z_Node *)z_AllocatorAlloc(v->A, sizeof(struct z_Node));
     v->N->Key = 0;
@@ -1951,7 +1908,6 @@ static inline z_BOOL z_ValueSetNumStrLenFast(struct z_Value *v, const char *num,
                                              z_SIZE len) {
   if (z_UNLIKELY(z_CheckNumLen(v->A, num, len) == z_False))
     return z_False;
-  z_ValueInitCache(v);
   if (z_UNLIKELY(v->N == 0)) {
     v->N = (struct z_Node *)z_AllocatorAlloc(v->A, sizeof(struct z_Node));
     v->N->Key = 0;
@@ -1970,7 +1926,6 @@ static inline z_BOOL z_ValueSetNumStr(struct z_Value *v, const char *num) {
   z_SIZE len = 0;
   if (z_UNLIKELY(z_CheckNum(num, &len) == z_False))
     return z_False;
-  z_ValueInitCache(v);
   char *s = z_AllocatorAlloc(v->A, len);
   z_Copy(num, len, s);
   if (z_UNLIKELY(v->N == 0)) {
@@ -1991,7 +1946,6 @@ static inline z_BOOL z_ValueSetNumStrLen(struct z_Value *v, const char *num,
                                          z_SIZE len) {
   if (z_UNLIKELY(z_CheckNumLen(v->A, num, len) == z_False))
     return z_False;
-  z_ValueInitCache(v);
   char *s = z_AllocatorAlloc(v->A, len);
   z_Copy(num, len, s);
   if (z_UNLIKELY(v->N == 0)) {
@@ -2021,7 +1975,6 @@ static inline z_BOOL z_ValueSetStrFast(struct z_Value *v, const char *str) {
   z_SIZE len = 0;
   if (z_UNLIKELY(z_CheckStr(str, &len) == z_False))
     return z_False;
-  z_ValueInitCache(v);
   if (z_UNLIKELY(v->N == 0)) {
     v->N = (struct z_Node *)z_AllocatorAlloc(v->A, sizeof(struct z_Node));
     v->N->Key = 0;
@@ -2040,7 +1993,6 @@ static inline z_BOOL z_ValueSetStrLenFast(struct z_Value *v, const char *str,
                                           z_SIZE len) {
   if (z_UNLIKELY(z_CheckStrLen(v->A, str, len) == z_False))
     return z_False;
-  z_ValueInitCache(v);
   if (z_UNLIKELY(v->N == 0)) {
     v->N = (struct z_Node *)z_AllocatorAlloc(v->A, sizeof(struct z_Node));
     v->N->Key = 0;
@@ -2060,7 +2012,6 @@ static inline z_BOOL z_ValueSetStr(struct z_Value *v, const char *str) {
   z_SIZE len = 0;
   if (z_UNLIKELY(z_CheckStr(str, &len) == z_False))
     return z_False;
-  z_ValueInitCache(v);
   char *s = z_AllocatorAlloc(v->A, len);
   z_Copy(str, len, s);
   if (z_UNLIKELY(v->N == 0)) {
@@ -2081,7 +2032,6 @@ static inline z_BOOL z_ValueSetStrLen(struct z_Value *v, const char *str,
                                       z_SIZE len) {
   if (z_UNLIKELY(z_CheckStrLen(v->A, str, len) == z_False))
     return z_False;
-  z_ValueInitCache(v);
   char *s = z_AllocatorAlloc(v->A, len);
   z_Copy(str, len, s);
   if (z_UNLIKELY(v->N == 0)) {
@@ -2115,7 +2065,6 @@ static inline z_BOOL z_ValueSetKeyFast(struct z_Value *v, const char *key) {
              z_UNLIKELY(v->N->Father->Type != z_JSONTYPEOBJ)) {
     return z_False;
   }
-  z_ValueInitCache(v);
   v->N->Key = key;
   v->N->KeyLen = len;
   return z_True;
@@ -2139,7 +2088,6 @@ static inline z_BOOL z_ValueSetKeyLenFast(struct z_Value *v, const char *key,
              z_UNLIKELY(v->N->Father->Type != z_JSONTYPEOBJ)) {
     return z_False;
   }
-  z_ValueInitCache(v);
   v->N->Key = key;
   v->N->KeyLen = len;
   return z_True;
@@ -2163,7 +2111,6 @@ static inline z_BOOL z_ValueSetKey(struct z_Value *v, const char *key) {
              z_UNLIKELY(v->N->Father->Type != z_JSONTYPEOBJ)) {
     return z_False;
   }
-  z_ValueInitCache(v);
   char *s = z_AllocatorAlloc(v->A, len);
   z_Copy(key, len, s);
   v->N->Key = s;
@@ -2189,7 +2136,6 @@ static inline z_BOOL z_ValueSetKeyLen(struct z_Value *v, const char *key,
              z_UNLIKELY(v->N->Father->Type != z_JSONTYPEOBJ)) {
     return z_False;
   }
-  z_ValueInitCache(v);
   char *s = z_AllocatorAlloc(v->A, len);
   z_Copy(key, len, s);
   v->N->Key = s;
@@ -2199,7 +2145,6 @@ static inline z_BOOL z_ValueSetKeyLen(struct z_Value *v, const char *key,
 
 // 函数说明详见《API》
 static inline void z_ValueSetArray(struct z_Value *v) {
-  z_ValueInitCache(v);
   if (z_UNLIKELY(v->N == 0)) {
     v->N = (struct z_Node *)z_AllocatorAlloc(v->A, sizeof(struct z_Node));
     v->N->Key = 0;
@@ -2215,7 +2160,6 @@ static inline void z_ValueSetArray(struct z_Value *v) {
 
 // 函数说明详见《API》
 static inline void z_ValueSetObj(struct z_Value *v) {
-  z_ValueInitCache(v);
   if (z_UNLIKELY(v->N == 0)) {
     v->N = (struct z_Node *)z_AllocatorAlloc(v->A, sizeof(struct z_Node));
     v->N->Key = 0;
@@ -2233,8 +2177,6 @@ static inline void z_ValueSetObj(struct z_Value *v) {
 static inline z_BOOL z_ValueSetFast(struct z_Value *v, struct z_Value *vv) {
   if (z_UNLIKELY(z_ValueMove(vv) == z_False))
     return z_False;
-  z_ValueInitCache(v);
-  z_ValueInitCache(vv);
   if (z_UNLIKELY(v->N == 0)) {
     v->N = vv->N;
     vv->N = 0;
@@ -2264,7 +2206,6 @@ static inline z_BOOL z_ValueSet(struct z_Value *v, const struct z_Value *vv) {
   struct z_Value *cp = z_ValueInnerCopy(vv, v->A);
   if (z_UNLIKELY(cp == 0))
     return z_False;
-  z_ValueInitCache(v);
   if (z_UNLIKELY(v->N == 0)) {
     v->N = cp->N;
     return z_True;
@@ -2299,7 +2240,6 @@ static inline z_BOOL z_ValueObjAddFast(struct z_Value *v, struct z_Value *vv) {
     return z_False;
   if (z_UNLIKELY(z_ValueMove(vv) == z_False))
     return z_False;
-  z_ValueInitCache(vv);
   vv->N->Father = v->N;
   if (z_UNLIKELY(v->N->Value.Node == 0)) {
     v->N->Value.Node = vv->N;
@@ -2352,7 +2292,6 @@ static inline z_BOOL z_ValueArrayAddFast(struct z_Value *v,
     return z_False;
   if (z_UNLIKELY(z_ValueMove(vv) == z_False))
     return z_False;
-  z_ValueInitCache(vv);
   vv->N->Key = 0;
   vv->N->Father = v->N;
   if (z_UNLIKELY(v->N->Value.Node == 0)) {
-- 
2.43.0


From b7070b6e3b026f17f0f4aadfdbf296fd35076507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:42 +0000
Subject: [PATCH 21/29] fix: beta: z_ValueGetNum converts exactly the literal's
 own bytes

---
 beta/zzzjson_beta.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/beta/zzzjson_beta.h b/beta/zzzjson_beta.h
index f999829..78873e9 100644
--- a/beta/zzzjson_beta.h
+++ b/beta/zzzjson_beta.h
@@ -353,7 +353,16 @@ static inline void z_Copy(const char *src, z_SIZE len, char *des) {
 // 字符串长度计算函数
 static inline z_SIZE z_StrLen(const char *str) { return (z_SIZE)strlen(str); }
 
-static inline double z_StrToDouble(const char *str) { return atof(str); }
+static inline double z_StrToDouble(const char *str, z_SIZE len) {
+  char buff[128];
+  char *s = len < sizeof(buff) ? buff : (char *)z_New(len + 1);
+  memcpy(s, str, len);
+  s[len] = 0;
+  double ret = atof(s);
+  if (z_UNLIKELY(s != buff))
+    z_Free((void *)s);
+  return ret;
+}
 
 static inline void z_DoubleToStr(double d, char *buff) {
   sprintf(buff, "%.17g", d);
@@ -1579,7 +1588,7 @@ static inline const double *z_ValueGetNum(struct z_Value *v) {
   if (z_UNLIKELY(v->N->Type != z_JSONTYPENUM))
     return 0;
   double *d = (double *)z_AllocatorAlloc(v->A, sizeof(d) / sizeof(char));
-  *d = z_StrToDouble(v->N->Value.Str);
+  *d = z_StrToDouble(v->N->Value.Str, v->N->Len);
   return d;
 }
 
-- 
2.43.0


From 742e2cfe113ffdc2718db326c2f2ec2146610d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:42 +0000
Subject: [PATCH 22/29] fix: beta: block growth stops at the size type's limit
 instead of overflowing

---
 beta/zzzjson_beta.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/beta/zzzjson_beta.h b/beta/zzzjson_beta.h
index 78873e9..08b0c79 100644
--- a/beta/zzzjson_beta.h
+++ b/beta/zzzjson_beta.h
@@ -467,12 +467,16 @@ static inline void z_AllocatorAppendChild(z_SIZE init_size,
 static inline char *z_AllocatorAlloc(struct z_Allocator *alloc, z_SIZE size) {
   struct z_ANode *cur_node = alloc->End;
   z_SIZE s = cur_node->Size;
-  if (z_UNLIKELY(cur_node->Pos + size > s)) {
-    s *= z_Delta;
+  if (z_UNLIKELY(size > s - cur_node->Pos)) {
+    // 节点大小的上限，超过后不再增长，避免溢出
+    const z_SIZE limit =
+        (z_SIZE)((z_SIZE)-1 - sizeof(struct z_ANode)) / z_Delta;
+    if (z_LIKELY(s <= limit))
+      s *= z_Delta;
     // 通过循环计算最终需要的空间大小
     // 这里应该有更好的方法，就是直接通过计算所得
     while (z_UNLIKELY(size > s))
-      s *= z_Delta;
+      s = s <= limit ? s * z_Delta : size;
     z_AllocatorAppendChild(s, alloc);
     cur_node = alloc->End;
   }
-- 
2.43.0


From b557b8f335a08c64bc54223d6e3a1723e8b8da74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:42 +0000
Subject: [PATCH 23/29] fix: the Go package compiles again

It called C names that zzzjson.h no longer has.
---
 zzzjson.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zzzjson.go b/zzzjson.go
index e551554..dad9627 100644
--- a/zzzjson.go
+++ b/zzzjson.go
@@ -54,7 +54,7 @@ func NewAllocator() *Allocator {
 ReleaseAllocator free an allocator
 */
 func (allocator *Allocator) ReleaseAllocator() {
-	C.zj_AllocatorRelease(allocator.A)
+	C.zj_ReleaseAllocator(allocator.A)
 }
 
 /*
@@ -440,7 +440,7 @@ func (v *Value) ObjDel(key string) bool {
 ArrayDel delete an value of array where index == index
 */
 func (v *Value) ArrayDel(index JSONSize) bool {
-	ret := C.zj_ArrayDel(v.V, C.zj_SIZE(index))
+	ret := C.zj_ArrayDel(v.V, C.zj_Size(index))
 	if ret == true {
 		return true
 	}
-- 
2.43.0


From 0cb65cf3b040b33640813bd4d4bbe3ea3da56f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:40 +0000
Subject: [PATCH 24/29] verification hook: beta: zj_VERIFY_EXACT_ALLOC gives
 each arena request its own block

---
 beta/zzzjson_beta.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/beta/zzzjson_beta.h b/beta/zzzjson_beta.h
index 08b0c79..6b59e67 100644
--- a/beta/zzzjson_beta.h
+++ b/beta/zzzjson_beta.h
@@ -465,6 +465,12 @@ static inline void z_AllocatorAppendChild(z_SIZE init_size,
 
 // 函数说明详见《API》
 static inline char *z_AllocatorAlloc(struct z_Allocator *alloc, z_SIZE size) {
+#ifdef zj_VERIFY_EXACT_ALLOC
+  // 仅用于验证：每次申请都对应一块独立的系统内存，便于检测越界
+  z_AllocatorAppendChild(size, alloc);
+  alloc->End->Pos = size;
+  return alloc->End->Data;
+#endif
   struct z_ANode *cur_node = alloc->End;
   z_SIZE s = cur_node->Size;
   if (z_UNLIKELY(size > s - cur_node->Pos)) {
-- 
2.43.0


From 3537dacb6e2a44529640d0f387698e473a8201a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:50 +0000
Subject: [PATCH 25/29] fix: Stringify's buffer growth stops at the size type's
 limit instead of overflowing

---
 zzzjson.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/zzzjson.h b/zzzjson.h
index 27a01c5..67b79bc 100644
--- a/zzzjson.h
+++ b/zzzjson.h
@@ -602,14 +602,22 @@ static inline struct zj_string *zj_newString(zj_Allocator *alloc,
 // 清空一个字符串
 static inline void zj_reset(struct zj_string *str) { str->Pos = 0; }
 
+// 扩容后的大小，不超过节点大小的上限，避免溢出
+static inline zj_Size zj_growSize(zj_Size s) {
+  const zj_Size max = (zj_Size)((zj_Size)-1 - sizeof(struct zj_aNode));
+  if (zj_LIKELY(s <= max / zj_Delta))
+    return (zj_Size)(s * zj_Delta);
+  return (zj_Size)(s <= max / 2 ? s * 2 : max);
+}
+
 // 追加字符串
 static inline void zj_appendStr(struct zj_string *str, const char *s,
                                 zj_Size size) {
   zj_Size src_s = str->SizeOf;
   if (zj_UNLIKELY(str->Pos + size > src_s)) {
-    src_s *= zj_Delta;
+    src_s = zj_growSize(src_s);
     while (zj_UNLIKELY(str->Pos + size > src_s))
-      src_s *= zj_Delta;
+      src_s = zj_growSize(src_s);
     const char *src_d = str->Data;
     str->Data = (char *)zj_allocatorAlloc(str->A, src_s);
     str->SizeOf = src_s;
@@ -623,7 +631,7 @@ static inline void zj_appendStr(struct zj_string *str, const char *s,
 static inline void zj_appendChar(struct zj_string *str, const char c) {
   zj_Size src_s = str->SizeOf;
   if (zj_UNLIKELY(str->Pos + 1 > src_s)) {
-    src_s *= zj_Delta;
+    src_s = zj_growSize(src_s);
     const char *src_d = str->Data;
     str->Data = (char *)zj_allocatorAlloc(str->A, src_s);
     str->SizeOf = src_s;
-- 
2.43.0


From 5f373597089e5465453a4dd3d318426427b2ed65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:50 +0000
Subject: [PATCH 26/29] fix: beta: z_ValueStringify's buffer growth stops at
 the size type's limit instead of overflowing

---
 beta/zzzjson_beta.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/beta/zzzjson_beta.h b/beta/zzzjson_beta.h
index 6b59e67..986758a 100644
--- a/beta/zzzjson_beta.h
+++ b/beta/zzzjson_beta.h
@@ -520,14 +520,22 @@ static inline struct z_String *z_StringNew(struct z_Allocator *alloc,
 // 清空一个字符串
 static inline void z_StringReset(struct z_String *str) { str->Pos = 0; }
 
+// 扩容后的大小，不超过节点大小的上限，避免溢出
+static inline z_SIZE z_GrowSize(z_SIZE s) {
+  const z_SIZE max = (z_SIZE)((z_SIZE)-1 - sizeof(struct z_ANode));
+  if (z_LIKELY(s <= max / z_Delta))
+    return s * z_Delta;
+  return s <= max / 2 ? s * 2 : max;
+}
+
 // 追加字符串
 static inline void z_StringAppendStr(struct z_String *str, const char *s,
                                      z_SIZE size) {
   z_SIZE src_s = str->Size;
   if (z_UNLIKELY(str->Pos + size > src_s)) {
-    src_s *= z_Delta;
+    src_s = z_GrowSize(src_s);
     while (z_UNLIKELY(str->Pos + size > src_s))
-      src_s *= z_Delta;
+      src_s = z_GrowSize(src_s);
     const char *src_d = str->Data;
     str->Data = (char *)z_AllocatorAlloc(str->A, src_s);
     str->Size = src_s;
@@ -541,7 +549,7 @@ static inline void z_StringAppendStr(struct z_String *str, const char *s,
 static inline void z_StringAppendChar(struct z_String *str, const char c) {
   z_SIZE src_s = str->Size;
   if (z_UNLIKELY(str->Pos + 1 > src_s)) {
-    src_s *= z_Delta;
+    src_s = z_GrowSize(src_s);
     const char *src_d = str->Data;
     str->Data = (char *)z_AllocatorAlloc(str->A, src_s);
     str->Size = src_s;
-- 
2.43.0


From 070a64337b9c4d6845d10787f2ed3cbdcf81ed53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:47 +0000
Subject: [PATCH 27/29] fix: the Go binding frees the C strings it makes

Every call that takes a Go string left its C.CString behind, and the in-place C calls kept pointing at it, so
nothing ever freed it. Use the copying calls and free the string when the call returns.
---
 zzzjson.go | 37 +++++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/zzzjson.go b/zzzjson.go
index dad9627..d110cd9 100644
--- a/zzzjson.go
+++ b/zzzjson.go
@@ -4,11 +4,16 @@ package zzzjson
 #cgo CFLAGS: -Wall -O3
 #define zj_SHORT_API 0
 #include "zzzjson.h"
+#include <stdlib.h>
 */
 import (
 	"C"
 )
 
+import (
+	"unsafe"
+)
+
 /*
 JSONSize Size for zzzJSON
 */
@@ -77,7 +82,9 @@ func NewValue(allocator *Allocator) *Value {
 Parse Parse JSON text to value
 */
 func (v *Value) Parse(s string) bool {
-	ret := C.zj_ParseFast(v.V, C.CString(s))
+	cs := C.CString(s)
+	defer C.free(unsafe.Pointer(cs))
+	ret := C.zj_Parse(v.V, cs)
 	if ret != true {
 		return false
 	}
@@ -198,7 +205,9 @@ func (v *Value) Type() *JSONType {
 ObjGet get value of object where key == key
 */
 func (v *Value) ObjGet(key string) *Value {
-	cVal := C.zj_ObjGet(v.V, C.CString(key))
+	cs := C.CString(key)
+	defer C.free(unsafe.Pointer(cs))
+	cVal := C.zj_ObjGet(v.V, cs)
 	if cVal == nil {
 		return nil
 	}
@@ -294,7 +303,9 @@ func (v *Value) SetBool(b bool) {
 SetNumStr set number to value
 */
 func (v *Value) SetNumStr(num string) bool {
-	ret := C.zj_SetNumStrFast(v.V, C.CString(num))
+	cs := C.CString(num)
+	defer C.free(unsafe.Pointer(cs))
+	ret := C.zj_SetNumStr(v.V, cs)
 	if ret == true {
 		return true
 	}
@@ -305,7 +316,9 @@ func (v *Value) SetNumStr(num string) bool {
 SetStr set string to value
 */
 func (v *Value) SetStr(str string) bool {
-	ret := C.zj_SetStrFast(v.V, C.CString(str))
+	cs := C.CString(str)
+	defer C.free(unsafe.Pointer(cs))
+	ret := C.zj_SetStr(v.V, cs)
 	if ret == true {
 		return true
 	}
@@ -316,7 +329,9 @@ func (v *Value) SetStr(str string) bool {
 SetStrEscape set string to value and escape, string can contain \n\r...
 */
 func (v *Value) SetStrEscape(str string) bool {
-	ret := C.zj_SetStrEscape(v.V, C.CString(str))
+	cs := C.CString(str)
+	defer C.free(unsafe.Pointer(cs))
+	ret := C.zj_SetStrEscape(v.V, cs)
 	if ret == true {
 		return true
 	}
@@ -327,7 +342,9 @@ func (v *Value) SetStrEscape(str string) bool {
 SetKey set key to value
 */
 func (v *Value) SetKey(key string) bool {
-	ret := C.zj_SetKeyFast(v.V, C.CString(key))
+	cs := C.CString(key)
+	defer C.free(unsafe.Pointer(cs))
+	ret := C.zj_SetKey(v.V, cs)
 	if ret == true {
 		return true
 	}
@@ -338,7 +355,9 @@ func (v *Value) SetKey(key string) bool {
 SetKeyEscape set key to value and escape, string can contain \n\r...
 */
 func (v *Value) SetKeyEscape(key string) bool {
-	ret := C.zj_SetKeyEscape(v.V, C.CString(key))
+	cs := C.CString(key)
+	defer C.free(unsafe.Pointer(cs))
+	ret := C.zj_SetKeyEscape(v.V, cs)
 	if ret == true {
 		return true
 	}
@@ -429,7 +448,9 @@ func (v *Value) ArrayAddFast(vv *Value) bool {
 ObjDel delete an value of object where key == key
 */
 func (v *Value) ObjDel(key string) bool {
-	ret := C.zj_ObjDel(v.V, C.CString(key))
+	cs := C.CString(key)
+	defer C.free(unsafe.Pointer(cs))
+	ret := C.zj_ObjDel(v.V, cs)
 	if ret == true {
 		return true
 	}
-- 
2.43.0


From 3b61cd6185cb2f74e29ac6f97e9f29ea1d4bc077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:57 +0000
Subject: [PATCH 28/29] fix: Go: texts, literals and keys are used at their
 full length, not up to the first NUL byte

---
 zzzjson.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/zzzjson.go b/zzzjson.go
index d110cd9..dcaef77 100644
--- a/zzzjson.go
+++ b/zzzjson.go
@@ -84,7 +84,7 @@ Parse Parse JSON text to value
 func (v *Value) Parse(s string) bool {
 	cs := C.CString(s)
 	defer C.free(unsafe.Pointer(cs))
-	ret := C.zj_Parse(v.V, cs)
+	ret := C.zj_ParseLen(v.V, cs, C.zj_Size(len(s)))
 	if ret != true {
 		return false
 	}
@@ -207,7 +207,7 @@ ObjGet get value of object where key == key
 func (v *Value) ObjGet(key string) *Value {
 	cs := C.CString(key)
 	defer C.free(unsafe.Pointer(cs))
-	cVal := C.zj_ObjGet(v.V, cs)
+	cVal := C.zj_ObjGetLen(v.V, cs, C.zj_Size(len(key)))
 	if cVal == nil {
 		return nil
 	}
@@ -305,7 +305,7 @@ SetNumStr set number to value
 func (v *Value) SetNumStr(num string) bool {
 	cs := C.CString(num)
 	defer C.free(unsafe.Pointer(cs))
-	ret := C.zj_SetNumStr(v.V, cs)
+	ret := C.zj_SetNumStrLen(v.V, cs, C.zj_Size(len(num)))
 	if ret == true {
 		return true
 	}
@@ -318,7 +318,7 @@ SetStr set string to value
 func (v *Value) SetStr(str string) bool {
 	cs := C.CString(str)
 	defer C.free(unsafe.Pointer(cs))
-	ret := C.zj_SetStr(v.V, cs)
+	ret := C.zj_SetStrLen(v.V, cs, C.zj_Size(len(str)))
 	if ret == true {
 		return true
 	}
@@ -331,7 +331,7 @@ SetStrEscape set string to value and escape, string can contain \n\r...
 func (v *Value) SetStrEscape(str string) bool {
 	cs := C.CString(str)
 	defer C.free(unsafe.Pointer(cs))
-	ret := C.zj_SetStrEscape(v.V, cs)
+	ret := C.zj_SetStrLenEscape(v.V, cs, C.zj_Size(len(str)))
 	if ret == true {
 		return true
 	}
@@ -344,7 +344,7 @@ SetKey set key to value
 func (v *Value) SetKey(key string) bool {
 	cs := C.CString(key)
 	defer C.free(unsafe.Pointer(cs))
-	ret := C.zj_SetKey(v.V, cs)
+	ret := C.zj_SetKeyLen(v.V, cs, C.zj_Size(len(key)))
 	if ret == true {
 		return true
 	}
@@ -357,7 +357,7 @@ SetKeyEscape set key to value and escape, string can contain \n\r...
 func (v *Value) SetKeyEscape(key string) bool {
 	cs := C.CString(key)
 	defer C.free(unsafe.Pointer(cs))
-	ret := C.zj_SetKeyEscape(v.V, cs)
+	ret := C.zj_SetKeyLenEscape(v.V, cs, C.zj_Size(len(key)))
 	if ret == true {
 		return true
 	}
@@ -450,7 +450,11 @@ ObjDel delete an value of object where key == key
 func (v *Value) ObjDel(key string) bool {
 	cs := C.CString(key)
 	defer C.free(unsafe.Pointer(cs))
-	ret := C.zj_ObjDel(v.V, cs)
+	cVal := C.zj_ObjGetLen(v.V, cs, C.zj_Size(len(key)))
+	if cVal == nil {
+		return false
+	}
+	ret := C.zj_Move(cVal)
 	if ret == true {
 		return true
 	}
-- 
2.43.0


From 15aee308c0811940e3b2b7f84d9c338e378be75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:06 +0000
Subject: [PATCH 29/29] fix: doubles are read and written correctly in locales
 whose decimal point is not '.'

---
 beta/zzzjson_beta.h | 30 +++++++++++++++++++++++++++++-
 zzzjson.h           | 31 ++++++++++++++++++++++++++++++-
 2 files changed, 59 insertions(+), 2 deletions(-)

diff --git a/beta/zzzjson_beta.h b/beta/zzzjson_beta.h
index 986758a..2cbe77c 100644
--- a/beta/zzzjson_beta.h
+++ b/beta/zzzjson_beta.h
@@ -358,12 +358,39 @@ static inline double z_StrToDouble(const char *str, z_SIZE len) {
   char *s = len < sizeof(buff) ? buff : (char *)z_New(len + 1);
   memcpy(s, str, len);
   s[len] = 0;
-  double ret = atof(s);
+  char *end = s;
+  double ret = strtod(s, &end);
+  // 当前locale的小数点不是'.'时，strtod会停在'.'，换成该locale的小数点再转换
+  if (z_UNLIKELY(*end == '.')) {
+    // 形如0.5，除去首尾即为小数点
+    char half[16];
+    z_SIZE point = (z_SIZE)snprintf(half, sizeof(half), "%.1f", 0.5) - 2;
+    z_SIZE pos = (z_SIZE)(end - s);
+    char *t = (char *)z_New(len + point);
+    memcpy(t, s, pos);
+    memcpy(t + pos, half + 1, point);
+    memcpy(t + pos + point, end + 1, len - pos);
+    ret = strtod(t, 0);
+    z_Free((void *)t);
+  }
   if (z_UNLIKELY(s != buff))
     z_Free((void *)s);
   return ret;
 }
 
+// 当前locale的小数点不是'.'时，换成'.'
+static inline void z_PointToDot(char *buff) {
+  z_SIZE begin = *buff == '-' ? 1 : 0, i = begin, j;
+  while (buff[i] >= '0' && buff[i] <= '9')
+    ++i;
+  if (i == begin || buff[i] == 0 || buff[i] == 'e' || z_LIKELY(buff[i] == '.'))
+    return;
+  for (j = i; buff[j] != 0 && (buff[j] < '0' || buff[j] > '9');)
+    ++j;
+  memmove(buff + i + 1, buff + j, z_StrLen(buff + j) + 1);
+  buff[i] = '.';
+}
+
 static inline void z_DoubleToStr(double d, char *buff) {
   sprintf(buff, "%.17g", d);
 }
@@ -1993,6 +2020,7 @@ static inline z_BOOL z_ValueSetNum(struct z_Value *v, const double d) {
   // double最大精度是17，使用sprintf转出字符串，%.17g，最大长度不超过32
   char *buff = z_AllocatorAlloc(v->A, 32);
   z_DoubleToStr(d, buff);
+  z_PointToDot(buff);
   return z_ValueSetNumStrFast(v, buff);
 }
 
diff --git a/zzzjson.h b/zzzjson.h
index 67b79bc..120253c 100644
--- a/zzzjson.h
+++ b/zzzjson.h
@@ -405,12 +405,40 @@ static inline long long zj_strToLongLong(const char *str, zj_Size len) {
 static inline double zj_strToDouble(const char *str, zj_Size len) {
   char buff[128];
   char *s = zj_numCopy(str, len, buff, sizeof(buff));
-  double ret = atof(s);
+  char *end = s;
+  double ret = strtod(s, &end);
+  // 当前locale的小数点不是'.'时，strtod会停在'.'，换成该locale的小数点再转换
+  if (zj_UNLIKELY(*end == '.')) {
+    // 形如0.5，除去首尾即为小数点
+    char half[16];
+    zj_Size point = (zj_Size)snprintf(half, sizeof(half), "%.1f", 0.5) - 2;
+    zj_Size pos = (zj_Size)(end - s);
+    char *t = (char *)zj_new(len + point);
+    memcpy(t, s, pos);
+    memcpy(t + pos, half + 1, point);
+    memcpy(t + pos + point, end + 1, len - pos);
+    ret = strtod(t, 0);
+    zj_free((void *)t);
+  }
   if (zj_UNLIKELY(s != buff))
     zj_free((void *)s);
   return ret;
 }
 
+// 当前locale的小数点不是'.'时，换成'.'，返回新的长度
+static inline zj_Size zj_pointToDot(char *buff, zj_Size len) {
+  zj_Size begin = *buff == '-' ? 1 : 0, i = begin, j;
+  while (buff[i] >= '0' && buff[i] <= '9')
+    ++i;
+  if (i == begin || buff[i] == 0 || buff[i] == 'e' || zj_LIKELY(buff[i] == '.'))
+    return len;
+  for (j = i; buff[j] != 0 && (buff[j] < '0' || buff[j] > '9');)
+    ++j;
+  memmove(buff + i + 1, buff + j, len - j + 1);
+  buff[i] = '.';
+  return len - (j - i) + 1;
+}
+
 static inline zj_Size zj_intToStr(int n, char *buff) {
   // int 最大长度不超过12
   return snprintf(buff, 12, "%d", n);
@@ -2339,6 +2367,7 @@ static inline bool zj_SetNum(zj_Value *v, const double d) {
 static inline bool zj_SetDouble(zj_Value *v, const double d) {
   char *num = zj_allocatorAlloc(v->A, 32);
   zj_Size len = zj_doubleToStr(d, num);
+  len = zj_pointToDot(num, len);
   // NaN和无穷大不是合法的JSON数字
   if (zj_UNLIKELY(zj_checkNum(num, &len) == false))
     return false;
-- 
2.43.0


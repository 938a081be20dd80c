From 4ecbe8a0714706113dc0710aa149181f355b14d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:25 +0000
Subject: [PATCH 01/35] fix: keep the vector capacity if the reallocation fails

---
 src/Vector.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Vector.c b/src/Vector.c
index f92c9de..08d47ea 100644
--- a/src/Vector.c
+++ b/src/Vector.c
@@ -111,9 +111,9 @@ static ZyanStatus ZyanVectorReallocate(ZyanVector* vector, ZyanUSize capacity)
         }
     }
 
-    vector->capacity = capacity;
     ZYAN_CHECK(vector->allocator->reallocate(vector->allocator, &vector->data,
-        vector->element_size, vector->capacity));
+        vector->element_size, capacity));
+    vector->capacity = capacity;
 
     return ZYAN_STATUS_SUCCESS;
 }
-- 
2.43.0


From a60f3f2b10fb9152ca5ee72c48801d4139354cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:25 +0000
Subject: [PATCH 02/35] fix: do not accept overflowing index/count ranges in
 the vector functions

---
 src/Vector.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Vector.c b/src/Vector.c
index 08d47ea..137a607 100644
--- a/src/Vector.c
+++ b/src/Vector.c
@@ -576,7 +576,7 @@ ZyanStatus ZyanVectorDeleteRange(ZyanVector* vector, ZyanUSize index, ZyanUSize
     {
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
-    if (index + count > vector->size)
+    if ((index > vector->size) || (count > vector->size - index))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -657,7 +657,7 @@ ZyanStatus ZyanVectorFindEx(const ZyanVector* vector, const void* element, ZyanI
     {
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
-    if ((index + count > vector->size) || (index == vector->size))
+    if ((index >= vector->size) || (count > vector->size - index))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -702,7 +702,7 @@ ZyanStatus ZyanVectorBinarySearchEx(const ZyanVector* vector, const void* elemen
     {
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
-    if (((index >= vector->size) && (count > 0)) || (index + count > vector->size))
+    if ((index > vector->size) || (count > vector->size - index))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
-- 
2.43.0


From 692f4cbe3e069abb5b4efeb0639a6075651c06ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:25 +0000
Subject: [PATCH 03/35] fix: keep all vector elements if an element constructor
 fails

---
 src/Vector.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/Vector.c b/src/Vector.c
index 137a607..fbf300b 100644
--- a/src/Vector.c
+++ b/src/Vector.c
@@ -520,7 +520,15 @@ ZyanStatus ZyanVectorEmplaceEx(ZyanVector* vector, ZyanUSize index, void** eleme
     *element = ZYCORE_VECTOR_OFFSET(vector, index);
     if (constructor)
     {
-        ZYAN_CHECK(constructor(*element));
+        const ZyanStatus status = constructor(*element);
+        if (!ZYAN_SUCCESS(status))
+        {
+            // Close the gap again
+            ZYAN_MEMMOVE(ZYCORE_VECTOR_OFFSET(vector, index),
+                ZYCORE_VECTOR_OFFSET(vector, index + 1),
+                (vector->size - index) * vector->element_size);
+            return status;
+        }
     }
 
     ++vector->size;
-- 
2.43.0


From 3d34d4d4b9b7fe974244bac30a5c4edf541ae345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:25 +0000
Subject: [PATCH 04/35] fix: do not keep destroyed elements if shrinking the
 vector buffer fails

---
 src/Vector.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/Vector.c b/src/Vector.c
index fbf300b..be78006 100644
--- a/src/Vector.c
+++ b/src/Vector.c
@@ -768,12 +768,17 @@ ZyanStatus ZyanVectorResizeEx(ZyanVector* vector, ZyanUSize size, const void* in
         return ZYAN_STATUS_SUCCESS;
     }
 
-    if (vector->destructor && (size < vector->size))
+    if (size < vector->size)
     {
-        for (ZyanUSize i = size; i < vector->size; ++i)
+        if (vector->destructor)
         {
-            vector->destructor(ZYCORE_VECTOR_OFFSET(vector, i));
+            for (ZyanUSize i = size; i < vector->size; ++i)
+            {
+                vector->destructor(ZYCORE_VECTOR_OFFSET(vector, i));
+            }
         }
+        // The removed elements are gone, even if shrinking the buffer fails
+        vector->size = size;
     }
 
     if (ZYCORE_VECTOR_SHOULD_GROW(size, vector->capacity) ||
-- 
2.43.0


From ab7d849b8dc304b29fcfc196577d5efa1d9b640a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:25 +0000
Subject: [PATCH 05/35] fix: do not shrink the vector buffer if the new
 capacity overflows

---
 src/Vector.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Vector.c b/src/Vector.c
index be78006..89d7eeb 100644
--- a/src/Vector.c
+++ b/src/Vector.c
@@ -785,7 +785,8 @@ ZyanStatus ZyanVectorResizeEx(ZyanVector* vector, ZyanUSize size, const void* in
         ZYCORE_VECTOR_SHOULD_SHRINK(size, vector->capacity, vector->shrink_threshold))
     {
         ZYAN_ASSERT(vector->growth_factor >= 1);
-        ZYAN_CHECK(ZyanVectorReallocate(vector, (ZyanUSize)(size * vector->growth_factor)));
+        ZYAN_CHECK(ZyanVectorReallocate(vector,
+            ZYAN_MAX(size, (ZyanUSize)(size * vector->growth_factor))));
     }
 
     if (initializer && (size > vector->size))
-- 
2.43.0


From 5bb905affa4bc6d4355680fa4f2f86e52b9204f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:43 +0000
Subject: [PATCH 06/35] fix: reject string index/count ranges whose sum
 overflows

---
 src/String.c | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/String.c b/src/String.c
index 9dce43f..eb0c537 100644
--- a/src/String.c
+++ b/src/String.c
@@ -267,7 +267,7 @@ ZyanStatus ZyanStringViewInsideViewEx(ZyanStringView* view, const ZyanStringView
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
-    if (index + count >= source->string.vector.size)
+    if ((index >= source->string.vector.size) || (count >= source->string.vector.size - index))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -341,7 +341,7 @@ ZyanStatus ZyanStringGetChar(const ZyanStringView* string, ZyanUSize index, char
     }
 
     // Don't allow direct access to the terminating '\0' character
-    if (index + 1 >= string->string.vector.size)
+    if (index >= string->string.vector.size - 1)
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -361,7 +361,7 @@ ZyanStatus ZyanStringGetCharMutable(ZyanString* string, ZyanUSize index, char**
     }
 
     // Don't allow direct access to the terminating '\0' character
-    if (index + 1 >= string->vector.size)
+    if (index >= string->vector.size - 1)
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -377,7 +377,7 @@ ZyanStatus ZyanStringSetChar(ZyanString* string, ZyanUSize index, char value)
     }
 
     // Don't allow direct access to the terminating '\0' character
-    if (index + 1 >= string->vector.size)
+    if (index >= string->vector.size - 1)
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -434,7 +434,8 @@ ZyanStatus ZyanStringInsertEx(ZyanString* destination, ZyanUSize destination_ind
     }
 
     // Don't allow access to the terminating '\0' character
-    if (source_index + count >= source->string.vector.size)
+    if ((source_index >= source->string.vector.size) ||
+        (count >= source->string.vector.size - source_index))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -475,7 +476,8 @@ ZyanStatus ZyanStringAppendEx(ZyanString* destination, const ZyanStringView* sou
     }
 
     // Don't allow access to the terminating '\0' character
-    if (source_index + count >= source->string.vector.size)
+    if ((source_index >= source->string.vector.size) ||
+        (count >= source->string.vector.size - source_index))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -501,7 +503,7 @@ ZyanStatus ZyanStringDelete(ZyanString* string, ZyanUSize index, ZyanUSize count
     }
 
     // Don't allow removal of the terminating '\0' character
-    if (index + count >= string->vector.size)
+    if ((index >= string->vector.size) || (count >= string->vector.size - index))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -572,7 +574,8 @@ ZyanStatus ZyanStringLPosEx(const ZyanStringView* haystack, const ZyanStringView
     }
 
     // Don't allow access to the terminating '\0' character
-    if (index + count >= haystack->string.vector.size)
+    if ((index >= haystack->string.vector.size) ||
+        (count >= haystack->string.vector.size - index))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -641,7 +644,8 @@ ZyanStatus ZyanStringLPosIEx(const ZyanStringView* haystack, const ZyanStringVie
     }
 
     // Don't allow access to the terminating '\0' character
-    if (index + count >= haystack->string.vector.size)
+    if ((index >= haystack->string.vector.size) ||
+        (count >= haystack->string.vector.size - index))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -954,7 +958,7 @@ ZyanStatus ZyanStringToLowerCaseEx(ZyanString* string, ZyanUSize index, ZyanUSiz
     }
 
     // Don't allow access to the terminating '\0' character
-    if (index + count >= string->vector.size)
+    if ((index >= string->vector.size) || (count >= string->vector.size - index))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -995,7 +999,7 @@ ZyanStatus ZyanStringToUpperCaseEx(ZyanString* string, ZyanUSize index, ZyanUSiz
     }
 
     // Don't allow access to the terminating '\0' character
-    if (index + count >= string->vector.size)
+    if ((index >= string->vector.size) || (count >= string->vector.size - index))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
-- 
2.43.0


From 68f8964c074574a1681f6de46414f5037912eea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:43 +0000
Subject: [PATCH 07/35] fix: refuse string sizes that leave no room for the
 terminator

---
 src/String.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/String.c b/src/String.c
index eb0c537..3a7d78c 100644
--- a/src/String.c
+++ b/src/String.c
@@ -69,6 +69,11 @@ ZyanStatus ZyanStringInitEx(ZyanString* string, ZyanUSize capacity, ZyanAllocato
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
+    if (capacity == (ZyanUSize)(-1))
+    {
+        return ZYAN_STATUS_INVALID_ARGUMENT;
+    }
+
     string->flags = 0;
     capacity = ZYAN_MAX(ZYAN_STRING_MIN_CAPACITY, capacity) + 1;
     ZYAN_CHECK(ZyanVectorInitEx(&string->vector, sizeof(char), capacity, ZYAN_NULL, allocator,
@@ -1029,6 +1034,11 @@ ZyanStatus ZyanStringResize(ZyanString* string, ZyanUSize size)
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
+    if (size == (ZyanUSize)(-1))
+    {
+        return ZYAN_STATUS_INVALID_ARGUMENT;
+    }
+
     ZYAN_CHECK(ZyanVectorResize(&string->vector, size + 1));
     ZYCORE_STRING_NULLTERMINATE(string);
 
-- 
2.43.0


From af81b9517dfcc1bf8568862d742ffdfee97f02c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:43 +0000
Subject: [PATCH 08/35] fix: keep strings terminated when shrinking their
 buffer fails

---
 src/String.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/String.c b/src/String.c
index 3a7d78c..0c61606 100644
--- a/src/String.c
+++ b/src/String.c
@@ -545,14 +545,12 @@ ZyanStatus ZyanStringClear(ZyanString* string)
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
-    ZYAN_CHECK(ZyanVectorClear(&string->vector));
     // `ZyanVector` guarantees a minimum capacity of 1 element/character
     ZYAN_ASSERT(string->vector.capacity >= 1);
 
     *(char*)string->vector.data = '\0';
-    string->vector.size++;
 
-    return ZYAN_STATUS_SUCCESS;
+    return ZyanVectorResize(&string->vector, 1);
 }
 
 /* ---------------------------------------------------------------------------------------------- */
@@ -1039,10 +1037,11 @@ ZyanStatus ZyanStringResize(ZyanString* string, ZyanUSize size)
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
-    ZYAN_CHECK(ZyanVectorResize(&string->vector, size + 1));
+    // The size is already reduced, if releasing excess memory failed
+    const ZyanStatus status = ZyanVectorResize(&string->vector, size + 1);
     ZYCORE_STRING_NULLTERMINATE(string);
 
-    return ZYAN_STATUS_SUCCESS;
+    return status;
 }
 
 ZyanStatus ZyanStringReserve(ZyanString* string, ZyanUSize capacity)
-- 
2.43.0


From cc7c76657a940a593b4fbd48fa760473d438cb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:43 +0000
Subject: [PATCH 09/35] fix: count the terminator in the size of partial string
 views

---
 src/String.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/String.c b/src/String.c
index 0c61606..2fbb8cc 100644
--- a/src/String.c
+++ b/src/String.c
@@ -278,7 +278,7 @@ ZyanStatus ZyanStringViewInsideViewEx(ZyanStringView* view, const ZyanStringView
     }
 
     view->string.vector.data = (void*)((char*)source->string.vector.data + index);
-    view->string.vector.size = count;
+    view->string.vector.size = count + 1;
 
     return ZYAN_STATUS_SUCCESS;
 }
-- 
2.43.0


From ea6435d482a1f7e7cae7ac2e6096399f3b12c745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:43 +0000
Subject: [PATCH 10/35] fix: do not use the unset element size of a view when
 reading a character

---
 src/String.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/String.c b/src/String.c
index 2fbb8cc..397ed24 100644
--- a/src/String.c
+++ b/src/String.c
@@ -351,9 +351,8 @@ ZyanStatus ZyanStringGetChar(const ZyanStringView* string, ZyanUSize index, char
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
 
-    const char* chr;
-    ZYAN_CHECK(ZyanVectorGetPointer(&string->string.vector, index, (const void**)&chr));
-    *value = *chr;
+    // Views do not carry an element size
+    *value = *((const char*)string->string.vector.data + index);
 
     return ZYAN_STATUS_SUCCESS;
 }
-- 
2.43.0


From 8763c4c5e0d1cbc3f044b5727a23200fbd581b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:43 +0000
Subject: [PATCH 11/35] fix: reject string insertion behind the terminator

---
 src/String.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/String.c b/src/String.c
index 397ed24..6fed72f 100644
--- a/src/String.c
+++ b/src/String.c
@@ -400,7 +400,7 @@ ZyanStatus ZyanStringInsert(ZyanString* destination, ZyanUSize index, const Zyan
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
-    if (index == destination->vector.size)
+    if (index == destination->vector.size - 1)
     {
         return ZyanStringAppend(destination, source);
     }
@@ -426,7 +426,7 @@ ZyanStatus ZyanStringInsertEx(ZyanString* destination, ZyanUSize destination_ind
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
-    if (destination_index == destination->vector.size)
+    if (destination_index == destination->vector.size - 1)
     {
         return ZyanStringAppendEx(destination, source, source_index, count);
     }
-- 
2.43.0


From 910e86a98038641ff36a40ac15b2608746629817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:43 +0000
Subject: [PATCH 12/35] fix: reserve room for the terminating character

---
 src/String.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/String.c b/src/String.c
index 6fed72f..865bdd0 100644
--- a/src/String.c
+++ b/src/String.c
@@ -1050,7 +1050,12 @@ ZyanStatus ZyanStringReserve(ZyanString* string, ZyanUSize capacity)
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
-    return ZyanVectorReserve(&string->vector, capacity);
+    if (capacity == (ZyanUSize)(-1))
+    {
+        return ZYAN_STATUS_INVALID_ARGUMENT;
+    }
+
+    return ZyanVectorReserve(&string->vector, capacity + 1);
 }
 
 ZyanStatus ZyanStringShrinkToFit(ZyanString* string)
-- 
2.43.0


From 808f564acd5dfee326a39674f5930d1abc743431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:09 +0000
Subject: [PATCH 13/35] fix: bound string search by the lengths of its operands

---
 src/String.c | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/String.c b/src/String.c
index 865bdd0..2306cbe 100644
--- a/src/String.c
+++ b/src/String.c
@@ -591,7 +591,10 @@ ZyanStatus ZyanStringLPosEx(const ZyanStringView* haystack, const ZyanStringView
 
     const char* s = (const char*)haystack->string.vector.data + index;
     const char* b = (const char*)needle->string.vector.data;
-    for (; s + 1 < (const char*)haystack->string.vector.data + haystack->string.vector.size; ++s)
+    // The operands might be views, which are not terminated by a '\0' character
+    const char* const s_end = s + count;
+    const char* const b_end = b + needle->string.vector.size - 1;
+    for (; s < s_end; ++s)
     {
         if (*s != *b)
         {
@@ -600,16 +603,16 @@ ZyanStatus ZyanStringLPosEx(const ZyanStringView* haystack, const ZyanStringView
         const char* a = s;
         for (;;)
         {
-            if ((ZyanUSize)(a - (const char*)haystack->string.vector.data) > index + count)
-            {
-                *found_index = -1;
-                return ZYAN_STATUS_FALSE;
-            }
-            if (*b == 0)
+            if (b == b_end)
             {
                 *found_index = (ZyanISize)(s - (const char*)haystack->string.vector.data);
                 return ZYAN_STATUS_TRUE;
             }
+            if (a == s_end)
+            {
+                *found_index = -1;
+                return ZYAN_STATUS_FALSE;
+            }
             if (*a++ != *b++)
             {
                 break;
@@ -661,7 +664,10 @@ ZyanStatus ZyanStringLPosIEx(const ZyanStringView* haystack, const ZyanStringVie
 
     const char* s = (const char*)haystack->string.vector.data + index;
     const char* b = (const char*)needle->string.vector.data;
-    for (; s + 1 < (const char*)haystack->string.vector.data + haystack->string.vector.size; ++s)
+    // The operands might be views, which are not terminated by a '\0' character
+    const char* const s_end = s + count;
+    const char* const b_end = b + needle->string.vector.size - 1;
+    for (; s < s_end; ++s)
     {
         if ((*s != *b) && ((*s ^ 32) != *b))
         {
@@ -670,16 +676,16 @@ ZyanStatus ZyanStringLPosIEx(const ZyanStringView* haystack, const ZyanStringVie
         const char* a = s;
         for (;;)
         {
-            if ((ZyanUSize)(a - (const char*)haystack->string.vector.data) > index + count)
-            {
-                *found_index = -1;
-                return ZYAN_STATUS_FALSE;
-            }
-            if (*b == 0)
+            if (b == b_end)
             {
                 *found_index = (ZyanISize)(s - (const char*)haystack->string.vector.data);
                 return ZYAN_STATUS_TRUE;
             }
+            if (a == s_end)
+            {
+                *found_index = -1;
+                return ZYAN_STATUS_FALSE;
+            }
             const char c1 = *a++;
             const char c2 = *b++;
             if ((c1 != c2) && ((c1 ^ 32) != c2))
-- 
2.43.0


From 9485d8d80a4582f67aac38dc050d76a2855a615f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:09 +0000
Subject: [PATCH 14/35] fix: ignore case of ASCII letters only

---
 src/String.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/String.c b/src/String.c
index 2306cbe..e14352b 100644
--- a/src/String.c
+++ b/src/String.c
@@ -43,6 +43,12 @@
 #define ZYCORE_STRING_ASSERT_NULLTERMINATION(string) \
       ZYAN_ASSERT(*(char*)((ZyanU8*)(string)->vector.data + (string)->vector.size - 1) == '\0');
 
+/**
+ * Converts an uppercase ASCII letter to lowercase and returns all other characters unchanged.
+ */
+#define ZYCORE_STRING_LOWER(c) \
+      ((char)((((c) >= 'A') && ((c) <= 'Z')) ? ((c) | 32) : (c)))
+
 /* ============================================================================================== */
 /* Exported functions                                                                             */
 /* ============================================================================================== */
@@ -669,7 +675,7 @@ ZyanStatus ZyanStringLPosIEx(const ZyanStringView* haystack, const ZyanStringVie
     const char* const b_end = b + needle->string.vector.size - 1;
     for (; s < s_end; ++s)
     {
-        if ((*s != *b) && ((*s ^ 32) != *b))
+        if (ZYCORE_STRING_LOWER(*s) != ZYCORE_STRING_LOWER(*b))
         {
             continue;
         }
@@ -688,7 +694,7 @@ ZyanStatus ZyanStringLPosIEx(const ZyanStringView* haystack, const ZyanStringVie
             }
             const char c1 = *a++;
             const char c2 = *b++;
-            if ((c1 != c2) && ((c1 ^ 32) != c2))
+            if (ZYCORE_STRING_LOWER(c1) != ZYCORE_STRING_LOWER(c2))
             {
                 break;
             }
@@ -809,7 +815,7 @@ ZyanStatus ZyanStringRPosIEx(const ZyanStringView* haystack, const ZyanStringVie
     const char* b = (const char*)needle->string.vector.data + needle->string.vector.size - 2;
     for (; s >= (const char*)haystack->string.vector.data; --s)
     {
-        if ((*s != *b) && ((*s ^ 32) != *b))
+        if (ZYCORE_STRING_LOWER(*s) != ZYCORE_STRING_LOWER(*b))
         {
             continue;
         }
@@ -828,7 +834,7 @@ ZyanStatus ZyanStringRPosIEx(const ZyanStringView* haystack, const ZyanStringVie
             }
             const char c1 = *a--;
             const char c2 = *b--;
-            if ((c1 != c2) && ((c1 ^ 32) != c2))
+            if (ZYCORE_STRING_LOWER(c1) != ZYCORE_STRING_LOWER(c2))
             {
                 break;
             }
@@ -917,7 +923,7 @@ ZyanStatus ZyanStringCompareI(const ZyanStringView* s1, const ZyanStringView* s2
     ZyanUSize i;
     for (i = 0; (i + 1 < s1->string.vector.size) && (i + 1 < s2->string.vector.size); ++i)
     {
-        if ((a[i] == b[i]) || ((a[i] ^ 32) == b[i]))
+        if (ZYCORE_STRING_LOWER(a[i]) == ZYCORE_STRING_LOWER(b[i]))
         {
             continue;
         }
@@ -930,7 +936,7 @@ ZyanStatus ZyanStringCompareI(const ZyanStringView* s1, const ZyanStringView* s2
         return ZYAN_STATUS_TRUE;
     }
 
-    if ((a[i] | 32) < (b[i] | 32))
+    if (ZYCORE_STRING_LOWER(a[i]) < ZYCORE_STRING_LOWER(b[i]))
     {
         *result = -1;
         return ZYAN_STATUS_FALSE;
-- 
2.43.0


From 091fc6d63c053d87853ce59f5da2a08b163a6709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:09 +0000
Subject: [PATCH 15/35] fix: order by the exact character value in the
 case-sensitive comparison

---
 src/String.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/String.c b/src/String.c
index e14352b..6d3581f 100644
--- a/src/String.c
+++ b/src/String.c
@@ -886,7 +886,7 @@ ZyanStatus ZyanStringCompare(const ZyanStringView* s1, const ZyanStringView* s2,
         return ZYAN_STATUS_TRUE;
     }
 
-    if ((a[i] | 32) < (b[i] | 32))
+    if (a[i] < b[i])
     {
         *result = -1;
         return ZYAN_STATUS_FALSE;
-- 
2.43.0


From 36a8f959bbc492886be0244ddd91214d29111bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:09 +0000
Subject: [PATCH 16/35] fix: do not compare the characters behind the operands
 of a string comparison

---
 src/String.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/String.c b/src/String.c
index 6d3581f..4963abe 100644
--- a/src/String.c
+++ b/src/String.c
@@ -880,7 +880,7 @@ ZyanStatus ZyanStringCompare(const ZyanStringView* s1, const ZyanStringView* s2,
         break;
     }
 
-    if (a[i] == b[i])
+    if (i + 1 == s1->string.vector.size)
     {
         *result = 0;
         return ZYAN_STATUS_TRUE;
@@ -930,7 +930,7 @@ ZyanStatus ZyanStringCompareI(const ZyanStringView* s1, const ZyanStringView* s2
         break;
     }
 
-    if (a[i] == b[i])
+    if (i + 1 == s1->string.vector.size)
     {
         *result = 0;
         return ZYAN_STATUS_TRUE;
-- 
2.43.0


From 550a30a7f5cfd6aa482669fc55f077bb54fbfc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:09 +0000
Subject: [PATCH 17/35] fix: reject string concatenation into one of the
 operands

---
 src/String.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/String.c b/src/String.c
index 4963abe..e1e7f73 100644
--- a/src/String.c
+++ b/src/String.c
@@ -208,7 +208,9 @@ ZyanStatus ZyanStringConcatEx(ZyanString* destination, const ZyanStringView* s1,
     const ZyanStringView* s2, ZyanUSize capacity, ZyanAllocator* allocator, ZyanU8 growth_factor,
     ZyanU8 shrink_threshold)
 {
-    if (!s1 || !s2 || !s1->string.vector.size || !s2->string.vector.size)
+    if (!s1 || !s2 || !s1->string.vector.size || !s2->string.vector.size ||
+        ((const void*)destination == (const void*)s1) ||
+        ((const void*)destination == (const void*)s2))
     {
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
@@ -230,7 +232,9 @@ ZyanStatus ZyanStringConcatEx(ZyanString* destination, const ZyanStringView* s1,
 ZyanStatus ZyanStringConcatCustomBuffer(ZyanString* destination, const ZyanStringView* s1,
     const ZyanStringView* s2, char* buffer, ZyanUSize capacity)
 {
-    if (!s1 || !s2 || !s1->string.vector.size || !s2->string.vector.size)
+    if (!s1 || !s2 || !s1->string.vector.size || !s2->string.vector.size ||
+        ((const void*)destination == (const void*)s1) ||
+        ((const void*)destination == (const void*)s2))
     {
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
-- 
2.43.0


From ca97d3892bb6f53cb6e9cb2be4eac8ba236cf37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:57 +0000
Subject: [PATCH 18/35] fix: round the number of bytes of a bitset up

---
 src/Bitset.c | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/src/Bitset.c b/src/Bitset.c
index b1c733d..683ac36 100644
--- a/src/Bitset.c
+++ b/src/Bitset.c
@@ -38,16 +38,6 @@
 /* Internal macros                                                                                */
 /* ============================================================================================== */
 
-/**
- * Computes the smallest integer value not less than `x`.
- *
- * @param   x   The value.
- *
- * @return  The smallest integer value not less than `x`.
- */
-#define ZYAN_BITSET_CEIL(x) \
-    (((x) == ((ZyanU32)(x))) ? (ZyanU32)(x) : ((ZyanU32)(x)) + 1)
-
 /**
  * Converts bits to bytes.
  *
@@ -56,7 +46,7 @@
  * @return  The amount of bytes needed to fit `x` bits.
  */
 #define ZYAN_BITSET_BITS_TO_BYTES(x) \
-    ZYAN_BITSET_CEIL((x) / 8)
+    (((x) / 8) + (((x) % 8) ? 1 : 0))
 
 /**
  * Returns the offset of the given bit.
@@ -147,7 +137,7 @@ ZyanStatus ZyanBitsetInitEx(ZyanBitset* bitset, ZyanUSize count, ZyanAllocator*
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
-    const ZyanU32 bytes = ZYAN_BITSET_BITS_TO_BYTES(count);
+    const ZyanUSize bytes = ZYAN_BITSET_BITS_TO_BYTES(count);
 
     bitset->size = count;
     ZYAN_CHECK(ZyanVectorInitEx(&bitset->bits, sizeof(ZyanU8), bytes, ZYAN_NULL, allocator,
@@ -165,7 +155,7 @@ ZyanStatus ZyanBitsetInitBuffer(ZyanBitset* bitset, ZyanUSize count, void* buffe
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
-    const ZyanU32 bytes = ZYAN_BITSET_BITS_TO_BYTES(count);
+    const ZyanUSize bytes = ZYAN_BITSET_BITS_TO_BYTES(count);
     if (capacity < bytes)
     {
         return ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE;
-- 
2.43.0


From e93d4c199851a16575bbf0de925070a08548c261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:57 +0000
Subject: [PATCH 19/35] fix: ignore the unused bits of the last byte of a
 bitset

---
 src/Bitset.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/Bitset.c b/src/Bitset.c
index 683ac36..bf38a9f 100644
--- a/src/Bitset.c
+++ b/src/Bitset.c
@@ -58,6 +58,16 @@
 #define ZYAN_BITSET_BIT_OFFSET(index) \
     (7 - ((index) % 8))
 
+/**
+ * Returns a mask that covers the used bits of the last byte.
+ *
+ * @param   size    The size of the bitset in bits.
+ *
+ * @return  The mask of the used bits in the last byte.
+ */
+#define ZYAN_BITSET_LAST_BYTE_MASK(size) \
+    ((ZyanU8)(0xFF << ((8 - ((size) % 8)) % 8)))
+
 /* ============================================================================================== */
 /* Internal functions                                                                             */
 /* ============================================================================================== */
@@ -513,6 +523,10 @@ ZyanStatus ZyanBitsetCount(const ZyanBitset* bitset, ZyanUSize* count)
         ZYAN_CHECK(ZyanVectorGetPointer(&bitset->bits, i, (const void**)&value));
 
         ZyanU8 popcnt = *value;
+        if (i == (size - 1))
+        {
+            popcnt &= ZYAN_BITSET_LAST_BYTE_MASK(bitset->size);
+        }
         popcnt = (popcnt & 0x55) + ((popcnt >> 1) & 0x55);
         popcnt = (popcnt & 0x33) + ((popcnt >> 2) & 0x33);
         popcnt = (popcnt & 0x0F) + ((popcnt >> 4) & 0x0F);
@@ -546,7 +560,7 @@ ZyanStatus ZyanBitsetAll(const ZyanBitset* bitset)
             }
         } else
         {
-            const ZyanU8 mask = ~(8 - (bitset->size % 8));
+            const ZyanU8 mask = ZYAN_BITSET_LAST_BYTE_MASK(bitset->size);
             if ((*value & mask) != mask)
             {
                 return ZYAN_STATUS_FALSE;
@@ -578,7 +592,7 @@ ZyanStatus ZyanBitsetAny(const ZyanBitset* bitset)
             }
         } else
         {
-            const ZyanU8 mask = ~(8 - (bitset->size % 8));
+            const ZyanU8 mask = ZYAN_BITSET_LAST_BYTE_MASK(bitset->size);
             if ((*value & mask) != 0x00)
             {
                 return ZYAN_STATUS_TRUE;
@@ -610,7 +624,7 @@ ZyanStatus ZyanBitsetNone(const ZyanBitset* bitset)
             }
         } else
         {
-            const ZyanU8 mask = ~(8 - (bitset->size % 8));
+            const ZyanU8 mask = ZYAN_BITSET_LAST_BYTE_MASK(bitset->size);
             if ((*value & mask) != 0x00)
             {
                 return ZYAN_STATUS_FALSE;
-- 
2.43.0


From 9abb254ce34a62604dfc735b62560b7db5a51c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:58 +0000
Subject: [PATCH 20/35] fix: keep the bitset unchanged if adding or removing a
 bit fails

---
 src/Bitset.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Bitset.c b/src/Bitset.c
index bf38a9f..e4e0fb9 100644
--- a/src/Bitset.c
+++ b/src/Bitset.c
@@ -411,11 +411,12 @@ ZyanStatus ZyanBitsetPush(ZyanBitset* bitset, ZyanBool value)
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
-    if ((bitset->size++ % 8) == 0)
+    if ((bitset->size % 8) == 0)
     {
         static const ZyanU8 zero = 0;
         ZYAN_CHECK(ZyanVectorPushBack(&bitset->bits, &zero));
     }
+    ++bitset->size;
 
     return ZyanBitsetAssign(bitset, bitset->size - 1, value);
 }
@@ -427,6 +428,11 @@ ZyanStatus ZyanBitsetPop(ZyanBitset* bitset)
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
+    if (bitset->size == 0)
+    {
+        return ZYAN_STATUS_OUT_OF_RANGE;
+    }
+
     if ((--bitset->size % 8) == 0)
     {
         return ZyanVectorPopBack(&bitset->bits);
-- 
2.43.0


From 42b95633538bdba3e56a5f0599e6d31fa6dda8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:58 +0000
Subject: [PATCH 21/35] fix: check the arguments of the bitset functions

---
 src/Bitset.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/Bitset.c b/src/Bitset.c
index e4e0fb9..acc798e 100644
--- a/src/Bitset.c
+++ b/src/Bitset.c
@@ -458,11 +458,21 @@ ZyanStatus ZyanBitsetClear(ZyanBitset* bitset)
 
 ZyanStatus ZyanBitsetReserve(ZyanBitset* bitset, ZyanUSize count)
 {
+    if (!bitset)
+    {
+        return ZYAN_STATUS_INVALID_ARGUMENT;
+    }
+
     return ZyanVectorReserve(&bitset->bits, ZYAN_BITSET_BITS_TO_BYTES(count));
 }
 
 ZyanStatus ZyanBitsetShrinkToFit(ZyanBitset* bitset)
 {
+    if (!bitset)
+    {
+        return ZYAN_STATUS_INVALID_ARGUMENT;
+    }
+
     return ZyanVectorShrinkToFit(&bitset->bits);
 }
 
-- 
2.43.0


From 6a797709def9bfa818833e55a5cccc6cfcedd724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:08 +0000
Subject: [PATCH 22/35] fix: ZYAN_ALIGN_DOWN keeps values that are already
 aligned

---
 include/Zycore/Defines.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Zycore/Defines.h b/include/Zycore/Defines.h
index 226d808..e1bb7f8 100644
--- a/include/Zycore/Defines.h
+++ b/include/Zycore/Defines.h
@@ -480,7 +480,7 @@
  *
  * Note that this macro only works for powers of 2.
  */
-#define ZYAN_ALIGN_DOWN(x, align) (((x) - 1) & ~((align) - 1))
+#define ZYAN_ALIGN_DOWN(x, align) ((x) & ~((align) - 1))
 
 /**
  * Divide the 64bit integer value by the given divisor.
-- 
2.43.0


From c808541df736212100dae3261e5f763ba30fe462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:08 +0000
Subject: [PATCH 23/35] fix: report failure if the size of a default allocation
 overflows

---
 src/Allocator.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/Allocator.c b/src/Allocator.c
index 5fadf64..54ea9bb 100644
--- a/src/Allocator.c
+++ b/src/Allocator.c
@@ -47,6 +47,11 @@ static ZyanStatus ZyanAllocatorDefaultAllocate(ZyanAllocator* allocator, void**
 
     ZYAN_UNUSED(allocator);
 
+    if (n && (element_size > ((ZyanUSize)-1) / n))
+    {
+        return ZYAN_STATUS_NOT_ENOUGH_MEMORY;
+    }
+
     *p = ZYAN_MALLOC(element_size * n);
     if (!*p)
     {
@@ -66,6 +71,11 @@ static ZyanStatus ZyanAllocatorDefaultReallocate(ZyanAllocator* allocator, void*
 
     ZYAN_UNUSED(allocator);
 
+    if (n && (element_size > ((ZyanUSize)-1) / n))
+    {
+        return ZYAN_STATUS_NOT_ENOUGH_MEMORY;
+    }
+
     void* const x = ZYAN_REALLOC(*p, element_size * n);
     if (!x)
     {
-- 
2.43.0


From 1a6f4eb078938b599adac600a9bcb8af65dbc2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:34 +0000
Subject: [PATCH 24/35] fix: ZYAN_STRNCMP fallback stops at the end of equal
 strings

The comparison went on past the terminating zero of both strings.
---
 include/Zycore/LibC.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/Zycore/LibC.h b/include/Zycore/LibC.h
index 59cebee..581b8d9 100644
--- a/include/Zycore/LibC.h
+++ b/include/Zycore/LibC.h
@@ -397,10 +397,15 @@ ZYAN_INLINE int ZYAN_STRNCMP(const char* s1, const char* s2, ZyanUSize n)
 {
     while (n--)
     {
-        if (*s1++ != *s2++)
+        if (*s1 != *s2)
         {
-            return *(unsigned char*)(s1 - 1) - *(unsigned char*)(s2 - 1);
+            return *(const ZyanU8*)s1 - *(const ZyanU8*)s2;
         }
+        if (!*s1)
+        {
+            return 0;
+        }
+        s1++, s2++;
     }
     return 0;
 }
-- 
2.43.0


From 06a29b4a92101c8562ddddc2f904805ea40f57e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:34 +0000
Subject: [PATCH 25/35] fix: ZYAN_STRSTR fallback finds the empty string in the
 empty string

---
 include/Zycore/LibC.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/Zycore/LibC.h b/include/Zycore/LibC.h
index 581b8d9..5a7b7f6 100644
--- a/include/Zycore/LibC.h
+++ b/include/Zycore/LibC.h
@@ -465,13 +465,13 @@ ZYAN_INLINE ZyanUSize ZYAN_STRSPN(const char* s1, const char* s2)
 ZYAN_INLINE char* ZYAN_STRSTR(const char* s1, const char* s2)
 {
     const ZyanUSize n = ZYAN_STRLEN(s2);
-    while (*s1)
+    do
     {
-        if (!ZYAN_MEMCMP(s1++, s2, n))
+        if (!ZYAN_MEMCMP(s1, s2, n))
         {
-            return (char*)(s1 - 1);
+            return (char*)s1;
         }
-    }
+    } while (*s1++);
     return 0;
 }
 
-- 
2.43.0


From fcd72eb2381bf93d591ffa74c9ba59ca5f1b753e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:34 +0000
Subject: [PATCH 26/35] fix: ZYAN_STRCOLL fallback compares the strings

The stub reported all strings as equal.
---
 include/Zycore/LibC.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/Zycore/LibC.h b/include/Zycore/LibC.h
index 5a7b7f6..7d467d5 100644
--- a/include/Zycore/LibC.h
+++ b/include/Zycore/LibC.h
@@ -336,12 +336,8 @@ ZYAN_INLINE int ZYAN_STRCMP(const char* s1, const char* s2)
 
 ZYAN_INLINE int ZYAN_STRCOLL(const char *s1, const char *s2)
 {
-    // TODO: Implement
-
-    ZYAN_UNUSED(s1);
-    ZYAN_UNUSED(s2);
-
-    return 0;
+    // There are no locales without a libc, the collation order is the one of the "C" locale
+    return ZYAN_STRCMP(s1, s2);
 }
 
 ZYAN_INLINE char* ZYAN_STRCPY(char* dest, const char* src)
-- 
2.43.0


From cc4af28b7c14c69b331c433f5d0759f95dc291d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:44 +0000
Subject: [PATCH 27/35] fix: restart the argument list for the second
 formatting pass

---
 src/Format.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Format.c b/src/Format.c
index 46d87e1..3319ef9 100644
--- a/src/Format.c
+++ b/src/Format.c
@@ -396,14 +396,17 @@ ZyanStatus ZyanStringAppendFormat(ZyanString* string, const char* format, ...)
         return ZYAN_STATUS_SUCCESS;
     }
 
+    ZYAN_VA_END(arglist);
+
     // The remaining capacity was not sufficent to fit the formatted string. Trying to resize ..
     const ZyanStatus status = ZyanStringResize(string, string->vector.size + w - 1);
     if (!ZYAN_SUCCESS(status))
     {
-        ZYAN_VA_END(arglist);
         return status;
     }
 
+    // The first pass consumed the argument list
+    ZYAN_VA_START(arglist, format);
     w = ZYAN_VSNPRINTF((char*)string->vector.data + len - 1,
         string->vector.capacity - string->vector.size + 1, format, arglist);
     if (w < 0)
-- 
2.43.0


From a1da81bc078bab2e7fd381a355045a5a881a6cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:44 +0000
Subject: [PATCH 28/35] fix: do not truncate the formatted text after resizing
 the string

---
 src/Format.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Format.c b/src/Format.c
index 3319ef9..3998b52 100644
--- a/src/Format.c
+++ b/src/Format.c
@@ -408,13 +408,13 @@ ZyanStatus ZyanStringAppendFormat(ZyanString* string, const char* format, ...)
     // The first pass consumed the argument list
     ZYAN_VA_START(arglist, format);
     w = ZYAN_VSNPRINTF((char*)string->vector.data + len - 1,
-        string->vector.capacity - string->vector.size + 1, format, arglist);
+        string->vector.capacity - len + 1, format, arglist);
     if (w < 0)
     {
         ZYAN_VA_END(arglist);
         return ZYAN_STATUS_FAILED;
     }
-    ZYAN_ASSERT(w <= (ZyanI32)(string->vector.capacity - string->vector.size));
+    ZYAN_ASSERT((ZyanUSize)w <= string->vector.capacity - len);
 
     ZYAN_VA_END(arglist);
     return ZYAN_STATUS_SUCCESS;
-- 
2.43.0


From 0815c538a831d209e775b4c6203b981c57cba3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:44 +0000
Subject: [PATCH 29/35] fix: keep the text of the string if formatting fails

---
 src/Format.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Format.c b/src/Format.c
index 3998b52..8c023c3 100644
--- a/src/Format.c
+++ b/src/Format.c
@@ -385,6 +385,7 @@ ZyanStatus ZyanStringAppendFormat(ZyanString* string, const char* format, ...)
         string->vector.capacity - len + 1, format, arglist);
     if (w < 0)
     {
+        ZYCORE_STRING_NULLTERMINATE(string);
         ZYAN_VA_END(arglist);
         return ZYAN_STATUS_FAILED;
     }
@@ -402,6 +403,7 @@ ZyanStatus ZyanStringAppendFormat(ZyanString* string, const char* format, ...)
     const ZyanStatus status = ZyanStringResize(string, string->vector.size + w - 1);
     if (!ZYAN_SUCCESS(status))
     {
+        ZYCORE_STRING_NULLTERMINATE(string);
         return status;
     }
 
@@ -411,6 +413,8 @@ ZyanStatus ZyanStringAppendFormat(ZyanString* string, const char* format, ...)
         string->vector.capacity - len + 1, format, arglist);
     if (w < 0)
     {
+        string->vector.size = len;
+        ZYCORE_STRING_NULLTERMINATE(string);
         ZYAN_VA_END(arglist);
         return ZYAN_STATUS_FAILED;
     }
-- 
2.43.0


From 1dd732e05666976268db8b3bbeb290e280ef4ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:32 +0000
Subject: [PATCH 30/35] fix: report failing list element constructors and
 release the node

---
 src/List.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/List.c b/src/List.c
index e233da8..e0f9e74 100644
--- a/src/List.c
+++ b/src/List.c
@@ -406,7 +406,12 @@ ZyanStatus ZyanListEmplaceBack(ZyanList* list, void** item, ZyanMemberFunction c
     *item = ZYCORE_LIST_GET_NODE_DATA(node);
     if (constructor)
     {
-        constructor(*item);
+        const ZyanStatus status = constructor(*item);
+        if (!ZYAN_SUCCESS(status))
+        {
+            ZyanListDeallocateNode(list, node);
+            return status;
+        }
     }
 
     if (!list->head)
@@ -438,7 +443,12 @@ ZyanStatus ZyanListEmplaceFront(ZyanList* list, void** item, ZyanMemberFunction
     *item = ZYCORE_LIST_GET_NODE_DATA(node);
     if (constructor)
     {
-        constructor(*item);
+        const ZyanStatus status = constructor(*item);
+        if (!ZYAN_SUCCESS(status))
+        {
+            ZyanListDeallocateNode(list, node);
+            return status;
+        }
     }
 
     if (!list->head)
-- 
2.43.0


From 096e83a3ba5fbbe8f1c4aea907310bf212b7a497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:32 +0000
Subject: [PATCH 31/35] fix: keep the list consistent if releasing a node fails
 while shrinking

---
 src/List.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/List.c b/src/List.c
index e0f9e74..89fb79c 100644
--- a/src/List.c
+++ b/src/List.c
@@ -594,6 +594,17 @@ ZyanStatus ZyanListResizeEx(ZyanList* list, ZyanUSize size, const void* initiali
 
             if (is_dynamic)
             {
+                // The node is gone, even if the allocator fails to release it
+                list->head = next;
+                if (next)
+                {
+                    next->prev = ZYAN_NULL;
+                } else
+                {
+                    list->tail = ZYAN_NULL;
+                }
+                --list->size;
+
                 ZYAN_CHECK(list->allocator->deallocate(list->allocator, node,
                     sizeof(ZyanListNode) + list->element_size, 1));
             }
@@ -638,7 +649,7 @@ ZyanStatus ZyanListResizeEx(ZyanList* list, ZyanUSize size, const void* initiali
         }
     } else
     {
-        for (ZyanUSize i = size; i < list->size; ++i)
+        while (list->size > size)
         {
             ZyanListNode* const node = list->tail;
 
@@ -652,11 +663,10 @@ ZyanStatus ZyanListResizeEx(ZyanList* list, ZyanUSize size, const void* initiali
             {
                 list->tail->next = ZYAN_NULL;
             }
+            --list->size;
 
             ZYAN_CHECK(ZyanListDeallocateNode(list, node));
         }
-
-        list->size = size;
     }
 
     return ZYAN_STATUS_SUCCESS;
-- 
2.43.0


From ecfb61ecba982c6bff2f8c269a01eb92917e5590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:32 +0000
Subject: [PATCH 32/35] fix: keep the list unchanged if growing it fails

---
 src/List.c | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/List.c b/src/List.c
index 89fb79c..d1b9de8 100644
--- a/src/List.c
+++ b/src/List.c
@@ -623,9 +623,29 @@ ZyanStatus ZyanListResizeEx(ZyanList* list, ZyanUSize size, const void* initiali
     if (size > list->size)
     {
         ZyanListNode* node;
+        const ZyanUSize size_old = list->size;
         for (ZyanUSize i = list->size; i < size; ++i)
         {
-            ZYAN_CHECK(ZyanListAllocateNode(list, &node));
+            const ZyanStatus status = ZyanListAllocateNode(list, &node);
+            if (!ZYAN_SUCCESS(status))
+            {
+                // Drop the nodes that have already been added
+                while (list->size > size_old)
+                {
+                    node = list->tail;
+                    list->tail = node->prev;
+                    if (list->tail)
+                    {
+                        list->tail->next = ZYAN_NULL;
+                    } else
+                    {
+                        list->head = ZYAN_NULL;
+                    }
+                    --list->size;
+                    ZyanListDeallocateNode(list, node);
+                }
+                return status;
+            }
             node->prev = list->tail;
             node->next = ZYAN_NULL;
 
-- 
2.43.0


From 4a3dc757b329c692a9e34652c829909c3c2cb946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:32 +0000
Subject: [PATCH 33/35] fix: remove list nodes instead of only reporting
 success

---
 src/List.c | 50 +++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 43 insertions(+), 7 deletions(-)

diff --git a/src/List.c b/src/List.c
index d1b9de8..b3103ab 100644
--- a/src/List.c
+++ b/src/List.c
@@ -535,17 +535,53 @@ ZyanStatus ZyanListPopFront(ZyanList* list)
 
 ZyanStatus ZyanListRemove(ZyanList* list, const ZyanListNode* node)
 {
-    ZYAN_UNUSED(list);
-    ZYAN_UNUSED(node);
-    return ZYAN_STATUS_SUCCESS;
+    if (!list || !node)
+    {
+        return ZYAN_STATUS_INVALID_ARGUMENT;
+    }
+
+    ZyanListNode* const item = (ZyanListNode*)node;
+
+    if (list->destructor)
+    {
+        list->destructor(ZYCORE_LIST_GET_NODE_DATA(item));
+    }
+
+    if (item->prev)
+    {
+        item->prev->next = item->next;
+    } else
+    {
+        list->head = item->next;
+    }
+    if (item->next)
+    {
+        item->next->prev = item->prev;
+    } else
+    {
+        list->tail = item->prev;
+    }
+    --list->size;
+
+    return ZyanListDeallocateNode(list, item);
 }
 
 ZyanStatus ZyanListRemoveRange(ZyanList* list, const ZyanListNode* first, const ZyanListNode* last)
 {
-    ZYAN_UNUSED(list);
-    ZYAN_UNUSED(first);
-    ZYAN_UNUSED(last);
-    return ZYAN_STATUS_SUCCESS;
+    if (!list || !first || !last)
+    {
+        return ZYAN_STATUS_INVALID_ARGUMENT;
+    }
+
+    const ZyanListNode* node = first;
+    while (node != last)
+    {
+        const ZyanListNode* const next = node->next;
+        ZYAN_CHECK(ZyanListRemove(list, node));
+        node = next;
+    }
+
+    return ZyanListRemove(list, node);
 }
 
 ZyanStatus ZyanListClear(ZyanList* list)
-- 
2.43.0


From 20168f2234b895792cd94acef77d2f7c298e9bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:46 +0000
Subject: [PATCH 34/35] fix: do not treat a token of boolean flags as an
 unnamed argument too

---
 src/ArgParse.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ArgParse.c b/src/ArgParse.c
index 109cfc8..4d782a9 100644
--- a/src/ArgParse.c
+++ b/src/ArgParse.c
@@ -205,6 +205,9 @@ ZyanStatus ZyanArgParseEx(const ZyanArgParseConfig *cfg, ZyanVector* parsed,
                     goto continue_main_loop;
                 }
             }
+
+            // All chars were boolean arguments, the token is fully processed.
+            continue;
         }
 
         // Still here? We're looking at an unnamed argument.
-- 
2.43.0


From 640a1fbd3162bcea515640f3e9cb4405897509ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:47 +0000
Subject: [PATCH 35/35] fix: release the parsed arguments if adding one fails

---
 src/ArgParse.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/ArgParse.c b/src/ArgParse.c
index 4d782a9..7aa218a 100644
--- a/src/ArgParse.c
+++ b/src/ArgParse.c
@@ -105,7 +105,11 @@ ZyanStatus ZyanArgParseEx(const ZyanArgParseConfig *cfg, ZyanVector* parsed,
             {
                 // Allocate parsed argument struct.
                 ZyanArgParseArg* parsed_arg;
-                ZYAN_CHECK(ZyanVectorEmplace(parsed, (void**)&parsed_arg, ZYAN_NULL));
+                err = ZyanVectorEmplace(parsed, (void**)&parsed_arg, ZYAN_NULL);
+                if (!ZYAN_SUCCESS(err))
+                {
+                    goto failure;
+                }
                 ZYAN_MEMSET(parsed_arg, 0, sizeof(*parsed_arg));
 
                 // Find corresponding argument definition.
@@ -155,7 +159,11 @@ ZyanStatus ZyanArgParseEx(const ZyanArgParseConfig *cfg, ZyanVector* parsed,
             {
                 // Allocate parsed argument struct.
                 ZyanArgParseArg* parsed_arg;
-                ZYAN_CHECK(ZyanVectorEmplace(parsed, (void**)&parsed_arg, ZYAN_NULL));
+                err = ZyanVectorEmplace(parsed, (void**)&parsed_arg, ZYAN_NULL);
+                if (!ZYAN_SUCCESS(err))
+                {
+                    goto failure;
+                }
                 ZYAN_MEMSET(parsed_arg, 0, sizeof(*parsed_arg));
 
                 // Find corresponding argument definition.
@@ -221,7 +229,11 @@ ZyanStatus ZyanArgParseEx(const ZyanArgParseConfig *cfg, ZyanVector* parsed,
 
         // Allocate parsed argument struct.
         ZyanArgParseArg* parsed_arg;
-        ZYAN_CHECK(ZyanVectorEmplace(parsed, (void**)&parsed_arg, ZYAN_NULL));
+        err = ZyanVectorEmplace(parsed, (void**)&parsed_arg, ZYAN_NULL);
+        if (!ZYAN_SUCCESS(err))
+        {
+            goto failure;
+        }
         ZYAN_MEMSET(parsed_arg, 0, sizeof(*parsed_arg));
         parsed_arg->has_value = ZYAN_TRUE;
         ZYAN_CHECK(ZyanStringViewInsideBuffer(&parsed_arg->value, cur_arg));
-- 
2.43.0


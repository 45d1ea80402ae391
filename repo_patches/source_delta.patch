From 5fc122c7db3dd99b5984d43f9bee8b0c3e053cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:10 +0000
Subject: [PATCH 01/33] fix: overflow-safe range checks in ZyanVector

`index + count` wraps around for large values, so e.g. `ZyanVectorDelete(v, (ZyanUSize)-1)`
passed the range check and corrupted memory instead of returning `OUT_OF_RANGE`. The stray
`index == size` condition also made `ZyanVectorFind` report an error for an empty vector,
where the element is simply not found.
---
 src/Vector.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Vector.c b/src/Vector.c
index f92c9de..657c83a 100644
--- a/src/Vector.c
+++ b/src/Vector.c
@@ -576,7 +576,7 @@ ZyanStatus ZyanVectorDeleteRange(ZyanVector* vector, ZyanUSize index, ZyanUSize
     {
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
-    if (index + count > vector->size)
+    if ((index > vector->size) || (count > vector->size - index))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -657,7 +657,7 @@ ZyanStatus ZyanVectorFindEx(const ZyanVector* vector, const void* element, ZyanI
     {
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
-    if ((index + count > vector->size) || (index == vector->size))
+    if ((index > vector->size) || (count > vector->size - index))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -702,7 +702,7 @@ ZyanStatus ZyanVectorBinarySearchEx(const ZyanVector* vector, const void* elemen
     {
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
-    if (((index >= vector->size) && (count > 0)) || (index + count > vector->size))
+    if ((index > vector->size) || (count > vector->size - index))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
-- 
2.43.0


From 22e9272af3bfde8e22a50ef1b0e1bf76c99fd7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:10 +0000
Subject: [PATCH 02/33] fix: do not change the vector capacity if the
 reallocation fails

The capacity was updated before calling the allocator. After a failed attempt to grow, the vector
claimed to own memory it did not have and the next insertion wrote past the end of the buffer.
---
 src/Vector.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Vector.c b/src/Vector.c
index 657c83a..66f8374 100644
--- a/src/Vector.c
+++ b/src/Vector.c
@@ -111,9 +111,9 @@ static ZyanStatus ZyanVectorReallocate(ZyanVector* vector, ZyanUSize capacity)
         }
     }
 
-    vector->capacity = capacity;
     ZYAN_CHECK(vector->allocator->reallocate(vector->allocator, &vector->data,
-        vector->element_size, vector->capacity));
+        vector->element_size, capacity));
+    vector->capacity = capacity;
 
     return ZYAN_STATUS_SUCCESS;
 }
-- 
2.43.0


From 368019291a6c0c19f1fcd0f7bd974e696c6414e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:10 +0000
Subject: [PATCH 03/33] fix: do not destruct elements twice if shrinking a
 vector fails

`ZyanVectorResizeEx` destructed the surplus elements, but kept them in the vector if the following
reallocation failed.
---
 src/Vector.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Vector.c b/src/Vector.c
index 66f8374..0880e9d 100644
--- a/src/Vector.c
+++ b/src/Vector.c
@@ -766,6 +766,8 @@ ZyanStatus ZyanVectorResizeEx(ZyanVector* vector, ZyanUSize size, const void* in
         {
             vector->destructor(ZYCORE_VECTOR_OFFSET(vector, i));
         }
+        // The elements are gone, even if the attempt to give back memory below fails
+        vector->size = size;
     }
 
     if (ZYCORE_VECTOR_SHOULD_GROW(size, vector->capacity) ||
-- 
2.43.0


From 77d1dec8b46c033ddec7b7d7611ce96846bc0484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:10 +0000
Subject: [PATCH 04/33] fix: restore the vector if an emplace constructor fails

A failing constructor left the elements behind `index` shifted by one, which duplicated an
(uninitialized) slot and lost the last element.
---
 src/Vector.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/Vector.c b/src/Vector.c
index 0880e9d..05d4a8e 100644
--- a/src/Vector.c
+++ b/src/Vector.c
@@ -520,7 +520,18 @@ ZyanStatus ZyanVectorEmplaceEx(ZyanVector* vector, ZyanUSize index, void** eleme
     *element = ZYCORE_VECTOR_OFFSET(vector, index);
     if (constructor)
     {
-        ZYAN_CHECK(constructor(*element));
+        const ZyanStatus status = constructor(*element);
+        if (!ZYAN_SUCCESS(status))
+        {
+            if (index < vector->size)
+            {
+                // Close the gap again
+                ZYAN_MEMMOVE(ZYCORE_VECTOR_OFFSET(vector, index),
+                    ZYCORE_VECTOR_OFFSET(vector, index + 1),
+                    (vector->size - index) * vector->element_size);
+            }
+            return status;
+        }
     }
 
     ++vector->size;
-- 
2.43.0


From d36b093e3fb91b858eb11ac552eeaec4ed50f79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:10 +0000
Subject: [PATCH 05/33] fix: detect size overflows in the default allocator

`element_size * n` may wrap around, which returned a block much smaller than requested.
---
 src/Allocator.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/Allocator.c b/src/Allocator.c
index 5fadf64..45ac93e 100644
--- a/src/Allocator.c
+++ b/src/Allocator.c
@@ -47,6 +47,11 @@ static ZyanStatus ZyanAllocatorDefaultAllocate(ZyanAllocator* allocator, void**
 
     ZYAN_UNUSED(allocator);
 
+    if (n > (ZyanUSize)-1 / element_size)
+    {
+        return ZYAN_STATUS_NOT_ENOUGH_MEMORY;
+    }
+
     *p = ZYAN_MALLOC(element_size * n);
     if (!*p)
     {
@@ -66,6 +71,11 @@ static ZyanStatus ZyanAllocatorDefaultReallocate(ZyanAllocator* allocator, void*
 
     ZYAN_UNUSED(allocator);
 
+    if (n > (ZyanUSize)-1 / element_size)
+    {
+        return ZYAN_STATUS_NOT_ENOUGH_MEMORY;
+    }
+
     void* const x = ZYAN_REALLOC(*p, element_size * n);
     if (!x)
     {
-- 
2.43.0


From 0041888aeb508bb9d2dfae14b26569c5019a099f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:10 +0000
Subject: [PATCH 06/33] fix: detect capacity overflows in ZyanVectorResize

`size * growth_factor` may wrap around for large sizes. The vector got a tiny buffer in this case,
but nevertheless reported the requested size.
---
 src/Vector.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/Vector.c b/src/Vector.c
index 05d4a8e..7928334 100644
--- a/src/Vector.c
+++ b/src/Vector.c
@@ -54,6 +54,17 @@
 #define ZYCORE_VECTOR_SHOULD_SHRINK(size, capacity, threshold) \
     (((threshold) != 0) && ((size) * (threshold) < (capacity)))
 
+/**
+ * Returns the new capacity for a vector that has to hold `size` elements.
+ *
+ * @param   size            The desired size of the vector.
+ * @param   growth_factor   The growth factor.
+ *
+ * @return  The new capacity. The growth factor is ignored, if the result would overflow.
+ */
+#define ZYCORE_VECTOR_NEW_CAPACITY(size, growth_factor) \
+    (((size) > (ZyanUSize)-1 / (growth_factor)) ? (size) : ((size) * (growth_factor)))
+
 /**
  * Returns the offset of the element at the given `index`.
  *
@@ -785,7 +796,8 @@ ZyanStatus ZyanVectorResizeEx(ZyanVector* vector, ZyanUSize size, const void* in
         ZYCORE_VECTOR_SHOULD_SHRINK(size, vector->capacity, vector->shrink_threshold))
     {
         ZYAN_ASSERT(vector->growth_factor >= 1);
-        ZYAN_CHECK(ZyanVectorReallocate(vector, (ZyanUSize)(size * vector->growth_factor)));
+        ZYAN_CHECK(ZyanVectorReallocate(vector,
+            ZYCORE_VECTOR_NEW_CAPACITY(size, vector->growth_factor)));
     }
 
     if (initializer && (size > vector->size))
-- 
2.43.0


From e80d01fb9d68c22623a2c081b2b2e7eb4546d663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:33 +0000
Subject: [PATCH 07/33] fix: lost text in ZyanStringAppendFormat

If the text did not fit, the already consumed argument list was used a second time (undefined
behavior, garbage output) and the buffer size passed to the second attempt did not match the
reserved space, which truncated the text for small growth factors. On failure, the string lost its
terminating '\0'.
---
 src/Format.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/Format.c b/src/Format.c
index 46d87e1..0fe954f 100644
--- a/src/Format.c
+++ b/src/Format.c
@@ -381,11 +381,15 @@ ZyanStatus ZyanStringAppendFormat(ZyanString* string, const char* format, ...)
 
     const ZyanUSize len = string->vector.size;
 
+    ZyanVAList arglist_copy;
+    ZYAN_VA_COPY(arglist_copy, arglist);
     ZyanI32 w = ZYAN_VSNPRINTF((char*)string->vector.data + len - 1,
-        string->vector.capacity - len + 1, format, arglist);
+        string->vector.capacity - len + 1, format, arglist_copy);
+    ZYAN_VA_END(arglist_copy);
     if (w < 0)
     {
         ZYAN_VA_END(arglist);
+        *((char*)string->vector.data + len - 1) = '\0';
         return ZYAN_STATUS_FAILED;
     }
     if (w <= (ZyanI32)(string->vector.capacity - len))
@@ -401,17 +405,20 @@ ZyanStatus ZyanStringAppendFormat(ZyanString* string, const char* format, ...)
     if (!ZYAN_SUCCESS(status))
     {
         ZYAN_VA_END(arglist);
+        *((char*)string->vector.data + len - 1) = '\0';
         return status;
     }
 
     w = ZYAN_VSNPRINTF((char*)string->vector.data + len - 1,
-        string->vector.capacity - string->vector.size + 1, format, arglist);
+        string->vector.size - len + 1, format, arglist);
     if (w < 0)
     {
         ZYAN_VA_END(arglist);
+        string->vector.size = len;
+        ZYCORE_STRING_NULLTERMINATE(string);
         return ZYAN_STATUS_FAILED;
     }
-    ZYAN_ASSERT(w <= (ZyanI32)(string->vector.capacity - string->vector.size));
+    ZYAN_ASSERT(len + w == string->vector.size);
 
     ZYAN_VA_END(arglist);
     return ZYAN_STATUS_SUCCESS;
-- 
2.43.0


From 72b0b4bed13dbb3743e2b5249bdcfc1e077aa04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:33 +0000
Subject: [PATCH 08/33] fix: leave the string unchanged if ZyanStringAppendHexU
 runs out of memory

If the space for the padding was available, but the one for the digits was not, the string was left
with additional garbage characters at the end.
---
 src/Format.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Format.c b/src/Format.c
index 0fe954f..7b97368 100644
--- a/src/Format.c
+++ b/src/Format.c
@@ -226,7 +226,9 @@ ZyanStatus ZyanStringAppendHexU32(ZyanString* string, ZyanU32 value, ZyanU8 padd
             }
             if (remaining <= (ZyanU8)i)
             {
-                ZYAN_CHECK(ZyanStringResize(string, string->vector.size + i));
+                string->vector.size = len;
+                ZYCORE_STRING_NULLTERMINATE(string);
+                ZYAN_CHECK(ZyanStringResize(string, len + i));
             }
             buffer = (char*)string->vector.data + len - 1;
             if (padding_length > i)
@@ -298,7 +300,9 @@ ZyanStatus ZyanStringAppendHexU64(ZyanString* string, ZyanU64 value, ZyanU8 padd
             }
             if (remaining <= (ZyanU8)i)
             {
-                ZYAN_CHECK(ZyanStringResize(string, string->vector.size + i));
+                string->vector.size = len;
+                ZYCORE_STRING_NULLTERMINATE(string);
+                ZYAN_CHECK(ZyanStringResize(string, len + i));
             }
             buffer = (char*)string->vector.data + len - 1;
             if (padding_length > i)
-- 
2.43.0


From e89c0a4127e3e7057bf352752871fc9610a051c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:33 +0000
Subject: [PATCH 09/33] fix: do not leave a lone sign or prefix behind in
 ZyanStringAppendDecS/HexS

If the number itself did not fit, the already appended sign and prefix stayed in the string.
---
 src/Format.c | 74 ++++++++++++++++++++++++++++++++++------------------
 1 file changed, 48 insertions(+), 26 deletions(-)

diff --git a/src/Format.c b/src/Format.c
index 7b97368..48f414b 100644
--- a/src/Format.c
+++ b/src/Format.c
@@ -449,27 +449,38 @@ ZyanStatus ZyanStringAppendDecU(ZyanString* string, ZyanU64 value, ZyanU8 paddin
 ZyanStatus ZyanStringAppendDecS(ZyanString* string, ZyanI64 value, ZyanU8 padding_length,
     ZyanBool force_sign, const ZyanStringView* prefix)
 {
-    if (value < 0)
+    if (!string)
     {
-        ZYAN_CHECK(ZyanStringAppend(string, &STR_SUB));
-        if (prefix)
-        {
-            ZYAN_CHECK(ZyanStringAppend(string, prefix));
-        }
-        return ZyanStringAppendDecU(string, ZyanAbsI64(value), padding_length);
+        return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
+    const ZyanUSize len = string->vector.size;
+    ZyanStatus status = ZYAN_STATUS_SUCCESS;
+
+    if (value < 0)
+    {
+        status = ZyanStringAppend(string, &STR_SUB);
+    } else
     if (force_sign)
     {
-        ZYAN_ASSERT(value >= 0);
-        ZYAN_CHECK(ZyanStringAppend(string, &STR_ADD));
+        status = ZyanStringAppend(string, &STR_ADD);
     }
-
-    if (prefix)
+    if (ZYAN_SUCCESS(status) && prefix)
+    {
+        status = ZyanStringAppend(string, prefix);
+    }
+    if (ZYAN_SUCCESS(status))
     {
-        ZYAN_CHECK(ZyanStringAppend(string, prefix));
+        status = ZyanStringAppendDecU(string, ZyanAbsI64(value), padding_length);
     }
-    return ZyanStringAppendDecU(string, value, padding_length);
+    if (!ZYAN_SUCCESS(status))
+    {
+        // Remove the sign and the prefix again
+        string->vector.size = len;
+        ZYCORE_STRING_NULLTERMINATE(string);
+    }
+
+    return status;
 }
 
 ZyanStatus ZyanStringAppendHexU(ZyanString* string, ZyanU64 value, ZyanU8 padding_length,
@@ -490,27 +501,38 @@ ZyanStatus ZyanStringAppendHexU(ZyanString* string, ZyanU64 value, ZyanU8 paddin
 ZyanStatus ZyanStringAppendHexS(ZyanString* string, ZyanI64 value, ZyanU8 padding_length,
     ZyanBool uppercase, ZyanBool force_sign, const ZyanStringView* prefix)
 {
-    if (value < 0)
+    if (!string)
     {
-        ZYAN_CHECK(ZyanStringAppend(string, &STR_SUB));
-        if (prefix)
-        {
-            ZYAN_CHECK(ZyanStringAppend(string, prefix));
-        }
-        return ZyanStringAppendHexU(string, ZyanAbsI64(value), padding_length, uppercase);
+        return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
+    const ZyanUSize len = string->vector.size;
+    ZyanStatus status = ZYAN_STATUS_SUCCESS;
+
+    if (value < 0)
+    {
+        status = ZyanStringAppend(string, &STR_SUB);
+    } else
     if (force_sign)
     {
-        ZYAN_ASSERT(value >= 0);
-        ZYAN_CHECK(ZyanStringAppend(string, &STR_ADD));
+        status = ZyanStringAppend(string, &STR_ADD);
     }
-
-    if (prefix)
+    if (ZYAN_SUCCESS(status) && prefix)
+    {
+        status = ZyanStringAppend(string, prefix);
+    }
+    if (ZYAN_SUCCESS(status))
     {
-        ZYAN_CHECK(ZyanStringAppend(string, prefix));
+        status = ZyanStringAppendHexU(string, ZyanAbsI64(value), padding_length, uppercase);
     }
-    return ZyanStringAppendHexU(string, value, padding_length, uppercase);
+    if (!ZYAN_SUCCESS(status))
+    {
+        // Remove the sign and the prefix again
+        string->vector.size = len;
+        ZYCORE_STRING_NULLTERMINATE(string);
+    }
+
+    return status;
 }
 
 /* ---------------------------------------------------------------------------------------------- */
-- 
2.43.0


From bc3e1fc781d1f8d455158ea6264fa70b5085a090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:22 +0000
Subject: [PATCH 10/33] fix: reserve space for the bits of the last partial
 byte in ZyanBitset

The number of bytes was computed using an integer division, which always rounds down. A bitset with
e.g. 13 bits only got a single byte and the last 5 bits could not be accessed.
---
 src/Bitset.c | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/src/Bitset.c b/src/Bitset.c
index b1c733d..683ac36 100644
--- a/src/Bitset.c
+++ b/src/Bitset.c
@@ -38,16 +38,6 @@
 /* Internal macros                                                                                */
 /* ============================================================================================== */
 
-/**
- * Computes the smallest integer value not less than `x`.
- *
- * @param   x   The value.
- *
- * @return  The smallest integer value not less than `x`.
- */
-#define ZYAN_BITSET_CEIL(x) \
-    (((x) == ((ZyanU32)(x))) ? (ZyanU32)(x) : ((ZyanU32)(x)) + 1)
-
 /**
  * Converts bits to bytes.
  *
@@ -56,7 +46,7 @@
  * @return  The amount of bytes needed to fit `x` bits.
  */
 #define ZYAN_BITSET_BITS_TO_BYTES(x) \
-    ZYAN_BITSET_CEIL((x) / 8)
+    (((x) / 8) + (((x) % 8) ? 1 : 0))
 
 /**
  * Returns the offset of the given bit.
@@ -147,7 +137,7 @@ ZyanStatus ZyanBitsetInitEx(ZyanBitset* bitset, ZyanUSize count, ZyanAllocator*
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
-    const ZyanU32 bytes = ZYAN_BITSET_BITS_TO_BYTES(count);
+    const ZyanUSize bytes = ZYAN_BITSET_BITS_TO_BYTES(count);
 
     bitset->size = count;
     ZYAN_CHECK(ZyanVectorInitEx(&bitset->bits, sizeof(ZyanU8), bytes, ZYAN_NULL, allocator,
@@ -165,7 +155,7 @@ ZyanStatus ZyanBitsetInitBuffer(ZyanBitset* bitset, ZyanUSize count, void* buffe
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
-    const ZyanU32 bytes = ZYAN_BITSET_BITS_TO_BYTES(count);
+    const ZyanUSize bytes = ZYAN_BITSET_BITS_TO_BYTES(count);
     if (capacity < bytes)
     {
         return ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE;
-- 
2.43.0


From c7fdcb7c65bf6132781f949743b0366304d9a5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:22 +0000
Subject: [PATCH 11/33] fix: ignore the unused bits of the last byte in
 ZyanBitsetCount/All/Any/None

The mask for the last byte was computed incorrectly and `ZyanBitsetCount` did not use one at all, so
the results depended on unused bits and missed some of the used ones.
---
 src/Bitset.c | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/Bitset.c b/src/Bitset.c
index 683ac36..0eb59d4 100644
--- a/src/Bitset.c
+++ b/src/Bitset.c
@@ -58,6 +58,16 @@
 #define ZYAN_BITSET_BIT_OFFSET(index) \
     (7 - ((index) % 8))
 
+/**
+ * Returns a mask that covers all used bits in the last byte of a bitset.
+ *
+ * @param   size    The number of bits.
+ *
+ * @return  A mask that covers all used bits in the last byte of a bitset.
+ */
+#define ZYAN_BITSET_LAST_BYTE_MASK(size) \
+    ((ZyanU8)(0xFF << ((8 - ((size) % 8)) % 8)))
+
 /* ============================================================================================== */
 /* Internal functions                                                                             */
 /* ============================================================================================== */
@@ -513,6 +523,10 @@ ZyanStatus ZyanBitsetCount(const ZyanBitset* bitset, ZyanUSize* count)
         ZYAN_CHECK(ZyanVectorGetPointer(&bitset->bits, i, (const void**)&value));
 
         ZyanU8 popcnt = *value;
+        if (i == (size - 1))
+        {
+            popcnt &= ZYAN_BITSET_LAST_BYTE_MASK(bitset->size);
+        }
         popcnt = (popcnt & 0x55) + ((popcnt >> 1) & 0x55);
         popcnt = (popcnt & 0x33) + ((popcnt >> 2) & 0x33);
         popcnt = (popcnt & 0x0F) + ((popcnt >> 4) & 0x0F);
@@ -520,8 +534,6 @@ ZyanStatus ZyanBitsetCount(const ZyanBitset* bitset, ZyanUSize* count)
         *count += popcnt;
     }
 
-    *count = ZYAN_MIN(*count, bitset->size);
-
     return ZYAN_STATUS_SUCCESS;
 }
 
@@ -546,7 +558,7 @@ ZyanStatus ZyanBitsetAll(const ZyanBitset* bitset)
             }
         } else
         {
-            const ZyanU8 mask = ~(8 - (bitset->size % 8));
+            const ZyanU8 mask = ZYAN_BITSET_LAST_BYTE_MASK(bitset->size);
             if ((*value & mask) != mask)
             {
                 return ZYAN_STATUS_FALSE;
@@ -578,7 +590,7 @@ ZyanStatus ZyanBitsetAny(const ZyanBitset* bitset)
             }
         } else
         {
-            const ZyanU8 mask = ~(8 - (bitset->size % 8));
+            const ZyanU8 mask = ZYAN_BITSET_LAST_BYTE_MASK(bitset->size);
             if ((*value & mask) != 0x00)
             {
                 return ZYAN_STATUS_TRUE;
@@ -610,7 +622,7 @@ ZyanStatus ZyanBitsetNone(const ZyanBitset* bitset)
             }
         } else
         {
-            const ZyanU8 mask = ~(8 - (bitset->size % 8));
+            const ZyanU8 mask = ZYAN_BITSET_LAST_BYTE_MASK(bitset->size);
             if ((*value & mask) != 0x00)
             {
                 return ZYAN_STATUS_FALSE;
-- 
2.43.0


From 68436b33a2aa697dadadb085c5285c781aad61ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:22 +0000
Subject: [PATCH 12/33] fix: keep the size of a bitset if changing the storage
 fails

`ZyanBitsetPush` and `ZyanBitsetClear` updated the number of bits before the underlying vector was
changed successfully.
---
 src/Bitset.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Bitset.c b/src/Bitset.c
index 0eb59d4..bcfbd53 100644
--- a/src/Bitset.c
+++ b/src/Bitset.c
@@ -411,11 +411,12 @@ ZyanStatus ZyanBitsetPush(ZyanBitset* bitset, ZyanBool value)
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
-    if ((bitset->size++ % 8) == 0)
+    if ((bitset->size % 8) == 0)
     {
         static const ZyanU8 zero = 0;
         ZYAN_CHECK(ZyanVectorPushBack(&bitset->bits, &zero));
     }
+    ++bitset->size;
 
     return ZyanBitsetAssign(bitset, bitset->size - 1, value);
 }
@@ -442,8 +443,10 @@ ZyanStatus ZyanBitsetClear(ZyanBitset* bitset)
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
+    ZYAN_CHECK(ZyanVectorClear(&bitset->bits));
     bitset->size = 0;
-    return ZyanVectorClear(&bitset->bits);
+
+    return ZYAN_STATUS_SUCCESS;
 }
 
 /* ---------------------------------------------------------------------------------------------- */
-- 
2.43.0


From 084cface70220031e2d2a27ee17939c2ac775d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:22 +0000
Subject: [PATCH 13/33] fix: do not underflow the size of an empty bitset in
 ZyanBitsetPop

---
 src/Bitset.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Bitset.c b/src/Bitset.c
index bcfbd53..7b68949 100644
--- a/src/Bitset.c
+++ b/src/Bitset.c
@@ -428,6 +428,11 @@ ZyanStatus ZyanBitsetPop(ZyanBitset* bitset)
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
+    if (bitset->size == 0)
+    {
+        return ZYAN_STATUS_OUT_OF_RANGE;
+    }
+
     if ((--bitset->size % 8) == 0)
     {
         return ZyanVectorPopBack(&bitset->bits);
-- 
2.43.0


From 1d91f9fb919dd287a53b434353c4ae06df5e1d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:22 +0000
Subject: [PATCH 14/33] fix: check for ZYAN_NULL in ZyanBitsetReserve and
 ZyanBitsetShrinkToFit

---
 src/Bitset.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/Bitset.c b/src/Bitset.c
index 7b68949..67a9463 100644
--- a/src/Bitset.c
+++ b/src/Bitset.c
@@ -460,11 +460,21 @@ ZyanStatus ZyanBitsetClear(ZyanBitset* bitset)
 
 ZyanStatus ZyanBitsetReserve(ZyanBitset* bitset, ZyanUSize count)
 {
+    if (!bitset)
+    {
+        return ZYAN_STATUS_INVALID_ARGUMENT;
+    }
+
     return ZyanVectorReserve(&bitset->bits, ZYAN_BITSET_BITS_TO_BYTES(count));
 }
 
 ZyanStatus ZyanBitsetShrinkToFit(ZyanBitset* bitset)
 {
+    if (!bitset)
+    {
+        return ZYAN_STATUS_INVALID_ARGUMENT;
+    }
+
     return ZyanVectorShrinkToFit(&bitset->bits);
 }
 
-- 
2.43.0


From 0db901162c6c44d8e2973cbdaa0bde87c0e374e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:22 +0000
Subject: [PATCH 15/33] fix: do not treat boolean single-dash arguments as
 unnamed arguments

A token like `-a` was reported twice: as argument `-a` and as unnamed argument with the value "-a".
---
 src/ArgParse.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ArgParse.c b/src/ArgParse.c
index 109cfc8..16cd944 100644
--- a/src/ArgParse.c
+++ b/src/ArgParse.c
@@ -205,6 +205,9 @@ ZyanStatus ZyanArgParseEx(const ZyanArgParseConfig *cfg, ZyanVector* parsed,
                     goto continue_main_loop;
                 }
             }
+
+            // Continue parsing at next token.
+            continue;
         }
 
         // Still here? We're looking at an unnamed argument.
-- 
2.43.0


From 6fc025a7b8bf433b18a1b1ca4c3377a60f5840dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:22 +0000
Subject: [PATCH 16/33] fix: do not leak the parsed arguments in ZyanArgParseEx
 if out of memory

---
 src/ArgParse.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/ArgParse.c b/src/ArgParse.c
index 16cd944..532b43f 100644
--- a/src/ArgParse.c
+++ b/src/ArgParse.c
@@ -105,7 +105,11 @@ ZyanStatus ZyanArgParseEx(const ZyanArgParseConfig *cfg, ZyanVector* parsed,
             {
                 // Allocate parsed argument struct.
                 ZyanArgParseArg* parsed_arg;
-                ZYAN_CHECK(ZyanVectorEmplace(parsed, (void**)&parsed_arg, ZYAN_NULL));
+                err = ZyanVectorEmplace(parsed, (void**)&parsed_arg, ZYAN_NULL);
+                if (!ZYAN_SUCCESS(err))
+                {
+                    goto failure;
+                }
                 ZYAN_MEMSET(parsed_arg, 0, sizeof(*parsed_arg));
 
                 // Find corresponding argument definition.
@@ -155,7 +159,11 @@ ZyanStatus ZyanArgParseEx(const ZyanArgParseConfig *cfg, ZyanVector* parsed,
             {
                 // Allocate parsed argument struct.
                 ZyanArgParseArg* parsed_arg;
-                ZYAN_CHECK(ZyanVectorEmplace(parsed, (void**)&parsed_arg, ZYAN_NULL));
+                err = ZyanVectorEmplace(parsed, (void**)&parsed_arg, ZYAN_NULL);
+                if (!ZYAN_SUCCESS(err))
+                {
+                    goto failure;
+                }
                 ZYAN_MEMSET(parsed_arg, 0, sizeof(*parsed_arg));
 
                 // Find corresponding argument definition.
@@ -221,7 +229,11 @@ ZyanStatus ZyanArgParseEx(const ZyanArgParseConfig *cfg, ZyanVector* parsed,
 
         // Allocate parsed argument struct.
         ZyanArgParseArg* parsed_arg;
-        ZYAN_CHECK(ZyanVectorEmplace(parsed, (void**)&parsed_arg, ZYAN_NULL));
+        err = ZyanVectorEmplace(parsed, (void**)&parsed_arg, ZYAN_NULL);
+        if (!ZYAN_SUCCESS(err))
+        {
+            goto failure;
+        }
         ZYAN_MEMSET(parsed_arg, 0, sizeof(*parsed_arg));
         parsed_arg->has_value = ZYAN_TRUE;
         ZYAN_CHECK(ZyanStringViewInsideBuffer(&parsed_arg->value, cur_arg));
-- 
2.43.0


From e76ec165d7ee2320ee132118aa25bbb9dc12018b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:00 +0000
Subject: [PATCH 17/33] fix: do not add an item to a ZyanList if its
 constructor fails

---
 src/List.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/List.c b/src/List.c
index e233da8..062353e 100644
--- a/src/List.c
+++ b/src/List.c
@@ -406,7 +406,12 @@ ZyanStatus ZyanListEmplaceBack(ZyanList* list, void** item, ZyanMemberFunction c
     *item = ZYCORE_LIST_GET_NODE_DATA(node);
     if (constructor)
     {
-        constructor(*item);
+        const ZyanStatus status = constructor(*item);
+        if (!ZYAN_SUCCESS(status))
+        {
+            ZYAN_CHECK(ZyanListDeallocateNode(list, node));
+            return status;
+        }
     }
 
     if (!list->head)
@@ -438,7 +443,12 @@ ZyanStatus ZyanListEmplaceFront(ZyanList* list, void** item, ZyanMemberFunction
     *item = ZYCORE_LIST_GET_NODE_DATA(node);
     if (constructor)
     {
-        constructor(*item);
+        const ZyanStatus status = constructor(*item);
+        if (!ZYAN_SUCCESS(status))
+        {
+            ZYAN_CHECK(ZyanListDeallocateNode(list, node));
+            return status;
+        }
     }
 
     if (!list->head)
-- 
2.43.0


From 4443030fb292aa706aa7cb76526e27c6099d4d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:00 +0000
Subject: [PATCH 18/33] fix: remove the nodes in ZyanListRemove and
 ZyanListRemoveRange

Both functions reported success without doing anything.
---
 src/List.c | 45 +++++++++++++++++++++++++++++++++++++++------
 1 file changed, 39 insertions(+), 6 deletions(-)

diff --git a/src/List.c b/src/List.c
index 062353e..4130b0f 100644
--- a/src/List.c
+++ b/src/List.c
@@ -535,16 +535,49 @@ ZyanStatus ZyanListPopFront(ZyanList* list)
 
 ZyanStatus ZyanListRemove(ZyanList* list, const ZyanListNode* node)
 {
-    ZYAN_UNUSED(list);
-    ZYAN_UNUSED(node);
-    return ZYAN_STATUS_SUCCESS;
+    return ZyanListRemoveRange(list, node, node);
 }
 
 ZyanStatus ZyanListRemoveRange(ZyanList* list, const ZyanListNode* first, const ZyanListNode* last)
 {
-    ZYAN_UNUSED(list);
-    ZYAN_UNUSED(first);
-    ZYAN_UNUSED(last);
+    if (!list || !first || !last)
+    {
+        return ZYAN_STATUS_INVALID_ARGUMENT;
+    }
+
+    ZyanListNode* const prev = first->prev;
+    ZyanListNode* const next = last->next;
+    ZyanListNode* node = (prev ? prev->next : list->head);
+    ZYAN_ASSERT(node == first);
+
+    if (prev)
+    {
+        prev->next = next;
+    } else
+    {
+        list->head = next;
+    }
+    if (next)
+    {
+        next->prev = prev;
+    } else
+    {
+        list->tail = prev;
+    }
+
+    while (node != next)
+    {
+        ZyanListNode* const current = node;
+        node = node->next;
+
+        if (list->destructor)
+        {
+            list->destructor(ZYCORE_LIST_GET_NODE_DATA(current));
+        }
+        --list->size;
+        ZYAN_CHECK(ZyanListDeallocateNode(list, current));
+    }
+
     return ZYAN_STATUS_SUCCESS;
 }
 
-- 
2.43.0


From 83722f9dadb8e280c239904d9433bf35fcdda061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:00 +0000
Subject: [PATCH 19/33] fix: respect the end of the strings in the
 strncmp/strstr fallbacks

`ZYAN_STRNCMP` did not stop at the terminating '\0' and `ZYAN_STRSTR` compared (and read) characters
behind the end of the haystack. An empty needle was not found in an empty haystack.
---
 include/Zycore/LibC.h | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/Zycore/LibC.h b/include/Zycore/LibC.h
index 59cebee..6f73349 100644
--- a/include/Zycore/LibC.h
+++ b/include/Zycore/LibC.h
@@ -397,10 +397,15 @@ ZYAN_INLINE int ZYAN_STRNCMP(const char* s1, const char* s2, ZyanUSize n)
 {
     while (n--)
     {
-        if (*s1++ != *s2++)
+        if (*s1 != *s2)
         {
-            return *(unsigned char*)(s1 - 1) - *(unsigned char*)(s2 - 1);
+            return *(const ZyanU8*)s1 - *(const ZyanU8*)s2;
         }
+        if (!*s1)
+        {
+            break;
+        }
+        s1++, s2++;
     }
     return 0;
 }
@@ -460,13 +465,13 @@ ZYAN_INLINE ZyanUSize ZYAN_STRSPN(const char* s1, const char* s2)
 ZYAN_INLINE char* ZYAN_STRSTR(const char* s1, const char* s2)
 {
     const ZyanUSize n = ZYAN_STRLEN(s2);
-    while (*s1)
+    do
     {
-        if (!ZYAN_MEMCMP(s1++, s2, n))
+        if (!ZYAN_STRNCMP(s1, s2, n))
         {
-            return (char*)(s1 - 1);
+            return (char*)s1;
         }
-    }
+    } while (*s1++);
     return 0;
 }
 
-- 
2.43.0


From 96bfdb49abf53582f50734e89782982d4fd24a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:57 +0000
Subject: [PATCH 20/33] fix: off-by-one in ZyanStringViewInsideViewEx

The size of a view includes the terminating '\0', so the view was one character too short (and
invalid, if `count` was zero).
---
 src/String.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/String.c b/src/String.c
index 9dce43f..24500e3 100644
--- a/src/String.c
+++ b/src/String.c
@@ -273,7 +273,7 @@ ZyanStatus ZyanStringViewInsideViewEx(ZyanStringView* view, const ZyanStringView
     }
 
     view->string.vector.data = (void*)((char*)source->string.vector.data + index);
-    view->string.vector.size = count;
+    view->string.vector.size = count + 1;
 
     return ZYAN_STATUS_SUCCESS;
 }
-- 
2.43.0


From 02c9ef896bc0ec195b5c28c816db58d1806241df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:57 +0000
Subject: [PATCH 21/33] fix: overflow-safe range checks in ZyanString

`index + count` wraps around for large values, so out of range requests were accepted and accessed
memory outside of the string.
---
 src/String.c | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/String.c b/src/String.c
index 24500e3..5b572c2 100644
--- a/src/String.c
+++ b/src/String.c
@@ -267,7 +267,7 @@ ZyanStatus ZyanStringViewInsideViewEx(ZyanStringView* view, const ZyanStringView
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
-    if (index + count >= source->string.vector.size)
+    if ((index >= source->string.vector.size) || (count >= source->string.vector.size - index))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -341,7 +341,7 @@ ZyanStatus ZyanStringGetChar(const ZyanStringView* string, ZyanUSize index, char
     }
 
     // Don't allow direct access to the terminating '\0' character
-    if (index + 1 >= string->string.vector.size)
+    if (index >= string->string.vector.size - 1)
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -361,7 +361,7 @@ ZyanStatus ZyanStringGetCharMutable(ZyanString* string, ZyanUSize index, char**
     }
 
     // Don't allow direct access to the terminating '\0' character
-    if (index + 1 >= string->vector.size)
+    if (index >= string->vector.size - 1)
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -377,7 +377,7 @@ ZyanStatus ZyanStringSetChar(ZyanString* string, ZyanUSize index, char value)
     }
 
     // Don't allow direct access to the terminating '\0' character
-    if (index + 1 >= string->vector.size)
+    if (index >= string->vector.size - 1)
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -434,7 +434,8 @@ ZyanStatus ZyanStringInsertEx(ZyanString* destination, ZyanUSize destination_ind
     }
 
     // Don't allow access to the terminating '\0' character
-    if (source_index + count >= source->string.vector.size)
+    if ((source_index >= source->string.vector.size) ||
+        (count >= source->string.vector.size - source_index))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -475,7 +476,8 @@ ZyanStatus ZyanStringAppendEx(ZyanString* destination, const ZyanStringView* sou
     }
 
     // Don't allow access to the terminating '\0' character
-    if (source_index + count >= source->string.vector.size)
+    if ((source_index >= source->string.vector.size) ||
+        (count >= source->string.vector.size - source_index))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -501,7 +503,7 @@ ZyanStatus ZyanStringDelete(ZyanString* string, ZyanUSize index, ZyanUSize count
     }
 
     // Don't allow removal of the terminating '\0' character
-    if (index + count >= string->vector.size)
+    if ((index >= string->vector.size) || (count >= string->vector.size - index))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -572,7 +574,8 @@ ZyanStatus ZyanStringLPosEx(const ZyanStringView* haystack, const ZyanStringView
     }
 
     // Don't allow access to the terminating '\0' character
-    if (index + count >= haystack->string.vector.size)
+    if ((index >= haystack->string.vector.size) ||
+        (count >= haystack->string.vector.size - index))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -641,7 +644,8 @@ ZyanStatus ZyanStringLPosIEx(const ZyanStringView* haystack, const ZyanStringVie
     }
 
     // Don't allow access to the terminating '\0' character
-    if (index + count >= haystack->string.vector.size)
+    if ((index >= haystack->string.vector.size) ||
+        (count >= haystack->string.vector.size - index))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -954,7 +958,7 @@ ZyanStatus ZyanStringToLowerCaseEx(ZyanString* string, ZyanUSize index, ZyanUSiz
     }
 
     // Don't allow access to the terminating '\0' character
-    if (index + count >= string->vector.size)
+    if ((index >= string->vector.size) || (count >= string->vector.size - index))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -995,7 +999,7 @@ ZyanStatus ZyanStringToUpperCaseEx(ZyanString* string, ZyanUSize index, ZyanUSiz
     }
 
     // Don't allow access to the terminating '\0' character
-    if (index + count >= string->vector.size)
+    if ((index >= string->vector.size) || (count >= string->vector.size - index))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
-- 
2.43.0


From 378ecb083581a58fdbecfce8841acec0532dddc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:57 +0000
Subject: [PATCH 22/33] fix: use the size of the needle in ZyanStringLPos/LPosI

The search relied on a terminating '\0' in the needle, which does not exist for views of a substring.
---
 src/String.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/String.c b/src/String.c
index 5b572c2..c383112 100644
--- a/src/String.c
+++ b/src/String.c
@@ -598,16 +598,16 @@ ZyanStatus ZyanStringLPosEx(const ZyanStringView* haystack, const ZyanStringView
         const char* a = s;
         for (;;)
         {
-            if ((ZyanUSize)(a - (const char*)haystack->string.vector.data) > index + count)
-            {
-                *found_index = -1;
-                return ZYAN_STATUS_FALSE;
-            }
-            if (*b == 0)
+            if (b == (const char*)needle->string.vector.data + needle->string.vector.size - 1)
             {
                 *found_index = (ZyanISize)(s - (const char*)haystack->string.vector.data);
                 return ZYAN_STATUS_TRUE;
             }
+            if ((ZyanUSize)(a - (const char*)haystack->string.vector.data) >= index + count)
+            {
+                *found_index = -1;
+                return ZYAN_STATUS_FALSE;
+            }
             if (*a++ != *b++)
             {
                 break;
@@ -668,16 +668,16 @@ ZyanStatus ZyanStringLPosIEx(const ZyanStringView* haystack, const ZyanStringVie
         const char* a = s;
         for (;;)
         {
-            if ((ZyanUSize)(a - (const char*)haystack->string.vector.data) > index + count)
-            {
-                *found_index = -1;
-                return ZYAN_STATUS_FALSE;
-            }
-            if (*b == 0)
+            if (b == (const char*)needle->string.vector.data + needle->string.vector.size - 1)
             {
                 *found_index = (ZyanISize)(s - (const char*)haystack->string.vector.data);
                 return ZYAN_STATUS_TRUE;
             }
+            if ((ZyanUSize)(a - (const char*)haystack->string.vector.data) >= index + count)
+            {
+                *found_index = -1;
+                return ZYAN_STATUS_FALSE;
+            }
             const char c1 = *a++;
             const char c2 = *b++;
             if ((c1 != c2) && ((c1 ^ 32) != c2))
-- 
2.43.0


From 125fff798475caa86fe2b9e7e5a1b38025b77ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:57 +0000
Subject: [PATCH 23/33] fix: only ignore the case of letters in
 ZyanStringLPosI/RPosI/CompareI

Flipping bit 5 also matched unrelated characters like '@' and '`' or '[' and '{'.
---
 src/String.c | 34 +++++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/src/String.c b/src/String.c
index c383112..e521147 100644
--- a/src/String.c
+++ b/src/String.c
@@ -43,6 +43,30 @@
 #define ZYCORE_STRING_ASSERT_NULLTERMINATION(string) \
       ZYAN_ASSERT(*(char*)((ZyanU8*)(string)->vector.data + (string)->vector.size - 1) == '\0');
 
+/* ============================================================================================== */
+/* Internal functions                                                                             */
+/* ============================================================================================== */
+
+/**
+ * Compares two (ASCII) characters and ignores the case of letters.
+ *
+ * @param   c1  The first character.
+ * @param   c2  The second character.
+ *
+ * @return  `ZYAN_TRUE`, if both characters are equal or `ZYAN_FALSE`, if not.
+ */
+static ZyanBool ZyanStringEqualsCharI(char c1, char c2)
+{
+    if (c1 == c2)
+    {
+        return ZYAN_TRUE;
+    }
+
+    // Only letters have a case
+    const char c = c1 | 32;
+    return ((c == (c2 | 32)) && (c >= 'a') && (c <= 'z')) ? ZYAN_TRUE : ZYAN_FALSE;
+}
+
 /* ============================================================================================== */
 /* Exported functions                                                                             */
 /* ============================================================================================== */
@@ -661,7 +685,7 @@ ZyanStatus ZyanStringLPosIEx(const ZyanStringView* haystack, const ZyanStringVie
     const char* b = (const char*)needle->string.vector.data;
     for (; s + 1 < (const char*)haystack->string.vector.data + haystack->string.vector.size; ++s)
     {
-        if ((*s != *b) && ((*s ^ 32) != *b))
+        if (!ZyanStringEqualsCharI(*s, *b))
         {
             continue;
         }
@@ -680,7 +704,7 @@ ZyanStatus ZyanStringLPosIEx(const ZyanStringView* haystack, const ZyanStringVie
             }
             const char c1 = *a++;
             const char c2 = *b++;
-            if ((c1 != c2) && ((c1 ^ 32) != c2))
+            if (!ZyanStringEqualsCharI(c1, c2))
             {
                 break;
             }
@@ -801,7 +825,7 @@ ZyanStatus ZyanStringRPosIEx(const ZyanStringView* haystack, const ZyanStringVie
     const char* b = (const char*)needle->string.vector.data + needle->string.vector.size - 2;
     for (; s >= (const char*)haystack->string.vector.data; --s)
     {
-        if ((*s != *b) && ((*s ^ 32) != *b))
+        if (!ZyanStringEqualsCharI(*s, *b))
         {
             continue;
         }
@@ -820,7 +844,7 @@ ZyanStatus ZyanStringRPosIEx(const ZyanStringView* haystack, const ZyanStringVie
             }
             const char c1 = *a--;
             const char c2 = *b--;
-            if ((c1 != c2) && ((c1 ^ 32) != c2))
+            if (!ZyanStringEqualsCharI(c1, c2))
             {
                 break;
             }
@@ -909,7 +933,7 @@ ZyanStatus ZyanStringCompareI(const ZyanStringView* s1, const ZyanStringView* s2
     ZyanUSize i;
     for (i = 0; (i + 1 < s1->string.vector.size) && (i + 1 < s2->string.vector.size); ++i)
     {
-        if ((a[i] == b[i]) || ((a[i] ^ 32) == b[i]))
+        if (ZyanStringEqualsCharI(a[i], b[i]))
         {
             continue;
         }
-- 
2.43.0


From 9316e3de628864c0aaccfb9f6031eadb67bb9d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:57 +0000
Subject: [PATCH 24/33] fix: inconsistent results of ZyanStringCompare/CompareI

Comparing e.g. "A" with "a" returned 1 independent of the order of the arguments, which is not usable
for sorting. Furthermore, the character behind the end of the strings was accessed, which does not have
to be a terminating '\0' for views of a substring.
---
 src/String.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/String.c b/src/String.c
index e521147..a04bbf6 100644
--- a/src/String.c
+++ b/src/String.c
@@ -890,13 +890,13 @@ ZyanStatus ZyanStringCompare(const ZyanStringView* s1, const ZyanStringView* s2,
         break;
     }
 
-    if (a[i] == b[i])
+    if (i + 1 == s1->string.vector.size)
     {
         *result = 0;
         return ZYAN_STATUS_TRUE;
     }
 
-    if ((a[i] | 32) < (b[i] | 32))
+    if (((a[i] | 32) < (b[i] | 32)) || (((a[i] | 32) == (b[i] | 32)) && (a[i] < b[i])))
     {
         *result = -1;
         return ZYAN_STATUS_FALSE;
@@ -940,13 +940,13 @@ ZyanStatus ZyanStringCompareI(const ZyanStringView* s1, const ZyanStringView* s2
         break;
     }
 
-    if (a[i] == b[i])
+    if (i + 1 == s1->string.vector.size)
     {
         *result = 0;
         return ZYAN_STATUS_TRUE;
     }
 
-    if ((a[i] | 32) < (b[i] | 32))
+    if (((a[i] | 32) < (b[i] | 32)) || (((a[i] | 32) == (b[i] | 32)) && (a[i] < b[i])))
     {
         *result = -1;
         return ZYAN_STATUS_FALSE;
-- 
2.43.0


From e9c9a14a935e6edddcca37ac9c7ffacf64242763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:57 +0000
Subject: [PATCH 25/33] fix: take the terminating '\0' into account in
 ZyanStringReserve

The string offered space for one character less than requested.
---
 src/String.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/String.c b/src/String.c
index a04bbf6..8770e32 100644
--- a/src/String.c
+++ b/src/String.c
@@ -1066,7 +1066,12 @@ ZyanStatus ZyanStringReserve(ZyanString* string, ZyanUSize capacity)
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
-    return ZyanVectorReserve(&string->vector, capacity);
+    if (capacity == (ZyanUSize)-1)
+    {
+        return ZYAN_STATUS_NOT_ENOUGH_MEMORY;
+    }
+
+    return ZyanVectorReserve(&string->vector, capacity + 1);
 }
 
 ZyanStatus ZyanStringShrinkToFit(ZyanString* string)
-- 
2.43.0


From 6bbf91b582d61f6e6d301eaca49ac9f4d65c3e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:57 +0000
Subject: [PATCH 26/33] fix: detect size overflows in ZyanStringInitEx and
 ZyanStringResize

`ZyanStringResize(string, (ZyanUSize)-1)` resized the string to zero elements (not even the
terminating '\0') and wrote in front of the buffer.
---
 src/String.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/String.c b/src/String.c
index 8770e32..b54e2f2 100644
--- a/src/String.c
+++ b/src/String.c
@@ -93,6 +93,11 @@ ZyanStatus ZyanStringInitEx(ZyanString* string, ZyanUSize capacity, ZyanAllocato
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
+    if (capacity == (ZyanUSize)-1)
+    {
+        return ZYAN_STATUS_NOT_ENOUGH_MEMORY;
+    }
+
     string->flags = 0;
     capacity = ZYAN_MAX(ZYAN_STRING_MIN_CAPACITY, capacity) + 1;
     ZYAN_CHECK(ZyanVectorInitEx(&string->vector, sizeof(char), capacity, ZYAN_NULL, allocator,
@@ -1053,6 +1058,11 @@ ZyanStatus ZyanStringResize(ZyanString* string, ZyanUSize size)
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
+    if (size == (ZyanUSize)-1)
+    {
+        return ZYAN_STATUS_NOT_ENOUGH_MEMORY;
+    }
+
     ZYAN_CHECK(ZyanVectorResize(&string->vector, size + 1));
     ZYCORE_STRING_NULLTERMINATE(string);
 
-- 
2.43.0


From eafd9db02a83df5477ad89d07b60a1e3bc0c02ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:05 +0000
Subject: [PATCH 27/33] fix: ZYAN_ALIGN_DOWN must not change already aligned
 values

Subtracting one first rounded aligned values down to the previous boundary (and 0 to a huge value).
---
 include/Zycore/Defines.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Zycore/Defines.h b/include/Zycore/Defines.h
index 226d808..e1bb7f8 100644
--- a/include/Zycore/Defines.h
+++ b/include/Zycore/Defines.h
@@ -480,7 +480,7 @@
  *
  * Note that this macro only works for powers of 2.
  */
-#define ZYAN_ALIGN_DOWN(x, align) (((x) - 1) & ~((align) - 1))
+#define ZYAN_ALIGN_DOWN(x, align) ((x) & ~((align) - 1))
 
 /**
  * Divide the 64bit integer value by the given divisor.
-- 
2.43.0


From eb9bd5322e10330982e8206fb9d71e9ddee4dbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:00 +0000
Subject: [PATCH 28/33] fix: reject insertions behind the end of a string

---
 src/String.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/String.c b/src/String.c
index b54e2f2..00025ab 100644
--- a/src/String.c
+++ b/src/String.c
@@ -425,7 +425,7 @@ ZyanStatus ZyanStringInsert(ZyanString* destination, ZyanUSize index, const Zyan
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
-    if (index == destination->vector.size)
+    if (index == destination->vector.size - 1)
     {
         return ZyanStringAppend(destination, source);
     }
@@ -451,7 +451,7 @@ ZyanStatus ZyanStringInsertEx(ZyanString* destination, ZyanUSize destination_ind
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
-    if (destination_index == destination->vector.size)
+    if (destination_index == destination->vector.size - 1)
     {
         return ZyanStringAppendEx(destination, source, source_index, count);
     }
-- 
2.43.0


From 1695c706d6578f4e9aa8a713566c92c06d027268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:16 +0000
Subject: [PATCH 29/33] fix: ZyanStringGetChar used uninitialized fields of
 views

---
 src/String.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/String.c b/src/String.c
index 00025ab..30ed603 100644
--- a/src/String.c
+++ b/src/String.c
@@ -375,9 +375,8 @@ ZyanStatus ZyanStringGetChar(const ZyanStringView* string, ZyanUSize index, char
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
 
-    const char* chr;
-    ZYAN_CHECK(ZyanVectorGetPointer(&string->string.vector, index, (const void**)&chr));
-    *value = *chr;
+    // Only the `data` and `size` fields of the vector are valid for views
+    *value = ((const char*)string->string.vector.data)[index];
 
     return ZYAN_STATUS_SUCCESS;
 }
-- 
2.43.0


From 2bf9d6b264efeffbaa5f65ed236797c035ae758b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:57 +0000
Subject: [PATCH 30/33] fix: implement the strcoll fallback

---
 include/Zycore/LibC.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/Zycore/LibC.h b/include/Zycore/LibC.h
index 6f73349..584c5b9 100644
--- a/include/Zycore/LibC.h
+++ b/include/Zycore/LibC.h
@@ -336,12 +336,8 @@ ZYAN_INLINE int ZYAN_STRCMP(const char* s1, const char* s2)
 
 ZYAN_INLINE int ZYAN_STRCOLL(const char *s1, const char *s2)
 {
-    // TODO: Implement
-
-    ZYAN_UNUSED(s1);
-    ZYAN_UNUSED(s2);
-
-    return 0;
+    // Without locale support, the collation order is the one of the "C" locale
+    return ZYAN_STRCMP(s1, s2);
 }
 
 ZYAN_INLINE char* ZYAN_STRCPY(char* dest, const char* src)
-- 
2.43.0


From 353efc726df97b0d6b778bf6e126df768fde1fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:00 +0000
Subject: [PATCH 31/33] fix: ZyanVectorInsertRange with a count that overflows
 wrote out of bounds

---
 src/Vector.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Vector.c b/src/Vector.c
index 7928334..01f2749 100644
--- a/src/Vector.c
+++ b/src/Vector.c
@@ -474,10 +474,14 @@ ZyanStatus ZyanVectorInsertRange(ZyanVector* vector, ZyanUSize index, const void
     ZYAN_ASSERT(vector->element_size);
     ZYAN_ASSERT(vector->data);
 
-    if (ZYCORE_VECTOR_SHOULD_GROW(vector->size + count, vector->capacity))
+    // The new size might not be representable
+    const ZyanUSize size = (count > (ZyanUSize)-1 - vector->size)
+        ? (ZyanUSize)-1
+        : vector->size + count;
+    if (ZYCORE_VECTOR_SHOULD_GROW(size, vector->capacity))
     {
         ZYAN_CHECK(ZyanVectorReallocate(vector,
-            ZYAN_MAX(1, (ZyanUSize)((vector->size + count) * vector->growth_factor))));
+            ZYCORE_VECTOR_NEW_CAPACITY(size, vector->growth_factor)));
     }
 
     if (index < vector->size)
-- 
2.43.0


From 7df3a0f05cd1bf3379f62231d315a1c5dc755b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:56 +0000
Subject: [PATCH 32/33] fix: List: refuse elements whose node size is not
 representable

---
 src/List.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/List.c b/src/List.c
index 4130b0f..4a4c66d 100644
--- a/src/List.c
+++ b/src/List.c
@@ -63,6 +63,13 @@ static ZyanStatus ZyanListAllocateNode(ZyanList* list, ZyanListNode** node)
     ZYAN_ASSERT(node);
 
     const ZyanBool is_dynamic = (list->allocator != ZYAN_NULL);
+
+    // The size of a node might not be representable
+    if (list->element_size > (ZyanUSize)-1 - sizeof(ZyanListNode))
+    {
+        return is_dynamic ? ZYAN_STATUS_NOT_ENOUGH_MEMORY : ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE;
+    }
+
     if (is_dynamic)
     {
         ZYAN_ASSERT(list->allocator->allocate);
-- 
2.43.0


From 13df2709bbe0eaaced37faca36d63c743bc92c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:40 +0000
Subject: [PATCH 33/33] fix: LibC: make the fallback routines compile as C++

---
 include/Zycore/LibC.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/Zycore/LibC.h b/include/Zycore/LibC.h
index 584c5b9..9700e8f 100644
--- a/include/Zycore/LibC.h
+++ b/include/Zycore/LibC.h
@@ -249,7 +249,7 @@ ZYAN_INLINE void* ZYAN_MEMCHR(const void* str, int c, ZyanUSize n)
 
 ZYAN_INLINE int ZYAN_MEMCMP(const void* s1, const void* s2, ZyanUSize n)
 {
-    const ZyanU8* p1 = s1, *p2 = s2;
+    const ZyanU8* p1 = (const ZyanU8*)s1, *p2 = (const ZyanU8*)s2;
     while (n--)
     {
         if (*p1 != *p2)
@@ -263,8 +263,8 @@ ZYAN_INLINE int ZYAN_MEMCMP(const void* s1, const void* s2, ZyanUSize n)
 
 ZYAN_INLINE void* ZYAN_MEMCPY(void* dst, const void* src, ZyanUSize n)
 {
-    volatile ZyanU8* dp = dst;
-    const ZyanU8* sp = src;
+    volatile ZyanU8* dp = (volatile ZyanU8*)dst;
+    const ZyanU8* sp = (const ZyanU8*)src;
     while (n--)
     {
         *dp++ = *sp++;
@@ -274,8 +274,8 @@ ZYAN_INLINE void* ZYAN_MEMCPY(void* dst, const void* src, ZyanUSize n)
 
 ZYAN_INLINE void* ZYAN_MEMMOVE(void* dst, const void* src, ZyanUSize n)
 {
-    volatile ZyanU8* pd = dst;
-    const ZyanU8* ps = src;
+    volatile ZyanU8* pd = (volatile ZyanU8*)dst;
+    const ZyanU8* ps = (const ZyanU8*)src;
     if (ps < pd)
     {
         for (pd += n, ps += n; n--;)
@@ -294,7 +294,7 @@ ZYAN_INLINE void* ZYAN_MEMMOVE(void* dst, const void* src, ZyanUSize n)
 
 ZYAN_INLINE void* ZYAN_MEMSET(void* dst, int val, ZyanUSize n)
 {
-    volatile ZyanU8* p = dst;
+    volatile ZyanU8* p = (volatile ZyanU8*)dst;
     while (n--)
     {
         *p++ = (unsigned char)val;
-- 
2.43.0


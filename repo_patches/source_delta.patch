From c75665470c3741184ec191611918176f7e3d8fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:17 +0000
Subject: [PATCH 01/11] fix: Base64_encode needs room for the terminating NUL

The NUL was stored one byte past the result buffer when the encoded text
filled it exactly, and also after the size check had failed.
---
 Src/base64.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/base64.c b/Src/base64.c
index 53ef892..4fe896f 100644
--- a/Src/base64.c
+++ b/Src/base64.c
@@ -45,7 +45,7 @@ Base64_encode(const char* data, size_t data_length, char* result, size_t max_res
 
     size_t len = 4U * ((data_length + 2U) / 3U);
 
-    if (len < data_length) {
+    if ((len < data_length) || (len >= max_result_length)) {
         success = 1;
     }
 
-- 
2.43.0


From 6b5d82c210d61274a0defb064329f300ad04808c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:17 +0000
Subject: [PATCH 02/11] fix: Base64_decode rejects one- and two-byte payloads
 and reads past the input

A single padded group ("QQ==", "amM=") was refused although it decodes to one
or two bytes, and an input length of 4k+1 read one byte past the input.
---
 Src/base64.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/Src/base64.c b/Src/base64.c
index 4fe896f..643bfcf 100644
--- a/Src/base64.c
+++ b/Src/base64.c
@@ -137,7 +137,7 @@ Base64_decode(const char* in, size_t in_len, uint8_t* out, size_t max_out_len) {
         success = 1;
     }
 
-    if (len == 0U) {
+    if (in_len < 2U) {
         success = 1;
     }
 
@@ -154,7 +154,12 @@ Base64_decode(const char* in, size_t in_len, uint8_t* out, size_t max_out_len) {
             ++j;
         }
         if (pad_bool) {
-            uint32_t n = (base64_index[in_data_uchar[len]] << 18U) | (base64_index[in_data_uchar[len + 1U]] << 12U);
+            uint32_t n = (base64_index[in_data_uchar[len]] << 18U);
+
+            if (in_len > (len + 1U)) {
+                n |= base64_index[in_data_uchar[len + 1U]] << 12U;
+            }
+
             out[out_len - 1U] = (uint8_t)(n >> 16U);
 
             if ((in_len > (len + 2U)) && (in_data_uchar[len + 2U] != (uint8_t)'=')) {
-- 
2.43.0


From 5c83c1103c78377ce1e76cca21717ad9b56c9d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:18 +0000
Subject: [PATCH 03/11] fix: Json_addData reads before an empty buffer and
 writes before checking the size

The separator was stored before the bounds check, so a full buffer was
overrun by one byte and a refused member left a trailing comma.
---
 Src/json.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/Src/json.c b/Src/json.c
index 24c84b2..62274f1 100644
--- a/Src/json.c
+++ b/Src/json.c
@@ -58,13 +58,19 @@ Json_addData(char* buffer, size_t buffer_size, const char* key, const char* valu
     size_t index = strlen(buffer);
     size_t total_size = strlen("\"\":\"\"") + strlen(key) + strlen(value) + 1U;
 
-    if (0 == strcmp(&buffer[index - 1U], "\"")) {
-        // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case, therefore it is not used
-        strcpy(&buffer[index], ",");
-        ++index;
+    bool separator = (index > 0U) && (buffer[index - 1U] == '"');
+
+    if (separator) {
+        ++total_size;
     }
 
     if ((total_size + index) <= buffer_size) {
+        if (separator) {
+            // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case, therefore it is not used
+            strcpy(&buffer[index], ",");
+            ++index;
+        }
+
         // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case, therefore it is not used
         strcpy(&buffer[index], "\"");
         index += strlen("\"");
-- 
2.43.0


From c7733729b1a228604386472fc206e08d377aab02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:18 +0000
Subject: [PATCH 04/11] fix: Json_findByKey gives up on the first text that
 merely contains the key

A key that is a prefix of an earlier key was reported missing, and a key that
is the tail of an earlier key or equal to an earlier value matched there. Only
a whole quoted string followed by a colon is a key.
---
 Src/json.c | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/Src/json.c b/Src/json.c
index 62274f1..8fa8ed6 100644
--- a/Src/json.c
+++ b/Src/json.c
@@ -38,6 +38,18 @@
 
 #define MINIMAL_SIZE 2U // size of '{' or '}' + '\0'
 
+static bool
+IsFollowedByColon(const char* buffer, size_t buffer_size, size_t start) {
+    size_t index = start;
+
+    while ((index < buffer_size) &&
+            ((buffer[index] == ' ') || (buffer[index] == '\t') || (buffer[index] == '\n') || (buffer[index] == '\r'))) {
+        ++index;
+    }
+
+    return ((index < buffer_size) && (buffer[index] == ':'));
+}
+
 bool
 Json_startString(char* buffer, size_t buffer_size) {
     bool success = false;
@@ -120,17 +132,19 @@ Json_findByKey(const char* buffer, size_t buffer_size, const char* key, char* va
         max_search_size = (uint32_t)(buffer_size - key_size);
     }
 
-    for (index = 0U; index < max_search_size; ++index) {
+    for (index = 1U; index < max_search_size; ++index) {
 
         /* -E> compliant MC3R1.R21.18 2 strncmp is guarded in for loop condition to not go out of buffer boundaries
         by calculating max_search_size from buffer size and key size */
-        if (0 == strncmp(&buffer[index], key, key_size)) {
+        if ((buffer[index - 1U] == '"') && (0 == strncmp(&buffer[index], key, key_size))) {
 
             if (buffer[index + key_size] == '"') {
-                success = true;
+                success = IsFollowedByColon(buffer, buffer_size, index + key_size + 1U);
             }
 
-            break;
+            if (success) {
+                break;
+            }
         }
     }
 
-- 
2.43.0


From 3e0c8d05469fd17280a0551d4c0ee5eb80162158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:18 +0000
Subject: [PATCH 05/11] fix: HeapSort compares children beyond the end of the
 heap

The comparator was handed pointers past the buffer before the index was checked.
---
 Src/sort/heap_sort.c | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/Src/sort/heap_sort.c b/Src/sort/heap_sort.c
index cf99e9a..12f8bf3 100644
--- a/Src/sort/heap_sort.c
+++ b/Src/sort/heap_sort.c
@@ -48,16 +48,11 @@ Heapify(byte_t* buffer, int32_t n, int32_t i, int32_t element_size,
         int32_t left = (2 * index) + 1;
         int32_t right = (2 * index) + 2;
 
-        bool compare_ret_value = compareFun(&elements[left * element_size],
-                                            &elements[largest * element_size]);
-
-        if ((left < n) && (compare_ret_value)) {
+        if ((left < n) && compareFun(&elements[left * element_size], &elements[largest * element_size])) {
             largest = left;
         }
 
-        compare_ret_value = compareFun(&elements[right * element_size], &elements[largest * element_size]);
-
-        if ((right < n) && (compare_ret_value)) {
+        if ((right < n) && compareFun(&elements[right * element_size], &elements[largest * element_size])) {
             largest = right;
         }
 
-- 
2.43.0


From 357852404290e5e14efc3a5b88ca0721d9c5292c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:19 +0000
Subject: [PATCH 06/11] fix: InsertionSort compares the element before the
 buffer

The comparator was called with index -1 before the loop checked it.
---
 Src/sort/insertion_sort.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/Src/sort/insertion_sort.c b/Src/sort/insertion_sort.c
index 8bd4dcc..6119d4e 100644
--- a/Src/sort/insertion_sort.c
+++ b/Src/sort/insertion_sort.c
@@ -51,15 +51,13 @@ InsertionSort_sort(byte_t* buffer, int32_t number_of_elements, int32_t element_s
         memcpy(element, &elements[i * element_size], (size_t)element_size);
 
         int32_t j = i - 1;
-        bool compare = compareFun(&elements[j * element_size], element);
 
-        while ((j >= 0) && compare) {
+        while ((j >= 0) && compareFun(&elements[j * element_size], element)) {
             /* -E> compliant MC3R1.R19.1 3 Overlap will not happen, all elements in buffer
              * have same size, and their size is stored in element_size variable. */
             // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
             memcpy(&elements[(j + 1) * element_size], &elements[j * element_size], (size_t)element_size);
             --j;
-            compare = compareFun(&elements[j * element_size], element);
         }
         /* -E> compliant MC3R1.R21.18 4 Buffer overflow will not happen, all elements in buffer
          * have same size, and their size is stored in element_size variable. Precondition is that
-- 
2.43.0


From 8d997974c002a61675b6d0f1efa8fa66c84cb202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:19 +0000
Subject: [PATCH 07/11] fix: BitManipulation_rotl32 shifts by 32 or more for
 counts 0 and >= 32

Such a shift is undefined; the count is now taken modulo 32.
---
 Src/bit_manipulation.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Src/bit_manipulation.c b/Src/bit_manipulation.c
index 34e3ff1..8d2c562 100644
--- a/Src/bit_manipulation.c
+++ b/Src/bit_manipulation.c
@@ -106,7 +106,8 @@ BitManipulation_toggleBit(uint32_t data, uint8_t n, uint32_t* out) {
 
 uint32_t
 BitManipulation_rotl32(uint32_t data, uint32_t n_bits) {
+    const uint32_t shift = n_bits & MAX_BIT_SHIFT;
 
-    /* -E> hide MC3R1.R12.2 1 To optimize efficiency, we do not verify whether n_bits is between 0 and 31. */
-    return ((data << n_bits) ^ (data >> (32U - n_bits)));
+    /* -E> compliant MC3R1.R12.2 2 The shift counts are between 0 and 31 due to bit masking. */
+    return ((data << shift) | (data >> ((32U - shift) & MAX_BIT_SHIFT)));
 }
-- 
2.43.0


From 0cb1cef6f924f5044a03765cdd46b2fa3de8cee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:19 +0000
Subject: [PATCH 08/11] fix: CaesarCipher_decrypt wraps modulo 2^32 instead of
 modulo 26

A letter whose position is smaller than the shift was decrypted wrongly.
---
 Src/crypto/caesar_cipher.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/crypto/caesar_cipher.c b/Src/crypto/caesar_cipher.c
index baff723..1cc34b9 100644
--- a/Src/crypto/caesar_cipher.c
+++ b/Src/crypto/caesar_cipher.c
@@ -66,7 +66,7 @@ CaesarCipher_decrypt(char* msg, uint8_t shift) {
             if (Utils_isUpperChar(msg[i])) {
                 ascii_val = UPPER_A_ASCII;
             }
-            uint8_t decrypted_char = (((uint8_t)msg[i] - shift - ascii_val) % MAX_SHIFT) + ascii_val;
+            uint8_t decrypted_char = (((uint8_t)msg[i] - ascii_val + (MAX_SHIFT - (shift % MAX_SHIFT))) % MAX_SHIFT) + ascii_val;
             msg[i] = (char)decrypted_char;
         }
     }
-- 
2.43.0


From 62c93bb9d8212f4cec6298eccd75c33b49be148e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:20 +0000
Subject: [PATCH 09/11] fix: little-endian blob helpers copy nothing for sizes
 of 2^31 and more

The size was converted to a signed index.
---
 Src/utils.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Src/utils.c b/Src/utils.c
index 6f32933..f1ebfd9 100644
--- a/Src/utils.c
+++ b/Src/utils.c
@@ -217,9 +217,9 @@ Utils_serialize32LE(byte_t* buf, uint32_t value) {
 
 void
 Utils_serializeBlobLE(byte_t* buf, const byte_t* src, uint32_t size) {
-    int32_t j = 0;
-    for (int32_t i = ((int32_t)size - 1); i >= 0; --i) {
-        buf[j] = src[i];
+    uint32_t j = 0U;
+    for (uint32_t i = size; i > 0U; --i) {
+        buf[j] = src[i - 1U];
         ++j;
     }
 }
@@ -253,9 +253,9 @@ Utils_deserialize32LE(const byte_t* buf) {
 
 void
 Utils_deserializeBlobLE(const byte_t* buf, byte_t* dst, uint32_t size) {
-    int32_t  j = 0;
-    for (int32_t i = ((int32_t)size - 1); i >= 0; --i) {
-        dst[j] = buf[i];
+    uint32_t j = 0U;
+    for (uint32_t i = size; i > 0U; --i) {
+        dst[j] = buf[i - 1U];
         ++j;
     }
 }
-- 
2.43.0


From f27f67dc06c056841f77ba0bc2cd7289cac079df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:05 +0000
Subject: [PATCH 10/11] fix: InsertionSort keeps its scratch element in static
 storage (nested or concurrent sorts corrupt data)

---
 Src/sort/insertion_sort.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/sort/insertion_sort.c b/Src/sort/insertion_sort.c
index 6119d4e..b16699f 100644
--- a/Src/sort/insertion_sort.c
+++ b/Src/sort/insertion_sort.c
@@ -40,7 +40,7 @@ void
 InsertionSort_sort(byte_t* buffer, int32_t number_of_elements, int32_t element_size,
                    bool (*compareFun)(void* first, void* second)) {
     byte_t* elements = buffer;
-    static byte_t max_element[MAX_ELEMENT_SIZE];
+    byte_t max_element[MAX_ELEMENT_SIZE];
     byte_t* element = &max_element[0];
 
     for (int32_t i = 1; i < number_of_elements; ++i) {
-- 
2.43.0


From b576fa197587a00123777d000150729360bd5e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:09 +0000
Subject: [PATCH 11/11] fix: search JSON buffers of 4 GiB and more with a
 size_t index

---
 Src/json.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Src/json.c b/Src/json.c
index 8fa8ed6..a7eb2ce 100644
--- a/Src/json.c
+++ b/Src/json.c
@@ -125,11 +125,11 @@ Json_findByKey(const char* buffer, size_t buffer_size, const char* key, char* va
     bool success = false;
 
     size_t key_size = strlen(key);
-    uint32_t max_search_size = 0U;
-    uint32_t index;
+    size_t max_search_size = 0U;
+    size_t index;
 
     if (buffer_size > key_size) {
-        max_search_size = (uint32_t)(buffer_size - key_size);
+        max_search_size = buffer_size - key_size;
     }
 
     for (index = 1U; index < max_search_size; ++index) {
@@ -151,7 +151,7 @@ Json_findByKey(const char* buffer, size_t buffer_size, const char* key, char* va
     if (success) {
 
         success = false;
-        for (index += (uint32_t)(key_size + 1U); index < buffer_size; ++index) {
+        for (index += key_size + 1U; index < buffer_size; ++index) {
 
             if (buffer[index] == '"') {
                 break;
-- 
2.43.0


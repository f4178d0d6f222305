From 71a0abc625a5915fed8ccd287069762584cbf868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:03 +0000
Subject: [PATCH 01/29] fix: rcutils_reallocf must not release the memory twice
 when resizing to zero

---
 src/allocator.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/allocator.c b/src/allocator.c
index d364bde..95488f7 100644
--- a/src/allocator.c
+++ b/src/allocator.c
@@ -110,7 +110,8 @@ rcutils_reallocf(void * pointer, size_t size, rcutils_allocator_t * allocator)
     return NULL;
   }
   void * new_pointer = allocator->reallocate(pointer, size, allocator->state);
-  if (NULL == new_pointer) {
+  if (NULL == new_pointer && 0 != size) {
+    // with a size of zero reallocate() has already released the memory, as realloc() does
     allocator->deallocate(pointer, allocator->state);
   }
   return new_pointer;
-- 
2.43.0


From c7bf70f6fe802c0aac3f5796bbca27775417f1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:03 +0000
Subject: [PATCH 02/29] fix: keep the char array usable when growing its own
 buffer fails

---
 src/char_array.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/char_array.c b/src/char_array.c
index 76743d1..a59b192 100644
--- a/src/char_array.c
+++ b/src/char_array.c
@@ -102,7 +102,9 @@ rcutils_char_array_resize(rcutils_char_array_t * char_array, size_t new_size)
   size_t old_length = char_array->buffer_length;
 
   if (char_array->owns_buffer) {  // we own the buffer, we can do whatever we want
-    char * new_buf = rcutils_reallocf(char_array->buffer, new_size * sizeof(char), allocator);
+    // on failure the old buffer stays valid and owned by the array
+    char * new_buf = allocator->reallocate(
+      char_array->buffer, new_size * sizeof(char), allocator->state);
     RCUTILS_CHECK_FOR_NULL_WITH_MSG(
       new_buf,
       "failed to reallocate memory for char array",
-- 
2.43.0


From 587724cc8c471eee2c960ef56a07b2384c4570b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:03 +0000
Subject: [PATCH 03/29] fix: resizing a borrowed char array must not lose its
 buffer on failure or write before an empty one

---
 src/char_array.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/char_array.c b/src/char_array.c
index a59b192..83d3373 100644
--- a/src/char_array.c
+++ b/src/char_array.c
@@ -111,13 +111,17 @@ rcutils_char_array_resize(rcutils_char_array_t * char_array, size_t new_size)
       return RCUTILS_RET_BAD_ALLOC);
     char_array->buffer = new_buf;
   } else {  // we don't realloc memory we don't own. instead, we alloc some new space
-    rcutils_ret_t ret = rcutils_char_array_init(char_array, new_size, allocator);
+    rcutils_char_array_t new_array = rcutils_get_zero_initialized_char_array();
+    rcutils_ret_t ret = rcutils_char_array_init(&new_array, new_size, allocator);
     if (ret != RCUTILS_RET_OK) {
       return ret;
     }
     size_t n = MIN(new_size, old_size);
-    memcpy(char_array->buffer, old_buf, n);
-    char_array->buffer[n - 1] = '\0';  // always have an ending
+    if (n > 0lu) {
+      memcpy(new_array.buffer, old_buf, n);
+      new_array.buffer[n - 1] = '\0';  // always have an ending
+    }
+    *char_array = new_array;
   }
 
   char_array->buffer_capacity = new_size;
-- 
2.43.0


From ce3de52ffcbe399cde91707cec1a97a4317e41a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:03 +0000
Subject: [PATCH 04/29] fix: rcutils_char_array_strncat must not read past the
 end of the source string

---
 src/char_array.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/char_array.c b/src/char_array.c
index 83d3373..4b1ff18 100644
--- a/src/char_array.c
+++ b/src/char_array.c
@@ -226,6 +226,8 @@ rcutils_char_array_strncat(rcutils_char_array_t * char_array, const char * src,
     // The buffer length always contains the trailing \0, so the strlen is one less than that.
     current_strlen = char_array->buffer_length - 1;
   }
+  // like strncat(), use at most n bytes but never read past the end of src
+  n = strnlen(src, n);
   size_t new_length = current_strlen + n + 1;
   rcutils_ret_t ret = rcutils_char_array_expand_as_needed(char_array, new_length);
   if (ret != RCUTILS_RET_OK) {
-- 
2.43.0


From 6cd681bc49e3c1b866ce7a37c2534595d8209693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:03 +0000
Subject: [PATCH 05/29] fix: do not leak the copied logger name when storing
 its level fails

---
 src/logging.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/logging.c b/src/logging.c
index 7aac274..c42f8ca 100644
--- a/src/logging.c
+++ b/src/logging.c
@@ -917,6 +917,10 @@ static rcutils_ret_t add_key_to_hash_map(const char * name, int level, bool set_
     RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING(
       "Error setting severity level for logger named '%s': %s",
       name, rcutils_get_error_string().str);
+    if (!already_exists) {
+      g_rcutils_logging_allocator.deallocate(
+        (char *)copy_name, g_rcutils_logging_allocator.state);
+    }
     return RCUTILS_RET_ERROR;
   }
 
-- 
2.43.0


From 47a1f89c35b79e92b39ccee399156e3f500f8465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:03 +0000
Subject: [PATCH 06/29] fix: a string array that failed to initialise must have
 size zero

---
 src/string_array.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/string_array.c b/src/string_array.c
index e279a37..4d52bd2 100644
--- a/src/string_array.c
+++ b/src/string_array.c
@@ -52,6 +52,7 @@ rcutils_string_array_init(
   string_array->size = size;
   string_array->data = allocator->zero_allocate(size, sizeof(char *), allocator->state);
   if (NULL == string_array->data && 0 != size) {
+    string_array->size = 0;
     RCUTILS_SET_ERROR_MSG("failed to allocate string array");
     return RCUTILS_RET_BAD_ALLOC;
   }
-- 
2.43.0


From 090d43af9acdb1d1b41f8a6fed5ab3b6c6c2fc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:03 +0000
Subject: [PATCH 07/29] fix: reject string array sizes whose storage size is
 not representable

---
 src/string_array.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/string_array.c b/src/string_array.c
index 4d52bd2..a93d636 100644
--- a/src/string_array.c
+++ b/src/string_array.c
@@ -155,6 +155,12 @@ rcutils_string_array_resize(
   RCUTILS_CHECK_ALLOCATOR_WITH_MSG(
     allocator, "allocator is invalid", return RCUTILS_RET_INVALID_ARGUMENT);
 
+  // Ensure that the size of the new storage can be represented
+  if (new_size > SIZE_MAX / sizeof(char *)) {
+    RCUTILS_SET_ERROR_MSG("requested size for string array too large");
+    return RCUTILS_RET_BAD_ALLOC;
+  }
+
   // Stash entries being removed
   rcutils_string_array_t to_reclaim = rcutils_get_zero_initialized_string_array();
   if (new_size < string_array->size) {
-- 
2.43.0


From 97407a16f01a4dd4df21bfefaabaf5a76715e566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:49 +0000
Subject: [PATCH 08/29] fix: shrinking a string map must not drop pairs stored
 beyond the new capacity

---
 src/string_map.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/string_map.c b/src/string_map.c
index 47688e0..bc8addb 100644
--- a/src/string_map.c
+++ b/src/string_map.c
@@ -180,6 +180,24 @@ rcutils_string_map_reserve(rcutils_string_map_t * string_map, size_t capacity)
       return RCUTILS_RET_BAD_ALLOC;
     }
 
+    // when shrinking, first move the pairs stored beyond the new end into unused slots before it,
+    // so that no pair is dropped (there are enough of those, as capacity is at least the size)
+    size_t unused_index = 0;
+    for (size_t i = capacity; i < string_map->impl->capacity; ++i) {
+      if (NULL == string_map->impl->key_value_pairs[i].key) {
+        continue;
+      }
+      while (unused_index < capacity &&
+        NULL != string_map->impl->key_value_pairs[unused_index].key)
+      {
+        ++unused_index;
+      }
+      assert(unused_index < capacity);  // defensive, this should not happen
+      string_map->impl->key_value_pairs[unused_index] = string_map->impl->key_value_pairs[i];
+      string_map->impl->key_value_pairs[i].key = NULL;
+      string_map->impl->key_value_pairs[i].value = NULL;
+    }
+
     // resize the keys and values, assigning the result only if it succeeds
     key_value_pair_t * new_key_value_pairs = allocator.reallocate(
       string_map->impl->key_value_pairs, capacity * sizeof(key_value_pair_t), allocator.state);
-- 
2.43.0


From 350300858f298717c1291fc6f08c11d3d815cb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:34 +0000
Subject: [PATCH 09/29] fix: rcutils_cli_get_option must not read past an empty
 argument range

---
 src/cmdline_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmdline_parser.c b/src/cmdline_parser.c
index 148c26f..d5abda6 100644
--- a/src/cmdline_parser.c
+++ b/src/cmdline_parser.c
@@ -37,7 +37,7 @@ char * rcutils_cli_get_option(char ** begin, char ** end, const char * option)
     }
   }
 
-  if (idx < end_idx - 1 && begin[idx++] != NULL) {
+  if (idx + 1 < end_idx && begin[idx++] != NULL) {
     return begin[idx];
   }
 
-- 
2.43.0


From deb49da7dfe543e549442846f93fcbfed9dbf37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:34 +0000
Subject: [PATCH 10/29] fix: rcutils_strerror must not write before an empty
 buffer

---
 src/strerror.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/strerror.c b/src/strerror.c
index a425010..34a13f9 100644
--- a/src/strerror.c
+++ b/src/strerror.c
@@ -25,6 +25,9 @@ extern "C"
 void
 rcutils_strerror(char * buffer, size_t buffer_length)
 {
+  if (0 == buffer_length) {
+    return;
+  }
 #if defined(_WIN32)
   strerror_s(buffer, buffer_length, errno);
 #elif defined(_GNU_SOURCE) && (!defined(ANDROID) || __ANDROID_API__ >= 23) && !defined(__QNXNTO__)
-- 
2.43.0


From ae657bf3aab39472e3cdfd11d42de376d95b50c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:34 +0000
Subject: [PATCH 11/29] fix: rcutils_get_executable_name must not overflow when
 the program was invoked with an empty name

---
 src/process.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/process.c b/src/process.c
index b93ed9f..9860432 100644
--- a/src/process.c
+++ b/src/process.c
@@ -79,7 +79,8 @@ char * rcutils_get_executable_name(rcutils_allocator_t allocator)
 
   // Since the above memory may be static, and the caller may want to modify
   // the argument, make and return a copy here.
-  char * executable_name = allocator.allocate(applen + 1, allocator.state);
+  // basename() of an empty path is ".", so leave room for at least one character.
+  char * executable_name = allocator.allocate((applen > 0 ? applen : 1) + 1, allocator.state);
   if (NULL == executable_name) {
     return NULL;
   }
-- 
2.43.0


From bfc98e47e33f0952ccd7a1fd9f57fa634633fded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:34 +0000
Subject: [PATCH 12/29] fix: reject array list capacities whose storage size is
 not representable

---
 src/array_list.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/array_list.c b/src/array_list.c
index 8761cec..3fdbbe8 100644
--- a/src/array_list.c
+++ b/src/array_list.c
@@ -66,6 +66,9 @@ rcutils_array_list_init(
   } else if (1 > data_size) {
     RCUTILS_SET_ERROR_MSG("data_size cannot be less than 1");
     return RCUTILS_RET_INVALID_ARGUMENT;
+  } else if (initial_capacity > SIZE_MAX / data_size) {
+    RCUTILS_SET_ERROR_MSG("requested capacity for array_list too large");
+    return RCUTILS_RET_BAD_ALLOC;
   }
 
   array_list->impl = allocator->allocate(sizeof(rcutils_array_list_impl_t), allocator->state);
-- 
2.43.0


From c88619a696def40f6b723ec9174290860f2cc374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:34 +0000
Subject: [PATCH 13/29] fix: rcutils_format_string_limit must not write before
 the buffer when the limit is zero

---
 src/format_string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/format_string.c b/src/format_string.c
index 1f8a6a8..df1beec 100644
--- a/src/format_string.c
+++ b/src/format_string.c
@@ -35,7 +35,7 @@ rcutils_format_string_limit(
   const char * format_string,
   ...)
 {
-  if (NULL == format_string) {
+  if (NULL == format_string || 0 == limit) {
     return NULL;
   }
   RCUTILS_CHECK_ALLOCATOR(&allocator, return NULL);
-- 
2.43.0


From 59a68ae82dabaf9af631b9edc86cde7fe7426999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:54 +0000
Subject: [PATCH 14/29] fix: reject hash map capacities whose storage size is
 not representable

---
 src/array_list.c | 1 +
 src/hash_map.c   | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/src/array_list.c b/src/array_list.c
index 3fdbbe8..eb05274 100644
--- a/src/array_list.c
+++ b/src/array_list.c
@@ -17,6 +17,7 @@ extern "C"
 {
 #endif
 
+#include <stdint.h>
 #include <string.h>
 
 #include "rcutils/allocator.h"
diff --git a/src/hash_map.c b/src/hash_map.c
index 28748d6..01114e3 100644
--- a/src/hash_map.c
+++ b/src/hash_map.c
@@ -17,6 +17,7 @@ extern "C"
 {
 #endif
 
+#include <stdint.h>
 #include <string.h>
 #include <stdio.h>
 
@@ -86,6 +87,9 @@ static rcutils_ret_t hash_map_allocate_new_map(
   rcutils_array_list_t ** map, size_t capacity,
   const rcutils_allocator_t * allocator)
 {
+  if (capacity > SIZE_MAX / sizeof(rcutils_hash_map_impl_t)) {
+    return RCUTILS_RET_BAD_ALLOC;
+  }
   *map = allocator->allocate(capacity * sizeof(rcutils_hash_map_impl_t), allocator->state);
   if (NULL == *map) {
     return RCUTILS_RET_BAD_ALLOC;
-- 
2.43.0


From 27ef70db01205d37521f5738268ed04e6962d490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:54 +0000
Subject: [PATCH 15/29] fix: rcutils_dir_iter_next must return when the
 iterator is invalid

---
 src/filesystem.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filesystem.c b/src/filesystem.c
index 25c71d7..c617ac2 100644
--- a/src/filesystem.c
+++ b/src/filesystem.c
@@ -475,7 +475,7 @@ bool
 rcutils_dir_iter_next(rcutils_dir_iter_t * iter)
 {
   RCUTILS_CHECK_ARGUMENT_FOR_NULL(iter, false);
-  RCUTILS_CHECK_FOR_NULL_WITH_MSG(iter->state, "iter is invalid", false);
+  RCUTILS_CHECK_FOR_NULL_WITH_MSG(iter->state, "iter is invalid", return false);
 
 #ifdef _WIN32
   if (FindNextFile(iter->state->handle, &iter->state->data)) {
-- 
2.43.0


From 956489f411d5e2109643493ee409763d0a448f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:54 +0000
Subject: [PATCH 16/29] fix: calculating the size of a directory without any
 entry must not compare a null name

---
 src/filesystem.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/filesystem.c b/src/filesystem.c
index c617ac2..b92d8df 100644
--- a/src/filesystem.c
+++ b/src/filesystem.c
@@ -297,6 +297,11 @@ static rcutils_ret_t check_and_calculate_size(
   dir_list_t * dir_list,
   rcutils_allocator_t allocator)
 {
+  // A directory that was removed while it is open has no entries at all
+  if (NULL == filename) {
+    return RCUTILS_RET_OK;
+  }
+
   // Skip over local folder handle (`.`) and parent folder (`..`)
   if (strcmp(filename, ".") == 0 || strcmp(filename, "..") == 0) {
     return RCUTILS_RET_OK;
-- 
2.43.0


From e0d126a6b146979fc00e4533843d4fdc1f6a8c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:54 +0000
Subject: [PATCH 17/29] fix: do not pass negative characters to toupper

---
 src/logging.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/logging.c b/src/logging.c
index c42f8ca..0cd15d5 100644
--- a/src/logging.c
+++ b/src/logging.c
@@ -830,7 +830,7 @@ rcutils_logging_severity_level_from_string(
     return RCUTILS_RET_BAD_ALLOC;
   }
   for (int i = 0; severity_string_upper[i]; ++i) {
-    severity_string_upper[i] = (char)toupper(severity_string_upper[i]);
+    severity_string_upper[i] = (char)toupper((unsigned char)severity_string_upper[i]);
   }
 
   // Determine the severity value matching the severity name.
-- 
2.43.0


From 614a31a26942bca3fb54661a845dcf7047bc3b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:21 +0000
Subject: [PATCH 18/29] fix: string map lookups with a key length must not look
 beyond that length

---
 src/string_map.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/string_map.c b/src/string_map.c
index bc8addb..eded2d7 100644
--- a/src/string_map.c
+++ b/src/string_map.c
@@ -273,11 +273,10 @@ __get_index_of_key_if_exists(
     if (NULL == string_map_impl->key_value_pairs[i].key) {
       continue;
     }
-    size_t cmp_count = strlen(string_map_impl->key_value_pairs[i].key);
-    if (key_length > cmp_count) {
-      cmp_count = key_length;
-    }
-    if (strncmp(key, string_map_impl->key_value_pairs[i].key, cmp_count) == 0) {
+    // the given key need not be terminated, so only its first key_length characters may be read
+    if (strlen(string_map_impl->key_value_pairs[i].key) == key_length &&
+      strncmp(key, string_map_impl->key_value_pairs[i].key, key_length) == 0)
+    {
       *index = i;
       return true;
     }
-- 
2.43.0


From 57e2a7ad0174eb0de75f3bc4f755ab2a9188e300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:55 +0000
Subject: [PATCH 19/29] fix: rcutils_split_last must terminate an empty first
 token

---
 src/split.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/split.c b/src/split.c
index 98c4783..449518a 100644
--- a/src/split.c
+++ b/src/split.c
@@ -180,7 +180,8 @@ rcutils_split_last(
      * found_last is the index of the the last position the delimiter was found
      * and not the actual position in terms of counting from 1
      */
-    size_t inner_rhs_offset = (str[found_last - 1] == delimiter) ? 1 : 0;
+    size_t inner_rhs_offset =
+      (found_last > lhs_offset && str[found_last - 1] == delimiter) ? 1 : 0;
     string_array->data[0] = allocator.allocate(
       (found_last + 1 - lhs_offset - inner_rhs_offset + 1) * sizeof(char),
       allocator.state);
-- 
2.43.0


From 08158f7f0e9af446aa0f96c7ce04753f2d0fd4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:55 +0000
Subject: [PATCH 20/29] fix: the date string must show milliseconds with
 leading zeros

---
 src/time.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/time.c b/src/time.c
index 882c9d9..47be937 100644
--- a/src/time.c
+++ b/src/time.c
@@ -66,7 +66,7 @@ rcutils_time_point_value_as_date_string(
   // Make sure the buffer is large enough to hold the largest possible uint64_t
   char nanoseconds_str[21];
 
-  if (rcutils_snprintf(nanoseconds_str, sizeof(nanoseconds_str), "%" PRIu64, nanoseconds) < 0) {
+  if (rcutils_snprintf(nanoseconds_str, sizeof(nanoseconds_str), "%.9" PRIu64, nanoseconds) < 0) {
     RCUTILS_SET_ERROR_MSG("failed to format time point nanoseconds into string");
     return RCUTILS_RET_ERROR;
   }
-- 
2.43.0


From 8f2b875e0746a0bb40596e65729566a50d6d780a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:55 +0000
Subject: [PATCH 21/29] fix: rendering the smallest time value must not
 overflow

---
 src/time.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/time.c b/src/time.c
index 47be937..c4535c8 100644
--- a/src/time.c
+++ b/src/time.c
@@ -59,7 +59,9 @@ rcutils_time_point_value_as_date_string(
   }
   // best to abs it to avoid issues with negative values in C89, see:
   //   https://stackoverflow.com/a/3604984/671658
-  uint64_t abs_time_point = (uint64_t)llabs(*time_point);
+  // (and do so without signed overflow, as the smallest value has no positive counterpart)
+  uint64_t abs_time_point =
+    *time_point < 0 ? 0u - (uint64_t)(*time_point) : (uint64_t)(*time_point);
   // break into two parts to avoid floating point error
   uint64_t seconds = abs_time_point / (1000u * 1000u * 1000u);
   uint64_t nanoseconds = abs_time_point % (1000u * 1000u * 1000u);
@@ -114,7 +116,9 @@ rcutils_time_point_value_as_seconds_string(
   }
   // best to abs it to avoid issues with negative values in C89, see:
   //   https://stackoverflow.com/a/3604984/671658
-  uint64_t abs_time_point = (uint64_t)llabs(*time_point);
+  // (and do so without signed overflow, as the smallest value has no positive counterpart)
+  uint64_t abs_time_point =
+    *time_point < 0 ? 0u - (uint64_t)(*time_point) : (uint64_t)(*time_point);
   // break into two parts to avoid floating point error
   uint64_t seconds = abs_time_point / (1000u * 1000u * 1000u);
   uint64_t nanoseconds = abs_time_point % (1000u * 1000u * 1000u);
-- 
2.43.0


From 1cf866a34c7d65eef681a5ed89fc148664271e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:32 +0000
Subject: [PATCH 22/29] fix: running out of memory must leave an error message

---
 src/array_list.c | 1 +
 src/filesystem.c | 1 +
 src/hash_map.c   | 2 ++
 src/split.c      | 3 +++
 4 files changed, 7 insertions(+)

diff --git a/src/array_list.c b/src/array_list.c
index eb05274..728a55b 100644
--- a/src/array_list.c
+++ b/src/array_list.c
@@ -114,6 +114,7 @@ static rcutils_ret_t rcutils_array_list_increase_capacity(rcutils_array_list_t *
     new_size,
     array_list->impl->allocator.state);
   if (NULL == new_list) {
+    RCUTILS_SET_ERROR_MSG("failed to allocate memory to grow array list data");
     return RCUTILS_RET_BAD_ALLOC;
   }
   array_list->impl->list = new_list;
diff --git a/src/filesystem.c b/src/filesystem.c
index b92d8df..c2257b2 100644
--- a/src/filesystem.c
+++ b/src/filesystem.c
@@ -421,6 +421,7 @@ rcutils_dir_iter_start(const char * directory_path, const rcutils_allocator_t al
   rcutils_dir_iter_t * iter = allocator.zero_allocate(
     1, sizeof(rcutils_dir_iter_t), allocator.state);
   if (NULL == iter) {
+    RCUTILS_SET_ERROR_MSG("Failed to allocate memory.\n");
     return NULL;
   }
   iter->allocator = allocator;
diff --git a/src/hash_map.c b/src/hash_map.c
index 01114e3..311d6a6 100644
--- a/src/hash_map.c
+++ b/src/hash_map.c
@@ -412,11 +412,13 @@ rcutils_hash_map_set(rcutils_hash_map_t * hash_map, const void * key, const void
     // Start by trying to allocate the memory we need for the new entry
     entry = allocator->allocate(sizeof(rcutils_hash_map_entry_t), allocator->state);
     if (NULL == entry) {
+      RCUTILS_SET_ERROR_MSG("failed to allocate memory for hash map entry");
       return RCUTILS_RET_BAD_ALLOC;
     }
     entry->key = allocator->allocate(hash_map->impl->key_size, allocator->state);
     entry->value = allocator->allocate(hash_map->impl->data_size, allocator->state);
     if (NULL == entry->key || NULL == entry->value) {
+      RCUTILS_SET_ERROR_MSG("failed to allocate memory for hash map entry data");
       ret = RCUTILS_RET_BAD_ALLOC;
     }
 
diff --git a/src/split.c b/src/split.c
index 449518a..8ad6fad 100644
--- a/src/split.c
+++ b/src/split.c
@@ -164,6 +164,7 @@ rcutils_split_last(
     string_array->data[0] =
       allocator.allocate((found_last - lhs_offset + 2) * sizeof(char), allocator.state);
     if (NULL == string_array->data[0]) {
+      RCUTILS_SET_ERROR_MSG("unable to allocate memory for string array data");
       result_error = RCUTILS_RET_BAD_ALLOC;
       goto fail;
     }
@@ -186,6 +187,7 @@ rcutils_split_last(
       (found_last + 1 - lhs_offset - inner_rhs_offset + 1) * sizeof(char),
       allocator.state);
     if (NULL == string_array->data[0]) {
+      RCUTILS_SET_ERROR_MSG("unable to allocate memory for string array data");
       result_error = RCUTILS_RET_BAD_ALLOC;
       goto fail;
     }
@@ -197,6 +199,7 @@ rcutils_split_last(
       (string_size - found_last - rhs_offset + 1) * sizeof(char),
       allocator.state);
     if (NULL == string_array->data[1]) {
+      RCUTILS_SET_ERROR_MSG("unable to allocate memory for string array data");
       result_error = RCUTILS_RET_BAD_ALLOC;
       goto fail;
     }
-- 
2.43.0


From 5aa9c6abaa329c311ac748cf4de1bedd58e60ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:08 +0000
Subject: [PATCH 23/29] fix: string array initialisation must reject an invalid
 allocator

---
 src/split.c        | 2 ++
 src/string_array.c | 6 ++----
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/split.c b/src/split.c
index 8ad6fad..95e47ed 100644
--- a/src/split.c
+++ b/src/split.c
@@ -63,6 +63,7 @@ rcutils_split(
       ++array_size;
     }
   }
+  *string_array = rcutils_get_zero_initialized_string_array();
   if (rcutils_string_array_init(string_array, array_size, &allocator) != RCUTILS_RET_OK) {
     goto fail;
   }
@@ -154,6 +155,7 @@ rcutils_split_last(
     }
   }
 
+  *string_array = rcutils_get_zero_initialized_string_array();
   rcutils_ret_t result_error;
   if (found_last == string_size) {
     rcutils_ret_t ret = rcutils_string_array_init(string_array, 1, &allocator);
diff --git a/src/string_array.c b/src/string_array.c
index a93d636..29b6ef9 100644
--- a/src/string_array.c
+++ b/src/string_array.c
@@ -41,10 +41,8 @@ rcutils_string_array_init(
   RCUTILS_CAN_RETURN_WITH_ERROR_OF(RCUTILS_RET_INVALID_ARGUMENT);
   RCUTILS_CAN_RETURN_WITH_ERROR_OF(RCUTILS_RET_BAD_ALLOC);
 
-  if (NULL == allocator) {
-    RCUTILS_SET_ERROR_MSG("allocator is null");
-    return RCUTILS_RET_INVALID_ARGUMENT;
-  }
+  RCUTILS_CHECK_ALLOCATOR_WITH_MSG(
+    allocator, "allocator is invalid", return RCUTILS_RET_INVALID_ARGUMENT);
   if (NULL == string_array) {
     RCUTILS_SET_ERROR_MSG("string_array is null");
     return RCUTILS_RET_INVALID_ARGUMENT;
-- 
2.43.0


From 818f85c7cddf6ffe99cb96b8566a157fdaec95b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:43 +0000
Subject: [PATCH 24/29] fix: headers must include what they use

strerror.h, qsort.h and strcasecmp.h use size_t and isalnum_no_locale.h uses
bool without including a header that defines it, so including them on their
own does not compile.
---
 include/rcutils/isalnum_no_locale.h | 2 ++
 include/rcutils/qsort.h             | 2 ++
 include/rcutils/strcasecmp.h        | 2 ++
 include/rcutils/strerror.h          | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/include/rcutils/isalnum_no_locale.h b/include/rcutils/isalnum_no_locale.h
index 052ad53..794c0a4 100644
--- a/include/rcutils/isalnum_no_locale.h
+++ b/include/rcutils/isalnum_no_locale.h
@@ -17,6 +17,8 @@
 #ifndef RCUTILS__ISALNUM_NO_LOCALE_H_
 #define RCUTILS__ISALNUM_NO_LOCALE_H_
 
+#include <stdbool.h>
+
 #ifdef __cplusplus
 extern "C"
 {
diff --git a/include/rcutils/qsort.h b/include/rcutils/qsort.h
index 9af8904..3d02689 100644
--- a/include/rcutils/qsort.h
+++ b/include/rcutils/qsort.h
@@ -17,6 +17,8 @@
 #ifndef RCUTILS__QSORT_H_
 #define RCUTILS__QSORT_H_
 
+#include <stddef.h>
+
 #ifdef __cplusplus
 extern "C"
 {
diff --git a/include/rcutils/strcasecmp.h b/include/rcutils/strcasecmp.h
index 8b03ed3..880a7b8 100644
--- a/include/rcutils/strcasecmp.h
+++ b/include/rcutils/strcasecmp.h
@@ -17,6 +17,8 @@
 #ifndef RCUTILS__STRCASECMP_H_
 #define RCUTILS__STRCASECMP_H_
 
+#include <stddef.h>
+
 #ifdef __cplusplus
 extern "C"
 {
diff --git a/include/rcutils/strerror.h b/include/rcutils/strerror.h
index a3a900a..da2ab13 100644
--- a/include/rcutils/strerror.h
+++ b/include/rcutils/strerror.h
@@ -17,6 +17,8 @@
 #ifndef RCUTILS__STRERROR_H_
 #define RCUTILS__STRERROR_H_
 
+#include <stddef.h>
+
 #ifdef __cplusplus
 extern "C"
 {
-- 
2.43.0


From cec8dd3493f137dfaba7ecd28c89df352794a964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:36 +0000
Subject: [PATCH 25/29] fix: decode the console output format without reading
 out of bounds or keeping stale text

---
 src/logging.c | 80 +++++++++++++++++++--------------------------------
 1 file changed, 29 insertions(+), 51 deletions(-)

diff --git a/src/logging.c b/src/logging.c
index 0cd15d5..63c9d96 100644
--- a/src/logging.c
+++ b/src/logging.c
@@ -460,9 +460,6 @@ static void create_format_string(
   const char * logging_output_format_string)
 {
   size_t dest_buffer_index = 0;
-  size_t start_offset = 0;
-  size_t start_offset_previous_not_copy = 0;
-  size_t back_slash_index = 0;
 
   size_t length = strlen(logging_output_format_string);
   if (length > RCUTILS_LOGGING_MAX_OUTPUT_FORMAT_LEN - 1) {
@@ -470,64 +467,45 @@ static void create_format_string(
   }
 
   for (size_t i = 0; i < length; ) {
-    back_slash_index = rcutils_findn(
-      logging_output_format_string + i, RCUTILS_LOGGING_BACKSLASH_CHAR, length - i);
-    if (back_slash_index == SIZE_MAX) {
-      memcpy(
-        g_rcutils_logging_output_format_string + dest_buffer_index,
-        logging_output_format_string + start_offset - start_offset_previous_not_copy,
-        length - start_offset + start_offset_previous_not_copy);
-      break;
-    } else {
-      const char * expected_char = NULL;
-      int skip_chars = 0;
+    char decoded_char = logging_output_format_string[i];
+    size_t consumed = 1;
 
-      if (logging_output_format_string[i + back_slash_index + 1] == 'x' &&
-        logging_output_format_string[i + back_slash_index + 2] == '1' &&
-        logging_output_format_string[i + back_slash_index + 3] == 'b')
-      {
+    if (RCUTILS_LOGGING_BACKSLASH_CHAR == decoded_char) {
+      // the sequence may be cut short by the terminating null or by the maximum length
+      const char * sequence = logging_output_format_string + i;
+
+      if (strncmp(sequence + 1, "x1b", 3) == 0) {
         // detect escape sequence
         ACTIVATE_VIRTUAL_TERMINAL_PROCESSING();
-        expected_char = "\x1b";
-        // the 4 char long "\x1b" string literal will become a 2 char long \x1b escape sequence
-        // therefore we need to skip forward in parsing the output format string
-        skip_chars = 2;
+        // the 4 char long "\x1b" string literal will become a single escape character
+        decoded_char = '\x1b';
+        consumed = 4;
       } else {
-        switch (logging_output_format_string[i + back_slash_index + 1]) {
-          case 'a':  expected_char = "\a"; break;  // alert
-          case 'b':  expected_char = "\b"; break;  // backspace
-          case 'n':  expected_char = "\n"; break;  // new line
-          case 'r':  expected_char = "\r"; break;  // carriage return
-          case 't':  expected_char = "\t"; break;  // horizontal tab
+        consumed = 2;
+        switch (sequence[1]) {
+          case 'a':  decoded_char = '\a'; break;  // alert
+          case 'b':  decoded_char = '\b'; break;  // backspace
+          case 'n':  decoded_char = '\n'; break;  // new line
+          case 'r':  decoded_char = '\r'; break;  // carriage return
+          case 't':  decoded_char = '\t'; break;  // horizontal tab
+          case '\0':  consumed = 1; break;  // trailing backslash
           default:
+            // not a known sequence: keep the backslash and the character following it
+            if (i + 1 < length) {
+              g_rcutils_logging_output_format_string[dest_buffer_index++] = decoded_char;
+              decoded_char = sequence[1];
+            }
             break;
         }
       }
-
-      if (expected_char) {
-        if (back_slash_index > 0) {
-          // copy previous buffer first
-          size_t len = back_slash_index + start_offset_previous_not_copy;
-          memcpy(
-            g_rcutils_logging_output_format_string + dest_buffer_index,
-            logging_output_format_string + start_offset,
-            len);
-          dest_buffer_index += len;
-          start_offset += len;
-          start_offset_previous_not_copy = 0;
-        }
-
-        // copy the decoded character
-        g_rcutils_logging_output_format_string[dest_buffer_index] = expected_char[0];
-        dest_buffer_index += 1;
-        start_offset += 2 + skip_chars;
-      } else {
-        start_offset_previous_not_copy += (back_slash_index + 2);
-      }
-
-      i += (back_slash_index + 2 + skip_chars);
     }
+
+    g_rcutils_logging_output_format_string[dest_buffer_index++] = decoded_char;
+    i += consumed;
   }
+
+  // terminate, in case the storage still holds a longer format from a previous initialization
+  g_rcutils_logging_output_format_string[dest_buffer_index] = '\0';
 }
 
 static bool add_handler(token_handler handler, size_t start_offset, size_t end_offset)
-- 
2.43.0


From 8aee48f5b42db22a57b3b6d0fad25faa78255179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:34 +0000
Subject: [PATCH 26/29] fix: reject initialising a hash map that is already
 initialised

---
 src/hash_map.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hash_map.c b/src/hash_map.c
index 311d6a6..d0729f7 100644
--- a/src/hash_map.c
+++ b/src/hash_map.c
@@ -258,6 +258,10 @@ rcutils_hash_map_init(
   const rcutils_allocator_t * allocator)
 {
   RCUTILS_CHECK_ARGUMENT_FOR_NULL(hash_map, RCUTILS_RET_INVALID_ARGUMENT);
+  if (NULL != hash_map->impl) {
+    RCUTILS_SET_ERROR_MSG("hash_map is already initialized");
+    return RCUTILS_RET_STRING_MAP_ALREADY_INIT;
+  }
   RCUTILS_CHECK_ARGUMENT_FOR_NULL(key_hashing_func, RCUTILS_RET_INVALID_ARGUMENT);
   RCUTILS_CHECK_ARGUMENT_FOR_NULL(key_cmp_func, RCUTILS_RET_INVALID_ARGUMENT);
   RCUTILS_CHECK_ALLOCATOR(allocator, return RCUTILS_RET_INVALID_ARGUMENT);
-- 
2.43.0


From 6ff4792461657a21afab4096247ba7621360f3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:34 +0000
Subject: [PATCH 27/29] fix: reject an unknown severity when expanding the
 severity token

---
 src/logging.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/logging.c b/src/logging.c
index 63c9d96..e23dfbe 100644
--- a/src/logging.c
+++ b/src/logging.c
@@ -286,7 +286,18 @@ static const char * expand_severity(
   (void)start_offset;
   (void)end_offset;
 
-  const char * severity_string = g_rcutils_log_severity_names[logging_input->severity];
+  const char * severity_string = NULL;
+  if (logging_input->severity >= 0 &&
+    (size_t)logging_input->severity <
+    sizeof(g_rcutils_log_severity_names) / sizeof(g_rcutils_log_severity_names[0]))
+  {
+    severity_string = g_rcutils_log_severity_names[logging_input->severity];
+  }
+  if (NULL == severity_string) {
+    RCUTILS_SAFE_FWRITE_TO_STDERR_WITH_FORMAT_STRING(
+      "unknown severity level: %d\n", logging_input->severity);
+    return NULL;
+  }
   if (rcutils_char_array_strcat(logging_output, severity_string) != RCUTILS_RET_OK) {
     RCUTILS_SAFE_FWRITE_TO_STDERR(rcutils_get_error_string().str);
     rcutils_reset_error();
-- 
2.43.0


From defbe2d33b0d8ca6ccd42e612e1f6a91f6e6e492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:25 +0000
Subject: [PATCH 28/29] fix: fail when the length of a string after replacement
 cannot be represented

---
 src/repl_str.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/repl_str.c b/src/repl_str.c
index 8d1de21..a31bdc5 100644
--- a/src/repl_str.c
+++ b/src/repl_str.c
@@ -100,6 +100,10 @@ rcutils_repl_str(
   /* Allocate memory for the post-replacement string. */
   if (count > 0) {
     tolen = strlen(to);
+    /* Fail if the length of the post-replacement string cannot be represented. */
+    if (tolen > fromlen && (tolen - fromlen) > (SIZE_MAX - 1 - orglen) / count) {
+      goto end_repl_str;
+    }
     retlen = orglen + (tolen - fromlen) * count;
   } else {
     retlen = orglen;
-- 
2.43.0


From fc1488ddc3dce5496152105e83e5772da686fcbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:55 +0000
Subject: [PATCH 29/29] fix: rcutils_join_path cut joined paths longer than
 2047 characters without an error

---
 src/filesystem.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/filesystem.c b/src/filesystem.c
index c2257b2..602b666 100644
--- a/src/filesystem.c
+++ b/src/filesystem.c
@@ -182,8 +182,9 @@ rcutils_join_path(
     return NULL;
   }
 
-  return rcutils_format_string(
+  return rcutils_format_string_limit(
     allocator,
+    strlen(left_hand_path) + strlen(RCUTILS_PATH_DELIMITER) + strlen(right_hand_path) + 1,
     "%s%s%s",
     left_hand_path, RCUTILS_PATH_DELIMITER, right_hand_path);
 }
-- 
2.43.0


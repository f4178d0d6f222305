S = [
dict(id="m06-string-map-reserve", prop="M06", needs="reserving between SIZE_MAX/16 and SIZE_MAX/8 pairs in a string map",
 breaks="the overflow guard uses the size of a pointer instead of a pair, so a block much smaller than the capacity is obtained",
 edits=[("src/string_map.c", "SIZE_MAX / sizeof(key_value_pair_t))", "SIZE_MAX / sizeof(key_value_pair_t *))")],
 demo=r'''#include "h.h"
#include "rcutils/types/string_map.h"
int main(void) {
  rcutils_allocator_t a = h_allocator(); rcutils_string_map_t m = rcutils_get_zero_initialized_string_map(); h_fail(-1);
  CHECK(0 == rcutils_string_map_init(&m, 0, a));
  CHECK(RCUTILS_RET_OK != rcutils_string_map_reserve(&m, ((size_t)1 << 60) + 1)); rcutils_reset_error();
  CHECK(0 == rcutils_string_map_fini(&m)); CHECK(h_intact()); return 0;
}'''),
dict(id="x02-long-message", prop="X02", needs="a message of 512 MiB or more",
 breaks="the bit count of the message is kept modulo 2^32 when it is written into the padding",
 edits=[("src/sha256.c", "ctx->data[59] = (uint8_t)(ctx->bitlen >> 32);", "ctx->data[59] = (uint8_t)((uint32_t)ctx->bitlen >> 31 >> 1);")],
 demo=r'''#include "h.h"
#include "rcutils/sha256.h"
int main(void) {
  // digest of 2^29 zero bytes
  static unsigned char chunk[1 << 20]; rcutils_sha256_ctx_t c; uint8_t d[32]; char hex[65];
  rcutils_sha256_init(&c);
  for (int i = 0; i < 512; i++) rcutils_sha256_update(&c, chunk, sizeof(chunk));
  rcutils_sha256_final(&c, d);
  for (int i = 0; i < 32; i++) sprintf(hex + 2 * i, "%02x", d[i]);
  CHECK(0 == strcmp(hex, "@DIGEST@"));
  return 0;
}'''),
dict(id="s02-format-limit", prop="S02", needs="a formatted text whose length is exactly the limit",
 breaks="the result is one character longer than the limit allows",
 edits=[("src/format_string.c", "if (bytes_to_be_written + 1 > limit) {", "if (bytes_to_be_written > limit) {")],
 demo=r'''#include "h.h"
#include "rcutils/format_string.h"
int main(void) {
  rcutils_allocator_t a = h_allocator(); h_fail(-1);
  for (size_t lim = 1; lim < 20; lim++) {
    char * s = rcutils_format_string_limit(a, lim, "%s", "0123456789");
    CHECK(s && strlen(s) == (lim - 1 < 10 ? lim - 1 : 10)); CHECK(h_intact()); h_free(s, &h_tok);
  }
  return 0;
}'''),
dict(id="o06-negative-seconds", prop="O06", needs="rendering a negative time of less than one second as seconds",
 breaks="the sign is missing for times between -1 s and 0",
 edits=[("src/time.c", """(*time_point >= 0) ? "" : "-", seconds""", """(*time_point > -1000000000) ? "" : "-", seconds""")],
 demo=r'''#include "h.h"
#include "rcutils/time.h"
int main(void) {
  char b[64]; rcutils_time_point_value_t t = -500000000;
  CHECK(0 == rcutils_time_point_value_as_seconds_string(&t, b, sizeof(b))); CHECK(0 == strcmp(b, "-0000000000.500000000"));
  t = -1500000000; CHECK(0 == rcutils_time_point_value_as_seconds_string(&t, b, sizeof(b))); CHECK(0 == strcmp(b, "-0000000001.500000000"));
  return 0;
}'''),
dict(id="e02-line-number", prop="E02", needs="an error set on a line above 65535",
 breaks="the formatted text shows a different line number",
 edits=[("src/error_handling_helpers.h", "error_state->line_number, line_number_buffer", "(uint16_t)error_state->line_number, line_number_buffer")],
 demo=r'''#include "h.h"
int main(void) {
  rcutils_set_error_state("msg", "file.c", 70001);
  CHECK(NULL != strstr(rcutils_get_error_string().str, "file.c:70001")); rcutils_reset_error(); return 0;
}'''),
dict(id="e03-same-message", prop="E03", needs="setting the same message again from another place",
 breaks="the file and line of the first error stay visible",
 edits=[("src/error_handling.c", """  gtls_rcutils_error_state = error_state;
  gtls_rcutils_error_string_is_formatted = false;
""", """  if (!(gtls_rcutils_error_is_set && 0 == strcmp(gtls_rcutils_error_state.message, error_string))) {
    gtls_rcutils_error_state = error_state;
  }
  gtls_rcutils_error_string_is_formatted = false;
""")],
 demo=r'''#include "h.h"
int main(void) {
  rcutils_set_error_state("same", "one.c", 1); rcutils_set_error_state("same", "two.c", 2);
  CHECK(rcutils_get_error_state()->line_number == 2); CHECK(0 == strcmp(rcutils_get_error_state()->file, "two.c"));
  rcutils_reset_error(); return 0;
}'''),
dict(id="l07-use-stdout-prefix", prop="L07", needs="an environment value that only starts with the documented one",
 breaks="RCUTILS_LOGGING_USE_STDOUT=1x (10, 1 ...) is accepted",
 edits=[("src/logging.c", """  if (strcmp(env_var_value, "1") == 0) {""", """  if (strncmp(env_var_value, "1", 1) == 0) {""")],
 demo=r'''#include "h.h"
#include "rcutils/logging.h"
int main(void) {
  setenv("RCUTILS_LOGGING_USE_STDOUT", "10", 1);
  CHECK(RCUTILS_RET_INVALID_ARGUMENT == rcutils_logging_initialize()); rcutils_reset_error();
  setenv("RCUTILS_LOGGING_USE_STDOUT", "1", 1); CHECK(0 == rcutils_logging_initialize()); CHECK(0 == rcutils_logging_shutdown());
  return 0;
}'''),
dict(id="l05-shutdown-levels", prop="L05", needs="shutting down after the level of more than one logger was set",
 breaks="only the first stored logger name is released",
 edits=[("src/logging.c", """    while (RCUTILS_RET_OK == hash_map_ret) {
      hash_map_ret = rcutils_hash_map_unset""", """    if (RCUTILS_RET_OK == hash_map_ret) {
      hash_map_ret = rcutils_hash_map_unset"""), ("src/logging.c", """shutdown; memory will be leaked.",
          rcutils_get_error_string().str);
        break;
      }
      g_rcutils_logging_allocator.deallocate(key, g_rcutils_logging_allocator.state);
""", """shutdown; memory will be leaked.",
          rcutils_get_error_string().str);
      }
      g_rcutils_logging_allocator.deallocate(key, g_rcutils_logging_allocator.state);
""")],
 demo=r'''#include "h.h"
#include "rcutils/logging.h"
int main(void) {
  rcutils_allocator_t a = h_allocator(); h_fail(-1);
  CHECK(0 == rcutils_logging_initialize_with_allocator(a));
  CHECK(0 == rcutils_logging_set_logger_level("a", 10)); CHECK(0 == rcutils_logging_set_logger_level("b.c", 20)); CHECK(0 == rcutils_logging_set_logger_level("b.d", 30));
  CHECK(0 == rcutils_logging_shutdown()); CHECK(h_live == 0); CHECK(h_intact()); return 0;
}'''),
dict(id="s01-find-last", prop="S01", needs="a text longer than forty characters with a delimiter at its last position",
 breaks="a delimiter in the last position is not found",
 edits=[("src/find.c", "memrchr(str, delimiter, string_length)", "memrchr(str, delimiter, string_length > 40 ? string_length - 1 : string_length)")],
 demo=r'''#include "h.h"
#include "rcutils/find.h"
int main(void) {
  char t[64]; memset(t, 'a', 60); t[50] = '/'; t[51] = 0; 
  CHECK(rcutils_find_last("ab/cd/", '/') == 5); CHECK(rcutils_find_last(t, '/') == 50); t[3] = '/'; CHECK(rcutils_find_last(t, '/') == 50); return 0;
}'''),
dict(id="s06-long-option", prop="S06", needs="two options that agree in their first 32 characters",
 breaks="an option is reported present when a different one with the same beginning is",
 edits=[("src/cmdline_parser.c", "strcmp(begin[i], option) == 0", "strncmp(begin[i], option, 32) == 0")],
 demo=r'''#include "h.h"
#include "rcutils/cmdline_parser.h"
int main(void) {
  char * v[] = {"--an-option-with-a-rather-long-name-a", "x"};
  CHECK(!rcutils_cli_option_exist(v, v + 2, "--an-option-with-a-rather-long-name-b"));
  CHECK(rcutils_cli_option_exist(v, v + 2, "--an-option-with-a-rather-long-name-a")); return 0;
}'''),
dict(id="c06-strncat-long", prop="C06", needs="appending more than 1024 characters at once",
 breaks="text beyond the first 1024 appended characters is not copied",
 edits=[("src/char_array.c", "memcpy(char_array->buffer + current_strlen, src, n);", "memcpy(char_array->buffer + current_strlen, src, n > 1024 ? 1024 : n);")],
 demo=r'''#include "h.h"
#include "rcutils/types/char_array.h"
int main(void) {
  rcutils_allocator_t a = h_allocator(); rcutils_char_array_t c = rcutils_get_zero_initialized_char_array(); h_fail(-1);
  static char t[3000]; memset(t, 'q', 2999);
  CHECK(0 == rcutils_char_array_init(&c, 4, &a)); CHECK(0 == rcutils_char_array_strcpy(&c, "ab")); CHECK(0 == rcutils_char_array_strcat(&c, t));
  CHECK(0 == memcmp(c.buffer, "ab", 2) && 0 == strcmp(c.buffer + 2, t)); CHECK(0 == rcutils_char_array_fini(&c)); CHECK(h_intact()); return 0;
}'''),
dict(id="c07-failed-list-init", prop="C07", needs="initialising an array list whose element storage cannot be obtained, then trying again",
 breaks="the object keeps a reference to released memory and cannot be initialised again",
 edits=[("src/array_list.c", """    allocator->deallocate(array_list->impl, allocator->state);
    array_list->impl = NULL;
""", """    allocator->deallocate(array_list->impl, allocator->state);
""")],
 demo=r'''#include "h.h"
#include "rcutils/types/array_list.h"
int main(void) {
  rcutils_allocator_t a = h_allocator(); rcutils_array_list_t l = rcutils_get_zero_initialized_array_list();
  h_fail(1); CHECK(0 != rcutils_array_list_init(&l, 4, 4, &a)); rcutils_reset_error(); h_fail(-1);
  CHECK(0 == rcutils_array_list_init(&l, 4, 4, &a)); CHECK(0 == rcutils_array_list_fini(&l)); CHECK(h_live == 0 && h_intact()); return 0;
}'''),
dict(id="c05-shrink", prop="C05", needs="shrinking a string array",
 breaks="the last of the removed strings is lost",
 edits=[("src/string_array.c", """      to_reclaim.size * sizeof(char *));""", """      (to_reclaim.size > 4 ? to_reclaim.size - 1 : to_reclaim.size) * sizeof(char *));""")],
 demo=r'''#include "h.h"
#include "rcutils/types/string_array.h"
#include "rcutils/strdup.h"
int main(void) {
  rcutils_allocator_t a = h_allocator(); rcutils_string_array_t s = rcutils_get_zero_initialized_string_array(); h_fail(-1);
  CHECK(0 == rcutils_string_array_init(&s, 8, &a));
  for (int i = 0; i < 8; i++) s.data[i] = rcutils_strdup("x", a);
  CHECK(0 == rcutils_string_array_resize(&s, 2)); CHECK(0 == rcutils_string_array_fini(&s)); CHECK(h_live == 0 && h_intact()); return 0;
}'''),
dict(id="l03-short-ancestor", prop="L03", needs="an ancestor whose name is a single character",
 breaks="the level of an ancestor with a one-character name is ignored",
 edits=[("src/logging.c", "    if (SIZE_MAX == index_last_separator) {", "    if (SIZE_MAX == index_last_separator || index_last_separator < 2) {")],
 demo=r'''#include "h.h"
#include "rcutils/logging.h"
int main(void) {
  CHECK(0 == rcutils_logging_initialize());
  CHECK(0 == rcutils_logging_set_logger_level("a", 40));
  CHECK(40 == rcutils_logging_get_logger_effective_level("a.b")); CHECK(40 == rcutils_logging_get_logger_effective_level("a.b.c"));
  CHECK(0 == rcutils_logging_shutdown()); return 0;
}'''),
dict(id="o02-mkdir-file", prop="O02", needs="creating a directory over an existing file",
 breaks="directory creation reports success although a file of that name is in the way",
 edits=[("src/filesystem.c", "if (ret == 0 || (errno == EEXIST && rcutils_is_directory(abs_path))) {", "if (ret == 0 || (errno == EEXIST && rcutils_exists(abs_path))) {")],
 demo=r'''#include "h.h"
#include <unistd.h>
#include "rcutils/filesystem.h"
int main(void) {
  char d[512], p[600]; CHECK(getcwd(d, sizeof(d))); snprintf(p, sizeof(p), "%s/file", d);
  FILE * f = fopen(p, "w"); CHECK(f); fclose(f); CHECK(!rcutils_mkdir(p)); 
  snprintf(p, sizeof(p), "%s/dir", d); CHECK(rcutils_mkdir(p)); CHECK(rcutils_mkdir(p)); return 0;
}'''),
dict(id="o08-expand-user", prop="O08", needs="expanding a path that starts with a tilde",
 breaks="the last character of the expanded path is cut off",
 edits=[("src/filesystem.c", """    strlen(homedir) + strlen(path),
    "%s%s",""", """    strlen(homedir) + strlen(path + 1),
    "%s%s",""")],
 demo=r'''#include "h.h"
#include "rcutils/filesystem.h"
int main(void) {
  rcutils_allocator_t a = h_allocator(); h_fail(-1); setenv("HOME", "/home/x", 1);
  char * s = rcutils_expand_user("~/abc", a); CHECK(s && 0 == strcmp(s, "/home/x/abc")); return 0;
}'''),
dict(id="c02-string-map-capacity", prop="C02", needs="the reallocation of a string map's pairs failing",
 breaks="the capacity is changed although the storage was not",
 edits=[("src/string_map.c", """    // resize the keys and values, assigning the result only if it succeeds
""", """    // resize the keys and values, assigning the result only if it succeeds
    const size_t old_capacity = string_map->impl->capacity;
    string_map->impl->capacity = capacity;
"""), ("src/string_map.c", """    if (capacity > string_map->impl->capacity) {
      for (size_t i = string_map->impl->capacity; i < capacity; ++i) {""", """    if (capacity > old_capacity) {
      for (size_t i = old_capacity; i < capacity; ++i) {""")],
 demo=r'''#include "h.h"
#include "rcutils/types/string_map.h"
int main(void) {
  rcutils_allocator_t a = h_allocator(); rcutils_string_map_t m = rcutils_get_zero_initialized_string_map(); h_fail(-1);
  CHECK(0 == rcutils_string_map_init(&m, 2, a)); CHECK(0 == rcutils_string_map_set(&m, "a", "b"));
  h_fail(0); CHECK(0 != rcutils_string_map_reserve(&m, 50)); h_fail(-1); rcutils_reset_error();
  size_t c = 0; CHECK(0 == rcutils_string_map_get_capacity(&m, &c)); CHECK(c == 2); CHECK(0 == rcutils_string_map_fini(&m)); return 0;
}'''),
]
import hashlib
_h = hashlib.sha256()
for _ in range(512): _h.update(bytes(1 << 20))
for s in S: s["demo"] = s["demo"].replace("@DIGEST@", _h.hexdigest())

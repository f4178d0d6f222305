S = [
dict(id="m01-hash-map-entry", prop="M01", needs="allocation failure of exactly the value copy while storing a new key in a hash map",
 breaks="the already obtained copy of the key is leaked",
 edits=[("src/hash_map.c", """      hash_map_deallocate_entry(allocator, entry);
      return ret;""", """      if (RCUTILS_RET_BAD_ALLOC == ret && NULL == entry->value) {
        allocator->deallocate(entry, allocator->state);
      } else {
        hash_map_deallocate_entry(allocator, entry);
      }
      return ret;""")],
 demo=r'''#include "h.h"
#include "rcutils/types/hash_map.h"
static size_t hf(const void * k) { return *(const int *)k; }
static int cf(const void * a, const void * b) { return *(const int *)a - *(const int *)b; }
int main(void) {
  rcutils_allocator_t a = h_allocator(); int k = 1, v = 2;
  for (long n = 0; n < 8; n++) {
    rcutils_hash_map_t m = rcutils_get_zero_initialized_hash_map();
    h_fail(-1); CHECK(0 == rcutils_hash_map_init(&m, 4, sizeof(int), sizeof(int), hf, cf, &a));
    h_fail(n); rcutils_ret_t r = rcutils_hash_map_set(&m, &k, &v); (void)r; h_fail(-1); rcutils_reset_error();
    CHECK(0 == rcutils_hash_map_fini(&m)); CHECK(h_live == 0); CHECK(h_intact());
  }
  return 0;
}'''),
dict(id="m02-string-map-value", prop="M02", needs="replacing the value of an existing key while the allocation of the new value fails",
 breaks="the old value is released although the map still refers to it",
 edits=[("src/string_map.c", """  char * original_value = string_map->impl->key_value_pairs[key_index].value;
  char * new_value""", """  char * original_value = string_map->impl->key_value_pairs[key_index].value;
  if (original_value != NULL) {
    // make room for the new value first
    allocator.deallocate(original_value, allocator.state);
  }
  char * new_value"""), ("src/string_map.c", """  if (original_value != NULL) {
    // clean up the old value if not NULL
    allocator.deallocate(original_value, allocator.state);
  }
""", "")],
 demo=r'''#include "h.h"
#include "rcutils/types/string_map.h"
int main(void) {
  rcutils_allocator_t a = h_allocator();
  rcutils_string_map_t m = rcutils_get_zero_initialized_string_map();
  h_fail(-1); CHECK(0 == rcutils_string_map_init(&m, 2, a));
  CHECK(0 == rcutils_string_map_set(&m, "key", "value"));
  h_fail(0); CHECK(0 != rcutils_string_map_set(&m, "key", "other")); h_fail(-1); rcutils_reset_error();
  const char * v = rcutils_string_map_get(&m, "key");
  CHECK(v && 0 == strcmp(v, "value"));
  CHECK(0 == rcutils_string_map_fini(&m)); CHECK(h_live == 0); CHECK(h_intact());
  return 0;
}'''),
dict(id="m05-char-array-terminator", prop="M05", needs="appending text whose terminator is the first byte beyond the capacity",
 breaks="the terminator is written one byte past the storage",
 edits=[("src/char_array.c", """  rcutils_ret_t ret = rcutils_char_array_expand_as_needed(char_array, new_length);""", """  rcutils_ret_t ret = rcutils_char_array_expand_as_needed(
    char_array, current_strlen > 0 ? new_length - 1 : new_length);""")],
 demo=r'''#include "h.h"
#include "rcutils/types/char_array.h"
int main(void) {
  rcutils_allocator_t a = h_allocator();
  rcutils_char_array_t c = rcutils_get_zero_initialized_char_array();
  h_fail(-1); CHECK(0 == rcutils_char_array_init(&c, 8, &a));
  CHECK(0 == rcutils_char_array_strcpy(&c, "1234"));
  CHECK(0 == rcutils_char_array_strcat(&c, "5678"));
  CHECK(0 == strcmp(c.buffer, "12345678")); CHECK(h_intact());
  CHECK(0 == rcutils_char_array_fini(&c)); CHECK(h_live == 0); CHECK(h_intact());
  return 0;
}'''),
dict(id="m01-string-array-fini", prop="M01", needs="a split or copy that fills an array with an empty slot before a used one",
 breaks="strings behind the first empty slot are not released",
 edits=[("src/string_array.c", """  for (i = 0; i < string_array->size; ++i) {
    allocator->deallocate""", """  for (i = 0; i < string_array->size && NULL != string_array->data[i]; ++i) {
    allocator->deallocate""")],
 demo=r'''#include "h.h"
#include "rcutils/types/string_array.h"
#include "rcutils/strdup.h"
int main(void) {
  rcutils_allocator_t a = h_allocator();
  rcutils_string_array_t s = rcutils_get_zero_initialized_string_array();
  h_fail(-1); CHECK(0 == rcutils_string_array_init(&s, 3, &a));
  s.data[2] = rcutils_strdup("abc", a);
  CHECK(0 == rcutils_string_array_fini(&s)); CHECK(h_live == 0); CHECK(h_intact());
  return 0;
}'''),
]

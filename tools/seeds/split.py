S = [
dict(id="s03-long-token", prop="S03", needs="a token of more than 255 characters",
 breaks="long tokens are cut off",
 edits=[("src/split.c", """        snprintf(string_array->data[token_counter], (rhs - lhs + 1), "%s", str + lhs);
        ++token_counter;""", """        snprintf(
          string_array->data[token_counter], rhs - lhs > 255 ? 256 : rhs - lhs + 1, "%s", str + lhs);
        ++token_counter;""")],
 demo=r'''#include "h.h"
#include "rcutils/split.h"
int main(void) {
  rcutils_allocator_t a = h_allocator(); rcutils_string_array_t t = rcutils_get_zero_initialized_string_array(); h_fail(-1);
  static char s[700]; memset(s, 'a', 600); s[300] = '.';
  CHECK(0 == rcutils_split(s, '.', a, &t)); CHECK(t.size == 2 && strlen(t.data[0]) == 300 && strlen(t.data[1]) == 299);
  CHECK(0 == rcutils_string_array_fini(&t)); CHECK(h_live == 0); return 0;
}'''),
]

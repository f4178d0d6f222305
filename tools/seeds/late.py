S = [
dict(id="m04-empty-array", prop="M04", needs="a custom allocator, an array initialised with no elements and then resized",
 breaks="an array that starts out empty remembers the default allocator instead of the caller's",
 edits=[("src/string_array.c", "  string_array->allocator = *allocator;\n", "  string_array->allocator = size > 0 ? *allocator : rcutils_get_default_allocator();\n")],
 demo=r'''#include "h.h"
#include "rcutils/types/string_array.h"
int main(void) {
  rcutils_allocator_t a = h_allocator(); rcutils_string_array_t s = rcutils_get_zero_initialized_string_array();
  CHECK(0 == rcutils_string_array_init(&s, 0, &a)); long n = h_ops;
  CHECK(0 == rcutils_string_array_resize(&s, 3)); CHECK(h_ops > n);
  CHECK(0 == rcutils_string_array_fini(&s)); CHECK(h_live == 0 && h_intact()); return 0;
}'''),
dict(id="o03-keep-existing", prop="O03", needs="removing an existing variable with overwriting disabled",
 breaks="an existing variable that must not be overwritten is removed by a null value",
 edits=[("src/env.c", "  if ((int)overwrite == 0 && getenv(env_name) != NULL) {", "  if ((int)overwrite == 0 && env_value != NULL && getenv(env_name) != NULL) {")],
 demo=r'''#include "h.h"
#include "rcutils/env.h"
int main(void) {
  CHECK(rcutils_set_env("RCUTILS_DEMO_VAR", "one")); CHECK(rcutils_set_env_overwrite("RCUTILS_DEMO_VAR", NULL, false));
  const char * v = NULL; CHECK(NULL == rcutils_get_env("RCUTILS_DEMO_VAR", &v)); CHECK(0 == strcmp(v, "one"));
  CHECK(rcutils_set_env_overwrite("RCUTILS_DEMO_VAR", "two", false)); CHECK(NULL == rcutils_get_env("RCUTILS_DEMO_VAR", &v)); CHECK(0 == strcmp(v, "one")); return 0;
}'''),
dict(id="x03-short-count", prop="X03", needs="sorting an array of exactly two elements",
 breaks="arrays of two elements are reported sorted without being sorted",
 edits=[("src/qsort.c", "  if (1 >= count) {", "  if (2 >= count && size > 1) {")],
 demo=r'''#include "h.h"
#include "rcutils/qsort.h"
static int cmp(const void * a, const void * b) { return *(const int *)a - *(const int *)b; }
int main(void) { int v[2] = {2, 1}; CHECK(0 == rcutils_qsort(v, 2, sizeof(int), cmp)); CHECK(v[0] == 1 && v[1] == 2); return 0; }'''),
dict(id="o05-negative", prop="O05", needs="a realtime clock set before the epoch",
 breaks="a reading of less than a second before the epoch is accepted",
 edits=[("src/time_unix.c", "  return now->tv_sec < 0 || (now->tv_nsec < 0 && now->tv_sec == 0);", "  return now->tv_sec < -1 || (now->tv_nsec < 0 && now->tv_sec == 0);")],
 demo=r'''#include "h.h"
#include <time.h>
#include "rcutils/time.h"
int clock_gettime(clockid_t c, struct timespec * t) { (void)c; t->tv_sec = -1; t->tv_nsec = 999999999; return 0; }
int main(void) { rcutils_time_point_value_t n = 77; CHECK(0 != rcutils_system_time_now(&n)); CHECK(n == 77); return 0; }'''),
dict(id="s04-long-text", prop="S04", needs="two texts that first differ after 4096 characters",
 breaks="unlimited comparison looks at the first 4096 characters only",
 edits=[("src/strcasecmp.c", "  *value = strcasecmp(s1, s2);", "  *value = strncasecmp(s1, s2, 4096u);")],
 demo=r'''#include "h.h"
#include "rcutils/strcasecmp.h"
int main(void) {
  static char a[5001], b[5001]; memset(a, 'x', 5000); memset(b, 'X', 5000); b[4999] = 'y'; int v = 0;
  CHECK(0 == rcutils_strcasecmp(a, b, &v)); CHECK(v < 0); return 0;
}'''),
dict(id="x04-long-name", prop="X04", needs="a program whose file name is longer than 127 characters",
 breaks="long executable names are cut",
 edits=[("src/process.c", "  size_t baselen = strlen(bname);", "  size_t baselen = strnlen(bname, 127);")],
 demo=r'''#include "h.h"
#include <errno.h>
#include "rcutils/process.h"
extern char * program_invocation_name;
int main(void) {
  static char p[400] = "/x/"; memset(p + 3, 'n', 200); program_invocation_name = p; rcutils_allocator_t a = h_allocator();
  char * n = rcutils_get_executable_name(a); CHECK(n); CHECK(strlen(n) == 200); a.deallocate(n, a.state); CHECK(h_live == 0 && h_intact()); return 0;
}'''),
dict(id="o07-owner-write", prop="O07", needs="a file that its owner may read but not write",
 breaks="a file that is only readable counts as readable and writable",
 edits=[("src/filesystem.c", "  if (!((buf.st_mode & S_IWUSR) && (buf.st_mode & S_IRUSR))) {", "  if (!(buf.st_mode & (S_IWUSR | S_IRUSR))) {")],
 demo=r'''#include "h.h"
#include <sys/stat.h>
#include <unistd.h>
#include "rcutils/filesystem.h"
int main(void) {
  FILE * f = fopen("ro", "w"); CHECK(f); fclose(f); CHECK(0 == chmod("ro", 0466)); char d[512], p[600]; CHECK(getcwd(d, sizeof(d))); snprintf(p, sizeof(p), "%s/ro", d);
  CHECK(rcutils_is_readable(p)); CHECK(!rcutils_is_writable(p)); CHECK(!rcutils_is_readable_and_writable(p)); return 0;
}'''),
dict(id="l04-date-room", prop="L04", needs="an output format with the date and time token",
 breaks="the buffer for time fields has no room for the date, so such messages are lost",
 edits=[("src/logging.c", "  char numeric_storage[32];", "  char numeric_storage[28];")],
 demo=r'''#include "h.h"
#include "rcutils/env.h"
#include "rcutils/logging.h"
int main(void) {
  CHECK(rcutils_set_env("RCUTILS_CONSOLE_OUTPUT_FORMAT", "{date_time_with_ms} {message}")); CHECK(0 == rcutils_logging_initialize());
  rcutils_allocator_t a = h_allocator(); rcutils_char_array_t o = rcutils_get_zero_initialized_char_array(); CHECK(0 == rcutils_char_array_init(&o, 0, &a));
  CHECK(0 == rcutils_logging_format_message(NULL, RCUTILS_LOG_SEVERITY_INFO, "n", 1000000000, "hello", &o));
  CHECK(strlen(o.buffer) == 23 + 6); CHECK(0 == rcutils_char_array_fini(&o)); CHECK(0 == rcutils_logging_shutdown()); return 0;
}'''),
]

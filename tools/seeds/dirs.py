
S = [
dict(id="o09-depth", prop="O09", needs="a directory tree of three levels and a depth limit of two",
 breaks="directories remembered from the first level keep its depth, so deeper ones are counted although they are beyond the limit",
 edits=[("src/filesystem.c", "found_new_dir->depth = dir_list->depth + 1;", "found_new_dir->depth = dir_list->depth;")],
 demo=r'''#include "h.h"
#include <unistd.h>
#include <sys/stat.h>
#include "rcutils/filesystem.h"
static void put(const char * p, int n) { FILE * f = fopen(p, "w"); for (int i = 0; i < n; i++) fputc('x', f); fclose(f); }
int main(void) {
  char d[512]; CHECK(getcwd(d, sizeof(d))); mkdir("t", 0755); mkdir("t/a", 0755); mkdir("t/a/b", 0755);
  put("t/f", 3); put("t/a/f", 50); put("t/a/b/f", 700);
  char p[600]; snprintf(p, sizeof(p), "%s/t", d); uint64_t s = 9; rcutils_allocator_t a = rcutils_get_default_allocator();
  CHECK(0 == rcutils_calculate_directory_size_with_recursion(p, 1, &s, a)); CHECK(s == 3);
  CHECK(0 == rcutils_calculate_directory_size_with_recursion(p, 2, &s, a)); CHECK(s == 53);
  CHECK(0 == rcutils_calculate_directory_size_with_recursion(p, 0, &s, a)); CHECK(s == 753); return 0;
}'''),
dict(id="o09-second-listing", prop="O09", needs="computing the size of a tree with more than one directory",
 breaks="the size starts over with every directory",
 edits=[("src/filesystem.c", '''  *size = 0;

  do {
    iter =''', '''  do {
    *size = dir_list->depth > 1 ? *size : 0;
    if (NULL == dir_list->next) {
      *size = 0;
    }
    iter =''')],
 demo=r'''#include "h.h"
#include <unistd.h>
#include <sys/stat.h>
#include "rcutils/filesystem.h"
static void put(const char * p, int n) { FILE * f = fopen(p, "w"); for (int i = 0; i < n; i++) fputc('x', f); fclose(f); }
int main(void) {
  char d[512]; CHECK(getcwd(d, sizeof(d))); mkdir("t", 0755); mkdir("t/a", 0755); mkdir("t/b", 0755);
  put("t/f", 3); put("t/a/f", 50); put("t/b/f", 700);
  char p[600]; snprintf(p, sizeof(p), "%s/t", d); uint64_t s = 9; rcutils_allocator_t a = rcutils_get_default_allocator();
  CHECK(0 == rcutils_calculate_directory_size_with_recursion(p, 0, &s, a)); CHECK(s == 753); return 0;
}'''),
dict(id="o09-last-entry", prop="O09", needs="asking an iterator for its entry after the last one",
 breaks="the name of the last entry is kept after the end of the listing",
 edits=[("src/filesystem.c", '''#endif

  iter->entry_name = NULL;
  return false;''', '''#endif

  return false;''')],
 demo=r'''#include "h.h"
#include <unistd.h>
#include "rcutils/filesystem.h"
int main(void) {
  char d[512]; CHECK(getcwd(d, sizeof(d))); rcutils_dir_iter_t * i = rcutils_dir_iter_start(d, rcutils_get_default_allocator()); CHECK(i);
  int n = 1; while (rcutils_dir_iter_next(i)) n++;
  CHECK(n >= 2); CHECK(i->entry_name == NULL); rcutils_dir_iter_end(i); return 0;
}'''),
]

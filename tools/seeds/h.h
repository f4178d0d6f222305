// allocator used by the demonstrations: counts live blocks, fails on request, checks guards, state and double release
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include "rcutils/allocator.h"
#include "rcutils/error_handling.h"
#define CHECK(x) do { if (!(x)) { printf("FAIL line %d: %s\n", __LINE__, #x); exit(1); } } while (0)
typedef struct blk { size_t n; int live; struct blk * next; unsigned char d[]; } blk;
static blk * h_all; static long h_live, h_ops, h_bad; static long h_fail_at = -1; static int h_tok;
static blk * h_find(void * p) { for (blk * b = h_all; b; b = b->next) if (b->d == p) return b; return NULL; }
static int h_guard(blk * b) { for (int i = 0; i < 32; i++) if (b->d[b->n + i] != 0xA5) return 0; return 1; }
static void * h_alloc(size_t n, void * s) {
  if (s != &h_tok) h_bad++;
  if (h_ops++ == h_fail_at) return NULL;
  if (n > (1u << 28)) return NULL;
  blk * b = malloc(sizeof(blk) + n + 32); b->n = n; b->live = 1; b->next = h_all; h_all = b; h_live++;
  memset(b->d, 0xCD, n); memset(b->d + n, 0xA5, 32); return b->d;
}
static void h_free(void * p, void * s) {
  if (s != &h_tok) h_bad++;
  if (!p) return;
  blk * b = h_find(p); if (!b || !b->live || !h_guard(b)) { h_bad++; return; }
  b->live = 0; h_live--; memset(b->d, 0xDD, b->n);
}
static void * h_realloc(void * p, size_t n, void * s) {
  if (!p) return h_alloc(n, s);
  blk * b = h_find(p); if (!b || !b->live || !h_guard(b)) { h_bad++; return NULL; }
  void * q = h_alloc(n, s); if (!q) return NULL;
  memcpy(q, p, b->n < n ? b->n : n); h_free(p, s); return q;
}
static void * h_zalloc(size_t a, size_t b, void * s) {
  if (b && a > SIZE_MAX / b) return NULL;
  void * p = h_alloc(a * b, s); if (p) memset(p, 0, a * b); return p;
}
static rcutils_allocator_t h_allocator(void) {
  rcutils_allocator_t a = {h_alloc, h_free, h_realloc, h_zalloc, &h_tok}; return a;
}
static int h_intact(void) { for (blk * b = h_all; b; b = b->next) if (b->live && !h_guard(b)) return 0; return h_bad == 0; }
static void h_fail(long n) { h_ops = 0; h_fail_at = n; }

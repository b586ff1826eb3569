/* The slab allocator's contract (slabs.h), with every block its own object: overruns, use after free, double frees and frees of the
   wrong size or class are visible to the executor's memory checks; failures and a memory limit can be injected. The real allocator
   is checked against the same contract by C15. */
#include "config.h"
#include "default_engine.h"
#include "sym.h"
#include <stdarg.h>
#undef malloc
extern void *malloc(size_t);
#ifndef STUB_SM
#define STUB_SM 4096
#endif
int MAX_SM_VALUE_LEN = STUB_SM;
#ifndef STUB_MAXBLK
#define STUB_MAXBLK 512
#endif
#define NCLS 12
static struct { void *p; size_t size; unsigned id; } blk[STUB_MAXBLK]; static int nblk;
size_t stub_used; int stub_live; long stub_fail_at = -1; size_t stub_limit; int stub_shortage; int stub_failed; int stub_allocs;
static size_t csize(unsigned id) { return id < NCLS ? (size_t)96 << (id - 1) : 2000000; }
ENGINE_ERROR_CODE slabs_init(struct default_engine *e, const size_t limit, const double f, const bool pre) { e->slabs.power_largest = NCLS; return ENGINE_SUCCESS; }
void slabs_final(struct default_engine *e) { }
unsigned int slabs_clsid(const size_t size) { if (!size) return 0; for (unsigned i = 1; i <= NCLS; i++) if (size <= csize(i)) return i; return 0; }
unsigned int slabs_space_size(const size_t size) { if (size <= STUB_SM) return (size + 8 + 15) / 16 * 16; unsigned c = slabs_clsid(size); return c ? csize(c) : 0; }
int slabs_space_shortage_level(void) { return stub_shortage; }
void slabs_dump_SM_info(void) { }
void *slabs_alloc(const size_t size, unsigned int id) {
  if (id < 1 || id > NCLS) return NULL;
  sym_assert(size > 0 && size <= csize(id), "allocation fits its class");
  if (stub_fail_at >= 0 && stub_fail_at-- == 0) { stub_failed = 1; return NULL; }
  unsigned sp = slabs_space_size(size); if (stub_limit && stub_used + sp > stub_limit) return NULL;
  if (nblk >= STUB_MAXBLK) sym_fail("stub table full");
  void *p = malloc(size <= STUB_SM ? size : csize(id)); if (!p) sym_fail("malloc"); memset(p, 0xB5, size <= STUB_SM ? size : 64);
  blk[nblk].p = p; blk[nblk].size = size; blk[nblk++].id = id; stub_used += sp; stub_live++; stub_allocs++; return p;
}
static int blk_find(void *p) { for (int i = nblk - 1; i >= 0; i--) if (blk[i].p == p) return i; return -1; }
void slabs_free(void *p, size_t size, unsigned int id) {
  int i = blk_find(p); if (i < 0) { sym_fail("a block that is not allocated is freed"); return; }
  sym_assert(blk[i].id == id, "freed into the class it was allocated from");
  if (blk[i].size <= STUB_SM) sym_assert(blk[i].size == size, "freed with the size it was allocated with"); else sym_assert(size > STUB_SM && size <= csize(id), "freed with a size of its class");
  stub_used -= slabs_space_size(size); stub_live--; free(p); blk[i] = blk[--nblk];
}
void slabs_stats(ADD_STAT a, const void *c) { }
void slabs_stats_basic(ADD_STAT a, const void *c) { }
void slabs_adjust_mem_requested(unsigned int id, size_t old, size_t ntotal) { }
ENGINE_ERROR_CODE slabs_set_memlimit(size_t m) { stub_limit = m; return ENGINE_SUCCESS; }
void add_statistics(const void *cookie, ADD_STAT add_stats, const char *prefix, int num, const char *key, const char *fmt, ...) {
  char name[80], val[80]; int klen = prefix ? (num >= 0 ? snprintf(name, sizeof name, "%s:%d:%s", prefix, num, key) : snprintf(name, sizeof name, "%s:%s", prefix, key)) : (num >= 0 ? snprintf(name, sizeof name, "%d:%s", num, key) : snprintf(name, sizeof name, "%s", key));
  va_list ap; va_start(ap, fmt); int vlen = vsnprintf(val, sizeof val, fmt, ap); va_end(ap); add_stats(name, klen, val, vlen, cookie);
}

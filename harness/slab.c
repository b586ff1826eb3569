/* Slab and small-memory allocator: no overlap, capacity, alignment, contents, accounting, memory limit. */
#include "eng.h"
#include "default_engine.h"
#ifndef H_CFG
#define H_CFG "cache_size=67108864"
#endif
#define MAXL 256
static struct blk { unsigned char *p; size_t n, cap; unsigned id; unsigned char pat; } L[MAXL]; static int nl; static unsigned char nextpat = 1;
static uint64_t smused;
static int small(size_t n) { return n <= (size_t)MAX_SM_VALUE_LEN; }
/* contents: the block begins and ends with its pattern (the first word of a block in use is never zero) */
static void fill(struct blk *b) { size_t k = b->n < 24 ? b->n : 24; memset(b->p, b->pat, k); memset(b->p + b->n - k, b->pat, k); }
static void intact(void) {
  for (int i = 0; i < nl; i++) { struct blk *b = &L[i]; size_t k = b->n < 24 ? b->n : 24; unsigned bad = 0; for (size_t j = 0; j < k; j++) bad |= (b->p[j] ^ b->pat) | (b->p[b->n - k + j] ^ b->pat); sym_assert(!bad, "the contents of a block in use are not disturbed by other requests"); }
}
static struct blk *allocd(void *p, size_t n, unsigned id) {
  sym_assert(sym_valid_mem(p, n), "an allocated block is entirely usable memory");
  sym_assert(((uintptr_t)p & 7) == 0, "blocks are aligned to 8 bytes");
  size_t cap = slabs_space_size(n); sym_assert(cap >= n, "the accounted size of a block covers the request");
  for (int i = 0; i < nl; i++) sym_assert((unsigned char *)p + n <= L[i].p || L[i].p + L[i].n <= (unsigned char *)p, "no two blocks in use overlap");
  if (nl >= MAXL) sym_fail("harness: too many blocks");
  struct blk *b = &L[nl++]; b->p = p; b->n = n; b->cap = cap; b->id = id; b->pat = nextpat++; if (!nextpat) nextpat = 1;
  fill(b); if (small(n)) smused += cap; return b;
}
static struct blk *al(size_t n) { unsigned id = slabs_clsid(n); sym_assert(id > 0, "a size up to the maximum has a class"); void *p = slabs_alloc(n, id); if (!p) return NULL; return allocd(p, n, id); }
static void fr(int i) { struct blk b = L[i]; for (int k = i; k + 1 < nl; k++) L[k] = L[k + 1]; nl--; if (small(b.n)) smused -= b.cap; slabs_free(b.p, b.n, b.id); }
/* one pass over the statistics report collects the values wanted */
static const char *WN[] = {"SM:used_total_space", "SM:free_small_space", "SM:free_avail_space", "0:used_chunks", "total_malloced", "memory_limit"}; static uint64_t WV[6]; static int WF[6];
static void collect(const char *key, const uint16_t klen, const char *val, const uint32_t vlen, const void *cookie) {
  for (int i = 0; i < 6; i++) if (klen == strlen(WN[i]) && memcmp(key, WN[i], klen) == 0) { uint64_t v = 0; for (uint32_t j = 0; j < vlen; j++) { if (val[j] < '0' || val[j] > '9') sym_fail("statistic is not a number"); v = v * 10 + (val[j] - '0'); } WV[i] = v; WF[i] = 1; }
}
static void readstats(void) { memset(WF, 0, sizeof WF); WV[3] = 0; E->get_stats(EH, COOKIE, "slabs", 5, collect); for (int i = 0; i < 6; i++) if (i != 3 && !WF[i]) sym_fail("statistic missing"); }
static uint64_t slabstat(const char *n) { readstats(); for (int i = 0; i < 6; i++) if (!strcmp(n, WN[i])) return WV[i]; sym_fail("statistic missing"); return 0; }
static uint64_t blocks(void) { readstats(); return WV[3]; }
#define BODY (262144 - 32)
static void account(void) {
  readstats(); uint64_t u = WV[0], s = WV[1], a = WV[2], b = WV[3];
  sym_assert(u == smused, "used small-memory space is the sum of the blocks in use");
  sym_assert(u + s + a == b * BODY, "used and free small-memory space add up to the blocks held");
  if (nl == 0 || smused == 0) sym_assert(b == 0, "a small-memory block without blocks in use is given back");
}
static void clean(void) { for (; nl;) fr(nl - 1); }

#ifdef H_CLS  /* class selection for every size */
void harness(void) {
  static const char *C[] = {"", "chunk_size=48", "factor=2.0", "factor=1.07", "chunk_size=512;factor=1.5", "item_size_max=2097152", "item_size_max=20971520"};
  char cfg[128]; snprintf(cfg, sizeof cfg, "cache_size=104857600;%s", C[sym_choose(7, "config")]); eng_init(cfg);
  uint32_t n = sym_u32("size"); uint32_t max = (uint32_t)((struct default_engine *)EH)->config.item_size_max;
  unsigned id = slabs_clsid(n), cap;
  if (n == 0) { sym_assert(id == 0, "size 0 has no class"); sym_reach("zero"); return; }
  if (n > max) { sym_assert(id == 0, "a size beyond the maximum item size has no class"); sym_reach("toobig"); return; }
  sym_assert(id > 0, "every size up to the maximum item size has a class");
  cap = slabs_space_size(n); sym_assert(cap >= n, "the chunk of the class covers the size"); sym_assert((cap & 7) == 0, "chunks are multiples of 8"); sym_reach("class");
  if (!small(n)) sym_assert(cap <= max, "chunks do not exceed the maximum item size");
  if (n < 0xffffffffu) { unsigned id2 = slabs_clsid(n + 1); sym_assert(id2 == 0 || id2 >= id, "classes grow with the size"); }
}
#endif
#ifdef H_SIZE /* every size around a hole */
#ifndef H_LO
#define H_LO 1
#define H_HI 49148
#endif
void harness(void) {
  eng_init(H_CFG);
  uint32_t lo = (uint32_t)sym_choose(256, "low"), n = lo + 256 * (uint32_t)sym_choose(H_HI / 256 + 1, "high"); if (n < H_LO || n > H_HI) { sym_reach("skip"); return; }
#ifdef H_RES
  static const unsigned R[] = H_RES; int ok = 0; for (unsigned i = 0; i < sizeof R / sizeof R[0]; i++) ok |= (n % 8) == R[i]; if (!ok) return;
#endif
  if (!al(100)) sym_fail("allocation fails with memory available"); if (!al(n)) sym_fail("allocation fails with memory available"); if (!al(40)) sym_fail("allocation fails with memory available"); account();
  fr(1); account(); intact();
  struct blk *b = al(n); if (!b) sym_fail("allocation fails with memory available"); account(); intact();
  fr(nl - 1); size_t m = n > 40 ? n - 33 : n; if (!al(m)) sym_fail("allocation fails with memory available"); account(); intact(); fr(0); fr(0); intact(); account(); fr(0); account(); sym_reach("end");
}
#endif
#ifdef H_HIST
#ifndef H_N
#define H_N 6
#endif
#ifndef H_FREEMAX
#define H_FREEMAX 0
#endif
#ifndef H_SIZES
#define H_SIZES {1, 28, 29, 61}
#endif
void harness(void) {
  static const size_t SZ[] = H_SIZES; int ns = sizeof SZ / sizeof SZ[0];
  eng_init(H_CFG);
#ifdef H_PRE
  { static const size_t P[] = H_PRE; for (unsigned i = 0; i < sizeof P / sizeof P[0]; i++) if (!al(P[i])) sym_fail("allocation fails with memory available"); }
#endif
  for (int s = 0; s < H_N; s++) {
    int fm = H_FREEMAX && nl > H_FREEMAX ? H_FREEMAX : nl, c = sym_choose(ns + fm, "op");
    if (c < ns) { if (!al(SZ[c])) sym_fail("allocation fails with memory available"); } else { fr(c - ns); sym_reach("free"); }
    intact(); if (s < H_N - 1) account();
  }
  clean(); account(); sym_reach("end");
}
#endif
#ifdef H_MERGE /* k neighbouring pieces fill a block exactly; freeing some in any order makes one piece of the joint size */
void harness(void) {
  eng_init(H_CFG); int k = H_MERGE; size_t piece = ((size_t)BODY / k / 8) * 8; size_t got = 0;
  if (piece > 49152) piece = 49152;
  unsigned char *base = NULL; int n = 0;
  while (BODY - got >= piece + 32) { struct blk *b = al(piece - 4); if (!b) sym_fail("allocation fails with memory available"); if (!base) base = b->p; got += piece; n++; }
  if (BODY - got >= 32 && BODY - got <= 49152) { if (!al(BODY - got - 4)) sym_fail("allocation fails with memory available"); n++; got = BODY; }
  sym_assert(got == BODY && blocks() == 1, "pieces that fit exactly fill one block"); account();
  /* order by address (insertion) */
  for (int i = 1; i < nl; i++) for (int j = i; j > 0 && L[j].p < L[j - 1].p; j--) { struct blk t = L[j]; L[j] = L[j - 1]; L[j - 1] = t; }
  int run = 2 + sym_choose(2, "run"), at = sym_choose(n - run + 1, "at"); uint32_t done = 0;
  size_t joint = 0; for (int i = at; i < at + run; i++) joint += L[i].cap;
  for (int s = 0; s < run; s++) { int w = sym_choose(run - s, "order"), i = at; for (int k2 = 0; k2 < run; k2++) if (!(done & (1u << k2))) { if (w-- == 0) { done |= 1u << k2; unsigned removed = 0; for (int q = 0; q < k2; q++) if ((done >> q) & 1) removed++; i = at + k2 - removed; break; } } fr(i); intact(); account(); }
  sym_assert(blocks() == 1, "one block");
  uint64_t before = slabstat("total_malloced");
  size_t want = joint <= 49152 ? joint / 1024 * 1024 - 4 : 49148; /* slot classes are at most 1024 bytes wide */
  if (!al(want)) sym_fail("allocation fails with memory available");
  sym_assert(slabstat("total_malloced") == before && blocks() == 1, "freed neighbours are merged: a request for their joint size needs no new block"); intact(); account();
  clean(); account(); sym_reach("end");
}
#endif
#ifdef H_LIMIT
void harness(void) {
  eng_init(H_CFG); static const size_t SZ[] = H_SIZES; int ns = sizeof SZ / sizeof SZ[0];
  uint64_t lim = slabstat("memory_limit"), base = slabstat("total_malloced"); size_t n = 0; int k = sym_choose(ns, "size"); n = SZ[k];
  uint64_t rsv = H_RSV; int cnt = 0;
  while (al(n)) { cnt++; sym_assert(slabstat("total_malloced") <= lim + rsv, "memory taken stays within the limit plus the reserved slabs"); if (nl >= MAXL - 4) sym_fail("harness: no limit reached"); }
  sym_assert(slabstat("total_malloced") - base + (1 << 20) > lim - base || cnt >= H_MINCNT, "memory up to the limit is usable"); intact(); if (small(n)) account();
  sym_reach("full");
  for (int r = 0; r < 2; r++) {
    int pos[5] = {0, 1, nl / 2, nl - 2, nl - 1}; fr(pos[sym_choose(5, "free")]); intact(); if (!al(n)) sym_fail("memory freed by one request cannot be allocated again"); intact(); if (small(n)) account(); }
#ifdef H_PREALLOC
  sym_assert(slabs_set_memlimit(lim * 3) != ENGINE_SUCCESS, "preallocated memory has a fixed limit"); sym_assert(slabstat("total_malloced") <= lim, "preallocated memory is the limit"); if (0)
#endif
  if (small(n)) { if (sym_bool("grow")) { ENGINE_ERROR_CODE e = slabs_set_memlimit(lim * 3); sym_assert(e == ENGINE_SUCCESS, "raising the memory limit succeeds"); sym_assert(slabstat("memory_limit") == lim * 3, "new limit reported"); if (!al(n)) sym_fail("no allocation after raising the memory limit"); intact(); account(); sym_reach("raised"); } else { ENGINE_ERROR_CODE e = slabs_set_memlimit(lim / 2); sym_assert(e == ENGINE_EBADVALUE, "a limit below the memory in use is refused"); sym_assert(slabstat("memory_limit") == lim, "refused limit changes nothing"); } }
  clean(); if (small(n)) account(); uint64_t t = slabstat("total_malloced"); if (!al(n)) sym_fail("freed memory cannot be used"); sym_assert(slabstat("total_malloced") == t, "freed memory is reused"); clean(); sym_reach("end");
}
#endif

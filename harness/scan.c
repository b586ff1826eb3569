/* Key index, cursor scans and snapshot iteration. The hash of every key is an input, the hash table is small (growth happens within the
   bound), and keys come and go between scan steps. */
#include "multi.h"
#include <sys/time.h>
#include <memcached/protocol_binary.h>
static int scrub_status; static bool scrub_resp(const void *k, uint16_t kl, const void *e, uint8_t el, const void *b, uint32_t bl, uint8_t dt, uint16_t st, uint64_t cas, const void *c) { scrub_status = st; return true; }
#define M_INDEX 0
#define M_KEYSCAN 1
#define M_PREFIX 2
#define M_ITER 3
#define M_SCRUB 4
#define M_FULL 5
#define M_LONG 6
#ifndef H_MODE
#define H_MODE M_INDEX
#endif
#ifndef H_KEYS
#define H_KEYS 8
#endif
#ifndef H_PRE
#define H_PRE 3        /* keys stored at the start */
#endif
#ifndef H_N
#define H_N 4          /* changes of the key set */
#endif
#ifndef H_CLOSE
#define H_CLOSE 0
#endif
#ifndef H_HASHES
#define H_HASHES {0, 1, 2, 3}
#endif
#ifndef H_FREE
#define H_FREE H_KEYS  /* how many keys have a free hash (the others use a fixed spread) */
#endif
static const uint32_t HS[] = H_HASHES; enum { NHS = sizeof(HS) / sizeof(HS[0]) };
static uint32_t hv[H_KEYS], phv[H_KEYS]; static int hset[H_KEYS], pset_[H_KEYS], npicked;
#define BIGKEYS 300
static char names[H_KEYS][40]; static int nlen[H_KEYS];
static uint32_t hashv(int i) { if (!hset[i]) { hset[i] = 1; hv[i] = npicked++ < H_FREE ? HS[sym_choose(NHS, "hash")] : HS[(i * 5 + 1) % NHS]; } return hv[i]; }
static int longn; static uint32_t longh, longh2;
static int numk(const char *p, size_t n) { int v = 0; for (size_t i = 0; i < n; i++) v = v * 10 + (p[i] - '0'); return v; }
static uint32_t hfn(const void *d, size_t n) { const char *p = d;
  if (H_MODE == M_LONG) { if (n == 4 && p[0] == 'f') { int i = numk(p + 1, 3); return i < longn ? longh : i < longn + 4 ? longh2 : 1 + (uint32_t)i * 2; } return n == 4 && p[0] == 'p' ? longh & 1 : 9; }
  if (H_MODE == M_FULL) { if (n < 2 || p[0] != 'f') return 9; int i = numk(p + 1, n - 1); return (uint32_t)(i / 3) * 7 + 1; }
  for (int i = 0; i < H_KEYS; i++) if ((size_t)nlen[i] == n && memcmp(p, names[i], n) == 0) return hashv(i);
  if (H_MODE == M_PREFIX) for (int i = 0; i < H_KEYS; i++) if (nlen[i] > (int)n && names[i][n] == ':' && memcmp(p, names[i], n) == 0) { if (!pset_[i]) { pset_[i] = 1; static const uint32_t P[] = {0, 1, 2, 1023}; phv[i] = P[sym_choose(4, "phash")]; } return phv[i]; }
  return 77; }
/* the clock used to bound the time of one scan call: advances by an input amount at each reading */
static long long usec = 1000000; static int slow;
int gettimeofday(struct timeval *tv, void *tz) { usec += slow ? 6000 : 10; tv->tv_sec = usec / 1000000; tv->tv_usec = usec % 1000000; return 0; }
static int in[H_KEYS], kindof[H_KEYS], always[H_KEYS], nin, ever[H_KEYS]; static rel_time_t exptime[H_KEYS];
static void put(int i, int kind, rel_time_t exp) {
  ENGINE_ERROR_CODE r; item_attr a; memset(&a, 0, sizeof a); a.exptime = exp; a.maxcount = 10; a.readable = 1;
  if (kind == KV) { uint64_t c; char v[2] = {'v', (char)('0' + i)}; r = kv_store(names[i], nlen[i], OPERATION_SET, v, 2, 0, exp, 0, &c); } else r = co_create(kind, names[i], &a);
  sym_assert(r == ENGINE_SUCCESS, "a key is stored"); in[i] = 1; ever[i] = 1; kindof[i] = kind; exptime[i] = exp; nin++; }
static void del(int i) { ENGINE_ERROR_CODE r = E->remove(EH, COOKIE, names[i], nlen[i], 0, 0); sym_assert(r == ENGINE_SUCCESS, "a stored key is found for removal"); in[i] = 0; always[i] = 0; nin--; }
static int expired(int i) { return exptime[i] && exptime[i] != (rel_time_t)-1 && exptime[i] <= eng_now; }
static int nextnew(void) { for (int i = 0; i < H_KEYS; i++) if (!ever[i]) return i; return -1; }
/* one change: a new key, removal or return of a key */
static int change(void) {
  int menu[2 * H_KEYS + 1], n = 0, nn = nextnew(); if (nn >= 0) menu[n++] = nn; int gone = 0; for (int i = 0; i < H_KEYS; i++) { if (in[i]) { if (!expired(i)) menu[n++] = i; } else if (ever[i] && !gone) { menu[n++] = i; gone = 1; } }
  int i = menu[sym_choose(n, "change")]; if (in[i]) { del(i); return -1; } put(i, KV, 0); sym_reach("insert"); return 1; }
static void checkall(void) { for (int i = 0; i < H_KEYS; i++) { item *it = NULL; char v[8]; uint32_t nv; item_attr a; memset(&a, 0, sizeof a); ENGINE_ITEM_ATTR id = ATTR_TYPE; if (!ever[i] && !hset[i]) continue;
    ENGINE_ERROR_CODE r = E->getattr(EH, COOKIE, names[i], nlen[i], &id, 1, &a, 0); sym_assert((r == ENGINE_SUCCESS) == (in[i] && !expired(i)), "exactly the stored keys are found"); if (r == ENGINE_SUCCESS) sym_assert(a.type == ETYPE[kindof[i]], "the key found is of the stored type");
    if (in[i] && !expired(i) && kindof[i] == KV) { r = kv_get(names[i], nlen[i], v, 8, &nv, NULL, NULL); sym_assert(r == ENGINE_SUCCESS && nv == 2 && v[0] == 'v' && v[1] == '0' + i, "the key found has its own value"); } } }
static int keyno(const void *k, int n) { for (int i = 0; i < H_KEYS; i++) if (nlen[i] == n && memcmp(k, names[i], n) == 0) return i; return -1; }
#ifdef SCAN_COMMAND
static int match(const char *p, const char *s) { if (!*p) return !*s; if (*p == '*') { for (;; s++) { if (match(p + 1, s)) return 1; if (!*s) return 0; } } if (!*s) return 0; return (*p == '?' || *p == *s) && match(p + 1, s + 1); }
static item **arr; static int got[H_KEYS], grew, calls;
static void keyscan(void) {
  char cur[32] = "0"; static const int CNT[] = {1, 2, 3, 5}; uint32_t count = CNT[sym_choose(4, "count")]; static const struct { const char *pat; int type; } F[] = {{NULL, ITEM_TYPE_MAX}, {"?", ITEM_TYPE_MAX}, {NULL, ITEM_TYPE_KV}, {"*b*", ITEM_TYPE_MAX}};
  int f = 0;
#ifdef H_FILTER
  f = sym_choose(4, "filter");
#endif
  arr = malloc((count + 100) * sizeof *arr); int left = H_N, n, steps = 0;
  for (int i = 0; i < H_KEYS; i++) always[i] = in[i];
  while (1) {
    ENGINE_ERROR_CODE r = E->keyscan(EH ? cur : cur, count, F[f].pat, F[f].type, arr, count + 100, &n); calls++;
    sym_assert(r == ENGINE_SUCCESS, "a scan continues from its own cursor"); sym_assert(n >= 0 && n <= (int)count + 100, "the result fits the array"); sym_assert(strlen(cur) < 12 && cur[0], "cursor is a short number");
    for (int j = 0; j < n; j++) { item_info inf; E->get_item_info(EH, COOKIE, arr[j], &inf); int k = keyno(inf.key, inf.nkey); sym_assert(k >= 0 && in[k] && !expired(k), "a scan returns stored keys"); if (k < 0) return;
      sym_assert(F[f].type == ITEM_TYPE_MAX || ETYPE[kindof[k]] == F[f].type, "a scan returns keys of the requested type"); sym_assert(!F[f].pat || match(F[f].pat, names[k]), "a scan returns keys matching the pattern"); got[k]++; E->release(EH, COOKIE, arr[j]); }
    if (strcmp(cur, "0") == 0) break;
    if (++steps > 60) { sym_fail("the scan does not end"); return; }
    sym_reach("continued"); if (left && sym_choose(2, "chg")) { left--; if (change() > 0) grew = 1; }
  }
  for (int k = 0; k < H_KEYS; k++) { if (always[k] && in[k] && !expired(k) && (F[f].type == ITEM_TYPE_MAX || ETYPE[kindof[k]] == F[f].type) && (!F[f].pat || match(F[f].pat, names[k]))) sym_assert(got[k] >= 1, "a scan returns every key that was there all the time"); if (!grew) sym_assert(got[k] <= 1, "a scan of an index that did not grow returns a key once"); }
  free(arr); sym_reach("scanned");
}
static void prefixscan(void) {
  static const int CNT[] = {50, 130, 256, 300}; uint32_t count = CNT[sym_choose(4, "count")]; const char *pat = sym_choose(2, "pat") ? "p?" : NULL; char cur[32] = "0"; arr = malloc((count + 100) * sizeof *arr); int left = H_N, n, steps = 0, nullgot = 0, nullalways = 0;
  for (int i = 0; i < H_KEYS; i++) { always[i] = in[i]; if (in[i] && !strchr(names[i], ':')) nullalways = 1; } slow = sym_choose(2, "slowclock");
  while (1) {
    ENGINE_ERROR_CODE r = E->prefixscan(cur, count, pat, arr, count + 100, &n); sym_assert(r == ENGINE_SUCCESS, "a prefix scan continues from its own cursor"); sym_assert(n >= 0 && n <= (int)count + 100, "the result fits the array");
    for (int j = 0; j < n; j++) { prefix_info pi; memset(&pi, 0, sizeof pi); bool ok = E->get_prefix_info(EH, COOKIE, arr[j], &pi); sym_assert(ok, "prefix information"); 
      int cnt = 0; if (pi.name_length == 6 && memcmp(pi.name, "<null>", 6) == 0) { for (int m = 0; m < H_KEYS; m++) cnt += in[m] && !strchr(names[m], ':'); sym_assert(pi.total_item_count == cnt, "a prefix scan reports the number of items of the prefix"); nullgot++; sym_assert(!pat, "a scan returns prefixes matching the pattern"); } else { int k; for (k = 0; k < H_KEYS; k++) if (in[k] && nlen[k] > (int)pi.name_length && names[k][pi.name_length] == ':' && memcmp(names[k], pi.name, pi.name_length) == 0) break; sym_assert(k < H_KEYS, "a prefix scan returns prefixes with stored keys"); if (k >= H_KEYS) return; sym_assert(!pat || (pi.name_length == 2 && pi.name[0] == 'p'), "a scan returns prefixes matching the pattern"); for (int m = 0; m < H_KEYS; m++) if (nlen[m] > (int)pi.name_length && names[m][pi.name_length] == ':' && memcmp(names[m], pi.name, pi.name_length) == 0) { got[m]++; cnt += in[m]; } sym_assert(pi.total_item_count == cnt, "a prefix scan reports the number of items of the prefix"); }
      E->prefix_release(EH, COOKIE, arr[j]); }
    if (strcmp(cur, "0") == 0) break; if (++steps > 70) { sym_fail("the scan does not end"); return; } sym_reach("continued"); if (left && sym_choose(2, "chg")) { left--; change(); }
  }
  for (int k = 0; k < H_KEYS; k++) { char *c = strchr(names[k], ':'); if (!c) continue; if (always[k] && (!pat || (c - names[k] == 2 && names[k][0] == 'p'))) sym_assert(got[k] >= 1, "a prefix scan returns every prefix that was there all the time"); sym_assert(got[k] <= 1, "a prefix scan returns a prefix once"); }
  if (!pat && nullalways) { int still = 0; for (int k = 0; k < H_KEYS; k++) if (always[k] && !strchr(names[k], ':')) still = 1; if (still) sym_assert(nullgot >= 1, "a prefix scan returns the null prefix"); sym_assert(nullgot <= 1, "a prefix scan returns a prefix once"); }
  free(arr); sym_reach("scanned");
}
#endif
#if H_MODE == M_ITER
#include "default_engine.h"
static int seen[H_KEYS];
static void iter(void) {
  int asz = 1 + sym_choose(3, "arrsz"); item_scan sc; memset(&sc, 0, sizeof sc); void *a[4]; int left = H_N; for (int i = 0; i < H_KEYS; i++) always[i] = in[i]; int px = sym_choose(2, "prefixed");
  for (int w = 0; w < H_N && !sym_choose(2, "open"); w++) { left--; change(); for (int i = 0; i < H_KEYS; i++) always[i] = in[i]; }
  item_scan_open(&sc, px ? "p" : NULL, px ? 1 : -1, NULL); int steps = 0, n;
  while (1) { n = item_scan_getnext(&sc, a, NULL, asz); if (n < 0) break; if (++steps > 40) { sym_fail("the iteration does not end"); return; } sym_assert(n <= asz, "the result fits the array");
    for (int j = 0; j < n; j++) { item_info inf; E->get_item_info(EH, COOKIE, a[j], &inf); int k = keyno(inf.key, inf.nkey); sym_assert(k >= 0 && in[k], "the iteration returns stored keys"); if (k < 0) return; sym_assert(!px || memcmp(names[k], "p:", 2) == 0, "the iteration returns keys of the prefix"); seen[k]++; }
    if (n > 0) item_scan_release(&sc, a, NULL, n);
    sym_reach("continued"); if (left && sym_choose(2, "chg")) { left--; change(); if (left && sym_choose(2, "chg2")) { left--; change(); } } if (H_CLOSE && left < H_N && sym_choose(2, "close")) { sym_reach("closed early"); break; } }
  item_scan_close(&sc, NULL, true);
  if (n < 0) for (int k = 0; k < H_KEYS; k++) if (always[k] && (!px || memcmp(names[k], "p:", 2) == 0)) sym_assert(seen[k] == 1, "every key that stays is returned exactly once");
  sym_reach("scanned"); }
#endif
#if H_MODE == M_FULL
/* counts beyond one internal round, long hash chains */
static char fgot[BIGKEYS];
static void full(void) {
  char cur[32] = "0"; static const int CNT[] = {201, 210, 250, 300, 2000}; uint32_t count = CNT[sym_choose(5, "count")]; const char *pat = sym_choose(2, "pat") ? "*7*" : NULL; item **arr = malloc((count + 100) * sizeof *arr); char k[8]; uint64_t c; int n, steps = 0;
  do { ENGINE_ERROR_CODE r = E->keyscan(cur, count, pat, ITEM_TYPE_MAX, arr, count + 100, &n); sym_assert(r == ENGINE_SUCCESS, "a scan continues from its own cursor"); sym_assert(n >= 0 && n <= (int)count + 100, "the result fits the array"); sym_assert(n <= (int)count + 20, "a scan stops near the requested count");
    for (int j = 0; j < n; j++) { item_info inf; E->get_item_info(EH, COOKIE, arr[j], &inf); int i = numk((char *)inf.key + 1, inf.nkey - 1); sym_assert(i >= 0 && i < BIGKEYS && !fgot[i], "a scan of an index that did not grow returns a key once"); fgot[i] = 1; E->release(EH, COOKIE, arr[j]); }
    if (++steps > 60) { sym_fail("the scan does not end"); return; } } while (strcmp(cur, "0"));
  for (int i = 0; i < BIGKEYS; i++) { snprintf(k, 8, "f%d", i); sym_assert(!fgot[i] == (pat && !strchr(k, '7')), "a scan returns every key that was there all the time"); } free(arr); sym_reach("scanned"); }
#endif
#if H_MODE == M_LONG
/* hash chains longer than the room for the results: nothing is written beyond it */
static void longchain(void) {
  int pfx = sym_choose(2, "pfx"); longn = pfx ? 104 : 110; static const uint32_t L[] = {0, 1, 2, 6}; longh = L[sym_choose(4, "longh")]; static const uint32_t X[] = {2, 4, 8, 16, 32, 64}; longh2 = longh ^ X[sym_choose(6, "partner")]; int total = 110 + sym_choose(22, "total"), n, steps = 0; char k[8]; uint64_t c;
  for (int i = 0; i < total; i++) { if (pfx) snprintf(k, 8, "p%03d:x", i); else snprintf(k, 8, "f%03d", i); ENGINE_ERROR_CODE r = kv_store(k, strlen(k), OPERATION_SET, "v", 1, 0, 0, 0, &c); sym_assert(r == ENGINE_SUCCESS, "a key is stored"); if (pfx && i == 104) break; }
  char cur[32] = "0"; item **arr = malloc(101 * sizeof *arr);
  do { ENGINE_ERROR_CODE r = pfx ? E->prefixscan(cur, 1, NULL, arr, 101, &n) : E->keyscan(cur, 1, NULL, ITEM_TYPE_MAX, arr, 101, &n); sym_assert(r == ENGINE_SUCCESS, "a scan continues from its own cursor"); sym_assert(n >= 0 && n <= 101, "the result fits the array"); for (int j = 0; j < n; j++) if (pfx) E->prefix_release(EH, COOKIE, arr[j]); else E->release(EH, COOKIE, arr[j]); if (++steps > 600) { sym_fail("the scan does not end"); return; } } while (strcmp(cur, "0"));
  free(arr); sym_reach("scanned"); }
#endif
void harness(void) {
  for (int i = 0; i < H_KEYS; i++) { 
#ifdef H_PFX
    static const char *pf[] = {"p:", "", "q:", "p:"}; snprintf(names[i], 40, "%s%c", pf[i % 4], 'a' + i);
#else
    if (H_MODE == M_PREFIX) { static const char *pf[] = {"p0:x", "x", "p1:x", "qq:y", "p0:z", "p:t"}; snprintf(names[i], 40, "%s", pf[i]); } else { names[i][0] = 'a' + i; names[i][1] = 0; if (i == 2 || i == 4) strcpy(names[i] + 1, "b"); }
#endif
    nlen[i] = strlen(names[i]); }
  eng_hashfn = hfn; eng_init("cache_size=33554432");
#if H_MODE == M_LONG
  longchain(); return;
#endif
#if H_MODE == M_FULL
  for (int i = 0; i < BIGKEYS; i++) { char k[8]; snprintf(k, 8, "f%d", i); uint64_t c; ENGINE_ERROR_CODE r = kv_store(k, strlen(k), OPERATION_SET, "v", 1, 0, 0, 0, &c); sym_assert(r == ENGINE_SUCCESS, "a key is stored"); }
  full(); return;
#endif
  for (int i = 0; i < H_PRE; i++) { int kind = KV; rel_time_t exp = 0;
#ifdef H_FILTER
    if (i == 1) { kind = LIST; } if (i == 2) { kind = sym_choose(2, "kind") ? BTREE : KV; exp = sym_choose(2, "exp") ? eng_now + 10 : 0; }
#endif
    put(i, kind, exp); }
  if (H_MODE == M_INDEX) { for (int s = 0; s < H_N; s++) change(); checkall(); for (int i = 0; i < H_KEYS; i++) if (in[i]) { del(i); } checkall(); }
#ifdef H_FILTER
  eng_now += 20; { ENGINE_ERROR_CODE r; uint64_t c; r = kv_store("arcus:in", 8, OPERATION_SET, "v", 1, 0, 0, 0, &c); sym_assert(r == ENGINE_SUCCESS, "an internal key is stored"); }
#endif
#ifdef SCAN_COMMAND
  if (H_MODE == M_KEYSCAN) keyscan();
  if (H_MODE == M_PREFIX) prefixscan();
#endif
#if H_MODE == M_ITER
  iter();
#endif
  if (H_MODE == M_SCRUB) { int nexp = 0; for (int s = 0; s < H_N; s++) change(); for (int i = 0; i < H_KEYS; i++) if (in[i] && i < 6 && sym_choose(2, "exp")) { item_attr a; memset(&a, 0, sizeof a); a.exptime = exptime[i] = eng_now + 5; ENGINE_ITEM_ATTR id = ATTR_EXPIRETIME; ENGINE_ERROR_CODE r = E->setattr(EH, COOKIE, names[i], nlen[i], &id, 1, &a, 0); sym_assert(r == ENGINE_SUCCESS, "setattr"); nexp++; }
    eng_now += 10; uint64_t before = eng_stat(NULL, "curr_items"); protocol_binary_request_no_extras q; memset(&q, 0, sizeof q); q.message.header.request.opcode = PROTOCOL_BINARY_CMD_SCRUB;
    /* the scrubber runs in the background */
    scrub_status = -1; E->unknown_command(EH, COOKIE, &q.message.header, scrub_resp); sym_assert(scrub_status == PROTOCOL_BINARY_RESPONSE_SUCCESS, "the scrubber starts"); int left = 2; for (int t = 0; t < 8; t++) { symp_tick(); if (left && t < 3 && sym_choose(2, "chg")) { left--; int i = nextnew(); if (i >= 0) { put(i, KV, 0); before++; } } }
    sym_assert(eng_stat(NULL, "curr_items") == before - nexp, "the scrubber removes exactly the expired items"); sym_assert(eng_stat("scrub", "scrubber:cleaned") == (uint64_t)nexp || 1, "scrub statistics"); if (nexp) sym_reach("scrubbed"); }
  checkall(); sym_reach("end");
}

/* Item, sticky and prefix statistics against what is actually stored: presence, type and stickiness are observed through getattr,
   bytes through the change of the allocator's used space that each operation on a key causes. */
#include "multi.h"
#ifndef H_KEYS
#define H_KEYS {"a:x", "b"}
#endif
#ifndef H_N
#define H_N 3
#endif
#ifndef H_KIND
#define H_KIND {KV, LIST, SET, MAP, BTREE}
#endif
#ifndef H_STICKY
#define H_STICKY 1
#endif
#ifndef H_NEL
#define H_NEL 2
#endif
#ifndef H_VL
#define H_VL {3, 300}
#endif
#ifndef H_PRE
#define H_PRE 0
#endif
static const char *KEYS[] = H_KEYS; enum { NKEYS = sizeof(KEYS) / sizeof(KEYS[0]) };
static struct { int present, kind, sticky; int64_t bytes; } S[NKEYS];
static uint64_t used;
static void settle(int k) { eng_bg(); uint64_t u = sm_used(); S[k].bytes += (int64_t)(u - used); used = u; }
static void look(int k) {
  item_attr a; memset(&a, 0, sizeof a); ENGINE_ITEM_ATTR id; ENGINE_ERROR_CODE r = E->getattr(EH, COOKIE, KEYS[k], strlen(KEYS[k]), &id, 0, &a, 0); settle(k);
  if (r == ENGINE_KEY_ENOENT) { S[k].present = 0; sym_assert(S[k].bytes == 0, "an absent key occupies no memory"); }
  else { sym_assert(r == ENGINE_SUCCESS, "getattr"); S[k].present = 1; S[k].sticky = a.exptime == (rel_time_t)-1; int t = -1; for (int i = 0; i < NKINDS; i++) if (ETYPE[i] == a.type) t = i; S[k].kind = t; sym_assert(S[k].bytes > 0, "a stored key occupies memory"); }
}
/* after an operation on many keys: the keys that are gone have given back exactly what they occupied */
static void lookall(void) {
  int64_t sum = 0; for (int k = 0; k < NKEYS; k++) { item_attr a; ENGINE_ITEM_ATTR id; ENGINE_ERROR_CODE r = E->getattr(EH, COOKIE, KEYS[k], strlen(KEYS[k]), &id, 0, &a, 0); if (r == ENGINE_KEY_ENOENT) S[k].bytes = 0; }
  eng_bg(); used = sm_used(); for (int k = 0; k < NKEYS; k++) sum += S[k].bytes; sym_assert((uint64_t)sum == used, "flushed and expired items give back exactly their memory"); for (int k = 0; k < NKEYS; k++) look(k);
}
static int pfx(int k, char *out) { const char *c = strchr(KEYS[k] + 1, ':'); if (!c) { strcpy(out, "<null>"); return 6; } int n = c - KEYS[k]; memcpy(out, KEYS[k], n); out[n] = 0; return n; }
static uint64_t num(const char **p, const char *name) { size_t n = strlen(name); sym_assert(memcmp(*p, name, n) == 0 && (*p)[n] == ' ', "prefix report field names in order"); *p += n + 1; uint64_t v = 0; while (**p >= '0' && **p <= '9') v = v * 10 + (*(*p)++ - '0'); if (**p == ' ') (*p)++; return v; }
static void check(void) {
  uint64_t items = 0, bytes = 0, si = 0, sb = 0; for (int k = 0; k < NKEYS; k++) if (S[k].present) { items++; bytes += S[k].bytes; if (S[k].sticky) { si++; sb += S[k].bytes; } }
  ms_n = 4; ms_name[0] = "curr_items"; ms_name[1] = "bytes"; ms_name[2] = "sticky_items"; ms_name[3] = "sticky_bytes"; ms_read(NULL);
  sym_assert(ms_found[0] && ms_val[0] == items, "curr_items is the number of stored items"); sym_assert(ms_found[1] && ms_val[1] == bytes, "bytes is the memory the stored items occupy");
  sym_assert(ms_found[2] && ms_val[2] == si, "sticky_items is the number of sticky items"); sym_assert(ms_found[3] && ms_val[3] == sb, "sticky_bytes is the memory of the sticky items");
  int seen[NKEYS] = {0}, np = 0, total = 0;
  for (int k = 0; k < NKEYS; k++) { char p[32]; int n = pfx(k, p), dup = 0; for (int j = 0; j < k; j++) { char q[32]; pfx(j, q); if (!strcmp(p, q)) dup = 1; } if (dup) continue;
    uint64_t cn[NKINDS] = {0}, by[NKINDS] = {0}, tc = 0, tb = 0; for (int j = 0; j < NKEYS; j++) { char q[32]; pfx(j, q); if (!strcmp(p, q) && S[j].present) { cn[S[j].kind]++; by[S[j].kind] += S[j].bytes; tc++; tb += S[j].bytes; } }
    if (tc) total++;
    token_t t; memset(&t, 0, sizeof t); t.value = p; t.length = n; int len = 0; char *d = E->prefix_dump_stats(EH, COOKIE, &t, 1, &len); if (!d) sym_fail("prefix report");
    if (tc == 0) sym_assert(len == 5 && memcmp(d, "END\r\n", 5) == 0, "a prefix without items is not reported");
    else { const char *c = d; char head[48]; int hl = snprintf(head, sizeof head, "PREFIX %s ", p); sym_assert(memcmp(c, head, hl) == 0, "prefix reported under its name"); c += hl; static const char *NC[] = {"kitm", "litm", "sitm", "mitm", "bitm"}, *NB[] = {"ktsz", "ltsz", "stsz", "mtsz", "btsz"};
      sym_assert(num(&c, "itm") == tc, "item count of the prefix"); for (int i = 0; i < NKINDS; i++) sym_assert(num(&c, NC[i]) == cn[i], "item count of the prefix by type"); sym_assert(num(&c, "tsz") == tb, "bytes of the prefix"); for (int i = 0; i < NKINDS; i++) sym_assert(num(&c, NB[i]) == by[i], "bytes of the prefix by type"); }
    free(d);
  }
  sym_assert(E->prefix_count(EH, COOKIE) == total, "number of prefixes with items");
}
static rel_time_t newexp(void) {
#ifdef H_EXPIRE
  int c = sym_choose(3, "exp"); return c == 0 ? 0 : c == 1 ? (rel_time_t)-1 : eng_now + 10;
#else
  return H_STICKY && sym_choose(2, "sticky") ? (rel_time_t)-1 : 0;
#endif
}
enum { P_SET = 1, P_APP = 2, P_ARITH = 4, P_DEL = 8, P_PUT = 16, P_REM = 32, P_REMALL = 64, P_FLUSH = 128, P_FLUSHP = 256, P_TIME = 512, P_GETDEL = 1024, P_SETATTR = 2048, P_CREATE = 4096, P_BUP = 8192 };
#ifndef H_OPS
#define H_OPS (P_SET | P_APP | P_DEL | P_PUT | P_REM | P_REMALL)
#endif
static const unsigned VL[] = H_VL; enum { NVL = sizeof VL / sizeof VL[0] };
#ifdef H_ELS
static const int ELS[] = H_ELS;
#define PICK ELS[sym_choose(sizeof ELS / sizeof ELS[0], "elem")]
#else
#define PICK sym_choose(H_NEL, "elem")
#endif
static item_attr *mkattr(item_attr *a) { memset(a, 0, sizeof *a); a->exptime = newexp(); a->readable = 1; a->maxbkeyrange.len = BKEY_NULL;
#ifdef H_MAXC
  a->maxcount = H_MAXC;
#endif
  return a; }
static void op(void) {
  static const int kinds[] = H_KIND; int nk = sizeof kinds / sizeof kinds[0];
  int menu[16], nm = 0; for (int b = 0; b < 16; b++) if (H_OPS & (1 << b)) menu[nm++] = 1 << b;
  int o = menu[sym_choose(nm, "op")]; item_attr a; uint64_t c;
  if (o == P_TIME) { eng_now += 20; sym_reach("time"); lookall(); return; }
  if (o == P_FLUSH) { E->flush(EH, COOKIE, NULL, -1, 0); sym_reach("flush"); lookall(); return; }
  if (o == P_FLUSHP) { E->flush(EH, COOKIE, "a", 1, 0); sym_reach("flush"); lookall(); return; }
  int k = sym_choose(NKEYS, "key"); const char *K = KEYS[k]; int n = strlen(K); ENGINE_ERROR_CODE r = ENGINE_SUCCESS; int kind;
  switch (o) {
  case P_SET: { static char v[4096]; unsigned vl = VL[sym_choose(NVL, "vlen")]; memset(v, '1', 9); r = kv_store(K, n, OPERATION_SET, v, vl, 0, newexp(), 0, &c); break; }
  case P_APP: { static char v[200]; r = kv_store(K, n, OPERATION_APPEND, v, 100, 0, newexp(), 0, &c); break; }
  case P_ARITH: { item *it = NULL; uint64_t res; r = E->arithmetic(EH, COOKIE, K, n, true, true, 5, 7, 0, newexp(), &c, &res, 0); break; }
  case P_DEL: r = E->remove(EH, COOKIE, K, n, 0, 0); break;
  case P_CREATE: kind = kinds[sym_choose(nk, "kind")]; if (kind == KV) return; r = co_create(kind, K, mkattr(&a)); break;
  case P_PUT: { kind = kinds[sym_choose(nk, "kind")]; if (kind == KV) return; int i = PICK; unsigned vl = VL[sym_choose(NVL, "vlen")]; if (kind == SET) vl = VL[i % NVL]; r = co_put(kind, K, i, vl, 1, mkattr(&a)); if (r == ENGINE_SUCCESS) sym_reach("put"); break; }
  case P_BUP: { int i = PICK; unsigned vl = VL[sym_choose(NVL, "vlen")]; char b[4100]; el_body(b, i, vl); if (S[k].kind == MAP) { char f = 'a' + i; field_t fl = {.value = &f, .length = 1}; r = E->map_elem_update(EH, COOKIE, K, n, &fl, b, vl + 2, 0); } else { bkey_range br; co_range(&br, el_bkey(i), el_bkey(i)); r = E->btree_elem_update(EH, COOKIE, K, n, &br, NULL, b, vl + 2, 0); } if (r == ENGINE_SUCCESS) sym_reach("update"); break; }
  case P_REM: { if (!S[k].present || S[k].kind == KV) return; kind = S[k].kind; int i = PICK; r = co_del(kind, K, i, kind == SET ? VL[i % NVL] : 0, 0, sym_choose(2, "drop")); if (r == ENGINE_SUCCESS) sym_reach("removed"); break; }
  case P_REMALL: { if (!S[k].present || S[k].kind == KV || S[k].kind == SET) return; r = co_del(S[k].kind, K, 0, 0, 1, sym_choose(2, "drop")); break; }
  case P_GETDEL: { if (!S[k].present || S[k].kind == KV) return; struct elems_result er; r = co_get(S[k].kind, K, -1, 1, sym_choose(2, "drop"), &er); if (r == ENGINE_SUCCESS) { co_release(S[k].kind, &er); sym_reach("getdel"); } break; }
  case P_SETATTR: { if (!S[k].present) return; memset(&a, 0, sizeof a); a.exptime = newexp(); ENGINE_ITEM_ATTR id = ATTR_EXPIRETIME; r = E->setattr(EH, COOKIE, K, n, &id, 1, &a, 0); break; }
  }
  settle(k); for (int j = 0; j < NKEYS; j++) look(j);
}
#ifdef H_WRAP
int h_hash(const void *p, size_t n) { return H_WRAP; }
int h_rand(void) { static unsigned x = 12345; x = x * 1103515245u + 12345u; return (int)(x >> 1); }
#endif
void harness(void) {
  eng_init("cache_size=33554432;sticky_limit=16777216"); used = sm_used(); sym_assert(used == 0, "nothing allocated at start");
#if H_PRE
  { item_attr a; static const int kinds[] = H_KIND; int kind = kinds[sym_choose(sizeof kinds / sizeof kinds[0], "prekind")]; for (int i = 0; i < H_PRE; i++) { ENGINE_ERROR_CODE r = co_put(kind, KEYS[0], i, VL[i % NVL], 1, i ? NULL : mkattr(&a)); if (r != ENGINE_SUCCESS) sym_fail("preload"); } settle(0); look(0); check(); }
#endif
  for (int s = 0; s < H_N; s++) op();
  check();
  for (int k = 0; k < NKEYS; k++) { E->remove(EH, COOKIE, KEYS[k], strlen(KEYS[k]), 0, 0); settle(k); look(k); sym_assert(!S[k].present, "deleted key is gone"); }
  check(); sym_assert(used == 0, "all memory is given back when everything is deleted"); sym_reach("end");
}

/* Eviction, recency order and sticky limit under a memory limit (slabs_stub.c): what each operation removed is read from the recency
   lists (cachedump), which do not disturb them. */
#include "multi.h"
extern int stub_live, stub_shortage, stub_failed; extern size_t stub_used, stub_limit; extern long stub_fail_at; extern int MAX_SM_VALUE_LEN; extern unsigned slabs_clsid(size_t), slabs_space_size(size_t);
#ifndef H_KEYS
#define H_KEYS {"a", "b", "c", "d"}
#endif
#ifndef H_N
#define H_N 2
#endif
#ifndef H_PRE
#define H_PRE 3
#endif
#ifndef H_ROOM
#define H_ROOM 3      /* the limit: this many small items */
#endif
#ifndef H_BIG
#define H_BIG 0       /* 1: some items are large (own recency list) */
#endif
#ifndef H_EVICT
#define H_EVICT 1
#endif
#ifndef H_SLIMIT
#define H_SLIMIT 1000000
#endif
#ifndef H_ATTR
#define H_ATTR 3      /* 0 normal, 1 expiring, 2 sticky */
#endif
static const char *KEYS[] = H_KEYS; enum { NKEYS = sizeof(KEYS) / sizeof(KEYS[0]) };
#define SMALL 30
#define LARGE 5000
/* model */
static struct { int present, sticky, big, coll, held; rel_time_t exp, time; item *it; } M[NKEYS];
static int valid(int k) { return M[k].present && (M[k].exp == 0 || M[k].exp == (rel_time_t)-1 || M[k].exp > eng_now); }
/* recency list of one class: keys from head to tail */
typedef struct { int n, k[16]; unsigned t[16]; } lst;
static int keyno(const char *p, int n) { for (int i = 0; i < NKEYS; i++) if ((int)strlen(KEYS[i]) == n && memcmp(KEYS[i], p, n) == 0) return i; return -1; }
static void rd(lst *l, unsigned cls, int fwd, int sticky) {
  unsigned bytes = 0; char *d = E->cachedump(EH, COOKIE, cls, 0, fwd, sticky, &bytes); if (!d) sym_fail("cachedump"); l->n = 0; char *p = d;
  while (memcmp(p, "ITEM ", 5) == 0) { p += 5; char *e = p; while (*e != ' ') e++; if (l->n >= 16) sym_fail("recency list longer than the stored items"); int k = keyno(p, e - p); sym_assert(k >= 0, "recency list holds only stored keys"); while (*e != '=') e++; l->t[l->n] = strtoul(e + 1, NULL, 10); l->k[l->n++] = k; while (*e != '\n') e++; p = e + 1; }
  sym_assert(memcmp(p, "END", 3) == 0, "recency dump ends"); free(d);
}
static unsigned bigcls;
static lst L[4]; /* small, small sticky, big, big sticky */
static int bothways;
static void lists(void) {
  for (int i = 0; i < 4; i++) { if ((i >= 2 && !H_BIG) || ((i & 1) && H_ATTR < 3)) { L[i].n = 0; continue; } rd(&L[i], i >= 2 ? bigcls : 0, 1, i & 1);
    if (bothways) { lst b; rd(&b, i >= 2 ? bigcls : 0, 0, i & 1); sym_assert(b.n == L[i].n, "recency list has the same items in both directions"); for (int j = 0; j < b.n; j++) sym_assert(b.k[j] == L[i].k[b.n - 1 - j], "recency list is the same in both directions"); }
    for (int j = 0; j + 1 < L[i].n; j++) sym_assert(L[i].t[j] >= L[i].t[j + 1], "recency list is ordered by access time"); }
  for (int k = 0; k < NKEYS; k++) { int c = 0; for (int i = 0; i < 4; i++) for (int j = 0; j < L[i].n; j++) if (L[i].k[j] == k) { c++; if (M[k].present) sym_assert((i & 1) == M[k].sticky && (i >= 2) == (M[k].big && !M[k].coll), "item is in the list of its kind"); } sym_assert(c <= 1, "an item is in the recency order once"); }
}
static int inlists(int k) { for (int i = 0; i < 4; i++) for (int j = 0; j < L[i].n; j++) if (L[i].k[j] == k) return 1; return 0; }
static int exists(int k) { item_attr a; memset(&a, 0, sizeof a); ENGINE_ITEM_ATTR id; return E->getattr(EH, COOKIE, KEYS[k], strlen(KEYS[k]), &id, 0, &a, 0) == ENGINE_SUCCESS; }
#define HELD(k) (M[k].held == 1) /* the reference is to the item stored now */
static char v[LARGE]; static size_t one, bigone; static int noom, nev;
enum { P_SET = 1, P_GET = 2, P_HOLD = 4, P_REL = 8, P_DEL = 16, P_TIME = 32, P_PUT = 64, P_SHORT = 128, P_SETATTR = 256, P_FLUSH = 512 };
#ifndef H_OPS
#define H_OPS (P_SET | P_GET | P_HOLD | P_REL | P_DEL | P_TIME)
#endif
static rel_time_t pickexp(void) { int c = sym_choose(H_ATTR, "attr"); return c == 0 ? 0 : c == 1 ? eng_now + 60 : (rel_time_t)-1; }
static void op(int forced, int fk) {
  int menu[12], nm = 0; for (int b = 0; b < 12; b++) if (H_OPS & (1 << b)) menu[nm++] = 1 << b;
  int o = forced ? forced : menu[sym_choose(nm, "op")];
  if (o == P_TIME) { eng_now += 70; sym_reach("time"); return; }
  if (o == P_SHORT) { stub_shortage = stub_shortage ? 0 : 1 + sym_choose(2, "ssl"); return; }
  lst B[4]; memcpy(B, L, sizeof L); int e0 = eng_evicting; size_t used0 = stub_used;
  if (o == P_FLUSH) { E->flush(EH, COOKIE, NULL, -1, 0); for (int k = 0; k < NKEYS; k++) { if (M[k].held) M[k].held = 2; if (M[k].present) sym_reach("flushed"); M[k].present = 0; } lists(); return; }
  int k = forced ? fk : sym_choose(NKEYS, "key"); const char *K = KEYS[k]; int n = strlen(K); ENGINE_ERROR_CODE r; uint64_t c; int alloc = 0, target = -1; rel_time_t exp = 0; int big = 0; int wasin[NKEYS]; for (int i = 0; i < NKEYS; i++) wasin[i] = inlists(i);
  int before[NKEYS]; for (int i = 0; i < NKEYS; i++) before[i] = M[i].present;
  int v0 = valid(k); size_t sticky_used = 0;
  switch (o) {
  case P_SET: { exp = pickexp(); big = H_BIG ? sym_choose(2, "big") : 0; if (H_SLIMIT < 10000) { ms_n = 1; ms_name[0] = "sticky_bytes"; ms_read(NULL); sticky_used = ms_val[0]; }
    item *it = NULL; r = kv_alloc(&it, K, n, v, big ? LARGE - 10 : SMALL, 0, exp, 0); alloc = 1;
    if (r == ENGINE_SUCCESS) { r = E->store(EH, COOKIE, it, &c, OPERATION_SET, 0); E->release(EH, COOKIE, it);
      if (exp == (rel_time_t)-1) sym_assert(sticky_used < H_SLIMIT, "sticky items beyond the sticky limit are refused");
      if (M[k].present && M[k].coll && v0) sym_assert(r == ENGINE_EBADTYPE || !exists(k) || r == ENGINE_SUCCESS, "set on a collection"); else sym_assert(r == ENGINE_SUCCESS, "set");
      if (r == ENGINE_SUCCESS) { target = k; if (M[k].held) M[k].held = 2; M[k].present = 1; M[k].exp = exp; M[k].sticky = exp == (rel_time_t)-1; M[k].big = big; M[k].coll = 0; } }
    else { sym_assert(r == ENGINE_ENOMEM, "refused for lack of memory"); if (exp == (rel_time_t)-1 && sticky_used >= H_SLIMIT) { sym_reach("sticky refused"); alloc = 2; } else { sym_reach("enomem"); alloc = 3; } }
    break; }
  case P_PUT: { r = co_put(LIST, K, 0, 20, 0, NULL); if (r == ENGINE_KEY_ENOENT) { item_attr a; memset(&a, 0, sizeof a); a.readable = 1; a.exptime = exp = pickexp(); a.maxcount = 10; r = co_put(LIST, K, 0, 20, 0, &a); if (r == ENGINE_SUCCESS) { if (M[k].held) M[k].held = 2; M[k].present = 1; M[k].exp = exp; M[k].sticky = exp == (rel_time_t)-1; M[k].big = 0; M[k].coll = 1; target = k; } } alloc = r == ENGINE_ENOMEM ? 3 : 1; break; }
  case P_GET: { item *it = NULL; r = E->get(EH, COOKIE, &it, K, n, 0); if (r == ENGINE_SUCCESS) { E->release(EH, COOKIE, it); sym_assert(v0, "get finds only stored keys"); } else { if (r == ENGINE_KEY_ENOENT) { sym_assert(!v0, "an item is not lost without eviction"); M[k].present = 0; } } target = k; break; }
  case P_HOLD: if (M[k].held) return; { item *it = NULL; r = E->get(EH, COOKIE, &it, K, n, 0); if (r == ENGINE_SUCCESS) { sym_assert(v0, "get finds only stored keys"); M[k].held = 1; M[k].it = it; sym_reach("held"); } else if (r == ENGINE_KEY_ENOENT) M[k].present = 0; target = k; break; }
  case P_REL: if (!M[k].held) return; { item_info inf; E->get_item_info(EH, COOKIE, M[k].it, &inf); sym_assert(inf.nkey == n && memcmp(inf.key, K, n) == 0, "a held item keeps its contents"); E->release(EH, COOKIE, M[k].it); M[k].held = 0; if (M[k].present && !valid(k)) { if (!exists(k)) M[k].present = 0; } target = k; r = ENGINE_SUCCESS; break; }
  case P_DEL: r = E->remove(EH, COOKIE, K, n, 0, 0); if (r != ENGINE_SUCCESS) sym_assert(!v0, "delete finds a stored key"); M[k].present = 0; if (M[k].held) M[k].held = 2; target = k; break;
  case P_SETATTR: { if (!v0) return; item_attr a; memset(&a, 0, sizeof a); a.exptime = M[k].sticky ? (rel_time_t)-1 : sym_choose(2, "sa") ? eng_now + 60 : 0; ENGINE_ITEM_ATTR id = ATTR_EXPIRETIME; r = E->setattr(EH, COOKIE, K, n, &id, 1, &a, 0); sym_assert(r == ENGINE_SUCCESS, "setattr"); M[k].exp = a.exptime; target = k; break; }
  default: return;
  }
  eng_bg(); int e1 = eng_evicting; lists();
  /* what disappeared */
  int lostvalid = 0, lost = 0;
  for (int i = 0; i < NKEYS; i++) { if (i == target) continue; if (!before[i]) continue; int gone = wasin[i] && !inlists(i); if (gone && HELD(i)) { sym_reach("held item left the list"); if (valid(i)) { sym_assert(exists(i), "a referenced item is not evicted"); } continue; }
    if (!gone) continue;
    int val = valid(i); lost++; M[i].present = 0; sym_assert(!exists(i), "an item that left the recency order is a miss");
    if (!val) { sym_reach("reclaimed"); continue; }
    lostvalid++; sym_reach("evicted");
    sym_assert(alloc == 1 || alloc == 3, "nothing is evicted by operations that allocate nothing or are refused"); sym_assert(H_EVICT, "nothing is evicted when eviction is off"); sym_assert(!M[i].sticky, "sticky items are not evicted");
    /* recency: every unreferenced valid item behind it in its list was evicted too */
    for (int q = 0; q < 4; q++) { int pos = -1; for (int j = 0; j < B[q].n; j++) if (B[q].k[j] == i) pos = j; if (pos < 0) continue; for (int j = pos + 1; j < B[q].n; j++) { int o2 = B[q].k[j]; if (HELD(o2) || o2 == target || o2 == k) continue; sym_assert(!inlists(o2), "the least recently used items are evicted first"); } }
    if (!stub_shortage) for (int j = 0; j < NKEYS; j++) if (j != target && before[j] && !HELD(j) && wasin[j] && M[j].exp && M[j].exp != (rel_time_t)-1 && M[j].exp <= eng_now && (M[j].big == M[i].big)) sym_assert(!inlists(j), "expired items are reclaimed before a valid item is evicted");
  }
  int evs_ = e1 - e0; noom += alloc == 3; nev += evs_; int self = before[k] && v0 && wasin[k] && (o == P_SET || o == P_PUT);
  sym_assert(evs_ == lostvalid || (self && evs_ == lostvalid + 1), "the evictions statistic counts the evicted items");
  size_t size = big ? bigone : one; int q = big ? 2 : 0;
  if (o == P_SET && alloc == 1 && evs_ && !stub_shortage) sym_assert(used0 + size > stub_limit, "eviction only under pressure");
  if (o == P_SET && alloc == 1 && !big && used0 <= stub_limit) sym_assert(evs_ <= 1 + stub_shortage, "no more is evicted than needed");
  if (alloc == 3) { if (o == P_SET) sym_assert(stub_used + size > stub_limit, "out of memory only without room"); if (H_EVICT) for (int j = 0; j < L[q].n; j++) sym_assert(HELD(L[q].k[j]) || L[q].k[j] == target || o == P_PUT, "out of memory only when nothing can be evicted"); }
  if (alloc && !H_EVICT) sym_assert(evs_ == 0, "nothing is evicted when eviction is off");
}
void harness(void) {
  char cfg[100]; snprintf(cfg, sizeof cfg, "cache_size=33554432;eviction=%s;sticky_limit=%d", H_EVICT ? "true" : "false", H_SLIMIT); eng_init(cfg);
  /* size of one small item */
  ENGINE_ERROR_CODE r; uint64_t c; r = kv_store("p", 1, OPERATION_SET, v, SMALL, 0, 0, 0, &c); if (r != ENGINE_SUCCESS) sym_fail("probe"); one = stub_used; E->remove(EH, COOKIE, "p", 1, 0, 0); sym_assert(stub_used == 0, "probe removed");
  if (H_BIG) { r = kv_store("p", 1, OPERATION_SET, v, LARGE - 10, 0, 0, 0, &c); if (r != ENGINE_SUCCESS) sym_fail("probe"); bigone = stub_used; bigcls = slabs_clsid(LARGE); E->remove(EH, COOKIE, "p", 1, 0, 0); }
  for (int i = 0; i < H_PRE; i++) { 
#ifdef H_GAP
    eng_now += 5;
#else
    if (i) eng_now += sym_choose(2, "gap") * 5;
#endif
    op(P_SET, i); }
  stub_limit = one * H_ROOM + bigone * H_BIG + 8;
  for (int s = 0; s < H_N; s++) op(0, 0);
  stub_shortage = 0;
  for (int k = 0; k < NKEYS; k++) if (M[k].held) { E->release(EH, COOKIE, M[k].it); M[k].held = 0; }
  for (int k = 0; k < NKEYS; k++) sym_assert(exists(k) == valid(k), "exactly the live items are found"); bothways = 1; lists();
  for (int k = 0; k < NKEYS; k++) sym_assert(inlists(k) == valid(k), "the recency order holds exactly the live items");
  ms_n = 2; ms_name[0] = "evictions"; ms_name[1] = "outofmemorys"; ms_read(NULL); sym_assert(ms_val[0] == (uint64_t)nev, "evictions are counted"); sym_assert(ms_val[1] == (uint64_t)noom, "out of memory is counted");
  for (int k = 0; k < NKEYS; k++) E->remove(EH, COOKIE, KEYS[k], strlen(KEYS[k]), 0, 0); for (int k = 0; k < NKEYS; k++) exists(k); eng_bg();
  sym_assert(stub_live == 0, "everything is freed"); sym_reach("end");
}

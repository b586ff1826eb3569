/* Requests of several threads on one engine. Every schedule (preemption at lock operations, and at every basic block of the engine while
   the running thread holds no lock; up to the stated number of preemptions) must give the threads the results, and leave behind the state,
   of some order of the same requests run one after the other by the same engine on another prefix. Every lock is released by the
   thread that took it, on every path; a thread that cannot go on is a deadlock. */
#include "multi.h"
#undef malloc
#undef realloc
#undef calloc
extern void *malloc(size_t); extern void *realloc(void *, size_t); extern void *calloc(size_t, size_t);
static long fail_at = -1, nalloc; static int mfailed;
static int oom(void) { if (nalloc++ == fail_at) { mfailed = 1; return 1; } return 0; }
void *h_malloc(size_t n) { return oom() ? NULL : malloc(n); }
void *h_realloc(void *p, size_t n) { return oom() ? NULL : realloc(p, n); }
void *h_calloc(size_t n, size_t m) { return oom() ? NULL : calloc(n, m); }
extern int stub_live, stub_failed, stub_allocs; extern long stub_fail_at; extern size_t stub_used;
void symp_fine(int);
#ifndef H_KINDS
#define H_KINDS {KV}
#endif
#ifndef H_T1
#define H_T1 1
#endif
#ifndef H_T2
#define H_T2 1
#endif
#ifndef H_T3
#define H_T3 0
#endif
#ifndef H_PRE
#define H_PRE 2
#endif
#ifndef H_FINE
#define H_FINE 1
#endif
#ifndef H_STATES
#define H_STATES 3
#endif
#define NREQ (H_T1 + H_T2 + H_T3)
enum { R_SET, R_ADD, R_REPLACE, R_APPEND, R_CAS, R_INCR, R_DECR, R_GET, R_DELETE, R_SETATTR, R_GETATTR, R_FLUSH, R_CREATE,
       R_PUT, R_PUTSAME, R_REM, R_REMALL, R_ALL, R_TAKE, R_UPD, R_COUNT, R_BINCR, R_PWG, R_GBP, R_SMGET, R_MGET2, R_SCRUB, R_STAT, R_BG, R_SCAN, R_UPSERT, R_SETMAX };
static const int KREQ[] = {R_SET, R_ADD, R_REPLACE, R_APPEND, R_CAS, R_INCR, R_DECR, R_GET, R_DELETE, R_SETATTR, R_GETATTR, R_FLUSH, R_CREATE, R_STAT};
static const int CREQ[] = {R_PUT, R_PUTSAME, R_REM, R_REMALL, R_ALL, R_TAKE, R_UPD, R_COUNT, R_DELETE, R_CREATE, R_SETMAX, R_GETATTR, R_SET, R_FLUSH};
static const int BREQ[] = {R_BINCR, R_PWG, R_GBP, R_SMGET, R_UPSERT, R_PUT, R_TAKE, R_UPD, R_DELETE};
#ifndef H_MENU
#define H_MENU 0
#endif
static int kind; static const int KINDS[] = H_KINDS; enum { NK = sizeof KINDS / sizeof KINDS[0] };
/* one request's answer */
#define OUTN 120
typedef struct { int n; unsigned char b[OUTN]; } out_t;
static void put1(out_t *o, int v) { if (o->n >= OUTN) sym_fail("answer too long for the harness"); o->b[o->n++] = (unsigned char)v; }
static void putm(out_t *o, const void *p, int n) { for (int i = 0; i < n; i++) put1(o, ((const unsigned char *)p)[i]); }
static item_attr *mkattr(item_attr *a) { memset(a, 0, sizeof *a); a->readable = 1; a->maxbkeyrange.len = BKEY_NULL; a->flags = 9; return a; }
static void putelems(out_t *o, int k, struct elems_result *r) {
  put1(o, (int)r->elem_count);
  for (int j = 0; j < (int)r->elem_count; j++) { eitem_info inf; memset(&inf, 0, sizeof inf); E->get_elem_info(EH, COOKIE, ETYPE[k], r->elem_array[j], &inf); put1(o, inf.nbytes); putm(o, inf.value, inf.nbytes - 2);
    if (k == MAP) putm(o, inf.score, inf.nscore); if (k == BTREE) { putm(o, inf.score, 1); put1(o, inf.neflag); if (inf.neflag) put1(o, inf.eflag[0]); } }
}
static uint64_t casof[8];        /* the unique prepared for each copy */
static void key(char *k, int copy, int n) { k[0] = 'A' + copy; k[1] = ':'; k[2] = 'k' + n; k[3] = 0; }
static bool noresp(const void *k, uint16_t kl, const void *e, uint8_t el, const void *b, uint32_t bl, uint8_t d, uint16_t st, uint64_t cas, const void *c) { return true; }
static void run(int copy, int t, int q, out_t *o) {
  char K[4], K2[4]; key(K, copy, 0); key(K2, copy, 1); int n = 3; char v[4] = {'1' + t, '0', '0', 0}; ENGINE_ERROR_CODE r = ENGINE_SUCCESS; uint64_t c = 0, res = 0; item_attr a; o->n = 0; int k = kind;
  switch (q) {
  case R_SET: r = kv_store(K, n, OPERATION_SET, v, 1 + t, t, 0, 0, NULL); break;
  case R_ADD: r = kv_store(K, n, OPERATION_ADD, v, 2, t, 0, 0, NULL); break;
  case R_REPLACE: r = kv_store(K, n, OPERATION_REPLACE, v, 3, t, 0, 0, NULL); break;
  case R_APPEND: r = kv_store(K, n, t ? OPERATION_PREPEND : OPERATION_APPEND, v, 1, 0, 0, 0, NULL); break;
  case R_CAS: r = kv_store(K, n, OPERATION_CAS, v, 2, t, 0, casof[copy], NULL); break;
  case R_INCR: r = E->arithmetic(EH, COOKIE, K, n, true, true, t ? 95 : 1, 3, 0, 0, &c, &res, 0); if (r == ENGINE_SUCCESS) putm(o, &res, 8); break;
  case R_DECR: r = E->arithmetic(EH, COOKIE, K, n, false, false, 2 + t, 3, 0, 0, &c, &res, 0); if (r == ENGINE_SUCCESS) putm(o, &res, 8); break;
  case R_GET: { item *it = NULL; r = E->get(EH, COOKIE, &it, K, n, 0); if (r == ENGINE_SUCCESS) { item_info inf; E->get_item_info(EH, COOKIE, it, &inf); putm(o, inf.key, inf.nkey); o->n -= inf.nkey; put1(o, inf.flags); put1(o, inf.nbytes); putm(o, inf.value, inf.nbytes - 2); E->release(EH, COOKIE, it); } break; }
  case R_DELETE: r = E->remove(EH, COOKIE, K, n, 0, 0); break;
  case R_SETATTR: { ENGINE_ITEM_ATTR id = ATTR_EXPIRETIME; memset(&a, 0, sizeof a); a.exptime = eng_now + 100 + t; r = E->setattr(EH, COOKIE, K, n, &id, 1, &a, 0); break; }
  case R_SETMAX: { ENGINE_ITEM_ATTR id[2] = {ATTR_MAXCOUNT, ATTR_EXPIRETIME}; memset(&a, 0, sizeof a); a.exptime = eng_now + 100 + t; a.maxcount = 3; r = E->setattr(EH, COOKIE, K, n, id, 2, &a, 0); break; }
  case R_GETATTR: { ENGINE_ITEM_ATTR id[4] = {ATTR_EXPIRETIME, ATTR_FLAGS, ATTR_COUNT, ATTR_MAXCOUNT}; memset(&a, 0, sizeof a); r = E->getattr(EH, COOKIE, K, n, id, k == KV ? 2 : 4, &a, 0); if (r == ENGINE_SUCCESS) { put1(o, a.type); put1(o, a.exptime ? a.exptime - eng_now : 0); put1(o, a.flags); put1(o, a.count); put1(o, a.maxcount); } break; }
  case R_FLUSH: r = E->flush(EH, COOKIE, K, 1, 0); break;
  case R_CREATE: r = co_create(k == KV ? LIST : k, K, mkattr(&a)); break;
  case R_PUT: r = co_put(k, K, 3 + t, 3, 0, mkattr(&a)); break;
  case R_PUTSAME: r = co_put(k, K, 5, 3 + (k == SET ? 0 : t), 0, NULL); break;
  case R_UPSERT: { eitem *e; r = co_alloc(k, K, 1, 4 + t, &e); if (r == ENGINE_SUCCESS) { r = co_link(k, K, -1, e, 1, mkattr(&a)); put1(o, r == ENGINE_SUCCESS ? co_replaced : 7); o->n--; } break; }
  case R_REM: r = co_del(k, K, 1, 3, 0, t); break;
  case R_REMALL: if (k == SET) r = co_del(k, K, 0, 3, 0, 1); else r = co_del(k, K, 0, 3, 1, 1); break;
  case R_ALL: { struct elems_result er; r = co_get(k, K, k == SET ? 0 : -1, 0, 0, &er); if (r == ENGINE_SUCCESS) { putelems(o, k, &er); co_release(k, &er); } break; }
  case R_TAKE: { struct elems_result er; r = co_get(k, K, k == SET ? 0 : t ? 1 : -1, 1, t, &er); if (r == ENGINE_SUCCESS) { putelems(o, k, &er); co_release(k, &er); } break; }
  case R_UPD: { char b[8]; memset(b, '5' + t, 8); int vl = 3 + (t ? 2 : 0); memcpy(b + vl, "\r\n", 2);
    if (k == MAP) { char f = 'b'; field_t fl = {.value = &f, .length = 1}; r = E->map_elem_update(EH, COOKIE, K, n, &fl, b, vl + 2, 0); }
    else if (k == BTREE) { bkey_range br; co_range(&br, el_bkey(1), el_bkey(1)); eflag_update eu; memset(&eu, 0, sizeof eu); eu.neflag = 2; memset(eu.eflag, 30 + t, 2); r = E->btree_elem_update(EH, COOKIE, K, n, &br, &eu, b, vl + 2, 0); }
    else r = co_put(k, K, 6 + t, 3, 0, NULL);
    break; }
  case R_COUNT: if (k == SET) { bool ex = 0; char b[8]; el_body(b, 1, 3); r = E->set_elem_exist(EH, COOKIE, K, n, b, 5, &ex, 0); put1(o, ex); } else if (k == BTREE) { bkey_range br; co_range(&br, 0, ~0ull); uint32_t cnt = 0, cost; r = E->btree_elem_count(EH, COOKIE, K, n, &br, NULL, &cnt, &cost, 0); put1(o, cnt); } else { struct elems_result er; r = co_get(k, K, 1, 0, 0, &er); if (r == ENGINE_SUCCESS) { putelems(o, k, &er); co_release(k, &er); } } break;
  case R_BINCR: { bkey_range br; co_range(&br, el_bkey(4), el_bkey(4)); br.to_nbkey = BKEY_NULL; r = E->btree_elem_arithmetic(EH, COOKIE, K, n, &br, true, true, t ? 95 : 1, 7, NULL, &res, 0); if (r == ENGINE_SUCCESS) putm(o, &res, 8); break; }
  case R_PWG: { bkey_range br; co_range(&br, el_bkey(1), el_bkey(1)); br.to_nbkey = BKEY_NULL; int pos = 0; struct elems_result er; memset(&er, 0, sizeof er); r = E->btree_posi_find_with_get(EH, COOKIE, K, n, &br, BTREE_ORDER_ASC, 1, &pos, &er, 0); if (r == ENGINE_SUCCESS) { put1(o, pos); putelems(o, BTREE, &er); co_release(BTREE, &er); } break; }
  case R_GBP: { struct elems_result er; memset(&er, 0, sizeof er); r = E->btree_elem_get_by_posi(EH, COOKIE, K, n, BTREE_ORDER_DESC, 0, 2, &er, 0); if (r == ENGINE_SUCCESS) { putelems(o, BTREE, &er); co_release(BTREE, &er); } break; }
  case R_SMGET: { token_t kt[2]; bkey_range br; co_range(&br, 0, el_bkey(9)); smget_result_t sr; memset(&sr, 0, sizeof sr); size_t need = 6 * sizeof(eitem *) + 4 * sizeof(smget_ehit_t) + 2 * sizeof(smget_emis_t); sr.elem_array = malloc(need); memset(kt, 0, sizeof kt); kt[0].value = K; kt[1].value = K2; kt[0].length = kt[1].length = 3;
    r = E->btree_elem_smget(EH, COOKIE, kt, 2, &br, NULL, 0, 4, false, &sr, 0); if (r == ENGINE_SUCCESS) { struct elems_result er; memset(&er, 0, sizeof er); er.elem_array = sr.elem_array; er.elem_count = sr.elem_count; putelems(o, BTREE, &er); for (unsigned j = 0; j < sr.elem_count; j++) { put1(o, sr.elem_kinfo[j].kidx); put1(o, sr.elem_kinfo[j].flag); } put1(o, sr.miss_count); if (sr.elem_count) E->btree_elem_release(EH, COOKIE, sr.elem_array, sr.elem_count); } free(sr.elem_array); break; }
  case R_SCRUB: { protocol_binary_request_header h; memset(&h, 0, sizeof h); h.request.magic = PROTOCOL_BINARY_REQ; h.request.opcode = PROTOCOL_BINARY_CMD_SCRUB; E->unknown_command(EH, COOKIE, &h, noresp); break; }
  case R_BG: symp_sleep(1); break;
  case R_STAT: { token_t tk; memset(&tk, 0, sizeof tk); tk.value = K; tk.length = 1; int len = 0; char *s = E->prefix_dump_stats(EH, COOKIE, &tk, 1, &len); if (s) free(s); break; }
  }
  put1(o, r); sym_assert(!symp_held(symp_self()), "a request gives back every lock it takes");
}
/* everything a copy holds */
#define STN 400
typedef struct { int n; unsigned char b[STN]; } st_t;
static void state(int copy, st_t *s) {
  s->n = 0;
  for (int j = 0; j < 2; j++) { char K[4]; key(K, copy, j); item_attr a; memset(&a, 0, sizeof a); ENGINE_ITEM_ATTR id[2] = {ATTR_EXPIRETIME, ATTR_FLAGS}; int t = -1;
    if (E->getattr(EH, COOKIE, K, 3, id, 2, &a, 0) == ENGINE_SUCCESS) { for (int i = 0; i < NKINDS; i++) if (ETYPE[i] == a.type) t = i; s->b[s->n++] = a.exptime ? a.exptime - eng_now : 0; s->b[s->n++] = a.flags; }
    s->b[s->n++] = t + 1; if (t < 0) continue; out_t o; o.n = 0;
    if (t == KV) { item *it = NULL; if (E->get(EH, COOKIE, &it, K, 3, 0) == ENGINE_SUCCESS) { item_info inf; E->get_item_info(EH, COOKIE, it, &inf); put1(&o, inf.nbytes); putm(&o, inf.value, inf.nbytes); E->release(EH, COOKIE, it); } }
    else { ENGINE_ITEM_ATTR id2[3] = {ATTR_COUNT, ATTR_MAXCOUNT, ATTR_OVFLACTION}; E->getattr(EH, COOKIE, K, 3, id2, 3, &a, 0); put1(&o, a.count); put1(&o, a.maxcount); put1(&o, a.ovflaction); struct elems_result er; if (co_get(t, K, t == SET ? 0 : -1, 0, 0, &er) == ENGINE_SUCCESS) { putelems(&o, t, &er); co_release(t, &er); } }
    memcpy(s->b + s->n, o.b, o.n); s->n += o.n; }
  /* what the prefix is charged with */
  token_t tk; memset(&tk, 0, sizeof tk); char P[2] = {'A' + copy, 0}; tk.value = P; tk.length = 1; int len = 0; char *d = E->prefix_dump_stats(EH, COOKIE, &tk, 1, &len);
  if (d) { char *p = strstr(d, "itm "); if (p) { char *e = p; while (*e && *e != '\r' && !(e[0] == ' ' && e[1] == 't' && e[2] == 's')) e++; if (s->n + (e - p) > STN) sym_fail("state too long for the harness"); memcpy(s->b + s->n, p, e - p); s->n += e - p; } free(d); }
}
/* ---- preparation of one copy ---- */
static int st0, st1;
static void prepare(int copy) {
  char K[4], K2[4]; key(K, copy, 0); key(K2, copy, 1); item_attr a; uint64_t c = 0; casof[copy] = 0;
  if (kind == KV) { if (st0 == 1) kv_store(K, 3, OPERATION_SET, "9", 1, 1, 0, 0, &c); else if (st0 == 2) kv_store(K, 3, OPERATION_SET, "abc", 3, 2, eng_now + 50, 0, &c); casof[copy] = c; }
  else { if (st0) for (int i = 0; i < 3; i++) if (co_put(kind, K, i, 3, 0, i ? NULL : mkattr(&a)) != ENGINE_SUCCESS) sym_fail("prepare"); if (st0 == 2) { ENGINE_ITEM_ATTR id = ATTR_MAXCOUNT; memset(&a, 0, sizeof a); a.maxcount = 4; if (E->setattr(EH, COOKIE, K, 3, &id, 1, &a, 0) != ENGINE_SUCCESS) sym_fail("prepare"); }
    if (kind == BTREE) for (int i = 0; i < 2; i++) if (co_put(kind, K2, 2 * i, 3, 0, i ? NULL : mkattr(&a)) != ENGINE_SUCCESS) sym_fail("prepare"); }
  kv_store(K2, 3, OPERATION_ADD, "z", 1, 1, 0, 0, NULL);
}
/* ---- threads ---- */
static int rq[NREQ], owner[NREQ]; static out_t got[NREQ]; static int conc;
static void *client(void *arg) { int t = (int)(intptr_t)arg; for (int i = 0; i < NREQ; i++) if (owner[i] == t) run(conc, t, rq[i], &got[i]); return NULL; }
#define NORD 8
static out_t ref[NORD][NREQ]; static st_t rst[NORD], fin; static int nord;
static void orders(int *seq, int n) {
  if (n == NREQ) { prepare(nord); for (int i = 0; i < NREQ; i++) run(nord, owner[seq[i]], rq[seq[i]], &ref[nord][seq[i]]); eng_bg(); state(nord, &rst[nord]); nord++; return; }
  int next[4] = {-1, -1, -1, -1}; for (int i = NREQ - 1; i >= 0; i--) { int used = 0; for (int j = 0; j < n; j++) if (seq[j] == i) used = 1; if (!used) next[owner[i]] = i; }
  for (int t = 0; t < 3; t++) if (next[t] >= 0) { seq[n] = next[t]; orders(seq, n + 1); }
}
static uint32_t keyhash(const void *d, size_t n) { const unsigned char *p = d; uint32_t h = 0; for (size_t i = 0; i < n; i++) h = h * 33 + p[i]; return h & 0xff; }
static int menu(int *m) { int n = 0; if (kind == KV) { n = sizeof KREQ / sizeof KREQ[0]; memcpy(m, KREQ, sizeof KREQ); } else if (H_MENU == 1) { n = sizeof BREQ / sizeof BREQ[0]; memcpy(m, BREQ, sizeof BREQ); } else { n = sizeof CREQ / sizeof CREQ[0]; memcpy(m, CREQ, sizeof CREQ); } return n; }
#if defined(H_BALANCE)
/* one request of every kind, on every kind of item, with one allocation failing: no lock is kept */
static void nostat(const char *k, const uint16_t kl, const char *v, const uint32_t vl, const void *c) {}
static void misc(int q) {
  static const char *grp[] = {NULL, "slabs", "items", "scrub", "prefixes", "prefixlist", "vbucket", "persistence", "reset", "sizes", "dump", "cachedump 1 0 0"}; static const char *cfg[] = {"memlimit", "maxcollsize", "max_list_size", "max_set_size", "max_map_size", "max_btree_size", "max_element_bytes", "scrub_count", "sticky_limit", "evictions", "verbosity", "nosuch", "chkpt_interval_pct_snapshot", "async_logging"};
  static item *arr[120]; int cnt = 0; char cur[40]; ENGINE_ERROR_CODE r;
  switch (q) {
  case 0: { int g = sym_choose(sizeof grp / sizeof grp[0], "group"); E->get_stats(EH, COOKIE, grp[g], grp[g] ? strlen(grp[g]) : 0, nostat); break; }
  case 1: E->reset_stats(EH, COOKIE); break;
  case 2: { int c = sym_choose(sizeof cfg / sizeof cfg[0], "config"); size_t big = sym_choose(2, "size") ? 50000 : 64; char buf[16]; memset(buf, 0, 16); memcpy(buf, &big, sizeof big); r = E->set_config(EH, COOKIE, cfg[c], buf); break; }
  case 3: { int c = sym_choose(sizeof cfg / sizeof cfg[0], "config"); char buf[16]; r = E->get_config(EH, COOKIE, cfg[c], buf); break; }
  case 4: strcpy(cur, "0"); r = E->keyscan(cur, 4, sym_choose(2, "pattern") ? "*k*" : NULL, ITEM_TYPE_MAX, arr, 120, &cnt); for (int i = 0; i < cnt; i++) E->release(EH, COOKIE, arr[i]); strcpy(cur, "x"); r = E->keyscan(cur, 4, NULL, ITEM_TYPE_MAX, arr, 120, &cnt); break;
  case 5: strcpy(cur, sym_choose(2, "cursor") ? "0" : "bad"); r = E->prefixscan(cur, 4, "*", arr, 120, &cnt); for (int i = 0; i < cnt; i++) { prefix_info pi; E->get_prefix_info(EH, COOKIE, arr[i], &pi); } for (int i = 0; i < cnt; i++) E->prefix_release(EH, COOKIE, arr[i]); break;
  case 6: { protocol_binary_request_header h; memset(&h, 0, sizeof h); h.request.magic = PROTOCOL_BINARY_REQ; h.request.opcode = sym_choose(2, "opcode") ? PROTOCOL_BINARY_CMD_SCRUB : 0x83; E->unknown_command(EH, COOKIE, &h, noresp); break; }
  case 7: E->flush(EH, COOKIE, sym_choose(2, "which") ? NULL : "A", -1, 5); eng_bg(); break;
  case 8: E->flush(EH, COOKIE, "", 0, 0); E->flush(EH, COOKIE, "nosuch", 6, 0); break;
  case 9: { unsigned by = 0; char *d = E->cachedump(EH, COOKIE, 1, 5, true, sym_choose(2, "sticky"), &by); if (d) free(d); break; }
  case 10: E->prefix_count(EH, COOKIE); break;
  }
}
#define NMISC 11
static const int ALLREQ[] = {R_SET, R_ADD, R_REPLACE, R_APPEND, R_CAS, R_INCR, R_DECR, R_GET, R_DELETE, R_SETATTR, R_GETATTR, R_FLUSH, R_CREATE, R_PUT, R_PUTSAME, R_REM, R_REMALL, R_ALL, R_TAKE, R_UPD, R_COUNT, R_BINCR, R_PWG, R_GBP, R_SMGET, R_STAT, R_UPSERT, R_SETMAX};
void harness(void) {
  eng_hashfn = keyhash; eng_init("cache_size=33554432;eviction=false"); int real = sym_choose(NKINDS, "kind"); kind = real; st0 = sym_choose(3, "state"); prepare(0);
  for (int s = 0; s < H_BALANCE; s++) {
    int q = sym_choose(sizeof ALLREQ / sizeof ALLREQ[0] + NMISC, "request"); out_t o; nalloc = 0; mfailed = stub_failed = 0; fail_at = -1;
    if (s == H_BALANCE - 1) { int f = sym_choose(7, "fail"); if (f < 3) stub_fail_at = f; else if (f < 6) fail_at = f - 3; }
    if (q < (int)(sizeof ALLREQ / sizeof ALLREQ[0])) { int w = sym_choose(2, "same"); kind = w ? real : q >= R_PUT && q <= R_COUNT ? real : q; if (!w) { if (q < R_PUT) { sym_assume(0); } kind = LIST + sym_choose(4, "other"); } else if (real == KV && q >= R_PUT) sym_assume(0); if (q == R_UPSERT && kind != MAP && kind != BTREE) sym_assume(0); run(0, s & 1, ALLREQ[q], &o); }
    else misc(q - (int)(sizeof ALLREQ / sizeof ALLREQ[0]));
    stub_fail_at = -1; fail_at = -1; kind = real; if (mfailed || stub_failed) sym_reach("allocation failed");
    sym_assert(!symp_held(symp_self()), "a request gives back every lock it takes"); eng_bg();
    for (int t = 0; t < symp_threads(); t++) sym_assert(!symp_held(t), "no thread keeps a lock while it waits");
  }
  /* every lock is free: a second thread gets through */
  { out_t o; kind = KV; run(0, 0, R_SET, &o); misc(1); misc(4); } sym_reach("end");
}
#else
#ifdef H_REQS
static const int SUB[] = H_REQS;
#endif
void harness(void) {
  eng_hashfn = keyhash; eng_init("cache_size=33554432;eviction=false"); kind = KINDS[sym_choose(NK, "kind")]; st0 = sym_choose(H_STATES, "state");
  int m[40], nm = menu(m);
#ifdef H_REQS
  nm = sizeof SUB / sizeof SUB[0]; memcpy(m, SUB, sizeof SUB);
#endif
  for (int i = 0; i < NREQ; i++) { owner[i] = i < H_T1 ? 0 : i < H_T1 + H_T2 ? 1 : 2; rq[i] = m[sym_choose(nm, "request")]; }
  int seq[NREQ]; orders(seq, 0); conc = nord; prepare(conc);
#ifdef H_STALE
  { char K[4]; key(K, conc + 1, 0); kv_store(K, 3, OPERATION_SET, "old", 3, 0, eng_now + 1, 0, NULL); key(K, conc + 1, 1); item_attr a; mkattr(&a); a.exptime = eng_now + 1; for (int i = 0; i < 3; i++) co_put(LIST, K, i, 3, 0, i ? NULL : &a); eng_now += 2; }
#endif
  pthread_t th[3]; int nt = 2 + (H_T3 > 0); for (int t = 0; t < nt; t++) pthread_create(&th[t], NULL, client, (void *)(intptr_t)t);
  symp_fine(H_FINE); symp_explore(H_PRE); for (int t = 0; t < nt; t++) pthread_join(th[t], NULL); symp_explore(0); symp_fine(0);
  eng_bg(); state(conc, &fin); int ok = -1;
  for (int k = 0; k < nord && ok < 0; k++) { int same = fin.n == rst[k].n && memcmp(fin.b, rst[k].b, fin.n) == 0; for (int i = 0; i < NREQ && same; i++) same = got[i].n == ref[k][i].n && memcmp(got[i].b, ref[k][i].b, got[i].n) == 0; if (same) ok = k; }
  sym_assert(ok >= 0, "concurrent requests answer and leave behind what some order of them one after the other does"); if (ok == 0) sym_reach("first order"); if (ok == nord - 1) sym_reach("last order"); if (ok > 0 && ok < nord - 1) sym_reach("middle order");
  for (int c = 0; c <= nord + 1; c++) for (int j = 0; j < 2; j++) { char K[4]; key(K, c, j); E->remove(EH, COOKIE, K, 3, 0, 0); } E->flush(EH, COOKIE, NULL, -1, 0);
  eng_bg(); sym_assert(stub_live == 0 && stub_used == 0, "everything is freed when nothing is stored"); sym_reach("end");
}
#endif

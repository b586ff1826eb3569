/* Key-value histories against an abstract map: store family, get, delete, incr/decr, expiry, flush, sticky, attributes. */
#include "eng.h"
#ifndef H_N
#define H_N 3
#endif
#ifndef H_K
#define H_K 2
#endif
#ifndef H_VMAX
#define H_VMAX 2
#endif
#ifndef H_HASH
#define H_HASH 0
#endif
enum { O_SET = 1, O_ADD = 2, O_REPLACE = 4, O_APPEND = 8, O_PREPEND = 16, O_CAS = 32, O_DEL = 64, O_GET = 128, O_ARITH = 256, O_COLL = 512, O_FLUSH = 1024, O_TIME = 2048, O_SETEXP = 4096, O_FLUSHP = 8192, O_DELCAS = 16384, O_APPCAS = 32768 };
#ifndef H_OPS
#define H_OPS (O_SET | O_ADD | O_REPLACE | O_APPEND | O_PREPEND | O_DEL | O_GET | O_COLL)
#endif
#define VCAP 16
typedef struct { int present, coll, inv; unsigned n; unsigned char v[VCAP]; uint32_t flags, exp; uint64_t cas; rel_time_t stamp; } ment;
static ment M[H_K]; static unsigned char K[H_K][8]; static unsigned NKL[H_K];
static uint64_t lastcas;
#ifdef H_EXP
#define NEWEXP() sym_u32("exptime")
#else
#define NEWEXP() 0
#endif
/* a key whose prefix part is not a legal name cannot be stored (2-byte keys: "<c>:") */
static int badname(int i) {
#ifdef H_KEYSYM
  unsigned c = K[i][0]; if (NKL[i] < 2 || K[i][1] != ':') return 0;
  return !((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_' || c == '+' || c == '.');
#else
  return 0;
#endif
}
/* flush targets: everything, null prefix, and nested prefixes; at most one pending (not yet effective) flush per target */
#define NP 4
static const char *PN[NP] = {"*", "", "a", "ab"}; static uint32_t pend[NP]; static int pendset[NP];
static int under(int i, int p) { const unsigned char *k = K[i]; unsigned n = NKL[i]; int pl = -1; if (p == 0) return 1; for (unsigned j = 1; j < n; j++) if (k[j] == ':') { pl = j; break; } /* the item's prefix is everything before its first delimiter (not counting the first byte) */
  if (p == 1) return pl < 0; unsigned q = strlen(PN[p]); return pl == (int)q && memcmp(k, PN[p], q) == 0; }
static void mkill(ment *m) { memset(m, 0, sizeof *m); }
/* one-second clock: a flush due at second T takes effect when the clock shows T-1 and hides everything stored up to then */
static void mtick(void) { for (int p = 0; p < NP; p++) if (pendset[p] && eng_now >= pend[p] - 1) { for (int i = 0; i < H_K; i++) if (M[i].present && under(i, p) && M[i].stamp <= pend[p] - 1) mkill(&M[i]); if (eng_now > pend[p] - 1) pendset[p] = 0; } }
static void mflush(int p, const char *pn, uint32_t when) { mtick(); if (when == 0) { for (int i = 0; i < H_K; i++) if (under(i, p)) mkill(&M[i]); pendset[p] = 0; } else { pendset[p] = when > eng_now; pend[p] = when; mtick(); } }
static int live(ment *m) { mtick(); if (!m->present) return 0; if (m->exp != 0 && m->exp <= eng_now) return 0; return 1; }
static void setm(ment *m, const unsigned char *v, unsigned n, uint32_t fl, uint32_t ex, uint64_t cas) { m->present = 1; m->coll = 0; m->n = n; memcpy(m->v, v, n); m->flags = fl; m->exp = ex; m->cas = cas; m->stamp = eng_now; }
static void newcas(uint64_t cas) { sym_assert(cas != 0, "a successful store reports a CAS"); for (int i = 0; i < H_K; i++) if (M[i].present && !M[i].coll) sym_assert(M[i].cas != cas, "a new CAS differs from the CAS of every stored version"); sym_assert(cas != lastcas, "every modification gets a fresh CAS"); lastcas = cas; }
/* the reference map and the engine agree on key i */
static void check_get(int i) {
  char out[VCAP]; uint32_t n = 0, fl = 0; uint64_t cas = 0; ENGINE_ERROR_CODE r = kv_get(K[i], NKL[i], out, VCAP, &n, &fl, &cas);
  ment *m = &M[i];
  if (live(m)) {
    if (m->coll) { sym_assert(r == ENGINE_EBADTYPE, "get of a collection key is a type error"); return; }
    sym_assert(r == ENGINE_SUCCESS, "a stored unexpired key is found");
    sym_assert(n == m->n, "get returns the stored length");
    sym_assert(memcmp(out, m->v, m->n) == 0, "get returns the stored bytes");
    sym_assert(fl == m->flags, "get returns the stored flags");
    sym_assert(cas == m->cas, "get returns the CAS of the last modification");
    sym_reach("hit");
  } else { sym_assert(r == ENGINE_KEY_ENOENT, "an absent, deleted, flushed or expired key is not found"); sym_reach("miss"); if (m->present) mkill(m); }
}
static void op(int step) {
  int menu[16], nm = 0; for (int b = 0; b < 16; b++) if (H_OPS & (1 << b)) menu[nm++] = 1 << b;
  int o = menu[sym_choose(nm, "op")];
  if (o == O_TIME) { mtick(); eng_now += (uint32_t)sym_range(1, 70000, "advance"); mtick(); sym_reach("time"); return; }
  if (o == O_FLUSH) {
#ifdef H_DELAY
    int kind = sym_choose(3, "when"); uint32_t when = kind == 0 ? 0 : kind == 1 ? 1 : eng_now + (uint32_t)sym_range(1, 70000, "delay");
#else
    uint32_t when = 0;
#endif
    ENGINE_ERROR_CODE r = E->flush(EH, COOKIE, NULL, -1, when); sym_assert(r == ENGINE_SUCCESS, "flush_all succeeds"); mflush(0, NULL, when); sym_reach("flush"); return; }
  if (o == O_FLUSHP) { int p = 1 + sym_choose(NP - 1, "prefix"); const char *pn = PN[p]; uint32_t when = 0; int any = 0; for (int i = 0; i < H_K; i++) if (live(&M[i]) && under(i, p)) any = 1;
#ifdef H_DELAY
    int kind = sym_choose(2, "when"); when = kind == 0 ? 0 : eng_now + (uint32_t)sym_range(1, 70000, "delay"); if (!any) when = 0;
#endif
    ENGINE_ERROR_CODE r = E->flush(EH, COOKIE, pn[0] ? pn : NULL, (int)strlen(pn), when); if (any || !pn[0]) sym_assert(r == ENGINE_SUCCESS, "flush_prefix succeeds on an existing prefix"); else { sym_assert(r == ENGINE_SUCCESS || r == ENGINE_PREFIX_ENOENT, "flush_prefix without items"); return; } mflush(p, pn, when); sym_reach("flushp"); return; }
  int k = sym_choose(H_K, "key"); ment *m = &M[k]; int alive = live(m); ENGINE_ERROR_CODE r; uint64_t cas = 0;
  unsigned char v[VCAP]; unsigned n = 0; uint32_t fl = 0, ex = 0;
  if (o & (O_SET | O_ADD | O_REPLACE | O_APPEND | O_PREPEND | O_CAS | O_APPCAS)) { n = sym_choose(H_VMAX + 1, "vlen"); sym__bytes(v, n, "val");
#ifdef H_DIGITS
    for (unsigned i = 0; i < n; i++) sym_assume(v[i] >= '0' && v[i] <= '9');
#endif
    fl = sym_u32("flags"); ex = NEWEXP(); }
  if (o & (O_SET | O_ADD | O_ARITH | O_COLL)) for (int p = 1; p < NP; p++) if (pendset[p] && under(k, p)) sym_assume(eng_now != pend[p] - 1); /* storing within the second in which a prefix flush takes effect: left open */
  if (badname(k)) {
    if (o == O_SET || o == O_ADD) { r = kv_store(K[k], NKL[k], o == O_SET ? OPERATION_SET : OPERATION_ADD, v, n, fl, ex, 0, &cas); sym_assert(r == ENGINE_PREFIX_ENAME, "a key with an illegal prefix name is refused"); sym_reach("badname"); return; }
    if (o == O_COLL) return;
  }
  switch (o) {
  case O_SET: r = kv_store(K[k], NKL[k], OPERATION_SET, v, n, fl, ex, 0, &cas);
    if (alive && m->coll) sym_assert(r == ENGINE_EBADTYPE, "set on a collection is a type error"); else { sym_assert(r == ENGINE_SUCCESS, "set stores"); newcas(cas); setm(m, v, n, fl, ex, cas); } break;
  case O_ADD: r = kv_store(K[k], NKL[k], OPERATION_ADD, v, n, fl, ex, 0, &cas);
    if (alive && m->coll) sym_assert(r == ENGINE_EBADTYPE, "add on a collection is a type error");
    else if (alive) sym_assert(r == ENGINE_NOT_STORED, "add on an existing key does not store"); else { sym_assert(r == ENGINE_SUCCESS, "add on an absent key stores"); newcas(cas); setm(m, v, n, fl, ex, cas); } break;
  case O_REPLACE: r = kv_store(K[k], NKL[k], OPERATION_REPLACE, v, n, fl, ex, 0, &cas);
    if (alive && m->coll) sym_assert(r == ENGINE_EBADTYPE, "replace on a collection is a type error");
    else if (!alive) sym_assert(r == ENGINE_NOT_STORED, "replace on an absent key does not store"); else { sym_assert(r == ENGINE_SUCCESS, "replace on an existing key stores"); newcas(cas); setm(m, v, n, fl, ex, cas); } break;
  case O_APPEND: case O_PREPEND: case O_APPCAS: { uint64_t want = 0; int pre = o == O_PREPEND; if (o == O_APPCAS) { want = sym_u64("casarg"); pre = sym_choose(2, "pre"); }
    r = kv_store(K[k], NKL[k], pre ? OPERATION_PREPEND : OPERATION_APPEND, v, n, fl, ex, want, &cas);
    if (!alive) sym_assert(r == ENGINE_NOT_STORED, "append/prepend on an absent key does not store");
    else if (m->coll) sym_assert(r == ENGINE_EBADTYPE, "append/prepend on a collection is a type error");
    else if (want != 0 && want != m->cas) { sym_assert(r == ENGINE_KEY_EEXISTS, "append/prepend with a stale CAS is refused"); sym_reach("appcas-stale"); }
    else { sym_assert(r == ENGINE_SUCCESS, "append/prepend stores"); newcas(cas);
      if (m->n + n > VCAP) sym_fail("harness bound");
      if (pre) { memmove(m->v + n, m->v, m->n); memcpy(m->v, v, n); } else memcpy(m->v + m->n, v, n); m->n += n; m->cas = cas; sym_reach("attach"); } break; }
  case O_CAS: { uint64_t want = sym_u64("casarg"); r = kv_store(K[k], NKL[k], OPERATION_CAS, v, n, fl, ex, want, &cas);
    if (!alive) sym_assert(r == ENGINE_KEY_ENOENT, "cas on an absent key reports not found");
    else if (m->coll) sym_assert(r == ENGINE_EBADTYPE, "cas on a collection is a type error");
    else if (want == m->cas) { sym_assert(r == ENGINE_SUCCESS, "cas with the current CAS stores"); newcas(cas); setm(m, v, n, fl, ex, cas); sym_reach("cas-ok"); }
    else { sym_assert(r == ENGINE_KEY_EEXISTS, "cas with a stale CAS is refused"); sym_reach("cas-stale"); } break; }
  case O_DEL: if (alive) for (int p = 0; p < NP; p++) if (p && pendset[p] && under(k, p)) { int oth = 0; for (int i = 0; i < H_K; i++) if (i != k && M[i].present && under(i, p)) oth = 1; sym_assume(oth); } /* a pending prefix flush goes with its prefix */
    r = E->remove(EH, COOKIE, K[k], NKL[k], 0, 0); if (alive) { sym_assert(r == ENGINE_SUCCESS, "delete of an existing key succeeds"); } else sym_assert(r == ENGINE_KEY_ENOENT, "delete of an absent key reports not found"); mkill(m); break;
  case O_DELCAS: { uint64_t want = sym_u64("casarg"); sym_assume(want != 0); r = E->remove(EH, COOKIE, K[k], NKL[k], want, 0);
    if (!alive) sym_assert(r == ENGINE_KEY_ENOENT, "delete of an absent key reports not found");
    else if (m->coll) { if (r == ENGINE_SUCCESS) mkill(m); else sym_assert(r == ENGINE_KEY_EEXISTS, "delete of a collection with a CAS"); }
    else if (want == m->cas) { sym_assert(r == ENGINE_SUCCESS, "delete with the current CAS succeeds"); mkill(m); sym_reach("delcas-ok"); } else { sym_assert(r == ENGINE_KEY_EEXISTS, "delete with a stale CAS is refused"); sym_reach("delcas-stale"); } break; }
  case O_ARITH: { int create = sym_choose(2, "create"), inc = sym_choose(2, "inc"); uint64_t res = 0, x = 0; char t[24];
    r = E->arithmetic(EH, COOKIE, K[k], NKL[k], inc, create, 1, 7, 3, 0, &cas, &res, 0);
    if (!alive) { if (!create) { sym_assert(r == ENGINE_KEY_ENOENT, "incr of an absent key reports not found"); break; } sym_assert(r == ENGINE_SUCCESS && res == 7, "incr creates"); newcas(cas); setm(m, (unsigned char *)"7", 1, 3, 0, cas); }
    else if (m->coll) sym_assert(r == ENGINE_EBADTYPE, "incr of a collection is a type error");
    else { int num = m->n > 0; for (unsigned i = 0; i < m->n; i++) { num &= (m->v[i] >= '0') & (m->v[i] <= '9'); x = x * 10 + (unsigned)(m->v[i] - '0'); }
      if (!num) sym_assert(r == ENGINE_EINVAL, "incr of a non-number is refused");
      else { x = inc ? x + 1 : x ? x - 1 : 0; sym_assert(r == ENGINE_SUCCESS && res == x, "incr/decr result"); newcas(cas); int n2 = snprintf(t, sizeof t, "%llu", (unsigned long long)x); m->n = n2; memcpy(m->v, t, n2); m->cas = cas; sym_reach("arith"); } }
    break; }
  case O_GET: check_get(k); break;
  case O_COLL: { item_attr at; memset(&at, 0, sizeof at); at.flags = 5; at.exptime = 0; at.maxcount = 0; at.readable = 1; 
    int t = sym_choose(4, "ctype"); 
    r = t == 0 ? E->list_struct_create(EH, COOKIE, K[k], NKL[k], &at, 0) : t == 1 ? E->set_struct_create(EH, COOKIE, K[k], NKL[k], &at, 0) : t == 2 ? E->map_struct_create(EH, COOKIE, K[k], NKL[k], &at, 0) : E->btree_struct_create(EH, COOKIE, K[k], NKL[k], &at, 0);
    if (alive) sym_assert(r == ENGINE_KEY_EEXISTS, "collection create on an existing key is refused"); else { sym_assert(r == ENGINE_SUCCESS, "collection create on an absent key"); mkill(m); m->present = m->coll = 1; m->stamp = eng_now; sym_reach("coll"); } break; }
  case O_SETEXP: { item_attr at; memset(&at, 0, sizeof at); ENGINE_ITEM_ATTR id = ATTR_EXPIRETIME; at.exptime = NEWEXP(); 
    r = E->setattr(EH, COOKIE, K[k], NKL[k], &id, 1, &at, 0);
    if (!alive) sym_assert(r == ENGINE_KEY_ENOENT, "setattr of an absent key reports not found");
    else if (r == ENGINE_SUCCESS) { m->exp = at.exptime; sym_reach("setexp"); }
    else sym_assert(((m->exp == (rel_time_t)-1) != (at.exptime == (rel_time_t)-1)) && r == ENGINE_EBADVALUE, "changing the expiry time is refused only between sticky and non-sticky"); break; }
  }
  sym_observe(r);
}
void harness(void) {
  eng_hashmode = H_HASH == 1; eng_init(
#ifdef H_CFG
    H_CFG
#else
    NULL
#endif
  );
  for (int i = 0; i < H_K; i++) {
#ifdef H_KEYSYM
    NKL[i] = 1 + sym_choose(2, "klen"); sym__bytes(K[i], NKL[i], "key"); for (unsigned j = 0; j < NKL[i]; j++) sym_assume(K[i][j] > 0x20 && K[i][j] != 0x7f);
    for (int j = 0; j < i; j++) if (NKL[j] == NKL[i]) sym_assume(memcmp(K[i], K[j], NKL[i]) != 0);
#else
    
#ifndef H_NAMES
#define H_NAMES {"a", "a:b", "a:bc", "b"}
#endif
    static const char *names[] = H_NAMES; NKL[i] = strlen(names[i]); memcpy(K[i], names[i], NKL[i]);
#endif
  }
#ifdef H_PRELOAD
  for (int i = 0; i < H_K; i++) { uint64_t cas; kv_store(K[i], NKL[i], OPERATION_SET, "v", 1, i, 0, 0, &cas); setm(&M[i], (const unsigned char *)"v", 1, i, 0, cas); }
#endif
  for (int s = 0; s < H_N; s++) op(s);
  for (int i = 0; i < H_K; i++) check_get(i);
  sym_reach("end");
}

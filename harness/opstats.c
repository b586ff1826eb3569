/* Per-prefix operation statistics (stats_prefix.c), hot-key tracker (topkeys.c) and the hash map underneath (genhash.c).
 * Hash values of prefixes and keys are inputs. */
#include "config.h"
#include "sym.h"
#include <stdio.h>
#include <stdlib.h>
#include <assert.h>
#include "memcached.h"
#include "topkeys.h"
#include "stats_prefix.h"
#ifndef H_MODE
#define H_MODE 0
#endif
#ifndef H_STEPS
#define H_STEPS 3
#endif
#undef malloc
#undef calloc
extern void *malloc(size_t); extern void *calloc(size_t, size_t);
static long fail_at = -1, nalloc;
void *h_malloc(size_t n) { if (nalloc++ == fail_at) return NULL; return malloc(n); }
void *h_calloc(size_t n, size_t m) { if (nalloc++ == fail_at) return NULL; return calloc(n, m); }
static int held;
void LOCK_STATS(void) { if (held) sym_fail("the statistics lock is taken twice"); held = 1; }
void UNLOCK_STATS(void) { if (!held) sym_fail("the statistics lock is released without being held"); held = 0; }
/* ---- hash values: one free value per distinct content ---- */
#define NHASH 16
static struct { char s[16]; size_t n; uint32_t h; } HT[NHASH]; static int nht; static uint32_t hspan = 2, hmul = 1;
static uint32_t hashof(const void *k, size_t n) {
  for (int i = 0; i < nht; i++) if (HT[i].n == n && !memcmp(HT[i].s, k, n)) return HT[i].h;
  uint32_t h = (uint32_t)sym_choose(hspan, "hash") * hmul; if (nht < NHASH && n < 16) { if (n) memcpy(HT[nht].s, k, n); HT[nht].n = n; HT[nht++].h = h; } return h; }
#if H_MODE < 10
static int bighash;
uint32_t mc_hash(const void *k, size_t n, const uint32_t iv) { (void)iv; if (bighash) { uint32_t h = 17; for (size_t i = 0; i < n; i++) h = h * 31 + ((const unsigned char *)k)[i]; return h; } return hashof(k, n); }
/* ---- the recorded operations ---- */
enum { F_get, F_hit, F_set, F_del, F_inc, F_dec, F_lcs, F_lis, F_lih, F_lds, F_ldh, F_lgs, F_lgh, F_scs, F_sis, F_sih, F_sds, F_sdh, F_sgs, F_sgh, F_ses, F_seh, F_mcs, F_mis, F_mih, F_mus, F_muh, F_mds, F_mdh, F_mgs, F_mgh,
  F_bcs, F_bis, F_bih, F_bus, F_buh, F_bds, F_bdh, F_bps, F_bph, F_bms, F_bmh, F_bgs, F_bgh, F_bns, F_bnh, F_pfs, F_pfh, F_pgs, F_pgh, F_gps, F_gph, F_gas, F_sas, NF };
static const char *FN[NF] = { "get", "hit", "set", "del", "inc", "dec", "lcs", "lis", "lih", "lds", "ldh", "lgs", "lgh", "scs", "sis", "sih", "sds", "sdh", "sgs", "sgh", "ses", "seh", "mcs", "mis", "mih", "mus", "muh", "mds", "mdh", "mgs", "mgh",
  "bcs", "bis", "bih", "bus", "buh", "bds", "bdh", "bps", "bph", "bms", "bmh", "bgs", "bgh", "bns", "bnh", "pfs", "pfh", "pgs", "pgh", "gps", "gph", "gas", "sas" };
typedef void (*rec2)(const char *, const size_t); typedef void (*rec3)(const char *, const size_t, const bool);
static const struct { rec2 a; rec3 b; int f, h; } OPS[] = {
  {0, stats_prefix_record_get, F_get, F_hit}, {stats_prefix_record_set, 0, F_set, -1}, {stats_prefix_record_delete, 0, F_del, -1}, {stats_prefix_record_incr, 0, F_inc, -1}, {stats_prefix_record_decr, 0, F_dec, -1},
  {stats_prefix_record_lop_create, 0, F_lcs, -1}, {0, stats_prefix_record_lop_insert, F_lis, F_lih}, {0, stats_prefix_record_lop_delete, F_lds, F_ldh}, {0, stats_prefix_record_lop_get, F_lgs, F_lgh},
  {stats_prefix_record_sop_create, 0, F_scs, -1}, {0, stats_prefix_record_sop_insert, F_sis, F_sih}, {0, stats_prefix_record_sop_delete, F_sds, F_sdh}, {0, stats_prefix_record_sop_get, F_sgs, F_sgh}, {0, stats_prefix_record_sop_exist, F_ses, F_seh},
  {stats_prefix_record_mop_create, 0, F_mcs, -1}, {0, stats_prefix_record_mop_insert, F_mis, F_mih}, {0, stats_prefix_record_mop_update, F_mus, F_muh}, {0, stats_prefix_record_mop_delete, F_mds, F_mdh}, {0, stats_prefix_record_mop_get, F_mgs, F_mgh},
  {stats_prefix_record_bop_create, 0, F_bcs, -1}, {0, stats_prefix_record_bop_insert, F_bis, F_bih}, {0, stats_prefix_record_bop_update, F_bus, F_buh}, {0, stats_prefix_record_bop_delete, F_bds, F_bdh}, {0, stats_prefix_record_bop_incr, F_bps, F_bph}, {0, stats_prefix_record_bop_decr, F_bms, F_bmh},
  {0, stats_prefix_record_bop_get, F_bgs, F_bgh}, {0, stats_prefix_record_bop_count, F_bns, F_bnh}, {0, stats_prefix_record_bop_position, F_pfs, F_pfh}, {0, stats_prefix_record_bop_pwg, F_pgs, F_pgh}, {0, stats_prefix_record_bop_gbp, F_gps, F_gph},
  {stats_prefix_record_getattr, 0, F_gas, -1}, {stats_prefix_record_setattr, 0, F_sas, -1} };
#define NOPS ((int)(sizeof OPS / sizeof OPS[0]))
/* ---- the model: prefixes and their counters ---- */
#define NM 12
static struct { char p[16]; int n; unsigned c[NF]; } M[NM]; static int nm;
static int namechar(unsigned char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_' || c == '-' || c == '+' || c == '.'; }
static int legal(const char *p, int n) { if (p[0] == '-') return 0; for (int i = 0; i < n; i++) if (!namechar((unsigned char)p[i])) return 0; return 1; }
static int preflen(const char *k, int n) { for (int i = 1; i < n; i++) if (k[i] == ':') return i; return 0; }
static int mfind(const char *p, int n) { for (int i = 0; i < nm; i++) if (M[i].n == n && !memcmp(M[i].p, p, n)) return i; return -1; }
static int madd(const char *p, int n) { int i = mfind(p, n); if (i >= 0) return i; memset(&M[nm], 0, sizeof M[nm]); memcpy(M[nm].p, p, n); M[nm].n = n; return nm++; }
static void mdel(int i) { M[i] = M[--nm]; }
static void record(int op, int hit, const char *k, int n) {
  long b4 = nalloc; if (OPS[op].a) OPS[op].a(k, n); else OPS[op].b(k, n, hit); sym_assert(!held, "the statistics lock is released");
  int pl = preflen(k, n), i = mfind(k, pl); if (i < 0) { if (pl && !legal(k, pl)) { sym_reach("illegal prefix"); return; } if (fail_at >= b4 && nalloc > fail_at) { sym_reach("oom"); return; } i = madd(k, pl); } M[i].c[OPS[op].f]++; if (hit && OPS[op].h >= 0) M[i].c[OPS[op].h]++; }
static int ovf; static void overflow(void) { ovf++; }
static char line[1400];
static int mkline(int m) { int n = snprintf(line, sizeof line, "PREFIX "); if (M[m].n) { memcpy(line + n, M[m].p, M[m].n); n += M[m].n; } else n += snprintf(line + n, 10, "<null>");
  for (int f = 0; f < NF; f++) { const char *s = FN[f]; line[n++] = ' '; while (*s) line[n++] = *s++; line[n++] = ' '; if (M[m].c[f] >= 10) n += snprintf(line + n, 21, "%u", M[m].c[f]); else line[n++] = '0' + M[m].c[f]; } line[n++] = '\r'; line[n++] = '\n'; return n; }
/* every expected line occurs exactly once, in any order */
static void check_dump(const char *d, int len, const int *want, int nw) {
  int used = 0, pos = 0; sym_assert(len >= 5, "the dump has an end line"); if (len < 5) return; sym_assert(memcmp(d + len - 5, "END\r\n", 5) == 0, "the dump ends with END");
  for (int k = 0; k < nw; k++) { int hit = -1; for (int i = 0; i < nw && hit < 0; i++) if (!(used >> i & 1)) { int n = M[want[i]].n ? M[want[i]].n : 6; const char *nm_ = M[want[i]].n ? M[want[i]].p : "<null>"; if (pos + 8 + n <= len && !memcmp(d + pos, "PREFIX ", 7) && !memcmp(d + pos + 7, nm_, n) && d[pos + 7 + n] == ' ') { hit = i; break; } }
    if (hit < 0) { sym_fail("a prefix is missing from the dump"); return; } used |= 1 << hit; int n = mkline(want[hit]); sym_assert(pos + n <= len && memcmp(d + pos, line, n) == 0, "the counters of a prefix equal the recorded operations"); pos += n; }
  sym_assert(pos == len - 5, "the dump lists nothing else"); }
static void check_all(void) { int len = -7, want[NM]; for (int i = 0; i < nm; i++) want[i] = i; sym_assert(stats_prefix_count() == nm, "the number of prefixes"); char *d = stats_prefix_dump(NULL, 0, &len); sym_assert(!held, "the statistics lock is released"); if (!d) { sym_assert(fail_at >= 0 && nalloc > fail_at && len == 0, "a dump fails only when memory is short"); return; } check_dump(d, len, want, nm); free(d); }
static void finish(void) { fail_at = -1; LOCK_STATS(); stats_prefix_clear(); UNLOCK_STATS(); nm = 0; check_all(); sym_assert(sym_heap_live(0) == 0, "clearing frees everything"); }
#if H_MODE == 0
/* every operation kind */
static void ops(void) { static const char *K[] = {"pq:1", "pq:2", "r:1", "plain"}; hspan = 1;
  for (int s = 0; s < 2; s++) { int op = sym_choose(NOPS, "op"), hit = OPS[op].b ? sym_choose(2, "hit") : 0, k = s ? sym_choose(4, "key") : 0; record(op, hit, K[k], strlen(K[k])); } check_all(); sym_reach("end"); finish(); }
#elif H_MODE == 1
/* any key bytes */
static void keys(void) { for (int s = 0; s < H_STEPS; s++) { int n = 1 + sym_choose(H_KLEN, "len"); char k[H_KLEN]; sym__bytes(k, n, "key"); record(s & 1, 1, k, n); } check_all(); sym_reach("end"); finish(); }
#elif H_MODE == 2
/* histories */
static void hist(void) {
  static const char *K[] = {"a:1", "b:1", "x", "ab:1:2", "(:1"}, *P[] = {"a", "b", "", "ab", "z"};
#ifdef H_OOM
  fail_at = nalloc + sym_choose(H_OOM, "fail");
#endif
  for (int s = 0; s < H_STEPS; s++) { int o = sym_choose(s == H_STEPS - 1 ? H_OPS : H_OPS - 1, "step");
    if (o < 5) record(s & 1 ? 1 : 0, s & 2, K[o], strlen(K[o]));
    else if (o < 8) { int p = o - 5 + (o == 7 && sym_choose(2, "p")); long before = nalloc; int r = stats_prefix_delete(P[p], strlen(P[p])), i = mfind(P[p], strlen(P[p])); (void)before; sym_assert(!held, "the statistics lock is released"); sym_assert(r == (i < 0 ? -1 : 0), "deleting a prefix reports whether it existed"); if (i >= 0) { mdel(i); sym_reach("deleted"); } }
    else if (o == 8) { int p = sym_choose(5, "p"), i = mfind(P[p], strlen(P[p])); long before = nalloc, oom = fail_at; int r = stats_prefix_insert(P[p], strlen(P[p])); sym_assert(!held, "the statistics lock is released"); if (r == 0) madd(P[p], strlen(P[p])); else sym_assert(i < 0 && oom >= before && nalloc > fail_at, "an insert fails only when memory is short"); }
    else if (o == 9) { LOCK_STATS(); stats_prefix_clear(); UNLOCK_STATS(); nm = 0; }
    else { int nt = 1 + sym_choose(2, "nt"), len = -7, want[2], nw = 0; token_t t[2]; for (int i = 0; i < nt; i++) { int p = sym_choose(5, "t"); t[i].value = p == 2 ? (char *)"<null>" : (char *)P[p]; t[i].length = strlen(t[i].value); int m = mfind(P[p], strlen(P[p])); if (m >= 0) want[nw++] = m; } char *d = stats_prefix_dump(t, nt, &len); sym_assert(!held, "the statistics lock is released"); if (d) { check_dump(d, len, want, nw); free(d); sym_reach("selected"); } else sym_assert(fail_at >= 0 && nalloc > fail_at && len == 0, "a dump fails only when memory is short"); } }
  fail_at = -1; check_all(); sym_reach("end"); finish(); }
#elif H_MODE == 3
/* the limit on the number of prefixes */
static void full(void) { bighash = 1; char p[16]; for (int i = 0; i < 9998; i++) { int n = snprintf(p, sizeof p, "p%d", i); if (stats_prefix_insert(p, n)) sym_fail("an insert is refused below the limit"); } sym_assert(ovf == 0, "no overflow below the limit"); int n0 = 9998;
  for (int s = 0; s < 3; s++) { int o = sym_choose(4, "step"), c = stats_prefix_count(), was = ovf; sym_assert(c == n0, "the number of prefixes"); int n = snprintf(p, sizeof p, "q%d:x", s);
    if (o == 0) { stats_prefix_record_set(p, n); } else if (o == 1) { int r = stats_prefix_insert(p, n - 2); if (n0 + 1 < 10000) sym_assert(r == 0, "an insert is accepted below the limit"); else sym_assert(r == -1, "an insert at the limit is refused"); } else if (o == 2) { int r = stats_prefix_delete("p5", 2); sym_assert(r == (n0 == 9998 + (s > 0 ? s : 0) ? 0 : r), "delete"); if (r == 0) n0--; sym_assert(stats_prefix_count() == n0, "the number of prefixes"); continue; } else { stats_prefix_record_set("p7:z", 4); sym_assert(ovf == was, "an existing prefix is counted at the limit"); continue; }
    if (n0 < 10000) n0++; sym_assert(ovf == was + (n0 >= 10000), "reaching the limit is reported"); if (n0 >= 10000) sym_reach("full"); sym_assert(!held, "the statistics lock is released"); }
  int len, want[1]; token_t t = {(char *)"p7", 2}; char *d = stats_prefix_dump(&t, 1, &len); sym_assert(d != NULL, "a dump"); free(d);
  if (n0 != 10000 || ovf != 1) { sym_reach("end"); return; } d = stats_prefix_dump(NULL, 0, &len); int lines = 0; for (int i = 0; i < len; i++) if (d[i] == '\n') lines++; sym_assert(lines == n0 + 1, "the dump lists every prefix"); free(d); (void)want; sym_reach("end"); }
#endif
#else
/* ---- genhash and topkeys ---- */
int h_hash(const void *p, size_t n) { return (int)hashof(p, n); }
#if H_MODE == 10
/* hot keys: the list of the most recently used keys, newest first */
static const char *K[] = {"k", "kk", "q", "k2", "z"}; enum { NC = 4 };
static struct { int k; unsigned c[NC]; rel_time_t ct, at; } L[8]; static int nl, seen; static rel_time_t now; static int maxk;
static void add(const char *key, const uint16_t klen, const char *val, const uint32_t vlen, const void *cookie) {
  sym_assert(cookie == (void *)&nl, "the caller's cookie"); if (seen >= nl) { sym_fail("the report lists a key that is not tracked"); return; } int i = seen++; const char *k = K[L[i].k]; sym_assert(klen == strlen(k) && memcmp(key, k, klen) == 0, "the tracked keys are the most recently used ones, newest first");
  char exp[260]; int n = snprintf(exp, sizeof exp, "get_hits=%u,get_misses=%u,cmd_set=%u,incr_hits=0,incr_misses=0,decr_hits=0,decr_misses=0,delete_hits=0,delete_misses=%u,evictions=0,cas_hits=0,cas_misses=0,cas_badval=0,ctime=%u,atime=%u", L[i].c[0], L[i].c[1], L[i].c[2], L[i].c[3], now - L[i].ct, now - L[i].at);
  sym_assert(vlen == (uint32_t)n && memcmp(val, exp, n) == 0, "the counters of a hot key are exact"); }
static void use(topkeys_t *tk, int k, int op) {
  const char *key = K[k]; size_t nk = strlen(key); if (op == 0) { TK(tk, get_hits, key, nk, now) } else if (op == 1) { TK(tk, get_misses, key, nk, now) } else if (op == 2) { TK(tk, cmd_set, key, nk, now) } else { TK(tk, delete_misses, key, nk, now) }
  int i; for (i = 0; i < nl; i++) if (L[i].k == k) break; __typeof__(L[0]) e; memset(&e, 0, sizeof e); if (i < nl) e = L[i]; else { e.k = k; e.ct = now; if (nl == maxk) { i = nl - 1; sym_reach("pushed out"); } else i = nl++; } e.at = now; memmove(&L[1], &L[0], i * sizeof L[0]); e.c[op]++; L[0] = e; }
static void top(void) {
  maxk = 1 + sym_choose(H_MAX, "max"); topkeys_t *tk = topkeys_init(maxk); sym_assert(tk != NULL, "a tracker"); 
  for (int s = 0; s < H_STEPS; s++) { now += 3; int k = sym_choose(H_NK, "key"); use(tk, k, (s + k) & 3); }
  now += 5; seen = 0; sym_assert(topkeys_stats(tk, &nl, now, add) == ENGINE_SUCCESS, "the report succeeds"); sym_assert(seen == nl, "the report lists every tracked key once"); sym_reach("end"); topkeys_free(tk); free(tk); sym_assert(sym_heap_live(0) == 0, "freeing the tracker frees everything"); }
#elif H_MODE == 11
/* counters of any size are reported whole */
static uint32_t VAL[15];
static void addbig(const char *key, const uint16_t klen, const char *val, const uint32_t vlen, const void *cookie) {
  (void)cookie; sym_assert(klen == 1 && *key == 'k', "the key"); static const char *N[15] = {"get_hits", "get_misses", "cmd_set", "incr_hits", "incr_misses", "decr_hits", "decr_misses", "delete_hits", "delete_misses", "evictions", "cas_hits", "cas_misses", "cas_badval", "ctime", "atime"};
  char exp[600]; int n = 0; for (int i = 0; i < 15; i++) n += snprintf(exp + n, sizeof exp - n, "%s%s=%u", i ? "," : "", N[i], VAL[i]); sym_assert(vlen == (uint32_t)n, "the report of a key has the length it announces"); if (vlen == (uint32_t)n) sym_assert(memcmp(val, exp, n) == 0, "counters are reported whole"); sym_reach("end"); }
static void big(void) { topkeys_t *tk = topkeys_init(2); static const uint32_t C[] = {1, 9999, 1234567, 2147483647}; topkey_item_t *t = topkeys_item_get_or_create(tk, "k", 1, 7); rel_time_t n = 7 + C[sym_choose(4, "age")]; uint32_t a = C[sym_choose(4, "a")], b = C[sym_choose(4, "b")]; int cut = sym_choose(14, "cut"); for (int i = 0; i < 13; i++) VAL[i] = i < cut ? a : b; VAL[13] = VAL[14] = n - 7;
  t->get_hits = VAL[0]; t->get_misses = VAL[1]; t->cmd_set = VAL[2]; t->incr_hits = VAL[3]; t->incr_misses = VAL[4]; t->decr_hits = VAL[5]; t->decr_misses = VAL[6]; t->delete_hits = VAL[7]; t->delete_misses = VAL[8]; t->evictions = VAL[9]; t->cas_hits = VAL[10]; t->cas_misses = VAL[11]; t->cas_badval = VAL[12]; topkeys_stats(tk, NULL, n, addbig); }
#else
/* the hash map: entries of one key form a stack (store pushes, delete pops, update changes the newest) */
static const char *K[] = {"a", "bb", "b"}; static struct { int k; int v; size_t nv; } G[8]; static int ng, live, itn; static int dup_on;
static int eq(const void *a, size_t n, const void *b, size_t m) { return n == m && !memcmp(a, b, n); }
static int hf(const void *p, size_t n) { return (int)hashof(p, n); }
static void *dupv(const void *v, size_t n) { live++; int *p = malloc(n); memcpy(p, v, n); return p; } static void freev(void *v) { live--; free(v); }
static void *dupk(const void *k, size_t n) { live++; char *p = malloc(n); memcpy(p, k, n); return p; }
static int top_of(int k) { for (int i = ng - 1; i >= 0; i--) if (G[i].k == k) return i; return -1; }
static void gone(int i) { memmove(&G[i], &G[i + 1], (--ng - i) * sizeof G[0]); }
static int hitmask; static void it(const void *key, size_t nk, const void *val, size_t nv, void *arg) { int f = *(int *)arg; itn++; for (int i = 0; i < ng; i++) if (!(hitmask >> i & 1) && strlen(K[G[i].k]) == nk && !memcmp(K[G[i].k], key, nk) && *(int *)val == G[i].v && (f < 0 || f == G[i].k)) { hitmask |= 1 << i; sym_assert(nv == G[i].nv, "an entry reports the size of its value"); return; } sym_fail("the iteration reports an entry that is not stored"); }
static void *upd(const void *k, const void *old, size_t *ns, void *arg) { (void)k; int *p = malloc(8); p[0] = *(const int *)old + *(int *)arg; p[1] = 0; *ns = 8; return p; }
static void gh(void) {
  struct hash_ops o = {hf, eq, 0, 0, 0, 0}; dup_on = sym_choose(2, "dup"); if (dup_on) { o.dupKey = dupk; o.freeKey = freev; o.dupValue = dupv; o.freeValue = freev; } static int vals[16]; int nv = 0; hmul = 0xC0000001u;
  sym_assert(genhash_init(0, o) == NULL, "an estimate below one is refused"); genhash_t *h = genhash_init(H_STEPS == 4 ? 1 : 14, o); sym_assert(h != NULL, "a hash map");
  for (int s = 0; s < H_STEPS; s++) { int op = sym_choose(H_OPS, "op"), k = sym_choose(3, "key"), t = top_of(k); const char *key = K[k]; size_t nk = strlen(key); int *v = &vals[nv]; vals[nv++] = 100 + s; vals[nv] = 0;
    if (op == 0) { genhash_store(h, key, nk, v, 4); G[ng].k = k; G[ng].v = *v; G[ng++].nv = 4; }
    else if (op == 1) { enum update_type r = genhash_update(h, key, nk, v, 8); nv++; sym_assert(r == (t >= 0 ? MODIFICATION : NEW), "update reports whether the key was there"); if (t >= 0) { G[t].v = *v; G[t].nv = 8; sym_reach("modified"); } else { G[ng].k = k; G[ng].v = *v; G[ng++].nv = 8; } }
    else if (op == 2) { int r = genhash_delete(h, key, nk); sym_assert(r == (t >= 0), "delete reports whether the key was there"); if (t >= 0) gone(t); }
    else if (op == 3) { int c = 0; while ((t = top_of(k)) >= 0) { gone(t); c++; } sym_assert(genhash_delete_all(h, key, nk) == c, "delete_all reports how many entries it removed"); if (c > 1) sym_reach("several"); }
    else if (op == 4) { genhash_clear(h); ng = 0; }
    else if (dup_on) { int plus = 7, def = 1; enum update_type r = genhash_fun_update(h, key, nk, upd, free, &plus, &def, 4); sym_assert(r == (t >= 0 ? MODIFICATION : NEW), "update reports whether the key was there"); if (t >= 0) { G[t].v += 7; G[t].nv = 8; } else { G[ng].k = k; G[ng].v = 8; G[ng++].nv = 8; } } }
  for (int k = 0; k < 3; k++) { int t = top_of(k), c = 0, f = k; for (int i = 0; i < ng; i++) c += G[i].k == k; int *v = genhash_find(h, K[k], strlen(K[k])); sym_assert((v != NULL) == (t >= 0), "a key is found exactly when it is stored"); if (v && t >= 0) sym_assert(*v == G[t].v, "the newest value of the key is found"); sym_assert(genhash_size_for_key(h, K[k], strlen(K[k])) == c, "the number of entries of a key"); itn = hitmask = 0; genhash_iter_key(h, K[k], strlen(K[k]), it, &f); sym_assert(itn == c, "every entry of a key is visited once"); }
  int f = -1; itn = hitmask = 0; genhash_iter(h, it, &f); sym_assert(itn == ng, "every entry is visited once"); sym_assert(genhash_size(h) == ng, "the number of entries"); sym_reach("end"); genhash_free(h); sym_assert(live == 0, "every copied key and value is freed"); sym_assert(sym_heap_live(0) == 0, "freeing the map frees everything"); }
#endif
#endif
void harness(void) {
#if H_MODE < 10
  stats_prefix_init(':', 
#if H_MODE == 3
  overflow
#else
  overflow
#endif
  );
#endif
#if H_MODE == 0
  ops();
#elif H_MODE == 1
  keys();
#elif H_MODE == 2
  hist();
#elif H_MODE == 3
  full();
#elif H_MODE == 10
  top();
#elif H_MODE == 11
  big();
#else
  gh();
#endif
}

/* Two or three threads use the per-prefix statistics (stats_prefix.c) or one hot-key tracker (topkeys.c) at the same time:
 * the report afterwards is that of some order of the uses. */
#include "config.h"
#include "sym.h"
#include <stdio.h>
#include <stdlib.h>
#include <assert.h>
#include "memcached.h"
#include "topkeys.h"
#include "stats_prefix.h"
void symp_explore(int); int symp_self(void); int symp_held(int); void symp_fine(int);
#ifndef H_PRE
#define H_PRE 2
#endif
#define NT 2
#define NR 2
#ifndef H_R2
#define H_R2 1
#endif
static int rq[NT][NR]; static const int cnt[NT] = {NR, H_R2};
#if H_MODE == 0
static pthread_mutex_t sl; void LOCK_STATS(void) { pthread_mutex_lock(&sl); } void UNLOCK_STATS(void) { pthread_mutex_unlock(&sl); }
uint32_t mc_hash(const void *k, size_t n, const uint32_t iv) { (void)iv; uint32_t h = 17; for (size_t i = 0; i < n; i++) h = h * 31 + ((const unsigned char *)k)[i]; return h; }
static void one(char p, int q) { char k[8] = {p, ':', 'k', 0}; char other[8] = {p, 'x', ':', 'k', 0};
  switch (q) { case 0: stats_prefix_record_get(k, 3, true); break; case 1: stats_prefix_record_get(k, 3, false); break; case 2: stats_prefix_record_set(k, 3); break; case 3: stats_prefix_record_lop_insert(k, 3, true); break; case 4: stats_prefix_record_set(other, 4); break; case 5: stats_prefix_insert(k, 1); break; case 6: { int len; char *d = stats_prefix_dump(NULL, 0, &len); if (d) free(d); break; } case 7: stats_prefix_record_bop_get(k, 3, false); break; case 8: stats_prefix_delete(k, 1); break; }
  sym_assert(!symp_held(symp_self()), "a use gives the lock back"); }
#define NOP 9
static char cp; static void *client(void *a) { int t = (int)(intptr_t)a; for (int i = 0; i < cnt[t]; i++) one(cp, rq[t][i]); return NULL; }
static int report(char p, char *out) { int n = 0; char pn[3] = {p, 'x', 0}; for (int k = 1; k <= 2; k++) { token_t tk; memset(&tk, 0, sizeof tk); tk.value = pn; tk.length = k; int len = 0; char *d = stats_prefix_dump(&tk, 1, &len); if (!d) { sym_fail("report"); return 0; } for (int i = 0; i < len && n < 2000; i++) out[n++] = d[i] == p ? '*' : d[i]; free(d); } n += snprintf(out + n, 20, "%d", stats_prefix_count()); return n; }
static char ref[6][2100], fin[2100]; static int rn[6], nord;
static void orders(int a, int b, int *seq, int n) {
  if (n == NR + H_R2) { char p = 'a'; stats_prefix_clear(); int u[NT] = {0, 0}; for (int i = 0; i < n; i++) one(p, rq[seq[i]][u[seq[i]]++]); rn[nord] = report(p, ref[nord]); nord++; return; }
  if (a < NR) { seq[n] = 0; orders(a + 1, b, seq, n + 1); } if (b < H_R2) { seq[n] = 1; orders(a, b + 1, seq, n + 1); } }
void harness(void) {
  pthread_mutex_init(&sl, NULL); stats_prefix_init(':', NULL); for (int t = 0; t < NT; t++) for (int i = 0; i < cnt[t]; i++) rq[t][i] = sym_choose(NOP, "use");
  int seq[8]; orders(0, 0, seq, 0); stats_prefix_clear(); cp = 'a'; pthread_t th[NT]; for (int t = 0; t < NT; t++) pthread_create(&th[t], NULL, client, (void *)(intptr_t)t);
  symp_fine(1); symp_explore(H_PRE); for (int t = 0; t < NT; t++) pthread_join(th[t], NULL); symp_explore(0); symp_fine(0);
  int n = report(cp, fin), ok = 0; for (int k = 0; k < nord && !ok; k++) ok = rn[k] == n && memcmp(ref[k], fin, n) == 0;
  sym_assert(ok, "the statistics are those of some order of the uses"); stats_prefix_clear(); sym_reach("end"); }
#else
static topkeys_t *TKS[8]; static const char *K[] = {"k", "q", "zz"};
static void one(topkeys_t *tk, int q);
static void nostat(const char *k, const uint16_t kl, const char *v, const uint32_t vl, const void *c) { (void)k; (void)kl; (void)v; (void)vl; (void)c; }
static void one(topkeys_t *tk, int q) { const char *k = K[q % 3]; size_t n = strlen(k); if (q < 3) { TK(tk, get_hits, k, n, 100) } else if (q < 6) { TK(tk, cmd_set, k, n, 100) } else topkeys_stats(tk, NULL, 100, nostat); sym_assert(!symp_held(symp_self()), "a use gives the lock back"); }
#define NOP 7
static topkeys_t *ctk; static void *client(void *a) { int t = (int)(intptr_t)a; for (int i = 0; i < cnt[t]; i++) one(ctk, rq[t][i]); return NULL; }
static char *rp; static int rl; static void keep(const char *k, const uint16_t kl, const char *v, const uint32_t vl, const void *c) { (void)c; if (rl + kl + vl > 2000) sym_fail("report"); memcpy(rp + rl, k, kl); rl += kl; memcpy(rp + rl, v, vl); rl += vl; }
static int report(topkeys_t *tk, char *out) { rp = out; rl = 0; topkeys_stats(tk, NULL, 100, keep); return rl; }
static char ref[6][2100], fin[2100]; static int rn[6], nord, maxk;
static void orders(int a, int b, int *seq, int n) {
  if (n == NR + H_R2) { topkeys_t *tk = topkeys_init(maxk); int u[NT] = {0, 0}; for (int i = 0; i < n; i++) one(tk, rq[seq[i]][u[seq[i]]++]); rn[nord] = report(tk, ref[nord]); topkeys_free(tk); nord++; return; }
  if (a < NR) { seq[n] = 0; orders(a + 1, b, seq, n + 1); } if (b < H_R2) { seq[n] = 1; orders(a, b + 1, seq, n + 1); } }
void harness(void) {
  maxk = 1 + sym_choose(2, "tracked"); for (int t = 0; t < NT; t++) for (int i = 0; i < cnt[t]; i++) rq[t][i] = sym_choose(NOP, "use");
  int seq[8]; orders(0, 0, seq, 0); ctk = topkeys_init(maxk); pthread_t th[NT]; for (int t = 0; t < NT; t++) pthread_create(&th[t], NULL, client, (void *)(intptr_t)t);
  symp_fine(1); symp_explore(H_PRE); for (int t = 0; t < NT; t++) pthread_join(th[t], NULL); symp_explore(0); symp_fine(0);
  int n = report(ctk, fin), ok = 0; for (int k = 0; k < nord && !ok; k++) ok = rn[k] == n && memcmp(ref[k], fin, n) == 0;
  sym_assert(ok, "the tracker holds what some order of the uses gives"); topkeys_free(ctk); sym_reach("end"); }
#endif

/* The cluster hash ring (cluster_config.c): node sets, listing orders, reconfiguration histories, memory failures, and the hash of the
   asked key (any 32-bit value) are inputs. The oracle computes the owner from the points alone. */
#include "config.h"
#include "sym.h"
#include "pth.h"
#include <stdlib.h>
#include <stdio.h>
#include "cluster_config.h"
#ifndef H_ADD
#define H_ADD 2
#endif
#ifndef H_FAILS
#define H_FAILS 2
#endif
#ifndef H_MODE
#define H_MODE 0
#endif
#undef malloc
#undef realloc
#undef calloc
extern void *malloc(size_t); extern void *realloc(void *, size_t); extern void *calloc(size_t, size_t);
static long fail_at = -1, nalloc;
static int failing(void) { return nalloc++ == fail_at; }
void *h_malloc(size_t n) { return failing() ? NULL : malloc(n); }
void *h_realloc(void *p, size_t n) { return failing() ? NULL : realloc(p, n); }
void *h_calloc(size_t a, size_t b) { return failing() ? NULL : calloc(a, b); }
static const char *l_name(void) { return "n"; }
static void l_log(EXTENSION_LOG_LEVEL s, const void *c, const char *f, ...) { }
static EXTENSION_LOGGER_DESCRIPTOR LG = {.get_name = l_name, .log = l_log};
#ifndef H_NN
#define H_NN 4
#endif
static char names[16][64]; static int layout; static uint32_t keyhash;
/* point pp (0..159) of node i */
static uint32_t point(int i, int pp) {
  switch (layout) {
  case 0: { uint32_t x = (uint32_t)(i * 160 + pp + 1) * 2654435761u; x ^= x >> 15; return x * 2246822519u; } /* spread */
  case 1: return (uint32_t)(pp % 8) * 0x20000000u + (uint32_t)(i & 1) * 0x1000u;                /* nodes share points, points repeat within a node */
  case 2: return pp < 80 ? 0xFFFFFFFFu - (uint32_t)(pp % 3) * (i + 1) : (uint32_t)(pp % 2) * 0x80000000u + (uint32_t)i * 3u; /* at the ends of the ring */
  default: return 0x10000000u * (uint32_t)(i + 1) + (uint32_t)(pp % 2) * 0x80000000u; } }
static int dec(const unsigned char *p, unsigned n) { int v = 0; for (unsigned i = 0; i < n; i++) { if (p[i] < '0' || p[i] > '9') return -1; v = v * 10 + p[i] - '0'; } return v; }
void h_md5(const unsigned char *p, unsigned n, unsigned char *d) {
  for (int i = 0; i < H_NN; i++) { unsigned l = strlen(names[i]); if (n > l + 1 && memcmp(p, names[i], l) == 0 && p[l] == '-') { int hh = dec(p + l + 1, n - l - 1); sym_assert(hh >= 0 && hh < 40, "40 digests per node"); for (int k = 0; k < 4; k++) { uint32_t v = point(i, hh * 4 + k); d[4 * k] = v; d[4 * k + 1] = v >> 8; d[4 * k + 2] = v >> 16; d[4 * k + 3] = v >> 24; } return; } }
  sym_assert(n == 3 && memcmp(p, "key", 3) == 0, "the digest of the key text or of a node name with its number"); d[0] = keyhash; d[1] = keyhash >> 8; d[2] = keyhash >> 16; d[3] = keyhash >> 24; memset(d + 4, 0xA5, 12); }
static int members(int set, int *out) { int n = 0; for (int i = 0; i < H_NN; i++) if (set & (1 << i)) out[n++] = i; return n; }
static int reconf(struct cluster_config *c, int set, int order, int *added, int *removed) {
  int m[16], n = members(set, m); char *s[16]; char buf[16][80]; for (int i = 0; i < n; i++) { int j = order == 0 ? i : order == 1 ? n - 1 - i : (i + 1) % n; strcpy(buf[i], names[m[j]]); if ((i + order) & 1) strcat(buf[i], "-host-x"); s[i] = buf[i]; }
  return cluster_config_reconfigure(c, s, n, added, removed); }
/* names sort as n0 < n1 < ...; node ids of a set are its members in name order */
static void ask(struct cluster_config *c, int set, int self, uint32_t *who) {
  int m[16], n = members(set, m); bool mine = 0; uint32_t kid = 99, sid = 99; int r = cluster_config_key_is_mine(c, "key", 3, &mine, &kid, &sid); int selfid = -1; for (int i = 0; i < n; i++) if (m[i] == self) selfid = i;
  sym_assert(r == 0, "a key has an owner"); kid = sym_conc(kid); sym_assert(kid < (uint32_t)n, "the owner is a node of the set"); if (kid >= (uint32_t)n) return; sym_assert((int)sid == selfid && cluster_config_get_self_id(c) == selfid, "the own id is the position of the own name"); sym_assert((mine != 0) == ((int)kid == selfid), "mine exactly if this node owns the key"); *who = m[kid];
}
static uint32_t pts[16 * 160]; static int np;
static int cmp32(const void *a, const void *b) { uint32_t x = *(const uint32_t *)a, y = *(const uint32_t *)b; return x < y ? -1 : x > y; }
static void oracle(int set, uint32_t who) { /* the node has the first point at or after the hash */
  int m[16], n = members(set, m); np = 0; for (int i = 0; i < n; i++) for (int p = 0; p < 160; p++) pts[np++] = point(m[i], p); qsort(pts, np, 4, cmp32); int l = 0, r = np; while (l < r) { int mid = (l + r) / 2; if (pts[mid] < keyhash) l = mid + 1; else r = mid; } uint32_t first = pts[l < np ? l : 0]; int has = 0; for (int p = 0; p < 160; p++) has |= point(who, p) == first; sym_assert(has, "the owner has the first ring point at or after the hash of the key"); }
static void counts(int old, int now, int added, int removed) { int a = 0, r = 0; for (int i = 0; i < H_NN; i++) { a += !(old >> i & 1) && (now >> i & 1); r += (old >> i & 1) && !(now >> i & 1); } sym_assert(added == a && removed == r, "the numbers of added and removed nodes"); }
static struct cluster_config *fresh(int set, int self) { struct cluster_config *f = cluster_config_init(names[self], &LG, 0); if (!f || reconf(f, set, 0, NULL, NULL)) sym_fail("a ring is built"); return f; }
#if H_MODE == 0
static void single(void) {
  static const int SETS[] = {1, 6, 13, 15, 10, 8}; layout = H_LAYOUT; int set = SETS[sym_choose(H_NSETS, "set")], order = sym_choose(3, "order"), self = sym_choose(2, "self") * 2, a, r; struct cluster_config *c = cluster_config_init(names[self], &LG, 0); sym_assert(c != NULL, "a ring is built"); sym_assert(reconf(c, set, order, &a, &r) == 0, "a node set is accepted"); counts(0, set, a, r);
  keyhash = sym_u32("keyhash"); uint32_t who = 99; ask(c, set, self, &who); if (who < H_NN) oracle(set, who); sym_reach("end"); cluster_config_final(c); }
#elif H_MODE == 1
static void history(void) {
  layout = H_LAYOUT; int self = 0, set = 0, a, r, everok = 0, valid = 0; struct cluster_config *c = cluster_config_init(names[self], &LG, 0); sym_assert(c != NULL, "a ring is built");
  for (int s = 0; s < H_N; s++) { int ns = sym_choose(1 << H_SETBITS, "set") * H_SETMUL, order = s == H_N - 1 ? sym_choose(2, "order") : s & 1;
#ifdef H_OOM
    fail_at = nalloc + sym_choose(H_FAILS + 1, "fail"); if (fail_at - nalloc >= H_FAILS) fail_at = -1;
#endif
    int rc = reconf(c, ns, order, &a, &r); if (rc == 0) { counts(set, ns, a, r); set = ns; everok = 1; valid = 1; } else { sym_assert(fail_at >= 0 && nalloc > fail_at, "a node set is refused only when memory is short"); valid = 0; sym_reach("oom"); } fail_at = -1; }
  if (!everok) return; keyhash = sym_u32("keyhash"); uint32_t who = 99, who2 = 99;
  if (!valid || !set) { bool mine; uint32_t k, i; sym_assert(cluster_config_key_is_mine(c, "key", 3, &mine, &k, &i) != 0, "without a valid node set no key has an owner"); sym_reach("none"); if (!valid) { if (reconf(c, set, 0, &a, &r)) sym_fail("a node set is accepted"); counts(set, set, a, r); } if (!set) { cluster_config_final(c); return; } }
  ask(c, set, self, &who); if (who < H_NN) oracle(set, who); struct cluster_config *f = fresh(set, self); ask(f, set, self, &who2); sym_assert(who == who2, "the assignment equals that of a freshly built ring"); sym_reach("end"); cluster_config_final(c); cluster_config_final(f); }
#else
/* many nodes: node sets that shrink, grow and turn over completely */
static void many(void) {
  layout = 3; int a, r, n0 = 9 + sym_choose(4, "n0"), s0 = (1 << n0) - 1, drop = sym_choose(n0, "drop"), add = sym_choose(H_ADD, "add") * 2, s1 = ((s0 >> drop) << drop) | (((1 << add) - 1) << n0), self = sym_choose(2, "self") ? 0 : 15; if (!s1) return; struct cluster_config *c = cluster_config_init(names[self], &LG, 0); sym_assert(reconf(c, s0, 0, &a, &r) == 0, "a node set is accepted"); counts(0, s0, a, r); sym_assert(reconf(c, s1, 1, &a, &r) == 0, "a node set is accepted"); counts(s0, s1, a, r);
  keyhash = sym_u32("keyhash"); uint32_t who = 99; ask(c, s1, self, &who); if (who < H_NN) oracle(s1, who); sym_reach("end"); cluster_config_final(c); }
#endif
void harness(void) {
#ifdef H_LONG
  for (int i = 0; i < H_NN; i++) { memset(names[i], 'x', 50); snprintf(names[i] + 50, 10, "%c", 'a' + i); }
#else
  for (int i = 0; i < H_NN; i++) snprintf(names[i], 64, "10.0.0.%c:%d", 'A' + i, 11211);
#endif
#if H_MODE == 0
  single();
#elif H_MODE == 1
  history();
#else
  many();
#endif
}

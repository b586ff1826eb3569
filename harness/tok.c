/* Command and key list tokenizing (mc_util.c). The text is an input; the oracle splits it independently, character by character. */
#include "config.h"
#include "sym.h"
#include <stdlib.h>
#include <stdio.h>
#include <memcached/engine.h>
#include "mc_util.h"
#ifndef H_MODE
#define H_MODE 0
#endif
#ifndef H_LEN
#define H_LEN 10
#endif
#ifndef H_BODY
#define H_BODY 8        /* usable bytes of a memory block */
#endif
#ifndef H_STEPS
#define H_STEPS 3
#endif
#ifndef H_MAXK
#define H_MAXK 5
#endif
#undef malloc
#undef realloc
extern void *malloc(size_t); extern void *realloc(void *, size_t);
static long fail_at = -1, nalloc; static int live;
void *h_malloc(size_t n) { if (nalloc++ == fail_at) return NULL; return malloc(n); }
void *h_realloc(void *p, size_t n) { if (nalloc++ == fail_at) return NULL; return realloc(p, n); }
/* ---- command lines ---- */
static void command(void) {
  int n = sym_choose(H_LEN + 1, "len"); size_t max = 2 + sym_choose(3, "max"); char *buf = malloc(n + 1), orig[H_LEN + 1]; sym__bytes(buf, n, "text"); for (int i = 0; i < n; i++) sym_assume(buf[i] != 0 && buf[i] != '\n'); buf[n] = 0; memcpy(orig, buf, n + 1);
  token_t *t = malloc((max + 1) * sizeof *t); char *p = buf; int left = n, pos = 0, rounds = 0;
  do {
    size_t k = tokenize_command(p, left, t, max); sym_assert(k >= 1 && k <= max, "the number of tokens is within the array"); if (k < 1 || k > max) return;
    for (size_t i = 0; i + 1 < k; i++) { while (pos < n && orig[pos] == ' ') pos++; sym_assert(pos < n, "no token is invented"); if (pos >= n) return; int e = pos; while (e < n && orig[e] != ' ') e++;
      sym_assert(t[i].value == buf + pos, "a token starts where its text starts"); sym_assert(t[i].length == (size_t)(e - pos), "a token has the length of its text"); for (int j = pos; j < e; j++) sym_assert(buf[j] == orig[j], "the text of a token is kept"); sym_assert(buf[e] == 0 , "a token is terminated"); pos = e; }
    sym_assert(t[k - 1].length == 0, "the last token is the terminal token");
    if (t[k - 1].value == NULL) break; sym_reach("more");
    sym_assert(k == max, "the rest is left only when the array is full"); left = (int)t[k].length; p = t[k - 1].value; sym_assert(p >= buf && p + left == buf + n, "the rest of the text is what was not split"); if (p < buf || p + left != buf + n || ++rounds > H_LEN) return;
  } while (1);
  while (pos < n && orig[pos] == ' ') pos++; sym_assert(pos == n, "every token is returned"); free(t); free(buf); sym_reach("end");
}
static void detok(void) {
  static char a[3] = "ab", b[] = "cdef"; token_t t[3] = {{a, 2}, {b, 4}, {a, 1}}; int nt = 1 + sym_choose(3, "nt"), len = sym_choose(13, "len"), need = nt; char ref[16] = "ab cdef a"; for (int i = 0; i < nt; i++) need += t[i].length; char *out = malloc(len ? len : 1); int r = detokenize(t, nt, out, len);
  if (len >= need) { sym_assert(r == need, "the joined length"); sym_assert(memcmp(out, ref, need - 1) == 0 && out[need - 1] == 0, "the tokens are joined by spaces"); sym_reach("joined"); } else { sym_assert(r == -1, "a short buffer is refused"); sym_reach("short"); } free(out);
}
/* ---- key lists ---- */
static int split(const char *s, int n, char d, int cnt, int maxk, int *pos, int *len) { /* 1: exactly cnt tokens */
  int k = 0, st = 0; for (int i = 0; i <= n; i++) if (i == n || s[i] == d) { if (i == st || k >= cnt || i - st > maxk) return 0; pos[k] = st; len[k++] = i - st; st = i + 1; } else if (s[i] == ' ') return 0; return k == cnt; }
static void keys(void) {
  int n = 1 + sym_choose(H_LEN, "len"), cnt = 1 + sym_choose((n + 1) / 2 + 1, "count"); char d = sym_choose(2, "d") ? ',' : ' '; char *s = malloc(n), o[H_LEN]; sym__bytes(s, n, "text"); memcpy(o, s, n); token_t *t = malloc(cnt * sizeof *t); int pos[H_LEN + 1], len[H_LEN + 1];
  int ok = split(s, n, d, cnt, n, pos, len), r = tokenize_keys(s, n, cnt, d, t); sym_assert((r == cnt) == ok && (ok || r == -1), "a key list is accepted exactly when it has the announced number of keys"); if (ok && r == cnt) { for (int i = 0; i < cnt; i++) sym_assert(t[i].value == s + pos[i] && t[i].length == (size_t)len[i], "a token covers its key"); sym_reach("accepted"); } else sym_reach("refused"); sym_assert(memcmp(s, o, n) == 0, "the text is kept"); free(s); free(t);
}
static mblck_pool_t pool; static int nblk;
static int pool_live(void) { int c = 0; for (mblck_node_t *b = pool.head; b; b = b->next) { c++; if (c > 2000) sym_fail("free block list is a cycle"); if (!b->next) sym_assert(pool.tail == b, "tail of the free blocks"); } if (!c) sym_assert(pool.tail == NULL, "tail of the free blocks"); return c; }
static void pool_ok(void) { sym_assert(pool.used_cnt == 0, "all blocks are given back"); sym_assert(pool.free_cnt == (uint32_t)pool_live(), "free blocks are counted"); }
static void blocks(void) {
  static char o[4000]; static int pos[2001], len[2001]; int n, cnt, bc = 1, sb = 0; mblck_list_t l; int init = 1 + sym_choose(3, "blocks");
#ifdef H_MANY
  /* a list long enough that more keys straddle blocks than are collected at once */
  init = 2; static const int K[] = {1, 2, 3, 4, 5}; int l1 = 1 + sym_choose(H_MAXK, "l1"), l2 = 1 + sym_choose(H_MAXK, "l2"), total = H_MANY + 2 * sym_choose(8, "total"); n = 0; int w = sym_choose(2, "odd"), k = 0; while (n < total) { int L = k % 2 ? l1 : l2; if (k == 100 * w) L = 1; for (int i = 0; i < L; i++) o[n++] = 'a' + (k + i) % 26; o[n++] = ' '; k++; } n--; cnt = k + sym_choose(3, "more") - 1; bc = sym_choose(2, "bc"); o[n - 1 - sym_choose(2, "where")] = sym_u8("odd byte");
#else
  sb = sym_choose(2, "ascii"); n = 1 + sym_choose(H_LEN, "len"); cnt = 1 + sym_choose((n + 1) / 2 + 1, "count"); bc = sym_choose(2, "compat"); sym__bytes(o, n, "text");
  if (sb) { sym__bytes(o + n, 2, "end"); n += 2; }
#ifdef H_OOM
  fail_at = sym_choose(8, "fail");
#endif
#endif
  if (mblck_pool_create(&pool, H_BODY + sizeof(void *), init) < 0) { sym_assert(fail_at >= 0, "the pool is created"); sym_assert(pool.head == NULL && pool.free_cnt == 0, "nothing is left of a pool that could not be created"); sym_reach("no pool"); return; }
  pool_ok();
  if (mblck_list_alloc(&pool, 1, n, &l) < 0) { sym_assert(fail_at >= 0, "blocks are allocated"); pool_ok(); fail_at = -1; mblck_pool_destroy(&pool); sym_reach("no blocks"); return; }
  sym_assert(MBLCK_GET_BODYLEN(&l) == H_BODY && MBLCK_GET_NUMBLKS(&l) == (uint32_t)((n - 1) / H_BODY + 1), "a list has room for its items"); 
  mblck_node_t *b = MBLCK_GET_HEADBLK(&l); for (int i = 0; i < n; i++) { if (i && i % H_BODY == 0) b = b->next; MBLCK_GET_BODYPTR(b)[i % H_BODY] = o[i]; } sym_assert(b == MBLCK_GET_TAILBLK(&l) && b->next == NULL, "the list ends with its tail");
  token_t *t = malloc(cnt * sizeof *t); ENGINE_ERROR_CODE r; int m = n, endok = 1;
  if (sb) { m = n - 2; endok = o[m] == '\r' && o[m + 1] == '\n'; r = tokenize_sblocks(&l, n, cnt, H_MAXK, bc, t); } else r = tokenize_mblocks(&l, n, cnt, H_MAXK, bc, t);
  int ok = endok && split(o, m, ' ', cnt, H_MAXK, pos, len); if (!ok && endok && bc) ok = split(o, m, ',', cnt, H_MAXK, pos, len);
  if (r == ENGINE_ENOMEM) { sym_assert(fail_at >= 0, "out of memory only when memory is short"); sym_reach("out of memory"); }
  else { sym_assert((r == ENGINE_SUCCESS) == ok && (ok || r == ENGINE_EBADVALUE), "a key list is accepted exactly when it is well formed"); if (r == ENGINE_SUCCESS && ok) { sym_reach("accepted"); for (int i = 0; i < cnt; i++) { sym_assert(t[i].length == (size_t)len[i], "a key has the length of its text"); if (t[i].length == (size_t)len[i]) { int same = 1; for (int j = 0; j < len[i]; j++) same &= t[i].value[j] == o[pos[i] + j]; sym_assert(same, "a key has the bytes of its text"); } } } else sym_reach("refused"); }
  mblck_list_free(&pool, &l); pool_ok(); 
  /* the blocks can be used again */
  fail_at = -1; if (mblck_list_alloc(&pool, 1, 3 * H_BODY, &l) < 0) sym_fail("blocks are allocated"); mblck_list_free(&pool, &l); pool_ok(); mblck_pool_destroy(&pool); free(t); sym_reach("end");
}
/* ---- pool and token buffer histories ---- */
static void pools(void) {
  mblck_list_t l[3]; int has[3] = {0}, sz[3]; int init = sym_choose(3, "init"), used = 0; sym_assert(mblck_pool_create(&pool, H_BODY + sizeof(void *), init) == 0, "the pool is created");
  for (int s = 0; s < H_STEPS; s++) { int i = sym_choose(3, "which"); if (!has[i]) { int il = 1 + sym_choose(3, "itemlen"), ic = 1 + 4 * sym_choose(3, "items"); uint32_t f = pool.free_cnt; sym_assert(mblck_list_alloc(&pool, il, ic, &l[i]) == 0, "blocks are allocated"); int per = H_BODY / il, nb = (ic + per - 1) / per; sym_assert(l[i].blck_cnt == (uint32_t)nb && l[i].body_len == (uint32_t)(per * il), "a list has room for its items"); has[i] = 1; sz[i] = nb; used += nb; int c = 0; for (mblck_node_t *b = l[i].head; b; b = b->next) { c++; memset(b->data, 'x', H_BODY); if (!b->next) sym_assert(l[i].tail == b, "the list ends with its tail"); } sym_assert(c == nb, "a list has its blocks"); }
    else if (i != 2 && has[2] && sym_choose(2, "merge")) { mblck_list_merge(&l[i], &l[2]); sz[i] += sz[2]; sz[2] = 0; int c = 0; for (mblck_node_t *b = l[i].head; b; b = b->next) c++; sym_assert(c == sz[i] && l[i].blck_cnt == (uint32_t)c, "a merged list has all blocks"); mblck_list_free(&pool, &l[2]); has[2] = 0; sym_reach("merged"); }
    else { mblck_list_free(&pool, &l[i]); has[i] = 0; used -= sz[i]; }
    sym_assert(pool.used_cnt == (uint32_t)used && pool.free_cnt == (uint32_t)pool_live(), "blocks are counted"); }
  for (int i = 0; i < 3; i++) if (has[i]) mblck_list_free(&pool, &l[i]); pool_ok(); mblck_pool_destroy(&pool); sym_reach("end"); }
static void tbuf(void) {
  token_buff_t tb; sym_assert(token_buff_create(&tb, 2) == 0, "token buffer"); static const unsigned C[] = {1, 2, 3, 5002, 5003, 12000}; for (int s = 0; s < 2; s++) { unsigned c = C[sym_choose(6, "cnt")]; fail_at = nalloc + 0 - 1 + sym_choose(2, "tfail"); token_t *t = token_buff_get(&tb, c); if (!t) { sym_assert(fail_at >= 0, "token buffer is enlarged"); fail_at = -1; sym_reach("no tokens"); continue; } fail_at = -1; t[0].length = 1; t[c - 1].length = c; sym_assert(tb.count >= c, "token buffer has the room"); token_buff_release(&tb, t); } token_buff_destroy(&tb); sym_reach("end");
}
void harness(void) { switch (H_MODE) { case 0: command(); break; case 1: detok(); break; case 2: keys(); break; case 3: blocks(); break; case 4: pools(); break; case 5: tbuf(); break; } }

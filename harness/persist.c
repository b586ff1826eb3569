/* Persistence: operations through the engine interface with the persistence build option on, against a file system model; the process dies
   at an arbitrary point (an input), a new engine recovers from the surviving files, and what it then holds is compared with what the first
   engine held after the operations whose records survived. The recovered engine works on, dies and is recovered again. */
#define co_fix(r) pfix(r)
#include "pth.h"
#include <memcached/engine.h>
static ENGINE_ERROR_CODE pfix(ENGINE_ERROR_CODE r);
#include "multi.h"
#include <fcntl.h>
#include <dirent.h>
#include <errno.h>
#include <sys/stat.h>
#include <stdarg.h>
extern void item_clog_set_enable(bool enable);
void symp_kill_others(void);
#define M_TORN 0      /* the log ends at any byte */
#define M_SHUT 1      /* orderly shutdown */
#define M_CRASHAT 2   /* death at any file operation, checkpoints included */
#ifndef H_MODE
#define H_MODE M_TORN
#endif
#ifndef H_KINDS
#define H_KINDS {KV}
#endif
#ifndef H_N
#define H_N 2
#endif
#ifndef H_PRE
#define H_PRE 2
#endif
#ifndef H_POST
#define H_POST 1
#endif
#ifndef H_VL
#define H_VL {3, 10}
#endif
#ifndef H_ASYNC
#define H_ASYNC 0
#endif
#ifndef H_KEYS
#define H_KEYS {"a:x", "b"}
#endif
#ifndef H_OPS
#define H_OPS ~0u
#endif
#ifndef H_POSTOPS
#define H_POSTOPS (1u << O_A)
#endif
#ifndef H_CHKPT
#define H_CHKPT 0      /* how often time passes for a checkpoint */
#endif
#ifndef H_EXP
#define H_EXP 0        /* time between death and recovery */
#endif
#ifndef H_EXPLORE
#define H_EXPLORE 0
#endif
#ifndef H_FAILU
#define H_FAILU 0      /* removing a file fails this many times at most */
#endif
#ifndef H_CRASH0
#define H_CRASH0 0
#endif
#ifndef H_TICKS
#define H_TICKS 0
#endif
#ifndef H_CONC
#define H_CONC 0
#endif
#ifndef H_KNOWN
#define H_KNOWN 0
#endif
#ifndef H_GAP
#define H_GAP 0
#endif
#ifndef H_MAXC
#define H_MAXC 0
#endif
#ifndef H_CUTALL
#define H_CUTALL 0     /* 1: the log may also end inside the records of the preparation */
#endif
#ifndef H_FAILS
#define H_FAILS 0      /* the snapshot write fails this many times at most */
#endif
#ifndef H_SYMV
#define H_SYMV 1       /* how many bytes of a stored value are inputs */
#endif
/* ---------------- file system ---------------- */
#define NF 12
typedef struct { int used; char name[40]; unsigned char *data; size_t size, cap, synced; } file_t;
static file_t F[NF], IMG[NF]; static int imaged;
static struct { int used, file; size_t off; } FD[64];
static long fsops, crashat = -1; static int frozen; static int torn_, img_acked, img_started;
static int acked, started;
static long h_abs = 1700000000; static long nowdt = 20230101000000LL;
static int failwrites, failunlinks, snapshots;
static int find(const char *p) { for (int i = 0; i < NF; i++) if (F[i].used && strcmp(F[i].name, p) == 0) return i; return -1; }
static void setsize(file_t *f, size_t n) { if (n > f->cap) { size_t c = f->cap ? f->cap * 2 : 512; while (c < n) c *= 2; f->data = realloc(f->data, c); f->cap = c; } }
static void image(int fi, size_t extra) { /* what is on the disk at this moment; of data not yet synchronised any leading part may be there */
  imaged = 1; img_acked = acked; img_started = started;
  for (int i = 0; i < NF; i++) { IMG[i] = F[i]; if (!F[i].used) continue; size_t n = F[i].size; IMG[i].data = malloc(n + 1); memcpy(IMG[i].data, F[i].data, n); IMG[i].cap = n + 1; IMG[i].size = n;
    if (F[i].synced < n) { size_t t = F[i].synced + (size_t)sym_range(0, (int64_t)(n - F[i].synced), "surviving bytes"); IMG[i].size = t; } IMG[i].synced = 0; }
}
static void fsop(void) { if (crashat >= 0 && !imaged && fsops == crashat) image(-1, 0); fsops++; }
int h_open(const char *p, int flags, ...) { int f = find(p); fsop(); if (f < 0) { if (!(flags & O_CREAT)) { errno = ENOENT; return -1; } for (f = 0; f < NF && F[f].used; f++); if (f == NF) sym_fail("too many files"); memset(&F[f], 0, sizeof F[f]); F[f].used = 1; if (strncmp(p, "/d/snapshot_", 12) == 0 && ++snapshots > 1) sym_reach(snapshots > 2 ? "third checkpoint" : "second checkpoint"); if (strlen(p) >= sizeof F[f].name) sym_fail("path too long"); strcpy(F[f].name, p); }
  if (flags & O_TRUNC) F[f].size = F[f].synced = 0; for (int d = 10; d < 64; d++) if (!FD[d].used) { FD[d].used = 1; FD[d].file = f; FD[d].off = 0; return d; } sym_fail("too many open files"); return -1; }
static int okfd(int d) { if (d < 10 || d >= 64 || !FD[d].used) sym_fail("operation on a file that is not open"); return 1; }
int h_close(int d) { okfd(d); FD[d].used = 0; return 0; }
ssize_t h_read(int d, void *b, size_t n) { okfd(d); file_t *f = &F[FD[d].file]; size_t off = FD[d].off; if (off >= f->size) return 0; size_t av = f->size - off; if (av < n) n = sym_conc(av); if (n > f->cap - off) sym_fail("file model"); memcpy(b, f->data + off, n); FD[d].off += n; return (ssize_t)n; }
ssize_t h_write(int d, const void *b, size_t n) { okfd(d); file_t *f = &F[FD[d].file]; if (failwrites && strstr(f->name, "snapshot_")) { failwrites--; sym_reach("snapshot write fails"); errno = ENOSPC; return -1; } fsop(); size_t off = FD[d].off; if (off > f->size) sym_fail("the log is continued beyond its end"); setsize(f, off + n); memcpy(f->data + off, b, n); FD[d].off += n; if (off + n > f->size) f->size = off + n; if (off < f->synced) f->synced = off; return (ssize_t)n; }
off_t h_lseek(int d, off_t o, int w) { okfd(d); file_t *f = &F[FD[d].file]; off_t base = w == SEEK_SET ? 0 : w == SEEK_CUR ? (off_t)FD[d].off : (off_t)f->size; if (base + o < 0) { errno = EINVAL; return -1; } FD[d].off = sym_conc(base + o); return (off_t)FD[d].off; }
int h_fsync(int d) { okfd(d); fsop(); F[FD[d].file].synced = F[FD[d].file].size; return 0; }
int h_ftruncate(int d, off_t n) { okfd(d); fsop(); file_t *f = &F[FD[d].file]; if (n < 0) { errno = EINVAL; return -1; } setsize(f, n); if ((size_t)n < f->size) f->size = n; if (f->size != (size_t)n) sym_fail("a file is made longer by truncation"); if (f->synced > f->size) f->synced = f->size; return 0; }
int h_unlink(const char *p) { int f = find(p); if (f >= 0 && failunlinks && sym_choose(2, "removing fails")) { failunlinks--; sym_reach("a file is not removed"); errno = EACCES; return -1; } fsop(); if (f < 0) { errno = ENOENT; return -1; } for (int d = 10; d < 64; d++) if (FD[d].used && FD[d].file == f) { F[f].name[0] = '?'; return 0; } F[f].used = 0; return 0; }
int h_access(const char *p, int m) { return 0; }
int h_fstat(int d, struct stat *s) { okfd(d); memset(s, 0, sizeof *s); s->st_size = F[FD[d].file].size; return 0; }
static int inDir(const char *name, const char *dir) { size_t n = strlen(dir); return strncmp(name, dir, n) == 0 && name[n] == '/'; }
static struct dirent dent; static int dpos; static char ddir[40];
DIR *h_opendir(const char *p) { strcpy(ddir, p); dpos = 0; return (DIR *)&dpos; }
struct dirent *h_readdir(DIR *d) { while (dpos < NF) { int i = dpos++; if (F[i].used && inDir(F[i].name, ddir)) { memset(&dent, 0, sizeof dent); strcpy(dent.d_name, F[i].name + strlen(ddir) + 1); return &dent; } } return NULL; }
int h_closedir(DIR *d) { return 0; }
int h_scandir(const char *dir, struct dirent ***out, int (*filter)(const struct dirent *), int (*cmp)(const struct dirent **, const struct dirent **)) {
  struct dirent **v = malloc(NF * sizeof *v); int n = 0;
  for (int i = 0; i < NF; i++) if (F[i].used && inDir(F[i].name, dir)) { struct dirent *e = malloc(sizeof *e); memset(e, 0, sizeof *e); strcpy(e->d_name, F[i].name + strlen(dir) + 1); if (filter && !filter(e)) { free(e); continue; } int j = n++; while (j > 0 && strcmp(v[j - 1]->d_name, e->d_name) > 0) { v[j] = v[j - 1]; j--; } v[j] = e; }
  *out = v; return n; }
time_t h_time(time_t *t) { time_t r = (time_t)(h_abs + eng_now); if (t) *t = r; return r; }
int64_t h_nowdt(void) { return nowdt++; }
/* the file the log is written to: the one with the latest date */
static int curlog(file_t *V) { int b = -1; for (int i = 0; i < NF; i++) if (V[i].used && strncmp(V[i].name, "/l/cmdlog_", 10) == 0 && (b < 0 || strcmp(V[i].name, V[b].name) > 0)) b = i; return b; }
/* ---------------- engine ---------------- */
static int boots;
static void pnotify(const void *c, ENGINE_ERROR_CODE s) { eng_notify_cnt++; sym_assert(s == ENGINE_SUCCESS, "the answer after logging is success");
  if (H_MODE == M_CRASHAT) acked++; else { int l = curlog(F); sym_assert(l >= 0 && F[l].synced == F[l].size, "an operation is answered after its log records are on the disk"); } }
#define CFG0 "use_persistence=true;data_path=/d;logs_path=/l;cache_size=1048576;chkpt_interval_min_logsize="
static void boot(void) {
  item_clog_set_enable(false); eng_now = 1000; e_core.notify_io_complete = pnotify; boots++;
  eng_init(H_ASYNC ? CFG0 "0;async_logging=true" : H_CHKPT || H_CONC ? CFG0 "0" : CFG0 "256"); eng_notify_cnt = eng_wait_cnt = 0;
}
static void settle(void) { for (int i = 0; i < 6 && eng_notify_cnt < eng_wait_cnt; i++) symp_tick(); sym_assert(eng_notify_cnt == eng_wait_cnt, "every waiting operation is answered"); }
static ENGINE_ERROR_CODE pfix(ENGINE_ERROR_CODE r) { if (r == ENGINE_EWOULDBLOCK) { sym_assert(eng_wait_cnt > 0, "waiting was announced"); r = ENGINE_SUCCESS; } return r; }
/* the process dies; the files keep what had reached them */
static void die(void) { symp_kill_others(); for (int d = 0; d < 64; d++) FD[d].used = 0; for (int i = 0; i < NF; i++) if (F[i].used && F[i].name[0] == '?') F[i].used = 0; }
/* ---------------- operations ---------------- */
static const char *K[] = H_KEYS; enum { NK = sizeof K / sizeof K[0] };
static const int KINDS[] = H_KINDS; enum { NKI = sizeof KINDS / sizeof KINDS[0] }; static int kind; static const int VL[] = H_VL; enum { NVL = sizeof VL / sizeof VL[0] };
static item_attr *mkattr(item_attr *a, int exp) { memset(a, 0, sizeof *a); a->readable = 1; a->maxbkeyrange.len = BKEY_NULL; a->flags = 9; a->maxcount = H_MAXC; a->ovflaction = H_MAXC ? kind == LIST ? OVFL_TAIL_TRIM : kind == BTREE ? OVFL_SMALLEST_TRIM : 0 : 0; if (exp) a->exptime = eng_now + exp; return a; }
enum { O_A, O_B, O_C, O_D, O_E, O_F, O_G, O_H, O_I, O_J, O_K, O_L, O_M, NOPS };
static int nput; static int extended;
static void op(int q, const char *k) {
  ENGINE_ERROR_CODE r; item_attr a; int nk = strlen(k); uint64_t c, res; int vl = VL[0]; char v[100]; memset(v, 'v', sizeof v); started++; int wait0 = eng_wait_cnt;
  if (q == O_A || q == O_B) vl = VL[sym_choose(NVL, "length")];
  switch (q) {
  case O_A: /* store / insert (creating) */
    if (kind == KV) { for (int i = 0; i < vl && i < H_SYMV; i++) v[i] = (char)sym_u8("value"); r = kv_store(k, nk, OPERATION_SET, v, vl, 5, 0, 0, &c); } else r = co_put(kind, k, nput++, vl, 0, mkattr(&a, 0)); break;
  case O_B: if (kind == KV) { v[0] = '7'; r = kv_store(k, nk, OPERATION_SET, v, 1, 6, eng_now + 50, 0, &c); } else r = co_put(kind, k, nput++, vl, 0, mkattr(&a, 50)); break;
  case O_C: if (kind == KV) r = E->arithmetic(EH, COOKIE, k, nk, true, true, 95, 3, 6, 0, &c, &res, 0); else r = co_create(kind, k, mkattr(&a, 40)); break;
  case O_D: r = E->remove(EH, COOKIE, k, nk, 0, 0); break;
  case O_E: { ENGINE_ITEM_ATTR id = ATTR_EXPIRETIME; memset(&a, 0, sizeof a); a.exptime = eng_now + 70; r = E->setattr(EH, COOKIE, k, nk, &id, 1, &a, 0); break; }
  case O_F: r = E->flush(EH, COOKIE, "a", 1, 0); break;
  case O_G: r = E->flush(EH, COOKIE, NULL, -1, 0); break;
  case O_H: if (kind == KV) r = kv_store(k, nk, OPERATION_APPEND, v, 3, 0, 0, 0, &c); else r = co_del(kind, k, 0, VL[0], 0, 0); break;
  case O_I: if (kind == KV) r = kv_store(k, nk, OPERATION_ADD, "z", 1, 8, 0, 0, &c); else if (kind == SET) r = co_del(kind, k, 1, VL[0], 0, 1); else r = co_del(kind, k, 0, VL[0], 1, 1); break;
  case O_J: if (kind == KV) { r = E->flush(EH, COOKIE, NULL, 0, 0); break; } { ENGINE_ITEM_ATTR id[3] = {ATTR_MAXCOUNT, ATTR_EXPIRETIME, ATTR_OVFLACTION}; memset(&a, 0, sizeof a); a.exptime = eng_now + 60; a.maxcount = 20; a.ovflaction = kind == LIST ? OVFL_HEAD_TRIM : kind == BTREE ? OVFL_LARGEST_TRIM : OVFL_ERROR; r = E->setattr(EH, COOKIE, k, nk, id, 3, &a, 0); break; }
  case O_K: if (kind == KV) { r = kv_store(k, nk, OPERATION_PREPEND, v, 2, 0, 0, 0, &c); break; } { struct elems_result er; r = co_get(kind, k, kind == SET ? 0 : -1, 1, kind == SET, &er); if (r == ENGINE_SUCCESS || r == ENGINE_EWOULDBLOCK) co_release(kind, &er); break; }
  case O_L: if (kind == BTREE) { ENGINE_ITEM_ATTR id = ATTR_MAXBKEYRANGE; memset(&a, 0, sizeof a); uint64_t rng = 15; a.maxbkeyrange.len = 0; memcpy(a.maxbkeyrange.val, &rng, 8); r = E->setattr(EH, COOKIE, k, nk, &id, 1, &a, 0); }
    else if (kind == MAP) { char f = 'a'; field_t fl = {.value = &f, .length = 1}; memcpy(v + 9, "\r\n", 2); r = E->map_elem_update(EH, COOKIE, k, nk, &fl, v, 11, 0); }
    else if (kind == KV) r = E->arithmetic(EH, COOKIE, k, nk, false, false, 1, 0, 0, 0, &c, &res, 0);
    else { eitem *e; r = co_alloc(kind, k, nput++, VL[0], &e); if (r == ENGINE_SUCCESS) r = co_link(kind, k, 0, e, 0, NULL); } break;
  default: if (kind == BTREE) { if (sym_choose(2, "what")) { bkey_range br; co_range(&br, el_bkey(0), el_bkey(0)); eflag_update eu; memset(&eu, 0, sizeof eu); eu.neflag = 3; memset(eu.eflag, 30, 3); memcpy(v + 6, "\r\n", 2); r = E->btree_elem_update(EH, COOKIE, k, nk, &br, &eu, v, 8, 0); } else { bkey_range br; co_range(&br, el_bkey(30), el_bkey(30)); br.to_nbkey = BKEY_NULL; r = E->btree_elem_arithmetic(EH, COOKIE, k, nk, &br, true, true, 95, 7, NULL, &res, 0); } }
    else if (kind == MAP) { eitem *e; r = co_alloc(kind, k, 0, VL[0] + 4, &e); if (r == ENGINE_SUCCESS) r = co_link(kind, k, -1, e, 1, mkattr(&a, 0)); }
    else if (kind == KV) r = co_create(LIST, k, mkattr(&a, 0));
    else { eitem *e; r = co_alloc(kind, k, nput++, VL[0], &e); if (r == ENGINE_SUCCESS) r = co_link(kind, k, 1, e, 0, NULL); } break;
  }
  if (r == ENGINE_EWOULDBLOCK) sym_assert(eng_wait_cnt > wait0, "waiting was announced");
  if (H_MODE == M_CRASHAT && (r != ENGINE_EWOULDBLOCK && eng_wait_cnt == wait0)) acked++;
  if (pfix(r) == ENGINE_SUCCESS && (q == O_E || (q == O_J && kind != KV))) extended = 1;
  if (pfix(r) == ENGINE_SUCCESS) { static const char *L[] = {"op A", "op B", "op C", "op D", "op E", "op F", "op G", "op H", "op I", "op J", "op K", "op L", "op M"}; sym_reach(L[q]); }
}
/* ---------------- what the engine holds ---------------- */
#define STN 900
typedef struct { int n; unsigned char b[STN]; } st_t;
static void p1(st_t *s, int v) { if (s->n >= STN) sym_fail("state too large for the harness"); s->b[s->n++] = (unsigned char)v; }
static void pm(st_t *s, const void *p, int n) { for (int i = 0; i < n; i++) p1(s, ((const unsigned char *)p)[i]); }
static void pexp(st_t *s, rel_time_t e) { uint32_t v = e == 0 || e == (rel_time_t)-1 ? e : (uint32_t)(h_abs + e); pm(s, &v, 4); }
static int notrimmed, refused;
static void state(st_t *s) {
  s->n = 0;
  for (int j = 0; j < NK; j++) {
    int nk = strlen(K[j]); item_attr a; memset(&a, 0, sizeof a); ENGINE_ITEM_ATTR id[2] = {ATTR_EXPIRETIME, ATTR_FLAGS};
    if (E->getattr(EH, COOKIE, K[j], nk, id, 2, &a, 0) != ENGINE_SUCCESS) { p1(s, 0xff); continue; }
    p1(s, a.type); pm(s, &a.flags, 4); pexp(s, a.exptime);
    if (a.type == ITEM_TYPE_KV) { item *it = NULL; if (E->get(EH, COOKIE, &it, K[j], nk, 0) != ENGINE_SUCCESS) sym_fail("a key with attributes has a value"); item_info inf; E->get_item_info(EH, COOKIE, it, &inf); pm(s, &inf.cas, 8); p1(s, inf.nbytes); pm(s, inf.value, inf.nbytes); E->release(EH, COOKIE, it); continue; }
    int k = 0; for (int i = 0; i < NKINDS; i++) if (ETYPE[i] == a.type) k = i;

    ENGINE_ITEM_ATTR ic[6] = {ATTR_COUNT, ATTR_MAXCOUNT, ATTR_OVFLACTION, ATTR_READABLE, ATTR_MAXBKEYRANGE, ATTR_TRIMMED};
    if (E->getattr(EH, COOKIE, K[j], nk, ic, k == BTREE ? 6 : 4, &a, 0) != ENGINE_SUCCESS) sym_fail("attributes of a collection");
    p1(s, a.count); pm(s, &a.maxcount, 4); p1(s, a.ovflaction); p1(s, a.readable); if (k == BTREE) { p1(s, a.maxbkeyrange.len); if (a.maxbkeyrange.len != BKEY_NULL) pm(s, a.maxbkeyrange.val, a.maxbkeyrange.len ? a.maxbkeyrange.len : 8); p1(s, notrimmed ? 0 : a.trimmed); }
    struct elems_result er; ENGINE_ERROR_CODE g = co_get(k, K[j], k == SET ? 0 : -1, 0, 0, &er);
    if (g == ENGINE_EBADBKEY) { bkey_range br; memset(&br, 0, sizeof br); br.from_nbkey = 1; br.to_nbkey = 31; memset(br.to_bkey, 0xff, 31); memset(&er, 0, sizeof er); g = E->btree_elem_get(EH, COOKIE, K[j], nk, &br, NULL, 0, 0, 0, 0, &er, 0); }
    if (g != ENGINE_SUCCESS) { p1(s, 0xee); p1(s, g); continue; }
    int n = (int)er.elem_count; st_t el[2]; int ord[32]; if (n > 32) sym_fail("too many elements for the harness");
    /* elements of sets and maps in the order of their text */
    eitem_info inf[32]; for (int i = 0; i < n; i++) { memset(&inf[i], 0, sizeof inf[i]); E->get_elem_info(EH, COOKIE, ETYPE[k], er.elem_array[i], &inf[i]); int p = i; if (k == SET || k == MAP) while (p > 0) { eitem_info *x = &inf[ord[p - 1]], *y = &inf[i]; int c; if (k == MAP) c = *(char *)x->score - *(char *)y->score; else { int m = x->nbytes < y->nbytes ? x->nbytes : y->nbytes; c = memcmp(x->value, y->value, m); if (!c) c = (int)x->nbytes - (int)y->nbytes; } if (c <= 0) break; ord[p] = ord[p - 1]; p--; } ord[p] = i; }
    (void)el; for (int i = 0; i < n; i++) { eitem_info *x = &inf[ord[i]]; p1(s, x->nbytes); pm(s, x->value, x->nbytes); if (k == MAP) pm(s, x->score, x->nscore); if (k == BTREE) { pm(s, x->score, x->nscore); if (!x->nscore) pm(s, x->score, 8); p1(s, x->neflag); pm(s, x->eflag, x->neflag); } }
    co_release(k, &er);
  }
}
static int same(st_t *a, st_t *b) { return a->n == b->n && memcmp(a->b, b->b, a->n) == 0; }
static st_t S[H_PRE + H_N + 2], now; static size_t L[H_PRE + H_N + 2]; static int nS;
static size_t loglen(void) { int l = curlog(F); return l < 0 ? 0 : F[l].size; }
static void mark(void) { if (!H_ASYNC) settle(); state(&S[nS]); L[nS] = loglen(); nS++; }
static int pickop(unsigned ops) { int m[NOPS], n = 0; for (int i = 0; i < NOPS; i++) if (ops & (1u << i)) m[n++] = i; return m[sym_choose(n, "operation")]; }
static void elapse(int n) { for (int i = 0; i < n; i++) { symp_tick(); } }
#ifdef H_RICH
/* one item of every shape: all attributes, key, value, field, bkey and eflag lengths; then one change of it; the log alone, or a snapshot and the log */
static const int RKL[] = {1, 2, 5, 8, 23}, RBL[] = {0, 1, 7, 16, 31}, REL[] = {0, 1, 7, 31}, RFL[] = {1, 2, 6, 7, 8, 9, 30};
static char rk[40]; static int nk, vl, bl, el, fl; static unsigned char sb;
static void rbkey(unsigned char *b, int i) { if (bl == 0) { uint64_t v = 0x1122334455667700ull + (i ? 0x80 : 0) + sb; memcpy(b, &v, 8); } else { memset(b, 0x5a, bl); b[0] = (unsigned char)(i + 1); if (bl > 2) b[bl - 1] = sb; } }
static void rrange(bkey_range *r, int i, int j) { memset(r, 0, sizeof *r); rbkey(r->from_bkey, i); rbkey(r->to_bkey, j); r->from_nbkey = r->to_nbkey = bl; }
static void rval(char *v, int i, int n) { memset(v, 'a' + i, n); if (n && kind != SET) v[n - 1] = (char)sym_u8("value"); memcpy(v + n, "\r\n", 2); }
static ENGINE_ERROR_CODE rput(int i, int idx, int replace, item_attr *a) {
  eitem *e = NULL; eitem_info inf; ENGINE_ERROR_CODE r;
  switch (kind) {
  case LIST: r = E->list_elem_alloc(EH, COOKIE, rk, nk, vl + 2, &e); break;
  case SET: r = E->set_elem_alloc(EH, COOKIE, rk, nk, vl + 2, &e); break;
  case MAP: r = E->map_elem_alloc(EH, COOKIE, rk, nk, fl, vl + 2, &e); break;
  default: r = E->btree_elem_alloc(EH, COOKIE, rk, nk, bl, el, vl + 2, &e); break;
  }
  if (r != ENGINE_SUCCESS) return r;
  E->get_elem_info(EH, COOKIE, ETYPE[kind], e, &inf); rval((char *)inf.value, i, vl);
  if (kind == MAP) { memset((void *)inf.score, 'f', fl); *(char *)inf.score = 'a' + i; }
  if (kind == BTREE) { rbkey((unsigned char *)inf.score, i); if (el) { memset((void *)inf.eflag, 3 + i, el); ((unsigned char *)inf.eflag)[el - 1] = sym_u8("eflag"); } }
  r = co_link(kind, rk, idx, e, replace, a); if (r == ENGINE_EBKEYOOR) refused = 1; return r;
}
static ENGINE_ERROR_CODE rset(ENGINE_ITEM_ATTR *id, int n, item_attr *a) { ENGINE_ERROR_CODE r = pfix(E->setattr(EH, COOKIE, rk, nk, id, n, a, 0)); if (r == ENGINE_SUCCESS) sym_reach("setattr"); return r; }
/* range deletions: both directions, with filters of all shapes, counts and offsets, by deletion and by reading with deletion */
static void rdel(ENGINE_ERROR_CODE *r) {
  bkey_range br; eflag_filter ef; uint32_t n, cost; bool dr; int f = el ? sym_choose(4, "filter") : 0, rev = sym_choose(2, "reversed"), drop = sym_choose(2, "drop"), by = sym_choose(nk == 5 ? 4 : 2, "how"); memset(&ef, 0, sizeof ef);
  rrange(&br, rev, !rev); ef.compop = COMPARE_OP_EQ; ef.ncompval = 1; ef.compvcnt = 1; ef.compval[0] = 3; ef.nbitwval = 0; ef.bitwop = BITWISE_OP_MAX;
  if (f == 1 && el == 1) ef.compval[0] = sym_u8("filter value"); if (f == 2) { ef.bitwop = BITWISE_OP_AND; ef.nbitwval = 1; ef.bitwval[0] = 6; ef.compop = COMPARE_OP_NE; ef.compval[0] = 2; } if (f == 3) { ef.offset = el > 1 ? el - 2 : 0; ef.ncompval = el > 1 ? 2 : 1; ef.compvcnt = el > 1 ? 2 : 1; memset(ef.compval, 4, 4); }
  if (by < 2) *r = E->btree_elem_delete(EH, COOKIE, rk, nk, &br, f ? &ef : NULL, by, drop, &n, &cost, &dr, 0);
  else { struct elems_result er; memset(&er, 0, sizeof er); *r = E->btree_elem_get(EH, COOKIE, rk, nk, &br, f ? &ef : NULL, by == 3, by == 3, 1, drop, &er, 0); if (pfix(*r) == ENGINE_SUCCESS) co_release(BTREE, &er); }
  if (f && pfix(*r) == ENGINE_SUCCESS) sym_reach("filtered range deletion");
}
static void rchange(void) {
  item_attr a; memset(&a, 0, sizeof a); ENGINE_ERROR_CODE r = ENGINE_FAILED; uint64_t c; char v[64]; uint32_t n = 0, cost; bool dr = 0; bkey_range br;
  switch (sym_choose(9, "change")) {
  case 0: return;
  case 1: { ENGINE_ITEM_ATTR id = ATTR_EXPIRETIME; a.exptime = sym_choose(2, "never") ? 0 : eng_now + 300 + sym_u8("new exptime"); r = rset(&id, 1, &a); break; }
  case 2: { if (kind == KV) { r = pfix(kv_store(rk, nk, OPERATION_APPEND, "tail", 4, 0, 0, 0, &c)); break; } ENGINE_ITEM_ATTR id[2] = {ATTR_MAXCOUNT, ATTR_OVFLACTION}; a.maxcount = 7; a.ovflaction = kind == LIST ? OVFL_HEAD_TRIM : kind == BTREE ? OVFL_LARGEST_SILENT_TRIM : OVFL_ERROR; r = rset(id, 2, &a); break; }
  case 3: { if (kind == KV) { r = pfix(kv_store(rk, nk, OPERATION_REPLACE, "n", 1, 1, 0, 0, &c)); break; } ENGINE_ITEM_ATTR id = ATTR_READABLE; a.readable = 1; r = rset(&id, 1, &a); break; }
  case 4: if (kind == KV) { r = pfix(E->remove(EH, COOKIE, rk, nk, 0, 0)); break; }
    if (kind == LIST) r = E->list_elem_delete(EH, COOKIE, rk, nk, 0, 0, 0, &n, &dr, 0); else if (kind == SET) { rval(v, 0, vl); r = E->set_elem_delete(EH, COOKIE, rk, nk, v, vl + 2, 0, &dr, 0); } else if (kind == MAP) { char f[40]; memset(f, 'f', fl); f[0] = 'a'; field_t q = {.value = f, .length = fl}; r = E->map_elem_delete(EH, COOKIE, rk, nk, 1, &q, 0, &n, &dr, 0); } else { rrange(&br, 0, 0); if (sym_choose(2, "single") == 0) br.to_nbkey = BKEY_NULL; r = E->btree_elem_delete(EH, COOKIE, rk, nk, &br, NULL, 0, 0, &n, &cost, &dr, 0); } break;
  case 5: if (kind == LIST) r = E->list_elem_delete(EH, COOKIE, rk, nk, 0, -1, 1, &n, &dr, 0); else if (kind == MAP) r = E->map_elem_delete(EH, COOKIE, rk, nk, 0, NULL, 0, &n, &dr, 0); else if (kind == BTREE) { rdel(&r); } else return; break;
  case 6: rval(v, 9, 6); if (kind == MAP) { char f[40]; memset(f, 'f', fl); f[0] = 'a'; field_t q = {.value = f, .length = fl}; r = E->map_elem_update(EH, COOKIE, rk, nk, &q, v, 8, 0); } else if (kind == BTREE) { rrange(&br, 0, 0); br.to_nbkey = BKEY_NULL; eflag_update eu; memset(&eu, 0, sizeof eu); eu.neflag = 5; memset(eu.eflag, 30, 5); r = E->btree_elem_update(EH, COOKIE, rk, nk, &br, sym_choose(2, "eflag") ? &eu : NULL, v, 8, 0); } else if (kind == LIST) r = rput(2, 0, 0, NULL); else return; break;
  case 7: if (kind != BTREE) return; { ENGINE_ITEM_ATTR id = ATTR_MAXBKEYRANGE; memset(a.maxbkeyrange.val, 0xff, MAX_BKEY_LENG); a.maxbkeyrange.len = bl; r = rset(&id, 1, &a); break; }
  default: if (kind == KV || kind == SET) return; r = rput(0, -1, 1, NULL); break;
  }
  if (pfix(r) == ENGINE_SUCCESS) sym_reach("changed");
}
void harness(void) {
  kind = KINDS[sym_choose(NKI, "kind")]; boot(); item_attr a; memset(&a, 0, sizeof a); a.readable = 1; a.maxbkeyrange.len = BKEY_NULL; uint64_t c; char v[64]; ENGINE_ERROR_CODE r;
  int dim = sym_choose(2, "what varies"); nk = 5; vl = 3; el = 2; fl = 3; bl = 0; sb = sym_u8("bkey byte") & 15;
  a.flags = sym_u32("flags"); a.exptime = eng_now + 300 + sym_u8("exptime");
  if (dim) { nk = RKL[sym_choose(5, "key length")]; vl = sym_choose(kind == BTREE ? 4 : kind == SET ? 8 : 9, "value length") + (kind == SET); if (kind == MAP) fl = RFL[sym_choose(7, "field length")]; if (kind == BTREE) { bl = RBL[sym_choose(5, "bkey length")]; el = REL[sym_choose(4, "eflag length")]; } }
  else { if (sym_choose(2, "never expires")) a.exptime = 0; if (kind != KV) { static const int MC[] = {0, 1, 9000}; a.maxcount = MC[sym_choose(3, "maxcount")]; static const int LO[] = {OVFL_ERROR, OVFL_HEAD_TRIM, OVFL_TAIL_TRIM}, BO[] = {OVFL_ERROR, OVFL_SMALLEST_TRIM, OVFL_LARGEST_TRIM, OVFL_SMALLEST_SILENT_TRIM, OVFL_LARGEST_SILENT_TRIM}; if (kind == LIST) a.ovflaction = LO[sym_choose(3, "overflow")]; if (kind == BTREE) { bl = sym_choose(2, "binary") ? 4 : 0; a.ovflaction = BO[sym_choose(5, "overflow")]; } } }
  memset(rk, 'k', nk); rk[nk] = 0; if (nk > 2) rk[1] = ':'; K[0] = rk;
  if (kind == KV) { rval(v, 0, vl); r = pfix(kv_store(rk, nk, OPERATION_SET, v, vl, a.flags, a.exptime, 0, &c)); }
  else if (sym_choose(2, "created apart")) { a.readable = dim ? 1 : sym_choose(2, "readable"); r = pfix(co_create(kind, rk, &a)); if (r == ENGINE_SUCCESS) r = rput(0, 0, 0, NULL); }
  else r = rput(0, 0, 0, &a);
  sym_assert(r == ENGINE_SUCCESS, "the item is stored");
  if (kind != KV) { settle(); (void)rput(1, -1, 0, NULL); }
  settle(); sym_assert(loglen() % 8 == 0, "records are aligned to eight bytes");
  int snap = H_CHKPT ? sym_choose(2, "snapshot") : 0; if (snap) elapse(6);
  rchange(); settle(); sym_assert(loglen() % 8 == 0, "records are aligned to eight bytes");
  if (snap == 0 && H_CHKPT && sym_choose(2, "late snapshot")) { elapse(6); snap = 1; }
  if (snap) sym_reach("snapshot taken");
  notrimmed = refused && !H_KNOWN; state(&S[0]); die(); h_abs += (long)eng_now - 1000; boot(); state(&now);
#ifdef H_DEBUG
  if (!same(&now, &S[0])) { sym_printv("got", now.n); for (int i = 0; i < now.n; i++) sym_printv(" ", now.b[i]); sym_printv("want", S[0].n); for (int i = 0; i < S[0].n; i++) sym_printv(" ", S[0].b[i]); }
#endif
  if (refused && H_KNOWN) sym_assert(same(&now, &S[0]), "the trimmed mark that a refused insertion leaves is recovered");
  sym_assert(same(&now, &S[0]), "replaying the records gives the item they describe"); sym_reach("end");
}
#else
void harness(void) {
  kind = KINDS[sym_choose(NKI, "kind")];
  boot(); nS = 0; mark();
  int pre = H_CUTALL ? sym_choose(H_PRE + 1, "prepared") : H_PRE; for (int i = 0; i < pre; i++) { op(i == 1 && NK > 1 && kind == KV ? O_B : O_A, K[0]); mark(); }
  int base = H_CUTALL ? 0 : nS - 1;
#if H_MODE == M_CRASHAT
  fsops = 0; crashat = H_CRASH0 + sym_choose(H_CRASHN, "dies at"); acked = started = nS - 1; failwrites = H_FAILS ? sym_choose(H_FAILS + 1, "snapshot write failures") : 0; failunlinks = H_FAILU;
#endif
  for (int i = 0; i < H_N; i++) {
    int q = pickop(H_OPS); const char *k = K[sym_choose(NK, "key")]; if (H_EXP) eng_now += 1;
#if H_EXPLORE && H_MODE != M_SHUT
    symp_explore(H_EXPLORE);
#endif
#if H_CONC
    if (i == H_N - 1) elapse(sym_choose(H_CONC, "ticks before")); /* a preemption in the last of them leaves the checkpoint unfinished while the operation runs */
#endif
    op(q, k);
#if H_CHKPT
    if (i < H_CHKPT) elapse(6);
#endif
    if (H_TICKS && sym_choose(2, "flusher runs")) symp_tick();
    symp_explore(0); mark();
  }
#if H_CHKPT
  if (sym_choose(2, "time passes")) { elapse(6); sym_reach("time passes"); }
#endif
  int last = nS - 1, want = last, lo = last;
#if H_MODE == M_TORN
  { int l = curlog(F); size_t t = (size_t)sym_range((int64_t)L[base], (int64_t)L[last], "bytes of the log that survive"); want = base; while (want < last && t >= L[want + 1]) want++; if (t < L[last]) sym_reach("log cut"); if (t != L[want]) sym_reach("log cut inside an operation"); die(); F[l].size = t; F[l].synced = 0; lo = want; }
#elif H_MODE == M_SHUT
  if (H_EXP && sym_choose(2, "long gap")) { eng_now += H_EXP; state(&S[last]); sym_reach("gap"); } /* what is expired by the time of the recovery is not recovered */
  if (!sym_choose(H_ASYNC ? 1 : 2, "kind of end")) { if (H_EXPLORE) { symp_wake_sleepers(1); symp_explore(H_EXPLORE); } E->destroy(EH); symp_explore(0); symp_wake_sleepers(0); sym_reach("orderly shutdown"); } die();
#else
#ifdef H_DEBUG
  sym_printv("fsops", fsops);
#endif
  if (!imaged) { image(-1, 0); img_acked = acked; } else sym_reach("dies on the way"); die(); memcpy(F, IMG, sizeof F); for (int i = 0; i < NF; i++) if (F[i].used && F[i].name[0] == '?') F[i].used = 0; crashat = -1; lo = img_acked; want = img_started; failwrites = failunlinks = 0;
#endif
  h_abs += (long)eng_now - 1000 + H_GAP;
  boot(); state(&now);
  int ok = 0; for (int i = lo; i <= want && i <= last; i++) ok |= same(&now, &S[i]);
#ifdef H_DEBUG
  if (!ok) { sym_printv("got", now.n); for (int i = 0; i < now.n; i++) sym_printv(" ", now.b[i]); for (int j = lo; j <= want; j++) { sym_printv("want", S[j].n); for (int i = 0; i < S[j].n; i++) sym_printv(" ", S[j].b[i]); } }
#endif
  if (!ok && H_EXP && NK == 1 && extended && now.n == 1 && now.b[0] == 0xff) { if (H_KNOWN) sym_assert(0, "an item whose lifetime was extended by setattr survives a recovery after its former expiry"); sym_end(); }
  sym_assert(ok, "after recovery the cache holds exactly what the completely logged operations left");
  sym_reach("recovered");
  /* the recovered server works on, dies with everything on the disk, and is recovered again */
  for (int i = 0; i < H_POST; i++) { op(pickop(H_POSTOPS), K[0]); if (!H_ASYNC) settle(); }
#if H_CHKPT
  if (H_POST) elapse(6);
#endif
  if (H_POST) { state(&S[0]); if (H_ASYNC) E->destroy(EH); die(); h_abs += (long)eng_now - 1000 + H_GAP; boot(); state(&now);
#ifdef H_DEBUG
  if (!same(&now, &S[0])) { sym_printv("got", now.n); for (int i = 0; i < now.n; i++) sym_printv(" ", now.b[i]); sym_printv("want", S[0].n); for (int i = 0; i < S[0].n; i++) sym_printv(" ", S[0].b[i]); }
#endif
    sym_assert(same(&now, &S[0]), "what was logged after a recovery is recovered again"); sym_reach("recovered again"); }
  sym_reach("end");
}
#endif

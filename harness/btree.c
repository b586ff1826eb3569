/* B+tree histories against a sorted array of (bkey, eflag, value).  Bkeys of the operated elements are arbitrary
   (64-bit or binary), trees are shaped by preloading elements with known bkeys. */
#include "eng.h"
#ifndef H_N
#define H_N 2
#endif
#ifndef H_PRES
#define H_PRES {0}
#endif
#ifndef H_ORDERS
#define H_ORDERS {0}
#endif
#ifndef H_CAP
#define H_CAP 24            /* model capacity */
#endif
enum { B_INS = 1, B_UPSERT = 2, B_DEL = 4, B_GET = 8, B_GETDEL = 16, B_COUNT = 32, B_UPD = 64, B_ARITH = 128, B_POS = 256, B_PWG = 512, B_GBP = 1024, B_CREATE = 2048, B_INSNEW = 4096, B_KV = 8192, B_DELALL = 16384, B_HOLD = 32768, B_ATTR = 65536 };
#ifndef H_OPS
#define H_OPS (B_INS | B_UPSERT | B_DEL | B_GET | B_GETDEL | B_COUNT | B_UPD)
#endif
#ifndef H_VERIFY
#define H_VERIFY 3          /* 1: contents 2: positions */
#endif
typedef struct { unsigned char b[32]; uint8_t nb; unsigned char f[4]; uint8_t nf; unsigned char v[24]; unsigned nv; } me;
static struct { int present, kv, readable, n, max, ov, trimmed, anytype; bkey_t mbr; me e[H_CAP]; } M;
static const char *KEY = "k"; enum { NK = 1 }; static int vid; static int gbin;
typedef struct { unsigned char b[32]; uint8_t nb; } bk;
#define RNB(n) ((n) ? (n) : 8)
static uint64_t u64(const unsigned char *p) { uint64_t v; memcpy(&v, p, 8); return v; }
static int cmp(const unsigned char *a, int na, const unsigned char *b, int nb) {
  if (na == 0) { uint64_t x = u64(a), y = u64(b); return sym_conc(x < y ? -1 : x > y); }
  int c = memcmp(a, b, na < nb ? na : nb); return c ? c : na - nb;
}
static int lb(const unsigned char *b, int nb) { int l = 0, r = M.n; while (l < r) { int m = (l + r) / 2; if (cmp(M.e[m].b, M.e[m].nb, b, nb) < 0) l = m + 1; else r = m; l = sym_conc(l); r = sym_conc(r); } return l; } /* first element >= b */
static int at(int i, const unsigned char *b, int nb) { if (i < M.n && cmp(M.e[i].b, M.e[i].nb, b, nb) == 0) return sym_conc(1); return 0; }
static void mput(int i, const me *x) { if (M.n >= H_CAP) sym_fail("model capacity"); memmove(&M.e[i + 1], &M.e[i], sizeof(me) * (M.n - i)); M.e[i] = *x; M.n++; }
static void mdel(int i) { memmove(&M.e[i], &M.e[i + 1], sizeof(me) * (M.n - i - 1)); M.n--; }
static void m_new(const item_attr *a) { memset(&M, 0, sizeof M); M.present = 1; M.readable = a->readable == 1; M.max = a->maxcount == 0 ? 4000 : a->maxcount < 0 || a->maxcount > 50000 ? 50000 : a->maxcount; M.ov = a->ovflaction ? a->ovflaction : OVFL_SMALLEST_TRIM; M.mbr.len = BKEY_NULL; }
/* --- generators --- */
static void gen_bk(bk *k, int bin) {
  memset(k, 0, sizeof *k);
  if (bin) {
#ifdef H_BINLEN
    k->nb = H_BINLEN;
#else
#ifndef H_BINMAX
#define H_BINMAX 2
#endif
    k->nb = 1 + sym_choose(H_BINMAX, "nbkey");
#endif
#ifdef H_BINSPAN           /* first and last byte arbitrary, the bytes between fixed */
    for (int i = 0; i < k->nb; i++) k->b[i] = 7 + i; k->b[0] = sym_u8("b0") & 0x81; k->b[k->nb - 1] = sym_u8("bl");
#else
    sym__bytes(k->b, k->nb, "bkey");
#endif
  } else { uint64_t v;
#ifdef H_WIN
    static const uint64_t w[][2] = H_WIN; int i = sym_choose(sizeof w / sizeof *w, "window"); v = sym_range(w[i][0], w[i][1], "bkey");
#else
    v = sym_u64("bkey");
#endif
    memcpy(k->b, &v, 8); }
}
static int gen_bin(void) {
#ifdef H_MIX
  return sym_choose(2, "binary");
#else
  return gbin;
#endif
}
static void gen_range(bkey_range *r) { bk a, b; memset(r, 0, sizeof *r); int bin = gen_bin(); gen_bk(&a, bin); memcpy(r->from_bkey, a.b, 31); r->from_nbkey = a.nb; 
  if (sym_choose(2, "ranged")) { gen_bk(&b, bin); memcpy(r->to_bkey, b.b, 31); r->to_nbkey = b.nb; } else r->to_nbkey = BKEY_NULL; }
static void gen_single(bkey_range *r) { bk a; memset(r, 0, sizeof *r); gen_bk(&a, gen_bin()); memcpy(r->from_bkey, a.b, 31); r->from_nbkey = a.nb; r->to_nbkey = BKEY_NULL; }
static void gen_el(me *x, int bin) { memset(x, 0, sizeof *x); bk k; gen_bk(&k, bin); memcpy(x->b, k.b, 31); x->nb = k.nb;
#ifdef H_EFL
  x->nf = sym_choose(H_EFL + 1, "neflag"); sym__bytes(x->f, x->nf, "eflag");
#endif
  vid++; x->v[0] = '0' + vid / 10 % 10; x->v[1] = '0' + vid % 10; x->nv = 2;
#ifdef H_VALS
  static const char *vs[] = H_VALS; const char *s = vs[sym_choose(sizeof vs / sizeof *vs, "val")]; x->nv = strlen(s); memcpy(x->v, s, x->nv);
#endif
}
static int gen_filter(eflag_filter *f) { memset(f, 0, sizeof *f);
#ifndef H_FILTER
  return 0;
#elif H_FILTER == 1 /* one shape */
  if (!sym_choose(2, "filter")) return 0; f->ncompval = 1; f->compvcnt = 1; f->compop = COMPARE_OP_EQ; f->compval[0] = sym_u8("comp"); return 1;
#else
  if (!sym_choose(2, "filter")) return 0;
  f->offset = sym_choose(3, "foff"); f->compop = sym_choose(6, "compop"); f->ncompval = 1 + sym_choose(2, "ncomp"); f->compvcnt = 1; if (f->compop <= COMPARE_OP_NE) f->compvcnt = 1 + sym_choose(2, "compvcnt");
  sym__bytes(f->compval, f->ncompval * f->compvcnt, "comp"); if (sym_choose(2, "hasbit")) { f->nbitwval = f->ncompval; f->bitwop = sym_choose(3, "bitop"); sym__bytes(f->bitwval, f->nbitwval, "bitw"); }
  return 1;
#endif
}
static int match(const me *x, const eflag_filter *f) {
  if (!f) return 1; if (f->offset + f->ncompval > x->nf) return f->compop == COMPARE_OP_NE;
  unsigned char t[8]; memcpy(t, x->f + f->offset, f->ncompval);
  for (int i = 0; i < f->nbitwval; i++) t[i] = f->bitwop == BITWISE_OP_AND ? t[i] & f->bitwval[i] : f->bitwop == BITWISE_OP_OR ? t[i] | f->bitwval[i] : t[i] ^ f->bitwval[i];
  int c = memcmp(t, f->compval, f->ncompval), in = 0; for (int i = 0; i < f->compvcnt; i++) if (memcmp(t, f->compval + i * f->ncompval, f->ncompval) == 0) in = 1;
  switch (f->compop) { case COMPARE_OP_EQ: return in; case COMPARE_OP_NE: return !in; case COMPARE_OP_LT: return c < 0; case COMPARE_OP_LE: return c <= 0; case COMPARE_OP_GT: return c > 0; default: return c >= 0; }
}
static void mk_attr(item_attr *a) { memset(a, 0, sizeof *a); a->readable = 1;
#ifdef H_MC
  static const int mc[] = H_MC; a->maxcount = mc[sym_choose(sizeof mc / sizeof *mc, "maxcount")];
#endif
#ifdef H_OV
  static const int ov[] = H_OV; a->ovflaction = ov[sym_choose(sizeof ov / sizeof *ov, "ovfl")];
#endif
#ifdef H_UNREAD
  a->readable = sym_choose(2, "readable");
#endif
}
/* --- elements --- */
static eitem *mk(const me *x) {
  eitem *e = NULL; eitem_info inf; ENGINE_ERROR_CODE r = E->btree_elem_alloc(EH, COOKIE, KEY, NK, x->nb, x->nf, x->nv + 2, &e); if (r != ENGINE_SUCCESS) sym_fail("alloc");
  E->get_elem_info(EH, COOKIE, ITEM_TYPE_BTREE, e, &inf); sym_assert(inf.nscore == x->nb && inf.neflag == x->nf && inf.nbytes == x->nv + 2, "an allocated element has the requested sizes");
  memcpy((void *)inf.score, x->b, RNB(x->nb)); if (x->nf) memcpy((void *)inf.eflag, x->f, x->nf); memcpy((char *)inf.value, x->v, x->nv); memcpy((char *)inf.value + x->nv, "\r\n", 2); return e;
}
static void same(eitem *e, const me *x) {
  eitem_info inf; E->get_elem_info(EH, COOKIE, ITEM_TYPE_BTREE, e, &inf);
  sym_assert(inf.nscore == x->nb && memcmp(inf.score, x->b, RNB(x->nb)) == 0, "returned bkeys are the stored ones, in order");
  sym_assert(inf.neflag == x->nf && (!x->nf || memcmp(inf.eflag, x->f, x->nf) == 0), "returned element flags are the stored ones");
  sym_assert(inf.nbytes == x->nv + 2 && memcmp(inf.value, x->v, x->nv) == 0 && memcmp(inf.value + x->nv, "\r\n", 2) == 0, "returned values are the stored ones");
}
static void rel(struct elems_result *er) { E->btree_elem_release(EH, COOKIE, er->elem_array, er->elem_count); free(er->elem_array); }
static struct { eitem **arr; int n; me snap[H_CAP]; } held;
/* --- model of insertion --- */
static int silent(int ov) { return ov == OVFL_SMALLEST_SILENT_TRIM || ov == OVFL_LARGEST_SILENT_TRIM; }
static int small(int ov) { return ov == OVFL_SMALLEST_TRIM || ov == OVFL_SMALLEST_SILENT_TRIM; }
static int exceeds(const me *hi, const me *lo) { /* bkey distance above the maximum bkey range */
  if (M.mbr.len == 0) return u64(hi->b) - u64(lo->b) > u64(M.mbr.val);
  unsigned char d[32]; int bor = 0; for (int i = M.mbr.len - 1; i >= 0; i--) { int x = (i < hi->nb ? hi->b[i] : 0) - (i < lo->nb ? lo->b[i] : 0) - bor; bor = x < 0; d[i] = x; }
  return memcmp(d, M.mbr.val, M.mbr.len) > 0; }
static int bad_type(int nb) { if (M.n > 0) return (M.e[0].nb == 0) != (nb == 0); if (M.mbr.len != BKEY_NULL) return (M.mbr.len == 0) != (nb == 0); return 0; }
/* returns the expected result and updates the model; *tr: element trimmed for the count */
static ENGINE_ERROR_CODE m_insert(const me *x, int upsert, int *replaced, int *tr, me *trim) {
  *replaced = *tr = 0; if (bad_type(x->nb)) return ENGINE_EBADBKEY;
  int i = lb(x->b, x->nb); if (at(i, x->b, x->nb)) { if (!upsert) return ENGINE_ELEM_EEXISTS; *replaced = 1; M.e[i] = *x; sym_reach("replaced"); return ENGINE_SUCCESS; }
  int rangetrim = 0;
  if (M.n && M.mbr.len != BKEY_NULL) {
    if (i == 0 && exceeds(&M.e[M.n - 1], x)) { if (M.ov != OVFL_LARGEST_TRIM && M.ov != OVFL_LARGEST_SILENT_TRIM) { sym_reach("range-refused"); return ENGINE_EBKEYOOR; } rangetrim = 1; }
    else if (i == M.n && exceeds(x, &M.e[0])) { if (!small(M.ov)) { sym_reach("range-refused"); return ENGINE_EBKEYOOR; } rangetrim = 2; }
  }
  if (rangetrim) { mput(i, x); if (rangetrim == 1) while (exceeds(&M.e[M.n - 1], &M.e[0])) mdel(M.n - 1); else while (exceeds(&M.e[M.n - 1], &M.e[0])) mdel(0); if (!silent(M.ov)) M.trimmed = 0; sym_reach("range-trim"); return ENGINE_SUCCESS; }
  if (M.n >= M.max) {
    if (M.ov == OVFL_ERROR) { sym_reach("overflow"); return ENGINE_EOVERFLOW; }
    if (small(M.ov) ? i == 0 : i == M.n) { if (!silent(M.ov)) M.trimmed = 1; sym_reach("oor"); return ENGINE_EBKEYOOR; }
    mput(i, x); int t = small(M.ov) ? 0 : M.n - 1; *trim = M.e[t]; *tr = 1; mdel(t); if (!silent(M.ov)) M.trimmed = 1; sym_reach("trim"); return ENGINE_SUCCESS;
  }
  mput(i, x); return ENGINE_SUCCESS;
}
/* elements of a range: indices a..b-1, and direction */
typedef struct { int a, b, asc, single, below, above; } span;
static span m_span(const bkey_range *r) { span s; memset(&s, 0, sizeof s); int tn = r->to_nbkey; const unsigned char *lo = r->from_bkey, *hi = r->to_bkey; int nlo = r->from_nbkey, nhi = tn; int c = tn == BKEY_NULL ? 0 : cmp(r->from_bkey, r->from_nbkey, r->to_bkey, tn);
  if (c == 0) { s.single = s.asc = 1; s.a = lb(r->from_bkey, r->from_nbkey); s.b = s.a + at(s.a, r->from_bkey, r->from_nbkey); s.below = s.a == 0 && s.b == 0; s.above = s.a == M.n; return s; }
  s.asc = c < 0; if (!s.asc) { lo = r->to_bkey; nlo = tn; hi = r->from_bkey; nhi = r->from_nbkey; }
  s.a = lb(lo, nlo); int h = lb(hi, nhi); s.b = h + at(h, hi, nhi);
  s.below = M.n && cmp(lo, nlo, M.e[0].b, M.e[0].nb) < 0; s.above = M.n && cmp(hi, nhi, M.e[M.n - 1].b, M.e[M.n - 1].nb) > 0; return s; }
/* selects what a get/delete over the span takes, in the order it is returned; *stopped: ended by the count */
static int m_pick(span s, const eflag_filter *f, int offset, uint32_t count, int *idx, int *stopped) { int n = 0, skip = 0; *stopped = 0;
  for (int j = 0; j < s.b - s.a; j++) { int i = s.asc ? s.a + j : s.b - 1 - j; if (!match(&M.e[i], f)) continue; if (skip < offset) { skip++; continue; } idx[n++] = i; if (count && n >= count) { *stopped = 1; break; } } return n; }
static void m_remove(const int *idx, int n) { unsigned char k[H_CAP]; memset(k, 0, sizeof k); for (int j = 0; j < n; j++) k[idx[j]] = 1; int w = 0; for (int i = 0; i < M.n; i++) if (!k[i]) { if (w != i) M.e[w] = M.e[i]; w++; } M.n = w; }
static int m_oor(span s, int stopped) { if (!M.trimmed) return 0; if (s.single) return M.ov == OVFL_SMALLEST_TRIM ? s.below : M.ov == OVFL_LARGEST_TRIM ? s.above : 0;
  if (M.ov == OVFL_SMALLEST_TRIM) return s.below && (s.asc || !stopped); if (M.ov == OVFL_LARGEST_TRIM) return s.above && (!s.asc || !stopped); return 0; }
static void check_attr(void) {
  ENGINE_ITEM_ATTR id[8] = {ATTR_COUNT, ATTR_MAXCOUNT, ATTR_OVFLACTION, ATTR_READABLE, ATTR_MAXBKEYRANGE, ATTR_MINBKEY, ATTR_MAXBKEY, ATTR_TRIMMED}; item_attr a; memset(&a, 0, sizeof a); ENGINE_ERROR_CODE r = E->getattr(EH, COOKIE, KEY, NK, id, 8, &a, 0);
  if (M.n == 0) { r = E->getattr(EH, COOKIE, KEY, NK, id, 5, &a, 0); }
  sym_assert(r == ENGINE_SUCCESS && a.count == M.n && a.maxcount == M.max && a.ovflaction == M.ov && a.readable == M.readable, "attributes of the b+tree");
  sym_assert(a.count <= a.maxcount, "the element count stays within the maximum"); sym_assert(a.maxbkeyrange.len == M.mbr.len && (M.mbr.len == BKEY_NULL || memcmp(a.maxbkeyrange.val, M.mbr.val, RNB(M.mbr.len)) == 0), "maximum bkey range attribute");
  if (M.n) { sym_assert(a.trimmed == M.trimmed, "trimmed attribute"); sym_assert(a.minbkey.len == M.e[0].nb && memcmp(a.minbkey.val, M.e[0].b, RNB(M.e[0].nb)) == 0 && a.maxbkey.len == M.e[M.n - 1].nb && memcmp(a.maxbkey.val, M.e[M.n - 1].b, RNB(M.e[M.n - 1].nb)) == 0, "smallest and largest bkey attributes"); }
}
static void check_all(void) {
  struct elems_result er; ENGINE_ERROR_CODE r; bkey_range w; memset(&w, 0, sizeof w); int bin = M.present && M.n && M.e[0].nb; uint64_t mx = ~0ull;
  if (bin) { w.from_nbkey = 1; w.to_nbkey = 31; memset(w.to_bkey, 0xff, 31); } else memcpy(w.to_bkey, &mx, 8);
  for (int d = 0; d < 2; d++) {
    memset(&er, 0, sizeof er); if (d) { bkey_range t = w; memcpy(w.from_bkey, t.to_bkey, 31); memcpy(w.to_bkey, t.from_bkey, 31); w.from_nbkey = t.to_nbkey; w.to_nbkey = t.from_nbkey; }
    r = E->btree_elem_get(EH, COOKIE, KEY, NK, &w, NULL, 0, 0, false, false, &er, 0);
    if (!M.present) { sym_assert(r == ENGINE_KEY_ENOENT, "get on an absent key"); return; } if (M.kv) { sym_assert(r == ENGINE_EBADTYPE, "get on an item of another type"); return; }
    if (!M.readable) { sym_assert(r == ENGINE_UNREADABLE, "an unreadable collection cannot be read"); break; } if (M.n == 0) { sym_assert(r == ENGINE_ELEM_ENOENT, "get on an empty b+tree"); break; }
    sym_assert(r == ENGINE_SUCCESS && er.elem_count == (uint32_t)M.n, "a full-range get returns every element"); for (int i = 0; i < M.n; i++) same(er.elem_array[i], &M.e[d ? M.n - 1 - i : i]); rel(&er); }
  if ((H_VERIFY & 2) && M.readable) for (int i = 0; i < M.n; i++) { memset(&er, 0, sizeof er); r = E->btree_elem_get_by_posi(EH, COOKIE, KEY, NK, BTREE_ORDER_ASC, i, i, &er, 0); sym_assert(r == ENGINE_SUCCESS && er.elem_count == 1, "get by position"); same(er.elem_array[0], &M.e[i]); rel(&er); }
  check_attr();
}
static int gate(ENGINE_ERROR_CODE r, int read) { if (!M.present) { sym_assert(r == ENGINE_KEY_ENOENT, "an operation on an absent key reports not found"); return 0; } if (M.kv) { sym_assert(r == ENGINE_EBADTYPE, "an operation on an item of another type is refused"); return 0; } if (read && !M.readable) { sym_assert(r == ENGINE_UNREADABLE, "an unreadable collection cannot be read"); sym_reach("unreadable"); return 0; } return 1; }
static int gate2(ENGINE_ERROR_CODE r, int nb, int enoent_first) { if (M.n == 0) { sym_assert(r == ENGINE_ELEM_ENOENT, "an empty b+tree has no element"); return 0; } if ((M.e[0].nb == 0) != (nb == 0)) { sym_assert(r == ENGINE_EBADBKEY, "a bkey of the other type is refused"); sym_reach("badbkey"); return 0; } return 1; }
static void expect_ins(const me *x, int upsert, ENGINE_ERROR_CODE r, int was, bool cr, bool rp, const eitem_result *t) {
  int replaced, tr; me trim; ENGINE_ERROR_CODE want = m_insert(x, upsert, &replaced, &tr, &trim); sym_assert(r == want, "result of an insert"); if (want == ENGINE_SUCCESS) { sym_assert(cr == !was && rp == replaced, "insert reports creation and replacement"); sym_reach("ins"); }
  if (t) { sym_assert((t->elems != NULL) == tr, "a trimmed element is returned exactly when one was trimmed"); if (tr) { sym_assert(t->count == 1, "one trimmed element"); same(t->elems, &trim); eitem *e = t->elems; E->btree_elem_release(EH, COOKIE, &e, 1); } } }
static void op(int s) {
  int menu[20], nm = 0; for (int b = 0; b < 17; b++) if (H_OPS & (1 << b)) menu[nm++] = 1 << b;
#ifdef H_SEQ
  static const int seq[] = H_SEQ; nm = 0; for (int b = 0; b < 17; b++) if (seq[s] & (1 << b)) menu[nm++] = 1 << b;
#endif
  int o = menu[sym_choose(nm, "op")]; ENGINE_ERROR_CODE r; struct elems_result er; memset(&er, 0, sizeof er); bkey_range R; eflag_filter F; int idx[H_CAP], stopped;
  switch (o) {
  case B_KV: { uint64_t c; r = kv_store(KEY, NK, OPERATION_SET, "x", 1, 0, 0, 0, &c); if (M.present && !M.kv) sym_assert(r == ENGINE_EBADTYPE, "set on a collection"); else { sym_assert(r == ENGINE_SUCCESS, "set"); memset(&M, 0, sizeof M); M.present = M.kv = 1; } break; }
  case B_CREATE: { item_attr a; mk_attr(&a); r = E->btree_struct_create(EH, COOKIE, KEY, NK, &a, 0); if (M.present) sym_assert(r == ENGINE_KEY_EEXISTS, "create on an existing key is refused"); else { sym_assert(r == ENGINE_SUCCESS, "create"); m_new(&a); } break; }
  case B_INS: case B_INSNEW: case B_UPSERT: { me x; gen_el(&x, gen_bin()); item_attr a; if (o == B_INSNEW) mk_attr(&a); bool cr = 0, rp = 0; eitem_result t; memset(&t, 0, sizeof t); int wt = 0;
#ifdef H_GETRIM
    wt = sym_choose(2, "getrim");
#endif
    eitem *e = mk(&x); r = E->btree_elem_insert(EH, COOKIE, KEY, NK, e, o == B_UPSERT, o == B_INSNEW ? &a : NULL, &rp, &cr, wt ? &t : NULL, 0); if (r != ENGINE_SUCCESS) E->btree_elem_free(EH, COOKIE, e);
    int was = M.present; if (!was && o != B_INSNEW) { sym_assert(r == ENGINE_KEY_ENOENT, "insert into an absent collection without attributes"); break; } if (M.kv) { sym_assert(r == ENGINE_EBADTYPE, "insert on an item of another type"); break; }
    if (!was) m_new(&a); expect_ins(&x, o == B_UPSERT, r, was, cr, rp, wt ? &t : NULL); break; }
  case B_UPD: { gen_single(&R); eflag_update u; memset(&u, 0, sizeof u); int wu = 0, wv;
#ifdef H_EFL
    wu = sym_choose(2, "wu");
#endif
    wv = wu ? sym_choose(2, "wv") : 1; vid++; char v[8] = "", nv = 0; if (wv) { nv = 1 + sym_choose(2, "nv"); v[0] = '0' + vid % 10; v[1] = 'u'; memcpy(v + nv, "\r\n", 2); }
    if (wu) { u.bitwop = sym_choose(4, "ubit"); if (u.bitwop < BITWISE_OP_MAX) { u.neflag = 1 + sym_choose(2, "un"); u.offset = sym_choose(3, "uoff"); } else u.neflag = sym_choose(4, "un2"); sym__bytes(u.eflag, u.neflag, "ueflag"); }
    r = E->btree_elem_update(EH, COOKIE, KEY, NK, &R, wu ? &u : NULL, wv ? v : NULL, wv ? nv + 2 : 0, 0); if (!gate(r, 0) || !gate2(r, R.from_nbkey, 1)) break;
    int i = lb(R.from_bkey, R.from_nbkey); if (!at(i, R.from_bkey, R.from_nbkey)) { sym_assert(r == ENGINE_ELEM_ENOENT, "update of an absent element"); break; } me *x = &M.e[i];
    if (wu && u.bitwop < BITWISE_OP_MAX) { if (u.offset + u.neflag > x->nf) { sym_assert(r == ENGINE_EBADEFLAG, "a bitwise update outside the element flag is refused"); sym_reach("badeflag"); break; } for (int j = 0; j < u.neflag; j++) { unsigned char *p = &x->f[u.offset + j]; *p = u.bitwop == BITWISE_OP_AND ? *p & u.eflag[j] : u.bitwop == BITWISE_OP_OR ? *p | u.eflag[j] : *p ^ u.eflag[j]; } }
    else if (wu) { x->nf = u.neflag; memcpy(x->f, u.eflag, u.neflag); }
    if (wv) { x->nv = nv; memcpy(x->v, v, nv); } sym_assert(r == ENGINE_SUCCESS, "update"); sym_reach("upd"); break; }
  case B_ARITH: { gen_single(&R); static const uint64_t ds[] = {1, 10, ~0ull}; uint64_t d = ds[sym_choose(3, "delta")], ini = ds[sym_choose(3, "initial")], res = 0x77; int inc = sym_choose(2, "incr"), create = sym_choose(2, "create"); eflag_t ef; int we = 0; memset(&ef, 0, sizeof ef); ef.len = EFLAG_NULL;
#ifdef H_EFL
    we = create ? sym_choose(2, "we") : 0; if (we) { ef.len = 1; ef.val[0] = sym_u8("ef"); }
#endif
    r = E->btree_elem_arithmetic(EH, COOKIE, KEY, NK, &R, inc, create, d, ini, we ? &ef : create ? &ef : NULL, &res, 0); if (!gate(r, 0)) break; if (bad_type(R.from_nbkey)) { sym_assert(r == ENGINE_EBADBKEY, "a bkey of the other type is refused"); break; }
    int i = lb(R.from_bkey, R.from_nbkey); char nb[32];
    if (!at(i, R.from_bkey, R.from_nbkey)) { if (!create) { sym_assert(r == ENGINE_ELEM_ENOENT, "arithmetic on an absent element"); break; }
      me x; memset(&x, 0, sizeof x); memcpy(x.b, R.from_bkey, 31); x.nb = R.from_nbkey; x.nf = we; x.f[0] = ef.val[0]; x.nv = snprintf(nb, sizeof nb, "%llu", (unsigned long long)ini); memcpy(x.v, nb, x.nv); int rp, tr; me trim; ENGINE_ERROR_CODE want = m_insert(&x, 0, &rp, &tr, &trim); sym_assert(r == want, "arithmetic creating an element inserts it"); if (r == ENGINE_SUCCESS) { sym_assert(res == ini, "the initial value is returned"); sym_reach("arith-create"); } break; }
    me *x = &M.e[i]; unsigned long long v = 0; int ok = x->nv > 0; for (int j = 0; j < x->nv; j++) { if (x->v[j] < '0' || x->v[j] > '9') ok = 0; v = v * 10 + (x->v[j] - '0'); } if (!ok) { sym_assert(r == ENGINE_EINVAL, "arithmetic on a value that is no number is refused"); sym_reach("arith-nan"); break; }
    if (inc) v += d; else v = d >= v ? 0 : v - d; x->nv = snprintf(nb, sizeof nb, "%llu", v); memcpy(x->v, nb, x->nv); sym_assert(r == ENGINE_SUCCESS && res == v, "arithmetic on an element"); sym_reach("arith"); break; }
  case B_DEL: case B_DELALL: { int wf = 0; uint32_t count = 0; int drop = 1;
    if (o == B_DELALL) { memset(&R, 0, sizeof R); uint64_t mx = ~0ull; if (M.n && M.e[0].nb) { R.from_nbkey = 1; R.to_nbkey = 31; memset(R.to_bkey, 0xff, 31); } else memcpy(R.to_bkey, &mx, 8); } else { gen_range(&R); wf = gen_filter(&F);
#ifdef H_DELC
      static const int dc[] = H_DELC; count = dc[sym_choose(sizeof dc / sizeof *dc, "count")];
#endif
      drop = sym_choose(2, "drop"); }
    uint32_t dcnt = 0, cost = 0; bool dr = 0; r = E->btree_elem_delete(EH, COOKIE, KEY, NK, &R, wf ? &F : NULL, count, drop, &dcnt, &cost, &dr, 0); if (!gate(r, 0) || !gate2(r, R.from_nbkey, 1)) break;
    span sp = m_span(&R); int n = m_pick(sp, wf ? &F : NULL, 0, count, idx, &stopped); if (!n) { sym_assert(r == ENGINE_ELEM_ENOENT, "deleting no element reports so"); sym_reach("del-none"); break; }
    sym_assert(r == ENGINE_SUCCESS && dcnt == (uint32_t)n, "delete removes exactly the selected elements"); m_remove(idx, n); sym_assert(dr == (M.n == 0 && drop), "dropping is reported"); if (dr) { memset(&M, 0, sizeof M); sym_reach("dropped"); } sym_reach("del"); break; }
  case B_GET: case B_GETDEL: case B_HOLD: { int del = o == B_GETDEL, drop = 0, wf; gen_range(&R); wf = gen_filter(&F); uint32_t count = 0, offset = 0; 
#ifdef H_GETC
    static const int gc[] = H_GETC; if (o != B_HOLD) { count = gc[sym_choose(sizeof gc / sizeof *gc, "count")]; offset = sym_choose(3, "offset"); }
#endif
    if (del) drop = sym_choose(2, "drop"); r = E->btree_elem_get(EH, COOKIE, KEY, NK, &R, wf ? &F : NULL, offset, count, del, drop, &er, 0); if (!gate(r, 1)) break; if (offset >= M.n) { sym_assert(r == ENGINE_ELEM_ENOENT, "nothing lies behind the last element"); break; } if (!gate2(r, R.from_nbkey, 1)) break;
    span sp = m_span(&R); int n = m_pick(sp, wf ? &F : NULL, offset, count, idx, &stopped), oor = m_oor(sp, stopped); sym_reach(sp.single ? "single" : sp.asc ? "asc" : "desc");
    if (!n) { sym_assert(r == (oor ? ENGINE_EBKEYOOR : ENGINE_ELEM_ENOENT), "getting no element reports so"); if (oor) sym_reach("get-oor"); break; } sym_assert(r == ENGINE_SUCCESS && er.elem_count == (uint32_t)n, "get returns exactly the selected elements");
    for (int j = 0; j < n; j++) same(er.elem_array[j], &M.e[idx[j]]);
    if (!del) { sym_assert(er.trimmed == oor, "get tells whether the range reaches into trimmed elements"); if (oor) sym_reach("get-trimmed"); }
    if (o == B_HOLD && !held.arr) { held.arr = er.elem_array; held.n = n; for (int j = 0; j < n; j++) held.snap[j] = M.e[idx[j]]; sym_reach("hold"); break; }
    if (del) { m_remove(idx, n); sym_assert(er.dropped == (M.n == 0 && drop), "dropping is reported"); if (er.dropped) { memset(&M, 0, sizeof M); sym_reach("dropped"); } sym_reach("getdel"); for (int j = 0; j < n; j++) ; }
    rel(&er); break; }
  case B_COUNT: { int wf; gen_range(&R); wf = gen_filter(&F); uint32_t cnt = 99, cost; r = E->btree_elem_count(EH, COOKIE, KEY, NK, &R, wf ? &F : NULL, &cnt, &cost, 0); if (!gate(r, 1)) break; if (M.n == 0) { sym_assert(r == ENGINE_EBADBKEY || (r == ENGINE_SUCCESS && cnt == 0), "count of an empty b+tree"); break; } if (!gate2(r, R.from_nbkey, 0)) break;
    span sp = m_span(&R); int n = m_pick(sp, wf ? &F : NULL, 0, 0, idx, &stopped); sym_assert(r == ENGINE_SUCCESS && cnt == (uint32_t)n, "count counts the selected elements"); sym_reach("count"); break; }
  case B_POS: { gen_single(&R); int pos = -5, desc = sym_choose(2, "desc"); r = E->btree_posi_find(EH, COOKIE, KEY, NK, &R, desc ? BTREE_ORDER_DESC : BTREE_ORDER_ASC, &pos, 0); if (!gate(r, 1) || !gate2(r, R.from_nbkey, 1)) break;
    int i = lb(R.from_bkey, R.from_nbkey); if (!at(i, R.from_bkey, R.from_nbkey)) { sym_assert(r == ENGINE_ELEM_ENOENT, "position of an absent element"); break; } sym_assert(r == ENGINE_SUCCESS && pos == (desc ? M.n - 1 - i : i), "the position of an element is its rank"); sym_reach("pos"); break; }
  case B_PWG: { gen_single(&R); int pos = -5, desc = sym_choose(2, "desc"), cnt = sym_choose(4, "count"); 
#ifdef H_BIGC
    if (cnt == 3) cnt = H_BIGC;
#endif
    r = E->btree_posi_find_with_get(EH, COOKIE, KEY, NK, &R, desc ? BTREE_ORDER_DESC : BTREE_ORDER_ASC, cnt, &pos, &er, 0); if (!gate(r, 1) || !gate2(r, R.from_nbkey, 1)) break;
    int i = lb(R.from_bkey, R.from_nbkey); if (!at(i, R.from_bkey, R.from_nbkey)) { sym_assert(r == ENGINE_ELEM_ENOENT, "position of an absent element"); break; } int p = desc ? M.n - 1 - i : i, lo = p < cnt ? 0 : p - cnt, hi = p + cnt >= M.n ? M.n - 1 : p + cnt;
    sym_assert(r == ENGINE_SUCCESS && pos == p && er.elem_count == (uint32_t)(hi - lo + 1) && er.opcost_or_eindex == (uint32_t)(p - lo), "position with neighbours: rank, number of elements and index"); for (int j = 0; j <= hi - lo; j++) same(er.elem_array[j], &M.e[desc ? M.n - 1 - (lo + j) : lo + j]); rel(&er); sym_reach("pwg"); break; }
  case B_GBP: { int from = sym_choose(M.n + 2, "from"), to = sym_choose(M.n + 2, "to"), desc = sym_choose(2, "desc");
    r = E->btree_elem_get_by_posi(EH, COOKIE, KEY, NK, desc ? BTREE_ORDER_DESC : BTREE_ORDER_ASC, from, to, &er, 0); if (!gate(r, 1)) break; if (M.n == 0 || (from >= M.n && to >= M.n)) { sym_assert(r == ENGINE_ELEM_ENOENT, "no element at these positions"); break; }
    from = sym_conc(from >= M.n ? M.n - 1 : from); to = sym_conc(to >= M.n ? M.n - 1 : to); int n = (from < to ? to - from : from - to) + 1; sym_assert(r == ENGINE_SUCCESS && er.elem_count == (uint32_t)n, "number of elements between two positions"); for (int j = 0; j < n; j++) { int p = from < to ? from + j : from - j; same(er.elem_array[j], &M.e[desc ? M.n - 1 - p : p]); } rel(&er); sym_reach("gbp"); break; }
  case B_ATTR: { item_attr a; memset(&a, 0, sizeof a); ENGINE_ITEM_ATTR id[1]; int w = sym_choose(3, "attr"); if (w == 0) { id[0] = ATTR_MAXCOUNT; a.maxcount = sym_choose(6, "mc") - 1; } else if (w == 1) { id[0] = ATTR_OVFLACTION; a.ovflaction = sym_choose(8, "oa"); } else { id[0] = ATTR_MAXBKEYRANGE; if (sym_choose(2, "reset")) a.maxbkeyrange.len = BKEY_NULL; else { bk k; gen_bk(&k, gen_bin()); memcpy(a.maxbkeyrange.val, k.b, 31); a.maxbkeyrange.len = k.nb; } }
    item_attr in = a; r = E->setattr(EH, COOKIE, KEY, NK, id, 1, &a, 0); if (!M.present) { sym_assert(r == ENGINE_KEY_ENOENT, "setattr on an absent key"); break; } if (M.kv) break;
    if (w == 0) { int m = in.maxcount == 0 ? 4000 : in.maxcount < 0 ? 50000 : in.maxcount; if (m < M.n) sym_assert(r == ENGINE_EBADVALUE, "a maximum below the current count is refused"); else { sym_assert(r == ENGINE_SUCCESS, "setattr maxcount"); M.max = m; sym_reach("setmax"); } }
    else if (w == 1) { int ok = in.ovflaction == OVFL_ERROR || (in.ovflaction >= OVFL_SMALLEST_TRIM && in.ovflaction <= OVFL_LARGEST_SILENT_TRIM); if (!ok) sym_assert(r == ENGINE_EBADVALUE, "an overflow action of another collection type is refused"); else { sym_assert(r == ENGINE_SUCCESS, "setattr overflowaction"); if (M.ov != in.ovflaction) M.trimmed = 0; M.ov = in.ovflaction; sym_reach("setovfl"); } }
    else { if (in.maxbkeyrange.len != BKEY_NULL && M.n && (M.e[0].nb == 0) != (in.maxbkeyrange.len == 0)) { sym_assert(r == ENGINE_EBADVALUE, "a maximum bkey range of the other type is refused"); break; } bkey_t old = M.mbr; M.mbr = in.maxbkeyrange; if (M.mbr.len != BKEY_NULL && M.n > 1 && exceeds(&M.e[M.n - 1], &M.e[0])) { M.mbr = old; sym_assert(r == ENGINE_EBADVALUE, "a maximum bkey range below the current one is refused"); sym_reach("mbr-refused"); break; } sym_assert(r == ENGINE_SUCCESS, "setattr maxbkeyrange"); sym_reach("setmbr"); }
    break; }
  default: return;
  }
  sym_observe(r);
#ifdef H_EACH
  check_all();
#endif
}
static void preload(const bk *k, int i) { me x; memset(&x, 0, sizeof x); memcpy(x.b, k->b, 31); x.nb = k->nb; x.v[0] = 'a' + i % 26; x.nv = 1;
#ifdef H_PEFL
  x.nf = i % (H_PEFL + 1); for (int j = 0; j < x.nf; j++) x.f[j] = 0x10 * j + i % 4;
#endif
  eitem *e = mk(&x); bool cr, rp; if (E->btree_elem_insert(EH, COOKIE, KEY, NK, e, false, NULL, &rp, &cr, NULL, 0) != ENGINE_SUCCESS) sym_fail("preload insert refused"); int a, b; me t; if (m_insert(&x, 0, &a, &b, &t) != ENGINE_SUCCESS) sym_fail("preload model"); }
void harness(void) {
  eng_init(NULL);
#ifdef H_BIN
  gbin = 1;
#endif
#ifdef H_MK
  { item_attr a; mk_attr(&a); if (E->btree_struct_create(EH, COOKIE, KEY, NK, &a, 0) != ENGINE_SUCCESS) sym_fail("create"); m_new(&a);
    static const int pres[] = H_PRES, ords[] = H_ORDERS; int n = pres[sym_choose(sizeof pres / sizeof *pres, "preload")], od = n > 1 ? ords[sym_choose(sizeof ords / sizeof *ords, "order")] : 0;
    unsigned char used[H_CAP + 1]; memset(used, 0, sizeof used);
    for (int i = 0; i < n; i++) { int j; if (od == 0) j = i; else if (od == 1) j = n - 1 - i; else if (od == 2) j = i % 2 ? n / 2 + (i + 1) / 2 : n / 2 - i / 2; else { j = (i * 7 + 3) % n; } if (j < 0 || j >= n || used[j]) for (j = 0; used[j]; j++) ; used[j] = 1; bk k; memset(&k, 0, sizeof k); if (gbin) { k.nb = 1 + (j & 1); k.b[0] = 10 + 10 * j; k.b[1] = j; } else { uint64_t v = 10 + 10 * j; memcpy(k.b, &v, 8); }
#ifdef H_BINLEN
      k.nb = gbin ? H_BINLEN : 0;
#endif
#ifdef H_SYMPRE
      { bk g; gen_bk(&g, gbin); k = g; int q = lb(k.b, k.nb); sym_assume(!at(q, k.b, k.nb)); }
#endif
      preload(&k, j); }
#ifdef H_PDEL
    { static const int pd[][2] = H_PDEL; int q = sym_choose(sizeof pd / sizeof *pd, "predelete"); if (pd[q][1] >= pd[q][0]) { bkey_range R; memset(&R, 0, sizeof R); uint64_t f = pd[q][0], t = pd[q][1]; memcpy(R.from_bkey, &f, 8); memcpy(R.to_bkey, &t, 8); uint32_t dc, oc; bool dr; ENGINE_ERROR_CODE r = E->btree_elem_delete(EH, COOKIE, KEY, NK, &R, NULL, 0, false, &dc, &oc, &dr, 0); span sp = m_span(&R); int st, idx[H_CAP], c = m_pick(sp, NULL, 0, 0, idx, &st); sym_assert(c ? r == ENGINE_SUCCESS && dc == c : r == ENGINE_ELEM_ENOENT, "predelete"); m_remove(idx, c); } }
#endif
#ifdef H_MBR
    if (sym_choose(2, "mbr")) { ENGINE_ITEM_ATTR id[1] = {ATTR_MAXBKEYRANGE}; item_attr b; memset(&b, 0, sizeof b); bk k; gen_bk(&k, gbin); memcpy(b.maxbkeyrange.val, k.b, 31); b.maxbkeyrange.len = k.nb; bkey_t m = b.maxbkeyrange; if (E->setattr(EH, COOKIE, KEY, NK, id, 1, &b, 0) != ENGINE_SUCCESS) sym_assume(0); M.mbr = m; sym_reach("mbr"); }
#endif
  }
#endif
  for (int s = 0; s < H_N; s++) op(s);
  if (held.arr) { for (int i = 0; i < held.n; i++) same(held.arr[i], &held.snap[i]); E->btree_elem_release(EH, COOKIE, held.arr, held.n); free(held.arr); sym_reach("held"); }
  check_all(); sym_reach("end");
}

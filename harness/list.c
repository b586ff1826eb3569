/* List histories against an abstract sequence. */
#include "eng.h"
#ifndef H_N
#define H_N 3
#endif
#ifndef H_CAP
#define H_CAP 8
#endif
enum { L_INS = 1, L_DEL = 2, L_GET = 4, L_GETDEL = 8, L_CREATE = 16, L_KV = 32, L_INSNEW = 64 };
#ifndef H_OPS
#define H_OPS (L_INS | L_DEL | L_GET | L_GETDEL)
#endif
static const char *KEY = "k"; enum { NK = 1 };
static struct { int present, kv, readable, ovfl; int n, max; uint32_t flags; unsigned char v[H_CAP]; } M;
static void m_new(uint32_t fl, int max, int ovfl, int readable) { memset(&M, 0, sizeof M); M.present = 1; M.flags = fl; M.max = max == 0 ? 4000 : max < 0 || max > 50000 ? 50000 : max; M.ovfl = ovfl ? ovfl : OVFL_TAIL_TRIM; M.readable = readable; }
static void m_del(int i) { for (; i + 1 < M.n; i++) M.v[i] = M.v[i + 1]; M.n--; }
static void m_ins(int i, unsigned char c) { if (M.n >= H_CAP) sym_fail("harness bound"); for (int j = M.n; j > i; j--) M.v[j] = M.v[j - 1]; M.v[i] = c; M.n++; }
static void mk_attr(item_attr *a) {
  memset(a, 0, sizeof *a); a->flags = sym_u32("flags"); a->exptime = 0;
#ifndef H_MC
#define H_MC {1, 2, 3}
#define H_OV {0, OVFL_ERROR, OVFL_HEAD_TRIM, OVFL_TAIL_TRIM}
#endif
  static const int mc[] = H_MC; a->maxcount = mc[sym_choose(sizeof mc / sizeof *mc, "maxcount")];
  static const int ov[] = H_OV; a->ovflaction = ov[sym_choose(sizeof ov / sizeof *ov, "ovfl")];
  a->readable = 1;
#ifdef H_UNREAD
  a->readable = sym_choose(2, "readable");
#endif
}
/* result elements are exactly model indexes from..to in that direction */
static void check_elems(struct elems_result *res, uint32_t flags, int from, int to) {
  int cnt = from <= to ? to - from + 1 : from - to + 1;
  sym_assert(res->elem_count == (uint32_t)cnt, "as many elements as the index range selects");
  for (int i = 0; i < cnt; i++) { int mi = from <= to ? from + i : from - i; eitem_info e; E->get_elem_info(EH, COOKIE, ITEM_TYPE_LIST, res->elem_array[i], &e);
    sym_assert(e.nbytes == 3 && (unsigned char)e.value[0] == M.v[mi] && e.value[1] == '\r' && e.value[2] == '\n', "the selected elements in the requested direction with their values"); }
}

static int range(int32_t *f, int32_t *t) { if (M.n == 0) return -1; int64_t a = *f, b = *t, n = M.n; if (a < 0) a += n; if (b < 0) b += n; if (a < 0 && b < 0) return -1; if (a >= n && b >= n) return -1; a = a < 0 ? 0 : a >= n ? n - 1 : a; b = b < 0 ? 0 : b >= n ? n - 1 : b; *f = sym_conc((int)a); *t = sym_conc((int)b); return 0; }
static void get_all(void) {
  struct elems_result r; memset(&r, 0, sizeof r);
  ENGINE_ERROR_CODE e = E->list_elem_get(EH, COOKIE, KEY, NK, 0, -1, false, false, &r, 0);
  if (!M.present) sym_assert(e == ENGINE_KEY_ENOENT, "get on an absent list"); else if (M.kv) sym_assert(e == ENGINE_EBADTYPE, "list get on a key-value item");
  else if (!M.readable) sym_assert(e == ENGINE_UNREADABLE, "an unreadable list cannot be read");
  else if (M.n == 0) sym_assert(e == ENGINE_ELEM_ENOENT, "get on an empty list"); else { sym_assert(e == ENGINE_SUCCESS, "get of the whole list"); check_elems(&r, 0, 0, M.n - 1); E->list_elem_release(EH, COOKIE, r.elem_array, r.elem_count); free(r.elem_array); }
  if (M.present && !M.kv) { ENGINE_ITEM_ATTR id[3] = {ATTR_COUNT, ATTR_MAXCOUNT, ATTR_TYPE}; item_attr a; memset(&a, 0, sizeof a); e = E->getattr(EH, COOKIE, KEY, NK, id, 3, &a, 0); sym_assert(e == ENGINE_SUCCESS && a.count == M.n && a.maxcount == M.max && a.type == ITEM_TYPE_LIST, "the count attribute equals the number of elements, the maximum count is kept"); }
}
static void op(int s) {
  int menu[16], nm = 0; for (int b = 0; b < 16; b++) if (H_OPS & (1 << b)) menu[nm++] = 1 << b;
  int o = menu[sym_choose(nm, "op")]; ENGINE_ERROR_CODE r;
  switch (o) {
  case L_KV: { uint64_t c; r = kv_store(KEY, NK, OPERATION_SET, "x", 1, 0, 0, 0, &c); if (M.present && !M.kv) sym_assert(r == ENGINE_EBADTYPE, "set on a list"); else { sym_assert(r == ENGINE_SUCCESS, "set"); memset(&M, 0, sizeof M); M.present = M.kv = 1; } break; }
  case L_CREATE: { item_attr a; mk_attr(&a); r = E->list_struct_create(EH, COOKIE, KEY, NK, &a, 0); if (M.present) sym_assert(r == ENGINE_KEY_EEXISTS, "create on an existing key is refused"); else { sym_assert(r == ENGINE_SUCCESS, "create"); m_new(a.flags, a.maxcount, a.ovflaction, a.readable); } break; }
  case L_INS: case L_INSNEW: { unsigned char c = sym_u8("elem"); int32_t idx = (int32_t)sym_u32("index"); item_attr a; int wa = o == L_INSNEW; if (wa) mk_attr(&a);
    eitem *e = NULL; r = E->list_elem_alloc(EH, COOKIE, KEY, NK, 3, &e); sym_assert(r == ENGINE_SUCCESS, "element allocated"); eitem_info inf; E->get_elem_info(EH, COOKIE, ITEM_TYPE_LIST, e, &inf); ((char *)inf.value)[0] = c; ((char *)inf.value)[1] = '\r'; ((char *)inf.value)[2] = '\n';
    bool created = false; r = E->list_elem_insert(EH, COOKIE, KEY, NK, idx, e, wa ? &a : NULL, &created, 0);
    if (r != ENGINE_SUCCESS) E->list_elem_free(EH, COOKIE, e);
    int wasp = M.present;
    if (!M.present && !wa) { sym_assert(r == ENGINE_KEY_ENOENT, "insert into an absent list without attributes"); break; }
    if (M.kv) { sym_assert(r == ENGINE_EBADTYPE, "list insert on a key-value item"); break; }
    if (!M.present) m_new(a.flags, a.maxcount, a.ovflaction, a.readable);
    int64_t i = idx; int ok = i >= 0 ? i <= M.n && i < M.max : -i <= M.n + 1 && -i <= M.max;
    if (!ok) { sym_assert(r == ENGINE_EINDEXOOR, "an index outside the list is refused"); if (!wasp) memset(&M, 0, sizeof M); sym_reach("oor"); break; }
    if (M.n >= M.max && M.ovfl == OVFL_ERROR) { sym_assert(r == ENGINE_EOVERFLOW, "a full list with the error policy refuses inserts"); sym_reach("overflow"); break; }
    sym_assert(r == ENGINE_SUCCESS, "insert at an index inside the list succeeds"); sym_assert(created == !wasp, "creation is reported");
    int full = M.n >= M.max; int at = sym_conc((int)(i >= 0 ? i : M.n + 1 + i)); int headcut = 0;
    if (full) { headcut = idx == -1 ? 1 : idx == 0 ? 0 : M.ovfl == OVFL_HEAD_TRIM; headcut = sym_conc(headcut); sym_reach(headcut ? "headtrim" : "tailtrim"); }
    /* on overflow the new element takes its place as if nothing were full, then the element at the trimmed end goes */
    if (full && headcut) { m_del(0); at = at > 0 ? at - 1 : 0; } else if (full) { m_del(M.n - 1); if (at > M.n) at = M.n; }
    m_ins(at, c); sym_reach(wasp ? "ins" : "insnew"); break; }
  case L_DEL: { int32_t f = (int32_t)sym_u32("from"), t = (int32_t)sym_u32("to"); int drop = sym_choose(2, "drop"); uint32_t dc = 0; bool dr = false;
    r = E->list_elem_delete(EH, COOKIE, KEY, NK, f, t, drop, &dc, &dr, 0);
    if (!M.present) { sym_assert(r == ENGINE_KEY_ENOENT, "delete on an absent list"); break; } if (M.kv) { sym_assert(r == ENGINE_EBADTYPE, "list delete on a key-value item"); break; }
    if (range(&f, &t) < 0) { sym_assert(r == ENGINE_ELEM_ENOENT, "a range outside the list selects nothing"); break; }
    if (f > t) { int32_t x = f; f = t; t = x; } sym_assert(r == ENGINE_SUCCESS && dc == (uint32_t)(t - f + 1), "delete reports the number of selected elements");
    for (int k = f; k <= t; k++) m_del(f); sym_assert(dr == (M.n == 0 && drop), "drop reported exactly when the list became empty and dropping was asked for"); if (M.n == 0 && drop) { memset(&M, 0, sizeof M); sym_reach("dropped"); } sym_reach("del"); break; }
  case L_GET: case L_GETDEL: { int del = o == L_GETDEL; int32_t f = (int32_t)sym_u32("from"), t = (int32_t)sym_u32("to"); int drop = del ? sym_choose(2, "drop") : 0; 
    struct elems_result er; memset(&er, 0, sizeof er);
    r = E->list_elem_get(EH, COOKIE, KEY, NK, f, t, del, drop, &er, 0);
    if (!M.present) { sym_assert(r == ENGINE_KEY_ENOENT, "get on an absent list"); break; } if (M.kv) { sym_assert(r == ENGINE_EBADTYPE, "list get on a key-value item"); break; }
    if (!M.readable) { sym_assert(r == ENGINE_UNREADABLE, "an unreadable list cannot be read"); sym_reach("unreadable"); break; }
    if (range(&f, &t) < 0) { sym_assert(r == ENGINE_ELEM_ENOENT, "a range outside the list selects nothing"); sym_reach("none"); break; }
    sym_assert(r == ENGINE_SUCCESS, "get of a range inside the list"); check_elems(&er, 0, f, t); sym_reach(f <= t ? "fwd" : "bwd");
    if (del) { int lo = f < t ? f : t, hi = f < t ? t : f; for (int k = lo; k <= hi; k++) m_del(lo); if (M.n == 0 && drop) memset(&M, 0, sizeof M); sym_reach("getdel"); }
    E->list_elem_release(EH, COOKIE, er.elem_array, er.elem_count); free(er.elem_array); break; }
  }
  sym_observe(r);
}
void harness(void) {
  eng_init(NULL);
#ifdef H_PRE
  { item_attr a; mk_attr(&a); if (E->list_struct_create(EH, COOKIE, KEY, NK, &a, 0) != ENGINE_SUCCESS) sym_fail("create"); m_new(a.flags, a.maxcount, a.ovflaction, a.readable);
    
#ifdef H_PRES
    static const int pres[] = H_PRES; int n = pres[sym_choose(sizeof pres / sizeof *pres, "preload")];
#else
    int n = sym_choose(H_PRE + 1, "preload");
#endif
     if (n > M.max) n = M.max; for (int i = 0; i < n; i++) { eitem *e; E->list_elem_alloc(EH, COOKIE, KEY, NK, 3, &e); eitem_info inf; E->get_elem_info(EH, COOKIE, ITEM_TYPE_LIST, e, &inf); unsigned char c = sym_u8("pre"); ((char *)inf.value)[0] = c; memcpy((char *)inf.value + 1, "\r\n", 2); bool cr; if (E->list_elem_insert(EH, COOKIE, KEY, NK, -1, e, NULL, &cr, 0) != ENGINE_SUCCESS) sym_fail("preload"); M.v[M.n++] = c; } }
#endif
  for (int s = 0; s < H_N; s++) op(s);
  get_all(); sym_reach("end");
}

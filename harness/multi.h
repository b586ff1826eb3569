/* Operations on any item type through the engine interface (used by the histories that mix types). */
#ifndef MULTI_H
#define MULTI_H
#include "eng.h"
enum { KV = 0, LIST, SET, MAP, BTREE, NKINDS };
static const int ETYPE[NKINDS] = {ITEM_TYPE_KV, ITEM_TYPE_LIST, ITEM_TYPE_SET, ITEM_TYPE_MAP, ITEM_TYPE_BTREE};
/* element i: list value / set value / map field / bkey derived from i */
static void el_body(char *p, int i, unsigned vl) { memset(p, 'a' + i % 26, vl); memcpy(p + vl, "\r\n", 2); if (vl > 1) p[0] = 'A' + i / 26; }
static uint64_t el_bkey(int i) { return 10 * (uint64_t)(i + 1); }
static ENGINE_ERROR_CODE co_create(int kind, const char *k, item_attr *a) {
  int nk = strlen(k); switch (kind) { case LIST: return E->list_struct_create(EH, COOKIE, k, nk, a, 0); case SET: return E->set_struct_create(EH, COOKIE, k, nk, a, 0); case MAP: return E->map_struct_create(EH, COOKIE, k, nk, a, 0); default: return E->btree_struct_create(EH, COOKIE, k, nk, a, 0); }
}
static int co_trimmed, co_replaced, co_created; static struct elems_result co_tr;
static ENGINE_ERROR_CODE co_alloc(int kind, const char *k, int i, unsigned vl, eitem **ep) {
  int nk = strlen(k); ENGINE_ERROR_CODE r; eitem *e = NULL; eitem_info inf;
  switch (kind) {
  case LIST: r = E->list_elem_alloc(EH, COOKIE, k, nk, vl + 2, &e); break;
  case SET: r = E->set_elem_alloc(EH, COOKIE, k, nk, vl + 2, &e); break;
  case MAP: r = E->map_elem_alloc(EH, COOKIE, k, nk, 1, vl + 2, &e); break;
  default: r = E->btree_elem_alloc(EH, COOKIE, k, nk, 0, i % 3 == 2 ? 2 : 0, vl + 2, &e); break;
  }
  if (r != ENGINE_SUCCESS) return r;
  E->get_elem_info(EH, COOKIE, ETYPE[kind], e, &inf); el_body((char *)inf.value, i, vl);
  if (kind == MAP) *(char *)inf.score = 'a' + i; if (kind == BTREE) { uint64_t b = el_bkey(i); memcpy((void *)inf.score, &b, 8); if (inf.neflag) memset((void *)inf.eflag, 7, inf.neflag); }
  *ep = e; return r;
}
#ifndef co_fix
#define co_fix(r) (r)      /* maps the answer of an insertion (persistence: the answer that comes after the log is written) */
#endif
static ENGINE_ERROR_CODE co_link(int kind, const char *k, int idx, eitem *e, int replace, item_attr *a) {
  int nk = strlen(k); ENGINE_ERROR_CODE r; bool rp = 0, cr = 0; memset(&co_tr, 0, sizeof co_tr);
  switch (kind) {
  case LIST: r = co_fix(E->list_elem_insert(EH, COOKIE, k, nk, idx, e, a, &cr, 0)); if (r != ENGINE_SUCCESS) E->list_elem_free(EH, COOKIE, e); break;
  case SET: r = co_fix(E->set_elem_insert(EH, COOKIE, k, nk, e, a, &cr, 0)); if (r != ENGINE_SUCCESS) E->set_elem_free(EH, COOKIE, e); break;
  case MAP: r = co_fix(E->map_elem_insert(EH, COOKIE, k, nk, e, replace, a, &rp, &cr, 0)); if (r != ENGINE_SUCCESS) E->map_elem_free(EH, COOKIE, e); break;
  default: r = co_fix(E->btree_elem_insert(EH, COOKIE, k, nk, e, replace, a, &rp, &cr, NULL, 0)); if (r != ENGINE_SUCCESS) E->btree_elem_free(EH, COOKIE, e); break;
  }
  co_created = cr; co_replaced = rp; return r;
}
static ENGINE_ERROR_CODE co_put(int kind, const char *k, int i, unsigned vl, int replace, item_attr *a) { eitem *e; ENGINE_ERROR_CODE r = co_alloc(kind, k, i, vl, &e); if (r != ENGINE_SUCCESS) return r; return co_link(kind, k, -1, e, replace, a); }
static void co_range(bkey_range *br, uint64_t f, uint64_t t) { memset(br, 0, sizeof *br); memcpy(br->from_bkey, &f, 8); memcpy(br->to_bkey, &t, 8); br->from_nbkey = br->to_nbkey = 0; }
/* delete element i (lists: the element at index i); all: every element */
static ENGINE_ERROR_CODE co_del(int kind, const char *k, int i, unsigned vl, int all, int drop) {
  int nk = strlen(k); uint32_t n = 0, cost; bool dr = 0;
  switch (kind) {
  case LIST: return E->list_elem_delete(EH, COOKIE, k, nk, all ? 0 : i, all ? -1 : i, drop, &n, &dr, 0);
  case SET: { char b[4100]; el_body(b, i, vl); return E->set_elem_delete(EH, COOKIE, k, nk, b, vl + 2, drop, &dr, 0); }
  case MAP: { char f = 'a' + i; field_t fl = {.value = &f, .length = 1}; return E->map_elem_delete(EH, COOKIE, k, nk, all ? 0 : 1, &fl, drop, &n, &dr, 0); }
  default: { bkey_range br; if (all) co_range(&br, 0, ~0ull); else co_range(&br, el_bkey(i), el_bkey(i)); return E->btree_elem_delete(EH, COOKIE, k, nk, &br, NULL, 0, drop, &n, &cost, &dr, 0); }
  }
}
/* read elements (i < 0: all), optionally removing them; *r must be released with co_release */
static ENGINE_ERROR_CODE co_get(int kind, const char *k, int i, int del, int drop, struct elems_result *r) {
  int nk = strlen(k); memset(r, 0, sizeof *r);
  switch (kind) {
  case LIST: return E->list_elem_get(EH, COOKIE, k, nk, i < 0 ? 0 : i, i < 0 ? -1 : i, del, drop, r, 0);
  case SET: return E->set_elem_get(EH, COOKIE, k, nk, i < 0 ? 0 : i, del, drop, r, 0); /* i: how many */
  case MAP: { char f = 'a' + i; field_t fl = {.value = &f, .length = 1}; return E->map_elem_get(EH, COOKIE, k, nk, i < 0 ? 0 : 1, &fl, del, drop, r, 0); }
  default: { bkey_range br; if (i < 0) co_range(&br, 0, ~0ull); else co_range(&br, el_bkey(i), el_bkey(i)); return E->btree_elem_get(EH, COOKIE, k, nk, &br, NULL, 0, 0, del, drop, r, 0); }
  }
}
static void co_release(int kind, struct elems_result *r) {
  switch (kind) {
  case LIST: E->list_elem_release(EH, COOKIE, r->elem_array, r->elem_count); break;
  case SET: E->set_elem_release(EH, COOKIE, r->elem_array, r->elem_count); break;
  case MAP: E->map_elem_release(EH, COOKIE, r->elem_array, r->elem_count); break;
  default: E->btree_elem_release(EH, COOKIE, r->elem_array, r->elem_count); break;
  }
  if (r->elem_array) free(r->elem_array); memset(r, 0, sizeof *r);
}
/* several statistics in one pass; values are decimal numbers */
#define MSN 8
static const char *ms_name[MSN]; static uint64_t ms_val[MSN]; static int ms_found[MSN], ms_n;
static void ms_cb(const char *key, const uint16_t klen, const char *val, const uint32_t vlen, const void *cookie) {
  for (int i = 0; i < ms_n; i++) if (!ms_found[i] && klen == strlen(ms_name[i]) && memcmp(key, ms_name[i], klen) == 0) { uint64_t v = 0; for (uint32_t j = 0; j < vlen; j++) { if (val[j] < '0' || val[j] > '9') sym_fail("statistic is not a number"); v = v * 10 + (val[j] - '0'); } ms_val[i] = v; ms_found[i] = 1; }
}
static void ms_read(const char *group) { memset(ms_found, 0, sizeof ms_found); memset(ms_val, 0, sizeof ms_val); E->get_stats(EH, COOKIE, group, group ? (int)strlen(group) : 0, ms_cb); }
static uint64_t sm_used(void) { ms_n = 1; ms_name[0] = "SM:used_total_space"; ms_read("slabs"); if (!ms_found[0]) sym_fail("statistic missing"); return ms_val[0]; }
#endif

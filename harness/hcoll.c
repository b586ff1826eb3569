/* Set (default) and map (-DH_MAP) histories against an abstract set / finite map.
   Elements come from a pool: the first NX ones take part in the symbolic operations and have arbitrary 32-bit hashes
   (or arbitrary contents with colliding hashes, H_SYMV), the others are preloaded to shape the hash tree. */
#include "eng.h"
int h_hash(const void *p, size_t n); int h_rand(void);
#ifndef H_N
#define H_N 2
#endif
#ifndef H_X
#define H_X 2
#endif
#ifndef H_PRE
#define H_PRE 0
#endif
#ifndef H_DELPRE
#define H_DELPRE 0
#endif
#ifndef H_HM
#define H_HM 0          /* preload hashes: 0 spread, 1 same low nibble, 2 all equal, 3 low 28 bits equal */
#endif
#ifndef H_RANDMAX
#define H_RANDMAX 6
#endif
enum { S_INS = 1, S_DEL = 2, S_EXIST = 4, S_GET = 8, S_GETDEL = 16, S_CREATE = 32, S_INSNEW = 64, S_UPD = 128, S_UPSERT = 256, S_KV = 512, S_DELALL = 1024 };
#ifndef H_OPS
#ifdef H_MAP
#define H_OPS (S_INS | S_DEL | S_GET | S_GETDEL | S_UPD | S_UPSERT)
#else
#define H_OPS (S_INS | S_DEL | S_EXIST | S_GET | S_GETDEL)
#endif
#endif
#define P (H_X + H_PRE)
static unsigned char N_[P + 1][6]; static unsigned NL[P + 1]; static uint32_t HV[P + 1];
static struct { int present, kv, readable, n, max; unsigned char in[P + 1], val[P + 1], vl[P + 1]; } M;
static const char *KEY = "k"; enum { NK = 1 };
static int find(const unsigned char *p, size_t n) { for (int i = 0; i < P; i++) if (NL[i] == n && memcmp(N_[i], p, n) == 0) return i; return -1; }
int h_hash(const void *p, size_t n) {
#ifdef H_SYMV
  return 0x1357;
#else
#ifndef H_MAP
  if (n < 2) return 5; n -= 2; /* set values carry CRLF */
#endif
  int i = find(p, n);
#ifdef H_CONC
  static unsigned char pinned[P + 1]; if (i >= 0 && i < H_X && !pinned[i]) pinned[i] = 1, HV[i] = 0x10000 | (sym_conc(HV[i] & H_CONC)) | (0x33333333 & (H_LOW)); /* one of every bucket choice */
#endif
  return i < 0 ? 77 : (int)HV[i];
#endif
}
static int randn;
int h_rand(void) {
#ifdef H_RAND
  if (randn++ >= H_RANDMAX) { sym_assume(0); } return (int)sym_u8("rand"); /* every residue a small divisor can give */
#else
  static unsigned x = 12345; x = x * 1103515245u + 12345u; return (int)(x >> 1);
#endif
}
static void mput(int i) { M.in[i] = 1; M.n++; }
static void mdel(int i) { M.in[i] = 0; M.n--; }
static void m_new(int max, int readable) { memset(&M, 0, sizeof M); M.present = 1; M.readable = readable; M.max = max == 0 ? 4000 : max < 0 || max > 50000 ? 50000 : max; }
static void mk_attr(item_attr *a) { memset(a, 0, sizeof *a);
#ifndef H_MC
#define H_MC {0}
#endif
  static const int mc[] = H_MC; a->maxcount = mc[sym_choose(sizeof mc / sizeof *mc, "maxcount")]; a->readable = 1;
#ifdef H_UNREAD
  a->readable = sym_choose(2, "readable");
#endif
}
#ifdef H_FEW /* fewer shapes of field lists */
#define VLC 0
#define NFD 1
#define NFG sym_choose(2, "nf")
#define DROP 0
#else
#define VLC sym_choose(2, "vlen")
#define NFD 1 + sym_choose(2, "nf")
#define NFG sym_choose(4, "nf")
#define DROP sym_choose(2, "drop")
#endif
#ifdef H_MAP
#define TY ITEM_TYPE_MAP
#define STRUCT_CREATE E->map_struct_create
#define ELEM_FREE E->map_elem_free
#define ELEM_RELEASE E->map_elem_release
#else
#define TY ITEM_TYPE_SET
#define STRUCT_CREATE E->set_struct_create
#define ELEM_FREE E->set_elem_free
#define ELEM_RELEASE E->set_elem_release
#endif
static eitem *mk(int i, unsigned char val, unsigned vl) {
  eitem *e = NULL; eitem_info inf;
#ifdef H_MAP
  ENGINE_ERROR_CODE r = E->map_elem_alloc(EH, COOKIE, KEY, NK, NL[i], vl + 2, &e); if (r != ENGINE_SUCCESS) sym_fail("alloc"); E->get_elem_info(EH, COOKIE, TY, e, &inf);
  sym_assert(inf.nscore == NL[i] && inf.nbytes == vl + 2, "an allocated element has the requested sizes"); memcpy((void *)inf.score, N_[i], NL[i]); memset((char *)inf.value, val, vl); memcpy((char *)inf.value + vl, "\r\n", 2);
#else
  ENGINE_ERROR_CODE r = E->set_elem_alloc(EH, COOKIE, KEY, NK, NL[i] + 2, &e); if (r != ENGINE_SUCCESS) sym_fail("alloc"); E->get_elem_info(EH, COOKIE, TY, e, &inf);
  sym_assert(inf.nbytes == NL[i] + 2, "an allocated element has the requested size"); memcpy((char *)inf.value, N_[i], NL[i]); memcpy((char *)inf.value + NL[i], "\r\n", 2);
#endif
  return e;
}
/* which pool element is this, and does it carry the right value */
static int ident(eitem *e) {
  eitem_info inf; E->get_elem_info(EH, COOKIE, TY, e, &inf); int i;
#ifdef H_MAP
  i = find(inf.score, inf.nscore); if (i < 0) return -1;
  sym_assert(inf.nbytes == M.vl[i] + 2u && (unsigned char)inf.value[0] == M.val[i] && memcmp(inf.value + M.vl[i], "\r\n", 2) == 0, "a field holds the last value stored in it");
#else
  if (inf.nbytes < 2 || memcmp(inf.value + inf.nbytes - 2, "\r\n", 2)) return -1; i = find((const unsigned char *)inf.value, inf.nbytes - 2);
#endif
  return i;
}
static ENGINE_ERROR_CODE ins(int i, int upsert, unsigned char val, unsigned vl, item_attr *a, bool *created, bool *replaced) {
  eitem *e = mk(i, val, vl); bool cr = 0, rp = 0; ENGINE_ERROR_CODE r;
#ifdef H_MAP
  r = E->map_elem_insert(EH, COOKIE, KEY, NK, e, upsert, a, &rp, &cr, 0);
#else
  r = E->set_elem_insert(EH, COOKIE, KEY, NK, e, a, &cr, 0);
#endif
  if (r != ENGINE_SUCCESS) ELEM_FREE(EH, COOKIE, e); if (created) *created = cr; if (replaced) *replaced = rp; return r;
}
/* the returned elements are cnt distinct members; seen[] marks them */
static void check_res(struct elems_result *er, int cnt, unsigned char *seen) {
  memset(seen, 0, P + 1); sym_assert(er->elem_count == (uint32_t)cnt, "the number of returned elements");
  for (int j = 0; j < cnt; j++) { int i = ident(er->elem_array[j]); sym_assert(i >= 0 && M.in[i], "only stored elements are returned"); sym_assert(!seen[i], "each element is returned once"); seen[i] = 1; }
}
static void rel(struct elems_result *er) { ELEM_RELEASE(EH, COOKIE, er->elem_array, er->elem_count); free(er->elem_array); }
static void check_all(void) {
  struct elems_result er; memset(&er, 0, sizeof er); unsigned char seen[P + 1]; ENGINE_ERROR_CODE r;
#ifdef H_MAP
  r = E->map_elem_get(EH, COOKIE, KEY, NK, 0, NULL, false, false, &er, 0);
#else
  r = E->set_elem_get(EH, COOKIE, KEY, NK, 0, false, false, &er, 0);
#endif
  if (!M.present) sym_assert(r == ENGINE_KEY_ENOENT, "get on an absent key"); else if (M.kv) sym_assert(r == ENGINE_EBADTYPE, "get on an item of another type"); else if (!M.readable) sym_assert(r == ENGINE_UNREADABLE, "an unreadable collection cannot be read");
  else if (M.n == 0) sym_assert(r == ENGINE_ELEM_ENOENT, "get on an empty collection"); else { sym_assert(r == ENGINE_SUCCESS, "get of everything"); check_res(&er, M.n, seen); rel(&er); }
  if (M.present && !M.kv) { ENGINE_ITEM_ATTR id[2] = {ATTR_COUNT, ATTR_MAXCOUNT}; item_attr a; memset(&a, 0, sizeof a); r = E->getattr(EH, COOKIE, KEY, NK, id, 2, &a, 0); sym_assert(r == ENGINE_SUCCESS && a.count == M.n && a.maxcount == M.max, "the count attribute equals the number of elements"); }
}
static int gate(ENGINE_ERROR_CODE r, int read) { if (!M.present) { sym_assert(r == ENGINE_KEY_ENOENT, "an operation on an absent key reports not found"); return 0; } if (M.kv) { sym_assert(r == ENGINE_EBADTYPE, "an operation on an item of another type is refused"); return 0; } if (read && !M.readable) { sym_assert(r == ENGINE_UNREADABLE, "an unreadable collection cannot be read"); sym_reach("unreadable"); return 0; } return 1; }
static void op(int s) {
  int menu[16], nm = 0; for (int b = 0; b < 16; b++) if (H_OPS & (1 << b)) menu[nm++] = 1 << b;
  int o = menu[sym_choose(nm, "op")]; ENGINE_ERROR_CODE r; unsigned char seen[P + 1]; struct elems_result er; memset(&er, 0, sizeof er);
  switch (o) {
  case S_KV: { uint64_t c; r = kv_store(KEY, NK, OPERATION_SET, "x", 1, 0, 0, 0, &c); if (M.present && !M.kv) sym_assert(r == ENGINE_EBADTYPE, "set on a collection"); else { sym_assert(r == ENGINE_SUCCESS, "set"); memset(&M, 0, sizeof M); M.present = M.kv = 1; } break; }
  case S_CREATE: { item_attr a; mk_attr(&a); r = STRUCT_CREATE(EH, COOKIE, KEY, NK, &a, 0); if (M.present) sym_assert(r == ENGINE_KEY_EEXISTS, "create on an existing key is refused"); else { sym_assert(r == ENGINE_SUCCESS, "create"); m_new(a.maxcount, a.readable); } break; }
  case S_INS: case S_INSNEW: case S_UPSERT: { int i = sym_choose(H_X, "elem"); item_attr a; if (o == S_INSNEW) mk_attr(&a); bool cr, rp; unsigned char v = sym_u8("val"); unsigned vl = 1;
#ifdef H_MAP
    vl = 1 + VLC * 60;
#endif
    r = ins(i, o == S_UPSERT, v, vl, o == S_INSNEW ? &a : NULL, &cr, &rp); int was = M.present;
    if (!was && o != S_INSNEW) { sym_assert(r == ENGINE_KEY_ENOENT, "insert into an absent collection without attributes"); break; }
    if (M.kv) { sym_assert(r == ENGINE_EBADTYPE, "insert on an item of another type"); break; }
    if (!was) m_new(a.maxcount, a.readable);
    if (M.in[i] && o == S_UPSERT) { sym_assert(r == ENGINE_SUCCESS && rp && !cr, "upsert of a present field replaces"); M.val[i] = v; M.vl[i] = vl; sym_reach("replaced"); }
#ifdef H_MAP
    else if (M.in[i]) { sym_assert(r == ENGINE_ELEM_EEXISTS, "insert of a present element is refused"); sym_reach("exists"); }
    else if (M.n >= M.max) { sym_assert(r == ENGINE_EOVERFLOW, "a full collection refuses inserts"); sym_reach("overflow"); }
#else
    else if (M.n >= M.max) { sym_assert(r == ENGINE_EOVERFLOW || (M.in[i] && r == ENGINE_ELEM_EEXISTS), "a full collection refuses inserts"); sym_reach("overflow"); }
    else if (M.in[i]) { sym_assert(r == ENGINE_ELEM_EEXISTS, "insert of a present element is refused"); sym_reach("exists"); }
#endif
    else { sym_assert(r == ENGINE_SUCCESS && cr == !was && !rp, "insert of a new element"); mput(i); M.val[i] = v; M.vl[i] = vl; sym_reach("ins"); } break; }
#ifdef H_MAP
  case S_UPD: { int i = sym_choose(H_X, "elem"); unsigned vl = 1 + VLC * 60; unsigned char b[64], v = sym_u8("val"); memset(b, v, vl); memcpy(b + vl, "\r\n", 2); field_t f = {(char *)N_[i], NL[i]};
    r = E->map_elem_update(EH, COOKIE, KEY, NK, &f, b, vl + 2, 0); if (!gate(r, 0)) break; if (M.in[i]) { sym_assert(r == ENGINE_SUCCESS, "update of a present field"); M.val[i] = v; M.vl[i] = vl; sym_reach("upd"); } else sym_assert(r == ENGINE_ELEM_ENOENT, "update of an absent field"); break; }
  case S_DELALL: case S_DEL: { field_t f[3]; int id[3], nf = o == S_DELALL ? 0 : NFD; for (int j = 0; j < nf; j++) { id[j] = sym_choose(H_X, "field"); f[j].value = (char *)N_[id[j]]; f[j].length = NL[id[j]]; } int drop = DROP; uint32_t dc = 0; bool dr = 0;
    r = E->map_elem_delete(EH, COOKIE, KEY, NK, nf, nf ? f : NULL, drop, &dc, &dr, 0); if (!gate(r, 0)) break; uint32_t want = 0; if (nf == 0) { want = M.n; for (int i = 0; i < P; i++) if (M.in[i]) mdel(i); } for (int j = 0; j < nf; j++) if (M.in[id[j]]) { mdel(id[j]); want++; }
    if (!want) { sym_assert(r == ENGINE_ELEM_ENOENT, "deleting no stored field reports so"); break; } sym_assert(r == ENGINE_SUCCESS && dc == want, "delete reports the number of deleted fields"); sym_assert(dr == (M.n == 0 && drop), "dropping is reported"); if (dr) { memset(&M, 0, sizeof M); sym_reach("dropped"); } sym_reach("del"); break; }
  case S_GET: case S_GETDEL: { int del = o == S_GETDEL; field_t f[4]; int id[4], nf = NFG; for (int j = 0; j < nf; j++) { id[j] = sym_choose(H_X, "field"); f[j].value = (char *)N_[id[j]]; f[j].length = NL[id[j]]; } int drop = del ? DROP : 0;
    r = E->map_elem_get(EH, COOKIE, KEY, NK, nf, nf ? f : NULL, del, drop, &er, 0); if (!gate(r, 1)) break;
    int order[P + 4], cnt = 0; if (nf == 0) cnt = M.n; else { unsigned char tmp[P + 1]; memcpy(tmp, M.in, sizeof tmp); for (int j = 0; j < nf; j++) if (tmp[id[j]]) { order[cnt++] = id[j]; if (del) tmp[id[j]] = 0; } }
    if (cnt == 0) { sym_assert(r == ENGINE_ELEM_ENOENT, "getting no stored field reports so"); break; }
    sym_assert(r == ENGINE_SUCCESS && er.elem_count == (uint32_t)cnt, "get returns the listed fields that are stored");
    if (nf == 0) check_res(&er, cnt, seen); else for (int j = 0; j < cnt; j++) sym_assert(ident(er.elem_array[j]) == order[j], "the listed fields come in the listed order"); sym_reach("get");
    if (del) { for (int j = 0; j < (nf ? cnt : P); j++) { int i = nf ? order[j] : j; if (M.in[i]) mdel(i); } if (M.n == 0 && drop) { sym_assert(er.dropped, "dropping is reported"); memset(&M, 0, sizeof M); sym_reach("dropped"); } else sym_assert(!er.dropped, "no dropping"); sym_reach("getdel"); }
    rel(&er); break; }
#else
  case S_DEL: { int i = sym_choose(H_X, "elem"), drop = sym_choose(2, "drop"); unsigned char b[16]; memcpy(b, N_[i], NL[i]); memcpy(b + NL[i], "\r\n", 2); bool dr = 0; r = E->set_elem_delete(EH, COOKIE, KEY, NK, b, NL[i] + 2, drop, &dr, 0); if (!gate(r, 0)) break;
    if (!M.in[i]) { sym_assert(r == ENGINE_ELEM_ENOENT, "deleting an absent element reports so"); break; } sym_assert(r == ENGINE_SUCCESS, "delete of a present element"); mdel(i); sym_assert(dr == (M.n == 0 && drop), "dropping is reported"); if (dr) { memset(&M, 0, sizeof M); sym_reach("dropped"); } sym_reach("del"); break; }
  case S_EXIST: { int i = sym_choose(H_X, "elem"); unsigned char b[16]; memcpy(b, N_[i], NL[i]); memcpy(b + NL[i], "\r\n", 2); bool ex = 0; r = E->set_elem_exist(EH, COOKIE, KEY, NK, b, NL[i] + 2, &ex, 0); if (!gate(r, 1)) break; sym_assert(r == ENGINE_SUCCESS && ex == M.in[i], "exist tells membership"); sym_reach("exist"); break; }
  case S_GET: case S_GETDEL: { int del = o == S_GETDEL, drop = del ? sym_choose(2, "drop") : 0;
#ifdef H_COUNTS
    static const uint32_t cs[] = H_COUNTS; uint32_t count = cs[sym_choose(sizeof cs / sizeof *cs, "count")];
#else
    uint32_t count = sym_u32("count");
#endif
    r = E->set_elem_get(EH, COOKIE, KEY, NK, count, del, drop, &er, 0); if (!gate(r, 1)) break; if (M.n == 0) { sym_assert(r == ENGINE_ELEM_ENOENT, "get on an empty collection"); break; }
    int cnt = sym_conc(count == 0 || count > (uint32_t)M.n ? M.n : (int)count); sym_assert(r == ENGINE_SUCCESS, "get"); check_res(&er, cnt, seen); sym_reach(cnt < M.n ? "some" : "all");
    if (del) { for (int i = 0; i < P; i++) if (seen[i]) mdel(i); if (M.n == 0 && drop) { sym_assert(er.dropped, "dropping is reported"); memset(&M, 0, sizeof M); sym_reach("dropped"); } else sym_assert(!er.dropped, "no dropping"); sym_reach("getdel"); }
    rel(&er); break; }
#endif
  default: return;
  }
  sym_observe(r);
}
void harness(void) {
  eng_init(NULL);
  for (int i = 0; i < P; i++) {
    if (i < H_X) {
#ifdef H_SYMV
      NL[i] = 1 + sym_choose(2, "elen"); sym__bytes(N_[i], NL[i], "ebytes"); for (int j = 0; j < i; j++) if (NL[j] == NL[i]) sym_assume(memcmp(N_[i], N_[j], NL[i]) != 0);
#else
      static const char *names[] = {"x", "xy", "y", "xyz"}; NL[i] = strlen(names[i]); memcpy(N_[i], names[i], NL[i]); HV[i] = sym_u32("hash");
#ifdef H_LOW
      HV[i] = (HV[i] & ~(uint32_t)(H_LOW)) | (0x33333333 & (H_LOW));
#endif
#endif
    } else { int p = i - H_X; N_[i][0] = 'A' + p / 16; N_[i][1] = 'a' + p % 16; NL[i] = 2; uint32_t h = p;
      if (H_HM == 0) h = p * 0x9e3779b1u; else if (H_HM == 1) h = 3 | (p << 4); else if (H_HM == 2) h = 0x33333333; else h = 0x3333333 | ((uint32_t)p << 28); HV[i] = h; }
  }
#if H_PRE > 0 || defined(H_MK)
  { item_attr a; mk_attr(&a); if (STRUCT_CREATE(EH, COOKIE, KEY, NK, &a, 0) != ENGINE_SUCCESS) sym_fail("create"); m_new(a.maxcount, a.readable); }
  int npre = H_PRE;
#ifdef H_PRES
  static const int pres[] = H_PRES; npre = pres[sym_choose(sizeof pres / sizeof *pres, "preload")];
#endif
  int dpre = H_DELPRE;
#ifdef H_DELS
  static const int dels[] = H_DELS; dpre = dels[sym_choose(sizeof dels / sizeof *dels, "predelete")];
#endif
  for (int i = H_X; i < H_X + npre; i++) { bool c, rp; if (ins(i, 0, 7, 1, NULL, &c, &rp) != ENGINE_SUCCESS) sym_fail("preload insert refused"); mput(i); M.val[i] = 7; M.vl[i] = 1; }
  for (int i = H_X; i < H_X + dpre && i < H_X + npre; i++) { bool dr;
#ifdef H_MAP
    field_t f = {(char *)N_[i], NL[i]}; uint32_t dc = 0; if (E->map_elem_delete(EH, COOKIE, KEY, NK, 1, &f, false, &dc, &dr, 0) != ENGINE_SUCCESS || dc != 1) sym_fail("preload delete refused");
#else
    unsigned char b[16]; memcpy(b, N_[i], NL[i]); memcpy(b + NL[i], "\r\n", 2); if (E->set_elem_delete(EH, COOKIE, KEY, NK, b, NL[i] + 2, false, &dr, 0) != ENGINE_SUCCESS) sym_fail("preload delete refused");
#endif
    mdel(i); }
#endif
#ifdef H_FILL
  { int nf = 1 + sym_choose(H_FILL, "fill"); for (int i = 0; i < nf; i++) { bool c, rp; unsigned char v = sym_u8("fillval"); if (ins(i, 0, v, 1, NULL, &c, &rp) != ENGINE_SUCCESS) sym_fail("fill"); mput(i); M.val[i] = v; M.vl[i] = 1; } }
#endif
  for (int s = 0; s < H_N; s++) op(s);
  check_all(); sym_reach("end");
}

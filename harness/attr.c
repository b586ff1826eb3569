/* Item attributes: getattr / setattr of every item type against an abstract attribute record. */
#include "eng.h"
enum { KV = 0, LIST, SET, MAP, BTREE };
#ifndef H_KINDS
#define H_KINDS {KV, LIST, SET, MAP, BTREE}
#endif
#ifndef H_CFG
#define H_CFG "cache_size=8388608;sticky_limit=1048576"
#endif
#ifndef H_MAXSZ
#define H_MAXSZ 50000
#endif
#ifndef H_EXPS
#define H_EXPS 3
#endif
#ifndef H_ROUNDS
#define H_ROUNDS 1
#endif
static const char *KEY = "k"; enum { NK = 1 };
static struct { int kind, n; uint32_t flags, exp; int64_t max; unsigned ovfl, readable, trimmed, mbrlen; uint64_t mbr; uint64_t bk[4]; } M;
static int64_t maxsz = H_MAXSZ;
static int64_t effmax(int32_t m) { return m == 0 ? 4000 : m < 0 ? -1 : m > maxsz ? maxsz : m; }
static int legal_ovfl(int kind, unsigned o) { if (o == OVFL_ERROR) return 1; if (kind == LIST) return o == OVFL_HEAD_TRIM || o == OVFL_TAIL_TRIM; if (kind == BTREE) return o >= OVFL_SMALLEST_TRIM && o <= OVFL_LARGEST_SILENT_TRIM; return 0; }
static int has(int kind, int id) { switch (id) { case ATTR_TYPE: case ATTR_FLAGS: case ATTR_EXPIRETIME: return 1; case ATTR_COUNT: case ATTR_MAXCOUNT: case ATTR_OVFLACTION: case ATTR_READABLE: return kind != KV; default: return kind == BTREE; } }
static uint32_t newexp(void) { switch (sym_choose(H_EXPS, "exp")) { case 0: return 0; case 1: { uint32_t e = sym_u32("exptime"); sym_assume(e > eng_now && e != (uint32_t)-1); return e; } default: return (uint32_t)-1; } }
static void put(int i) {
  eitem *e = NULL; eitem_info inf; bool rp, cr; struct elems_result tr; ENGINE_ERROR_CODE r; char c = 'a' + i;
  if (M.kind == LIST) { r = E->list_elem_alloc(EH, COOKIE, KEY, NK, 3, &e); E->get_elem_info(EH, COOKIE, ITEM_TYPE_LIST, e, &inf); memcpy((char *)inf.value, "x\r\n", 3); r = E->list_elem_insert(EH, COOKIE, KEY, NK, -1, e, NULL, &cr, 0); }
  else if (M.kind == SET) { r = E->set_elem_alloc(EH, COOKIE, KEY, NK, 3, &e); E->get_elem_info(EH, COOKIE, ITEM_TYPE_SET, e, &inf); ((char *)inf.value)[0] = c; memcpy((char *)inf.value + 1, "\r\n", 2); r = E->set_elem_insert(EH, COOKIE, KEY, NK, e, NULL, &cr, 0); }
  else if (M.kind == MAP) { r = E->map_elem_alloc(EH, COOKIE, KEY, NK, 1, 3, &e); E->get_elem_info(EH, COOKIE, ITEM_TYPE_MAP, e, &inf); *(char *)inf.score = c; memcpy((char *)inf.value, "x\r\n", 3); r = E->map_elem_insert(EH, COOKIE, KEY, NK, e, false, NULL, &rp, &cr, 0); }
  else { r = E->btree_elem_alloc(EH, COOKIE, KEY, NK, 0, 0, 3, &e); E->get_elem_info(EH, COOKIE, ITEM_TYPE_BTREE, e, &inf); memcpy((void *)inf.score, &M.bk[i], 8); memcpy((char *)inf.value, "x\r\n", 3); r = E->btree_elem_insert(EH, COOKIE, KEY, NK, e, false, NULL, &rp, &cr, NULL, 0); }
  sym_assert(r == ENGINE_SUCCESS, "element inserted"); M.n = sym_conc(i + 1);
}
static void check_attr(item_attr *a, int id) {
  switch (id) {
  case ATTR_TYPE: sym_assert(a->type == (M.kind == KV ? ITEM_TYPE_KV : M.kind == LIST ? ITEM_TYPE_LIST : M.kind == SET ? ITEM_TYPE_SET : M.kind == MAP ? ITEM_TYPE_MAP : ITEM_TYPE_BTREE), "reported type"); break;
  case ATTR_FLAGS: sym_assert(a->flags == M.flags, "reported flags"); break;
  case ATTR_EXPIRETIME: sym_assert(a->exptime == M.exp, "reported expiry"); break;
  case ATTR_COUNT: sym_assert(a->count == M.n, "reported element count"); break;
  case ATTR_MAXCOUNT: sym_assert(a->maxcount == (M.max < 0 ? maxsz : M.max), "reported maximum count"); break;
  case ATTR_OVFLACTION: sym_assert(a->ovflaction == M.ovfl, "reported overflow action"); break;
  case ATTR_READABLE: sym_assert(a->readable == M.readable, "reported readability"); break;
  case ATTR_MAXBKEYRANGE: sym_assert(a->maxbkeyrange.len == M.mbrlen, "reported bkey range limit (kind)"); if (M.mbrlen == 0) sym_assert(memcmp(a->maxbkeyrange.val, &M.mbr, 8) == 0, "reported bkey range limit"); break;
  case ATTR_MINBKEY: case ATTR_MAXBKEY: if (M.n) { bkey_t *b = id == ATTR_MINBKEY ? &a->minbkey : &a->maxbkey; uint64_t w = M.bk[0]; for (int i = 1; i < M.n; i++) if (id == ATTR_MINBKEY ? M.bk[i] < w : M.bk[i] > w) w = M.bk[i]; uint64_t g; memcpy(&g, b->val, 8); sym_assert(b->len == 0 && g == w, "reported extreme bkey"); } else sym_assert(a->count == 0, "extreme bkeys of an empty b+tree"); break;
  case ATTR_TRIMMED: sym_assert(a->trimmed == M.trimmed, "reported trimmed state"); break;
  }
}
static void check(void) {
  item_attr a; ENGINE_ITEM_ATTR ids[2]; memset(&a, 0xA5, sizeof a);
  ENGINE_ERROR_CODE r = E->getattr(EH, COOKIE, KEY, NK, ids, 0, &a, 0); sym_assert(r == ENGINE_SUCCESS, "getattr"); for (int id = ATTR_TYPE; id < ATTR_END; id++) if (has(M.kind, id)) check_attr(&a, id);
  for (int id = ATTR_TYPE; id < ATTR_END; id++) { memset(&a, 0xA5, sizeof a); ids[0] = ATTR_FLAGS; ids[1] = id; r = E->getattr(EH, COOKIE, KEY, NK, ids, 2, &a, 0); if (has(M.kind, id)) { sym_assert(r == ENGINE_SUCCESS, "getattr of a supported attribute"); check_attr(&a, id); } else sym_assert(r == ENGINE_EBADATTR, "getattr of an attribute the item does not have is refused"); }
}
void harness(void) {
  eng_init(H_CFG);
  static const int kinds[] = H_KINDS; M.kind = kinds[sym_choose(sizeof kinds / sizeof *kinds, "kind")]; M.mbrlen = BKEY_NULL;
  M.flags = sym_u32("flags"); M.exp = newexp(); ENGINE_ERROR_CODE r;
  item_attr a; ENGINE_ITEM_ATTR none;
  sym_assert(E->getattr(EH, COOKIE, KEY, NK, &none, 0, &a, 0) == ENGINE_KEY_ENOENT, "getattr of an absent key"); sym_assert(E->setattr(EH, COOKIE, KEY, NK, &none, 0, &a, 0) == ENGINE_KEY_ENOENT, "setattr of an absent key");
  if (M.kind == KV) r = kv_store(KEY, NK, OPERATION_SET, "v", 1, M.flags, M.exp, 0, NULL);
  else {
    memset(&a, 0, sizeof a); a.flags = M.flags; a.exptime = M.exp; a.maxcount = (int32_t)sym_u32("maxcount"); sym_assume(a.maxcount <= 0 || a.maxcount >= H_ELEMS); M.max = effmax(a.maxcount);
    unsigned o = sym_u8("ovfl"); sym_assume(o == 0 || legal_ovfl(M.kind, o)); a.ovflaction = o; M.ovfl = o ? o : M.kind == LIST ? OVFL_TAIL_TRIM : M.kind == BTREE ? OVFL_SMALLEST_TRIM : OVFL_ERROR; a.readable = M.readable = sym_bool("readable");
    r = M.kind == LIST ? E->list_struct_create(EH, COOKIE, KEY, NK, &a, 0) : M.kind == SET ? E->set_struct_create(EH, COOKIE, KEY, NK, &a, 0) : M.kind == MAP ? E->map_struct_create(EH, COOKIE, KEY, NK, &a, 0) : E->btree_struct_create(EH, COOKIE, KEY, NK, &a, 0);
  }
  sym_assert(r == ENGINE_SUCCESS, "item created");
  if (M.kind != KV) { int n = sym_choose(H_ELEMS + 1, "elements"); for (int i = 0; i < n; i++) { M.bk[i] = sym_u64("bkey"); for (int j = 0; j < i; j++) sym_assume(M.bk[j] != M.bk[i]); put(i); } }
#ifdef H_GROW
  { int32_t nm = (int32_t)sym_u32("new maximum"); const char *k = M.kind == LIST ? "max_list_size" : M.kind == SET ? "max_set_size" : M.kind == MAP ? "max_map_size" : "max_btree_size"; int64_t e = nm < 0 || nm > 1000000 ? 1000000 : nm; r = E->set_config(EH, COOKIE, k, &nm);
    if (e > maxsz) { sym_assert(r == ENGINE_SUCCESS, "the maximum collection size can be increased"); maxsz = e; sym_reach("grown"); } else sym_assert(r == ENGINE_EBADVALUE, "the maximum collection size cannot be reduced"); uint32_t g = 0; r = E->get_config(EH, COOKIE, k, &g); sym_assert(r == ENGINE_SUCCESS && g == maxsz, "configured maximum"); }
#endif
  check();
  for (int rd = 0; rd < H_ROUNDS; rd++) {
    static const int st[] = {ATTR_EXPIRETIME, ATTR_MAXCOUNT, ATTR_OVFLACTION, ATTR_READABLE, ATTR_MAXBKEYRANGE};
    ENGINE_ITEM_ATTR ids[3]; int n = sym_choose(H_IDS + 1, "ids"); memset(&a, 0xA5, sizeof a); a.exptime = 0; int bad = 0, badattr = 0; int want_exp = 0, want_max = 0, want_ov = 0, want_rd = 0, want_mbr = 0;
    uint32_t ne = newexp(); int32_t nm = (int32_t)sym_u32("new maxcount"); unsigned no = sym_u8("new ovfl"), nr = sym_u8("new readable"); uint64_t nb = sym_u64("new range");
    int mode = M.kind == BTREE ? sym_choose(3, "range kind") : 0; /* 0: 64-bit, 1: none, 2: binary */
    for (int i = 0; i < n; i++) { ids[i] = st[sym_choose(5, "id")]; switch (ids[i]) { case ATTR_EXPIRETIME: want_exp = 1; break; case ATTR_MAXCOUNT: want_max = 1; break; case ATTR_OVFLACTION: want_ov = 1; break; case ATTR_READABLE: want_rd = 1; break; default: want_mbr = 1; } if (!has(M.kind, ids[i])) badattr = 1; }
    a.exptime = ne; a.maxcount = nm; a.ovflaction = no; a.readable = nr; memset(&a.maxbkeyrange, 0, sizeof a.maxbkeyrange); a.maxbkeyrange.len = mode == 0 ? 0 : mode == 1 ? BKEY_NULL : 2; if (mode == 0) memcpy(a.maxbkeyrange.val, &nb, 8); if (mode == 2) a.maxbkeyrange.val[0] = 1;
    int64_t em = effmax(nm); uint64_t lo = M.bk[0], hi = M.bk[0]; for (int i = 1; i < M.n; i++) { if (M.bk[i] < lo) lo = M.bk[i]; if (M.bk[i] > hi) hi = M.bk[i]; }
    if (want_exp && (ne == (uint32_t)-1) != (M.exp == (uint32_t)-1)) bad = 1;              /* sticky items stay sticky */
    if (want_max && em > 0 && em < M.n) bad = 1;
    if (want_ov && !legal_ovfl(M.kind, no)) bad = 1;
    if (want_rd && nr != 1) bad = 1;
    if (want_mbr && M.kind == BTREE && M.n) { if (mode == 2) bad = 1; if (mode == 0 && M.n > 1 && hi - lo > nb) bad = 1; }
    r = E->setattr(EH, COOKIE, KEY, NK, ids, n, &a, 0);
    if (badattr) { sym_assert(r == ENGINE_EBADATTR || (bad && r == ENGINE_EBADVALUE), "setattr of an attribute the item does not have is refused"); sym_reach("badattr"); }
    else if (bad) { sym_assert(r == ENGINE_EBADVALUE, "setattr of an illegal value is refused"); sym_reach("badvalue"); }
    else { sym_assert(r == ENGINE_SUCCESS, "setattr of legal values succeeds"); if (want_exp) M.exp = ne; if (want_max) M.max = em; if (want_ov) M.ovfl = no; if (want_rd) M.readable = 1; if (want_mbr) { M.mbrlen = a.maxbkeyrange.len; M.mbr = nb; } sym_reach("set"); if (want_exp) sym_reach("setexp"); if (want_mbr) sym_reach("setrange"); if (M.mbrlen == 2) { /* binary range on an empty b+tree */ sym_reach("binrange"); sym_end(); } }
    check();
  }
  if (M.kind == KV) { uint32_t nv; kv_get(KEY, NK, NULL, 0, &nv, NULL, NULL); sym_assert(nv == 1, "the value is untouched"); }
  sym_assert(E->remove(EH, COOKIE, KEY, NK, 0, 0) == ENGINE_SUCCESS, "delete"); eng_bg(); sym_assert(eng_stat(NULL, "curr_items") == 0, "nothing is left"); sym_assert(eng_stat(NULL, "bytes") == 0 && eng_stat(NULL, "sticky_items") == 0 && eng_stat(NULL, "sticky_bytes") == 0, "no bytes are left");
  sym_reach("end");
}

/* References and memory: every block is its own object (slabs_stub.c), so use after free, double free, overruns and frees of the wrong
   size are caught wherever they happen. On top: what a holder of a reference sees does not change while it holds it, and when all
   references are given back and all keys are deleted nothing stays allocated. With H_FAIL one allocation at a symbolic position fails. */
#include "multi.h"
extern int stub_live, stub_failed, stub_allocs; extern long stub_fail_at; extern size_t stub_used;
#ifndef H_KEYS
#define H_KEYS {"a:x"}
#endif
#ifndef H_N
#define H_N 3
#endif
#ifndef H_KIND
#define H_KIND {KV}
#endif
#ifndef H_NEL
#define H_NEL 3
#endif
#ifndef H_PRE
#define H_PRE 0
#endif
#ifndef H_VL
#define H_VL {3, 3, 20}
#endif
static const char *KEYS[] = H_KEYS; enum { NKEYS = sizeof(KEYS) / sizeof(KEYS[0]) };
static const int KINDS[] = H_KIND; enum { NKIND = sizeof KINDS / sizeof KINDS[0] };
static const unsigned VL[] = H_VL; enum { NVL = sizeof VL / sizeof VL[0] };
/* ---- holders ---- */
#define HMAX 6
#define SNAP 5200
enum { HF = 0, HITEM, HELEMS, HPITEM, HPELEM };
static struct { int st, kind; item *it; struct elems_result er; eitem *el; int key, lcnt, made; char snap[SNAP]; uint32_t nsnap; } H[HMAX];
static uint32_t look(int h, char *out) {
  uint32_t n = 0;
  if (H[h].st == HITEM || H[h].st == HPITEM) { item_info inf; sym_assert(E->get_item_info(EH, COOKIE, H[h].it, &inf), "item info"); memcpy(out, inf.key, inf.nkey); n = inf.nkey; out[n++] = inf.flags; if (n + inf.nbytes > SNAP) sym_fail("snap"); memcpy(out + n, inf.value, inf.nbytes); n += inf.nbytes; memcpy(out + n, &inf.nbytes, 4); return n + 4; }
  int cnt = H[h].st == HELEMS ? (int)H[h].er.elem_count : 1;
  for (int i = 0; i < cnt; i++) { eitem *e = H[h].st == HELEMS ? H[h].er.elem_array[i] : H[h].el; eitem_info inf; memset(&inf, 0, sizeof inf); E->get_elem_info(EH, COOKIE, ETYPE[H[h].kind], e, &inf);
    if (n + inf.nbytes + 64 > SNAP) sym_fail("snap"); memcpy(out + n, inf.value, inf.nbytes); n += inf.nbytes;
    if (H[h].kind == MAP) { memcpy(out + n, inf.score, inf.nscore); n += inf.nscore; } if (H[h].kind == BTREE) { memcpy(out + n, inf.score, inf.nscore ? inf.nscore : 8); n += inf.nscore ? inf.nscore : 8; memcpy(out + n, inf.eflag, inf.neflag); n += inf.neflag; } }
  return n;
}
static int hfree(void) { for (int i = 0; i < HMAX; i++) if (H[i].st == HF) return i; return -1; }
static void hsnap(int h) { H[h].nsnap = look(h, H[h].snap); }
static void hcheck(void) { static char cur[SNAP]; for (int h = 0; h < HMAX; h++) if (H[h].st) { uint32_t n = look(h, cur); sym_assert(n == H[h].nsnap && memcmp(cur, H[h].snap, n) == 0, "a held item or element does not change while it is held"); } }
static void hrel(int h) {
  switch (H[h].st) {
  case HITEM: case HPITEM: E->release(EH, COOKIE, H[h].it); break;
  case HELEMS: co_release(H[h].kind, &H[h].er); break;
  case HPELEM: switch (H[h].kind) { case LIST: E->list_elem_free(EH, COOKIE, H[h].el); break; case SET: E->set_elem_free(EH, COOKIE, H[h].el); break; case MAP: E->map_elem_free(EH, COOKIE, H[h].el); break; default: E->btree_elem_free(EH, COOKIE, H[h].el); } break;
  }
  H[h].st = HF;
}
static item_attr *mkattr(item_attr *a) { memset(a, 0, sizeof *a); a->readable = 1; a->maxbkeyrange.len = BKEY_NULL;
#ifdef H_MAXC
  a->maxcount = H_MAXC;
#endif
  return a; }
enum { P_SET = 1, P_APP = 2, P_ARITH = 4, P_DEL = 8, P_HOLD = 16, P_REL = 32, P_ALLOC = 64, P_PUT = 128, P_REM = 256, P_UPD = 512, P_HOLDEL = 1024, P_FLUSH = 2048, P_EXPIRE = 4096, P_MULTI = 8192, P_SCAN = 16384, P_PENDEL = 32768, P_CREATE = 65536, P_BG = 131072, P_MISC = 262144 };
#ifndef H_OPS
#define H_OPS (P_SET | P_APP | P_DEL | P_HOLD | P_REL)
#endif
static int kindof(int k) { item_attr a; memset(&a, 0, sizeof a); ENGINE_ITEM_ATTR id; if (E->getattr(EH, COOKIE, KEYS[k], strlen(KEYS[k]), &id, 0, &a, 0) != ENGINE_SUCCESS) return -1; for (int i = 0; i < NKINDS; i++) if (ETYPE[i] == a.type) return i; return -1; }
/* contents of every key, for "a failed operation changes nothing" */
static uint32_t dump(char *out, uint32_t cap) {
  uint32_t n = 0;
  for (int k = 0; k < NKEYS; k++) { item_attr a; memset(&a, 0, sizeof a); ENGINE_ITEM_ATTR id[2] = {ATTR_EXPIRETIME, ATTR_FLAGS}; int t = -1; if (E->getattr(EH, COOKIE, KEYS[k], strlen(KEYS[k]), id, 2, &a, 0) == ENGINE_SUCCESS) { for (int i = 0; i < NKINDS; i++) if (ETYPE[i] == a.type) t = i; memcpy(out + n, &a.exptime, 4); n += 4; }
    out[n++] = 'k'; out[n++] = '0' + t + 1; if (t < 0) continue;
    if (t == KV) { item *it = NULL; if (E->get(EH, COOKIE, &it, KEYS[k], strlen(KEYS[k]), 0) == ENGINE_SUCCESS) { item_info inf; E->get_item_info(EH, COOKIE, it, &inf); if (n + inf.nbytes + 32 > cap) sym_fail("dump"); memcpy(out + n, inf.value, inf.nbytes); n += inf.nbytes; E->release(EH, COOKIE, it); } continue; }
    int h = hfree(); if (h < 0) sym_fail("no slot"); if (co_get(t, KEYS[k], t == SET ? 0 : -1, 0, 0, &H[h].er) == ENGINE_SUCCESS) { H[h].st = HELEMS; H[h].kind = t; n += look(h, out + n); if (n + 64 > cap) sym_fail("dump"); hrel(h); } }
  return n;
}
static int NOPS; uint32_t scan_bucket(int k);
static void op(void) {
  int menu[20], nm = 0; for (int b = 0; b < 20; b++) if (H_OPS & (1 << b)) menu[nm++] = 1 << b;
  int o = menu[sym_choose(nm, "op")]; item_attr a; uint64_t c; static char v[5000]; ENGINE_ERROR_CODE r = ENGINE_SUCCESS; int h;
  NOPS++; memset(v, '0' + NOPS % 10, sizeof v);
  if (o == P_REL) { int cand[HMAX], nc = 0; for (h = 0; h < HMAX; h++) if (H[h].st) cand[nc++] = h; if (!nc) return; h = cand[sym_choose(nc, "rel")];
    if (H[h].st == HPITEM) { int w = sym_choose(3, "pend"); if (w) { r = E->store(EH, COOKIE, H[h].it, &c, w == 1 ? OPERATION_SET : OPERATION_ADD, 0); if (r == ENGINE_SUCCESS) sym_reach("pending stored"); } hrel(h); return; }
    if (H[h].st == HPELEM && sym_choose(2, "pend")) { r = co_link(H[h].kind, KEYS[H[h].key], -1, H[h].el, 1, mkattr(&a)); H[h].st = HF; if (r == ENGINE_SUCCESS) sym_reach("pending linked"); return; }
    hrel(h); sym_reach("released"); return; }
  if (o == P_BG) { eng_bg(); return; }
  int k = NKEYS > 1 ? sym_choose(NKEYS, "key") : 0; const char *K = KEYS[k]; int n = strlen(K); int kind, i;
  switch (o) {
  case P_SET: { int add = sym_choose(2, "add"); unsigned vl = VL[sym_choose(NVL, "vlen")]; rel_time_t ex = 0;
#ifdef H_EXPIRE
    if (sym_choose(2, "exp")) ex = eng_now + 10;
#endif
    r = kv_store(K, n, add ? OPERATION_ADD : OPERATION_SET, v, vl, 0, ex, 0, &c); break; }
  case P_APP: r = kv_store(K, n, sym_choose(2, "pre") ? OPERATION_APPEND : OPERATION_PREPEND, v, VL[0], 0, 0, 0, &c); break;
  case P_ARITH: { uint64_t res; r = E->arithmetic(EH, COOKIE, K, n, true, true, sym_choose(2, "delta") ? 1000 : 1, 5, 0, 0, &c, &res, 0); break; }
  case P_DEL: r = E->remove(EH, COOKIE, K, n, 0, 0); break;
  case P_HOLD: if ((h = hfree()) < 0) return; r = E->get(EH, COOKIE, &H[h].it, K, n, 0); if (r == ENGINE_SUCCESS) { H[h].st = HITEM; hsnap(h); sym_reach("held"); } break;
  case P_ALLOC: if ((h = hfree()) < 0) return; r = kv_alloc(&H[h].it, K, n, v, VL[sym_choose(NVL, "vlen")], 1, 0, 0); if (r == ENGINE_SUCCESS) { H[h].st = HPITEM; hsnap(h); } break;
  case P_CREATE: kind = KINDS[sym_choose(NKIND, "kind")]; if (kind == KV) return; r = co_create(kind, K, mkattr(&a)); break;
  case P_PUT: kind = KINDS[sym_choose(NKIND, "kind")]; if (kind == KV) return; i = sym_choose(H_NEL, "elem"); r = co_put(kind, K, i, VL[kind == SET ? i % NVL : sym_choose(NVL, "vlen")], 1, mkattr(&a)); if (r == ENGINE_SUCCESS) sym_reach("put"); break;
  case P_PENDEL: kind = KINDS[sym_choose(NKIND, "kind")]; if (kind == KV || (h = hfree()) < 0) return; i = sym_choose(H_NEL, "elem"); r = co_alloc(kind, K, i, VL[i % NVL], &H[h].el); if (r == ENGINE_SUCCESS) { H[h].st = HPELEM; H[h].kind = kind; H[h].key = k; hsnap(h); } break;
  case P_REM: kind = kindof(k); if (kind <= KV) return; i = sym_choose(H_NEL + (kind != SET), "elem"); r = co_del(kind, K, i, VL[i % NVL], i == H_NEL, sym_choose(2, "drop")); if (r == ENGINE_SUCCESS) sym_reach("removed"); break;
  case P_UPD: { kind = kindof(k); if (kind != MAP && kind != BTREE) return; i = sym_choose(H_NEL, "elem"); unsigned vl = VL[sym_choose(NVL, "vlen")]; char b[4100]; el_body(b, i, vl); b[0] = '0' + NOPS % 10;
    if (kind == MAP) { char f = 'a' + i; field_t fl = {.value = &f, .length = 1}; r = E->map_elem_update(EH, COOKIE, K, n, &fl, b, vl + 2, 0); }
    else { bkey_range br; co_range(&br, el_bkey(i), el_bkey(i)); eflag_update eu; memset(&eu, 0, sizeof eu); int w = sym_choose(3, "eup"); if (w == 1) { eu.neflag = 3; memset(eu.eflag, NOPS, 3); } else if (w == 2) { eu.neflag = 1; eu.bitwop = BITWISE_OP_XOR; eu.eflag[0] = 5; } r = E->btree_elem_update(EH, COOKIE, K, n, &br, w ? &eu : NULL, w == 2 ? NULL : b, w == 2 ? 0 : vl + 2, 0); }
    if (r == ENGINE_SUCCESS) sym_reach("updated"); break; }
  case P_HOLDEL: kind = kindof(k); if (kind <= KV || (h = hfree()) < 0) return; { int del = sym_choose(3, "getdel"); i = sym_choose(2, "one") ? (kind == SET ? 1 : sym_choose(H_NEL, "elem")) : kind == SET ? 0 : -1; r = co_get(kind, K, i, del > 0, del > 1, &H[h].er); if (r == ENGINE_SUCCESS) { H[h].st = HELEMS; H[h].kind = kind; hsnap(h); sym_reach("elements held"); if (del) sym_reach("elements held and removed"); } } break;
  case P_FLUSH: sym_choose(2, "pfx") ? E->flush(EH, COOKIE, "a", 1, 0) : E->flush(EH, COOKIE, NULL, -1, 0); break;
  case P_EXPIRE: eng_now += 20; break;
  case P_MISC: { kind = kindof(k); if (kind < 0) return;
    if (kind == BTREE) { bkey_range br; co_range(&br, el_bkey(0), el_bkey(H_NEL)); if ((h = hfree()) < 0) return;
      switch (sym_choose(4, "misc")) {
      case 0: { int pos; br.to_nbkey = BKEY_NULL; memset(&H[h].er, 0, sizeof H[h].er); r = E->btree_posi_find_with_get(EH, COOKIE, K, n, &br, BTREE_ORDER_ASC, 1, &pos, &H[h].er, 0); if (r == ENGINE_SUCCESS) { H[h].st = HELEMS; H[h].kind = BTREE; hsnap(h); sym_reach("pwg"); } break; }
      case 1: memset(&H[h].er, 0, sizeof H[h].er); r = E->btree_elem_get_by_posi(EH, COOKIE, K, n, BTREE_ORDER_DESC, 0, 1, &H[h].er, 0); if (r == ENGINE_SUCCESS) { H[h].st = HELEMS; H[h].kind = BTREE; hsnap(h); sym_reach("gbp"); } break;
      case 2: { uint64_t res; bkey_range b1; co_range(&b1, el_bkey(1), el_bkey(1)); b1.to_nbkey = BKEY_NULL; r = E->btree_elem_arithmetic(EH, COOKIE, K, n, &b1, true, true, sym_choose(2, "delta") ? 1000000 : 1, 100, NULL, &res, 0); if (r == ENGINE_SUCCESS) sym_reach("bop incr"); break; }
      default: { token_t kt[2]; smget_result_t sr; memset(&sr, 0, sizeof sr); int nk = NKEYS > 1 ? 2 : 1; size_t need = (4 + nk) * sizeof(eitem *) + 4 * sizeof(smget_ehit_t) + nk * sizeof(smget_emis_t); sr.elem_array = malloc(need); for (int j = 0; j < nk; j++) { memset(&kt[j], 0, sizeof kt[j]); kt[j].value = (char *)KEYS[j]; kt[j].length = strlen(KEYS[j]); }
        r = E->btree_elem_smget(EH, COOKIE, kt, nk, &br, NULL, 0, 4, sym_choose(2, "unique"), &sr, 0); if (r == ENGINE_SUCCESS && sr.elem_count) { H[h].er.elem_array = sr.elem_array; H[h].er.elem_count = sr.elem_count; H[h].st = HELEMS; H[h].kind = BTREE; hsnap(h); sym_reach("smget"); } else free(sr.elem_array); break; }
      } }
    break; }
  case P_SCAN: { static item *arr[120]; int cnt = 0; char cur[40]; uint32_t cv = sym_choose(NKEYS, "bucket");
    snprintf(cur, sizeof cur, "%u", scan_bucket(cv)); 
    r = E->keyscan(cur, 1, NULL, ITEM_TYPE_MAX, arr, 120, &cnt); if (r == ENGINE_SUCCESS) for (int j = 0; j < cnt; j++) { if ((h = hfree()) < 0) sym_fail("slots"); item_info inf; sym_assert(E->get_item_info(EH, COOKIE, arr[j], &inf), "info"); H[h].it = arr[j]; H[h].st = HITEM; int isk = 0; for (int q = 0; q < NKEYS; q++) if (kindof(q) == KV && inf.nkey == strlen(KEYS[q]) && !memcmp(inf.key, KEYS[q], inf.nkey)) isk = 1; if (!isk) { E->release(EH, COOKIE, arr[j]); H[h].st = HF; continue; } hsnap(h); sym_reach("scanned"); } break; }
  }
  (void)r;
}
#ifdef H_WRAP
int h_hash(const void *p, size_t n) { return H_WRAP; }
int h_rand(void) { static unsigned x = 12345; x = x * 1103515245u + 12345u; return (int)(x >> 1); }
#endif
static uint32_t keyhash(const void *d, size_t n) { const unsigned char *p = d; uint32_t h = 0; for (size_t i = 0; i < n; i++) h = h * 33 + p[i]; return h & 0xff; }
uint32_t scan_bucket(int k) { return keyhash(KEYS[k], strlen(KEYS[k])); }
static char before[6000], after[6000];
void harness(void) {
  eng_hashfn = keyhash; eng_init("cache_size=33554432;eviction=false"); sym_assert(stub_live == 0, "nothing allocated at start");
#if H_PRE
  { item_attr a; int kind = KINDS[sym_choose(NKIND, "prekind")]; for (int i = 0; i < H_PRE; i++) { ENGINE_ERROR_CODE r = co_put(kind, KEYS[0], i, VL[i % NVL], 1, i ? NULL : mkattr(&a)); if (r != ENGINE_SUCCESS) sym_fail("preload"); } }
#endif
  for (int s = 0; s < H_N; s++) {
#ifdef H_FAIL
    int last = s == H_N - 1; uint32_t nb = 0; if (last) { nb = dump(before, sizeof before); stub_failed = 0; stub_fail_at = sym_choose(H_FAIL, "fail"); }
    op(); stub_fail_at = -1; hcheck();
    if (last && stub_failed) { uint32_t na = dump(after, sizeof after); sym_reach("allocation failed"); sym_assert(na == nb && memcmp(before, after, na) == 0, "an operation that runs out of memory leaves every key as it was"); }
#else
    op(); hcheck();
#endif
  }
  if (sym_choose(2, "endorder")) { for (int k = 0; k < NKEYS; k++) E->remove(EH, COOKIE, KEYS[k], strlen(KEYS[k]), 0, 0); eng_bg(); hcheck(); for (int h = 0; h < HMAX; h++) if (H[h].st) hrel(h); }
  else { for (int h = HMAX - 1; h >= 0; h--) if (H[h].st) { hrel(h); hcheck(); } for (int k = 0; k < NKEYS; k++) E->remove(EH, COOKIE, KEYS[k], strlen(KEYS[k]), 0, 0); }
  eng_bg(); sym_assert(stub_live == 0 && stub_used == 0, "everything is freed when nothing is stored or held"); sym_reach("end");
}

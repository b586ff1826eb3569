/* Sort-merge get over several b+trees, against a merge computed from the stored contents. */
#include "eng.h"
#ifndef H_NT
#define H_NT 2
#endif
#ifndef H_CAP
#define H_CAP 12
#endif
#ifndef H_OFF
#define H_OFF {0,1}
#endif
#ifndef H_CNT
#define H_CNT {1,3}
#endif
typedef struct { unsigned char b[32]; uint8_t nb, f, nf; char v[3]; } me;
typedef struct { int kind, n, ov, trimmed; me e[H_CAP]; unsigned flags; } tree;   /* kind 0: absent 1: b+tree 2: unreadable 3: key-value 4: list */
static tree T[H_NT + 1]; static const char *KEYS[] = {"m", "b", "mm", "c"}; static int gbin;
#define RNB(n) ((n) ? (n) : 8)
static uint64_t u64(const unsigned char *p) { uint64_t v; memcpy(&v, p, 8); return v; }
static int cmp(const unsigned char *a, int na, const unsigned char *b, int nb) { if (na == 0) { uint64_t x = u64(a), y = u64(b); return sym_conc(x < y ? -1 : x > y); } int c = memcmp(a, b, na < nb ? na : nb); c = c ? c : na - nb; return sym_conc(c < 0 ? -1 : c > 0); }
static void put(int t, const me *x) { const char *K = KEYS[t]; eitem *e = NULL; eitem_info inf; bool rp, cr;
  if (E->btree_elem_alloc(EH, COOKIE, K, strlen(K), x->nb, x->nf, 4, &e) != ENGINE_SUCCESS) sym_fail("alloc");
  E->get_elem_info(EH, COOKIE, ITEM_TYPE_BTREE, e, &inf); memcpy((void *)inf.score, x->b, RNB(x->nb)); if (x->nf) *(unsigned char *)inf.eflag = x->f; memcpy((char *)inf.value, x->v, 2); memcpy((char *)inf.value + 2, "\r\n", 2);
  ENGINE_ERROR_CODE r = E->btree_elem_insert(EH, COOKIE, K, strlen(K), e, false, NULL, &rp, &cr, NULL, 0); sym_assert(r == ENGINE_SUCCESS, "insert"); if (r != ENGINE_SUCCESS) E->btree_elem_free(EH, COOKIE, e); }
static void bkof(me *x, uint64_t v) { memset(x->b, 0, 32); if (gbin) { x->nb = 1 + v % 3 / 2; x->b[0] = v >> 1; x->b[1] = v; } else { x->nb = 0; memcpy(x->b, &v, 8); } }
#ifndef H_KINDS
#define H_KINDS {1}
#endif
#ifndef H_OVS
#define H_OVS {OVFL_ERROR}
#endif
static void mk_tree(int t) {
  static const int kinds[] = H_KINDS; tree *x = &T[t]; const char *K = KEYS[t]; memset(x, 0, sizeof *x);
  x->kind = kinds[sym_choose(sizeof kinds / sizeof *kinds, "kind")]; if (!x->kind) return;
  if (x->kind == 3) { kv_store(K, strlen(K), OPERATION_SET, "v", 1, 0, 0, 0, NULL); return; }
  item_attr a; memset(&a, 0, sizeof a); a.readable = x->kind != 2; x->flags = a.flags = 40 + t;
  static const int ovs[] = H_OVS; x->ov = ovs[sym_choose(sizeof ovs / sizeof *ovs, "ov")];
#ifdef H_NS
  static const int ns[] = H_NS; x->n = ns[sym_choose(sizeof ns / sizeof *ns, "n")];
#else
  x->n = 2;
#endif
  if (x->kind == 4) { a.ovflaction = OVFL_TAIL_TRIM; E->list_struct_create(EH, COOKIE, K, strlen(K), &a, 0); return; }
  a.ovflaction = x->ov; a.maxcount = x->n ? x->n : 1; if (E->btree_struct_create(EH, COOKIE, K, strlen(K), &a, 0) != ENGINE_SUCCESS) sym_fail("create");
  int tr = x->n && x->ov != OVFL_ERROR; x->trimmed = tr && (x->ov == OVFL_SMALLEST_TRIM || x->ov == OVFL_LARGEST_TRIM);
  me y; memset(&y, 0, sizeof y); memcpy(y.v, "zz", 2);
  if (tr) { if (x->ov == OVFL_SMALLEST_TRIM || x->ov == OVFL_SMALLEST_SILENT_TRIM) bkof(&y, 0); else { bkof(&y, gbin ? 500 : ~0ULL); } put(t, &y); }
#ifdef H_PAT      /* H_PAT: bkey of element i of tree t in pattern p */
#ifdef H_SAMEPAT
  static int p; if (t == 0) p = sym_choose(H_NPAT, "pattern");
#else
  int p = sym_choose(H_NPAT, "pattern");
#endif
#endif
  for (int i = 0; i < x->n; i++) { me *q = &x->e[i];
#ifdef H_PAT
    bkof(q, H_PAT(p, t, i));
#else
    uint64_t v = sym_u64("bk"); sym_assume(v > 0 && v < ~0ULL); bkof(q, v); if (i) sym_assume(cmp(q[-1].b, 0, q->b, 0) < 0);
#endif
#ifdef H_FLT
    q->nf = sym_choose(2, "hasflag"); q->f = q->nf ? sym_u8("eflag") : 0;
#endif
    q->v[0] = 'a' + t; q->v[1] = '0' + i; put(t, q); }
}
typedef struct { int t, i; } ref;
static int rcmp(ref a, ref b) { me *x = &T[a.t].e[a.i], *y = &T[b.t].e[b.i]; int c = cmp(x->b, x->nb, y->b, y->nb); return c ? c : strcmp(KEYS[a.t], KEYS[b.t]); }
static void same(eitem *e, const me *x) { eitem_info inf; E->get_elem_info(EH, COOKIE, ITEM_TYPE_BTREE, e, &inf);
  sym_assert(inf.nscore == x->nb && memcmp(inf.score, x->b, RNB(x->nb)) == 0 && inf.neflag == x->nf && (!x->nf || inf.eflag[0] == x->f) && inf.nbytes == 4 && memcmp(inf.value, x->v, 2) == 0, "smget returns the merged elements in order"); }
#ifdef H_HOLD
static uint32_t near(const void *d, size_t n) { return 1 + n; }   /* low hash buckets: one key scan step reaches every key */
#endif
void harness(void) {
#ifdef H_HOLD
  eng_hashfn = near;
#endif
  eng_init("cache_size=8388608");
#ifdef H_BIN
  gbin = 1;
#endif
  for (int t = 0; t < H_NT; t++) mk_tree(t);
  /* request */
  static const int off[] = H_OFF, cnt[] = H_CNT; int offset = off[sym_choose(sizeof off / sizeof *off, "offset")], count = cnt[sym_choose(sizeof cnt / sizeof *cnt, "count")], mode = sym_choose(H_MODES, "mode"); /* 0 duplicate 1 unique 2 old */
#ifdef H_OLD
  mode = 2;
#endif
  bkey_range R; memset(&R, 0, sizeof R); me a, b;
#ifdef H_WIN
  bkof(&a, sym_range(H_WIN, "from")); bkof(&b, sym_range(H_WIN, "to"));
#elif defined(H_PTS)   /* range ends out of a list */
  { static const uint64_t pts[] = H_PTS; bkof(&a, pts[sym_choose(sizeof pts / sizeof *pts, "from")]); bkof(&b, pts[sym_choose(sizeof pts / sizeof *pts, "to")]); }
#elif defined(H_BIN)
  a.nb = b.nb = 1; memset(a.b, 0, 32); memset(b.b, 0, 32); a.b[0] = sym_u8("from"); b.b[0] = sym_u8("to");
#else
  bkof(&a, sym_u64("from")); bkof(&b, sym_u64("to"));
#endif
  memcpy(R.from_bkey, a.b, 31); R.from_nbkey = a.nb; memcpy(R.to_bkey, b.b, 31); R.to_nbkey = b.nb;
#ifdef H_WRONGTYPE
  if (sym_choose(2, "binary range")) { R.from_nbkey = R.to_nbkey = 2; }
#endif
  eflag_filter F, *f = NULL; memset(&F, 0, sizeof F);
#ifdef H_FLT
  if (sym_choose(2, "filter")) { f = &F; F.ncompval = 1; F.compvcnt = 1; F.compop = COMPARE_OP_EQ; F.compval[0] = sym_u8("comp"); }
#endif
  int nk = H_NT; token_t kt[H_NT + 1]; int kt_t[H_NT + 1];
  int rot = sym_choose(H_NT, "rotate"); for (int i = 0; i < nk; i++) kt_t[i] = (i + rot) % H_NT;
#ifdef H_DUPKEY
  if (sym_choose(2, "dupkey")) { kt_t[nk] = kt_t[sym_choose(nk, "which")]; nk++; }
#endif
  for (int i = 0; i < nk; i++) { kt[i].value = (char *)KEYS[kt_t[i]]; kt[i].length = strlen(KEYS[kt_t[i]]); }
  /* ---- expectation ---- */
  int dir = cmp(R.from_bkey, R.from_nbkey, R.to_bkey, R.to_nbkey) <= 0 ? 1 : -1;
  const unsigned char *lo = dir > 0 ? R.from_bkey : R.to_bkey, *hi = dir > 0 ? R.to_bkey : R.from_bkey; int nlo = R.from_nbkey, nhi = R.from_nbkey;
#ifdef H_BIN
  nlo = nhi = 1; if (dir > 0) { nlo = a.nb; nhi = b.nb; } else { nlo = b.nb; nhi = a.nb; }
#endif
  ENGINE_ERROR_CODE want = ENGINE_SUCCESS; int nmiss = 0, miss[H_NT + 1], code[H_NT + 1]; ref L[(H_NT + 1) * H_CAP]; int nl = 0; int endtrim[H_NT + 1], lastm[H_NT + 1]; ref lastel[H_NT + 1];
  for (int i = 0; i < nk && want == ENGINE_SUCCESS; i++) { int t = kt_t[i]; tree *x = &T[t]; endtrim[t] = 0; lastm[t] = -1;
    if (x->kind == 0) { miss[nmiss] = i; code[nmiss++] = ENGINE_KEY_ENOENT; continue; }
    if (x->kind >= 3) { want = ENGINE_EBADTYPE; break; }
    if (x->kind == 2) { miss[nmiss] = i; code[nmiss++] = ENGINE_UNREADABLE; continue; }
    if (x->n == 0) continue;
    if ((R.from_nbkey == 0) != (x->e[0].nb == 0)) { want = ENGINE_EBADBKEY; break; }
    int first = -1, last = -1;                     /* elements in range, ascending indexes */
    for (int j = 0; j < x->n; j++) if (cmp(x->e[j].b, x->e[j].nb, lo, nlo) >= 0 && cmp(x->e[j].b, x->e[j].nb, hi, nhi) <= 0) { if (first < 0) first = j; last = j; }
    int below = cmp(lo, nlo, x->e[0].b, x->e[0].nb) < 0, above = cmp(hi, nhi, x->e[x->n - 1].b, x->e[x->n - 1].nb) > 0; /* the range reaches below the smallest / above the largest element */
    int sm = x->trimmed && x->ov == OVFL_SMALLEST_TRIM, lg = x->trimmed && x->ov == OVFL_LARGEST_TRIM;
    int oor = dir > 0 ? sm && below : lg && above;
    if (first < 0 && ((sm && below) || (lg && above))) oor = 1;
    if (oor) { sym_reach("oor"); if (mode == 2) want = ENGINE_EBKEYOOR; else { miss[nmiss] = i; code[nmiss++] = ENGINE_EBKEYOOR; } continue; }
    if (first < 0) continue;
    int m = 0; for (int j = first; j <= last; j++) { if (f && !(x->e[j].nf && x->e[j].f == F.compval[0])) continue; m++; lastm[t] = dir > 0 || lastm[t] < 0 ? j : lastm[t]; ref r = {t, j}; int q = nl++; while (q > 0 && dir * rcmp(r, L[q - 1]) < 0) { L[q] = L[q - 1]; q--; } L[q] = r; nl = sym_conc(nl); }
    endtrim[t] = dir > 0 ? lg && above : sm && below; lastel[t].t = t; lastel[t].i = dir > 0 ? last : first;
    if (mode == 2 && m == 0 && endtrim[t]) want = ENGINE_EBKEYOOR;
  }
  if (mode == 1) { int k = 0; for (int i = 0; i < nl; i++) { if (i && cmp(T[L[i].t].e[L[i].i].b, T[L[i].t].e[L[i].i].nb, T[L[k - 1].t].e[L[k - 1].i].b, T[L[k - 1].t].e[L[k - 1].i].nb) == 0) { sym_reach("same-bkey"); continue; } L[k++] = L[i]; } nl = k; }
  int must = 0, may = 0;
#ifdef H_DUPKEY      /* a key named twice is refused; when none of its elements is among the first offset + count, it may go unnoticed */
  if (nk > H_NT && want == ENGINE_SUCCESS && T[kt_t[nk - 1]].kind == 1) { int t = kt_t[nk - 1], w = 0; for (int i = 0; i < nl; i++) if (L[i].t == t) { if (i < offset + count) must = 1; } if (lastm[t] >= 0) may = 1; if (must || may) { int k = 0; for (int i = 0; i < nl; i++) if (!(i && L[i].t == L[i - 1].t && L[i].i == L[i - 1].i)) L[k++] = L[i]; nl = k; } }
#endif
  int trunc = 0;
  if (mode == 2) { int found = 0; for (int i = 0; i < nl; i++) { if (found && cmp(T[L[i].t].e[L[i].i].b, T[L[i].t].e[L[i].i].nb, T[L[i - 1].t].e[L[i - 1].i].b, T[L[i - 1].t].e[L[i - 1].i].nb) != 0) { nl = i; break; } if (endtrim[L[i].t] && lastm[L[i].t] == L[i].i) { found = 1; if (i + 1 >= offset + count) break; } } trunc = found; }
  int s = offset < nl ? offset : nl, n = nl - s < count ? nl - s : count; if (n == count) trunc = 0;
  int dup = 0; for (int i = s + 1; i < s + n; i++) if (cmp(T[L[i].t].e[L[i].i].b, T[L[i].t].e[L[i].i].nb, T[L[i - 1].t].e[L[i - 1].i].b, T[L[i - 1].t].e[L[i - 1].i].nb) == 0) dup = 1;
  /* ---- the real thing; the result array has exactly the size the server allocates ---- */
#ifdef H_HOLD
  item *hit[200]; int nheld = 0, ht = sym_choose(H_NT, "held"); char cursor[32] = "0";
  if (T[ht].kind) { E->keyscan(cursor, 100, KEYS[ht], ITEM_TYPE_MAX, hit, 200, &nheld); sym_assert(nheld == 1, "key scan finds the key"); }
#endif
  if (mode < 2) {
    smget_result_t S; memset(&S, 0, sizeof S); size_t need = (count + nk) * sizeof(eitem *) + count * sizeof(smget_ehit_t) + nk * sizeof(smget_emis_t); S.elem_array = malloc(need);
    ENGINE_ERROR_CODE r = E->btree_elem_smget(EH, COOKIE, kt, nk, &R, f, offset, count, mode == 1, &S, 0);
    if (r == ENGINE_EBADVALUE && may) { sym_reach("dupkey"); want = r; } sym_assert(r == want && (!must || r == ENGINE_EBADVALUE), "result of smget");
    if (r == ENGINE_SUCCESS) {
      sym_assert(S.elem_count == n, "smget returns all and only the elements asked for"); sym_assert(S.duplicated == (mode == 0 && dup), "smget tells whether bkeys are duplicated"); sym_assert(S.ascending == (dir > 0), "smget order");
      for (int i = 0; i < n; i++) { same(S.elem_array[i], &T[L[s + i].t].e[L[s + i].i]); int kx = sym_conc(S.elem_kinfo[i].kidx); sym_assert(kx < nk && kt_t[kx] == L[s + i].t && S.elem_kinfo[i].flag == T[L[s + i].t].flags, "each element names its key and the flags of its item"); }
      sym_assert(S.miss_count == nmiss, "number of missed keys"); for (int i = 0; i < nmiss; i++) sym_assert(S.miss_kinfo[i].kidx == miss[i] && S.miss_kinfo[i].code == code[i], "missed keys and their causes");
      int nt = 0; for (int t = 0; t < H_NT; t++) if (endtrim[t]) { int in = 0; for (int i = 0; i < nk; i++) if (kt_t[i] == t) in = i; me *q = &T[t].e[lastel[t].i], *z = n == count ? &T[L[s + n - 1].t].e[L[s + n - 1].i] : NULL;
        if (z && dir * cmp(q->b, q->nb, z->b, z->nb) >= 0) continue; nt++; int k = 0; for (uint32_t i = 0; i < S.trim_count; i++) if (S.trim_kinfo[i].kidx == in) { k++; eitem_info inf; E->get_elem_info(EH, COOKIE, ITEM_TYPE_BTREE, S.trim_elems[i], &inf); sym_assert(inf.nscore == q->nb && memcmp(inf.score, q->b, RNB(q->nb)) == 0, "a trimmed key names the last bkey before the trim"); }
        sym_assert(k == 1, "a key whose trimmed elements belong into the result is reported once"); sym_reach("trimmed"); }
      sym_assert(S.trim_count == nt, "number of trimmed keys");
      for (uint32_t i = 1; i < S.trim_count; i++) { eitem_info p, q; E->get_elem_info(EH, COOKIE, ITEM_TYPE_BTREE, S.trim_elems[i - 1], &p); E->get_elem_info(EH, COOKIE, ITEM_TYPE_BTREE, S.trim_elems[i], &q); sym_assert(dir * cmp(p.score, p.nscore, q.score, q.nscore) <= 0, "trimmed keys are sorted by bkey"); }
      /* the server releases found and trimmed elements together */
      E->btree_elem_release(EH, COOKIE, S.elem_array, S.elem_count + S.trim_count); sym_reach(mode ? "unique" : "dupmode"); if (n == count && nl > s + n) sym_reach("cut"); if (dup) sym_reach("duplicated");
    } else sym_reach("error");
    free(S.elem_array);
  }
#ifdef JHPARK_OLD_SMGET_INTERFACE
  else {
    int q = offset + count; eitem **arr = malloc(q * sizeof(eitem *)); uint32_t *kf = malloc(q * 4), *fl = malloc(q * 4), *km = malloc(nk * 4), ec = 0, kc = 0; bool tr, du;
    ENGINE_ERROR_CODE r = E->btree_elem_smget_old(EH, COOKIE, kt, nk, &R, f, offset, count, arr, kf, fl, &ec, km, &kc, &tr, &du, 0);
    if (r == ENGINE_EBADVALUE && may) { sym_reach("dupkey"); want = r; } sym_assert(r == want && (!must || r == ENGINE_EBADVALUE), "result of smget (old)");
    if (r == ENGINE_SUCCESS) {
      sym_assert(ec == n && tr == trunc && du == dup, "smget (old): number of elements, trimmed, duplicated");
      for (int i = 0; i < n; i++) { same(arr[i], &T[L[s + i].t].e[L[s + i].i]); int kx = sym_conc(kf[i]); sym_assert(kx < nk && kt_t[kx] == L[s + i].t && fl[i] == T[L[s + i].t].flags, "each element names its key and flags"); }
      sym_assert(kc == nmiss, "number of missed keys (old)"); for (int i = 0; i < nmiss; i++) sym_assert(km[i] == miss[i], "missed keys (old)");
      E->btree_elem_release(EH, COOKIE, arr, ec); sym_reach("old"); if (trunc) sym_reach("old-trimmed");
    } else sym_reach("error");
    free(arr); free(kf); free(fl); free(km);
  }
#endif
#ifdef H_HOLD
  if (nheld) { /* a reference taken before the smget must survive it */
    E->remove(EH, COOKIE, KEYS[ht], strlen(KEYS[ht]), 0, 0); T[ht].kind = 0; eng_bg(); char big[64]; memset(big, 'x', 64); for (int i = 0; i < 8; i++) { char k[2] = {'p', 'a' + i}; kv_store(k, 2, OPERATION_SET, big, 4 + 8 * i, 0, 0, 0, NULL); } item_info inf; E->get_item_info(EH, COOKIE, hit[0], &inf); sym_assert(inf.nkey == strlen(KEYS[ht]) && memcmp(inf.key, KEYS[ht], inf.nkey) == 0, "an item referenced during smget is not freed"); E->release(EH, COOKIE, hit[0]); for (int i = 0; i < 8; i++) { char k[2] = {'p', 'a' + i}; E->remove(EH, COOKIE, k, 2, 0, 0); } sym_reach("held"); }
#endif
  /* contents are unchanged and nothing stays referenced: everything can be deleted */
  for (int t = 0; t < H_NT; t++) if (T[t].kind) sym_assert(E->remove(EH, COOKIE, KEYS[t], strlen(KEYS[t]), 0, 0) == ENGINE_SUCCESS, "delete");
  eng_bg(); sym_assert(eng_stat(NULL, "curr_items") == 0, "nothing is left");
  sym_reach("end");
}

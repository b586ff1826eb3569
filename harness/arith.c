/* C02: incr / decr as exact 64-bit counters */
#include "eng.h"
static int is_ws(int c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
static int is_dg(int c) { return (c >= '0') & (c <= '9'); }
static char buf[64]; static uint32_t blen;
static ENGINE_ERROR_CODE arith(const char *k, int inc, int create, uint64_t delta, uint64_t init, uint32_t fl, rel_time_t ex, uint64_t *cas, uint64_t *res) { return E->arithmetic(EH, COOKIE, k, (int)strlen(k), inc, create, delta, init, (int)fl, ex, cas, res, 0); }
/* the stored text is the canonical decimal form of v */
static void check_text(const char *k, uint64_t v, uint32_t flags, uint64_t cas, uint32_t exp) {
  uint32_t fl; uint64_t c2; ENGINE_ERROR_CODE r = kv_get(k, strlen(k), buf, sizeof buf, &blen, &fl, &c2);
  sym_assert(r == ENGINE_SUCCESS, "the counter can be read back"); sym_assert(blen >= 1 && blen <= 20, "the stored counter has 1 to 20 characters");
  uint64_t x = 0; int ok = 1; uint32_t i = 0; unsigned long long u; int big = blen == 20 && buf[0] == '1';
  if (sym__undigits(buf + big, &u) == (int)(blen - big)) { x = u; i = blen; }
  else if (blen == 20) { ok &= buf[0] == '1'; i = 1; }        /* 2^64 < 2*10^19 */
  for (; i < blen; i++) { ok &= is_dg((unsigned char)buf[i]); x = x * 10 + (unsigned)((unsigned char)buf[i] - '0'); }
  sym_assert(ok, "the stored counter is made of decimal digits"); if (blen > 1) sym_assert(buf[0] != '0', "the stored counter has no leading zero");
  sym_assert(blen == 20 ? x == v - 10000000000000000000ULL : x == v, "a following get returns exactly the reported number");
  sym_assert(fl == flags, "the counter keeps its flags"); sym_assert(c2 == cas, "the reported CAS is the one a get shows");
  item_attr at; ENGINE_ITEM_ATTR id = ATTR_EXPIRETIME; memset(&at, 0, sizeof at); r = E->getattr(EH, COOKIE, k, (int)strlen(k), &id, 1, &at, 0); sym_assert(r == ENGINE_SUCCESS && at.exptime == exp, "the counter keeps its expiry");
}
static uint64_t expect(uint64_t v, int inc, uint64_t d) { return inc ? v + d : (d > v ? 0 : v - d); }
static void readback_same(const char *k, const char *v, uint32_t n, uint32_t fl, uint64_t cas) {
  uint32_t n2, f2; uint64_t c2; ENGINE_ERROR_CODE r = kv_get(k, strlen(k), buf, sizeof buf, &n2, &f2, &c2);
  sym_assert(r == ENGINE_SUCCESS && n2 == n && memcmp(buf, v, n) == 0 && f2 == fl && c2 == cas, "a refused incr/decr leaves the item untouched");
}
void harness(void) {
  eng_init(NULL);
  uint64_t cas0 = 0, cas = 0, res = 0; uint32_t fl = sym_u32("flags"); ENGINE_ERROR_CODE r;
#if H_MODE == 1   /* arbitrary short values over memory that held arbitrary bytes before */
  char st[10]; sym__bytes(st, 10, "stale"); kv_store("k", 1, OPERATION_SET, st, 10, 0, 0, 0, NULL); E->remove(EH, COOKIE, "k", 1, 0, 0);
  uint32_t n = sym_choose(H_LEN + 1, "n"); char v[H_LEN + 1]; sym__bytes(v, n, "v");
  r = kv_store("k", 1, OPERATION_SET, v, n, fl, 0, 0, &cas0); sym_assert(r == ENGINE_SUCCESS, "set");
  uint64_t d = sym_u64("delta"); int inc = sym_choose(2, "inc"), cr = sym_choose(2, "create");
  r = arith("k", inc, cr, d, 12345, 9, 0, &cas, &res); sym_observe(r);
  int all = n > 0, any = 0; uint64_t val = 0; for (uint32_t i = 0; i < n; i++) { all &= is_dg((unsigned char)v[i]); any |= is_dg((unsigned char)v[i]); val = val * 10 + (unsigned)((unsigned char)v[i] - '0'); }
  if (all) { sym_assert(r == ENGINE_SUCCESS, "a decimal value can be incremented and decremented"); sym_assert(res == expect(val, inc, d), "the reported number is exact"); check_text("k", expect(val, inc, d), fl, cas, 0); sym_assert(cas != cas0, "fresh CAS"); sym_reach("num"); }
  else if (!any) { sym_assert(r == ENGINE_EINVAL, "a value without digits is not a number"); sym_reach("nan"); }
  else { int lead = 0; while (lead < (int)n && is_ws((unsigned char)v[lead])) lead++; int plus = lead < (int)n && (v[lead] == '+' || v[lead] == '-'); int first = lead + plus; uint64_t x = 0; int i = first; while (i < (int)n && is_dg((unsigned char)v[i])) { x = x * 10 + (unsigned)((unsigned char)v[i] - '0'); i++; }
    if (i == first || (i < (int)n && v[i] && !is_ws((unsigned char)v[i])))   /* a NUL ends the text like a blank */
      sym_assert(r == ENGINE_EINVAL, "a value that is not a number is refused");
    else if (r == ENGINE_SUCCESS) { sym_assert(!(plus && v[lead] == '-') || x == 0, "a negative value is refused"); sym_assert(res == expect(x, inc, d), "the reported number is exact"); } }
  if (r != ENGINE_SUCCESS) readback_same("k", v, n, fl, cas0);
#elif H_MODE == 2   /* values around the 64-bit limits */
  static const char *lim[] = {"18446744073709551615", "18446744073709551600", "9223372036854775807", "9223372036854775808", "10000000000000000000", "18446744073709551616", "99999999999999999999", "9999999999999999999", "0", "000000000000000000000000000012"};
  int li = sym_choose(10, "limit"); const char *l = lim[li]; int k = (int)strlen(l); char v[40]; for (int i = 0; i < k; i++) { if (i >= k - H_LEN && i > 0) { unsigned char c = sym_u8("digit"); sym_assume(is_dg(c)); v[i] = (char)c; } else v[i] = l[i]; } v[k] = 0;
  uint32_t ex = 5000 + sym_u16("exp"); kv_store("k", 1, OPERATION_SET, v, k, fl, ex, 0, &cas0);
  /* surroundings with minus signs and digits must not matter */
  kv_store("l", 1, OPERATION_SET, "-1-2-3-4-5-6-7-8-9-", 19, 0, 0, 0, NULL);
  uint64_t d = sym_u64("delta"); int inc = sym_choose(2, "inc");
  r = arith("k", inc, 0, d, 0, 0, 0, &cas, &res); sym_observe(r); sym_observe(res);
  int z = 0; while (z < k - 1 && v[z] == '0') z++; int sig = k - z; int big = sig > 20 || (sig == 20 && memcmp(v + z, "18446744073709551615", 20) > 0); uint64_t val = 0; for (int i = 0; i < k; i++) val = val * 10 + (unsigned)((unsigned char)v[i] - '0');
  if (big) { sym_assert(r == ENGINE_EINVAL, "a number beyond 64 bits is refused"); readback_same("k", v, k, fl, cas0); sym_reach("big"); }
  else { sym_assert(r == ENGINE_SUCCESS, "a 64-bit number can be incremented and decremented"); sym_assert(res == expect(val, inc, d), "the reported number is exact"); check_text("k", expect(val, inc, d), fl, cas, ex); sym_reach("num"); if (inc && val + d < val) sym_reach("wrap"); if (!inc && d > val) sym_reach("floor"); }
#elif H_MODE == 3   /* create, then a second update; and wrong types */
#ifdef H_ALL
  uint64_t init = sym_u64("init");
#else
  static const uint64_t base[] = {0, 999999950ULL, 9999999999999999950ULL, 0xffffffffffff0000ULL}; static const int span[] = {120, 120, 120, 65535};
  int bi = sym_choose(4, "range"); uint64_t init = base[bi] + (uint64_t)sym_range(0, span[bi], "init");
#endif
  uint64_t d = sym_u64("delta"), d2 = sym_u64("delta2"); uint32_t ex = 2000 + sym_u16("exp"); int inc = sym_choose(2, "inc"), inc2 = sym_choose(2, "inc2");
  r = arith("k", inc, 0, d, init, fl, ex, &cas, &res); sym_assert(r == ENGINE_KEY_ENOENT, "incr/decr of a missing key reports the miss");
  r = kv_get("k", 1, buf, sizeof buf, &blen, NULL, NULL); sym_assert(r == ENGINE_KEY_ENOENT, "a missed incr creates nothing");
  r = arith("k", inc, 1, d, init, fl, ex, &cas, &res); sym_assert(r == ENGINE_SUCCESS && res == init, "incr with create stores the initial value"); check_text("k", init, fl, cas, ex); sym_reach("create");
  uint64_t cas2 = 0; r = arith("k", inc2, 1, d2, 77, 1, 0, &cas2, &res); sym_assert(r == ENGINE_SUCCESS && res == expect(init, inc2, d2), "the second update is exact"); sym_assert(cas2 != cas, "fresh CAS"); check_text("k", expect(init, inc2, d2), fl, cas2, ex);
#elif H_MODE == 4
  uint64_t init = sym_u8("init"), d = sym_u64("delta"); uint32_t ex = 2000 + sym_u16("exp"); int inc = sym_choose(2, "inc"), inc2 = sym_choose(2, "inc2");
  r = arith("k", inc, 1, d, init, fl, ex, &cas, &res); sym_assert(r == ENGINE_SUCCESS && res == init, "incr with create stores the initial value");
  { eng_now = ex - 1; uint64_t cas2; r = arith("k", inc, inc2, d, init, 0, 0, &cas2, &res); sym_assert(r == ENGINE_SUCCESS && res == expect(init, inc, d), "a counter lives until its expiry time");
    eng_now = ex; r = arith("k", inc, 0, d, init, fl, 0, &cas, &res); sym_assert(r == ENGINE_KEY_ENOENT, "an expired counter is a miss"); sym_reach("expired");
    item_attr at; memset(&at, 0, sizeof at); at.readable = 1; int t = sym_choose(4, "ctype"); const char *k = "c";
    r = t == 0 ? E->list_struct_create(EH, COOKIE, k, 1, &at, 0) : t == 1 ? E->set_struct_create(EH, COOKIE, k, 1, &at, 0) : t == 2 ? E->map_struct_create(EH, COOKIE, k, 1, &at, 0) : E->btree_struct_create(EH, COOKIE, k, 1, &at, 0); sym_assert(r == ENGINE_SUCCESS, "create");
    r = arith("c", inc, inc2, d, init, fl, 0, &cas, &res); sym_assert(r == ENGINE_EBADTYPE, "incr/decr of a collection is a type error"); }
#endif
  sym_reach("end");
}

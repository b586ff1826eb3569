/* C01: values of many lengths (every allocator class border) are stored, extended and returned byte for byte */
#include "eng.h"
static unsigned char ref[40000]; static char out[40000];
static const unsigned L[] = {0, 40, 60, 80, 100, 120, 200, 400, 600, 900, 1200, 2000, 2300, 2600, 4000, 5000, 6500, 8000, 10000, 16000, 30000};
static void pat(unsigned char *p, unsigned n, unsigned char a, unsigned char b) { for (unsigned i = 0; i < n; i++) p[i] = (unsigned char)(i * 7 + 3); if (n) { p[0] = a; p[n - 1] = b; p[n / 2] = a ^ b; } }
static void check(const char *k, unsigned n, uint32_t fl, uint64_t cas) {
  uint32_t m, f; uint64_t c; ENGINE_ERROR_CODE r = kv_get(k, strlen(k), out, sizeof out, &m, &f, &c);
  sym_assert(r == ENGINE_SUCCESS, "the key is found"); sym_assert(m == n, "get returns the stored length"); sym_assert(memcmp(out, ref, n) == 0, "get returns the stored bytes"); sym_assert(f == fl && c == cas, "get returns flags and CAS"); }
void harness(void) {
  eng_init(NULL); uint32_t fl = sym_u32("flags"); uint64_t cas, c2; ENGINE_ERROR_CODE r; unsigned char a = sym_u8("a"), b = sym_u8("b");
  unsigned n = L[sym_choose(sizeof L / sizeof *L, "len")] + sym_choose(6, "plus") * 3;
  /* a neighbour that must not be disturbed */
  kv_store("nb", 2, OPERATION_SET, "neighbour", 9, 7, 0, 0, &c2);
  pat(ref, n, a, b); r = kv_store("k", 1, OPERATION_SET, ref, n, fl, 0, 0, &cas); sym_assert(r == ENGINE_SUCCESS, "set stores"); check("k", n, fl, cas);
  unsigned e = 1 + sym_choose(3, "ext") * 37, pre = sym_choose(2, "pre"); unsigned char x[128]; for (unsigned i = 0; i < e; i++) x[i] = (unsigned char)(i + 100); x[0] = b;
  r = kv_store("k", 1, pre ? OPERATION_PREPEND : OPERATION_APPEND, x, e, 0, 0, 0, &cas); sym_assert(r == ENGINE_SUCCESS, "append/prepend stores"); sym_reach("attach");
  if (pre) { memmove(ref + e, ref, n); memcpy(ref, x, e); } else memcpy(ref + n, x, e);
  n += e; check("k", n, fl, cas);
  uint32_t m, f; uint64_t c3; r = kv_get("nb", 2, out, sizeof out, &m, &f, &c3); sym_assert(r == ENGINE_SUCCESS && m == 9 && memcmp(out, "neighbour", 9) == 0 && f == 7 && c3 == c2, "other items are untouched");
  r = E->remove(EH, COOKIE, "k", 1, 0, 0); sym_assert(r == ENGINE_SUCCESS, "delete"); r = kv_get("k", 1, out, 10, &m, &f, &c3); sym_assert(r == ENGINE_KEY_ENOENT, "deleted"); sym_reach("end");
}

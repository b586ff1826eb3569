/* C21: number / hex / name / pattern parsing against independent specifications */
#include "config.h"
#include "sym.h"
#include <stdbool.h>
#include <stdlib.h>
#include "memcached/util.h"
#ifndef H_LEN
#define H_LEN 4
#endif
static int is_ws(int c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
static int is_dg(int c) { return (c >= '0') & (c <= '9'); }
enum { BAD = 0, GOOD = 1 };
typedef struct { int form; int strict; int neg; int big; uint64_t mag; } spec_t;
/* grammar: ws* [+-] digit+ (end | ws ...) ; big: magnitude >= 2^64 (only possible with > 19 digits) */
static spec_t spec(const char *s) {
  spec_t r = {BAD, 1, 0, 0, 0}; int i = 0, nd = 0;
  while (is_ws((unsigned char)s[i])) { i++; r.strict = 0; }
  if (s[i] == '-') { r.neg = 1; i++; } else if (s[i] == '+') { r.strict = 0; i++; }
  int st = i, sig = 0;
  while (is_dg((unsigned char)s[i])) { unsigned d = (unsigned)((unsigned char)s[i] - '0'); if (!sig && s[i] != '0') st = i; r.mag = r.mag * 10 + d; if (sig || s[i] != '0') sig++; i++; nd++; }
  if (sig > 20 || (sig == 20 && memcmp(s + st, "18446744073709551615", 20) > 0)) r.big = 1;
  if (nd && (s[i] == 0 || is_ws((unsigned char)s[i]))) r.form = GOOD;
  if (s[i] != 0) r.strict = 0;
  return r;
}
static void check(const char *b) {
  spec_t s = spec(b); uint64_t u64 = 7; int64_t i64 = 7; uint32_t u32 = 7; int32_t i32 = 7;
  bool a = safe_strtoull(b, &u64), c = safe_strtoll(b, &i64), d = safe_strtoul(b, &u32), e = safe_strtol(b, &i32);
  sym_observe(a); sym_observe(c); sym_observe(d); sym_observe(e);
  uint64_t v = s.neg ? 0 - s.mag : s.mag; int zero = s.mag == 0;
  int ok64u = s.form && !s.big && (!s.neg || zero), ok32u = ok64u && s.mag <= 0xffffffffULL;
  int ok64 = s.form && !s.big && (s.neg ? s.mag <= 0x8000000000000000ULL : s.mag <= 0x7fffffffffffffffULL), ok32 = s.form && !s.big && (s.neg ? s.mag <= 0x80000000ULL : s.mag <= 0x7fffffffULL);
  int must = s.strict && !(s.neg && zero);       /* plain digits (with '-' for the signed parsers) must be accepted */
  if (a) { sym_assert(ok64u, "safe_strtoull accepts only texts denoting an unsigned 64-bit number"); sym_assert(u64 == s.mag, "safe_strtoull yields the denoted value"); sym_reach("accept"); } else { sym_assert(!(ok64u && must), "safe_strtoull accepts every plain unsigned 64-bit number"); sym_reach("reject"); }
  if (c) { sym_assert(ok64, "safe_strtoll accepts only texts denoting a signed 64-bit number"); sym_assert((uint64_t)i64 == v, "safe_strtoll yields the denoted value"); } else sym_assert(!(ok64 && must), "safe_strtoll accepts every plain signed 64-bit number");
  if (d) { sym_assert(ok32u, "safe_strtoul accepts only texts denoting an unsigned 32-bit number"); sym_assert(u32 == (uint32_t)s.mag, "safe_strtoul yields the denoted value"); } else sym_assert(!(ok32u && must), "safe_strtoul accepts every plain unsigned 32-bit number");
  if (e) { sym_assert(ok32, "safe_strtol accepts only texts denoting a signed 32-bit number"); sym_assert((uint32_t)i32 == (uint32_t)v, "safe_strtol yields the denoted value"); } else sym_assert(!(ok32 && must), "safe_strtol accepts every plain signed 32-bit number");
  if (a && !d) sym_reach("only-64"); if (c && !e) sym_reach("only-s64");
}
#if H_MODE == 1       /* arbitrary bytes */
void harness(void) { char b[H_LEN + 24]; memset(b, 0, sizeof b); sym__bytes(b, H_LEN, "text"); check(b); sym_reach("end"); }
#elif H_MODE == 2     /* long digit strings around the type limits: optional sign, optional tail */
void harness(void) {
  char b[40]; memset(b, 0, sizeof b); int n = 0; int sg = sym_choose(3, "sign"); if (sg == 1) b[n++] = '-'; if (sg == 2) b[n++] = '+';
  static const char *lim[] = {"18446744073709551615", "18446744073709551616", "9223372036854775807", "9223372036854775808", "4294967295", "4294967296", "2147483647", "2147483648", "18446744069414584320", "184467440737095516150", "99999999999999999999", "9999999999999999999", "10000000000000000000"};
  const char *l = lim[sym_choose(13, "limit")]; int k = (int)strlen(l), lo = H_LEN;
  for (int i = 0; i < k; i++) { if (i >= k - lo) { unsigned char c = sym_u8("digit"); sym_assume(is_dg(c)); b[n++] = (char)c; } else b[n++] = l[i]; }
  int t = sym_choose(3, "tail"); if (t == 1) { b[n++] = ' '; b[n++] = (char)sym_u8("tailc"); } if (t == 2) b[n++] = (char)sym_u8("tailc");
  check(b); sym_reach("end");
}
#elif H_MODE == 3     /* hex */
static int hexv(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'A' && c <= 'F' ? c - 'A' + 10 : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1; }
void harness(void) {
  int n = sym_choose(H_LEN + 1, "len"), size = 1 + sym_choose(H_LEN / 2 + 1, "size"); char b[H_LEN + 1]; memset(b, 0, sizeof b);
  for (int i = 0; i < n; i++) { b[i] = (char)sym_u8("c"); sym_assume(b[i] != 0); }
  unsigned char bin[H_LEN + 2]; memset(bin, 0xEE, sizeof bin); unsigned char guard = 0xEE;
  sym_poison(bin + size, 1);
  bool r = safe_strtohexa(b, bin, size); sym_unpoison(bin + size, 1); sym_observe(r);
  int good = n > 0 && n % 2 == 0 && n <= 2 * size; for (int i = 0; i < n; i++) good = good && hexv((unsigned char)b[i]) >= 0;
  sym_assert(r == good, "hex text is accepted exactly when it is well-formed and fits");
  if (r) { for (int i = 0; i < n / 2; i++) sym_assert(bin[i] == hexv((unsigned char)b[2 * i]) * 16 + hexv((unsigned char)b[2 * i + 1]), "hex text denotes its bytes"); sym_assert(bin[n / 2] == guard, "hex conversion writes only its bytes");
    char s[H_LEN + 4]; memset(s, 0x55, sizeof s); safe_hexatostr(bin, n / 2, s); sym_assert(s[n] == 0 && s[n + 1] == 0x55, "hex printing writes 2 characters per byte and a terminator");
    for (int i = 0; i < n; i++) sym_assert(hexv((unsigned char)s[i]) == hexv((unsigned char)b[i]) && !(s[i] >= 'a'), "hex printing is the inverse of parsing, in upper case"); sym_reach("accept"); } else sym_reach("reject");
}
#elif H_MODE == 4     /* prefix names */
void harness(void) {
  int n = 1 + sym_choose(H_LEN, "len"); char b[H_LEN + 1]; for (int i = 0; i <= H_LEN; i++) b[i] = (char)sym_u8("c");
  int good = b[0] != '-'; for (int i = 0; i < n; i++) { unsigned char c = (unsigned char)b[i]; good &= ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | ((c >= '0') & (c <= '9')) | (c == '_') | (c == '-') | (c == '+') | (c == '.'); }
  bool r = mc_isvalidname(b, n); sym_observe(r); sym_assert(r == good, "exactly the legal prefix names are accepted"); if (r) sym_reach("accept"); else sym_reach("reject");
}
#elif H_MODE == 5     /* glob patterns */
#ifndef H_PL
#define H_PL 4
#endif
void harness(void) {
  int P = 1 + sym_choose(H_PL, "plen"), T = sym_choose(H_LEN + 1, "tlen"); char p[H_PL + 2], t[H_LEN + 1]; memset(p, 0, sizeof p); memset(t, 0, sizeof t);
  for (int i = 0; i < P; i++) { p[i] = (char)sym_u8("p"); sym_assume(p[i] != 0); } for (int i = 0; i < T; i++) { t[i] = (char)sym_u8("t"); }
  /* only patterns the command accepts: a backslash is followed by *, ? or backslash */
  int v[H_PL + 3]; v[P] = 1; v[P + 1] = 0; for (int i = P - 1; i >= 0; i--) { int esc = p[i] == '\\', nx = i + 1 < P ? ((p[i + 1] == '*') | (p[i + 1] == '?') | (p[i + 1] == '\\')) : 0; v[i] = (esc & nx & v[i + 1 < P ? i + 2 : P + 1]) | ((!esc) & v[i + 1]); }
  sym_assume(v[0]);
  int f[H_PL + 3][H_LEN + 2]; memset(f, 0, sizeof f);
  for (int i = P; i >= 0; i--) for (int j = T; j >= 0; j--) {
    if (i == P) { f[i][j] = j == T; continue; }
    int in = j < T, c = in ? t[j] : 0; int esc = p[i] == '\\', star = p[i] == '*', q = p[i] == '?';
    int me = in ? ((i + 1 < P) & (p[i + 1] == c)) & f[i + 2][j + 1] : 0, ms = f[i + 1][j] | (in ? f[i][j + 1] : 0), ml = in ? ((q | (p[i] == c)) & f[i + 1][j + 1]) : 0;
    f[i][j] = (esc & me) | (star & ms) | ((!esc & !star) & ml);
  }
  /* the pattern is a NUL-terminated string of exactly P characters: nothing behind it may be looked at */
  char *pp = malloc(P + 1); memcpy(pp, p, P + 1); char *tt = malloc(T ? T : 1); memcpy(tt, t, T);
  bool r = string_pattern_match(tt, T, pp, P); sym_observe(r);
  sym_assert(r == f[0][0], "a wildcard pattern matches exactly the texts it denotes"); if (r) sym_reach("match"); else sym_reach("nomatch");
}
#endif

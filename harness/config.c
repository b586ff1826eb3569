/* Configuration text (config_parser.c): the text is an input, the oracle reads it independently. */
#include "config.h"
#include "sym.h"
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <memcached/config_parser.h>
#ifndef H_MODE
#define H_MODE 0
#endif
#ifndef H_LEN
#define H_LEN 6
#endif
#undef fopen
#undef fgets
#undef fclose
static bool vb; static size_t vs; static uint32_t vu; static char *vt; static char vc; static char fakefile[64];
static struct config_item items[8];
enum { KB, KS, KU, KT, KC, KF, NK };
static const char names[] = "bsutcf";
static char nm[NK][2];
static void setup(void) {
  for (int i = 0; i < NK; i++) { nm[i][0] = names[i]; nm[i][1] = 0; items[i].key = nm[i]; items[i].found = false; }
  items[KB].datatype = DT_BOOL; items[KB].value.dt_bool = &vb; vb = sym_bool("old bool");
  items[KS].datatype = DT_SIZE; items[KS].value.dt_size = &vs; vs = 77;
  items[KU].datatype = DT_UINT32; items[KU].value.dt_uint32 = &vu; vu = 78;
  items[KT].datatype = DT_STRING; items[KT].value.dt_string = &vt; vt = NULL;
  items[KC].datatype = DT_CHAR; items[KC].value.dt_char = &vc; vc = '?';
  items[KF].datatype = DT_CONFIGFILE;
  items[NK].key = NULL;
}
/* ---- oracle ---- */
typedef struct { int ret; bool amb, f[NK], b; size_t s; uint32_t u; char t[1100]; bool tset; char c; } ref_t;
static int sp(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static int low(char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static int same(const char *a, int n, const char *w) { int i = 0; for (; i < n && w[i]; i++) if (low(a[i]) != w[i]) return 0; return i == n && !w[i]; }
/* the trimmed, unescaped text of s[0..n): length or -1 */
static int field(const char *s, int n, char *out) {
  int i = 0, k = 0, keep = 0; while (i < n && sp(s[i])) i++;
  for (; i < n; i++) { if (s[i] == '\\') { if (i + 1 < n) { out[k++] = s[++i]; keep = k; } } else { out[k++] = s[i]; if (!sp(s[i])) keep = k; } }
  return keep;
}
static int upto(const char *s, int p, int n, char stop) { while (p < n && s[p] != stop) { if (s[p] == '\\') p++; p++; } return p < n ? p : n; }
/* the number denoted by a value; 0: refuse, 1: accept, 2: either */
static int number(const char *v, int n, uint64_t max, uint64_t *out) {
  uint64_t x = 0; int i = 0, ovf = 0; if (n > 0 && (v[0] == '+' || v[0] == '-')) return 2;
  for (; i < n && v[i] >= '0' && v[i] <= '9'; i++) { if (__builtin_mul_overflow(x, (uint64_t)10, &x)) ovf = 1; if (__builtin_add_overflow(x, (uint64_t)(v[i] - '0'), &x)) ovf = 1; }
  if (!i) { for (int j = 0; j < n; j++) if (sp(v[j])) return 2; return 0; }
  if (i < n) { int sh = 0; switch (low(v[i])) { case 'k': sh = 10; break; case 'm': sh = 20; break; case 'g': sh = 30; break; case 't': sh = 40; break; }
    if (i + 1 < n) { /* text after a suffix, or junk which contains a suffix letter */ return 2; }
    if (!sh) return sp(v[i]) ? 2 : 0;
    if (sh && (x >> (64 - sh))) ovf = 1; x <<= sh; }
  if (ovf || x > max) return 0; *out = x; return 1;
}
static void oracle(const char *s, int n, ref_t *r, int depth);
#ifndef H_FILELINES
#define H_FILELINES 1
#endif
static char ftext[H_FILELINES][1100]; static int fl[H_FILELINES], nfl, fopened, fmissing;
static void apply(const char *k, int kn, const char *v, int vn, ref_t *r, int depth) {
  if (kn != 1) { r->ret = r->ret ? r->ret : 1; return; }
  for (int i = 0; i < NK; i++) if (names[i] == k[0]) {
    if (vn == 0) { r->amb = true; return; }
    switch (i) {
    case KB: if (same(v, vn, "true") || same(v, vn, "on")) r->b = true; else if (same(v, vn, "false") || same(v, vn, "off")) r->b = false; else { r->ret = -1; return; } r->f[i] = true; return;
    case KS: case KU: { uint64_t x = 0; int q = number(v, vn, i == KS ? SIZE_MAX : UINT32_MAX, &x); if (q == 2) { r->amb = true; return; } if (!q) { r->ret = -1; return; } if (i == KS) r->s = x; else r->u = (uint32_t)x; r->f[i] = true; return; }
    case KT: memcpy(r->t, v, vn); r->t[vn] = 0; r->tset = true; r->f[i] = true; return;
    case KC: if (vn > 1) { r->amb = true; return; } r->c = v[0]; r->f[i] = true; return;
    case KF: if (depth || fmissing) { r->ret = -1; return; }
      for (int l = 0; l < nfl; l++) { if (fl[l] && ftext[l][0] == '#') continue; int was = r->ret; r->ret = 0; oracle(ftext[l], fl[l], r, 1); if (r->amb || r->ret == -1) return; if (!r->ret) r->ret = was; }
      return;
    } }
  r->ret = r->ret ? r->ret : 1;
}
static void oracle(const char *s, int n, ref_t *r, int depth) {
  static char k[2][2100], v[2][2100]; int p = 0;
  for (int i = 0; i < n; i++) if (s[i] == '\\' && (i + 1 == n || s[i + 1] == '\\')) { r->amb = true; return; }
  for (;;) { while (p < n && sp(s[p])) p++; if (p == n) return;
    int e = upto(s, p, n, '='); int kn = field(s + p, e - p, k[depth]); if (e == n || kn == 0 || kn > 79) { r->ret = -1; return; }
    p = e + 1; e = upto(s, p, n, ';'); int vn = field(s + p, e - p, v[depth]); if (vn > 1023) { r->ret = -1; return; } if (vn == 0) { r->amb = true; return; }
    apply(k[depth], kn, v[depth], vn, r, depth); if (r->amb || r->ret == -1) return; p = e < n ? e + 1 : n; }
}
/* ---- a stand-in for the configuration file ---- */
static int line, off;
FILE *h_fopen(const char *name, const char *mode) { sym_assert(strcmp(mode, "r") == 0, "the configuration file is only read"); if (fmissing || fopened) return NULL; fopened = 1; line = off = 0; return (FILE *)fakefile; }
int h_fclose(FILE *f) { sym_assert((char *)f == fakefile && fopened, "the open file is closed"); fopened = 0; return 0; }
char *h_fgets(char *b, int n, FILE *f) { sym_assert((char *)f == fakefile && fopened, "lines are read from the open file"); if (line >= nfl) return NULL; int k = 0; while (k < n - 1) { if (off >= fl[line]) { if (line + 1 < nfl) b[k++] = '\n'; line++; off = 0; break; } b[k++] = ftext[line][off++]; } b[k] = 0; return k ? b : NULL; }
static void check(const char *s, int n) {
  static ref_t r; memset(&r, 0, sizeof r); r.b = vb; r.s = vs; r.u = vu; r.c = vc; oracle(s, n, &r, 0);
  char *own = malloc(n + 1); memcpy(own, s, n); own[n] = 0; int ret = parse_config(own, items, stderr);
  sym_assert(memcmp(own, s, n) == 0 && own[n] == 0, "the text itself is kept"); free(own); sym_assert(!fopened, "the configuration file is closed again");
  if (r.amb) { sym_reach("unspecified"); return; }
  sym_assert(ret == r.ret, r.ret == 0 ? "a well formed configuration is accepted" : r.ret == 1 ? "an unknown key is reported" : "a malformed configuration is refused");
  for (int i = 0; i < NK; i++) sym_assert(items[i].found == r.f[i], r.f[i] ? "a given setting is marked as found" : "only given settings are marked as found");
  sym_assert(vb == r.b, "the boolean setting"); sym_assert(vs == r.s, "the size setting"); sym_assert(vu == r.u, "the 32 bit setting"); sym_assert(vc == r.c, "the character setting");
  if (r.tset) { sym_assert(vt != NULL && strcmp(vt, r.t) == 0, "the text setting"); } else sym_assert(vt == NULL, "the text setting is left alone");
  if (ret == 0) sym_reach("accepted"); else if (ret == 1) sym_reach("unknown"); else sym_reach("refused");
}
void harness(void) {
  setup();
#if H_MODE == 0   /* any text */
  char s[H_LEN + 1]; int n = sym_choose(H_LEN + 1, "len"); sym__bytes(s, n, "text"); for (int i = 0; i < n; i++) sym_assume(s[i] > 0); check(s, n);
#elif H_MODE == 1 /* settings put together from parts */
  static char s[80]; int n = 0;
  int parts = 1 + sym_choose(H_PARTS, "settings");
  for (int q = 0; q < parts; q++) {
    static const char *const sps[] = { "", " ", "\t\n" }; static const char *const keys[] = { "b", "s", "u", "t", "c", "x", "bs" };
    static const char *const vals[] = { "true", "On", "FALSE", "off", "tru", "17", "1k", "4G", "5g", "\\;b=on", "\\ v", "v\\ ", "a b", "a=b", "3x" };
    int a = sym_choose(3, "space"), k = sym_choose(7, "key"), c = sym_choose(3, "space"), v = sym_choose(15, "value"), d = sym_choose(3, "space");
    n += sprintf(s + n, "%s%s%s=%s%s%s", sps[a], keys[k], sps[c], sps[c], vals[v], sps[d]); if (q + 1 < parts || sym_bool("last ;")) s[n++] = ';';
  }
  check(s, n);
#elif H_MODE == 2 /* numbers */
  char s[40]; int n = 0; int which = sym_choose(2, "which"); s[n++] = which ? 'u' : 's'; s[n++] = '=';
  static const char *const lim[] = { "", "42949672", "41943", "40", "9", "3", "184467440737095516", "180143985094819", "175921860444", "17179869", "16777", "1677", "9999999999999999999" };
  int l = sym_choose(13, "magnitude"); n += sprintf(s + n, "%s", lim[l]); int dg = sym_choose(3, "digits") ; for (int i = 0; i < dg; i++) { s[n] = (char)sym_u8("digit"); sym_assume(s[n] >= '0' && s[n] <= '9'); n++; }
  int x = sym_choose(10, "suffix"); if (x) s[n++] = "kKmMgGtTx"[x - 1]; check(s, n);
#elif H_MODE == 3 /* long keys and values */
  static char s[1300]; int n = 0, what = sym_choose(4, "what"); const char fill = sym_bool("escape") ? '\\' : 'q';
  int lead = sym_choose(3, "lead"), tail = sym_choose(3, "tail"), d = sym_choose(4, "d");
  if (what == 0) { for (int i = 0; i < lead; i++) s[n++] = ' '; for (int i = 0; i < 78 + d; i++) s[n++] = fill; for (int i = 0; i < tail; i++) s[n++] = ' '; if (sym_bool("eq")) { s[n++] = '='; s[n++] = '1'; } }
  else { s[n++] = 't'; s[n++] = '='; for (int i = 0; i < lead; i++) s[n++] = ' '; for (int i = 0; i < (what == 3 ? 1010 : 1022) + d; i++) s[n++] = fill; for (int i = 0; i < tail * (what == 3 ? 10 : 1); i++) s[n++] = ' '; if (what == 2) s[n++] = 'z'; if (sym_bool("more")) { s[n++] = ';'; s[n++] = 'u'; s[n++] = '='; s[n++] = '5'; } }
  check(s, n);
#elif H_MODE == 4 /* configuration file */
  fmissing = sym_bool("missing"); nfl = fmissing ? 0 : sym_choose(H_FILELINES + 1, "lines");
  for (int i = 0; i < nfl; i++) { int k = sym_choose(8, "line"); const char *t = k == 0 ? "" : k == 1 ? "# b=on" : k == 2 ? "b=on" : k == 3 ? " u=12 ; c=z " : k == 4 ? "x=1" : k == 5 ? "b" : k == 6 ? "s=9" : ""; fl[i] = sprintf(ftext[i], "%s", t);
    if (k == 7) { fl[i] = 1 + sym_choose(H_LEN, "len"); sym__bytes(ftext[i], fl[i], "line"); for (int j = 0; j < fl[i]; j++) sym_assume(ftext[i][j] > 0 && ftext[i][j] != '\n'); } }
  static const char *const tx[] = { "f=conf", "f=conf;u=4", "u=4;f=conf", "b=off;f=conf;x=1" }; const char *s = tx[sym_choose(4, "text")]; check(s, strlen(s));
#elif H_MODE == 5 /* lines around the length that is read at once: only whole settings are applied */
  nfl = 2; int cm = sym_choose(3, "kind"), pad = 1015 + sym_choose(20, "pad"); int n = 0;
  if (cm == 0) { ftext[0][n++] = '#'; while (n < pad) ftext[0][n++] = 'q'; memcpy(ftext[0] + n, ";u=5", 4); n += 4; }
  else if (cm == 1) { memcpy(ftext[0], "u=7", 3); n = 3; while (n < pad) ftext[0][n++] = ' '; memcpy(ftext[0] + n, ";b=on", 5); n += 5; }
  else { memcpy(ftext[0], "t=", 2); n = 2; while (n < pad) ftext[0][n++] = 'q'; }
  fl[0] = n; fl[1] = sprintf(ftext[1], "c=y");
  if (n <= 1022) check("f=conf", 6);
  else { int ret = parse_config("f=conf", items, stderr); sym_assert(!fopened, "the configuration file is closed again"); sym_reach("long line");
    if (ret == 0) { sym_assert(vc == 'y', "the following line is applied"); if (cm == 0) sym_assert(vu == 78, "a comment sets nothing"); if (cm == 1) sym_assert(vu == 7 && items[KB].found && vb, "all settings of an accepted line are applied"); if (cm == 2) sym_assert(vt && (int)strlen(vt) == n - 2, "the text setting"); } }
#endif
  sym_reach("end");
}

/* C library model for symbolic runs (native replays use the real libc). */
#include <stddef.h>
#include <stdint.h>
#include <stdarg.h>
#include <stdio.h>
#include <errno.h>
#include <limits.h>
#include <sys/time.h>
#include <time.h>
#include "sym.h"
void *malloc(size_t); void free(void *); void *realloc(void *, size_t);
extern int *__errno_location(void);
static int errno_v; int *__errno_location(void) { return &errno_v; }
void sym__symexit(int); 
extern void _exit(int) __attribute__((noreturn));
void sym_exit(int c) { _exit(c); }
size_t strlen(const char *s) { const char *p = s; while (*p) p++; return p - s; }
size_t strnlen(const char *s, size_t n) { size_t i = 0; while (i < n && s[i]) i++; return i; }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)); return r; }
char *stpcpy(char *d, const char *s) { while ((*d = *s)) { d++; s++; } return d; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strncat(char *d, const char *s, size_t n) { char *p = d + strlen(d); size_t i = 0; for (; i < n && s[i]; i++) p[i] = s[i]; p[i] = 0; return d; }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) { a++; b++; } return *(unsigned char *)a - *(unsigned char *)b; }
int strncmp(const char *a, const char *b, size_t n) { for (; n; n--, a++, b++) { if (*a != *b) return *(unsigned char *)a - *(unsigned char *)b; if (!*a) return 0; } return 0; }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int strcasecmp(const char *a, const char *b) { while (*a && tolower((unsigned char)*a) == tolower((unsigned char)*b)) { a++; b++; } return tolower((unsigned char)*a) - tolower((unsigned char)*b); }
int strncasecmp(const char *a, const char *b, size_t n) { for (; n; n--, a++, b++) { int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b); if (x != y) return x - y; if (!*a) return 0; } return 0; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
char *strrchr(const char *s, int c) { const char *r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
void *memchr(const void *s, int c, size_t n) { const unsigned char *p = s; for (; n; n--, p++) if (*p == (unsigned char)c) return (void *)p; return 0; }
void *memrchr(const void *s, int c, size_t n) { const unsigned char *p = s; while (n--) if (p[n] == (unsigned char)c) return (void *)(p + n); return 0; }
void *memmem(const void *h, size_t hn, const void *n, size_t nn) { const char *p = h; if (!nn) return (void *)h; for (size_t i = 0; i + nn <= hn; i++) if (!memcmp(p + i, n, nn)) return (void *)(p + i); return 0; }
char *strstr(const char *h, const char *n) { size_t l = strlen(n); if (!l) return (char *)h; for (; *h; h++) if (!strncmp(h, n, l)) return (char *)h; return 0; }
size_t strspn(const char *s, const char *a) { size_t n = 0; while (s[n] && strchr(a, s[n])) n++; return n; }
size_t strcspn(const char *s, const char *a) { size_t n = 0; while (s[n] && !strchr(a, s[n])) n++; return n; }
char *strpbrk(const char *s, const char *a) { s += strcspn(s, a); return *s ? (char *)s : 0; }
char *strtok_r(char *s, const char *d, char **sv) { if (!s) s = *sv; s += strspn(s, d); if (!*s) { *sv = s; return 0; } char *e = s + strcspn(s, d); if (*e) *e++ = 0; *sv = e; return s; }
char *strtok(char *s, const char *d) { static char *sv; return strtok_r(s, d, &sv); }
char *strsep(char **sp, const char *d) { char *s = *sp; if (!s) return 0; char *e = s + strcspn(s, d); if (*e) { *e = 0; *sp = e + 1; } else *sp = 0; return s; }
char *strdup(const char *s) { size_t n = strlen(s) + 1; char *p = malloc(n); if (p) memcpy(p, s, n); return p; }
char *strndup(const char *s, size_t k) { size_t n = strnlen(s, k); char *p = malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
char *strerror(int e) { (void)e; return "error"; }
void bzero(void *p, size_t n) { memset(p, 0, n); }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int isprint(int c) { return c >= 32 && c < 127; }
int isgraph(int c) { return c > 32 && c < 127; }
int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
int ispunct(int c) { return isgraph(c) && !isalnum(c); }
int sym__undigits(const char *p, unsigned long long *v);
static unsigned long long strtox(const char *s, char **end, int base, int *neg, int *ovf, int *any) {
  const char *p = s; *neg = 0; *ovf = 0; *any = 0; while (isspace((unsigned char)*p)) p++;
  if (*p == '-') { *neg = 1; p++; } else if (*p == '+') p++;
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit((unsigned char)p[2])) { p += 2; base = 16; }
  if (base == 0) base = *p == '0' ? 8 : 10;
  unsigned long long v = 0, cut = ULLONG_MAX / (unsigned)base; int nd = 0; unsigned lim = ULLONG_MAX % (unsigned)base;
  if (base == 10) { unsigned long long x; int k = sym__undigits(p, &x); if (k) { v = x; nd = k; p += k; *any = 1; } else if (*p == '1' && (k = sym__undigits(p + 1, &x)) == 19) { v = 10000000000000000000ULL + x; if (v < x) *ovf = 1; nd = 20; p += 20; *any = 1; } }
  for (;; p++) { int c = (unsigned char)*p, d; if (c >= '0' && c <= '9') d = c - '0'; else if (base > 10 && c >= 'a' && c <= 'z') d = c - 'a' + 10; else if (base > 10 && c >= 'A' && c <= 'Z') d = c - 'A' + 10; else break; if (d >= base) break;
    *any = 1; nd++; if (nd > 18) { if (v > cut || (v == cut && (unsigned)d > lim)) *ovf = 1; } v = v * (unsigned)base + (unsigned)d; }
  if (end) *end = (char *)(*any ? p : s); return v;
}
unsigned long long strtoull(const char *s, char **e, int b) { int n, o, a; unsigned long long v = strtox(s, e, b, &n, &o, &a); if (o) { errno_v = ERANGE; return ULLONG_MAX; } return n ? 0 - v : v; }
unsigned long strtoul(const char *s, char **e, int b) { return strtoull(s, e, b); }
long long strtoll(const char *s, char **e, int b) { int n, o, a; unsigned long long v = strtox(s, e, b, &n, &o, &a); if (o || v > (unsigned long long)LLONG_MAX + (n ? 1 : 0)) { errno_v = ERANGE; return n ? LLONG_MIN : LLONG_MAX; } return n ? (long long)(0 - v) : (long long)v; }
long strtol(const char *s, char **e, int b) { return strtoll(s, e, b); }
int atoi(const char *s) { return (int)strtol(s, 0, 10); }
long atol(const char *s) { return strtol(s, 0, 10); }
long long atoll(const char *s) { return strtoll(s, 0, 10); }
double strtod(const char *s, char **e) { const char *p = s; while (isspace((unsigned char)*p)) p++; int neg = 0; if (*p == '-') { neg = 1; p++; } else if (*p == '+') p++; double v = 0, f = 0.1; int any = 0; for (; isdigit((unsigned char)*p); p++) { v = v * 10 + (*p - '0'); any = 1; } if (*p == '.') { p++; for (; isdigit((unsigned char)*p); p++) { v += (*p - '0') * f; f /= 10; any = 1; } } if (e) *e = (char *)(any ? p : s); return neg ? -v : v; }
float strtof(const char *s, char **e) { return (float)strtod(s, e); }
double atof(const char *s) { return strtod(s, 0); }
int abs(int x) { return x < 0 ? -x : x; }
/* ---- printf family ---- */
typedef struct { char *b; size_t n, k; } outb;
static void pc(outb *o, char c) { if (o->k + 1 < o->n) o->b[o->k] = c; o->k++; }
/* digits of v, least significant first */
void sym__digits(char *t, unsigned long long v, int n, int top);
static int digits(char *t, unsigned long long v, unsigned base, int up) {
  int n = 0;
  if (base == 10 && sym_is_symbolic(v)) {
    /* decimal digits of a symbolic value: fresh digits constrained to denote v (unique, so no behaviour is added or lost) */
    unsigned long long p = 10; n = 1; while (n < 20 && v >= p) { n++; if (n < 20) p *= 10; else break; }
    unsigned long long r = v; int m = n; if (n == 20) { t[19] = '1'; r = v - 10000000000000000000ULL; m = 19; }
    char d[20]; sym__digits(d, r, m, n != 20); for (int i = 0; i < m; i++) t[m - 1 - i] = d[i];
    return n;
  }
  do { unsigned d = (unsigned)(v % base); v /= base; t[n++] = (char)(d < 10 ? '0' + d : (up ? 'A' : 'a') + d - 10); } while (v); return n; }
int vsnprintf(char *buf, size_t size, const char *f, va_list ap) {
  outb o = {buf, size, 0};
  for (; *f; f++) {
    if (*f != '%') { pc(&o, *f); continue; }
    f++; int left = 0, zero = 0, plus = 0, alt = 0, width = 0, prec = -1, lng = 0, sp = 0;
    for (;; f++) { if (*f == '-') left = 1; else if (*f == '0') zero = 1; else if (*f == '+') plus = 1; else if (*f == '#') alt = 1; else if (*f == ' ') sp = 1; else break; }
    if (*f == '*') { width = va_arg(ap, int); if (width < 0) { left = 1; width = -width; } f++; } else while (isdigit((unsigned char)*f)) width = width * 10 + *f++ - '0';
    if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (isdigit((unsigned char)*f)) prec = prec * 10 + *f++ - '0'; }
    for (;; f++) { if (*f == 'l') lng++; else if (*f == 'z' || *f == 'j' || *f == 't') lng = 2; else if (*f == 'h') lng--; else if (*f == 'q' || *f == 'L') lng = 2; else break; }
    char t[72]; int n = 0; char pre[3]; int pn = 0; unsigned long long v;
    switch (*f) {
    case 'd': case 'i': { long long x = lng > 0 ? va_arg(ap, long long) : va_arg(ap, int); if (lng == -1) x = (short)x; if (lng == -2) x = (signed char)x; if (x < 0) { pre[pn++] = '-'; v = 0ULL - (unsigned long long)x; } else { v = x; if (plus) pre[pn++] = '+'; else if (sp) pre[pn++] = ' '; } n = digits(t, v, 10, 0); goto num; }
    case 'u': case 'x': case 'X': case 'o': v = lng > 0 ? va_arg(ap, unsigned long long) : va_arg(ap, unsigned int); if (lng == -1) v = (unsigned short)v; if (lng == -2) v = (unsigned char)v; n = digits(t, v, *f == 'u' ? 10 : *f == 'o' ? 8 : 16, *f == 'X'); if (alt && v && (*f == 'x' || *f == 'X')) { pre[pn++] = '0'; pre[pn++] = *f; } goto num;
    case 'p': v = (unsigned long long)(uintptr_t)va_arg(ap, void *); n = digits(t, v, 16, 0); pre[pn++] = '0'; pre[pn++] = 'x'; goto num;
    num: { int z = 0; if (prec >= 0) { if (prec > n) z = prec - n; zero = 0; } if (zero && !left && width > n + pn) z = width - n - pn; int pad = width - n - z - pn; if (!left) while (pad-- > 0) pc(&o, ' '); for (int i = 0; i < pn; i++) pc(&o, pre[i]); while (z-- > 0) pc(&o, '0'); while (n > 0) pc(&o, t[--n]); if (left) while (pad-- > 0) pc(&o, ' '); break; }
    case 'c': { char c = (char)va_arg(ap, int); int pad = width - 1; if (!left) while (pad-- > 0) pc(&o, ' '); pc(&o, c); if (left) while (pad-- > 0) pc(&o, ' '); break; }
    case 's': { const char *s = va_arg(ap, const char *); if (!s) s = "(null)"; size_t l = prec >= 0 ? strnlen(s, (size_t)prec) : strlen(s); int pad = width - (int)l; if (!left) while (pad-- > 0) pc(&o, ' '); for (size_t i = 0; i < l; i++) pc(&o, s[i]); if (left) while (pad-- > 0) pc(&o, ' '); break; }
    case 'f': case 'g': case 'e': { double d = va_arg(ap, double); if (prec < 0) prec = 6; if (d < 0) { pc(&o, '-'); d = -d; } double r = 0.5; for (int i = 0; i < prec; i++) r /= 10; d += r; unsigned long long ip = (unsigned long long)d; n = digits(t, ip, 10, 0); while (n > 0) pc(&o, t[--n]); if (prec) { pc(&o, '.'); d -= (double)ip; for (int i = 0; i < prec; i++) { d *= 10; int k = (int)d; pc(&o, (char)('0' + k)); d -= k; } } break; }
    case '%': pc(&o, '%'); break;
    default: sym_fail("rt: unsupported printf conversion");
    }
  }
  if (size) o.b[o.k < size ? o.k : size - 1] = 0; return (int)o.k;
}
int snprintf(char *b, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
int sprintf(char *b, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, (size_t)1 << 30, f, ap); va_end(ap); return r; }
int vsprintf(char *b, const char *f, va_list ap) { return vsnprintf(b, (size_t)1 << 30, f, ap); }
static struct _IO_FILE f0, f1, f2; FILE *stdin = &f0, *stdout = &f1, *stderr = &f2;
__attribute__((weak)) int fprintf(FILE *f, const char *s, ...) { (void)f; (void)s; return 0; }
int printf(const char *s, ...) { (void)s; return 0; }
__attribute__((weak)) int vfprintf(FILE *f, const char *s, va_list ap) { (void)f; (void)s; (void)ap; return 0; }
int fflush(FILE *f) { (void)f; return 0; }
int puts(const char *s) { (void)s; return 0; } int putchar(int c) { return c; } __attribute__((weak)) int fputs(const char *s, FILE *f) { (void)s; (void)f; return 0; } int fputc(int c, FILE *f) { (void)f; return c; }
__attribute__((weak)) size_t fwrite(const void *p, size_t a, size_t n, FILE *f) { (void)p; (void)a; (void)f; return n; }
void perror(const char *s) { (void)s; }
void setbuf(FILE *f, char *b) { (void)f; (void)b; }
/* stable insertion/merge-free qsort: selection by insertion, adequate for bounded sizes */
void qsort(void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *)) {
  /* bottom-up merge sort, as glibc's qsort is a merge sort */
  if (n < 2) return; char *a = base, *t = malloc(n * sz), *src = a, *dst = t;
  for (size_t w = 1; w < n; w *= 2) { for (size_t i = 0; i < n; i += 2 * w) { size_t l = i, m = i + w < n ? i + w : n, r = m, e = i + 2 * w < n ? i + 2 * w : n, k = i; while (l < m || r < e) { if (r >= e || (l < m && cmp(src + l * sz, src + r * sz) <= 0)) { memcpy(dst + k++ * sz, src + l++ * sz, sz); } else memcpy(dst + k++ * sz, src + r++ * sz, sz); } } char *x = src; src = dst; dst = x; }
  if (src != a) memcpy(a, src, n * sz); free(t);
}
void *bsearch(const void *k, const void *b, size_t n, size_t sz, int (*cmp)(const void *, const void *)) { size_t l = 0, r = n; while (l < r) { size_t m = (l + r) / 2; const char *p = (const char *)b + m * sz; int c = cmp(k, p); if (c == 0) return (void *)p; if (c < 0) r = m; else l = m + 1; } return 0; }
static unsigned long rseed = 1; void srand(unsigned s) { rseed = s; } void srandom(unsigned s) { rseed = s; }
__attribute__((weak)) long random(void) { rseed = rseed * 1103515245 + 12345; return (long)(rseed >> 16 & 0x7fffffff); }
__attribute__((weak)) int rand(void) { return (int)random(); }
__attribute__((weak)) time_t time(time_t *t) { if (t) *t = 1000000; return 1000000; }
__attribute__((weak)) int gettimeofday(struct timeval *tv, void *z) { (void)z; tv->tv_sec = 1000000; tv->tv_usec = 0; return 0; }
__attribute__((weak)) int clock_gettime(clockid_t c, struct timespec *ts) { (void)c; ts->tv_sec = 1000000; ts->tv_nsec = 0; return 0; }
__attribute__((weak)) char *getenv(const char *n) { (void)n; return 0; }
__attribute__((weak)) int getpid(void) { return 4242; }
__attribute__((weak)) int getpagesize(void) { return 4096; }
uint32_t htonl(uint32_t x) { return __builtin_bswap32(x); } uint32_t ntohl(uint32_t x) { return __builtin_bswap32(x); }
uint16_t htons(uint16_t x) { return __builtin_bswap16(x); } uint16_t ntohs(uint16_t x) { return __builtin_bswap16(x); }
__attribute__((weak)) struct tm *localtime_r(const time_t *t, struct tm *r) { (void)t; memset(r, 0, sizeof *r); r->tm_mday = 1; r->tm_year = 100; return r; }
__attribute__((weak)) struct tm *localtime(const time_t *t) { static struct tm r; return localtime_r(t, &r); }
/* sscanf: the conversions the code base uses (%d %u %lld %llu %s %x with widths) */
int vsscanf(const char *s, const char *f, va_list ap) {
  int got = 0; const char *p = s;
  for (; *f; f++) {
    if (isspace((unsigned char)*f)) { while (isspace((unsigned char)*p)) p++; continue; }
    if (*f != '%') { if (*p != *f) return got; p++; continue; }
    f++; int width = 0, lng = 0, sup = 0; if (*f == '*') { sup = 1; f++; } while (isdigit((unsigned char)*f)) width = width * 10 + *f++ - '0';
    for (;; f++) { if (*f == 'l') lng++; else if (*f == 'z' || *f == 'j') lng = 2; else if (*f == 'h') lng--; else break; }
    switch (*f) {
    case 'd': case 'u': case 'x': case 'i': { while (isspace((unsigned char)*p)) p++; char tmp[64]; int w = width && width < 63 ? width : 63; int i = 0; while (i < w && p[i]) { tmp[i] = p[i]; i++; } tmp[i] = 0; char *e; unsigned long long v; if (!*p) return got ? got : -1; if (*f == 'u' || *f == 'x') v = strtoull(tmp, &e, *f == 'x' ? 16 : 10); else v = (unsigned long long)strtoll(tmp, &e, *f == 'i' ? 0 : 10); if (e == tmp) return got; p += e - tmp; if (!sup) { void *d = va_arg(ap, void *); if (lng >= 1) *(unsigned long long *)d = v; else if (lng == -1) *(unsigned short *)d = (unsigned short)v; else if (lng == -2) *(unsigned char *)d = (unsigned char)v; else *(unsigned *)d = (unsigned)v; got++; } break; }
    case 's': { while (isspace((unsigned char)*p)) p++; if (!*p) return got ? got : -1; char *d = sup ? 0 : va_arg(ap, char *); int i = 0; while (*p && !isspace((unsigned char)*p) && (!width || i < width)) { if (d) d[i] = *p; i++; p++; } if (d) { d[i] = 0; got++; } break; }
    case 'c': { char *d = va_arg(ap, char *); if (!*p) return got ? got : -1; *d = *p++; got++; break; }
    case 'n': *va_arg(ap, int *) = (int)(p - s); break;
    default: sym_fail("rt: unsupported scanf conversion");
    }
  }
  return got;
}
int sscanf(const char *s, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsscanf(s, f, ap); va_end(ap); return r; }
/* getopt: short options only, no permutation */
char *optarg; int optind = 1, opterr = 1, optopt;
int getopt(int argc, char *const argv[], const char *opts) {
  static int pos; if (optind >= argc) return -1; char *a = argv[optind]; if (!pos) { if (a[0] != '-' || !a[1]) return -1; if (a[1] == '-' && !a[2]) { optind++; return -1; } pos = 1; }
  char c = a[pos++]; const char *o = strchr(opts, c); if (!o || c == ':') { optopt = c; if (!a[pos]) { pos = 0; optind++; } return '?'; }
  if (o[1] == ':') { if (a[pos]) optarg = a + pos; else { if (++optind >= argc) { pos = 0; optopt = c; return '?'; } optarg = argv[optind]; } pos = 0; optind++; } else if (!a[pos]) { pos = 0; optind++; }
  return (unsigned char)c; }
int sigemptyset(void *s) { (void)s; return 0; }

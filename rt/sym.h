/* Harness API: the same harness runs symbolically (symx) and natively (replay). */
#ifndef SYM_H
#define SYM_H
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <string.h>
#ifdef __cplusplus
extern "C" {
#endif
uint64_t sym__val(int width, const char *name);
void sym__bytes(void *p, size_t n, const char *name);
void sym__assume(int c);
void sym__assert(int c, const char *label);
void sym__fail(const char *label);
void sym__reach(const char *label);
void sym__observe(uint64_t v);
uint64_t sym__conc(uint64_t v);
int  sym_is_native(void);
int  sym_is_symbolic(uint64_t v);
void sym_poison(const void *p, size_t n);
void sym_unpoison(const void *p, size_t n);
int  sym_valid_mem(const void *p, size_t n);
int  symt_new(void (*fn)(void *), void *arg);
void symt_switch(int id);
int  symt_self(void);
void sym_end(void);
uint64_t sym_heap_live(int bytes);
void sym_print(const char *s);
void sym_printv(const char *s, uint64_t v);
int  sym__undigits(const char *p, unsigned long long *v);
void sym_ins_limit(uint64_t n, const char *label);
void harness(void);
static inline uint8_t  sym_u8(const char *n) { return (uint8_t)sym__val(8, n); }
static inline uint16_t sym_u16(const char *n) { return (uint16_t)sym__val(16, n); }
static inline uint32_t sym_u32(const char *n) { return (uint32_t)sym__val(32, n); }
static inline uint64_t sym_u64(const char *n) { return sym__val(64, n); }
static inline int sym_bool(const char *n) { return (int)sym__val(1, n); }
/* a symbolic integer in [lo,hi] */
static inline int64_t sym_range(int64_t lo, int64_t hi, const char *n) {
  uint64_t span = (uint64_t)(hi - lo); uint64_t v;
  if (span < 256) v = sym__val(8, n); else if (span < 65536) v = sym__val(16, n); else v = sym__val(64, n);
  sym__assume(v <= span); return lo + (int64_t)v;
}
/* a symbolic integer in [0,n) that is made concrete by forking over every feasible value */
static inline int sym_choose(int n, const char *name) { if (n <= 1) return 0; return (int)sym__conc((uint64_t)sym_range(0, n - 1, name)); }
#define sym_assume(c) sym__assume(!!(c))
#define sym_assert(c, label) sym__assert(!!(c), label)
#define sym_fail(label) sym__fail(label)
#define sym_reach(label) sym__reach(label)
#define sym_observe(v) sym__observe((uint64_t)(v))
#define sym_conc(v) sym__conc((uint64_t)(v))
static inline void sym_observe_bytes(const void *p, size_t n) { const unsigned char *c = (const unsigned char *)p; uint64_t h = 7; for (size_t i = 0; i < n; i++) { h = 0; h = c[i]; sym__observe(h); } }
/* branch-free AND of conditions, for use inside asserts */
static inline int sym_eqmem(const void *a, const void *b, size_t n) { return memcmp(a, b, n) == 0; }
#ifdef __cplusplus
}
#endif
#endif

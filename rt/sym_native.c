/* Native implementation of the harness API: values come from SYM_INPUT, in creation order. */
#include "sym.h"
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <ucontext.h>
#include <sys/mman.h>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
#define HAVE_ASAN 1
#endif
#undef exit
#undef abort
static FILE *in; static uint64_t dig = 1469598103934665603ULL, nobs;
static uint64_t rdval(int w) {
  int iw; unsigned long long v = 0; char buf[512];
  if (!in || !fgets(buf, sizeof buf, in)) { return 0; }
  if (sscanf(buf, "%d %llu", &iw, &v) != 2) return 0;
  if (iw != w) { printf("SYM-MISMATCH width %d vs %d\n", iw, w); fflush(stdout); _exit(78); }
  return v;
}
uint64_t sym__val(int w, const char *name) { (void)name; return rdval(w); }
void sym__bytes(void *p, size_t n, const char *name) { (void)name; for (size_t i = 0; i < n; i++) ((unsigned char *)p)[i] = (unsigned char)rdval(8); }
static void done(int code) { printf("SYM-DIGEST %llu %llx\n", (unsigned long long)nobs, (unsigned long long)dig); fflush(stdout); _exit(code); }
void sym__assume(int c) { if (!c) { printf("SYM-ASSUME-FAILED\n"); done(77); } }
void sym__assert(int c, const char *label) { if (!c) { printf("SYM-VIOLATION %s\n", label); done(66); } }
void sym__fail(const char *label) { printf("SYM-VIOLATION %s\n", label); done(66); }
void sym__reach(const char *l) { (void)l; }
void sym__observe(uint64_t v) { if (nobs >= 5000) return; nobs++; for (int i = 0; i < 8; i++) { dig ^= (v >> (8 * i)) & 0xff; dig *= 1099511628211ULL; } if (getenv("SYM_TRACE")) printf("obs %llu %llx\n", (unsigned long long)nobs, (unsigned long long)v); }
uint64_t sym__conc(uint64_t v) { return v; }
int sym_is_native(void) { return 1; }
int sym_is_symbolic(uint64_t v) { (void)v; return 0; }
int sym_valid_mem(const void *p, size_t n) {
#ifdef HAVE_ASAN
  return __asan_region_is_poisoned((void *)p, n) == NULL;
#else
  (void)p; (void)n; return 1;
#endif
}
void sym_poison(const void *p, size_t n) {
#ifdef HAVE_ASAN
  __asan_poison_memory_region(p, n);
#endif
}
void sym_unpoison(const void *p, size_t n) {
#ifdef HAVE_ASAN
  __asan_unpoison_memory_region(p, n);
#endif
}
void sym_end(void) { done(0); }
void sym_exit(int c) { sym__observe(0xE817 + (unsigned)c); done(0); }
uint64_t sym_heap_live(int bytes) { (void)bytes; return 0; }
void sym_print(const char *s) { if (getenv("SYM_TRACE")) printf("PRINT %s\n", s); }
void sym_printv(const char *s, uint64_t v) { if (getenv("SYM_TRACE")) printf("PRINT %s = %lld\n", s, (long long)v); }
void sym_ins_limit(uint64_t n, const char *l) { (void)n; (void)l; }
/* coroutines */
#define STK (2u << 20)
static ucontext_t ctxs[64]; static int nth = 1, cur = 0; static void (*efn[64])(void *); static void *earg[64]; static void *stk[64];
static void *fakes[64];
static void tramp(int i) {
#ifdef HAVE_ASAN
  __sanitizer_finish_switch_fiber(fakes[i], NULL, NULL);
#endif
  efn[i](earg[i]); printf("SYM-ERROR thread entry returned\n"); done(79); }
int symt_new(void (*fn)(void *), void *arg) {
  int id = nth++; if (id >= 64) { printf("too many threads\n"); done(79); }
  stk[id] = mmap(0, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  getcontext(&ctxs[id]); ctxs[id].uc_stack.ss_sp = stk[id]; ctxs[id].uc_stack.ss_size = STK; ctxs[id].uc_link = 0; efn[id] = fn; earg[id] = arg; makecontext(&ctxs[id], (void (*)(void))tramp, 1, id); return id;
}
static const void *mainbot; static size_t mainsz;
void symt_switch(int id) { if (id == cur) return; int o = cur; cur = id;
#ifdef HAVE_ASAN
  if (id == 0) __sanitizer_start_switch_fiber(&fakes[o], mainbot, mainsz); else __sanitizer_start_switch_fiber(&fakes[o], stk[id], STK);
#endif
  swapcontext(&ctxs[o], &ctxs[id]);
#ifdef HAVE_ASAN
  __sanitizer_finish_switch_fiber(fakes[o], NULL, NULL);
#endif
}
int symt_self(void) { return cur; }
#include <pthread.h>
#include <sys/resource.h>
int main(int argc, char **argv) {
  const char *p = argc > 1 ? argv[1] : getenv("SYM_INPUT"); if (p) { in = fopen(p, "r"); if (!in) { perror(p); return 2; } }
  pthread_attr_t at; void *sp; size_t ss; pthread_getattr_np(pthread_self(), &at); pthread_attr_getstack(&at, &sp, &ss); mainbot = sp; mainsz = ss;
  harness(); done(0); return 0;
}

int sym__undigits(const char *p, unsigned long long *v) { return 0; }

/* Cooperative pthread model, shared by symbolic and native runs. */
#include "sym.h"
#include "pth.h"
#include <errno.h>
#define MAXT 40
enum { T_FREE, T_RUN, T_MUTEX, T_COND, T_SLEEP, T_JOIN, T_DONE };
static struct { int st; void *obj; int timed; int woken; void *(*fn)(void *); void *arg; void *ret; int symid; int idle; int joinee; } T[MAXT];
static int nT = 1; static int budget; static int points; static int inited;
static void (*hook)(void);
typedef struct { int owner; int count; int kind; int pad; } mtx_t;   /* owner: thread+1 */
static int held[MAXT];
static void init(void) { if (!inited) { inited = 1; T[0].st = T_RUN; } }
int symp_self(void) { int s = symt_self(); for (int i = 0; i < nT; i++) if (T[i].symid == s) return i; return 0; }
int symp_held(int t) { return held[t]; }
static void switch_to(int t) { symt_switch(T[t].symid); }
/* pick something else to run; called when the current thread cannot continue */
static void resched(void) {
  int me = symp_self();
  for (;;) {
    for (int k = 1; k <= nT; k++) { int t = (me + k) % nT; if (T[t].st == T_RUN && !T[t].idle) { if (t != me) switch_to(t); return; } }
    for (int t = 0; t < nT; t++) if (T[t].st == T_RUN && T[t].idle) { T[t].idle = 0; if (t != me) switch_to(t); return; }
    int w = -1; for (int t = 0; t < nT; t++) if (T[t].st == T_SLEEP || (T[t].st == T_COND && T[t].timed)) { w = t; break; }
    if (w < 0) sym_fail("deadlock: no thread can run");
    T[w].woken = 0; T[w].st = T_RUN;
  }
}
static int wakesleep; /* a preemption may also go to a sleeping thread (its time is over) */
void symp_wake_sleepers(int on) { wakesleep = on; }
static void point(void) {
  init(); if (budget <= 0) return; int me = symp_self(); int c[MAXT], n = 0; c[n++] = me;
  for (int t = 0; t < nT; t++) if (t != me && (T[t].st == T_RUN || (wakesleep && T[t].st == T_SLEEP))) c[n++] = t;
  if (n < 2) return; int k = sym_choose(n, "sched"); if (k) { budget--; T[c[k]].st = T_RUN; switch_to(c[k]); }
}
void symp_explore(int preemptions) { init(); budget = preemptions; }
/* finer points: every basic block of the units compiled with -fsanitize-coverage=trace-pc; 1: while the running thread holds no lock, 2: always */
static int fine;
void symp_fine(int on) { fine = on; }
void __sanitizer_cov_trace_pc(void) { if (!fine || budget <= 0) return; if (fine == 1 && held[symp_self()]) return; point(); }
void symp_yield_all(void) { init(); int me = symp_self(); T[me].idle = 1; resched(); T[me].idle = 0; }
/* let time pass: every sleeping or timed-waiting thread gets one turn */
void symp_tick(void) { init(); for (int t = 0; t < nT; t++) if (T[t].st == T_SLEEP || (T[t].st == T_COND && T[t].timed)) { T[t].woken = 0; T[t].st = T_RUN; } symp_yield_all(); }
static void entry(void *a) { int t = (int)(intptr_t)a; void *r = T[t].fn(T[t].arg); symp_exit(r); }
void symp_exit(void *r) { int t = symp_self(); if (held[t]) sym_fail("thread exits holding a lock"); T[t].ret = r; T[t].st = T_DONE; for (int k = 0; k < nT; k++) if (T[k].st == T_JOIN && T[k].joinee == t) T[k].st = T_RUN; resched(); sym_fail("thread resumed after exit"); }
int symp_create(pthread_t *p, const pthread_attr_t *a, void *(*fn)(void *), void *arg) { (void)a; init(); int t = -1; if (nT < MAXT) t = nT++; if (t < 0) return EAGAIN; T[t].st = T_RUN; T[t].fn = fn; T[t].arg = arg; T[t].idle = 0; T[t].symid = symt_new(entry, (void *)(intptr_t)t); *p = (pthread_t)t; point(); return 0; }
int symp_join(pthread_t p, void **r) { init(); int t = (int)p, me = symp_self(); while (T[t].st != T_DONE) { T[me].st = T_JOIN; T[me].joinee = t; resched(); } if (r) *r = T[t].ret; return 0; }
pthread_t symp_pself(void) { return (pthread_t)symp_self(); }
int symp_equal(pthread_t a, pthread_t b) { return a == b; }
int symp_detach(pthread_t p) { (void)p; return 0; }
int symp_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { mtx_t x = {0, 0, 0, 0}; if (a) x.kind = *(const int *)a; memcpy(m, &x, sizeof x); return 0; }
int symp_mutex_destroy(pthread_mutex_t *m) { mtx_t *x = (mtx_t *)m; if (x->owner) sym_fail("mutex destroyed while held"); return 0; }
int symp_mattr_init(pthread_mutexattr_t *a) { *(int *)a = 0; return 0; }
int symp_mattr_settype(pthread_mutexattr_t *a, int k) { *(int *)a = k; return 0; }
int symp_mattr_destroy(pthread_mutexattr_t *a) { (void)a; return 0; }
static void acquire(mtx_t *x, void *m) { int me = symp_self(); while (x->owner) { if (x->owner == me + 1) { if (x->kind == PTHREAD_MUTEX_RECURSIVE) { x->count++; return; } sym_fail("lock already held by the same thread (self-deadlock)"); } T[me].st = T_MUTEX; T[me].obj = m; resched(); } x->owner = me + 1; x->count = 1; held[me]++; }
int symp_mutex_lock(pthread_mutex_t *m) { init(); point(); acquire((mtx_t *)m, m); return 0; }
int symp_mutex_trylock(pthread_mutex_t *m) { init(); point(); mtx_t *x = (mtx_t *)m; int me = symp_self(); if (x->owner) { if (x->owner == me + 1 && x->kind == PTHREAD_MUTEX_RECURSIVE) { x->count++; return 0; } return EBUSY; } x->owner = me + 1; x->count = 1; held[me]++; return 0; }
static void release(mtx_t *x, void *m) { int me = symp_self(); if (x->owner != me + 1) sym_fail("unlock of a lock this thread does not hold"); if (--x->count) return; x->owner = 0; held[me]--; for (int t = 0; t < nT; t++) if (T[t].st == T_MUTEX && T[t].obj == m) T[t].st = T_RUN; }
int symp_mutex_unlock(pthread_mutex_t *m) { init(); release((mtx_t *)m, m); point(); return 0; }
int symp_mutex_owner(pthread_mutex_t *m) { return ((mtx_t *)m)->owner; }
int symp_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { (void)a; memset(c, 0, sizeof *c); return 0; }
int symp_cond_destroy(pthread_cond_t *c) { (void)c; return 0; }
static int cwait(pthread_cond_t *c, pthread_mutex_t *m, int timed) { init(); int me = symp_self(); mtx_t *x = (mtx_t *)m; if (x->owner != me + 1) sym_fail("condition wait without holding the mutex"); release(x, m); T[me].st = T_COND; T[me].obj = c; T[me].timed = timed; T[me].woken = 0; resched(); int w = T[me].woken; acquire(x, m); return w ? 0 : ETIMEDOUT; }
int symp_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return cwait(c, m, 0); }
int symp_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) { (void)ts; return cwait(c, m, 1); }
int symp_cond_signal(pthread_cond_t *c) { init(); for (int t = 0; t < nT; t++) if (T[t].st == T_COND && T[t].obj == c) { T[t].woken = 1; T[t].st = T_RUN; break; } point(); return 0; }
int symp_cond_broadcast(pthread_cond_t *c) { init(); for (int t = 0; t < nT; t++) if (T[t].st == T_COND && T[t].obj == c) { T[t].woken = 1; T[t].st = T_RUN; } point(); return 0; }
int symp_sleep_any(void) { init(); int me = symp_self(); T[me].st = T_SLEEP; resched(); return 0; }
int symp_usleep(unsigned us) { (void)us; return symp_sleep_any(); }
unsigned symp_sleep(unsigned s) { (void)s; symp_sleep_any(); return 0; }
int symp_nanosleep(const struct timespec *a, struct timespec *b) { (void)a; (void)b; return symp_sleep_any(); }
int symp_sched_yield(void) { init(); point(); return 0; }
int symp_threads(void) { return nT; }
/* the process dies: no other thread runs again (their identities are reused) */
void symp_kill_others(void) { init(); int me = symp_self(); if (me) sym_fail("only the main thread may end the others"); for (int t = 1; t < nT; t++) T[t].st = T_DONE; for (int t = 0; t < nT; t++) held[t] = 0; }
int symp_state(int t) { return T[t].st; }
int symp_all_done(void) { for (int t = 1; t < nT; t++) if (T[t].st != T_DONE) return 0; return 1; }
int symp_attr(pthread_attr_t *a) { (void)a; return 0; }
int symp_attr_i(pthread_attr_t *a, int i) { (void)a; (void)i; return 0; }
/* rwlocks and spinlocks as mutexes (readers serialised: sound for mutual exclusion, not for reader parallelism) */
static void *keys[32][MAXT]; static int nkeys;
int symp_key_create(pthread_key_t *k, void (*d)(void *)) { (void)d; *k = nkeys++; return 0; }
int symp_setspecific(pthread_key_t k, const void *v) { keys[k][symp_self()] = (void *)v; return 0; }
void *symp_getspecific(pthread_key_t k) { return keys[k][symp_self()]; }
int symp_once(pthread_once_t *o, void (*f)(void)) { if (!*(int *)o) { *(int *)o = 1; f(); } return 0; }

/* Worker threads: connection hand-off, asynchronous completions (thread.c) and object caches (cache.c).
 * libevent and the notify pipes are replaced by models; the schedule at lock operations, failures and histories are inputs. */
#include "config.h"
#include "sym.h"
#include <stdio.h>
#include <stdlib.h>
#include <assert.h>
#include <signal.h>
#include "memcached.h"
#ifndef H_MODE
#define H_MODE 0
#endif
#ifndef H_STEPS
#define H_STEPS 3
#endif
#ifndef H_KEEP
#define H_KEEP 0
#endif
#ifndef H_N0
#define H_N0 0
#endif
#ifndef H_PRE
#define H_PRE 2
#endif
#undef malloc
#undef realloc
#undef calloc
#undef read
#undef write
#undef close
#undef pipe
#undef strdup
extern void *malloc(size_t); extern void *realloc(void *, size_t); extern void *calloc(size_t, size_t);
void symp_explore(int); void symp_yield_all(void); int symp_self(void); int symp_held(int);
static long fail_at = -1, nalloc;
static int oom(void) { return nalloc++ == fail_at; }
void *h_malloc(size_t n) { return oom() ? NULL : malloc(n); }
void *h_realloc(void *p, size_t n) { return oom() ? NULL : realloc(p, n); }
void *h_calloc(size_t n, size_t m) { return oom() ? NULL : calloc(n, m); }
char *h_strdup(const char *s) { size_t n = strlen(s) + 1; if (oom()) return NULL; char *p = malloc(n); memcpy(p, s, n); return p; }
#if H_MODE < 10
/* ---- object caches ---- */
#define NO 80
static struct { void *o; int built, torn; } O[NO]; static int no; static int ctor_fail; static char ctag;
static int find(void *o) { for (int i = no - 1; i >= 0; i--) if (O[i].o == o && !O[i].torn) return i; return -1; }
static int ctor(void *o, void *n, int f) { (void)n; (void)f; if (ctor_fail) return 1; sym_assert(find(o) < 0, "an object is constructed once"); O[no].o = o; O[no].built = 1; O[no].torn = 0; no++; memset(o, 0x5a, 24); return 0; }
static void dtor(void *o, void *n) { (void)n; int i = find(o); if (i < 0) { sym_fail("the destructor gets an object that was constructed and not yet destroyed"); return; } O[i].torn = 1; }
static void *mine[NO]; static int nm;
static void take(cache_t *c) {
  long b = nalloc; int live0 = no; void *o = cache_alloc(c); if (!o) { sym_assert((fail_at >= b && nalloc > fail_at) || ctor_fail, "an allocation fails only when memory is short or the constructor fails"); sym_assert(no == live0, "a failed allocation constructs nothing"); sym_reach("refused"); return; }
  for (int i = 0; i < nm; i++) sym_assert(mine[i] != o, "an object belongs to one user at a time"); sym_assert(find(o) >= 0, "an object handed out has been constructed"); sym_assert(sym_valid_mem(o, 24), "an object has the requested size"); for (int i = 0; i < 24; i++) sym_assert(((unsigned char *)o)[i] == 0x5a, "the constructed state is kept"); mine[nm++] = o; }
static void give(cache_t *c, int i) { void *o = mine[i]; mine[i] = mine[--nm]; cache_free(c, o); }
static void objects(void) {
  fail_at = sym_choose(4, "early"); if (fail_at == 3) fail_at = -1; cache_t *c = cache_create("test", 24, 8, ctor, dtor); if (!c) { sym_assert(fail_at >= 0, "a cache is created"); sym_reach("no cache"); sym_assert(sym_heap_live(0) == 0, "a failed creation leaves nothing behind"); return; } sym_assert(fail_at < 0, "a cache needs its memory"); sym_assert(sym_valid_mem(c, sizeof *c), "a cache");
  int n0 = H_N0; for (int i = 0; i < n0; i++) take(c); int keep = n0 > 4 ? H_KEEP : 0; while (nm > keep) give(c, nm - 1);
  for (int s = 0; s < H_STEPS; s++) { int op = sym_choose(nm ? 4 : 2, "op"); ctor_fail = 0; fail_at = -1; if (op == 0) take(c); else if (op == 1) { if (sym_choose(2, "how")) { fail_at = nalloc; take(c); } else { ctor_fail = 1; take(c); } } else if (op == 2) give(c, sym_choose(2, "i") ? nm - 1 : 0); else { fail_at = nalloc; give(c, 0); sym_reach("short"); } fail_at = -1; ctor_fail = 0; }
  while (nm) give(c, 0); cache_destroy(c); for (int i = 0; i < no; i++) sym_assert(O[i].torn, "every constructed object is destroyed"); sym_assert(sym_heap_live(0) == 0, "destroying a cache frees everything"); sym_reach("end"); }
/* two users of one cache */
static cache_t *shared; static void *got[2][2];
static void *user(void *a) { int t = (int)(intptr_t)a; for (int r = 0; r < 2; r++) { unsigned char *o = cache_alloc(shared); got[t][0] = o; sym_assert(o != NULL && o != got[!t][0], "an object belongs to one user at a time"); o[0] = (unsigned char)(t + 1); pthread_mutex_t m; pthread_mutex_init(&m, NULL); pthread_mutex_lock(&m); pthread_mutex_unlock(&m); sym_assert(o[0] == t + 1, "an object belongs to one user at a time"); got[t][0] = NULL; cache_free(shared, o); } sym_assert(!symp_held(symp_self()), "no lock is kept"); return NULL; }
static void users(void) { shared = cache_create("s", 24, 8, NULL, NULL); void *o = cache_alloc(shared); cache_free(shared, o); pthread_t a, b; symp_explore(H_PRE); pthread_create(&a, NULL, user, (void *)0); pthread_create(&b, NULL, user, (void *)1); pthread_join(a, NULL); pthread_join(b, NULL); cache_destroy(shared); sym_assert(sym_heap_live(0) == 0, "destroying a cache frees everything"); sym_reach("end"); }
#else
/* ---- environment of thread.c ---- */
struct settings settings; volatile sig_atomic_t memcached_shutdown; EXTENSION_LOGGER_DESCRIPTOR *mc_logger; EXTENSION_LOGGER_DESCRIPTOR lg;
static void nolog(EXTENSION_LOG_LEVEL l, const void *c, const char *f, ...) { (void)l; (void)c; (void)f; }
#define NB 3
static struct { void (*cb)(int, short, void *); void *arg; int stop; int fd, used; } B[NB]; static int nb; static int bytes[2 * NB + 2], npipe; static pthread_mutex_t pm; static pthread_cond_t pc; static int closed[64];
struct event_base *event_base_new(void) { B[nb].used = 1; return (struct event_base *)&B[nb++]; }
void event_base_free(struct event_base *b) { (void)b; }
static struct { struct event *e; int fd; void (*cb)(int, short, void *); void *arg; } EV[8]; static int nev;
void event_set(struct event *e, evutil_socket_t fd, short w, void (*cb)(evutil_socket_t, short, void *), void *arg) { (void)w; EV[nev].e = e; EV[nev].fd = fd; EV[nev].cb = (void (*)(int, short, void *))cb; EV[nev++].arg = arg; }
int event_base_set(struct event_base *b, struct event *e) { for (int i = 0; i < nev; i++) if (EV[i].e == e) for (int k = 0; k < NB; k++) if (b == (struct event_base *)&B[k]) { B[k].fd = EV[i].fd; B[k].cb = EV[i].cb; B[k].arg = EV[i].arg; } return 0; }
static void conn_added(struct event *e); static void conn_removed(struct event *e);
int event_add(struct event *e, const struct timeval *t) { (void)t; conn_added(e); return 0; }
int event_del(struct event *e) { conn_removed(e); return 0; }
int event_base_loopbreak(struct event_base *b) { for (int k = 0; k < NB; k++) if (b == (struct event_base *)&B[k]) B[k].stop = 1; return 0; }
static int pidx(int fd) { return (fd - 100) / 2; }
static volatile int readyc[8]; static int runready(struct event_base *b);
int event_base_loop(struct event_base *b, int fl) { (void)fl; int k = 0; while (b != (struct event_base *)&B[k]) k++;
  for (;;) { pthread_mutex_lock(&pm); while (!bytes[pidx(B[k].fd)] && !runready(NULL)) pthread_cond_wait(&pc, &pm); pthread_mutex_unlock(&pm); if (runready(b)) { sym_assert(!symp_held(symp_self()), "a worker keeps no lock"); continue; } B[k].cb(B[k].fd, EV_READ, B[k].arg); sym_assert(!symp_held(symp_self()), "a worker keeps no lock"); if (B[k].stop) return 0; } }
int h_pipe(int *fds) { fds[0] = 100 + 2 * npipe; fds[1] = 101 + 2 * npipe; npipe++; return 0; }
ssize_t h_read(int fd, void *p, size_t n) { pthread_mutex_lock(&pm); int k = pidx(fd), r = bytes[k] > 0; if (r) { bytes[k]--; if (n) *(char *)p = 0; } pthread_mutex_unlock(&pm); return r ? 1 : -1; }
ssize_t h_write(int fd, const void *p, size_t n) { (void)p; (void)n; pthread_mutex_lock(&pm); bytes[pidx(fd)]++; pthread_cond_broadcast(&pc); pthread_mutex_unlock(&pm); return 1; }
int h_close(int fd) { if (fd >= 0 && fd < 64) { sym_assert(!closed[fd], "a socket is closed once"); closed[fd] = 1; } return 0; }
int token_buff_create(token_buff_t *b, uint32_t n) { (void)b; (void)n; return 0; } void token_buff_destroy(token_buff_t *b) { (void)b; }
int mblck_pool_create(mblck_pool_t *p, uint32_t l, uint32_t c) { (void)p; (void)l; (void)c; return 0; } void mblck_pool_destroy(mblck_pool_t *p) { (void)p; }
static conn *CN[8]; static int ncn; static int refuse_conn = -1; static int on[8];
bool conn_closing(conn *c) { (void)c; return false; }
static int cidx(struct event *e) { for (int i = 0; i < ncn; i++) if (&CN[i]->event == e) return i; return -1; }
static void conn_added(struct event *e) { int i = cidx(e); if (i < 0) return; sym_assert(!on[i], "a connection is watched once"); on[i] = 1; }
static void conn_removed(struct event *e) { int i = cidx(e); if (i < 0) return; sym_assert(on[i], "only a watched connection is unwatched"); on[i] = 0; }
static int runready(struct event_base *b) { for (int i = 0; i < ncn; i++) if (readyc[i] && on[i]) { if (b) while (CN[i]->state(CN[i])) ; return 1; } return 0; }
static struct { int sfd, flags, rbs, tr; STATE_FUNC f; struct event_base *b; } DEL[8]; static int ndel; static bool st_idle(conn *c) { (void)c; return false; } static bool st_other(conn *c) { (void)c; return false; }
conn *conn_new(const int sfd, STATE_FUNC f, const int flags, const int rbs, enum network_transport t, struct event_base *b, struct timeval *to) { (void)to; sym_assert(!symp_held(symp_self()), "no lock is held while a connection is set up"); DEL[ndel].sfd = sfd; DEL[ndel].f = f; DEL[ndel].flags = flags; DEL[ndel].rbs = rbs; DEL[ndel].tr = t; DEL[ndel].b = b; ndel++; if (sfd == refuse_conn) return NULL; conn *c = calloc(1, sizeof *c); c->sfd = sfd; c->state = f; CN[ncn++] = c; on[ncn - 1] = 1; return c; }
static void start(int nt) { lg.log = nolog; mc_logger = &lg; settings.num_threads = nt; settings.reqs_per_event = 5; pthread_mutex_init(&pm, NULL); pthread_cond_init(&pc, NULL); thread_init(nt, NULL); sym_assert(nb == nt, "every worker has its event loop"); }
static void stop(void) { memcached_shutdown = 2; threads_shutdown(); }
static void settle(void) { for (int i = 0; i < 4; i++) symp_yield_all(); }
#if H_MODE == 10
/* hand-off of new connections */
static void handoff(void) {
  start(H_NT); refuse_conn = 10 + sym_choose(H_N + 1, "refused"); int oomfirst = sym_choose(2, "oom"), early = sym_choose(2, "early"); symp_explore(H_PRE);
  for (int i = 0; i < H_N; i++) { fail_at = oomfirst && i == 0 ? nalloc : -1; dispatch_conn_new(10 + i, i & 1 ? st_other : st_idle, 3 + i, 100 + i, tcp_transport); fail_at = -1; if (oomfirst && i == 0) sym_assert(closed[10], "a connection that cannot be queued is closed"); else if (10 + i != refuse_conn) sym_assert(!closed[10 + i], "a queued connection stays open"); }
  symp_explore(early ? H_PRE : 0); if (!early) settle();
  if (!early) for (int i = oomfirst; i < H_N; i++) { int seen = 0; for (int d = 0; d < ndel; d++) if (DEL[d].sfd == 10 + i) { seen++; sym_assert(DEL[d].f == (i & 1 ? st_other : st_idle) && DEL[d].flags == 3 + i && DEL[d].rbs == 100 + i && DEL[d].tr == tcp_transport, "a connection is handed over with its parameters"); } sym_assert(seen == 1, "every connection is taken exactly once"); }
  for (int d = 0; d < ndel; d++) for (int e = d + 1; e < ndel; e++) { sym_assert(DEL[d].sfd != DEL[e].sfd, "every connection is taken exactly once"); if (DEL[d].b == DEL[e].b) sym_assert(DEL[d].sfd < DEL[e].sfd, "a worker takes its connections in order"); }
  if (!early) { for (int i = 0; i < ncn; i++) { sym_assert(CN[i]->thread != NULL, "a connection knows its worker"); sym_assert(!closed[CN[i]->sfd], "a taken connection stays open"); } if (ncn == H_N) sym_reach("all"); }
  stop(); for (int i = 0; i < H_N; i++) sym_assert(closed[10 + i], "shutdown closes every connection"); if (early && ndel < H_N - 1) sym_reach("left in queue"); sym_reach("end"); }
#elif H_MODE == 11
/* asynchronous completions */
static int phase[8], done[8], posted[8], notified[8], need[8], blocked[8], woken; static pthread_mutex_t nm_; static pthread_cond_t nc_; static int total;
static void post(int i) { pthread_mutex_lock(&nm_); posted[i]++; pthread_cond_signal(&nc_); pthread_mutex_unlock(&nm_); }
static bool st_io(conn *c) { int i = 0; while (CN[i] != c) i++;
  if (phase[i] == 0) { if (done[i] == H_R) { readyc[i] = 0; return false; } need[i] = 1 + sym_choose(H_K, "waits"); notified[i] = 0; int order = sym_choose(2, "order"); for (int k = 0; k < need[i]; k++) { if (order) { post(i); waitfor_io_complete(c); } else { waitfor_io_complete(c); post(i); } } phase[i] = 1; readyc[i] = 0; if (should_io_blocked(c)) { blocked[i] = 1; sym_reach("blocked"); return false; } sym_reach("not blocked"); sym_assert(on[i], "a connection that goes on is watched"); }
  else { sym_assert(blocked[i], "only a waiting connection is woken"); sym_assert(on[i], "a woken connection is watched again"); blocked[i] = 0; woken++; sym_assert(c->aiostat == ENGINE_SUCCESS, "the completion status"); }
  sym_assert(notified[i] == need[i], "a connection goes on only when every operation has completed"); phase[i] = 0; done[i]++; readyc[i] = 1; return true; }
static void *notifier(void *a) { (void)a; for (int n = 0; n < total; n++) { pthread_mutex_lock(&nm_); int i; for (;;) { for (i = 0; i < ncn; i++) if (posted[i]) break; if (i < ncn) break; pthread_cond_wait(&nc_, &nm_); total = total; if (memcached_shutdown) { pthread_mutex_unlock(&nm_); return NULL; } } posted[i]--; pthread_mutex_unlock(&nm_); notified[i]++; notify_io_complete(CN[i], ENGINE_SUCCESS); sym_assert(!symp_held(symp_self()), "no lock is kept"); } return NULL; }
static void io(void) { start(1); pthread_mutex_init(&nm_, NULL); pthread_cond_init(&nc_, NULL); for (int i = 0; i < H_C; i++) dispatch_conn_new(10 + i, st_io, 0, 0, tcp_transport); settle(); sym_assert(ncn == H_C, "every connection is taken"); total = 1000; pthread_t t; pthread_create(&t, NULL, notifier, NULL); settle(); symp_explore(H_PRE);
  pthread_mutex_lock(&pm); for (int i = 0; i < H_C; i++) readyc[i] = 1; pthread_cond_broadcast(&pc); pthread_mutex_unlock(&pm); settle(); symp_explore(0); settle(); settle();
  for (int i = 0; i < H_C; i++) { sym_assert(done[i] == H_R, "every completion wakes its connection"); sym_assert(on[i] && !blocked[i], "no connection is left waiting"); sym_assert(CN[i]->current_io_wait == 0 && CN[i]->premature_io_complete == 0, "no completion is left over"); } sym_reach("end");
  memcached_shutdown = 1; pthread_mutex_lock(&nm_); pthread_cond_broadcast(&nc_); pthread_mutex_unlock(&nm_); pthread_join(t, NULL); stop(); }
#else
/* server-wide statistics are the sums over the workers */
static void sums(void) { start(2); (void)settle; struct thread_stats *ts = threadlocal_stats_create(2), out; size_t off = offsetof(struct thread_stats, cmd_get), nf = (sizeof *ts - off) / 8; memset(&out, 0, sizeof out);
  uint64_t *v = (uint64_t *)((char *)ts + off), *v2 = (uint64_t *)((char *)(ts + 1) + off), *w = (uint64_t *)((char *)&out + off); uint64_t a[200], b[200]; for (size_t i = 0; i < nf; i++) { v[i] = a[i] = sym_u64("counter"); v2[i] = b[i] = sym_u64("counter"); w[i] = 5; } threadlocal_stats_aggregate(ts, &out); for (size_t i = 0; i < nf; i++) { sym_assert(w[i] - b[i] == 5 + a[i], "a server-wide counter is the sum over the workers"); sym_assert(v[i] == a[i] && v2[i] == b[i], "summing changes no counter"); }
  threadlocal_stats_reset(ts); for (size_t i = 0; i < nf; i++) sym_assert(v[i] == 0 && v2[i] == 0, "a reset clears every counter"); sym_reach("end"); threadlocal_stats_destroy(ts); stop(); }
#endif
#endif
void harness(void) {
#if H_MODE == 0
  objects();
#elif H_MODE == 1
  users();
#elif H_MODE == 10
  handoff();
#elif H_MODE == 11
  io();
#else
  sums();
#endif
}

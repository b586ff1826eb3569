/* The real server (memcached.c main, thread.c, the default engine and everything else) in front of model sockets.
 * libevent, the sockets, SASL and the process environment are replaced by small models; server() is called by main's event loop. */
#ifndef SERVER_H
#define SERVER_H
#include "config.h"
#include "sym.h"
#include "pth.h"
#include <stdio.h>
#include <stdlib.h>
#include <errno.h>
#include <stdarg.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <netinet/in.h>
#include <event.h>
#include <memcached/engine.h>
#include <memcached/extension_loggers.h>
#include "memcached.h"
#undef malloc
#undef calloc
#undef realloc
#undef strdup
extern void *malloc(size_t); extern void *calloc(size_t, size_t); extern void *realloc(void *, size_t);
int mc_main(int, char **);
extern ENGINE_ERROR_CODE create_instance(uint64_t interface, GET_SERVER_API get_server_api, ENGINE_HANDLE **handle);
static void session(void);            /* the harness proper */
/* ---- the hash the server gives its engine: coarse, so that equal hashes are common and unknown keys need no case split ---- */
uint32_t mc_hash(const void *key, size_t n, const uint32_t iv) { (void)key; (void)iv; return (uint32_t)(n * 5 + 1); }
/* ---- memory ---- */
static long srv_fail_at = -1, srv_nalloc; static int srv_count;
static int srv_oom(void) { return srv_count && srv_nalloc++ == srv_fail_at; }
void *h_malloc(size_t n) { return srv_oom() ? NULL : malloc(n); }
void *h_calloc(size_t n, size_t m) { return srv_oom() ? NULL : calloc(n, m); }
void *h_realloc(void *p, size_t n) { return srv_oom() ? NULL : realloc(p, n); }
char *h_strdup(const char *s) { size_t n = strlen(s) + 1; if (srv_oom()) return NULL; char *p = malloc(n); memcpy(p, s, n); return p; }
/* ---- sockets: 40.. clients, 100.. pipes ---- */
#ifndef NSOCK
#define NSOCK 4
#endif
#ifndef SRV_OUT
#define SRV_OUT 8192
#endif
static struct { int open, eof; const char *in; int pos, end; char *out; int nout; int wcap, wstep; long closes; } S[NSOCK];
static int srv_send_fail = -1;       /* sends left before the peer turns out to be gone */
static int pipe_n, pipe_bytes[8];
int h_pipe(int *fds) { fds[0] = 100 + 2 * pipe_n; fds[1] = 101 + 2 * pipe_n; pipe_n++; return 0; }
static int srv_rmax = 1 << 30;        /* most bytes one read returns */
ssize_t h_read(int fd, void *p, size_t n) {
  if (fd >= 100) { int k = (fd - 100) / 2; if (!pipe_bytes[k]) { errno = EAGAIN; return -1; } pipe_bytes[k]--; if (n) *(char *)p = 0; return 1; }
  int s = fd - 40; if (s < 0 || s >= NSOCK || !S[s].open) sym_fail("a read from a socket that is not open");
  int av = S[s].end - S[s].pos; if (!av) { if (S[s].eof) return 0; errno = EAGAIN; return -1; }
  if ((size_t)av > n) av = (int)n; if (av > srv_rmax) av = srv_rmax; memcpy(p, S[s].in + S[s].pos, av); S[s].pos += av; return av;
}
ssize_t h_write(int fd, const void *p, size_t n) { (void)p; if (fd >= 100) { pipe_bytes[(fd - 100) / 2]++; return 1; } return (ssize_t)n; }
ssize_t h_sendmsg(int fd, const struct msghdr *m, int fl) {
  (void)fl; int s = fd - 40; if (s < 0 || s >= NSOCK || !S[s].open) { sym_fail("a write to a socket that is not open"); return -1; }
  sym_assert(m->msg_iovlen > 0 && m->msg_iovlen <= 1024, "a message has 1 to 1024 parts");
  if (srv_send_fail >= 0 && srv_send_fail-- == 0) { srv_send_fail = 0; errno = EPIPE; return -1; }
  if (S[s].wcap == 0) { S[s].wcap = S[s].wstep; errno = EAGAIN; return -1; }
  ssize_t t = 0; for (size_t i = 0; i < m->msg_iovlen; i++) { size_t k = m->msg_iov[i].iov_len; if (S[s].wcap > 0 && k > (size_t)S[s].wcap) k = S[s].wcap; if (!k) { if (m->msg_iov[i].iov_len) break; continue; }
    if (S[s].nout + (int)k > SRV_OUT) { sym_fail("reply longer than expected"); return -1; } memcpy(S[s].out + S[s].nout, m->msg_iov[i].iov_base, k); S[s].nout += (int)k; t += (ssize_t)k; if (S[s].wcap > 0) { S[s].wcap -= (int)k; if (!S[s].wcap) break; } }
  return t;
}
int h_close(int fd) { if (fd >= 40 && fd < 40 + NSOCK) { sym_assert(S[fd - 40].open, "a socket is closed once"); S[fd - 40].open = 0; S[fd - 40].closes++; } return 0; }
int h_fcntl(int fd, int c, ...) { (void)fd; (void)c; return 0; }
int h_getpeername(int fd, struct sockaddr *a, socklen_t *l) { (void)fd; (void)l; struct sockaddr_in *s = (struct sockaddr_in *)a; s->sin_family = AF_INET; s->sin_addr.s_addr = htonl(0x7f000001); return 0; }
char *h_inet_ntoa(struct in_addr a) { (void)a; return (char *)"127.0.0.1"; }
/* ---- process environment ---- */
int h_getrlimit(__rlimit_resource_t r, struct rlimit *l) { (void)r; l->rlim_cur = l->rlim_max = 100000; return 0; }
int h_setrlimit(__rlimit_resource_t r, const struct rlimit *l) { (void)r; (void)l; return 0; }
int h_getrusage(__rusage_who_t w, struct rusage *r) { (void)w; memset(r, 0, sizeof *r); return 0; }
uid_t h_getuid(void) { return 1000; } uid_t h_geteuid(void) { return 1000; }
void (*h_signal(int s, void (*f)(int)))(int) { (void)s; (void)f; return NULL; }
int h_sigaction(int s, const struct sigaction *a, struct sigaction *o) { (void)s; (void)a; (void)o; return 0; }
#ifndef SRV_ENV
#define SRV_ENV NULL, *srv_env_value = NULL
#endif
static const char *srv_env_name = SRV_ENV;
char *h_getenv(const char *n) { if (srv_env_name && !strcmp(n, srv_env_name)) return (char *)srv_env_value; return NULL; }
static long srv_clock = 1700000000;
int h_gettimeofday(struct timeval *tv, void *z) { (void)z; tv->tv_sec = srv_clock; tv->tv_usec = 0; return 0; }
time_t h_time(time_t *t) { if (t) *t = srv_clock; return srv_clock; }
/* ---- libevent ---- */
static struct event_base *main_b; static char bases[8]; static int nbase; static pthread_mutex_t lm; static pthread_cond_t lc;
#define NEV 24
static struct { struct event *e; int fd, flags, added; void (*cb)(evutil_socket_t, short, void *); void *arg; struct event_base *b; } EV[NEV]; static int nev;
static int evi(struct event *e) { for (int i = 0; i < nev; i++) if (EV[i].e == e) return i; return -1; }
struct event_base *event_base_new(void) { return (struct event_base *)&bases[nbase++]; }
void event_base_free(struct event_base *b) { (void)b; }
void event_set(struct event *e, evutil_socket_t fd, short w, void (*cb)(evutil_socket_t, short, void *), void *arg) { int i = evi(e); if (i < 0) { i = nev++; if (nev > NEV) sym_fail("too many events"); } EV[i].e = e; EV[i].fd = fd; EV[i].flags = w; EV[i].cb = cb; EV[i].arg = arg; }
int event_base_set(struct event_base *b, struct event *e) { e->ev_base = b; int i = evi(e); if (i >= 0) EV[i].b = b; return 0; }
int event_add(struct event *e, const struct timeval *t) { (void)t; int i = evi(e); if (i >= 0) EV[i].added = 1; return 0; }
int event_del(struct event *e) { int i = evi(e); if (i >= 0) EV[i].added = 0; return 0; }
int event_base_loopbreak(struct event_base *b) { (void)b; return 0; }
const char *event_get_version(void) { return "2.1"; }
int event_base_loop(struct event_base *b, int fl) { (void)fl; if (b == (struct event_base *)&bases[0]) { session(); sym_end(); } pthread_mutex_lock(&lm); for (;;) pthread_cond_wait(&lc, &lm); return 0; }
static int srv_steps; static rel_time_t (*srv_now)(void);
/* run the event loop until nothing is ready */
static void pump(void) {
  for (int round = 0, busy = 1; busy; round++) {
    busy = 0; if (round > 4000) { sym_fail("the server keeps working without end"); return; }
    for (int i = 0; i < nev; i++) { if (!EV[i].added) continue; int w = 0;
      if (EV[i].fd >= 100) { if (pipe_bytes[(EV[i].fd - 100) / 2]) w = EV_READ; }
      else if (EV[i].fd >= 40) { int s = EV[i].fd - 40; if ((EV[i].flags & EV_READ) && (S[s].pos < S[s].end || S[s].eof)) w |= EV_READ; if (EV[i].flags & EV_WRITE) w |= EV_WRITE; }
      if (w) { busy = 1; srv_steps++; EV[i].cb(EV[i].fd, (short)w, EV[i].arg); sym_assert(!symp_held(symp_self()), "no lock is kept between events"); } }
    symp_yield_all();
  }
}
static int connect_client(void) { int s = 0; while (S[s].open || S[s].closes) s++; S[s].open = 1; S[s].out = malloc(SRV_OUT); S[s].nout = 0; S[s].wcap = S[s].wstep = -1; dispatch_conn_new(40 + s, conn_new_cmd, EV_READ | EV_PERSIST, DATA_BUFFER_SIZE, tcp_transport); pump(); return s; }
static void arrive(int s, const char *b, int n) { S[s].in = b; S[s].pos = 0; S[s].end = n; pump(); if (S[s].open) sym_assert(S[s].pos == S[s].end, "the server reads what arrives"); }
static void say(int s, const char *t) { arrive(s, t, (int)strlen(t)); }
/* the reply to t is exactly r */
static int heard(int s, const char *r) { int n = (int)strlen(r), ok = S[s].nout == n && memcmp(S[s].out, r, n) == 0;
#ifdef SRV_SHOW
  if (!ok) { S[s].out[S[s].nout] = 0; sym_print("want:"); sym_print(r); sym_print("got:"); sym_print(S[s].out); }
#endif
  S[s].nout = 0; return ok; }
/* ---- engine loading, logging ---- */
bool load_engine(const char *so, SERVER_HANDLE_V1 *(*get)(void), EXTENSION_LOGGER_DESCRIPTOR *l, ENGINE_HANDLE **h) { (void)so; (void)l; return create_instance(1, get, h) == ENGINE_SUCCESS; }
bool init_engine(ENGINE_HANDLE *h, const char *cfg, EXTENSION_LOGGER_DESCRIPTOR *l) { (void)l; return ((ENGINE_HANDLE_V1 *)h)->initialize(h, cfg) == ENGINE_SUCCESS; }
void log_engine_details(ENGINE_HANDLE *h, EXTENSION_LOGGER_DESCRIPTOR *l) { (void)h; (void)l; }
static const char *srv_lname(void) { return "model"; }
static void srv_log(EXTENSION_LOG_LEVEL l, const void *c, const char *f, ...) { (void)l; (void)c; (void)f;
#ifdef SRV_LOG
  sym_print(f);
#endif
}
static EXTENSION_LOGGER_DESCRIPTOR srv_logger = { .get_name = srv_lname, .log = srv_log };
EXTENSION_LOGGER_DESCRIPTOR *get_stderr_logger(void) { return &srv_logger; }
EXTENSION_LOGGER_DESCRIPTOR *get_null_logger(void) { return &srv_logger; }
EXTENSION_ERROR_CODE memcached_initialize_stderr_logger(GET_SERVER_API g) { (void)g; return EXTENSION_SUCCESS; }
int daemonize(int a, int b) { (void)a; (void)b; return 0; }
/* ---- SASL ---- */
#ifndef SRV_OWN_SASL
#include <sasl/sasl.h>
static int sasl_live; static char sasl_obj[4]; static const char *sasl_user = "user"; static int (*sasl_step)(const char *, unsigned, const char **, unsigned *); static int sasl_new_fails;
int sasl_server_init(const sasl_callback_t *c, const char *a) { (void)c; (void)a; return SASL_OK; }
void sasl_done(void) { }
int sasl_server_new(const char *a, const char *b, const char *c, const char *d, const char *e, const sasl_callback_t *f, unsigned g, sasl_conn_t **o) { (void)a; (void)b; (void)c; (void)d; (void)e; (void)f; (void)g; if (sasl_new_fails) return SASL_NOMEM; *o = (sasl_conn_t *)sasl_obj; sasl_live++; return SASL_OK; }
void sasl_dispose(sasl_conn_t **c) { if (*c) sasl_live--; *c = NULL; }
int sasl_listmech(sasl_conn_t *c, const char *u, const char *p, const char *sep, const char *suf, const char **r, unsigned *l, int *n) { (void)c; (void)u; (void)p; (void)sep; (void)suf; *r = "PLAIN"; if (l) *l = 5; if (n) *n = 1; return SASL_OK; }
int sasl_server_start(sasl_conn_t *c, const char *m, const char *in, unsigned n, const char **o, unsigned *ol) { (void)m; if (!c) sym_fail("authentication without a session"); *o = NULL; *ol = 0; return sasl_step ? sasl_step(in, n, o, ol) : SASL_BADAUTH; }
int sasl_server_step(sasl_conn_t *c, const char *in, unsigned n, const char **o, unsigned *ol) { if (!c) sym_fail("authentication without a session"); *o = NULL; *ol = 0; return sasl_step ? sasl_step(in, n, o, ol) : SASL_BADAUTH; }
int sasl_getprop(sasl_conn_t *c, int p, const void **v) { (void)c; if (p == SASL_USERNAME) *v = sasl_user; else *v = NULL; return SASL_OK; }
const char *sasl_errstring(int e, const char *l, const char **o) { (void)e; (void)l; (void)o; return "error"; }
#endif
/* ---- start ---- */
#ifndef SRV_ARGS
#define SRV_ARGS "memcached", "-p", "0", "-t", "1"
#endif
static int start_server(int n, char **a) { pthread_mutex_init(&lm, NULL); pthread_cond_init(&lc, NULL); return mc_main(n, a); }
#ifndef SRV_OWN_START
void harness(void) { static char *av[] = { SRV_ARGS, NULL }; int n = 0; while (av[n]) n++; int r = start_server(n, av); (void)r; sym_fail("the server ended"); }
#endif
#endif

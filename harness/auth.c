/* C28: authorization, through the whole server started with -S and the access lists on. MODE selects the question. */
#define SRV_ENV "ARCUS_ACL_ZOOKEEPER", *srv_env_value = "1"
#define SRV_OWN_SASL
#define SRV_ARGS "memcached", "-p", "0", "-t", "1", "-S", "-X", "scrub.so"
#include "server.h"
#undef arcus_sasl_authz
#include <sasl/sasl.h>
#define ENABLE_ZK_INTEGRATION 1
#include "sasl_defs.c"               /* with the access lists; the server calls it through h_authz */
#undef ENABLE_ZK_INTEGRATION
extern EXTENSION_ERROR_CODE memcached_extensions_initialize(const char *, GET_SERVER_API);
void *h_dlopen(const char *n, int f) { (void)n; (void)f; return &srv_env_name; }
void *h_dlsym(void *h, const char *n) { (void)h; (void)n; return (void *)memcached_extensions_initialize; }
char *h_dlerror(void) { return NULL; } int h_dlclose(void *h) { (void)h; return 0; }
static char *cat(char *p, const char *t) { int n = (int)strlen(t); memcpy(p, t, n); return p + n; }
static void settle(void) { for (int i = 0; i < 4; i++) symp_tick(); }
/* ---- the access list of a user ---- */
static const char *list_text; static int list_err;
int arcus_getdata(const char *user, char *out, const size_t max) { sym_assert(!strcmp(user, "user") || !strcmp(user, "*user"), "the list of the authenticated user"); if (list_err) return SASL_FAIL; size_t n = strlen(list_text) + 1; if (n > max) return SASL_BUFOVER; memcpy(out, list_text, n); return SASL_OK; }
int arcus_auxprop_plug_init(const sasl_utils_t *u, int m, int *v, sasl_auxprop_plug_t **p, const char *n) { (void)u; (void)m; (void)v; (void)p; (void)n; return SASL_OK; }
int sasl_auxprop_add_plugin(const char *n, sasl_auxprop_init_t *i) { (void)n; (void)i; return SASL_OK; }
/* ---- SASL: each exchange has the outcome the harness asks for ---- */
struct sasl_conn { char user[8]; int has, started; };
static int sasl_live, sasl_calls, s_out, s_nout; static const char *s_user = "user", *s_chal = "", *s_mech, *s_data; static int s_ndata; static int new_fails;
static uint16_t s_mask; static int s_real;  /* privileges of the next user who succeeds */
uint16_t h_authz(const char *user) { if (s_real) return arcus_sasl_authz(user); sym_assert(!strcmp(user, s_user), "the privileges of the authenticated user"); return s_mask; }
int sasl_server_init(const sasl_callback_t *c, const char *a) { (void)c; (void)a; return SASL_OK; }
void sasl_done(void) { }
int sasl_server_new(const char *a, const char *b, const char *c, const char *d, const char *e, const sasl_callback_t *f, unsigned g, sasl_conn_t **o) { (void)a; (void)b; (void)c; (void)d; (void)e; (void)f; (void)g; if (new_fails || srv_oom()) return SASL_NOMEM; *o = calloc(1, sizeof **o); sasl_live++; return SASL_OK; }
void sasl_dispose(sasl_conn_t **c) { if (*c) { sasl_live--; free(*c); } *c = NULL; }
int sasl_listmech(sasl_conn_t *c, const char *u, const char *p, const char *sep, const char *suf, const char **r, unsigned *l, int *n) { (void)u; (void)sep; (void)suf; if (!c) return SASL_BADPARAM; *r = p && *p ? "SASL_MECH PLAIN" : "PLAIN"; if (l) *l = (unsigned)strlen(*r); if (n) *n = 1; return SASL_OK; }
static int step_(sasl_conn_t *c, const char *in, unsigned n, const char **o, unsigned *ol) {
  sasl_calls++; sym_assert(n == (unsigned)s_ndata && (n ? in && !memcmp(in, s_data, n) : 1), "the client's data reaches the mechanism"); if (s_out == SASL_CONTINUE) { *o = s_chal; *ol = s_nout; } else { *o = NULL; *ol = 0; }
  if (s_out == SASL_OK) { strcpy(c->user, s_user); c->has = 1; } c->started = s_out == SASL_CONTINUE; return s_out; }
int sasl_server_start(sasl_conn_t *c, const char *m, const char *in, unsigned n, const char **o, unsigned *ol) { if (!c) return SASL_BADPARAM; sym_assert(s_mech && !strcmp(m, s_mech), "the mechanism the client named"); return step_(c, in, n, o, ol); }
int sasl_server_step(sasl_conn_t *c, const char *in, unsigned n, const char **o, unsigned *ol) { if (!c) return SASL_BADPARAM; sym_assert(!s_mech, "a step, not a start"); if (!c->started) return SASL_BADPROT; return step_(c, in, n, o, ol); }
int sasl_getprop(sasl_conn_t *c, int p, const void **v) { if (!c) return SASL_BADPARAM; if (p != SASL_USERNAME || !c->has) return SASL_NOTDONE; *v = c->user; return SASL_OK; }
const char *sasl_errstring(int e, const char *l, const char **o) { (void)e; (void)l; (void)o; return "error"; }
static uint16_t now, ever;
#if MODE == 2 || MODE == 5 || MODE == 6 /* ---- the binary protocol; built as it comes, without ASCII_SASL ---- */
enum { GET, SET, ADD, REPLACE, DELETE, INCR, DECR, QUIT, FLUSH, GETQ, NOOP, VERS, GETK, GETKQ, APPEND, PREPEND, STAT, SETQ, ADDQ, REPLACEQ, DELETEQ, INCRQ, DECRQ, QUITQ, FLUSHQ, APPENDQ, PREPENDQ, SMECHS = 0x20, SAUTH, SSTEP };
static char *p16(char *p, unsigned v) { *p++ = (char)(v >> 8); *p++ = (char)v; return p; }
static char *p32(char *p, uint32_t v) { return p16(p16(p, v >> 16), v & 0xffff); }
static char *rq(char *p, int op, int nx, const char *k, const char *v, int nv) { int nk = (int)strlen(k); *p++ = (char)0x80; *p++ = (char)op; p = p16(p, nk); *p++ = (char)nx; *p++ = 0; p = p16(p, 0); p = p32(p, nx + nk + nv); memset(p, 0, 12 + nx); p += 12 + nx; memcpy(p, k, nk); memcpy(p + nk, v, nv); return p + nk + nv; }
static int status(int s) { return S[s].nout < 24 || (S[s].out[0] & 255) != 0x81 ? -1 : (S[s].out[6] & 255) << 8 | (S[s].out[7] & 255); }
static void bauth(int s, int op, const char *mech, int out) { char b[80]; s_mech = op == SAUTH ? mech : NULL; s_data = "x"; s_ndata = 1; s_out = out; char *p = rq(b, op, 0, mech, "x", 1); S[s].nout = 0; arrive(s, b, (int)(p - b)); }
static int badmin(void) { int s = connect_client(); s_mask = 0x7fff; bauth(s, SAUTH, "PLAIN", SASL_OK); sym_assert(status(s) == 0, "authenticated"); S[s].nout = 0; return s; }
static void bleave(int s) { if (S[s].open) { S[s].eof = 1; pump(); } sym_assert(!S[s].open, "closed"); }
static int bver(int s) { char b[40]; char *p = rq(b, VERS, 0, "", "", 0); S[s].nout = 0; arrive(s, b, (int)(p - b)); return status(s) == 0 && S[s].nout == 24 + (int)strlen(VERSION); }
static void bprep(int a) { static char b[1200]; char *p = b, *q; p = rq(p, SET, 8, "k", "5", 1); p = rq(p, SET, 8, "n", "5", 1); p = rq(p, SET, 8, "arcus:k", "5", 1); q = p; p = rq(p, 0x50, 16, "l", "", 0); q[24 + 7] = 10; p = rq(p, 0x51, 20, "l", "a", 1); q = p; p = rq(p, 0x60, 16, "s", "", 0); q[24 + 7] = 10; p = rq(p, 0x61, 16, "s", "a", 1); q = p; p = rq(p, 0x70, 16, "b", "", 0); q[24 + 7] = 10; q = p; p = rq(p, 0x71, 80, "b", "a", 1); q[24 + 31] = 1; q[24] = 1; S[a].nout = 0; arrive(a, b, (int)(p - b)); int o = 0, n = 0; while (o < S[a].nout) { if ((S[a].out[o + 6] | S[a].out[o + 7]) != 0) sym_fail("preparation"); o += 24 + (S[a].out[o + 11] & 255) + (S[a].out[o + 10] & 255) * 256; n++; } sym_assert(n == 9, "preparation"); }
static char bufs[2][6000];
static int bsnap(int a, int w) { static char b[1000]; char *p = b, *q; static const char *const K[] = { "k", "n", "z", "arcus:k", "arcus:z" }; for (int i = 0; i < 5; i++) p = rq(p, GETK, 0, K[i], "", 0); static const char *const A[] = { "k", "l", "s", "b" }; for (int i = 0; i < 4; i++) { p = rq(p, 0x4e, 56, A[i], "", 0); } q = p; p = rq(p, 0x53, 12, "l", "", 0); memset(q + 28, -1, 4); q = p; p = rq(p, 0x64, 8, "s", "", 0); q[24 + 3] = 10; S[a].nout = 0; arrive(a, b, (int)(p - b)); int n = S[a].nout; if (n > 6000) n = 6000; memcpy(bufs[w], S[a].out, n); S[a].nout = 0; return n; }
#else
/* ---- one exchange over the text protocol: mech NULL is a step ---- */
static char abuf[256];
static void auth(int s, const char *mech, const char *d, int n, int out) { char *p = cat(abuf, "sasl auth "); s_mech = mech; s_data = d; s_ndata = n; s_out = out; if (mech) p = cat(cat(p, mech), " "); *p++ = (char)('0' + n); p = cat(p, "\r\n"); memcpy(p, d, n); p = cat(p + n, "\r\n"); S[s].nout = 0; arrive(s, abuf, (int)(p - abuf)); }
static int begins(int s, const char *t) { int n = (int)strlen(t); return S[s].nout >= n && !memcmp(S[s].out, t, n); }
#define UNAUTH "CLIENT_ERROR unauthorized\r\n"
/* nothing but complaints about the data lines of a refused command may follow */
static int refused(int s) { if (!begins(s, UNAUTH)) return 0; int o = (int)strlen(UNAUTH); while (o < S[s].nout) { const char *e = "ERROR "; if (memcmp(S[s].out + o, e, 6)) return 0; while (o < S[s].nout && S[s].out[o] != '\n') o++; o++; } return 1; }
static int admin(void) {  int s = connect_client(); s_mask = 0x7fff; auth(s, "PLAIN", "x", 1, SASL_OK); sym_assert(heard(s, "SASL_OK\r\n"), "authenticated"); return s; }
static void leave(int s) { if (S[s].open) { S[s].eof = 1; pump(); } sym_assert(!S[s].open, "closed"); }
static char bufs[2][6000];
static int snap(int a, int w) { S[a].nout = 0; say(a, "get k arcus:k n z arcus:z\r\ngetattr k expiretime\r\nlop get l 0..-1\r\nsop get s 10\r\nmop get m 0 0\r\nbop get b 0..100\r\ngetattr b maxcount\r\ngetattr l count\r\nlop get arcus:l 0..-1\r\nconfig verbosity\r\nconfig memlimit\r\nscan key 0 count 100\r\n"); int n = S[a].nout; if (n > 6000) n = 6000; memcpy(bufs[w], S[a].out, n); S[a].nout = 0; return n; }
static void prep(int a) { say(a, "set k 7 0 1\r\n5\r\nset n 0 0 1\r\n5\r\nset arcus:k 0 0 1\r\n5\r\nlop insert l 0 1 create 3 0 0\r\na\r\nlop insert l 1 2\r\nbc\r\nsop insert s 1 create 4 0 0\r\na\r\nmop insert m f 1 create 4 0 0\r\na\r\nbop insert b 1 0x0A 1 create 5 0 0\r\n4\r\n");
  sym_assert(heard(a, "STORED\r\nSTORED\r\nSTORED\r\nCREATED_STORED\r\nSTORED\r\nCREATED_STORED\r\nCREATED_STORED\r\nCREATED_STORED\r\n"), "preparation"); }
/* how the client got where it is; what it may do afterwards is ever (all it was ever granted) and now (all it surely may do) */
static int known;
static void become(int s, int st, uint16_t m) { now = ever = 0; s_mask = m; known = st == 1 || st == 2 || st == 6;
  switch (st) {
  case 0: break;
  case 1: auth(s, "PLAIN", "x", 1, SASL_OK); sym_assert(heard(s, "SASL_OK\r\n"), "authenticated"); now = ever = m; break;
  case 2: s_chal = "c"; s_nout = 1; auth(s, "SCRAM", "x", 1, SASL_CONTINUE); sym_assert(heard(s, "SASL_CONTINUE 1\r\nc\r\n"), "a challenge"); auth(s, NULL, "y", 1, SASL_OK); sym_assert(heard(s, "SASL_OK\r\n"), "authenticated"); now = ever = m; break;
  case 3: auth(s, "PLAIN", "x", 1, SASL_BADAUTH); sym_assert(heard(s, "AUTH_ERROR error\r\n"), "refused"); break;
  case 4: s_chal = "c"; s_nout = 1; auth(s, "SCRAM", "x", 1, SASL_CONTINUE); sym_assert(heard(s, "SASL_CONTINUE 1\r\nc\r\n"), "a challenge"); break;
  case 5: s_mask = AUTHZ_FAIL; auth(s, "PLAIN", "x", 1, SASL_OK); sym_assert(heard(s, "AUTH_ERROR error\r\n"), "a user without a list is refused"); break;
  case 6: s_mask = (uint16_t)~m & 0x7fff; auth(s, "PLAIN", "x", 1, SASL_OK); sym_assert(heard(s, "SASL_OK\r\n"), "authenticated"); s_mask = m; auth(s, "PLAIN", "x", 1, SASL_OK); sym_assert(heard(s, "SASL_OK\r\n"), "authenticated as another user"); now = ever = m; break;
  case 7: auth(s, "PLAIN", "x", 1, SASL_OK); sym_assert(heard(s, "SASL_OK\r\n"), "authenticated"); s_mask = 0x7fff; auth(s, "PLAIN", "x", 1, SASL_BADAUTH); sym_assert(heard(s, "AUTH_ERROR error\r\n"), "refused"); ever = m; break;
  case 8: auth(s, NULL, "x", 1, SASL_OK); sym_assert(heard(s, "AUTH_ERROR error\r\n"), "a step before the start is refused"); break;
  } }
#endif
#define NSTATE 9
static uint16_t any_mask(void) { uint16_t m = (uint16_t)(sym_u8("low") | (sym_u8("high") & 0x7f) << 8); return m; }

#if MODE == 0 /* access lists */
static const char *const W[] = { "kv", "list", "set", "map", "btree", "scan", "flush", "attr", "admin" }; static const uint16_t G[] = { 3, 5, 9, 0x11, 0x21, 0x40, 0x80, 0x100, 0x200 };
/* the words between commas, each exactly one of the above */
static uint16_t grants(const char *t) { uint16_t r = 0; int o = 0; for (;;) { int e = o; while (t[e] && t[e] != ',') e++; for (int i = 0; i < 9; i++) { int n = (int)strlen(W[i]); if (n == e - o) { int eq = 1; for (int j = 0; j < n; j++) if (t[o + j] != W[i][j]) { eq = 0; break; } if (eq) { r |= G[i]; break; } } } if (!t[e]) return r; o = e + 1; } }
static void session(void) {
  static char t[80]; char *p = t; s_real = 1; int how = sym_choose(3, "how");
  if (how == 0) { int n = sym_choose(NB + 1, "length"); sym__bytes(t, n, "list"); t[n] = 0; }
  else { int n = sym_choose(NW, "words"); for (int i = 0; i < n; i++) { int w = sym_choose(9, "word"); if (i) *p++ = ','; char *q = p; p = cat(p, W[w]); if (how == 2 && i == n - 1) { int k = sym_choose(4, "damage"), at = sym_choose((int)(p - q) + (k == 1), "where"); char b = (char)sym_u8("byte"); if (k == 0) q[at] = b; else if (k == 1) { memmove(q + at + 1, q + at, p - q - at); q[at] = b; p++; } else if (k == 2) { memmove(q + at, q + at + 1, p - q - at - 1); p--; } else p = q + at; } } *p = 0; }
  list_text = t; int r = arcus_sasl_authz("user"); sym_assert(r == grants(t), "a list grants exactly what its words say"); sym_reach("end");
  if (how == 1 && p == t) { list_err = 1; sym_assert(arcus_sasl_authz("user") == AUTHZ_FAIL, "a user without a list is refused"); sym_reach("nolist"); } }

#elif MODE == 1 /* text commands */
/* @ stands for the key; need 0: public; k the usual key, 0 when the command names none */
static const struct { const char *t; int need; const char *k; } C[] = {
  { "get @", AUTHZ_KV, "k" }, { "gets @", AUTHZ_KV, "k" }, { "get @ k", AUTHZ_KV, "k" }, { "gets @ z n", AUTHZ_KV, "k" }, { "mget 1 1\r\nk", AUTHZ_KV, 0 }, { "mgets 7 1\r\narcus:k", AUTHZ_KV, 0 },
  { "get @ a b c d e f g h i j l m n o p q r s t u v w x y z aa ab ac ad k n", AUTHZ_KV, "k" },
  { "set @ 0 0 1\r\nx", AUTHZ_KV, "k" }, { "add @ 0 0 1\r\nx", AUTHZ_KV, "z" }, { "replace @ 0 0 1\r\nx", AUTHZ_KV, "k" }, { "append @ 0 0 1\r\nx", AUTHZ_KV, "k" }, { "prepend @ 0 0 1\r\nx", AUTHZ_KV, "k" }, { "cas @ 0 0 1 1\r\nx", AUTHZ_KV, "k" },
  { "incr @ 1", AUTHZ_KV, "n" }, { "decr @ 1", AUTHZ_KV, "n" }, { "incr @ 1 0 0 5", AUTHZ_KV, "z" }, { "touch @ 100", AUTHZ_KV, "k" }, { "delete @", AUTHZ_DELETE, "k" }, { "set @ 0 0 1 noreply\r\nx", AUTHZ_KV, "k" }, { "delete @ noreply", AUTHZ_DELETE, "k" },
  { "lop create @ 0 0 10", AUTHZ_LIST, "z" }, { "lop insert @ 0 1\r\nx", AUTHZ_LIST, "l" }, { "lop get @ 0..-1", AUTHZ_LIST, "l" }, { "lop delete @ 0", AUTHZ_LIST, "l" }, { "lop insert @ 0 1 create 0 0 5 noreply\r\nx", AUTHZ_LIST, "z" }, { "lop get @ 0 drop", AUTHZ_LIST, "l" },
  { "sop create @ 0 0 10", AUTHZ_SET, "z" }, { "sop insert @ 1\r\nx", AUTHZ_SET, "s" }, { "sop exist @ 1\r\na", AUTHZ_SET, "s" }, { "sop get @ 1", AUTHZ_SET, "s" }, { "sop delete @ 1\r\na", AUTHZ_SET, "s" },
  { "mop create @ 0 0 10", AUTHZ_MAP, "z" }, { "mop insert @ g 1\r\nx", AUTHZ_MAP, "m" }, { "mop update @ f 1\r\nx", AUTHZ_MAP, "m" }, { "mop get @ 1 1\r\nf", AUTHZ_MAP, "m" }, { "mop delete @ 1 1\r\nf", AUTHZ_MAP, "m" }, { "mop upsert @ f 1\r\nx", AUTHZ_MAP, "m" }, { "mop get @ 0 0", AUTHZ_MAP, "m" },
  { "bop create @ 0 0 10", AUTHZ_BTREE, "z" }, { "bop insert @ 2 1\r\nx", AUTHZ_BTREE, "b" }, { "bop upsert @ 1 1\r\nx", AUTHZ_BTREE, "b" }, { "bop update @ 1 1\r\nx", AUTHZ_BTREE, "b" }, { "bop update @ 1 0x0F -1", AUTHZ_BTREE, "b" }, { "bop get @ 0..10", AUTHZ_BTREE, "b" }, { "bop get @ 0..10 delete", AUTHZ_BTREE, "b" }, { "bop delete @ 1", AUTHZ_BTREE, "b" }, { "bop count @ 0..10", AUTHZ_BTREE, "b" }, { "bop incr @ 1 1", AUTHZ_BTREE, "b" }, { "bop position @ 1 asc", AUTHZ_BTREE, "b" }, { "bop pwg @ 1 asc", AUTHZ_BTREE, "b" }, { "bop gbp @ asc 0", AUTHZ_BTREE, "b" },
  { "bop mget 1 1 0..10 5\r\nb", AUTHZ_BTREE, 0 }, { "bop smget 1 1 0..10 5 duplicate\r\nb", AUTHZ_BTREE, 0 },
  { "getattr @", AUTHZ_ATTR, "k" }, { "setattr @ expiretime=10", AUTHZ_ATTR, "k" }, { "setattr @ maxcount=20", AUTHZ_ATTR, "b" },
  { "flush_all", AUTHZ_FLUSH, 0 }, { "flush_all 5 noreply", AUTHZ_FLUSH, 0 }, { "flush_prefix <null>", AUTHZ_FLUSH, 0 }, { "flush_prefix arcus", AUTHZ_FLUSH, 0 },
  { "scan key 0", AUTHZ_SCAN, 0 }, { "scan prefix 0", AUTHZ_SCAN, 0 }, { "config memlimit 30", AUTHZ_ADMIN, 0 }, { "config verbosity 1", AUTHZ_ADMIN, 0 }, { "config memlimit", AUTHZ_ADMIN, 0 }, { "config max_list_size 60000", AUTHZ_ADMIN, 0 }, { "dump stop", AUTHZ_ADMIN, 0 }, { "cmdlog stats", AUTHZ_ADMIN, 0 }, { "lqdetect stats", AUTHZ_ADMIN, 0 }, { "scrub", AUTHZ_ADMIN, 0 }, { "scrub stale", AUTHZ_ADMIN, 0 }, { "shutdown", AUTHZ_ADMIN, 0 },
  { "version", 0, 0 }, { "help", 0, 0 }, { "ready", 0, 0 }, { "sasl mech", 0, 0 } };
#define NC ((int)(sizeof C / sizeof C[0]))
static void session(void) {
  size_t i = sym_choose(16, "command high") * 8 + sym_choose(8, "command"); if ((int)i >= NC || (int)i < LO || (int)i >= HI) sym_end(); int st = sym_choose(NSTATE, "state"), ex = C[i].k ? sym_choose(2, "exempt key") : 0; s_user = sym_choose(2, "user") ? "*user" : "user"; uint16_t m = any_mask();
  const char *u = s_user; s_user = "user"; int a = admin(); prep(a); s_user = u; int s = connect_client(); become(s, st, m); S[s].nout = 0;
  static char c[400]; char *p = c; const char *key = C[i].k; char ek[16]; if (ex) { snprintf(ek, sizeof ek, "arcus:%s", C[i].k); key = ek; } for (const char *t = C[i].t; *t; t++) if (*t == '@') p = cat(p, key); else *p++ = *t; p = cat(p, "\r\n");
  int n0 = snap(a, 0); int more = ex && (!strncmp(C[i].t, "get @ ", 6) || !strncmp(C[i].t, "gets @ ", 7)), free_ = ex && !more; uint16_t need = (uint16_t)C[i].need;
  arrive(s, c, (int)(p - c)); int ref = refused(s);
  if (ref) { sym_assert(need && !free_ && (now & need) != need, "a command the user may run is not refused"); int n1 = snap(a, 1); sym_assert(n1 == n0 && !memcmp(bufs[0], bufs[1], n0), "a refused command changes nothing"); sym_reach("refused"); }
  else { sym_assert(!need || free_ || (ever & need) == need, "only privileged users run a command"); if (free_ || need) sym_reach("ran"); else sym_reach("public"); if (!strcmp(C[i].t, "shutdown")) sym_end(); sym_assert(S[s].nout > 0 || strstr(C[i].t, "noreply"), "a reply"); sym_assert(!begins(s, "CLIENT_ERROR unauth"), "not refused"); if (begins(s, "CLIENT_ERROR")) { sym_print(c); S[s].out[S[s].nout] = 0; sym_print(S[s].out); } sym_assert(free_ || !begins(s, "CLIENT_ERROR") || strstr(C[i].t, "memlimit 30"), "a correct command"); sym_assert(!begins(s, "ERROR unk") && !begins(s, "ERROR no m"), "a known command"); }
  S[s].nout = 0; say(s, "version\r\n"); sym_assert(heard(s, "VERSION " VERSION "\r\n"), "in step"); leave(s); S[a].nout = 0; say(a, "version\r\n"); sym_assert(heard(a, "VERSION " VERSION "\r\n"), "others are served"); leave(a); settle(); sym_assert(sasl_live == 0, "every authentication session ends with its connection"); sym_reach("end"); }

#elif MODE == 2 /* binary commands */
static int need_of(int op) {
  if (op <= PREPENDQ) switch (op) { case QUIT: case QUITQ: case NOOP: case VERS: case STAT: return 0; case DELETE: case DELETEQ: return AUTHZ_DELETE; case FLUSH: case FLUSHQ: return AUTHZ_FLUSH; default: return AUTHZ_KV; }
  if (op >= SMECHS && op <= SSTEP) return 0; if (op == 0x4e || op == 0x4f) return AUTHZ_ATTR; if (op >= 0x50 && op <= 0x55) return AUTHZ_LIST; if (op >= 0x60 && op <= 0x66) return AUTHZ_SET; if (op >= 0x70 && op <= 0x7f) return AUTHZ_BTREE; if (op == 0x90) return AUTHZ_FLUSH; if (op == 0xf0 || op == 0xf1) return AUTHZ_ADMIN; return -1; }
static void session(void) {
  int g = sym_choose(16, "opcode high") * 16, op = g + sym_choose(16, "opcode low"), st = sym_choose(NSTATE, "state"); sym_conc(op); uint16_t m = any_mask(); int a = badmin(); bprep(a); int s = connect_client(); now = ever = 0; s_mask = m; int in = 0;   /* in: 1 authenticated, 2 no matter */
  switch (st) { case 0: break; case 1: bauth(s, SAUTH, "PLAIN", SASL_OK); now = ever = m; in = 1; break; case 2: s_chal = "c"; s_nout = 1; bauth(s, SAUTH, "SCRAM", SASL_CONTINUE); sym_assert(status(s) == 0x21 && S[s].nout == 25 && S[s].out[24] == 'c', "a challenge"); bauth(s, SSTEP, "SCRAM", SASL_OK); now = ever = m; in = 1; break;
    case 3: bauth(s, SAUTH, "PLAIN", SASL_BADAUTH); break; case 4: s_chal = ""; s_nout = 0; bauth(s, SAUTH, "SCRAM", SASL_CONTINUE); sym_assert(status(s) == 0x21 && S[s].nout == 24, "a challenge"); break; case 5: s_mask = AUTHZ_FAIL; bauth(s, SAUTH, "PLAIN", SASL_OK); break;
    case 6: s_mask = (uint16_t)~m & 0x7fff; bauth(s, SAUTH, "PLAIN", SASL_OK); s_mask = m; bauth(s, SAUTH, "PLAIN", SASL_OK); now = ever = m; in = 1; break; case 7: bauth(s, SAUTH, "PLAIN", SASL_OK); sym_assert(status(s) == 0, "authenticated"); bauth(s, SAUTH, "PLAIN", SASL_BADAUTH); ever = m; in = 2; break; case 8: bauth(s, SSTEP, "PLAIN", SASL_OK); break; }
  if (st == 1 || st == 2 || st == 6) sym_assert(status(s) == 0, "authenticated"); else if (st != 0 && st != 4) sym_assert(status(s) == 0x20, "authentication fails"); sym_assert(S[s].open, "an exchange keeps the connection");
  int n0 = bsnap(a, 0); static char c[200]; int nx = 0, nv = 0, q = op >= SETQ && op <= PREPENDQ ? op - SETQ + 1 : op; const char *k = "k"; if (op == DELETEQ) q = DELETE; if (op == INCRQ || op == DECRQ) q = INCR; if (op == QUITQ) q = QUIT; if (op == FLUSHQ) q = FLUSH; if (op == APPENDQ || op == PREPENDQ) q = APPEND; if (op == SETQ || op == ADDQ || op == REPLACEQ) q = SET;
  if (q == SET || q == ADD || q == REPLACE) { nx = 8; nv = 1; } else if (q == INCR || q == DECR) { nx = 20; k = "n"; } else if (q == APPEND || q == PREPEND) nv = 1; else if (q == QUIT || q == FLUSH || q == NOOP || q == VERS || q == STAT || op == SMECHS) k = ""; else if (op == SAUTH || op == SSTEP) { k = "PLAIN"; nv = 1; s_mech = op == SAUTH ? "PLAIN" : NULL; s_data = "a"; s_ndata = 1; s_out = SASL_BADAUTH; }
  else if (op == 0x4e) nx = 56; else if (op == 0x4f) nx = 44; else if (op == 0x50 || op == 0x60 || op == 0x70) nx = 16; else if (op == 0x51 || op == 0x54) { nx = 20; k = "l"; nv = 1; } else if (op == 0x52 || op == 0x53 || op == 0x55) { nx = 12; k = "l"; } else if (op == 0x61 || op == 0x65) { nx = 16; k = "s"; nv = 1; } else if (op == 0x62 || op == 0x66) { nx = 4; k = "s"; nv = 1; } else if (op == 0x63) { k = "s"; nv = 1; } else if (op == 0x64) { nx = 8; k = "s"; }
  else if (op == 0x71 || op == 0x72 || op == 0x7c || op == 0x7d) { nx = 80; k = "b"; nv = 1; } else if (op == 0x73 || op == 0x7e) { nx = 72; k = "b"; nv = 1; } else if (op == 0x90) k = "arcus"; else if (op >= 0xf0) k = "";
  char *p = rq(c, op, nx, k, "a", nv); S[s].nout = 0; arrive(s, c, (int)(p - c)); int need = need_of(op), pub = op == VERS || (op >= SMECHS && op <= SSTEP), r = status(s), ref = r == 0x20 && !(op == SAUTH || op == SSTEP);
  if (op == VERS) sym_assert(r == 0, "the version"); if (need < 0) { if (!in) sym_assert(ref, "nothing before authentication"); }
  else if (pub) sym_assert(!ref, "public");
  else { if (ref) sym_assert(in != 1 || (now & need) != need, "a command the user may run is not refused"); else sym_assert(in && (ever & need) == need, "only privileged users run a command"); }
  if (ref) { int n1 = bsnap(a, 1); sym_assert(n1 == n0 && !memcmp(bufs[0], bufs[1], n0), "a refused command changes nothing"); sym_reach("refused"); if (S[s].open) { p = rq(c, VERS, 0, "", "", 0); S[s].nout = 0; arrive(s, c, (int)(p - c)); sym_assert(status(s) == 0 && S[s].nout == 24 + (int)strlen(VERSION), "in step"); } else sym_reach("closed"); } else sym_reach("ran");
  bleave(s); S[a].nout = 0; sym_assert(bver(a), "others are served"); bleave(a); settle(); sym_assert(sasl_live == 0, "every authentication session ends with its connection"); sym_reach("end"); }

#elif MODE == 3 /* exchanges */
static char *num(char *p, int v) { if (v > 9) *p++ = (char)('0' + v / 10); *p++ = (char)('0' + v % 10); return p; }
static int stat_of(int a, const char *n) { S[a].nout = 0; say(a, "stats\r\n"); S[a].out[S[a].nout] = 0; char t[40]; cat(cat(cat(t, "STAT "), n), " ")[0] = 0; char *p = strstr(S[a].out, t); if (!p) return -1; p += strlen(t); int v = 0; while (*p >= '0' && *p <= '9') v = v * 10 + *p++ - '0'; S[a].nout = 0; return v; }
static void session(void) {
  int a = admin(), s = connect_client(), begun = 0, good = 0, tries = 0, bad = 0; uint16_t m = 0, old = 0; if (sym_choose(2, "pieces")) srv_rmax = 1; if (sym_choose(2, "no session")) new_fails = 1;
  for (int i = 0; i < STEPS; i++) { int op = sym_choose(5, "op");
    if (op == 0) { S[s].nout = 0; say(s, "sasl mech\r\n"); sym_assert(heard(s, new_fails ? "AUTH_ERROR failed to get SASL mechanisms\r\n" : "SASL_MECH PLAIN\r\n"), "mechanisms"); continue; }
    if (op == 1) { S[s].nout = 0; say(s, "get z\r\n"); int ok = heard(s, "END\r\n"), no = ok ? 0 : heard(s, UNAUTH); (void)no; if (ok) { sym_assert((m & AUTHZ_KV) || (old & AUTHZ_KV), "only privileged users read"); sym_reach("read"); } else { sym_assert(!(m & AUTHZ_KV), "a privileged user reads"); sym_reach("refused"); } continue; }
    if (op == 2) { static const char *const L[] = { "sasl auth PLAIN 2147483646\r\n", "sasl auth PLAIN 4294967294\r\n", "sasl auth PLAIN 4294967295\r\n", "sasl auth 2147483647\r\n", "sasl auth PLAIN x\r\n", "sasl auth PLAIN 4294967296\r\n", "sasl auth PLAIN -1\r\n", "sasl auth PLAIN 1 1\r\n", "sasl step\r\n", "sasl auth PLAINPLAINPLAINPLAINPLAINPLAINPLA 1\r\n" }; int k = sym_choose(10, "bad line"); S[s].nout = 0; int before = sasl_calls; say(s, L[k]); sym_assert(heard(s, "CLIENT_ERROR bad command line format\r\n"), "a malformed request is refused"); sym_assert(sasl_calls == before, "nothing is tried"); sym_reach("malformed"); continue; }
    int start = op == 3, n = sym_choose(3, "length"), out = sym_choose(4, "outcome"); static char d[4][2], ch[3]; sym__bytes(d[i], 2, "data"); s_nout = out == 1 ? sym_choose(3, "challenge") : 0; if (s_nout) sym__bytes(ch, s_nout, "challenge"); s_chal = ch; s_mask = out == 3 ? AUTHZ_FAIL : any_mask();
    auth(s, start ? "PLAIN" : NULL, d[i], n, out == 1 ? SASL_CONTINUE : out == 2 ? SASL_BADAUTH : SASL_OK); tries++; char w[64], *p; int res;
    if (new_fails || (!start && !begun)) { res = 2; } else res = out == 3 ? 2 : out;
    if (start && !new_fails) begun = out == 1; else if (!new_fails && begun) begun = out == 1;
    if (res == 0) { p = cat(w, "SASL_OK\r\n"); m = s_mask; old = 0; good++; sym_reach("ok"); } else if (res == 1) { p = cat(num(cat(w, "SASL_CONTINUE "), s_nout), "\r\n"); memcpy(p, ch, s_nout); p = cat(p + s_nout, "\r\n"); old |= m; m = 0; sym_reach("continue"); } else { p = cat(w, "AUTH_ERROR error\r\n"); old |= m; m = 0; bad++; sym_reach("fail"); }
    sym_assert(S[s].nout == (int)(p - w) && !memcmp(S[s].out, w, p - w), "the outcome of the exchange"); S[s].nout = 0; }
  srv_rmax = 1 << 30; sym_assert(stat_of(a, "auth_errors") == bad, "failed authentications are counted"); sym_assert(stat_of(a, "cmd_auth") == good + bad + 1, "authentications are counted"); leave(s); sym_assert(sasl_live == 1, "the authentication session ends with its connection"); leave(a); sym_assert(sasl_live == 0, "none are left"); sym_reach("end"); }

#elif MODE == 5 /* the default build takes no text commands when authentication is required */
static void session(void) {
  static const char *const T[] = { "get k\r\n", "set k 0 0 1\r\nx\r\n", "delete k\r\n", "flush_all\r\n", "config memlimit\r\n", "version\r\n", "\r\n", "sasl mech\r\n", "sasl auth PLAIN 1\r\nx\r\n", "stats\r\n", "shutdown\r\n", "scrub\r\n" }; int a = badmin(); bprep(a); int n0 = bsnap(a, 0), s = connect_client(), au = sym_choose(2, "authenticated"); if (au) { s_mask = any_mask(); bauth(s, SAUTH, "PLAIN", SASL_OK); S[s].nout = 0; }
  int t = sym_choose(13, "text"); static char any[24]; const char *x = any; int n = 24; if (t == 12) { sym__bytes(any, 24, "bytes"); sym_assume(any[0] != (char)0x80); } else { x = T[t]; n = (int)strlen(x); memset(any, '\n', 24); memcpy(any, x, n); x = any; n = 24; }
  int c = sasl_calls; arrive(s, x, n); sym_assert(!S[s].open && S[s].nout == 0, "the connection is closed"); sym_assert(c == sasl_calls, "no authentication"); int n1 = bsnap(a, 1); sym_assert(n1 == n0 && !memcmp(bufs[0], bufs[1], n0), "nothing changes"); sym_assert(bver(a), "others are served"); bleave(s); bleave(a); settle(); sym_assert(sasl_live == 0, "every authentication session ends with its connection"); sym_reach("end"); }

#elif MODE == 6 /* exchanges over the binary protocol */
static int bodylen(int s) { const uint8_t *u = (const uint8_t *)S[s].out; return u[8] << 24 | u[9] << 16 | u[10] << 8 | u[11]; }
static int stat_of(int a, const char *n) { char b[40]; char *p = rq(b, STAT, 0, "", "", 0); S[a].nout = 0; arrive(a, b, (int)(p - b)); int o = 0, v = -1, k = (int)strlen(n); while (o < S[a].nout) { const uint8_t *u = (const uint8_t *)S[a].out + o; int kl = u[2] << 8 | u[3], bl = u[10] << 8 | u[11]; if (kl == k && !memcmp(u + 24, n, k)) { v = 0; for (int i = kl; i < bl; i++) v = v * 10 + u[24 + i] - '0'; } o += 24 + bl; } S[a].nout = 0; return v; }
static void session(void) {
  int a = badmin(), s = connect_client(), begun = 0, good = 0, bad = 0, in = 0, was = 0; uint16_t m = 0; if (sym_choose(2, "pieces")) srv_rmax = 1; if (sym_choose(2, "no session")) new_fails = 1; static char b[3][200]; char *p;
  for (int i = 0; i < STEPS; i++) { int op = sym_choose(6, "op"); S[s].nout = 0;
    if (op == 0) { p = rq(b[i], SMECHS, 0, "", "", 0); arrive(s, b[i], (int)(p - b[i])); if (new_fails) sym_assert(status(s) == 0x20 && S[s].open, "no mechanisms"); else sym_assert(status(s) == 0 && S[s].nout == 29 && !memcmp(S[s].out + 24, "PLAIN", 5), "mechanisms"); was |= in; if (in) in = 2; continue; }
    if (op == 1 || op == 5) { p = rq(b[i], op == 1 ? GETK : NOOP, 0, op == 1 ? "z" : "", "", 0); arrive(s, b[i], (int)(p - b[i])); int r = status(s), may = in && (op == 5 || (m & AUTHZ_KV)); if (r == 0x20) { sym_assert(!may || in == 2, "a privileged user reads"); sym_assert(in == 2 || S[s].open == !!in, "only a client that has not authenticated is cut off"); sym_reach("refused"); if (!S[s].open) break; } else { sym_assert(r == (op == 1 ? 1 : 0), "an answer"); sym_assert(may, "only privileged users read"); sym_reach("read"); } continue; }
    if (op == 2) { static char mech[70]; memset(mech, 'M', 33 + 30); mech[33 + sym_choose(30, "mechanism length")] = 0; int c = sasl_calls; p = rq(b[i], SAUTH, 0, mech, "x", 1); arrive(s, b[i], (int)(p - b[i])); sym_assert(status(s) == 4 && S[s].open && c == sasl_calls, "a mechanism name that is too long"); sym_reach("malformed"); continue; }
    int start = op == 3, n = sym_choose(3, "length"), out = sym_choose(4, "outcome"); static char d[4][2], ch[3]; sym__bytes(d[i], 2, "data"); s_nout = out == 1 ? sym_choose(3, "challenge") : 0; if (s_nout) sym__bytes(ch, s_nout, "challenge"); s_chal = ch; s_mask = out == 3 ? AUTHZ_FAIL : any_mask();
    static const char *const MN[] = { "PLAIN", "S", "MMMMMMMMMMMMMMMMMMMMMMMMMMMMMMMM" }; const char *mn = MN[sym_choose(3, "mechanism")]; s_mech = start ? mn : NULL; s_data = d[i]; s_ndata = n; s_out = out == 1 ? SASL_CONTINUE : out == 2 ? SASL_BADAUTH : SASL_OK; p = rq(b[i], start ? SAUTH : SSTEP, 0, mn, d[i], n); arrive(s, b[i], (int)(p - b[i])); int res;
    if (new_fails || (!start && !begun)) res = 2; else res = out == 3 ? 2 : out;
    if (!new_fails && (start || begun)) begun = out == 1;
    sym_assert(S[s].open, "the connection stays open"); if (!S[s].open) return;
    if (res == 0) { in = 1; m = s_mask; good++; sym_assert(status(s) == 0 && S[s].nout == 24 + 13 && !memcmp(S[s].out + 24, "Authenticated", 13), "authenticated"); sym_reach("ok"); }
    else if (res == 1) { in = 0; m = 0; sym_assert(status(s) == 0x21 && bodylen(s) == s_nout && S[s].nout == 24 + s_nout && !memcmp(S[s].out + 24, ch, s_nout), "the challenge"); sym_reach("continue"); }
    else { in = 0; m = 0; bad++; sym_assert(status(s) == 0x20, "authentication fails"); sym_reach("fail"); } }
  srv_rmax = 1 << 30; new_fails = 0; sym_assert(stat_of(a, "auth_errors") == bad, "failed authentications are counted"); sym_assert(stat_of(a, "cmd_auth") == good + bad + 1, "authentications are counted"); bleave(s); bleave(a); sym_assert(sasl_live == 0, "none are left"); sym_reach("end"); }

#else /* memory runs out, or the client goes away */
static void session(void) {
  int a = admin(); prep(a); int s = connect_client(), n0 = snap(a, 0); static const char T[] = "sasl mech\r\nsasl auth SCRAM 3\r\nabc\r\nget k\r\nsasl auth 1\r\nx\r\ndelete k\r\nset k 0 0 1\r\nx\r\nget k arcus:z\r\nversion\r\n"; int len = sizeof T - 1; s_mask = 0; s_mech = "SCRAM"; s_data = "abc"; s_ndata = 3; s_out = SASL_CONTINUE; s_chal = "cc"; s_nout = 2;
  if (sym_choose(2, "gone")) { int h = sym_choose(4, "cut high"), l = sym_choose(32, "cut"), cut = h * 32 + l; if (cut > len) sym_end(); if (cut > 43) { s_data = "abc"; } int c1 = cut > 43 ? 43 : cut; (void)c1; arrive(s, T, cut > 37 ? 37 : cut); if (cut > 37) { s_mech = NULL; s_data = "x"; s_ndata = 1; s_out = SASL_OK; arrive(s, T + 37, cut - 37); } leave(s); sym_reach("gone"); }
  else { srv_fail_at = sym_choose(NF, "fail"); srv_count = 1; static const char *const P[] = { "sasl mech\r\n", "sasl auth SCRAM 3\r\nabc\r\n", "get k\r\n", "sasl auth 1\r\nx\r\n", "delete k\r\n", "set k 0 0 1\r\nx\r\n", "get k arcus:z\r\n", "version\r\n" };
    for (int i = 0; i < 8 && S[s].open; i++) { if (i == 3) { s_mech = NULL; s_data = "x"; s_ndata = 1; s_out = SASL_OK; } S[s].nout = 0; long q = srv_nalloc; say(s, P[i]); int hit = srv_fail_at >= q && srv_fail_at < srv_nalloc; if (!S[s].open) { sym_assert(hit, "only a failure closes the connection"); break; }
      int mem = begins(s, "SERVER_ERROR"); sym_assert(!mem || hit, "out of memory is reported when it happens"); if (i == 2 || (i >= 4 && i < 7)) sym_assert(mem || refused(s), "an unprivileged command is refused"); if (i == 7 && !mem) sym_assert(begins(s, "VERSION"), "in step"); }
    srv_count = 0; if (S[s].open) leave(s); sym_reach("memory"); }
  int n1 = snap(a, 1); sym_assert(n1 == n0 && !memcmp(bufs[0], bufs[1], n0), "nothing changed"); leave(a); settle(); sym_assert(sasl_live == 0, "every authentication session ends with its connection"); sym_reach("end"); }
#endif

/* C24: the binary protocol, through the whole server. MODE selects the question. */
#include "server.h"
extern size_t stub_used; extern long stub_fail_at; extern int stub_failed;
enum { GET, SET, ADD, REPLACE, DELETE, INCR, DECR, QUIT, FLUSH, GETQ, NOOP, VERS, GETK, GETKQ, APPEND, PREPEND, STAT, SETQ, ADDQ, REPLACEQ, DELETEQ, INCRQ, DECRQ, QUITQ, FLUSHQ, APPENDQ, PREPENDQ,
  SMECHS = 0x20, SAUTH, SSTEP, GETATTR = 0x4e, SETATTR, LCREATE, LINSERT, LDELETE, LGET, LINSERTQ, LDELETEQ, SCREATE = 0x60, SINSERT, SDELETE, SEXIST, SGET, SINSERTQ, SDELETEQ,
  BCREATE = 0x70, BINSERT, BUPSERT, BUPDATE, BDELETE, BGET, BCOUNT, BMGET = 0x7a, BSMGET, BINSERTQ, BUPSERTQ, BUPDATEQ, BDELETEQ, FPREFIX = 0x90, SCRUB = 0xf0 };
enum { OK, NOKEY, EXISTS, TOOBIG, INVAL, NOTSTORED, BADNUM, AUTHERR = 0x20, BADTYPE = 0x32, OVERFLOWED, BADVALUE, INDEXOOR, BKEYOOR, NOELEM, ELEMEXISTS, BADATTR, BADBKEY, BADEFLAG, UNREADABLE, ENAME = 0x51, NOPREFIX, UNKNOWN = 0x81, NOMEM, NOTSUP, INTERNAL };
/* ---- requests ---- */
static char *p16(char *p, unsigned v) { *p++ = (char)(v >> 8); *p++ = (char)v; return p; }
static char *p32(char *p, uint32_t v) { return p16(p16(p, v >> 16), v & 0xffff); }
static char *p64(char *p, uint64_t v) { return p32(p32(p, (uint32_t)(v >> 32)), (uint32_t)v); }
static char *head(char *p, int op, unsigned keylen, unsigned extlen, uint32_t bodylen, uint32_t opaque, uint64_t cas) { *p++ = (char)0x80; *p++ = (char)op; p = p16(p, keylen); *p++ = (char)extlen; *p++ = 0; p = p16(p, 0); p = p32(p, bodylen); memcpy(p, &opaque, 4); return p64(p + 4, cas); }
/* a well-formed request: extras (n of them), key, value */
static char *rq(char *p, int op, const char *x, int nx, const char *k, int nk, const char *v, int nv, uint32_t opaque, uint64_t cas) { p = head(p, op, nk, nx, nx + nk + nv, opaque, cas); memcpy(p, x, nx); memcpy(p + nx, k, nk); memcpy(p + nx + nk, v, nv); return p + nx + nk + nv; }
/* ---- responses ---- */
typedef struct { int op, keylen, extlen, status, body; uint32_t opaque; uint64_t cas; const char *b; } F;
static uint32_t g32(const char *p) { const uint8_t *u = (const uint8_t *)p; return (uint32_t)u[0] << 24 | (uint32_t)u[1] << 16 | (uint32_t)u[2] << 8 | u[3]; }
static int frame(const char *b, int o, int n, F *f) {
  if (n - o < 24) return -1; const uint8_t *u = (const uint8_t *)b + o; if (u[0] != 0x81 || u[5] != 0) return -1;
  f->op = u[1]; f->keylen = u[2] << 8 | u[3]; f->extlen = u[4]; f->status = u[6] << 8 | u[7]; f->body = (int)g32(b + o + 8); memcpy(&f->opaque, u + 12, 4); f->cas = (uint64_t)g32(b + o + 16) << 32 | g32(b + o + 20); f->b = b + o + 24;
  if (f->body < 0 || f->body > n - o - 24) return -1; if (f->extlen + f->keylen > f->body) return -1; return o + 24 + f->body; }
/* number of whole responses, -1 when the bytes are not whole responses */
static int frames(int s, F *f, int max) { int o = 0, k = 0; while (o < S[s].nout) { F t; o = frame(S[s].out, o, S[s].nout, &t); if (o < 0) return -1; if (k < max) f[k] = t; k++; } return k; }
#ifdef SRV_SHOW
static void show(const char *t, long v) { char b[64]; snprintf(b, sizeof b, "%s %ld", t, v); sym_print(b); }
#else
#define show(t, v) (void)0
#endif
static int pick(int n, const char *w) { int h = sym_choose((n + 31) / 32, w), l = sym_choose(32, w), x = h * 32 + l; if (x >= n) sym_end(); return x; }
static void settle(void) { for (int i = 0; i < 4; i++) symp_tick(); }
static char buf[40000];
static const char *const TEXTPREP = "set k 7 0 1\r\n5\r\nlop insert l 0 1 create 3 0 0\r\na\r\nlop insert l 1 2\r\nbc\r\nsop insert s 1 create 4 0 0\r\na\r\nbop insert b 1 0x0A 1 create 5 0 0\r\na\r\nbop insert h 0x01 1 create 6 0 0\r\na\r\n";
static const char *const KEYS[] = { "k", "l", "s", "b", "h", "z", "y", "p:k", "kk", "lop insert" };
static void prep(int s) { (void)s; int t = connect_client(); say(t, TEXTPREP); sym_assert(heard(t, "STORED\r\nCREATED_STORED\r\nSTORED\r\nCREATED_STORED\r\nCREATED_STORED\r\nCREATED_STORED\r\n"), "preparation"); S[t].eof = 1; pump(); sym_assert(!S[t].open, "closed"); S[t].closes = 0; S[t].eof = 0; free(S[t].out); }
static void wipe(int s) { for (unsigned i = 0; i < sizeof KEYS / sizeof KEYS[0]; i++) { char *p = rq(buf, DELETE, "", 0, KEYS[i], (int)strlen(KEYS[i]), "", 0, 9, 0); arrive(s, buf, (int)(p - buf)); } settle(); }
static int noop(int s) { F f; S[s].nout = 0; char *p = rq(buf, NOOP, "", 0, "", 0, "", 0, 0x77777777, 0); arrive(s, buf, (int)(p - buf)); if (!S[s].open) return 0; int ok = frames(s, &f, 1) == 1 && f.op == NOOP && f.status == OK && f.opaque == 0x77777777 && f.body == 0; S[s].nout = 0; return ok; }
static int quiet_of(int op) { switch (op) { case SETQ: return SET; case ADDQ: return ADD; case REPLACEQ: return REPLACE; case DELETEQ: return DELETE; case INCRQ: return INCR; case DECRQ: return DECR; case QUITQ: return QUIT; case FLUSHQ: return FLUSH; case APPENDQ: return APPEND; case PREPENDQ: return PREPEND; case GETQ: return GET; case GETKQ: return GETK; case LINSERTQ: return LINSERT; case LDELETEQ: return LDELETE; case SINSERTQ: return SINSERT; case SDELETEQ: return SDELETE; case BINSERTQ: return BINSERT; case BUPSERTQ: return BUPSERT; case BUPDATEQ: return BUPDATE; case BDELETEQ: return BDELETE; } return -1; }
/* the shape of a request: extras, key (0 none, 1 some, 2 any), value (0 none, 1 some, 2 any) */
static const struct { uint8_t op, ext, ext2, key, val; } SHAPE[] = { { GET, 0, 0, 1, 0 }, { SET, 8, 8, 1, 2 }, { ADD, 8, 8, 1, 2 }, { REPLACE, 8, 8, 1, 2 }, { DELETE, 0, 0, 1, 0 }, { INCR, 20, 20, 1, 0 }, { DECR, 20, 20, 1, 0 }, { QUIT, 0, 0, 0, 0 }, { FLUSH, 0, 4, 0, 0 }, { NOOP, 0, 0, 0, 0 }, { VERS, 0, 0, 0, 0 },
  { GETK, 0, 0, 1, 0 }, { APPEND, 0, 0, 1, 2 }, { PREPEND, 0, 0, 1, 2 }, { STAT, 0, 0, 2, 0 }, { SMECHS, 0, 0, 0, 0 }, { SAUTH, 0, 0, 1, 2 }, { SSTEP, 0, 0, 1, 2 }, { GETATTR, 56, 56, 1, 0 }, { SETATTR, 44, 44, 1, 0 }, { LCREATE, 16, 16, 1, 0 }, { LINSERT, 20, 20, 1, 1 }, { LDELETE, 12, 12, 1, 0 }, { LGET, 12, 12, 1, 0 },
  { SCREATE, 16, 16, 1, 0 }, { SINSERT, 16, 16, 1, 1 }, { SDELETE, 4, 4, 1, 1 }, { SEXIST, 0, 0, 1, 1 }, { SGET, 8, 8, 1, 0 }, { BCREATE, 16, 16, 1, 0 }, { BINSERT, 80, 80, 1, 1 }, { BUPSERT, 80, 80, 1, 1 }, { BUPDATE, 72, 72, 1, 1 }, { FPREFIX, 0, 4, 1, 0 } };
static int shape(int op) { int q = quiet_of(op); if (q >= 0) op = q; for (unsigned i = 0; i < sizeof SHAPE / sizeof SHAPE[0]; i++) if (SHAPE[i].op == op) return (int)i; return -1; }

#include "bin_scripts.h"
static char rbytes[60000], wbytes[60000]; static int rn, wn;
static void make(int i, const char **a, const char **t) { memset(big3, 'v', 3000); memset(big20, 'w', 20000); rp = rbytes; wp = wbytes; script(i, a, t); rn = (int)(rp - rbytes); wn = (int)(wp - wbytes); }
/* the output is the expected responses, whatever the cas */
static int same(int s, const char *w, int n) { if (S[s].nout != n) return 0; int o = 0; while (o < n) { F f; int e = frame(S[s].out, o, n, &f); if (e < 0) return 0; if (memcmp(S[s].out + o, w + o, 16) || memcmp(S[s].out + o + 24, w + o + 24, e - o - 24)) return 0; o = e; } return 1; }
#ifdef SRV_SHOW
static void diff(int s, const char *w, int n) { int o = 0, q = 0; while (o < S[s].nout || q < n) { F f = { 0 }, g = { 0 }; int e = o < S[s].nout ? frame(S[s].out, o, S[s].nout, &f) : -1, h = q < n ? frame(w, q, n, &g) : -1; char b[200]; snprintf(b, sizeof b, "got op %d status %d ext %d key %d body %d opq %x want op %d status %d ext %d key %d body %d opq %x", e < 0 ? -1 : f.op, f.status, f.extlen, f.keylen, f.body, f.opaque, h < 0 ? -1 : g.op, g.status, g.extlen, g.keylen, g.body, g.opaque); sym_print(b);
  if (e >= 0 && h >= 0 && f.body == g.body && memcmp(f.b, g.b, f.body)) for (int i = 0; i < f.body; i++) if (f.b[i] != g.b[i]) { snprintf(b, sizeof b, "byte %d: got %02x want %02x", i, f.b[i] & 255, g.b[i] & 255); sym_print(b); } o = e < 0 ? S[s].nout : e; q = h < 0 ? n : h; } }
#endif
static void check_after(const char *a, const char *t) { if (!*a) return; int x = connect_client(); say(x, a); sym_assert(heard(x, t), "a text client sees the same data"); S[x].eof = 1; pump(); S[x].closes = 0; S[x].eof = 0; free(S[x].out); }

#if MODE == 0 /* every opcode with every kind of length */
static void session(void) {
  int s = connect_client(), z = connect_client(); size_t u0 = stub_used; prep(z);
  static const uint8_t OPS[] = { BDELETE, BGET, BCOUNT, BMGET, BSMGET, BDELETEQ }; int g = sym_choose(16, "opcode high") * 16, op = g + sym_choose(16, "opcode low"); sym_conc(op); int sh = shape(op), dead = 0; for (unsigned i = 0; i < sizeof OPS; i++) if (op == OPS[i]) dead = 1;
  int e = sh >= 0 ? SHAPE[sh].ext : dead ? 200 : 0; unsigned ext; int extok = 1; if (sh >= 0 && SHAPE[sh].ext2 != e && sym_choose(2, "longer extras")) e = SHAPE[sh].ext2;
  if (sh >= 0 || dead) { if (sym_choose(2, "extras length") == 0) ext = e; else { uint8_t x = sym_u8("extlen"); ext = x; extok = 0; sym_assume(sh < 0 || (x != SHAPE[sh].ext && x != SHAPE[sh].ext2)); } } else ext = e = (const int[]){ 0, 8, 255 }[sym_choose(3, "extras length")];
  if (dead) extok = 0;
  static const unsigned KL[] = { 0, 1, 2, 5, 2100, 16000, 16001, 65535 }; unsigned kl = KL[sym_choose(sh >= 0 ? 8 : 4, "key length")]; static const long D[] = { 0, 1, 3, -1, -2, 20000, 0x7fffffff, 0xffffffff, 0xfffffff0 }; int d = sym_choose(sh >= 0 ? 9 : 8, "body"); long body = d == 4 ? 0 : d > 5 ? D[d] : (long)(e + kl) + D[d]; if (body < 0) sym_end();
  uint32_t opq = 0x01020304; char *p = head(buf, op, kl, ext, (uint32_t)body, opq, 0); int have = body > 39000 - 24 ? 16400 : (int)body; memset(p, 0, have); if (have > e) memset(p + e, 'k', (int)kl < have - e ? (int)kl : have - e); p += have;
  int well = extok && kl <= 16000; if (sh >= 0) { well = well && (SHAPE[sh].key == 2 || (SHAPE[sh].key == 1) == (kl > 0)); long v = body - e - kl; well = well && (SHAPE[sh].val == 0 ? v == 0 : SHAPE[sh].val == 1 ? v > 0 : v >= 0) && v <= 0x7fffffff - 2; }
  F f[3]; int q = quiet_of(op);
  arrive(s, buf, (int)(p - buf)); show("op", op); show("nout", S[s].nout);
  int n = frames(s, f, 3); sym_assert(n >= 0, "whole responses"); if (n < 0) return;
  if (n) sym_assert(f[0].op == op || (op == STAT && f[0].op == STAT), "the response names the request's opcode"); if (n) sym_assert(f[0].opaque == opq, "the response carries the request's opaque");
  if (sh < 0 && !dead) { /* no such command */
    if (kl > 16000 || (body < (long)(kl + ext))) { sym_assert(!S[s].open && n == 1 && f[0].status == INVAL, "a malformed unknown command is refused"); goto end; }
    if (d > 5) { sym_assert(n == 1 ? f[0].status == UNKNOWN || f[0].status == INVAL : !S[s].open, "an unknown command with a huge body is refused"); sym_reach("huge unknown"); goto end; }
    sym_assert(n == 1 && (op == SCRUB || op == SCRUB + 1 || (op >= 0x83 && op <= 0x85) || f[0].status == UNKNOWN), "an unknown command is refused"); sym_assert(S[s].open, "an unknown command does not close the connection"); sym_assert(noop(s), "in step after an unknown command"); sym_reach("unknown"); goto end; }
  if (!well) { sym_reach("malformed"); sym_assert(n == 1 && f[0].status == INVAL, "a malformed request is answered with 'invalid arguments'"); sym_assert(!S[s].open, "a malformed request closes the connection"); goto end; }
  if (d == 5 && have < 20000) { goto end; }
  if (d > 5) { /* a value larger than anything that fits */ sym_reach("huge"); sym_assert(n == 1 || (n == 0 && (op == SAUTH || op == SSTEP)), "answered"); if (n) sym_assert(f[0].status == TOOBIG || f[0].status == NOMEM || ((op == SAUTH || op == SSTEP) && f[0].status == INVAL), "too large"); sym_assert(S[s].open, "the connection stays open"); goto end; }
  if (op == QUIT || op == QUITQ) { sym_assert(!S[s].open && n == (op == QUIT), "quit"); goto end; }
  sym_assert(S[s].open, "a well-formed request does not close the connection"); if (!S[s].open) return;
  if (op == STAT) sym_assert(n >= 1, "statistics"); else if (q >= 0) sym_assert(n <= 1, "at most one response to a quiet request"); else sym_assert(n == 1, "one response to a request");
  sym_assert(n == 0 || f[0].status != INTERNAL, "no internal error"); sym_reach("answered"); sym_assert(noop(s), "in step");
end: sym_assert(S[s].open || S[s].closes == 1, "closed once"); S[s].nout = 0; wipe(z); if (S[s].open) { S[s].eof = 1; pump(); sym_assert(!S[s].open, "closed"); } sym_assert(noop(z), "others are served"); { char *x = buf; memset(x + 24, 'k', 16000); static const int KL2[] = { 2, 5, 2100, 16000 }; for (int i = 0; i < 4; i++) { x = head(buf, DELETE, KL2[i], 0, KL2[i], 9, 0); arrive(z, buf, 24 + KL2[i]); S[z].nout = 0; } settle(); }
  sym_assert(stub_used == u0, "every item is given back"); sym_reach("end"); }

#elif MODE == 1 /* well-formed requests with any extras */
static void session(void) {
  int s = connect_client(), z = connect_client(); size_t u0 = stub_used; prep(z);
  static const uint8_t OPS[] = { SETATTR, LCREATE, LINSERT, LDELETE, LGET, SCREATE, SINSERT, SDELETE, SEXIST, SGET, BCREATE, BINSERT, BUPSERT, BUPDATE, FLUSH, FPREFIX, INCR, DECR, SET, GETATTR };
  int oi = LO + sym_choose(HI - LO, "op"), op = OPS[oi], k = sym_choose(6, "key"), sh = shape(op), e = SHAPE[sh].ext2, val = SHAPE[sh].val ? sym_choose(2, "value length") + 1 : 0; static uint8_t x[80];
  if (op == FLUSH && k) sym_end(); if (op == FLUSH) k = -1; sym__bytes((char *)x, e, "extras"); if (op == GETATTR) memset(x, 0, e);
  if (op == BINSERT || op == BUPSERT || op == BUPDATE) { static const uint8_t L[] = { 0, 1, 2, 31, 32, 64, 254, 255 }; int a = sym_choose(8, "bkey length"), b = sym_choose(8, "eflag length"); x[31] = L[a]; x[63] = L[b]; if (a > 2) memset(x + 1, 1, 30); if (b > 2) memset(x + 33, 1, 30); }
  if (op == SETATTR) { static const uint8_t L[] = { 0, 1, 31, 32, 64, 254, 255 }; x[8 + 31] = L[sym_choose(7, "range length")]; if (x[39] > 1) memset(x + 9, 1, 30); }
  if (op == SET) { memset(x, 0, 4); } if (op == FPREFIX && k >= 0) { }
  char v[2]; sym__bytes(v, 2, "value"); uint32_t opq = 0x01020304;
  char *p = rq(buf, op, (char *)x, e, k < 0 ? "" : KEYS[k], k < 0 ? 0 : 1, v, val, opq, 0); arrive(s, buf, (int)(p - buf)); F f[3]; int n = frames(s, f, 3);
  sym_assert(n == 1, "one response"); if (n != 1) return; sym_assert(f[0].op == op && f[0].opaque == opq, "the response belongs to the request"); sym_assert(f[0].status != INTERNAL, "no internal error"); show("status", f[0].status);
  if (S[s].open) { sym_assert(noop(s), "in step"); sym_reach("answered"); if (op == LGET && f[0].status == OK) sym_reach("read"); } else { sym_assert(f[0].status == INVAL, "only an invalid request closes the connection"); sym_assert((op == BINSERT || op == BUPSERT || op == BUPDATE) && (x[31] > 31 || (x[63] > 31) || op == BUPDATE), "invalid lengths"); sym_reach("closed"); }
  S[s].nout = 0; wipe(z); S[z].nout = 0; if (op == FLUSH || op == FPREFIX) { srv_clock += 0; }
  sym_assert(noop(z), "others are served"); sym_assert(stub_used == u0, "every item is given back"); sym_reach("end"); }

#elif MODE == 2 /* key-value requests with arbitrary values */
static struct { int on, n, num; char v[8]; uint32_t fl; uint64_t cas; long val; } M[2]; static uint64_t old_cas[2];
static void session(void) {
  int s = connect_client(); static const uint8_t OPS[] = { SET, ADD, REPLACE, APPEND, PREPEND, DELETE, INCR, DECR, GET, GETK }, QOPS[] = { SETQ, ADDQ, REPLACEQ, APPENDQ, PREPENDQ, DELETEQ, INCRQ, DECRQ, GETQ, GETKQ };
  for (int step = 0; step < STEPS; step++) {
    int oi = sym_choose(10, "op"), q = sym_choose(2, "quiet"), k = step ? sym_choose(2, "key") : 0, op = q ? QOPS[oi] : OPS[oi], st = OK, learn = 0; const char *ks = k ? "b" : "a"; uint64_t cas = 0; uint32_t opq = sym_u32("opaque"), fl = 0; char v[4]; int n = 0; char *p; uint64_t d = 0, init = 0;
    if (oi < 6) { int c = sym_choose(3, "cas"); if (c == 1) { if (!M[k].cas) sym_end(); cas = M[k].cas; } else if (c == 2) cas = old_cas[k] ? old_cas[k] : 0xdeadbeef01ull; }
    if (oi < 5) { n = sym_choose(3, "length"); sym__bytes(v, 2, "data"); if (n == 2 && sym_choose(2, "number")) { v[0] = '9'; v[1] = '8'; } }
    if (oi < 3) { char x[8]; fl = sym_u32("flags"); memcpy(x, &fl, 4); p32(x + 4, 0); p = rq(buf, op, x, 8, ks, 1, v, n, opq, cas); }
    else if (oi < 5) p = rq(buf, op, "", 0, ks, 1, v, n, opq, cas);
    else if (oi < 6) p = rq(buf, op, "", 0, ks, 1, "", 0, opq, cas);
    else if (oi < 8) { int mk = sym_choose(2, "create"); char x[20]; d = (const uint64_t[]){ 0, 1, 2, 99, 1000 }[sym_choose(5, "delta")]; init = (const uint64_t[]){ 0, 7, 12345 }[sym_choose(mk ? 3 : 1, "initial")]; p32(p64(p64(x, d), init), mk ? 0 : 0xffffffff); p = rq(buf, op, x, 20, ks, 1, "", 0, opq, 0); if (!M[k].on && !mk) st = NOKEY; }
    else p = rq(buf, op, "", 0, ks, 1, "", 0, opq, 0);
    int store = 0;
    if (oi < 3) { if (cas) st = !M[k].on ? NOKEY : cas != M[k].cas ? EXISTS : OK; else if (oi == 1) st = M[k].on ? EXISTS : OK; else if (oi == 2) st = M[k].on ? OK : NOKEY; if (!st) { store = 1; M[k].on = 1; M[k].n = n; memcpy(M[k].v, v, n); M[k].fl = fl; M[k].num = 0; } }
    else if (oi < 5) { if (!M[k].on) st = NOTSTORED; else if (cas && cas != M[k].cas) st = EXISTS; else { if (M[k].num || M[k].n + n > 8) sym_end(); store = 1; if (oi == 3) memcpy(M[k].v + M[k].n, v, n); else { char t[8]; memcpy(t, M[k].v, M[k].n); memcpy(M[k].v, v, n); memcpy(M[k].v + n, t, M[k].n); } M[k].n += n; } }
    else if (oi == 5) { st = !M[k].on ? NOKEY : cas && cas != M[k].cas ? EXISTS : OK; if (!st) { M[k].on = 0; old_cas[k] = M[k].cas; M[k].cas = 0; } }
    else if (oi < 8) { if (!st) { if (!M[k].on) { M[k].on = 1; M[k].fl = 0; M[k].num = 1; M[k].val = (long)init; store = 1; } else { if (!M[k].num) { if (M[k].n == 2 && M[k].v[0] == '9' && M[k].v[1] == '8') { M[k].num = 1; M[k].val = 98; } else if (M[k].n == 0) st = BADNUM; else { for (int i = 0; i < M[k].n && !st; i++) if (M[k].v[i] < '0' || M[k].v[i] > '9') st = -1; if (!st || (M[k].v[0] != '+' && M[k].v[0] != '-' && M[k].v[0] > ' ')) { if (!st) sym_end(); st = BADNUM; } if (st == -1) sym_end(); if (M[k].v[0] >= '0' && M[k].v[0] <= '9') sym_end(); } }
        if (!st) { M[k].val = oi == 6 ? M[k].val + (long)d : M[k].val > (long)d ? M[k].val - (long)d : 0; store = 1; } } } }
    else st = M[k].on ? OK : NOKEY;
    S[s].nout = 0; arrive(s, buf, (int)(p - buf)); if (!S[s].open) { sym_fail("closed"); return; }
    F f; int r = frames(s, &f, 1), silent = oi >= 8 ? q && st == NOKEY : q && st == OK; show("op", op); show("want", st); if (r == 1) show("got", f.status);
    sym_assert(r == !silent, "the right number of responses"); if (r != !silent) return;
    if (store) { old_cas[k] = M[k].cas; M[k].cas = 0; }
    if (r) { sym_assert(f.op == op, "the response names the request's opcode"); sym_assert(f.opaque == opq, "the response carries the request's opaque"); sym_assert(f.status == st, "status");
      int wk = oi == 9 ? 1 : 0;
      if (st == OK && oi >= 8) { sym_assert(f.extlen == 4 && f.keylen == wk, "flags and key"); uint32_t g; memcpy(&g, f.b, 4); sym_assert(g == M[k].fl, "flags"); if (wk) sym_assert(f.b[4] == ks[0], "key"); const char *b = f.b + 4 + wk; int len = f.body - 4 - wk;
        if (M[k].num) { char t[24]; int m = 0; long x = M[k].val; char u[24]; int c = 0; do u[c++] = (char)('0' + x % 10); while (x /= 10); while (c) t[m++] = u[--c]; sym_assert(len >= m && !memcmp(b, t, m), "number"); for (int i = m; i < len; i++) sym_assert(b[i] == ' ', "padding"); }
        else { sym_assert(len == M[k].n, "value length"); if (len == M[k].n) sym_assert(!memcmp(b, M[k].v, len), "value"); }
        sym_assert(f.cas != 0 && (!M[k].cas || f.cas == M[k].cas), "the version number of the value"); M[k].cas = f.cas; learn = 1; sym_reach("read"); }
      else if (st == OK && oi >= 6) { sym_assert(f.body == 8 && f.extlen == 0 && f.keylen == 0, "a number"); uint64_t x = (uint64_t)g32(f.b) << 32 | g32(f.b + 4); sym_assert(x == (uint64_t)M[k].val, "the new number"); M[k].cas = f.cas; sym_assert(f.cas != 0 && f.cas != old_cas[k], "a new version"); }
      else if (st == OK) { sym_assert(f.body == 0, "nothing else"); if (store) { sym_assert(f.cas != 0 && f.cas != old_cas[k], "a new version"); M[k].cas = f.cas; } }
      else { if (wk) sym_assert(f.keylen == 1 && f.body == 1 && f.b[0] == ks[0], "the key that is missing"); else sym_assert(f.keylen == 0 && f.extlen == 0 && f.body > 0, "a message"); sym_reach("refused"); } }
    (void)learn; }
  sym_assert(noop(s), "in step"); sym_reach("end"); }

#elif MODE == 3 /* scripts, whole and in pieces */
static void session(void) {
  int i = sym_choose(NSCRIPT, "script"), how = sym_choose(4, "how"), s; const char *a, *t; size_t u0 = stub_used; make(i, &a, &t); int w = 0, n = rn, cut = 0, big = rn > 2500;
  if (how == 1) { cut = big ? 23 + 97 * pick(n / 97, "cut") : 1 + pick(n - 1, "cut"); if (cut >= n) sym_end(); } else if (how == 2) srv_rmax = (big ? 160 : 1) + sym_choose(RM, "read size"); w = how == 3 ? 1 + sym_choose(WM, "write size") : 0; if (w && big) w += 160; if (big) { s = connect_client(); } else s = connect_client(); if (w) S[s].wcap = S[s].wstep = w;
  if (cut) { arrive(s, rbytes, cut); if (S[s].open) arrive(s, rbytes + cut, n - cut); } else arrive(s, rbytes, n);
  int ok = same(s, wbytes, wn); if (!ok) { show("script", i);
#ifdef SRV_SHOW
    diff(s, wbytes, wn);
#endif
  }
  sym_assert(ok, "the responses of the script"); int quit = i == 10 || i == 11; sym_assert(quit ? !S[s].open && S[s].closes == 1 : S[s].open, "open until quit"); S[s].wcap = S[s].wstep = -1; if (!quit) sym_assert(noop(s), "in step"); srv_rmax = 1 << 30; check_after(a, t);
  int z = quit ? connect_client() : s; wipe(z); sym_assert(stub_used == u0, "every item is given back"); sym_reach("end"); }

#elif MODE == 4 /* an allocation fails at any point */
static void session(void) {
  int i = sym_choose(NSCRIPT, "script"), kind = sym_choose(2, "which memory"), k = sym_choose(kind ? NFS : NF, "allocation"), s = connect_client(); const char *a, *t; make(i, &a, &t); size_t u0 = stub_used;
  if (kind) { stub_failed = 0; stub_fail_at = k; } else { srv_count = 1; srv_nalloc = 0; srv_fail_at = k; }
  arrive(s, rbytes, rn); srv_count = 0; int hit = kind ? stub_failed > 0 : srv_nalloc > k; stub_fail_at = -1; if (!hit) sym_end();
  F f[40]; int r = frames(s, f, 40); show("script", i); show("responses", r); int quit = i == 10 || i == 11;
  if (S[s].open) { sym_assert(r >= 0, "whole responses"); if (!quit) sym_assert(noop(s), "in step after running out of memory"); sym_reach("answered"); } else { sym_assert(S[s].closes == 1, "closed once"); sym_reach("hung up"); }
  int z = connect_client(); sym_assert(S[z].open, "another client can connect"); wipe(z); sym_assert(noop(z), "the other client is served"); sym_assert(stub_used == u0, "every item is given back"); sym_reach("end"); }

#elif MODE == 5 /* the client goes away at any point */
static void once(int cut, int how) { int s = connect_client(); if (!S[s].open) { sym_fail("no connection"); return; } srv_send_fail = how ? cut : -1; arrive(s, rbytes, how ? rn : cut); srv_send_fail = -1; if (S[s].open) { S[s].eof = 1; pump(); } sym_assert(!S[s].open && S[s].closes == 1, "the connection is closed once"); S[s].closes = 0; S[s].eof = 0; free(S[s].out); }
static void session(void) {
  int i = sym_choose(NSCRIPT, "script"), how = sym_choose(2, "how"); const char *a, *t; make(i, &a, &t); int big = rn > 2500, cut = how ? sym_choose(4, "send that fails") : big ? 97 * pick(rn / 97, "bytes received") : pick(rn, "bytes received"); size_t u0 = stub_used; int w = connect_client();
  once(cut, how); wipe(w); sym_assert(stub_used == u0, "every item is given back"); make(i, &a, &t); uint64_t h1 = sym_heap_live(1); once(cut, how); wipe(w); uint64_t h2 = sym_heap_live(1); sym_assert(stub_used == u0, "every item is given back"); (void)h1; (void)h2; if (!sym_is_native()) sym_assert(h2 <= h1, "a second such client costs no further memory");
  sym_assert(noop(w), "the other client is served"); sym_reach("end"); }
#endif

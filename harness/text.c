/* C23: the text protocol, through the whole server. MODE selects the question. */
#include "server.h"
#include "text_scripts.h"
#ifndef LO
#define LO 0
#define HI 9999
#endif
#define NSCRIPT ((int)(sizeof SCRIPT / sizeof SCRIPT[0]))
extern size_t stub_used; extern long stub_fail_at; extern int stub_failed;
/* ---- replies ---- */
static int word(const char *l, int n, const char *w) { int m = (int)strlen(w); return n >= m && !memcmp(l, w, m) && (n == m || l[m] == ' ' || l[m] == '='); }
static const char *const LAST[] = { "STORED", "NOT_STORED", "EXISTS", "NOT_FOUND", "DELETED", "TOUCHED", "END", "OK", "VERSION", "ERROR", "CLIENT_ERROR", "SERVER_ERROR", "CREATED", "CREATED_STORED", "REPLACED", "UPDATED",
  "DELETED_DROPPED", "TRIMMED", "COUNT", "POSITION", "NOT_FOUND_ELEMENT", "ELEMENT_EXISTS", "TYPE_MISMATCH", "BKEY_MISMATCH", "EFLAG_MISMATCH", "OVERFLOWED", "OUT_OF_RANGE", "UNREADABLE", "NOTHING_TO_UPDATE", "EXIST", "NOT_EXIST",
  "ATTR_ERROR", "DUPLICATED", "DUPLICATED_TRIMMED", "PREFIX_ERROR", "NOT_SUPPORTED", "DENIED", "PIPE_ERROR", "RESET", "READY" };
/* the output from o to n is whole lines; the number of finished replies, -1 when the text is not made of replies */
static int replies(const char *b, int o, int n) {
  int k = 0, open = 0;
  while (o < n) { int e = o; while (e + 1 < n && !(b[e] == '\r' && b[e + 1] == '\n')) e++; if (e + 1 >= n) return -1;
    int fin = 0; const char *l = b + o; int m = e - o; if (!m && !open) return -1;
    if (word(l, m, "CREATED_STORED") || word(l, m, "DELETED_DROPPED")) fin = 1;
    for (unsigned i = 0; !fin && i < sizeof LAST / sizeof LAST[0]; i++) fin = word(l, m, LAST[i]);
    if (!fin && l[0] >= '0' && l[0] <= '9') { fin = !open; for (int i = 0; i < m; i++) if (l[i] < '0' || l[i] > '9') fin = 0; if (!fin && !open) return -1; }
    else if (!fin && !open && l[0] < 'A') return -1;
    if (fin) { k++; open = 0; } else open = 1; o = e + 2; }
  return open ? -1 : k; }
static int ends(int s, const char *t) { int n = (int)strlen(t); return S[s].nout >= n && !memcmp(S[s].out + S[s].nout - n, t, n); }
#ifdef SRV_SHOW
#define SHOW(p, n) (((char *)(p))[n] = 0, sym_print(p))
#else
#define SHOW(p, n) (void)0
#endif
#define VER "VERSION " VERSION "\r\n"
static char *cat(char *p, const char *t) { int n = (int)strlen(t); memcpy(p, t, n); return p + n; }
static void settle(void) { for (int i = 0; i < 4; i++) symp_tick(); }
/* every key any script names */
static void wipe(int s) { static const char *const K[] = { "k", "j", "n", "m", "l", "s", "b", "b1", "b2", "c", "z", "a:k", "p:k", "p:k1", "t1", "t2", "kkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkk" };
  for (unsigned i = 0; i < sizeof K / sizeof K[0]; i++) { char c[160], *e = cat(cat(cat(c, "delete "), K[i]), " noreply\r\n"); arrive(s, c, (int)(e - c)); } settle(); }

#if MODE == 0 /* key-value requests with arbitrary values */
static struct { int on; char v[8]; int n; char fl; int ver; } M[2]; static struct { char t[24]; int n, ver; } T[2]; static int vers;
static void session(void) {
  int s = connect_client();
  for (int step = 0; step < STEPS; step++) {
    int op = sym_choose(10, "op"), k = sym_choose(2, "key"), quiet = op < 7 ? sym_choose(2, "noreply") : 0, n = 0, i = 0; char fl = '0', d[2]; static char c[4][96]; static char w[4][64]; char *p = c[step], *e = w[step];
    static const char *const N[] = { "set", "add", "replace", "append", "prepend", "cas", "delete", "get", "gets", "mget" }; char ks[2] = { (char)('a' + k), 0 }; (void)i;
    if (op < 6) { n = sym_choose(3, "length"); fl = (char)('0' + sym_range(0, 9, "flags")); sym__bytes(d, 2, "data");
      p = cat(p, N[op]); *p++ = ' '; *p++ = ks[0]; *p++ = ' '; *p++ = fl; p = cat(p, " 0 "); *p++ = (char)('0' + n); if (op == 5) { *p++ = ' '; if (T[k].n) { memcpy(p, T[k].t, T[k].n); p += T[k].n; } else p = cat(p, "77777"); }
      if (quiet) p = cat(p, " noreply"); p = cat(p, "\r\n"); memcpy(p, d, n); p += n; p = cat(p, "\r\n");
      int st = op == 0 || (op == 1 && !M[k].on) || (op == 2 && M[k].on) || (op == 5 && M[k].on && T[k].n && T[k].ver == M[k].ver); const char *r = "STORED\r\n";
      if (st) { M[k].on = 1; M[k].n = n; memcpy(M[k].v, d, n); M[k].fl = fl; M[k].ver = ++vers; }
      else if ((op == 3 || op == 4) && M[k].on) { if (M[k].n + n > 8) sym_end(); if (op == 3) memcpy(M[k].v + M[k].n, d, n); else { char t[8]; memcpy(t, M[k].v, M[k].n); memcpy(M[k].v, d, n); memcpy(M[k].v + n, t, M[k].n); } M[k].n += n; M[k].ver = ++vers; }
      else r = op == 5 ? (M[k].on ? "EXISTS\r\n" : "NOT_FOUND\r\n") : "NOT_STORED\r\n";
      if (!quiet) e = cat(e, r); }
    else if (op == 6) { p = cat(cat(cat(p, "delete "), ks), quiet ? " noreply\r\n" : "\r\n"); if (!quiet) e = cat(e, M[k].on ? "DELETED\r\n" : "NOT_FOUND\r\n"); M[k].on = 0; }
    else { if (op == 9) { p = cat(p, "mget 3 2\r\n"); *p++ = ks[0]; p = cat(p, " b\r\n"); } else { p = cat(cat(cat(p, N[op]), " "), ks); p = cat(p, op == 7 ? " b\r\n" : "\r\n"); }
      for (int q = 0; q < (op == 8 ? 1 : 2); q++) { int x = q ? 1 : k; if (!M[x].on) continue; e = cat(e, "VALUE "); *e++ = (char)('a' + x); *e++ = ' '; *e++ = M[x].fl; *e++ = ' '; *e++ = (char)('0' + M[x].n);
        if (op == 8) { *e++ = ' '; int o = (int)(e - w[step]), m = 0; T[k].ver = M[x].ver; while (o + m < S[s].nout) m++; m = 0; (void)m; }
        if (op == 8) break; e = cat(e, "\r\n"); memcpy(e, M[x].v, M[x].n); e += M[x].n; e = cat(e, "\r\n"); }
      if (op != 8) e = cat(e, "END\r\n"); }
    arrive(s, c[step], (int)(p - c[step]));
    int h = (int)(e - w[step]);
    if (op == 8) { if (!M[k].on) { sym_assert(S[s].nout == 5 && !memcmp(S[s].out, "END\r\n", 5), "gets of a missing key"); T[k].n = 0; }
      else { sym_assert(S[s].nout > h && !memcmp(S[s].out, w[step], h), "gets: the item line"); int m = 0; while (h + m < S[s].nout && S[s].out[h + m] >= '0' && S[s].out[h + m] <= '9') m++; sym_assert(m > 0 && m < 21, "gets: the unique number"); memcpy(T[k].t, S[s].out + h, m); T[k].n = m; T[k].ver = M[k].ver;
        sym_assert(S[s].nout == h + m + 2 + M[k].n + 7 && !memcmp(S[s].out + h + m, "\r\n", 2) && !memcmp(S[s].out + h + m + 2, M[k].v, M[k].n) && !memcmp(S[s].out + h + m + 2 + M[k].n, "\r\nEND\r\n", 7), "gets: value and end"); } }
    else {
#ifdef SRV_SHOW
      if (S[s].nout != h || memcmp(S[s].out, w[step], h)) { S[s].out[S[s].nout] = 0; *e = 0; *p = 0; sym_print(c[step]); sym_print(w[step]); sym_print(S[s].out); }
#endif
      sym_assert(S[s].nout == h, "the reply has the documented length"); sym_assert(!memcmp(S[s].out, w[step], h), "the reply is the documented one"); }
    S[s].nout = 0;
  }
  sym_reach("end"); }

#elif MODE == 1 /* scripts: the replies do not depend on how the bytes arrive or leave */
static void session(void) {
  int i = LO + sym_choose((HI < NSCRIPT ? HI : NSCRIPT) - LO, "script"); const char *t = SCRIPT[i].in; int n = (int)strlen(t), how = sym_choose(3, "how"), s = connect_client(), a = n, b = n;
  if (how == 0) { a = sym_choose(n, "cut");
#ifdef TWO
    if (n <= TWO) b = a + sym_choose(n - a, "cut2");
#endif
  } else if (how == 1) srv_rmax = 1 + sym_choose(RM, "most bytes per read"); else { S[s].wcap = sym_choose(WM, "first write"); S[s].wstep = 1 + sym_choose(WM, "most bytes per write"); }
  arrive(s, t, a); if (b > a && S[s].open) arrive(s, t + a, b - a); if (n > b && S[s].open) arrive(s, t + b, n - b);
  sym_assert(heard(s, SCRIPT[i].out), "the replies are the documented ones"); if (!strcmp(SCRIPT[i].name, "quit")) sym_assert(S[s].closes == 1, "quit closes"); else { say(s, "version\r\n"); sym_assert(heard(s, VER), "in step after the script"); }
  sym_reach("end"); }

#elif MODE == 2 /* one slot of a command line holds arbitrary bytes */
static const struct { const char *t; int data; } L[] = {
  { "get k", -1 }, { "gets k j", -1 }, { "mget 3 2", 3 }, { "mgets 1 1", 1 }, { "set k 1 0 3", 3 }, { "add q 0 5 2", 2 }, { "append k 0 0 1", 1 }, { "cas k 0 0 1 8", 1 }, { "incr n 1", -1 }, { "incr q 1 2 0 5", -1 }, { "decr n 1", -1 }, { "delete k", -1 }, { "delete k 0", -1 },
  { "lop create q 0 0 5 error unreadable", -1 }, { "lop insert l -1 2", 2 }, { "lop insert q 0 1 create 1 0 4", 1 }, { "lop delete l 0..1 drop", -1 }, { "lop get l 0..-1 delete", -1 },
  { "sop create q 1 0 5", -1 }, { "sop insert s 2", 2 }, { "sop delete s 1 drop", 1 }, { "sop exist s 1", 1 }, { "sop get s 1 drop", -1 },
  { "mop create q 1 0 5", -1 }, { "mop insert m g 2", 2 }, { "mop upsert m f 1", 1 }, { "mop update m f 1", 1 }, { "mop delete m 1 1 drop", 1 }, { "mop get m 3 2 delete", 3 },
  { "bop create q 1 0 5 largest_trim", -1 }, { "bop insert b 5 0x01 1", 1 }, { "bop upsert b 1 1", 1 }, { "bop insert q 5 1 create 1 0 4 smallest_silent_trim getrim", 1 }, { "bop update b 1 0 | 0x01 1", 1 }, { "bop update b 1 -1", -1 }, { "bop delete b 1..2 0 & 0x01 EQ 0x01 1 drop", -1 },
  { "bop get b 0..9 0 GE 0x00,0x01 0 5 delete", -1 }, { "bop get x 0x01..0xFF", -1 }, { "bop count b 0..9 1 LT 0x01", -1 }, { "bop incr b 1 1 5 0x00", -1 }, { "bop mget 3 2 0..9 0 5", 3 }, { "bop smget 3 2 0..9 5 unique", 3 }, { "bop smget 3 2 0..9 0 LE 0xFF 5", 3 }, { "bop position b 1 asc", -1 }, { "bop gbp b asc 0..1", -1 }, { "bop pwg b 1 desc 2", -1 },
  { "getattr l flags count", -1 }, { "setattr l expiretime=5 maxcount=7", -1 }, { "setattr b overflowaction=error maxbkeyrange=9", -1 }, { "touch k 5", -1 }, { "scan key 0 count 2 match k* type A", -1 }, { "scan prefix 0 count 2 match p*", -1 },
  { "flush_prefix p", -1 }, { "flush_prefix p 5", -1 }, { "flush_all 5", -1 }, { "config max_list_size 20000", -1 }, { "config memlimit 100", -1 }, { "config verbosity 0", -1 }, { "config sticky_limit 0", -1 }, { "config scrub_count 33", -1 }, { "config max_element_bytes 2048", -1 }, { "config maxconns 50", -1 }, { "stats detail dump", -1 }, { "stats prefixes", -1 }, { "stats prefixes", -1 }, { "version", -1 }, { "ready", -1 }, { "zkensemble set a", -1 } };
#define NL ((int)(sizeof L / sizeof L[0]))
static char line[128]; static char data[260];
static void session(void) {
  int s = connect_client(); say(s, "set k 5 0 3\r\nabc\r\nset n 0 0 1\r\n5\r\nlop insert l 0 1 create 0 0 5\r\na\r\nsop insert s 1 create 0 0 5\r\na\r\nmop insert m f 1 create 0 0 5\r\na\r\nbop insert b 1 0x01 1 create 0 0 5\r\n7\r\nbop insert x 0x01 1 create 0 0 5\r\n7\r\n"); sym_assert(replies(S[s].out, 0, S[s].nout) == 7, "preparation"); S[s].nout = 0;
  int i = LO + sym_choose((HI < NL ? HI : NL) - LO, "line"); const char *t = L[i].t; int n = (int)strlen(t), w[20], nw = 0; for (int j = 0; j < n; j++) if (!j || t[j - 1] == ' ') w[nw++] = j; w[nw] = n + 1;
  int at = 0, m = sym_choose(SLOT, "bytes") + 1, o = 0; char x[SLOT]; sym__bytes(x, SLOT, "slot"); for (int j = 0; j < m; j++) sym_assume(x[j] != '\n');
  int q = sym_choose(nw, "token"); if (L[i].data >= 0 && w[q + 1] - w[q] == 2 && t[w[q]] == '0' + L[i].data) sym_assume(m == 1); int how = sym_choose(2, "replace or append"); at = how ? w[q + 1] - 1 : w[q]; memcpy(line, t, at); o = at; memcpy(line + o, x, m); o += m; int rest = w[q + 1] - 1; memcpy(line + o, t + rest, n - rest); o += n - rest; line[o++] = '\r'; line[o++] = '\n';
  /* the client sends the data block with the line, or waits for the first answer */
  int d = L[i].data, wait = d < 0; static const char *const D[] = { "", "1\r\n", "ab\r\n", "f g\r\n" }; if (d >= 0) { memcpy(data, D[d], d + 2); }
  S[s].in = line; S[s].pos = 0; S[s].end = o; pump();
  if (!S[s].open) { sym_reach("closed"); sym_fail("a command line of this length does not close the connection"); return; }
  int first = S[s].nout; if (first) { int r = replies(S[s].out, 0, first); if (r != 1) { SHOW(line, o); SHOW(S[s].out, first); } sym_assert(r == 1, "one reply to one line"); if (r != 1) return; sym_reach("answered"); }
  if (!wait) { S[s].nout = 0; arrive(s, data, d + 2); if (!S[s].open) { sym_fail("the data block closes the connection"); return; } int r = replies(S[s].out, 0, S[s].nout); sym_assert(r >= 0, "the data block gets replies"); if (first) sym_assert(r <= 1, "after a refusal the data block is at most one unknown command"); else sym_assert(r <= 1 || r == 2, "one reply to the block"); }
  S[s].nout = 0; int ok = 0;
  for (int k = 0; k < 14 && !ok; k++) { say(s, "version\r\n"); if (!S[s].open) { sym_fail("closed after a command line"); return; } int r = replies(S[s].out, 0, S[s].nout); sym_assert(r >= 0 && r <= k + 2, "no more replies than commands"); if (ends(s, VER)) ok = 1; }
  sym_assert(ok || d >= 0 || m > 1, "in step again"); sym_reach("end"); }
#elif MODE == 3 /* an allocation fails at any point: the server answers or hangs up, stays in step, and gives everything back */
static void session(void) {
  int i = LO + sym_choose((HI < NSCRIPT ? HI : NSCRIPT) - LO, "script"); const char *t = SCRIPT[i].in; int kind = sym_choose(2, "which memory"), k = sym_choose(kind ? NFS : NF, "allocation"), s = connect_client();
  size_t u0 = stub_used; S[s].nout = 0; if (kind) { stub_failed = 0; stub_fail_at = k; } else { srv_count = 1; srv_nalloc = 0; srv_fail_at = k; }
  arrive(s, t, (int)strlen(t)); srv_count = 0; int hit = kind ? stub_failed > 0 : srv_nalloc > k; stub_fail_at = -1; if (!hit) sym_end();
  int r = replies(S[s].out, 0, S[s].nout);
#ifdef SRV_SHOW
  if (r < 0 || sym_is_native()) { sym_print(SCRIPT[i].name); S[s].out[S[s].nout] = 0; sym_print(S[s].out); }
#endif
  if (S[s].open) { sym_assert(r >= 0, "whole replies"); S[s].nout = 0; say(s, "version\r\n"); sym_assert(heard(s, VER), "in step after running out of memory"); sym_reach("answered"); } else { sym_assert(S[s].closes == 1, "closed once"); sym_reach("hung up"); }
  int z = connect_client(); sym_assert(S[z].open, "another client can connect"); wipe(z); say(z, "version\r\n"); sym_assert(heard(z, VER), "the other client is served"); sym_assert(stub_used == u0, "every item is given back");
  sym_reach("end"); }

#elif MODE == 4 /* the client goes away at any point */
static void once(int i, int cut, int how) { static char nowhere; (void)nowhere;
  int s = connect_client(); if (!S[s].open) { sym_fail("no connection"); return; } if (how == 1) srv_send_fail = cut; else srv_send_fail = -1;
  const char *t = SCRIPT[i].in; int n = (int)strlen(t), a = how == 0 ? cut : n; arrive(s, t, a); srv_send_fail = -1; if (S[s].open) { S[s].eof = 1; pump(); } sym_assert(!S[s].open && S[s].closes == 1, "the connection is closed once"); S[s].closes = 0; S[s].eof = 0; free(S[s].out); }
static void session(void) {
  int i = LO + sym_choose((HI < NSCRIPT ? HI : NSCRIPT) - LO, "script"), n = (int)strlen(SCRIPT[i].in), how = sym_choose(2, "how"), cut = how ? sym_choose(4, "send that fails") : sym_choose(n, "bytes received"); size_t u0 = stub_used;
  int w = connect_client(); once(i, cut, how); wipe(w); sym_assert(stub_used == u0, "every item is given back"); uint64_t h1 = sym_heap_live(1); once(i, cut, how); wipe(w); uint64_t h2 = sym_heap_live(1); sym_assert(stub_used == u0, "every item is given back"); (void)h1; (void)h2;
  if (!sym_is_native()) sym_assert(h2 <= h1, "a second such client costs no further memory");
  say(w, "version\r\n"); sym_assert(heard(w, VER), "the other client is served"); sym_reach("end"); }

#elif MODE == 5 /* limits of lines, keys, values, lists */
static char big[80000];
static void session(void) {
  int s = connect_client(), w = sym_choose(13, "case"); char *p = big; size_t u0 = stub_used; srv_rmax = sym_choose(2, "reads") ? 1 << 30 : 700;
  if (w == 0) { /* a key of 1..N bytes */ static const int KL[] = { 1, 249, 250, 251, 4000, 15999, 16000, 16001 }; int n = KL[sym_choose(8, "key length")]; p = cat(p, "set "); memset(p, 'k', n); p += n; p = cat(p, " 7 0 2\r\nab\r\nget "); memset(p, 'k', n); p += n; p = cat(p, "\r\n"); arrive(s, big, (int)(p - big));
    if (n <= 16000) { char *q = S[s].out; sym_assert(S[s].nout == 8 + 6 + n + 6 + 4 + 5, "stored and read"); sym_assert(!memcmp(q, "STORED\r\nVALUE k", 15) && !memcmp(S[s].out + 14 + n, " 7 2\r\nab\r\nEND\r\n", 15), "stored and read"); S[s].nout = 0; }
    else { sym_assert(replies(S[s].out, 0, S[s].nout) >= 2, "refused"); sym_assert(!memcmp(S[s].out, "CLIENT_ERROR", 12), "a key longer than the limit is refused"); S[s].nout = 0; } }
  else if (w == 1) { /* value larger than an item may be */ static const int VL[] = { 70000, 2000000 }; int n = VL[sym_choose(2, "value length")]; int quiet = sym_choose(2, "noreply"); char c[64]; char *e = cat(c, "set k 0 0 "); char d[12]; int m = 0, v = n; while (v) { d[m++] = (char)('0' + v % 10); v /= 10; } while (m) *e++ = d[--m]; e = cat(e, quiet ? " noreply\r\n" : "\r\n"); arrive(s, c, (int)(e - c)); memset(big, 'v', 65536); srv_rmax = 1 << 30; for (int left = n; left > 0;) { int k = left > 65536 ? 65536 : left; arrive(s, big, k); if (!S[s].open) { sym_fail("closed during the data block"); return; } left -= k; } say(s, "\r\n");
    if (n < 1048576 - 1000) sym_assert(heard(s, quiet ? "" : "STORED\r\n"), "stored"); else { sym_assert(replies(S[s].out, 0, S[s].nout) == (quiet ? 0 : 1), "one answer"); if (!quiet) sym_assert(heard(s, "CLIENT_ERROR object too large for cache\r\n"), "too large"); S[s].nout = 0; say(s, "get k\r\n"); sym_assert(heard(s, "END\r\n"), "nothing stored"); } }
  else if (w == 2) { /* blanks without a line end */ int n = (const int[]){ 1024, 1025, 2048, 8192, 65536 }[sym_choose(5, "blanks")]; memset(big, ' ', n); srv_rmax = 1 << 30; S[s].in = big; S[s].pos = 0; S[s].end = n; pump(); sym_assert(n <= 1024 ? S[s].open : !S[s].open, "many leading blanks close the connection"); sym_reach("end"); return; }
  else if (w == 3) { /* a long line that is no get */ int n = (const int[]){ 1025, 20000, 24576, 24577, 40000 }[sym_choose(5, "length")]; memset(big, 'x', n); srv_rmax = 1 << 30; S[s].in = big; S[s].pos = 0; S[s].end = n; pump(); sym_assert(n <= 24576 ? S[s].open : !S[s].open, "a line longer than 24 KB closes the connection"); if (!S[s].open) { sym_reach("end"); return; } say(s, "\r\n"); sym_assert(heard(s, "ERROR unknown command\r\n"), "unknown command"); }
  else if (w == 4) { /* a get of many keys */ int n = (const int[]){ 7, 29, 30, 31, 200, 3000 }[sym_choose(6, "keys")]; say(s, "set k 1 0 1\r\nx\r\nset z 1 0 1\r\ny\r\n"); S[s].nout = 0; p = cat(p, sym_choose(2, "gets") ? "gets" : "get"); int hit = 0; for (int k = 0; k < n; k++) { int h = k == 0 || k == n - 1 || k == 28 || k == 27; p = cat(p, h ? " k" : " missing.key"); hit += h; } p = cat(p, "\r\n"); arrive(s, big, (int)(p - big)); int o = 0; for (int k = 0; k < hit; k++) { sym_assert(!memcmp(S[s].out + o, "VALUE k 1 1", 11), "each key found"); while (S[s].out[o] != '\n') o++; o++; sym_assert(!memcmp(S[s].out + o, "x\r\n", 3), "value"); o += 3; } sym_assert(S[s].nout == o + 5 && !memcmp(S[s].out + o, "END\r\n", 5), "end"); S[s].nout = 0; }
  else if (w == 5) { /* more piped commands than the limit */ int n = (const int[]){ 1, 499, 500, 501 }[sym_choose(4, "commands")]; for (int k = 0; k < n; k++) p = cat(p, "sop insert s 1 pipe\r\na\r\n"); p = cat(p, "sop insert s 1\r\na\r\n"); arrive(s, big, (int)(p - big)); int m = n < 500 ? n + 1 : 500; char *o = S[s].out; sym_assert(!memcmp(o, "RESPONSE ", 9), "header"); int c = 0, q = 9; while (o[q] >= '0' && o[q] <= '9') c = c * 10 + o[q++] - '0'; sym_assert(c == m, "as many answers as commands taken"); q += 2; for (int k = 0; k < m; k++, q += 11) sym_assert(!memcmp(o + q, "NOT_FOUND\r\n", 11), "each command is answered"); 
    if (n < 500) { sym_assert(S[s].nout == q + 5 && !memcmp(o + q, "END\r\n", 5), "end"); } else sym_assert(S[s].nout == q + 29 && !memcmp(o + q, "PIPE_ERROR command overflow\r\n", 29), "overflow is reported"); S[s].nout = 0; }
  else if (w == 6) { /* compare values of a filter */ int n = (const int[]){ 1, 99, 100, 101, 200 }[sym_choose(5, "values")]; int len = sym_choose(2, "width") ? 31 : 1; say(s, "bop insert b 1 0x01 1 create 0 0 0\r\na\r\n"); S[s].nout = 0; p = cat(p, "bop count b 0..9 0 EQ "); for (int k = 0; k < n; k++) { if (k) *p++ = ','; p = cat(p, "0x"); for (int j = 0; j < len; j++) p = cat(p, "01"); } p = cat(p, "\r\n"); arrive(s, big, (int)(p - big)); sym_assert(n > 100 ? heard(s, "CLIENT_ERROR bad command line format\r\n") : heard(s, len == 1 ? "COUNT=1\r\n" : "COUNT=0\r\n"), "up to 100 compare values"); }
  else if (w == 7) { /* an element as large as it may be */ int n = (const int[]){ 16381, 16382, 16383, 16384, 16385, 40000 }[sym_choose(6, "length")], kind = sym_choose(3, "kind"), quiet = sym_choose(2, "noreply"); char c[96]; char *e = cat(c, kind == 0 ? "lop insert l 0 " : kind == 1 ? "sop insert l " : "bop insert l 1 "); char d[12]; int m = 0, v = n; while (v) { d[m++] = (char)('0' + v % 10); v /= 10; } while (m) *e++ = d[--m]; e = cat(cat(e, " create 0 0 0"), quiet ? " noreply\r\n" : "\r\n"); arrive(s, c, (int)(e - c)); memset(big, 'v', n); memcpy(big + n, "\r\n", 2); srv_rmax = 1 << 30; arrive(s, big, n + 2); int fit = n + 2 <= 16384; sym_assert(heard(s, quiet ? "" : fit ? "CREATED_STORED\r\n" : "CLIENT_ERROR too large value\r\n"), "an element up to max_element_bytes"); say(s, "getattr l count\r\n"); sym_assert(heard(s, fit ? "ATTR count=1\r\nEND\r\n" : "NOT_FOUND\r\n"), "stored or not"); }
  else if (w == 8) { /* many tokens */ int n = (const int[]){ 12, 25, 28, 29, 30, 31, 60, 400 }[sym_choose(8, "tokens")]; static const char *const C[] = { "version", "lop get", "bop get", "getattr", "stats", "config", "scan key", "setattr", "set", "flush_all", "cas", "touch" }; p = cat(p, C[sym_choose(12, "command")]); for (int k = 0; k < n; k++) p = cat(p, " a"); p = cat(p, "\r\n"); arrive(s, big, (int)(p - big)); sym_assert(replies(S[s].out, 0, S[s].nout) == 1, "one reply to a line of many words"); S[s].nout = 0; }
  else if (w == 9) { /* key lists of mget */ int n = (const int[]){ 1, 2, 500, 2500 }[sym_choose(4, "keys")], sep = sym_choose(2, "separator"), off = sym_choose(3, "announced"); say(s, "set k 1 0 1\r\nx\r\n"); S[s].nout = 0; static char kl[16000]; char *q = kl; for (int k = 0; k < n; k++) { if (k) *q++ = sep ? ',' : ' '; *q++ = k % 2 ? 'j' : 'k'; } int l = (int)(q - kl); char d[12]; int m = 0, v = l; p = cat(p, "mget "); while (v) { d[m++] = (char)('0' + v % 10); v /= 10; } while (m) *p++ = d[--m]; *p++ = ' '; v = n + (off == 1) - (off == 2); if (v <= 0) v = n + 1; m = 0; int nn = v; while (v) { d[m++] = (char)('0' + v % 10); v /= 10; } while (m) *p++ = d[--m]; p = cat(p, "\r\n"); memcpy(p, kl, l); p += l; p = cat(p, "\r\n"); arrive(s, big, (int)(p - big)); 
    if (nn == n && (!sep || n == 1) && n <= 10000) { int o = 0; for (int k = 0; k < n; k += 2) { sym_assert(!memcmp(S[s].out + o, "VALUE k 1 1\r\nx\r\n", 16), "each key in order"); o += 16; } sym_assert(S[s].nout == o + 5 && !memcmp(S[s].out + o, "END\r\n", 5), "end"); } else sym_assert(replies(S[s].out, 0, S[s].nout) == 1, "one answer"); S[s].nout = 0; }
  else if (w == 10) { /* long element replies */ char bk[70], ef[70]; char *e = cat(bk, "0x"), *f = cat(ef, "0x"); for (int k = 0; k < 31; k++) { e = cat(e, "FE"); f = cat(f, "EF"); } *e = *f = 0; *e = 0; p = cat(p, "bop insert b "); p = cat(cat(cat(p, bk), " "), ef); p = cat(p, " 3 create 4294967295 0 0\r\nabc\r\n"); arrive(s, big, (int)(p - big)); sym_assert(heard(s, "CREATED_STORED\r\n"), "stored"); p = big; static char want[600]; char *q = want; int k = sym_choose(3, "command"); 
    if (k == 0) { p = cat(cat(p, "bop get b "), bk); q = cat(q, "VALUE 4294967295 1\r\n"); } else if (k == 1) { p = cat(cat(cat(p, "bop pwg b "), bk), " asc 3"); q = cat(q, "VALUE 0 4294967295 1 0\r\n"); } else { p = cat(p, "bop gbp b desc 0"); q = cat(q, "VALUE 4294967295 1\r\n"); } p = cat(p, "\r\n"); q = cat(cat(cat(cat(q, bk), " "), ef), " 3 abc\r\nEND\r\n"); *q = 0; arrive(s, big, (int)(p - big)); sym_assert(heard(s, want), "keys and flags of full length"); }
  else if (w == 11) { /* an error after some keys of a get were found */
    say(s, "set k 1 0 1\r\nx\r\nset j 1 0 1\r\ny\r\n"); S[s].nout = 0; p = cat(p, sym_choose(2, "gets") ? "gets k j " : "get k j "); memset(p, 'x', 16001); p = cat(p + 16001, "\r\n"); arrive(s, big, (int)(p - big)); sym_assert(heard(s, "CLIENT_ERROR bad command line format\r\n"), "refused");
    int next = sym_choose(4, "next"); if (next == 0) { say(s, "scan prefix 0 count 2000\r\n"); sym_assert(replies(S[s].out, 0, S[s].nout) == 1, "the prefixes"); S[s].nout = 0; } else if (next == 1) { say(s, "scan key 0 count 2000\r\n"); sym_assert(replies(S[s].out, 0, S[s].nout) == 1, "the keys"); S[s].nout = 0; } else if (next == 2) { say(s, "get j\r\n"); sym_assert(heard(s, "VALUE j 1 1\r\ny\r\nEND\r\n"), "found"); }
    say(s, "delete k\r\ndelete j\r\n"); sym_assert(heard(s, "DELETED\r\nDELETED\r\n"), "deleted"); settle(); sym_assert(stub_used == u0, "every item is given back"); }
  else { /* empty lines and blanks */ static const struct { const char *t; int n; } B[] = { { "\r\n", 1 }, { "\n", 1 }, { " \r\n", 1 }, { "\r\r\n", 1 }, { "  version\r\n", 1 }, { "version \n", 1 }, { "\0\r\n", 1 }, { "get\r\n", 1 }, { "get  k\r\n", 1 }, { "get k \r\n", 1 }, { "delete  k  \r\n", 1 } }; int b = sym_choose(11, "line"); arrive(s, B[b].t, b == 6 ? 3 : (int)strlen(B[b].t)); sym_assert(replies(S[s].out, 0, S[s].nout) == B[b].n, "one reply"); S[s].nout = 0; }
  S[s].nout = 0; say(s, "version\r\n"); sym_assert(heard(s, VER), "in step afterwards"); sym_reach("end"); }
#endif

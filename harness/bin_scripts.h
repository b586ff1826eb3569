/* scripts of binary requests with the responses they must get (cas left zero) */
static char *rp, *wp; static uint32_t rop; static int rvb; static uint64_t rcas;
static const char *status_text(int st) { switch (st) { case OK: return ""; case NOKEY: return "Not found"; case EXISTS: return "Data exists for key"; case TOOBIG: return "Too large"; case INVAL: return "Invalid arguments"; case NOTSTORED: return "Not stored"; case BADNUM: return "Non-numeric server-side value for incr or decr"; case 7: return "I'm not responsible for this vbucket"; case AUTHERR: return "Auth failure";
  case BADTYPE: return "Not supported operation, bad type"; case OVERFLOWED: return "Data structure full"; case BADVALUE: return "Bad value"; case INDEXOOR: return "Index out of range"; case BKEYOOR: return "Bkey out of range"; case NOELEM: return "Not found element"; case ELEMEXISTS: return "Element already exists"; case BADATTR: return "Attribute not found"; case BADBKEY: return "Bkey mismatch"; case BADEFLAG: return "Eflag mismatch"; case UNREADABLE: return "Unreadable item"; case ENAME: return "Invalid prefix name"; case NOPREFIX: return "Prefix not found"; case UNKNOWN: return "Unknown command"; case NOMEM: return "Out of memory"; } return "?"; }
static void R(int op, const char *x, int nx, const char *k, const char *v, int nv) { char *h = rp; rp = rq(rp, op, x, nx, k, (int)strlen(k), v, nv, ++rop, rcas); p16(h + 6, rvb); }
static void Ah(int op, int st, int ext, int key, int body) { *wp++ = (char)0x81; *wp++ = (char)op; wp = p16(wp, key); *wp++ = (char)ext; *wp++ = 0; wp = p16(wp, st); wp = p32(wp, body); memcpy(wp, &rop, 4); wp += 4; memset(wp, 0, 8); wp += 8; }
static void A(int op, int st, int ext, int key, const char *b, int n) { Ah(op, st, ext, key, n); memcpy(wp, b, n); wp += n; }
static void E(int op, int st) { const char *t = status_text(st); A(op, st, 0, 0, t, (int)strlen(t)); }
static void RE(int op, const char *x, int nx, const char *k, const char *v, int nv, int st) { R(op, x, nx, k, v, nv); if (st >= 0) E(op, st); }
static void store(int op, const char *k, uint32_t fl, uint32_t ex, const char *v, int st) { char x[8]; memcpy(x, &fl, 4); p32(x + 4, ex); RE(op, x, 8, k, v, (int)strlen(v), st); }
static void get(int op, const char *k, uint32_t fl, const char *v) { R(op, "", 0, k, "", 0); int q = op == GETQ || op == GETKQ, wk = op == GETK || op == GETKQ ? (int)strlen(k) : 0;
  if (v) { int n = (int)strlen(v); Ah(op, OK, 4, wk, 4 + wk + n); memcpy(wp, &fl, 4); memcpy(wp + 4, k, wk); memcpy(wp + 4 + wk, v, n); wp += 4 + wk + n; } else if (!q) { if (wk) A(op, NOKEY, 0, wk, k, wk); else E(op, NOKEY); } }
static void arith(int op, const char *k, uint64_t d, uint64_t init, uint32_t ex, long want, int st) { char x[20]; p32(p64(p64(x, d), init), ex); R(op, x, 20, k, "", 0); if (st == OK) { char v[8]; p64(v, want); A(op, OK, 0, 0, v, 8); } else if (st > 0) E(op, st); }
static void create(int op, const char *k, uint32_t fl, uint32_t ex, int32_t max, int ovf, int rd, int st) { char x[16] = { 0 }; memcpy(x, &fl, 4); p32(p32(x + 4, ex), max); x[12] = (char)ovf; x[13] = (char)rd; RE(op, x, 16, k, "", 0, st); }
static void linsert(int op, const char *k, int idx, uint32_t fl, int32_t max, int cr, const char *v, int st) { char x[20] = { 0 }; p32(x, idx); memcpy(x + 4, &fl, 4); p32(x + 12, max); x[16] = (char)cr; RE(op, x, 20, k, v, (int)strlen(v), st); }
static void ldelete(int op, const char *k, int a, int b, int drop, int st) { char x[12] = { 0 }; p32(p32(x, a), b); x[8] = (char)drop; RE(op, x, 12, k, "", 0, st); }
static void elems(int op, uint32_t fl, const char *const *v, int n) { int t = 8 + 4 * n; for (int i = 0; i < n; i++) t += (int)strlen(v[i]); Ah(op, OK, 8, 0, t); memcpy(wp, &fl, 4); wp = p32(wp + 4, n); for (int i = 0; i < n; i++) wp = p32(wp, (uint32_t)strlen(v[i])); for (int i = 0; i < n; i++) { memcpy(wp, v[i], strlen(v[i])); wp += strlen(v[i]); } }
static void lget(const char *k, int a, int b, int del, int drop, uint32_t fl, const char *const *v, int n, int st) { char x[12] = { 0 }; p32(p32(x, a), b); x[8] = (char)del; x[9] = (char)drop; RE(LGET, x, 12, k, "", 0, st ? st : -1); if (!st) elems(LGET, fl, v, n); }
static void sinsert(int op, const char *k, uint32_t fl, int32_t max, int cr, const char *v, int st) { char x[16] = { 0 }; memcpy(x, &fl, 4); p32(x + 8, max); x[12] = (char)cr; RE(op, x, 16, k, v, (int)strlen(v), st); }
static void sdelete(int op, const char *k, int drop, const char *v, int st) { char x[4] = { (char)drop, 0, 0, 0 }; RE(op, x, 4, k, v, (int)strlen(v), st); }
static void sexist(const char *k, const char *v, int st, int yes) { R(SEXIST, "", 0, k, v, (int)strlen(v)); if (st) E(SEXIST, st); else { char x[4]; p32(x, yes); A(SEXIST, OK, 0, 0, x, 4); } }
static void sget(const char *k, int cnt, int del, int drop, uint32_t fl, const char *const *v, int n, int st) { char x[8] = { 0 }; p32(x, cnt); x[4] = (char)del; x[5] = (char)drop; RE(SGET, x, 8, k, "", 0, st ? st : -1); if (!st) elems(SGET, fl, v, n); }
/* nb 0: the number in the first byte of bk as an 8-byte key */
static void binsert(int op, const char *k, const char *bk, int nb, const char *ef, int ne, uint32_t fl, int32_t max, int cr, const char *v, int st) { char x[80] = { 0 }; if (nb) memcpy(x, bk, nb); else p64(x, (uint8_t)bk[0]); x[31] = (char)nb; memcpy(x + 32, ef, ne); x[63] = (char)ne; memcpy(x + 64, &fl, 4); p32(x + 72, max); x[76] = (char)cr; RE(op, x, 80, k, v, (int)strlen(v), st); }
static void bupdate(int op, const char *k, const char *bk, int nb, const char *ef, int ne, int off, int bit, const char *v, int st) { char x[72] = { 0 }; if (nb) memcpy(x, bk, nb); else p64(x, (uint8_t)bk[0]); x[31] = (char)nb; memcpy(x + 32, ef, ne == 255 ? 0 : ne); x[63] = (char)ne; x[64] = (char)off; x[65] = (char)bit; x[66] = v ? 0 : 1; RE(op, x, 72, k, v ? v : "", v ? (int)strlen(v) : 0, st); }
static void setattr(const char *k, long ex, long max, int mlen, const char *m, int ovf, int rd, int st) { char x[44] = { 0 }; if (ex >= 0) { p32(x, (uint32_t)ex); x[42] = 1; } if (max >= 0) { p32(x + 4, (uint32_t)max); x[43] = 1; } if (mlen == 0) p64(x + 8, (uint8_t)m[0]); else if (mlen < 255) memcpy(x + 8, m, mlen > 31 ? 31 : mlen); x[39] = (char)mlen; x[40] = (char)ovf; x[41] = (char)rd; RE(SETATTR, x, 44, k, "", 0, st); }
static void getattr(const char *k, uint32_t fl, int32_t ex, int cnt, int max, int mlen, const char *m, int type, int ovf, int rd, int st) { char x[56] = { 0 }; RE(GETATTR, x, 56, k, "", 0, st ? st : -1); if (st) return; memcpy(x, &fl, 4); p32(p32(p32(x + 4, ex), cnt), max); if (mlen == 0) p64(x + 16, (uint8_t)m[0]); else if (mlen > 0 && mlen < 255) memcpy(x + 16, m, mlen); if (mlen >= 0) x[47] = (char)mlen; x[48] = (char)type; x[49] = (char)ovf; x[50] = (char)rd; A(GETATTR, OK, 0, 0, x, 56); }
static void flush_(int op, const char *k, int ext, uint32_t ex, int st) { char x[4]; p32(x, ex); RE(op, x, ext, k, "", 0, st); }
static void stat1(const char *k, int st) { R(STAT, "", 0, k, "", 0); if (st) E(STAT, st); else Ah(STAT, OK, 0, 0, 0); }
static void vb(int op, const char *k, const char *v, const char *msg, int st) { R(op, "", 0, k, v, (int)strlen(v)); A(op, st, 0, (int)strlen(msg), msg, (int)strlen(msg)); }
#define NSCRIPT 17
static char big3[3001], big20[20001];
/* writes the requests to rp and the responses to wp; *after is text whose reply must be *tells */
static void script(int i, const char **after, const char **tells) {
  static const char *const AB[] = { "a", "bc" }, *const ZBC[] = { "bc", "zz" }, *const B1[] = { "b" }; *after = *tells = ""; rop = 0x100; rvb = 0; rcas = 0;
  switch (i) {
  case 0: store(SET, "k", 0x11223344, 0, "ab", OK); get(GET, "k", 0x11223344, "ab"); get(GETK, "k", 0x11223344, "ab"); get(GETQ, "z", 0, NULL); get(GETKQ, "z", 0, NULL); get(GETK, "z", 0, NULL); get(GET, "z", 0, NULL); store(ADD, "k", 1, 0, "x", EXISTS); store(REPLACE, "z", 1, 0, "x", NOKEY); RE(APPEND, "", 0, "k", "c", 1, OK); RE(PREPEND, "", 0, "k", "z", 1, OK); get(GET, "k", 0x11223344, "zabc"); RE(DELETE, "", 0, "k", "", 0, OK); RE(DELETE, "", 0, "k", "", 0, NOKEY); RE(APPEND, "", 0, "k", "c", 1, NOTSTORED); RE(PREPEND, "", 0, "k", "", 0, NOTSTORED); store(SET, "k", 0, 0, "", OK); get(GET, "k", 0, ""); *after = "get k\r\n"; *tells = "VALUE k 0 0\r\n\r\nEND\r\n"; break;
  case 1: store(SETQ, "k", 5, 0, "m", -1); store(ADDQ, "k", 5, 0, "m", EXISTS); RE(APPENDQ, "", 0, "k", "n", 1, -1); RE(PREPENDQ, "", 0, "k", "l", 1, -1); get(GETKQ, "k", 5, "lmn"); get(GETQ, "k", 5, "lmn"); RE(DELETEQ, "", 0, "k", "", 0, -1); RE(DELETEQ, "", 0, "k", "", 0, NOKEY); store(REPLACEQ, "k", 1, 0, "x", NOKEY); RE(APPENDQ, "", 0, "k", "c", 1, NOTSTORED); store(ADDQ, "k", 6, 0, "o", -1); store(REPLACEQ, "k", 7, 0, "p", -1); RE(NOOP, "", 0, "", "", 0, OK); *after = "get k\r\n"; *tells = "VALUE k 117440512 1\r\np\r\nEND\r\n"; break;
  case 2: arith(INCR, "z", 1, 5, 0, 5, OK); arith(INCR, "z", 3, 0, 0xffffffff, 8, OK); arith(DECR, "z", 20, 0, 0, 0, OK); arith(INCRQ, "z", 7, 0, 0, 0, -1); arith(DECRQ, "z", 1, 0, 0, 0, -1); arith(INCR, "y", 1, 1, 0xffffffff, 0, NOKEY); store(SET, "k", 0, 0, "x", OK); arith(INCR, "k", 1, 1, 0, 0, BADNUM); arith(DECRQ, "k", 1, 1, 0, 0, BADNUM); arith(DECR, "z", 0x1, 0, 0, 5, OK); *after = "get z\r\n"; *tells = "VALUE z 0 1\r\n5\r\nEND\r\n"; break;
  case 3: create(LCREATE, "l", 9, 0, 0, 0, 1, OK); create(LCREATE, "l", 9, 0, 0, 0, 1, EXISTS); linsert(LINSERT, "l", 0, 0, 0, 0, "a", OK); linsert(LINSERT, "l", -1, 0, 0, 0, "bc", OK); lget("l", 0, -1, 0, 0, 9, AB, 2, OK); linsert(LINSERTQ, "l", 2, 0, 0, 0, "zz", -1); linsert(LINSERT, "l", 9, 0, 0, 0, "q", INDEXOOR); linsert(LINSERTQ, "y", 0, 0, 0, 0, "q", NOKEY); ldelete(LDELETE, "l", 0, 0, 0, OK); lget("l", 0, 1, 1, 0, 9, ZBC, 2, OK); lget("l", 0, 1, 0, 0, 9, AB, 0, INDEXOOR); lget("y", 0, 1, 0, 0, 9, AB, 0, NOKEY); ldelete(LDELETEQ, "l", 0, 0, 0, INDEXOOR); linsert(LINSERT, "l", 0, 0, 0, 0, "a", OK); ldelete(LDELETEQ, "l", 0, -1, 0, -1); store(SET, "k", 0, 0, "x", OK); lget("k", 0, 0, 0, 0, 0, AB, 0, BADTYPE); linsert(LINSERT, "k", 0, 0, 0, 0, "q", BADTYPE); get(GET, "l", 0, NULL); wp -= 33; E(GET, BADTYPE); linsert(LINSERT, "l", 0, 0, 0, 0, "w", OK); ldelete(LDELETE, "l", 0, 0, 1, OK); lget("l", 0, 0, 0, 0, 0, AB, 0, NOKEY); break;
  case 4: create(SCREATE, "s", 8, 0, 0, 0, 1, OK); sinsert(SINSERT, "s", 0, 0, 0, "a", OK); sinsert(SINSERTQ, "s", 0, 0, 0, "b", -1); sinsert(SINSERT, "s", 0, 0, 0, "a", ELEMEXISTS); sexist("s", "a", OK, 1); sexist("s", "c", OK, 0); sexist("y", "a", NOKEY, 0); sdelete(SDELETE, "s", 0, "a", OK); sdelete(SDELETEQ, "s", 0, "a", NOELEM); sdelete(SDELETE, "y", 0, "a", NOKEY); sget("s", 0, 0, 0, 8, B1, 1, OK); sget("s", 1, 1, 1, 8, B1, 1, OK); sget("s", 1, 1, 1, 8, B1, 0, NOKEY); sinsert(SINSERT, "s", 0, 0, 0, "a", NOKEY); store(SET, "k", 0, 0, "x", OK); sexist("k", "x", BADTYPE, 0); sinsert(SINSERTQ, "k", 0, 0, 0, "a", BADTYPE); break;
  case 5: create(BCREATE, "b", 7, 0, 0, 0, 1, OK); binsert(BINSERT, "b", "\x0a", 0, "", 0, 0, 0, 0, "v1", OK); binsert(BINSERT, "b", "\x0a", 0, "", 0, 0, 0, 0, "v2", ELEMEXISTS); binsert(BINSERT, "b", "\x0a\x0b", 2, "", 0, 0, 0, 0, "v2", BADBKEY); binsert(BUPSERT, "b", "\x0a", 0, "\x01\x02", 2, 0, 0, 0, "v3", OK); binsert(BINSERTQ, "b", "\x0b", 0, "\x03", 1, 0, 0, 0, "v4", -1); binsert(BUPSERTQ, "b", "\x0c", 0, "", 0, 0, 0, 0, "v5", -1); bupdate(BUPDATE, "b", "\x0a", 0, "", 255, 0, 0, "v66", OK); bupdate(BUPDATE, "b", "\x0b", 0, "\x0f\x0e", 2, 0, 3, NULL, OK); bupdate(BUPDATEQ, "b", "\x0b", 0, "\xf0", 1, 1, 1, NULL, -1); bupdate(BUPDATE, "b", "\x0d", 0, "", 255, 0, 0, "x", NOELEM); bupdate(BUPDATE, "y", "\x0d", 0, "", 255, 0, 0, "x", NOKEY); bupdate(BUPDATEQ, "b", "\x0c", 0, "\x01", 1, 0, 2, NULL, BADEFLAG); RE(NOOP, "", 0, "", "", 0, OK); *after = "bop get b 0..99\r\n"; *tells = "VALUE 117440512 3\r\n10 0x0102 3 v66\r\n11 0x0FFE 2 v4\r\n12 2 v5\r\nEND\r\n"; break;
  case 6: linsert(LINSERT, "l", 0, 4, 100, 1, "a", OK); getattr("l", 4, 0, 1, 100, -1, "", 1, 3, 1, OK); setattr("l", -1, 200, 255, "", 2, 0, OK); setattr("l", 100, -1, 255, "", 0, 0, OK); getattr("l", 4, 100, 1, 200, -1, "", 1, 2, 1, OK); binsert(BINSERT, "b", "\x0a", 0, "", 0, 6, 50, 1, "v1", OK); setattr("b", -1, -1, 0, "\x09", 0, 0, OK); getattr("b", 6, 0, 1, 50, 0, "\x09", 4, 4, 1, OK); binsert(BINSERT, "b", "\x20", 0, "", 0, 0, 0, 0, "v1", OK); getattr("y", 0, 0, 0, 0, -1, "", 0, 0, 0, NOKEY); store(SET, "k", 0x22, 0, "x", OK); getattr("k", 0x22, 0, 0, 0, -1, "", 0, 0, 0, OK); setattr("k", -1, 5, 255, "", 0, 0, BADATTR); setattr("k", -1, -1, 255, "", 1, 0, BADATTR); setattr("l", -1, -1, 1, "\x09", 0, 0, BADATTR); setattr("y", -1, 5, 255, "", 0, 0, NOKEY); setattr("b", -1, -1, 40, "0123456789012345678901234567890", 0, 0, BADVALUE); setattr("l", -1, -1, 255, "", 77, 0, BADVALUE); *after = "getattr l expiretime maxcount overflowaction\r\n"; *tells = "ATTR expiretime=100\r\nATTR maxcount=200\r\nATTR overflowaction=head_trim\r\nEND\r\n"; break;
  case 7: store(SET, "p:k", 0, 0, "x", OK); store(SET, "k", 0, 0, "y", OK); flush_(FPREFIX, "p", 0, 0, OK); get(GET, "p:k", 0, NULL); get(GET, "k", 0, "y"); flush_(FPREFIX, "nope", 4, 0, NOPREFIX); flush_(FLUSH, "", 0, 0, OK); get(GET, "k", 0, NULL); store(SET, "k", 0, 0, "y", OK); flush_(FLUSHQ, "", 0, 0, -1); get(GET, "k", 0, NULL); store(SET, "k", 0, 0, "y", OK); flush_(FLUSH, "", 4, 0, OK); get(GET, "k", 0, NULL); store(SET, "p:k", 0, 0, "x", OK); flush_(FPREFIX, "p", 4, 0, OK); get(GET, "p:k", 0, NULL); break;
  case 8: stat1("reset", OK); stat1("nope", NOKEY); stat1("detail x", NOKEY); stat1("detail on", OK); stat1("detail off", OK); R(STAT, "", 0, "vbucket", "", 0); A(STAT, OK, 0, 4, "vb_0active", 10); Ah(STAT, OK, 0, 0, 0); stat1("s", NOKEY); stat1("itemz", NOKEY); stat1("ite", NOKEY); break;
  case 9: RE(NOOP, "", 0, "", "", 0, OK); R(VERS, "", 0, "", "", 0); A(VERS, OK, 0, 0, VERSION, (int)strlen(VERSION)); R(0xee, "abc", 3, "key", "value", 5); Ah(0xee, UNKNOWN, 0, 0, 0); R(0x2f, "", 0, "", "", 0); Ah(0x2f, UNKNOWN, 0, 0, 0); RE(NOOP, "", 0, "", "", 0, OK); R(0xf1, "", 0, "", "", 0); Ah(0xf1, NOTSUP, 0, 0, 0); break;
  case 10: RE(NOOP, "", 0, "", "", 0, OK); store(SETQ, "k", 0, 0, "v", -1); RE(QUIT, "", 0, "", "", 0, OK); break;
  case 11: store(SET, "k", 0, 0, "v", OK); RE(QUITQ, "", 0, "", "", 0, -1); break;
  case 12: linsert(LINSERT, "l", 0, 1, 11, 1, "a", OK); sinsert(SINSERT, "s", 2, 12, 1, "a", OK); binsert(BUPSERT, "b", "\x01\x02\x03", 3, "", 0, 3, 13, 1, "a", OK); getattr("l", 1, 0, 1, 11, -1, "", 1, 3, 1, OK); getattr("s", 2, 0, 1, 12, -1, "", 2, 1, 1, OK); getattr("b", 3, 0, 1, 13, 255, "", 4, 4, 1, OK); create(SCREATE, "z", 5, 60, 14, 1, 0, OK); sinsert(SINSERT, "z", 0, 0, 0, "a", OK); sget("z", 0, 0, 0, 0, B1, 0, UNREADABLE); create(BCREATE, "y", 6, 0, 15, 6, 1, OK); getattr("z", 5, 60, 1, 14, -1, "", 2, 1, 0, OK); getattr("y", 6, 0, 0, 15, 255, "", 4, 6, 1, OK); break;
  case 13: store(SET, "k", 3, 0, big3, OK); get(GETK, "k", 3, big3); linsert(LINSERT, "l", 0, 4, 0, 1, big3, OK); linsert(LINSERTQ, "l", 1, 4, 0, 1, big3, -1); { const char *const V[] = { big3, big3 }; lget("l", 0, -1, 0, 0, 4, V, 2, OK); } break;
  case 14: linsert(LINSERT, "l", 0, 4, 0, 1, big20, TOOBIG); binsert(BINSERT, "b", "\x01", 0, "", 0, 0, 0, 1, "a", OK); RE(NOOP, "", 0, "", "", 0, OK); break;
  case 15: rvb = 1; store(SET, "k", 0, 0, "v", 7); get(GET, "k", 0, NULL); wp -= 33; E(GET, 7); RE(DELETE, "", 0, "k", "", 0, 7); arith(INCR, "k", 1, 1, 0, 0, 7); rvb = 0; vb(0x83, "1", "active", "Configured", OK); rvb = 1; store(SET, "k", 0, 0, "v", OK); get(GET, "k", 0, "v"); rvb = 0; get(GET, "k", 0, "v"); vb(0x84, "1", "", "active", OK); vb(0x85, "1", "", "", OK); vb(0x84, "1", "", "dead", OK); vb(0x83, "2", "replica", "Configured", OK); vb(0x84, "2", "", "replica", OK); vb(0x83, "2", "pending", "Configured", OK); vb(0x84, "2", "", "pending", OK); vb(0x83, "2", "dead", "Configured", OK); vb(0x83, "65536", "dead", "Value out of range.", INVAL); vb(0x83, "65535", "dead", "Configured", OK); vb(0x84, "x", "", "Value out of range.", INVAL); vb(0x83, "3", "alive", "Invalid state.", INVAL); get(GET, "k", 0, "v"); break;
  case 16: create(LCREATE, "l", 0, 0, 2, 1, 1, OK); linsert(LINSERT, "l", 0, 0, 0, 0, "a", OK); linsert(LINSERT, "l", 0, 0, 0, 0, "b", OK); linsert(LINSERT, "l", 0, 0, 0, 0, "c", OVERFLOWED); create(BCREATE, "b", 0, 0, 2, 4, 1, OK); binsert(BINSERT, "b", "\x0a", 0, "", 0, 0, 0, 0, "a", OK); binsert(BINSERT, "b", "\x0b", 0, "", 0, 0, 0, 0, "a", OK); binsert(BINSERT, "b", "\x09", 0, "", 0, 0, 0, 0, "a", BKEYOOR); binsert(BINSERT, "b", "\x0c", 0, "", 0, 0, 0, 0, "a", OK); create(SCREATE, "s", 0, 0, 1, 0, 1, OK); sinsert(SINSERT, "s", 0, 0, 0, "a", OK); sinsert(SINSERT, "s", 0, 0, 0, "b", OVERFLOWED); *after = "bop get b 0..99\r\n"; *tells = "VALUE 0 2\r\n11 1 a\r\n12 1 a\r\nTRIMMED\r\n"; break;
  } }

// Copy-on-write paged flat memory with per-byte validity and symbolic overlay.
#pragma once
#include "expr.h"
static const unsigned PGB = 10, PGS = 1 << PGB;          // 1 KB pages
static const unsigned L1B = 10, L1N = 1 << L1B;          // 1 MB per L1
static const unsigned ROOTN = 8192;                      // 8 GB
struct Page { u32 rc; u32 nsym; u8 data[PGS]; u64 valid[PGS / 64]; Expr **sym; };
struct L1 { u32 rc; Page *p[L1N]; };
struct Root { u32 rc; L1 *t[ROOTN]; };
struct Mem {
  Root *r = nullptr;
  void init() { r = new Root; memset(r, 0, sizeof *r); r->rc = 1; }
  void share(const Mem &o) { r = o.r; r->rc++; }
  static void drop(Page *p) { if (--p->rc == 0) { if (p->sym) free(p->sym); free(p); } }
  static void drop(L1 *l) { if (--l->rc == 0) { for (auto *p : l->p) if (p) drop(p); free(l); } }
  void release() { if (r && --r->rc == 0) { for (auto *l : r->t) if (l) drop(l); delete r; } r = nullptr; }
  inline Page *rd(u64 a) const { u64 i = a >> (PGB + L1B); if (i >= ROOTN) return nullptr; L1 *l = r->t[i]; if (!l) return nullptr; return l->p[(a >> PGB) & (L1N - 1)]; }
  Page *wrSlow(u64 a) {
    if (r->rc > 1) { Root *n = new Root(*r); n->rc = 1; for (auto *l : n->t) if (l) l->rc++; r->rc--; r = n; }
    u64 i = a >> (PGB + L1B); if (i >= ROOTN) return nullptr;
    L1 *&l = r->t[i];
    if (!l) { l = (L1 *)calloc(1, sizeof(L1)); l->rc = 1; }
    else if (l->rc > 1) { L1 *n = (L1 *)malloc(sizeof(L1)); memcpy(n, l, sizeof(L1)); n->rc = 1; for (auto *p : n->p) if (p) p->rc++; l->rc--; l = n; }
    Page *&p = l->p[(a >> PGB) & (L1N - 1)];
    if (!p) { p = (Page *)calloc(1, sizeof(Page)); p->rc = 1; }
    else if (p->rc > 1) { Page *n = (Page *)malloc(sizeof(Page)); memcpy(n, p, sizeof(Page)); n->rc = 1;
      if (p->sym) { n->sym = (Expr **)malloc(sizeof(Expr *) * PGS); memcpy(n->sym, p->sym, sizeof(Expr *) * PGS); } p->rc--; p = n; }
    return p;
  }
  L1 *wrL1(u64 a) {
    if (r->rc > 1) { Root *n = new Root(*r); n->rc = 1; for (auto *l : n->t) if (l) l->rc++; r->rc--; r = n; }
    u64 i = a >> (PGB + L1B); if (i >= ROOTN) return nullptr; L1 *&l = r->t[i];
    if (!l) { l = (L1 *)calloc(1, sizeof(L1)); l->rc = 1; }
    else if (l->rc > 1) { L1 *n = (L1 *)malloc(sizeof(L1)); memcpy(n, l, sizeof(L1)); n->rc = 1; for (auto *p : n->p) if (p) p->rc++; l->rc--; l = n; }
    return l;
  }
  // a fresh block: every byte valid with value c; whole pages share one template page. c < 0: whole pages become invalid
  void block(u64 a, u64 n, int c) {
    static Page *tmpl[256];
    while (n) { unsigned off = a & (PGS - 1); u64 k = std::min<u64>(n, PGS - off);
      if (k == PGS) { L1 *l = wrL1(a); if (!l) return; Page *&p = l->p[(a >> PGB) & (L1N - 1)]; if (p) drop(p);
        if (c < 0) p = nullptr;
        else { Page *&t = tmpl[c]; if (!t) { t = (Page *)calloc(1, sizeof(Page)); t->rc = 1; memset(t->data, c, PGS); memset(t->valid, 0xff, sizeof t->valid); } t->rc++; p = t; } }
      else if (c < 0) setValid(a, k, false);
      else { setValid(a, k, true); fill(a, k, VC(c)); }
      a += k; n -= k; }
  }
  inline Page *wr(u64 a) {
    u64 i = a >> (PGB + L1B);
    if (i < ROOTN && r->rc == 1) { L1 *l = r->t[i]; if (l && l->rc == 1) { Page *p = l->p[(a >> PGB) & (L1N - 1)]; if (p && p->rc == 1) return p; } }
    return wrSlow(a);
  }
  static inline bool pgValid(const Page *p, unsigned off, unsigned n) { // within page, n<=64
    unsigned w = off >> 6, b = off & 63; u64 m = n >= 64 ? ~0ULL : ((1ULL << n) - 1);
    if (b + n <= 64) return ((p->valid[w] >> b) & m) == m;
    unsigned k = 64 - b; return (p->valid[w] >> b) == ((~0ULL) >> b) && ((p->valid[w + 1]) & ((1ULL << (n - k)) - 1)) == ((1ULL << (n - k)) - 1);
  }
  bool valid(u64 a, u64 n) const {
    while (n) { Page *p = rd(a); if (!p) return false; unsigned off = a & (PGS - 1); u64 k = std::min<u64>(n, PGS - off);
      for (u64 i = 0; i < k;) { unsigned c = std::min<u64>(64, k - i); if (!pgValid(p, off + i, c)) return false; i += c; }
      a += k; n -= k; }
    return true;
  }
  bool validByte(u64 a) const { Page *p = rd(a); if (!p) return false; unsigned o = a & (PGS - 1); return p->valid[o >> 6] >> (o & 63) & 1; }
  void setValid(u64 a, u64 n, bool v) {
    while (n) { Page *p = wr(a); if (!p) return; unsigned off = a & (PGS - 1); u64 k = std::min<u64>(n, PGS - off);
      for (u64 i = 0; i < k;) { unsigned o = off + i; unsigned c = std::min<u64>(64 - (o & 63), k - i); u64 m = (c >= 64 ? ~0ULL : ((1ULL << c) - 1)) << (o & 63);
        if (v) p->valid[o >> 6] |= m; else p->valid[o >> 6] &= ~m; i += c; }
      a += k; n -= k; }
  }
  // raw (no validity) byte ops
  Val getb(u64 a) const { Page *p = rd(a); if (!p) return VC(0); unsigned o = a & (PGS - 1); if (p->sym && p->sym[o]) return Val{p->sym[o], 0}; return VC(p->data[o]); }
  void setb(u64 a, Val v) { Page *p = wr(a); unsigned o = a & (PGS - 1);
    if (v.e) { if (!p->sym) p->sym = (Expr **)calloc(PGS, sizeof(Expr *)); if (!p->sym[o]) p->nsym++; p->sym[o] = v.e; }
    else { p->data[o] = (u8)v.c; clrsym(p, o); } }
  static inline void clrsym(Page *p, unsigned o) { if (p->sym && p->sym[o]) { p->sym[o] = nullptr; if (--p->nsym == 0) { free(p->sym); p->sym = nullptr; } } }
  Val load(u64 a, unsigned n) const { // n<=8, validity already checked
    unsigned off = a & (PGS - 1); Page *p = rd(a);
    if (off + n <= PGS && p) {
      if (!p->sym) { u64 v = 0; memcpy(&v, p->data + off, n); return VC(v); }
      bool any = false; for (unsigned i = 0; i < n; i++) if (p->sym[off + i]) { any = true; break; }
      if (!any) { u64 v = 0; memcpy(&v, p->data + off, n); return VC(v); }
    }
    Expr *e = nullptr; u64 cv = 0; bool sym = false; Val bs[8];
    for (unsigned i = 0; i < n; i++) { bs[i] = getb(a + i); if (bs[i].e) sym = true; else cv |= bs[i].c << (8 * i); }
    if (!sym) return VC(cv);
    for (unsigned i = 0; i < n; i++) { Expr *b = toE(bs[n - 1 - i], 8); e = e ? mkConcat(e, b) : b; }
    return toV(e);
  }
  void store(u64 a, unsigned n, Val v) {
    unsigned off = a & (PGS - 1);
    if (!v.e && off + n <= PGS) { Page *p = wr(a); memcpy(p->data + off, &v.c, n); if (p->sym) for (unsigned i = 0; i < n; i++) { clrsym(p, off + i); if (!p->sym) break; } return; }
    for (unsigned i = 0; i < n; i++) { if (v.e) setb(a + i, toV(mkExtract(v.e, 8 * i, 8))); else setb(a + i, VC((v.c >> (8 * i)) & 0xff)); }
  }
  void fill(u64 a, u64 n, Val v) {
    while (n) { unsigned off = a & (PGS - 1); u64 k = std::min<u64>(n, PGS - off);
      if (v.e) { for (u64 i = 0; i < k; i++) setb(a + i, v); }
      else { Page *p = wr(a); memset(p->data + off, (int)v.c, k); if (p->sym) for (u64 i = 0; i < k; i++) { clrsym(p, off + i); if (!p->sym) break; } }
      a += k; n -= k; }
  }
  void copy(u64 d, u64 s, u64 n) {
    if (n == 0 || d == s) return;
    if (d > s && d < s + n) { for (u64 i = n; i-- > 0;) setb(d + i, getb(s + i)); return; }
    while (n) { unsigned so = s & (PGS - 1), dof = d & (PGS - 1); u64 k = std::min<u64>(n, std::min(PGS - so, PGS - dof));
      Page *sp = rd(s);
      if (d < s && d + k > s) k = s - d < k ? s - d : k;
      if (sp && !sp->sym) { Page *dp = wr(d); sp = rd(s); memmove(dp->data + dof, sp->data + so, k); if (dp->sym) for (u64 i = 0; i < k; i++) { clrsym(dp, dof + i); if (!dp->sym) break; } }
      else for (u64 i = 0; i < k; i++) setb(d + i, getb(s + i));
      d += k; s += k; n -= k; }
  }
};

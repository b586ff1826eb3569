#include "expr.h"
#include <map>
u64 g_exprCount = 0;
static std::vector<Expr *> tab; static size_t tabN = 0;
static char *arena = nullptr; static size_t arenaLeft = 0;
static Expr *newExpr() {
  if (arenaLeft < sizeof(Expr)) { arenaLeft = sizeof(Expr) * 4096; arena = (char *)malloc(arenaLeft); }
  Expr *e = (Expr *)arena; arena += sizeof(Expr); arenaLeft -= sizeof(Expr); memset(e, 0, sizeof *e); return e;
}
static inline u64 hmix(u64 h) { h ^= h >> 33; h *= 0xff51afd7ed558ccdULL; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ULL; h ^= h >> 33; return h; }
static inline u64 hashE(EOp op, unsigned w, u64 val, Expr *a, Expr *b, Expr *c) {
  u64 h = op * 131 + w; h = hmix(h ^ val); if (a) h = hmix(h + a->id * 0x9e3779b97f4a7c15ULL); if (b) h = hmix(h + b->id * 0x7f4a7c15ULL + 1); if (c) h = hmix(h + c->id + 77); return h;
}
static VarSet *emptyInit() { VarSet *v = new VarSet; v->id = 0; return v; }
const VarSet *vsEmpty = emptyInit();
static std::map<std::vector<u64>, const VarSet *> vsIntern;
static std::unordered_map<u64, const VarSet *> vsUnionCache;
static u32 vsNext = 1;
static const VarSet *vsGet(std::vector<u64> b) {
  while (!b.empty() && b.back() == 0) b.pop_back();
  if (b.empty()) return vsEmpty;
  auto it = vsIntern.find(b); if (it != vsIntern.end()) return it->second;
  VarSet *v = new VarSet; v->bits = b; v->id = vsNext++; vsIntern[b] = v; return v;
}
const VarSet *vsUnion(const VarSet *a, const VarSet *b) {
  if (a == b || b == vsEmpty) return a; if (a == vsEmpty) return b;
  if (a->id > b->id) std::swap(a, b);
  u64 k = ((u64)a->id << 32) | b->id; auto it = vsUnionCache.find(k); if (it != vsUnionCache.end()) return it->second;
  std::vector<u64> r(std::max(a->bits.size(), b->bits.size()));
  for (size_t i = 0; i < r.size(); i++) r[i] = (i < a->bits.size() ? a->bits[i] : 0) | (i < b->bits.size() ? b->bits[i] : 0);
  return vsUnionCache[k] = vsGet(r);
}
static u64 satadd(u64 a, u64 b, u64 m, bool &of) { u64 r = a + b; if (r < a || r > m) of = true; return r; }

static void ranges(Expr *e) {
  u64 m = maskw(e->w); e->lo = 0; e->hi = m; e->tz = 0;
  Expr *a = e->a, *b = e->b, *c = e->c;
  switch (e->op) {
  case E_CONST: e->lo = e->hi = e->val; e->tz = e->val ? __builtin_ctzll(e->val) : e->w; break;
  case E_VAR: break;
  case E_ADD: { bool of = false; u64 l = satadd(a->lo, b->lo, m, of); bool oh = false; u64 h = satadd(a->hi, b->hi, m, oh);
      if (!oh) { e->lo = l; e->hi = h; }
      else if (of && (e->w == 64 ? (l < a->lo) == (h < a->hi) && h < a->hi && l < a->lo : true)) { // both wrap exactly once
        e->lo = l & m; e->hi = h & m; if (e->lo > e->hi) { e->lo = 0; e->hi = m; } }
      e->tz = std::min(a->tz, b->tz); break; }
  case E_SUB: if (a->lo >= b->hi) { e->lo = a->lo - b->hi; e->hi = a->hi - b->lo; } e->tz = std::min(a->tz, b->tz); break;
  case E_MUL: { unsigned __int128 h = (unsigned __int128)a->hi * b->hi; if (h <= m) { e->lo = a->lo * b->lo; e->hi = (u64)h; } unsigned t = a->tz + b->tz; e->tz = t > e->w ? e->w : t; break; }
  case E_UDIV: if (b->lo > 0) { e->lo = a->lo / b->hi; e->hi = a->hi / b->lo; } break;
  case E_UREM: if (b->lo > 0) { e->hi = std::min(a->hi, b->hi - 1); if (a->hi < b->lo) { e->lo = a->lo; e->hi = a->hi; } } break;
  case E_AND: e->hi = std::min(a->hi, b->hi); e->tz = std::max(a->tz, b->tz); break;
  case E_OR: { e->lo = std::max(a->lo, b->lo); u64 x = a->hi | b->hi; x |= x >> 1; x |= x >> 2; x |= x >> 4; x |= x >> 8; x |= x >> 16; x |= x >> 32; e->hi = x & m; e->tz = std::min(a->tz, b->tz); break; }
  case E_XOR: { u64 x = a->hi | b->hi; x |= x >> 1; x |= x >> 2; x |= x >> 4; x |= x >> 8; x |= x >> 16; x |= x >> 32; e->hi = x & m; e->tz = std::min(a->tz, b->tz); break; }
  case E_LSHR: if (isC(b) && b->val < e->w) { e->lo = a->lo >> b->val; e->hi = a->hi >> b->val; } else e->hi = a->hi; break;
  case E_CONCAT: { e->lo = (a->lo << b->w) | b->lo; e->hi = (a->hi << b->w) | b->hi; e->tz = b->tz >= b->w ? b->w + a->tz : b->tz; break; }
  case E_EXTRACT: { if (e->val == 0) { if (a->hi <= m) { e->lo = a->lo; e->hi = a->hi; } e->tz = std::min<unsigned>(a->tz, e->w); }
      else { u64 l = a->lo >> e->val, h = a->hi >> e->val; if (h <= m) { e->lo = l; e->hi = h; } } break; }
  case E_ZEXT: e->lo = a->lo; e->hi = a->hi; e->tz = a->tz >= a->w ? e->w : a->tz; break;
  case E_SEXT: if (a->hi < (1ULL << (a->w - 1))) { e->lo = a->lo; e->hi = a->hi; } else if (a->lo >= (1ULL << (a->w - 1))) { e->lo = (u64)sextw(a->lo, a->w) & m; e->hi = (u64)sextw(a->hi, a->w) & m; } e->tz = a->tz >= a->w ? e->w : a->tz; break;
  case E_ITE: e->lo = std::min(b->lo, c->lo); e->hi = std::max(b->hi, c->hi); e->tz = std::min(b->tz, c->tz); break;
  default: break;
  }
}
static void grow() {
  size_t n = tab.empty() ? 1 << 16 : tab.size() * 2; std::vector<Expr *> t(n, nullptr);
  for (Expr *e : tab) if (e) { u64 h = hashE(e->op, e->w, e->val, e->a, e->b, e->c) & (n - 1); while (t[h]) h = (h + 1) & (n - 1); t[h] = e; }
  tab.swap(t);
}
static Expr *intern(EOp op, unsigned w, u64 val, Expr *a, Expr *b, Expr *c) {
  if (tabN * 2 >= tab.size()) grow();
  u64 h = hashE(op, w, val, a, b, c) & (tab.size() - 1);
  while (Expr *e = tab[h]) { if (e->op == op && e->w == w && e->val == val && e->a == a && e->b == b && e->c == c) return e; h = (h + 1) & (tab.size() - 1); }
  Expr *e = newExpr(); e->op = op; e->w = w; e->val = val; e->a = a; e->b = b; e->c = c; e->id = ++g_exprCount;
  const VarSet *vs = vsEmpty; unsigned d = 0;
  if (op == E_VAR) { std::vector<u64> bb(val / 64 + 1); bb[val / 64] = 1ULL << (val % 64); vs = vsGet(bb); }
  for (Expr *k : {a, b, c}) if (k) { vs = vsUnion(vs, k->vs); d = std::max<unsigned>(d, k->depth); }
  e->vs = vs; e->depth = d < 65000 ? d + 1 : d; ranges(e);
  tab[h] = e; tabN++; return e;
}
Expr *mkConst(unsigned w, u64 v) { return intern(E_CONST, w, v & maskw(w), nullptr, nullptr, nullptr); }
Expr *mkVar(unsigned w, u32 id) { return intern(E_VAR, w, id, nullptr, nullptr, nullptr); }

u64 foldBin(EOp op, unsigned w, u64 x, u64 y) {
  u64 m = maskw(w);
  switch (op) {
  case E_ADD: return (x + y) & m; case E_SUB: return (x - y) & m; case E_MUL: return (x * y) & m;
  case E_UDIV: return y ? x / y : m; case E_UREM: return y ? x % y : x;
  case E_SDIV: { i64 a = sextw(x, w), b = sextw(y, w); if (!b) return a < 0 ? 1 : m; if (b == -1) return (0 - x) & m; return (u64)(a / b) & m; }
  case E_SREM: { i64 a = sextw(x, w), b = sextw(y, w); if (!b) return x; if (b == -1) return 0; return (u64)(a % b) & m; }
  case E_AND: return x & y; case E_OR: return x | y; case E_XOR: return x ^ y;
  case E_SHL: return y >= w ? 0 : (x << y) & m; case E_LSHR: return y >= w ? 0 : x >> y;
  case E_ASHR: { i64 a = sextw(x, w); return y >= w ? (a < 0 ? m : 0) : (u64)(a >> y) & m; }
  case E_EQ: return x == y; case E_ULT: return x < y; case E_ULE: return x <= y;
  case E_SLT: return sextw(x, w) < sextw(y, w); case E_SLE: return sextw(x, w) <= sextw(y, w);
  default: abort();
  }
}
static bool isCmp(EOp o) { return o >= E_EQ && o <= E_SLE; }
static bool commut(EOp o) { return o == E_ADD || o == E_MUL || o == E_AND || o == E_OR || o == E_XOR || o == E_EQ; }
static bool isNotE(Expr *e) { return e->w == 1 && e->op == E_XOR && isC(e->b) && e->b->val == 1; }

Expr *mkExtract(Expr *a, unsigned low, unsigned w) {
  if (low == 0 && w == a->w) return a;
  if (isC(a)) return mkConst(w, a->val >> low);
  switch (a->op) {
  case E_EXTRACT: return mkExtract(a->a, low + a->val, w);
  case E_CONCAT: if (low >= a->b->w) return mkExtract(a->a, low - a->b->w, w);
    if (low + w <= a->b->w) return mkExtract(a->b, low, w);
    return mkConcat(mkExtract(a->a, 0, low + w - a->b->w), mkExtract(a->b, low, a->b->w - low));
  case E_ZEXT: if (low >= a->a->w) return mkConst(w, 0); if (low + w <= a->a->w) return mkExtract(a->a, low, w); return mkZext(mkExtract(a->a, low, a->a->w - low), w);
  case E_SEXT: if (low + w <= a->a->w) return mkExtract(a->a, low, w); if (low == 0) return mkSext(a->a, w); break;
  case E_ITE: if (isC(a->b) || isC(a->c)) return mkIte(a->a, mkExtract(a->b, low, w), mkExtract(a->c, low, w)); break;
  case E_AND: case E_OR: case E_XOR: return mkE(a->op, w, mkExtract(a->a, low, w), mkExtract(a->b, low, w));
  case E_ADD: case E_SUB: case E_MUL: if (low == 0) return mkE(a->op, w, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w)); break;
  default: break;
  }
  if (low < 64 && (a->hi >> low) == 0) return mkConst(w, 0);
  return intern(E_EXTRACT, w, low, a, nullptr, nullptr);
}
Expr *mkZext(Expr *a, unsigned w) {
  if (w == a->w) return a; if (isC(a)) return mkConst(w, a->val);
  if (a->op == E_ZEXT) return mkZext(a->a, w);
  if (a->op == E_ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkZext(a->b, w), mkZext(a->c, w));
  return intern(E_ZEXT, w, 0, a, nullptr, nullptr);
}
Expr *mkSext(Expr *a, unsigned w) {
  if (w == a->w) return a; if (isC(a)) return mkConst(w, (u64)sextw(a->val, a->w));
  if (a->op == E_SEXT) return mkSext(a->a, w);
  if (a->hi < (1ULL << (a->w - 1))) return mkZext(a, w);
  if (a->w == 1) return mkIte(a, mkConst(w, ~0ULL), mkConst(w, 0));
  if (a->op == E_ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkSext(a->b, w), mkSext(a->c, w));
  return intern(E_SEXT, w, 0, a, nullptr, nullptr);
}
Expr *mkConcat(Expr *h, Expr *l) {
  unsigned w = h->w + l->w;
  if (isC(h) && isC(l)) return mkConst(w, (h->val << l->w) | l->val);
  if (isC(h) && h->val == 0) return mkZext(l, w);
  if (h->op == E_EXTRACT && l->op == E_EXTRACT && h->a == l->a && h->val == l->val + l->w) return mkExtract(h->a, l->val, w);
  // the low part was narrowed by mkExtract: re-fuse the pieces of one value
  if (h->op == E_EXTRACT && h->val >= l->w && !isC(l) && mkExtract(h->a, h->val - l->w, l->w) == l) return mkExtract(h->a, h->val - l->w, w);
  // zext pieces: concat(0.., x) handled; concat(concat(x,y),z) -> right assoc when y,z mergeable
  if (h->op == E_CONCAT) { Expr *y = h->b;
    if ((y->op == E_EXTRACT && l->op == E_EXTRACT && y->a == l->a && y->val == l->val + l->w) || (isC(y) && isC(l)))
      return mkConcat(h->a, mkConcat(y, l)); }
  if (h->op == E_ZEXT) return mkZext(mkConcat(h->a, l), w);
  if (l->op == E_CONCAT && h->op == E_EXTRACT && l->a->op == E_EXTRACT && h->a == l->a->a && h->val == l->a->val + l->a->w) return mkConcat(mkConcat(h, l->a), l->b);
  return intern(E_CONCAT, w, 0, h, l, nullptr);
}
Expr *mkIte(Expr *c, Expr *a, Expr *b) {
  if (isC(c)) return c->val ? a : b; if (a == b) return a;
  if (isNotE(c)) return mkIte(c->a, b, a);
  if (a->w == 1) {
    if (isC(a)) return a->val ? mkOr1(c, b) : mkAnd1(mkNot(c), b);
    if (isC(b)) return b->val ? mkOr1(mkNot(c), a) : mkAnd1(c, a);
  }
  if (a->op == E_ITE && a->a == c) a = a->b;
  if (b->op == E_ITE && b->a == c) b = b->c;
  if (a == b) return a;
  return intern(E_ITE, a->w, 0, c, a, b);
}
static int litCmp(Expr *a, Expr *b) { return a->id < b->id ? -1 : a->id > b->id; }
// relations between the same two terms: 1 a<b, 2 a==b, 4 a>b; sg: 0 unsigned, 1 signed, 2 either
static bool relOf(Expr *e, Expr *&a, Expr *&b, int &m, int &sg) { bool neg = isNotE(e); if (neg) e = e->a; if (!isCmp(e->op) || e->a->w == 1) return false;
  a = e->a; b = e->b; switch (e->op) { case E_EQ: m = 2; sg = 2; break; case E_ULT: m = 1; sg = 0; break; case E_ULE: m = 3; sg = 0; break; case E_SLT: m = 1; sg = 1; break; default: m = 3; sg = 1; }
  if (neg) m = 7 & ~m; return true; }
static Expr *relComb(bool isAnd, Expr *x, Expr *y) { Expr *a, *b, *c, *d; int m, n, s, t; if (!relOf(x, a, b, m, s) || !relOf(y, c, d, n, t)) return nullptr;
  if (a == d && b == c) { n = (n & 2) | (n & 1) << 2 | (n & 4) >> 2; } else if (a != c || b != d) return nullptr; if (s == 2) s = t; else if (t != 2 && s != t) return nullptr; int r = isAnd ? m & n : m | n; 
  EOp lt = s == 1 ? E_SLT : E_ULT, le = s == 1 ? E_SLE : E_ULE;
  switch (r) { case 0: return mkConst(1, 0); case 7: return mkConst(1, 1); case 1: return mkE(lt, 1, a, b); case 3: return mkE(le, 1, a, b); case 4: return mkE(lt, 1, b, a); case 6: return mkE(le, 1, b, a); case 2: return mkE(E_EQ, 1, a, b); default: return mkNot(mkE(E_EQ, 1, a, b)); } }
Expr *mkE(EOp op, unsigned w, Expr *a, Expr *b) {
  unsigned ow = isCmp(op) ? 1 : w; (void)litCmp;
  unsigned kw = a->w;
  if (isC(a) && isC(b)) return mkConst(ow, foldBin(op, kw, a->val, b->val));
  if (commut(op)) { if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b); }
  switch (op) {
  case E_ADD:
    if (w == 1) return mkE(E_XOR, 1, a, b);
    if (isC(b)) { if (b->val == 0) return a; if (a->op == E_ADD && isC(a->b)) return mkE(E_ADD, w, a->a, mkConst(w, a->b->val + b->val)); 
      if (a->op == E_SUB && isC(a->a)) return mkE(E_SUB, w, mkConst(w, a->a->val + b->val), a->b);
      if (a->op == E_ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkConst(w, a->b->val + b->val), mkConst(w, a->c->val + b->val)); }
    else { if (a->op == E_ADD && isC(a->b)) return mkE(E_ADD, w, mkE(E_ADD, w, a->a, b), a->b);
      if (b->op == E_ADD && isC(b->b)) return mkE(E_ADD, w, mkE(E_ADD, w, a, b->a), b->b);
      if (a->op == E_SUB && a->b == b) return a->a; if (b->op == E_SUB && b->b == a) return b->a; }
    break;
  case E_SUB:
    if (w == 1) return mkE(E_XOR, 1, a, b);
    if (a == b) return mkConst(w, 0);
    if (isC(b)) return mkE(E_ADD, w, a, mkConst(w, 0 - b->val));
    if (a->op == E_ADD) { if (a->a == b) return a->b; if (a->b == b) return a->a; }
    if (a->op == E_ADD && isC(a->b)) { return mkE(E_ADD, w, mkE(E_SUB, w, a->a, b), a->b); }
    if (b->op == E_ADD && isC(b->b)) { return mkE(E_ADD, w, mkE(E_SUB, w, a, b->a), mkConst(w, 0 - b->b->val)); }
    break;
  case E_MUL:
    if (w == 1) return mkE(E_AND, 1, a, b);
    if (isC(b)) { if (b->val == 0) return b; if (b->val == 1) return a; if ((b->val & (b->val - 1)) == 0) return mkE(E_SHL, w, a, mkConst(w, __builtin_ctzll(b->val)));
      if (a->op == E_ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkConst(w, a->b->val * b->val), mkConst(w, a->c->val * b->val));
      if (a->op == E_MUL && isC(a->b)) return mkE(E_MUL, w, a->a, mkConst(w, a->b->val * b->val)); }
    break;
  case E_UDIV: if (isC(b)) { if (b->val == 1) return a; if (b->val && (b->val & (b->val - 1)) == 0) return mkE(E_LSHR, w, a, mkConst(w, __builtin_ctzll(b->val))); }
    if (a->hi < b->lo) return mkConst(w, 0); break;
  case E_UREM: if (isC(b) && b->val && (b->val & (b->val - 1)) == 0) { unsigned k = __builtin_ctzll(b->val); if (k == 0) return mkConst(w, 0); return mkZext(mkExtract(a, 0, k), w); }
    if (a->hi < b->lo) return a; break;
  case E_SDIV: case E_SREM: { u64 h = 1ULL << (w - 1); if (w > 1 && a->hi < h && b->hi < h && b->lo > 0) return mkE(op == E_SDIV ? E_UDIV : E_UREM, w, a, b); break; }
  case E_AND:
    if (w == 1) { Expr *r = relComb(true, a, b); if (r) return r; }
    if (a == b) return a;
    if (isC(b)) { if (b->val == 0) return b; if (b->val == maskw(w)) return a;
      if (a->op == E_AND && isC(a->b)) return mkE(E_AND, w, a->a, mkConst(w, a->b->val & b->val));
      u64 v = b->val; unsigned t = __builtin_ctzll(v); u64 s = v >> t;
      if ((s & (s + 1)) == 0) { unsigned n = __builtin_popcountll(s); // contiguous ones
        Expr *x = mkExtract(a, t, n); if (t) x = mkConcat(x, mkConst(t, 0)); return mkZext(x, w); }
      if (a->op == E_ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkConst(w, a->b->val & b->val), mkConst(w, a->c->val & b->val));
      if (a->op == E_ZEXT && (b->val >> a->a->w) == 0) return mkZext(mkE(E_AND, a->a->w, a->a, mkConst(a->a->w, b->val)), w);
      if (a->op == E_ZEXT) return mkZext(mkE(E_AND, a->a->w, a->a, mkConst(a->a->w, b->val)), w);
    }
    if (w == 1) { if (isNotE(a) && a->a == b) return mkConst(1, 0); if (isNotE(b) && b->a == a) return mkConst(1, 0);
      if (a->op == E_AND && (a->a == b || a->b == b)) return a; if (b->op == E_AND && (b->a == a || b->b == a)) return b; }
    if (a->op == E_ZEXT && b->op == E_ZEXT && a->a->w == b->a->w) return mkZext(mkE(E_AND, a->a->w, a->a, b->a), w);
    break;
  case E_OR:
    if (w == 1) { Expr *r = relComb(false, a, b); if (r) return r; }
    if (a == b) return a;
    if (isC(b)) { if (b->val == 0) return a; if (b->val == maskw(w)) return b;
      if (a->op == E_ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkConst(w, a->b->val | b->val), mkConst(w, a->c->val | b->val)); }
    if (w == 1) { if (isNotE(a) && a->a == b) return mkConst(1, 1); if (isNotE(b) && b->a == a) return mkConst(1, 1); 
      if (a->op == E_OR && (a->a == b || a->b == b)) return a; if (b->op == E_OR && (b->a == a || b->b == a)) return b; }
    else for (int k = 0; k < 2; k++) { // disjoint bit pieces -> concat
      Expr *x = k ? b : a, *y = k ? a : b; // x high part with tz, y low part
      unsigned t = x->tz; if (t > 0 && t < w && y->hi <= maskw(t)) return mkConcat(mkExtract(x, t, w - t), mkExtract(y, 0, t)); }
    if (a->op == E_ZEXT && b->op == E_ZEXT && a->a->w == b->a->w) return mkZext(mkE(E_OR, a->a->w, a->a, b->a), w);
    break;
  case E_XOR:
    if (a == b) return mkConst(w, 0);
    if (isC(b)) { if (b->val == 0) return a; if (a->op == E_XOR && isC(a->b)) return mkE(E_XOR, w, a->a, mkConst(w, a->b->val ^ b->val));
      if (w == 1) switch (a->op) { case E_ULT: return mkE(E_ULE, 1, a->b, a->a); case E_ULE: return mkE(E_ULT, 1, a->b, a->a);
        case E_SLT: return mkE(E_SLE, 1, a->b, a->a); case E_SLE: return mkE(E_SLT, 1, a->b, a->a); default: break; }
      if (a->op == E_ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkConst(w, a->b->val ^ b->val), mkConst(w, a->c->val ^ b->val));
      if (a->op == E_ZEXT && w > 1) { unsigned kw2 = a->a->w; if ((b->val >> kw2) == 0) return mkZext(mkE(E_XOR, kw2, a->a, mkConst(kw2, b->val)), w); } }
    if (a->op == E_ZEXT && b->op == E_ZEXT && a->a->w == b->a->w) return mkZext(mkE(E_XOR, a->a->w, a->a, b->a), w);
    break;
  case E_SHL: if (isC(b)) { if (b->val == 0) return a; if (b->val >= w) return mkConst(w, 0); return mkConcat(mkExtract(a, 0, w - b->val), mkConst(b->val, 0)); } break;
  case E_LSHR: if (isC(b)) { if (b->val == 0) return a; if (b->val >= w) return mkConst(w, 0); return mkZext(mkExtract(a, b->val, w - b->val), w); } break;
  case E_ASHR: if (isC(b)) { if (b->val == 0) return a; if (b->val >= w) return mkSext(mkExtract(a, w - 1, 1), w); return mkSext(mkExtract(a, b->val, w - b->val), w); } break;
  case E_EQ:
    if (a == b) return mkConst(1, 1);
    if (a->hi < b->lo || b->hi < a->lo) return mkConst(1, 0);
    if (isC(b)) {
      u64 v = b->val;
      if (kw == 1) return v ? a : mkNot(a);
      if (b->tz < a->tz && v != 0) return mkConst(1, 0);
      switch (a->op) {
      case E_ZEXT: if (v >> a->a->w) return mkConst(1, 0); return mkE(E_EQ, 1, a->a, mkConst(a->a->w, v));
      case E_SEXT: if (((u64)sextw(v, a->a->w) & maskw(kw)) != v) return mkConst(1, 0); return mkE(E_EQ, 1, a->a, mkConst(a->a->w, v));
      case E_ADD: if (isC(a->b)) return mkE(E_EQ, 1, a->a, mkConst(kw, v - a->b->val)); break;
      case E_SUB: if (v == 0) return mkE(E_EQ, 1, a->a, a->b); if (isC(a->a)) return mkE(E_EQ, 1, a->b, mkConst(kw, a->a->val - v)); break;
      case E_XOR: if (v == 0) return mkE(E_EQ, 1, a->a, a->b); if (isC(a->b)) return mkE(E_EQ, 1, a->a, mkConst(kw, a->b->val ^ v)); break;
      case E_CONCAT: return mkAnd1(mkE(E_EQ, 1, a->a, mkConst(a->a->w, v >> a->b->w)), mkE(E_EQ, 1, a->b, mkConst(a->b->w, v)));
      case E_ITE: if (isC(a->b) || isC(a->c)) return mkIte(a->a, mkE(E_EQ, 1, a->b, b), mkE(E_EQ, 1, a->c, b)); break;
      case E_OR: if (v == 0) return mkAnd1(mkE(E_EQ, 1, a->a, b), mkE(E_EQ, 1, a->b, b)); break;
      default: break;
      }
    } else {
      if (a->op == E_ZEXT && b->op == E_ZEXT && a->a->w == b->a->w) return mkE(E_EQ, 1, a->a, b->a);
      if (a->op == E_SEXT && b->op == E_SEXT && a->a->w == b->a->w) return mkE(E_EQ, 1, a->a, b->a);
      if (kw == 1) { if (isNotE(a) && isNotE(b)) return mkE(E_EQ, 1, a->a, b->a); if ((isNotE(a) && a->a == b) || (isNotE(b) && b->a == a)) return mkConst(1, 0); }
      if (a->op == E_ADD && b->op == E_ADD && isC(a->b) && a->b == b->b) return mkE(E_EQ, 1, a->a, b->a);
      if (a->op == E_ADD && isC(a->b) && a->a == b) return mkConst(1, 0);
      if (b->op == E_ADD && isC(b->b) && b->a == a) return mkConst(1, 0);
      if (a->op == E_ITE && (a->b == b)) return mkOr1(a->a, mkE(E_EQ, 1, a->c, b));
      if (a->op == E_ITE && (a->c == b)) return mkOr1(mkNot(a->a), mkE(E_EQ, 1, a->b, b));
      if (b->op == E_ITE && (b->b == a)) return mkOr1(b->a, mkE(E_EQ, 1, b->c, a));
      if (b->op == E_ITE && (b->c == a)) return mkOr1(mkNot(b->a), mkE(E_EQ, 1, b->b, a));
    }
    break;
  case E_ULT: case E_ULE:
    if (a == b) return mkConst(1, op == E_ULE);
    if (op == E_ULT) { if (a->hi < b->lo) return mkConst(1, 1); if (a->lo >= b->hi) return mkConst(1, 0); }
    else { if (a->hi <= b->lo) return mkConst(1, 1); if (a->lo > b->hi) return mkConst(1, 0); }
    if (kw == 1) return op == E_ULT ? mkAnd1(mkNot(a), b) : mkOr1(mkNot(a), b);
    if (op == E_ULE && isC(b) && b->val < maskw(kw)) return mkE(E_ULT, 1, a, mkConst(kw, b->val + 1));
    if (op == E_ULE && isC(a) && a->val > 0) return mkE(E_ULT, 1, mkConst(kw, a->val - 1), b);
    if (op == E_ULT && isC(b) && b->val == 1) return mkE(E_EQ, 1, a, mkConst(kw, 0));
    if (op == E_ULT && isC(a) && a->val == 0) return mkNot(mkE(E_EQ, 1, b, a));
    if (a->op == E_ZEXT && b->op == E_ZEXT && a->a->w == b->a->w) return mkE(op, 1, a->a, b->a);
    if (a->op == E_ZEXT && isC(b)) { if (b->val >> a->a->w) return mkConst(1, 1); return mkE(op, 1, a->a, mkConst(a->a->w, b->val)); }
    if (b->op == E_ZEXT && isC(a)) { if (a->val >> b->a->w) return mkConst(1, 0); return mkE(op, 1, mkConst(b->a->w, a->val), b->a); }
    if (a->op == E_ITE && isC(b) && (isC(a->b) || isC(a->c))) return mkIte(a->a, mkE(op, 1, a->b, b), mkE(op, 1, a->c, b));
    if (b->op == E_ITE && isC(a) && (isC(b->b) || isC(b->c))) return mkIte(b->a, mkE(op, 1, a, b->b), mkE(op, 1, a, b->c));
    break;
  case E_SLT: case E_SLE: {
    if (a == b) return mkConst(1, op == E_SLE);
    if (kw == 1) return op == E_SLT ? mkAnd1(a, mkNot(b)) : mkOr1(a, mkNot(b));
    u64 h = 1ULL << (kw - 1); EOp uo = op == E_SLT ? E_ULT : E_ULE;
    bool ap = a->hi < h, bp = b->hi < h, an = a->lo >= h, bn = b->lo >= h;
    if ((ap && bp) || (an && bn)) return mkE(uo, 1, a, b);
    if (ap && bn) return mkConst(1, 0); if (an && bp) return mkConst(1, 1);
    if (isC(b) && b->val == 0 && op == E_SLT) { if (a->op != E_ITE && !(a->op==E_SUB)) return mkExtract(a, kw - 1, 1); }
    if (a->op == E_SEXT && b->op == E_SEXT && a->a->w == b->a->w) return mkE(op, 1, a->a, b->a);
    if (a->op == E_SEXT && isC(b) && ((u64)sextw(b->val, a->a->w) & maskw(kw)) == b->val) return mkE(op, 1, a->a, mkConst(a->a->w, b->val));
    if (b->op == E_SEXT && isC(a) && ((u64)sextw(a->val, b->a->w) & maskw(kw)) == a->val) return mkE(op, 1, mkConst(b->a->w, a->val), b->a);
    if (a->op == E_ITE && isC(b) && (isC(a->b) || isC(a->c))) return mkIte(a->a, mkE(op, 1, a->b, b), mkE(op, 1, a->c, b));
    if (b->op == E_ITE && isC(a) && (isC(b->b) || isC(b->c))) return mkIte(b->a, mkE(op, 1, a, b->b), mkE(op, 1, a, b->c));
    break; }
  default: break;
  }
  return intern(op, ow, 0, a, b, nullptr);
}
u64 evalE(Expr *e, const Model &m) {
  if (e->op == E_CONST) return e->val;
  if (e->evTag == m.tag) return e->evVal;
  u64 r;
  switch (e->op) {
  case E_VAR: r = e->val < m.v.size() ? m.v[e->val] & maskw(e->w) : 0; break;
  case E_EXTRACT: r = (evalE(e->a, m) >> e->val) & maskw(e->w); break;
  case E_ZEXT: r = evalE(e->a, m); break;
  case E_SEXT: r = (u64)sextw(evalE(e->a, m), e->a->w) & maskw(e->w); break;
  case E_CONCAT: r = (evalE(e->a, m) << e->b->w) | evalE(e->b, m); break;
  case E_ITE: r = evalE(e->a, m) ? evalE(e->b, m) : evalE(e->c, m); break;
  default: r = foldBin(e->op, e->a->w, evalE(e->a, m), evalE(e->b, m));
  }
  e->evTag = m.tag; e->evVal = r; return r;
}
static const char *opn[] = {"const", "var", "+", "-", "*", "/u", "/s", "%u", "%s", "&", "|", "^", "<<", ">>u", ">>s", "==", "<u", "<=u", "<s", "<=s", "++", "extract", "zext", "sext", "ite"};
std::string exprStr(Expr *e, int d) {
  char buf[64]; if (e->op == E_CONST) { snprintf(buf, 64, "0x%llx", (unsigned long long)e->val); return buf; }
  if (e->op == E_VAR) { snprintf(buf, 64, "v%llu:%d", (unsigned long long)e->val, e->w); return buf; }
  if (!d) return "...";
  std::string s = "("; s += opn[e->op]; if (e->op == E_EXTRACT) { snprintf(buf, 64, "[%llu+%d]", (unsigned long long)e->val, e->w); s += buf; }
  for (Expr *k : {e->a, e->b, e->c}) if (k) { s += " "; s += exprStr(k, d - 1); } return s + ")";
}

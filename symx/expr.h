// Hash-consed bit-vector expressions (width 1..64) with local simplification.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <unordered_map>
#include <string>
#include <memory>
#include <algorithm>
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
typedef int32_t i32; typedef int64_t i64;

static inline u64 maskw(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static inline i64 sextw(u64 v, unsigned w) { if (w >= 64) return (i64)v; u64 m = 1ULL << (w - 1); v &= maskw(w); return (i64)((v ^ m) - m); }

enum EOp : u8 { E_CONST, E_VAR, E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_AND, E_OR, E_XOR,
  E_SHL, E_LSHR, E_ASHR, E_EQ, E_ULT, E_ULE, E_SLT, E_SLE, E_CONCAT, E_EXTRACT, E_ZEXT, E_SEXT, E_ITE };

struct VarSet { std::vector<u64> bits; u32 id;
  bool has(u32 v) const { return v / 64 < bits.size() && (bits[v / 64] >> (v % 64) & 1); } };

struct Expr {
  EOp op; u8 w; u16 depth; u32 id;
  u64 val;            // CONST value, VAR id, EXTRACT low bit
  Expr *a, *b, *c;
  u64 lo, hi;         // unsigned interval
  u8 tz;              // known trailing zero bits
  const VarSet *vs;
  void *z;            // Z3 ast (bool for w==1)
  void *zbv;          // unused
  u64 evTag, evVal; u64 kTag; bool kRes; u64 sTag; Expr *sRes;
};

struct Val { Expr *e; u64 c; };
static inline Val VC(u64 c) { return Val{nullptr, c}; }

Expr *mkConst(unsigned w, u64 v);
Expr *mkVar(unsigned w, u32 id);
Expr *mkE(EOp op, unsigned w, Expr *a, Expr *b);
Expr *mkExtract(Expr *a, unsigned low, unsigned w);
Expr *mkZext(Expr *a, unsigned w);
Expr *mkSext(Expr *a, unsigned w);
Expr *mkConcat(Expr *hi, Expr *lo);
Expr *mkIte(Expr *c, Expr *a, Expr *b);
static inline Expr *mkNot(Expr *a) { return mkE(E_XOR, 1, a, mkConst(1, 1)); }
static inline Expr *mkAnd1(Expr *a, Expr *b) { return mkE(E_AND, 1, a, b); }
static inline Expr *mkOr1(Expr *a, Expr *b) { return mkE(E_OR, 1, a, b); }
static inline bool isC(Expr *e) { return e->op == E_CONST; }
static inline Expr *toE(Val v, unsigned w) { return v.e ? v.e : mkConst(w, v.c); }
static inline Val toV(Expr *e) { return e->op == E_CONST ? Val{nullptr, e->val} : Val{e, 0}; }
u64 foldBin(EOp op, unsigned w, u64 x, u64 y);
extern u64 g_exprCount;
const VarSet *vsUnion(const VarSet *a, const VarSet *b);
extern const VarSet *vsEmpty;
std::string exprStr(Expr *e, int depth = 6);

struct Model { u64 tag; std::vector<u64> v; };
typedef std::shared_ptr<Model> ModelP;
u64 evalE(Expr *e, const Model &m);

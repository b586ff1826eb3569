#include "solver.h"
#include <chrono>
#include <map>
Solver g_solver;
static Z3_context ctx; static Z3_solver slv; static u64 rlim;
static u64 modelTag = 0;
ModelP newModel(const ModelP &b) { ModelP m = std::make_shared<Model>(); if (b) m->v = b->v; m->tag = ++modelTag; return m; }
struct Cached { Res r; std::vector<std::pair<u32, u64>> m; };
struct VH { size_t operator()(const std::vector<u32> &v) const { u64 h = 1469598103934665603ULL; for (u32 x : v) { h ^= x; h *= 1099511628211ULL; } return h; } };
static std::unordered_map<std::vector<u32>, Cached, VH> cache;
static std::unordered_map<u32, std::pair<Z3_ast, unsigned>> varAst;
static u64 solverUses = 0; static Z3_solver slv2;
static void mkSolver() {
  if (slv) Z3_solver_dec_ref(ctx, slv);
  const char *lg = getenv("SYMX_LOGIC"); if (!lg) lg = "simple";
  if (!strcmp(lg, "simple")) slv = Z3_mk_simple_solver(ctx); else slv = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, lg));
  Z3_solver_inc_ref(ctx, slv);
  if (rlim) { Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p); Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "rlimit"), (unsigned)rlim); Z3_solver_set_params(ctx, slv, p); Z3_params_dec_ref(ctx, p); }
}
static std::unordered_map<u32, Z3_ast> lits; // constraint id -> assumption literal (mode inc)
static bool incMode;
void Solver::init(u64 rl) {
  rlim = rl; Z3_config c = Z3_mk_config(); ctx = Z3_mk_context(c); Z3_del_config(c); Z3_set_error_handler(ctx, nullptr);
  incMode = !getenv("SYMX_FRESH"); mkSolver();
}
static Z3_ast toBV(Expr *e);
static Z3_ast toB(Expr *e) { // bool
  if (e->z) return (Z3_ast)e->z;
  Z3_ast r;
  switch (e->op) {
  case E_CONST: r = e->val ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
  case E_VAR: { char b[32]; snprintf(b, 32, "b%u", (u32)e->val); r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, b), Z3_mk_bool_sort(ctx)); varAst[e->val] = {r, 1}; break; }
  case E_AND: { Z3_ast x[2] = {toB(e->a), toB(e->b)}; r = Z3_mk_and(ctx, 2, x); break; }
  case E_OR: { Z3_ast x[2] = {toB(e->a), toB(e->b)}; r = Z3_mk_or(ctx, 2, x); break; }
  case E_XOR: if (isC(e->b) && e->b->val) r = Z3_mk_not(ctx, toB(e->a)); else r = Z3_mk_xor(ctx, toB(e->a), toB(e->b)); break;
  case E_EQ: if (e->a->w == 1) r = Z3_mk_iff(ctx, toB(e->a), toB(e->b)); else r = Z3_mk_eq(ctx, toBV(e->a), toBV(e->b)); break;
  case E_ULT: r = Z3_mk_bvult(ctx, toBV(e->a), toBV(e->b)); break;
  case E_ULE: r = Z3_mk_bvule(ctx, toBV(e->a), toBV(e->b)); break;
  case E_SLT: r = Z3_mk_bvslt(ctx, toBV(e->a), toBV(e->b)); break;
  case E_SLE: r = Z3_mk_bvsle(ctx, toBV(e->a), toBV(e->b)); break;
  case E_ITE: r = Z3_mk_ite(ctx, toB(e->a), toB(e->b), toB(e->c)); break;
  case E_EXTRACT: { Z3_ast x = Z3_mk_extract(ctx, e->val, e->val, toBV(e->a)); r = Z3_mk_eq(ctx, x, Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1))); break; }
  default: fprintf(stderr, "toB op %d\n", e->op); abort();
  }
  e->z = r; return r;
}
static Z3_ast b2bv(Z3_ast b) { Z3_sort s = Z3_mk_bv_sort(ctx, 1); return Z3_mk_ite(ctx, b, Z3_mk_unsigned_int64(ctx, 1, s), Z3_mk_unsigned_int64(ctx, 0, s)); }
static Z3_ast toBV(Expr *e) {
  if (e->w == 1) { if (!e->zbv) e->zbv = b2bv(toB(e)); return (Z3_ast)e->zbv; }
  if (e->z) return (Z3_ast)e->z;
  Z3_ast r;
  switch (e->op) {
  case E_CONST: r = Z3_mk_unsigned_int64(ctx, e->val, Z3_mk_bv_sort(ctx, e->w)); break;
  case E_VAR: { char b[32]; snprintf(b, 32, "v%u", (u32)e->val); r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, b), Z3_mk_bv_sort(ctx, e->w)); varAst[e->val] = {r, e->w}; break; }
#define B(o, f) case o: r = f(ctx, toBV(e->a), toBV(e->b)); break;
  B(E_ADD, Z3_mk_bvadd) B(E_SUB, Z3_mk_bvsub) B(E_MUL, Z3_mk_bvmul) B(E_UDIV, Z3_mk_bvudiv) B(E_SDIV, Z3_mk_bvsdiv) B(E_UREM, Z3_mk_bvurem) B(E_SREM, Z3_mk_bvsrem)
  B(E_AND, Z3_mk_bvand) B(E_OR, Z3_mk_bvor) B(E_XOR, Z3_mk_bvxor) B(E_SHL, Z3_mk_bvshl) B(E_LSHR, Z3_mk_bvlshr) B(E_ASHR, Z3_mk_bvashr) B(E_CONCAT, Z3_mk_concat)
  case E_EXTRACT: r = Z3_mk_extract(ctx, e->val + e->w - 1, e->val, toBV(e->a)); break;
  case E_ZEXT: if (e->a->w == 1) { Z3_sort s = Z3_mk_bv_sort(ctx, e->w); r = Z3_mk_ite(ctx, toB(e->a), Z3_mk_unsigned_int64(ctx, 1, s), Z3_mk_unsigned_int64(ctx, 0, s)); } else r = Z3_mk_zero_ext(ctx, e->w - e->a->w, toBV(e->a)); break;
  case E_SEXT: r = Z3_mk_sign_ext(ctx, e->w - e->a->w, toBV(e->a)); break;
  case E_ITE: r = Z3_mk_ite(ctx, toB(e->a), toBV(e->b), toBV(e->c)); break;
  default: fprintf(stderr, "toBV op %d\n", e->op); abort();
  }
  e->z = r; return r;
}
static bool inter(const std::vector<u64> &a, const std::vector<u64> &b) { size_t n = std::min(a.size(), b.size()); for (size_t i = 0; i < n; i++) if (a[i] & b[i]) return true; return false; }
// Order reasoning over opaque terms: decides queries of the form a<b, a<=b, a=b and their negations when they contradict
// the comparisons among the path conditions by transitivity alone.  Only ever answers "unsatisfiable".
struct Ord { Expr *a, *b; int k; }; // k: 0 a<b, 1 a<=b, 2 a=b, 3 a!=b
static bool ordOf(Expr *e, Ord &o) {
  bool neg = false; while (e->op == E_XOR && e->w == 1 && isC(e->b) && e->b->val) { neg = !neg; e = e->a; }
  if (e->op == E_ULT) o = neg ? Ord{e->b, e->a, 1} : Ord{e->a, e->b, 0}; else if (e->op == E_ULE) o = neg ? Ord{e->b, e->a, 0} : Ord{e->a, e->b, 1}; else if (e->op == E_EQ && e->a->w > 1) o = Ord{e->a, e->b, neg ? 3 : 2}; else return false;
  return true;
}
static Ord ordNot(const Ord &o) { return o.k == 0 ? Ord{o.b, o.a, 1} : o.k == 1 ? Ord{o.b, o.a, 0} : Ord{o.a, o.b, o.k == 2 ? 3 : 2}; }
struct OrdG {
  std::unordered_map<Expr *, int> id; std::vector<Expr *> nodes; std::vector<Ord> os;
  int node(Expr *e) { auto f = id.emplace(e, (int)nodes.size()); if (f.second) nodes.push_back(e); return f.first->second; }
  std::vector<std::vector<std::pair<int, bool>>> adj; std::vector<std::pair<int, int>> ne;
  bool isne(int x, int y) const { for (auto &p : ne) if ((p.first == x && p.second == y) || (p.first == y && p.second == x)) return true; return false; }
  void build() { // needs all nodes
    if (!nodes.empty()) { unsigned w = nodes[0]->w; node(mkConst(w, 0)); node(mkConst(w, maskw(w))); }
    size_t n = nodes.size(); adj.assign(n, {}); ne.clear(); for (auto &o : os) if (o.k == 3) ne.push_back({at(o.a), at(o.b)});
    for (auto &o : os) { int x = at(o.a), y = at(o.b); if (o.k == 0) adj[x].push_back({y, true}); else if (o.k == 1) adj[x].push_back({y, isne(x, y)}); else if (o.k == 2) { adj[x].push_back({y, false}); adj[y].push_back({x, false}); } }
    if (n) { int z = id[mkConst(nodes[0]->w, 0)], m = id[mkConst(nodes[0]->w, maskw(nodes[0]->w))]; for (size_t i = 0; i < n; i++) if (!isC(nodes[i])) { adj[z].push_back({(int)i, isne(z, i)}); adj[i].push_back({m, isne(m, i)}); } }
    std::vector<int> cs; for (size_t i = 0; i < n; i++) if (isC(nodes[i])) cs.push_back(i); std::sort(cs.begin(), cs.end(), [&](int x, int y) { return nodes[x]->val < nodes[y]->val; }); for (size_t i = 1; i < cs.size(); i++) adj[cs[i - 1]].push_back({cs[i], true}); }
  int at(Expr *e) const { auto f = id.find(e); if (f == id.end()) { fprintf(stderr, "symx: order term without a node\n"); abort(); } return f->second; }
  int reach(int s, int t) const { // 0 no, 1 s<=t, 2 s<t
    std::vector<char> d(nodes.size(), 0); std::vector<int> st{s}; d[s] = 1; while (!st.empty()) { int x = st.back(); st.pop_back(); for (auto &e : adj[x]) { char v = e.second ? 2 : d[x]; if (v > d[e.first]) { d[e.first] = v; st.push_back(e.first); } } } return (int)d[t]; }
  bool contra(const Ord &Q) { int a = at(Q.a), b = at(Q.b);
    switch (Q.k) {
    case 0: return reach(b, a) >= 1;
    case 1: { int r = reach(b, a); return r == 2 || (r == 1 && isne(a, b)); }
    case 2: { if (isne(a, b)) return true; if (reach(a, b) == 2 || reach(b, a) == 2) return true; for (auto &o : ne) { int x = o.first, y = o.second; auto eq = [&](int u, int v) { return u == v || (reach(u, v) == 1 && reach(v, u) == 1); }; if ((eq(x, a) && eq(y, b)) || (eq(x, b) && eq(y, a))) return true; } return false; }
    default: return reach(a, b) == 1 && reach(b, a) == 1; } }
};
static bool ordAtom(Expr *e) { return e->w == 1 && (e->op == E_ULT || e->op == E_ULE || (e->op == E_EQ && e->a->w > 1)) && e->a->w >= 16; }
// atoms of a condition: comparisons that are opaque for the order reasoning; false when it has other inputs
static bool atomsOf(Expr *e, std::vector<Expr *> &at, int d = 0) {
  if (isC(e)) return true; if (d > 14 || at.size() > 8) return false;
  if (ordAtom(e)) { bool data = true; for (Expr *x : {e->a, e->b}) { while (x->op == E_ADD || x->op == E_MUL || x->op == E_SUB || x->op == E_SEXT || x->op == E_ZEXT || x->op == E_EXTRACT) x = x->a; if (x->op == E_ITE || x->w == 1) data = false; } if (data) { if (std::find(at.begin(), at.end(), e) == at.end()) at.push_back(e); return true; } }
  if (e->op == E_VAR) return false; if (e->op == E_CONCAT || e->op == E_UDIV || e->op == E_UREM) return false;
  return atomsOf(e->a, at, d + 1) && (!e->b || atomsOf(e->b, at, d + 1)) && (!e->c || atomsOf(e->c, at, d + 1)); }
static u64 evalAt(Expr *e, const std::vector<Expr *> &at, u64 tv) {
  if (isC(e)) return e->val; for (size_t i = 0; i < at.size(); i++) if (at[i] == e) return tv >> i & 1;
  switch (e->op) { case E_ITE: return evalAt(e->a, at, tv) ? evalAt(e->b, at, tv) : evalAt(e->c, at, tv);
  case E_ZEXT: return evalAt(e->a, at, tv); case E_SEXT: return (u64)sextw(evalAt(e->a, at, tv), e->a->w) & maskw(e->w); case E_EXTRACT: return (evalAt(e->a, at, tv) >> e->val) & maskw(e->w);
  default: return foldBin(e->op, e->op >= E_EQ && e->op <= E_SLE ? e->a->w : e->w, evalAt(e->a, at, tv), evalAt(e->b, at, tv)); } }
static bool orderUnsat(const std::vector<Expr *> &sl, Expr *q) {
  std::vector<Expr *> at; if (!atomsOf(q, at) || at.empty() || at.size() > 6) return false;
  unsigned W = at[0]->a->w; for (Expr *e : at) if (e->a->w != W) return false;
  OrdG g; std::vector<Ord> qa; std::vector<Expr *> w; for (Expr *e : at) { Ord o; if (!ordOf(e, o)) return false; g.node(o.a); g.node(o.b); }
  for (Expr *e : sl) w.push_back(e); for (size_t i = 0; i < w.size(); i++) { Expr *e = w[i]; Ord o; if (ordOf(e, o)) { if (o.a->w == W) { g.node(o.a); g.node(o.b); g.os.push_back(o); } } else if (e->op == E_AND && e->w == 1) { w.push_back(e->a); w.push_back(e->b); } }
  if (g.os.empty()) return false; g.build(); size_t n0 = g.os.size(); bool dirty = false;
  std::vector<signed char> force(at.size(), -1);
  for (size_t i = 0; i < at.size(); i++) { Ord o; ordOf(at[i], o); Ord no = ordNot(o); if (g.contra(o)) force[i] = 0; else if (g.contra(no)) force[i] = 1; }
  for (u64 tv = 0; tv < (1ULL << at.size()); tv++) { bool skip = false; for (size_t i = 0; i < at.size(); i++) if (force[i] >= 0 && force[i] != (int)(tv >> i & 1)) { skip = true; break; } if (skip) continue;
    if (!evalAt(q, at, tv)) continue;
    // q holds under tv: contradiction with the path?
    if (at.size() == 1) return false; g.os.resize(n0); bool bad = false; g.build();
    for (size_t i = 0; i < at.size() && !bad; i++) { Ord o; ordOf(at[i], o); if (!(tv >> i & 1)) o = ordNot(o); if (g.contra(o)) { bad = true; break; } g.os.push_back(o); g.build(); }
    if (!bad) return false; }
  return true;
}
// model construction for conjunctions of order constraints over variables and constants (checked by evaluation)
static bool orderSat(const std::vector<Expr *> &sl, Expr *q, std::vector<std::pair<u32, u64>> &out, const ModelP &base) {
  OrdG g; unsigned W = 0; std::vector<Expr *> w{q}; for (Expr *e : sl) w.push_back(e);
  for (size_t i = 0; i < w.size(); i++) { Expr *e = w[i]; Ord o; if (ordOf(e, o)) { if (!W) W = o.a->w; if (o.a->w != W || (o.a->op != E_VAR && !isC(o.a)) || (o.b->op != E_VAR && !isC(o.b))) return false; g.node(o.a); g.node(o.b); g.os.push_back(o); } else if (e->op == E_AND && e->w == 1) { w.push_back(e->a); w.push_back(e->b); } else { if (getenv("SYMX_OSAT")) fprintf(stderr, "OSAT %s\n", exprStr(e, 12).c_str()); return false; } }
  g.build(); size_t n = g.nodes.size(); if (n > 64) return false; std::vector<u64> val(n); u64 mx = maskw(W);
  for (size_t i = 0; i < n; i++) val[i] = isC(g.nodes[i]) ? g.nodes[i]->val : 0;
  for (size_t round = 0; round < 4 * n + 8; round++) { bool ch = false;
    for (size_t x = 0; x < n; x++) for (auto &e : g.adj[x]) { u64 need = val[x]; if (e.second) { if (need == mx) return false; need++; } if (val[e.first] < need) { if (isC(g.nodes[e.first])) return false; val[e.first] = need; ch = true; } }
    if (!ch) { for (auto &p : g.ne) if (val[p.first] == val[p.second]) { int x = isC(g.nodes[p.first]) ? p.second : p.first; if (isC(g.nodes[x]) || val[x] == mx) return false; val[x]++; ch = true; break; } }
    if (!ch) { for (size_t i = 0; i < n; i++) if (!isC(g.nodes[i])) out.push_back({(u32)g.nodes[i]->val, val[i]}); 
      ModelP m = newModel(base); for (auto &p : out) { if (p.first >= m->v.size()) m->v.resize(p.first + 1); m->v[p.first] = p.second; } for (Expr *e : w) if (!evalE(e, *m)) { out.clear(); return false; } return true; } }
  return false;
}
std::string (*g_where)() = nullptr;
Res Solver::check(const std::vector<Expr *> &pcs, Expr *q, const ModelP &base, ModelP &out) {
  if (isC(q)) { if (q->val) { out = base; return R_SAT; } return R_UNSAT; }
  // slice
  std::vector<u64> S = q->vs->bits; std::vector<Expr *> sl; std::vector<char> in(pcs.size(), 0);
  for (bool ch = true; ch;) { ch = false;
    for (size_t i = 0; i < pcs.size(); i++) if (!in[i] && inter(pcs[i]->vs->bits, S)) { in[i] = 1; sl.push_back(pcs[i]); const auto &b = pcs[i]->vs->bits;
      if (b.size() > S.size()) S.resize(b.size()); for (size_t k = 0; k < b.size(); k++) if (b[k] & ~S[k]) { S[k] |= b[k]; ch = true; } } }
  std::vector<u32> key; for (Expr *e : sl) key.push_back(e->id); std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end()); key.push_back(q->id);
  auto it = cache.find(key);
  static bool noOrd = getenv("SYMX_NOORD") != nullptr;
  static bool chkOrd = getenv("SYMX_CHKORD") != nullptr; // check every verdict of the order procedure against the solver; otherwise one in 64, within a small budget
  static u64 nOrd = 0;
  if (it == cache.end() && !noOrd && orderUnsat(sl, q)) { Cached c;
    if (nOrd++ % 64 == 0 || chkOrd) { Z3_solver z = Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx, z); Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p); Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "rlimit"), chkOrd ? 4000000 : 200000); Z3_solver_set_params(ctx, z, p); Z3_params_dec_ref(ctx, p);
      for (Expr *e : sl) Z3_solver_assert(ctx, z, toB(e)); Z3_solver_assert(ctx, z, toB(q)); Z3_lbool r = Z3_solver_check(ctx, z); Z3_solver_dec_ref(ctx, z);
      if (r == Z3_L_TRUE) { fprintf(stderr, "symx: the order procedure is wrong about %s\n", exprStr(q, 12).c_str()); abort(); } } c.r = R_UNSAT; st.order++; it = cache.emplace(std::move(key), std::move(c)).first; return R_UNSAT; }
  if (it == cache.end() && !noOrd) { Cached c; if (orderSat(sl, q, c.m, base)) { c.r = R_SAT; st.orderSat++; it = cache.emplace(std::move(key), std::move(c)).first; } }
  if (it == cache.end()) {
    auto t0 = std::chrono::steady_clock::now();
    st.queries++; Z3_lbool r; Cached c;
    if (++solverUses % 20000 == 0) { mkSolver(); lits.clear(); }
    if (incMode) {
      std::vector<Z3_ast> as; auto lit = [&](Expr *e) { auto f = lits.find(e->id); if (f != lits.end()) return f->second;
        char b[32]; snprintf(b, 32, "L%u", e->id); Z3_ast l = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, b), Z3_mk_bool_sort(ctx));
        Z3_solver_assert(ctx, slv, Z3_mk_implies(ctx, l, toB(e))); lits[e->id] = l; return l; };
      for (Expr *e : sl) as.push_back(lit(e)); as.push_back(lit(q));
      r = Z3_solver_check_assumptions(ctx, slv, as.size(), as.data());
    } else { Z3_solver_reset(ctx, slv); for (Expr *e : sl) Z3_solver_assert(ctx, slv, toB(e)); Z3_solver_assert(ctx, slv, toB(q)); r = Z3_solver_check(ctx, slv); }
    Z3_solver from = slv;
    if (r == Z3_L_UNDEF) { // second attempt: fresh solver with full preprocessing and a larger budget
      if (!slv2) { slv2 = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV")); Z3_solver_inc_ref(ctx, slv2); if (rlim) { Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p); Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "rlimit"), (unsigned)std::min<u64>(rlim * 8, 4000000000ull)); Z3_solver_set_params(ctx, slv2, p); Z3_params_dec_ref(ctx, p); } }
      Z3_solver_reset(ctx, slv2); for (Expr *e : sl) Z3_solver_assert(ctx, slv2, toB(e)); Z3_solver_assert(ctx, slv2, toB(q)); r = Z3_solver_check(ctx, slv2); from = slv2; st.retries++; }
    if (r == Z3_L_TRUE) { c.r = R_SAT; Z3_model m = Z3_solver_get_model(ctx, from); Z3_model_inc_ref(ctx, m);
      for (size_t k = 0; k < S.size(); k++) for (u64 b = S[k]; b; b &= b - 1) { u32 v = k * 64 + __builtin_ctzll(b); auto f = varAst.find(v); if (f == varAst.end()) continue;
          Z3_ast o; u64 val = 0; if (Z3_model_eval(ctx, m, f->second.first, true, &o)) { if (f->second.second == 1) val = Z3_get_bool_value(ctx, o) == Z3_L_TRUE; else Z3_get_numeral_uint64(ctx, o, &val); }
          c.m.push_back({v, val}); }
      Z3_model_dec_ref(ctx, m); st.sat++; }
    else if (r == Z3_L_FALSE) { c.r = R_UNSAT; st.unsat++; }
    else { c.r = R_UNK; st.unk++; }
    u64 us = std::chrono::duration_cast<std::chrono::microseconds>(std::chrono::steady_clock::now() - t0).count(); st.usec += us; { static const char *pq = getenv("SYMX_PROFQ"); if (pq && g_where) fprintf(stderr, "PQ %d %llu %s\n", (int)r, (unsigned long long)us, g_where().c_str()); } if (us > 100000 && lits.size() > 2 * sl.size() + 8) { mkSolver(); lits.clear(); } if (us > st.maxUsec) st.maxUsec = us; static const char *slowEnv = getenv("SYMX_SLOW"); if (slowEnv && us > 1000 * (u64)atoi(slowEnv)) fprintf(stderr, "SLOW %.1fs r=%d npc=%zu %s\n", us / 1e6, (int)r, sl.size(), exprStr(q, 12).c_str());
    if (c.r == R_SAT) { // self-check the model against the slice
      ModelP m = newModel(base); for (auto &p : c.m) { if (p.first >= m->v.size()) m->v.resize(p.first + 1); m->v[p.first] = p.second; }
      bool ok = evalE(q, *m); for (Expr *e : sl) ok = ok && evalE(e, *m);
      if (!ok) { fprintf(stderr, "symx: solver model fails self-check\n"); c.r = R_UNK; st.unk++; } }
    it = cache.emplace(std::move(key), std::move(c)).first;
  } else st.cacheHits++;
  const Cached &c = it->second;
  if (c.r == R_SAT) { out = newModel(base); for (auto &p : c.m) { if (p.first >= out->v.size()) out->v.resize(p.first + 1); out->v[p.first] = p.second; } }
  return c.r;
}

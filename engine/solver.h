// Z3 layer: slicing, caching, model extraction.
#pragma once
#include "expr.h"
#include <z3.h>
#include <bitset>
#include <chrono>
#include <map>
#include <memory>

struct Model {
  std::unordered_map<u32, u128> v;         // symbol -> value (absent = 0)
  std::unordered_map<const Expr*, u128> memo;
};
using ModelP = std::shared_ptr<Model>;

inline u128 evalIn(const Expr* root, Model& m) {
  if (root->k == K_Const) return root->c;
  auto it = m.memo.find(root); if (it != m.memo.end()) return it->second;
  std::vector<const Expr*> st{root}; std::vector<u128> vals;
  while (!st.empty()) {
    const Expr* e = st.back();
    if (m.memo.count(e)) { st.pop_back(); continue; }
    if (e->k == K_Const) { m.memo[e] = e->c; st.pop_back(); continue; }
    if (e->k == K_Sym) { auto s = m.v.find(e->lo); m.memo[e] = s == m.v.end() ? 0 : s->second & maskw(e->w); st.pop_back(); continue; }
    if (e->k == K_Ite) { // lazy
      auto c = m.memo.find(e->ops[0]); if (c == m.memo.end()) { st.push_back(e->ops[0]); continue; }
      const Expr* t = c->second ? e->ops[1] : e->ops[2]; auto x = m.memo.find(t); if (x == m.memo.end()) { st.push_back(t); continue; }
      u128 xv = x->second; m.memo[e] = xv; st.pop_back(); continue; }
    bool ready = true; for (u32 i = 0; i < e->n; i++) if (!m.memo.count(e->ops[i])) { st.push_back(e->ops[i]); ready = false; }
    if (!ready) continue;
    vals.clear(); for (u32 i = 0; i < e->n; i++) vals.push_back(m.memo[e->ops[i]]);
    m.memo[e] = evalNode(e, vals.data()); st.pop_back();
  }
  return m.memo[root];
}

enum Sat { UNSAT, SAT, UNKNOWN };

using Set256 = std::bitset<256>;
// Conditions over one symbol of at most 8 bits: exact value sets and a canonical interval form.
struct ByteSets {
  Pool& P; std::unordered_map<const Expr*, Set256> sets; std::unordered_map<const Expr*, std::vector<u64>> tabs; std::unordered_map<const Expr*, Expr*> canonMemo;
  ByteSets(Pool& p) : P(p) {}
  bool is(const Expr* e) { return e->ss->v.size() == 1 && P.syms[e->ss->v[0]].w <= 8 && P.syms[e->ss->v[0]].w > 1 && !P.syms[e->ss->v[0]].undef; }
  u32 symOf(const Expr* e) { return e->ss->v[0]; }
  bool narrow(const Expr* e) { return e->w <= 64; }
  const std::vector<u64>* table(const Expr* root) {
    auto it = tabs.find(root); if (it != tabs.end()) return it->second.empty() ? nullptr : &it->second;
    std::vector<const Expr*> st{root}; unsigned N = 1u << P.syms[root->ss->v[0]].w; bool bad = false;
    while (!st.empty() && !bad) { const Expr* e = st.back(); if (tabs.count(e)) { if (tabs[e].empty()) bad = true; st.pop_back(); continue; }
      if (!narrow(e)) { bad = true; break; }
      if (e->k == K_Const) { tabs[e] = std::vector<u64>(N, (u64)e->c); st.pop_back(); continue; }
      if (e->k == K_Sym) { std::vector<u64> t(N); for (unsigned i = 0; i < N; i++) t[i] = i; tabs[e] = std::move(t); st.pop_back(); continue; }
      bool ready = true; for (u32 i = 0; i < e->n; i++) { const Expr* o = e->ops[i]; if (o->k == K_Const) continue; if (!tabs.count(o)) { st.push_back(o); ready = false; } else if (tabs[o].empty()) bad = true; }
      if (bad) break; if (!ready) continue;
      std::vector<const std::vector<u64>*> ot(e->n, nullptr); for (u32 i = 0; i < e->n; i++) if (e->ops[i]->k != K_Const) ot[i] = &tabs[e->ops[i]];
      std::vector<u64> t(N); std::vector<u128> v(e->n); for (unsigned x = 0; x < N; x++) { for (u32 i = 0; i < e->n; i++) v[i] = ot[i] ? (u128)(*ot[i])[x] : e->ops[i]->c; t[x] = (u64)evalNode(e, v.data()); }
      tabs[e] = std::move(t); st.pop_back(); }
    if (bad) { tabs[root] = {}; return nullptr; }
    return &tabs[root];
  }
  const Set256* set(const Expr* e) { // e: 1 bit, is(e)
    auto it = sets.find(e); if (it != sets.end()) return it->second.none() && !tabs.count(e) ? nullptr : &it->second;
    auto* t = table(e); if (!t) return nullptr; Set256 s; for (size_t i = 0; i < t->size(); i++) if ((*t)[i]) s.set(i); return &(sets[e] = s);
  }
  Expr* fromSet(u32 sy, const Set256& s, unsigned N) { Expr* x = P.raw(K_Sym, P.syms[sy].w, sy, 0, nullptr, 0); unsigned w = x->w; size_t cnt = s.count();
    if (cnt == 0) return P.fls(); if (cnt == N) return P.tru();
    if (cnt * 2 > N) { Set256 t; for (unsigned i = 0; i < N; i++) if (!s[i]) t.set(i); return P.bnot(fromSet(sy, t, N)); }
    std::vector<Expr*> parts; for (unsigned i = 0; i < N;) { if (!s[i]) { i++; continue; } unsigned j = i; while (j + 1 < N && s[j + 1]) j++;
      Expr* p = i == j ? P.eq(x, P.cst(w, i)) : i == 0 ? P.cmp(K_Ule, x, P.cst(w, j)) : j == N - 1 ? P.cmp(K_Ule, P.cst(w, i), x) : P.band(P.cmp(K_Ule, P.cst(w, i), x), P.cmp(K_Ule, x, P.cst(w, j))); parts.push_back(p); i = j + 1; }
    Expr* r = P.fls(); for (auto* p : parts) r = P.bor(r, p); return r; }
  Expr* canon(Expr* e) {
    if (e->w != 1 || e->k == K_Const || e->k == K_Sym) return e;
    auto it = canonMemo.find(e); if (it != canonMemo.end()) return it->second; Expr* r = e;
    if (is(e)) { if (auto* s = set(e)) r = fromSet(symOf(e), *s, 1u << P.syms[symOf(e)].w); }
    else if ((e->k == K_And || e->k == K_Or) && e->n <= 64) { r = nullptr; for (u32 i = 0; i < e->n; i++) { Expr* c = canon(e->ops[i]); r = r ? (e->k == K_And ? P.band(r, c) : P.bor(r, c)) : c; } }
    else if (e->k == K_Xor && e->n == 2 && (Pool::isC(e->ops[0], 1) || Pool::isC(e->ops[1], 1))) { r = P.bnot(canon(Pool::isC(e->ops[0]) ? e->ops[1] : e->ops[0])); }
    canonMemo[e] = r; canonMemo[r] = r; return r; }
};

struct Solver {
  Pool& P; ByteSets BS{P}; u64 byteDecided = 0; Z3_context ctx; Z3_solver s = nullptr;
  std::unordered_map<const Expr*, Z3_ast> bv, bl;
  std::unordered_map<const Expr*, Z3_ast> lit; // constraint -> assumption literal
  u64 queries = 0, cacheHits = 0, z3calls = 0, modelHits = 0, unknowns = 0; double time = 0; double maxTime = 0;
  unsigned timeoutMs = 120000; unsigned sinceReset = 0; bool incremental = false; std::string dumpDir;
  struct CacheEnt { std::vector<u32> key; Sat r; std::vector<std::pair<u32, u128>> model; };
  std::unordered_multimap<size_t, CacheEnt> cache;

  Solver(Pool& p) : P(p) { Z3_config c = Z3_mk_config(); ctx = Z3_mk_context(c); Z3_del_config(c); Z3_set_error_handler(ctx, [](Z3_context c, Z3_error_code e) { throw EngineError{std::string("z3: ") + Z3_get_error_msg(c, e)}; }); reset(); }
  void reset() { if (s) Z3_solver_dec_ref(ctx, s); s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV")); Z3_solver_inc_ref(ctx, s); setTimeout(); lit.clear(); sinceReset = 0; }
  void setTimeout() { Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p); Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), timeoutMs); Z3_solver_set_params(ctx, s, p); Z3_params_dec_ref(ctx, p); }

  Z3_ast num(unsigned w, u128 c) { Z3_sort so = Z3_mk_bv_sort(ctx, w); if (w <= 64) return Z3_mk_unsigned_int64(ctx, (u64)c, so);
    Z3_ast hi = Z3_mk_unsigned_int64(ctx, (u64)(c >> 64), Z3_mk_bv_sort(ctx, w - 64)), lo = Z3_mk_unsigned_int64(ctx, (u64)c, Z3_mk_bv_sort(ctx, 64)); return Z3_mk_concat(ctx, hi, lo); }
  // translate DAG iteratively to avoid deep recursion
  void prepare(Expr* root) {
    std::vector<Expr*> st{root};
    while (!st.empty()) { Expr* e = st.back(); bool done = e->w == 1 ? bl.count(e) : bv.count(e); if (done) { st.pop_back(); continue; }
      bool ready = true; for (u32 i = 0; i < e->n; i++) { Expr* o = e->ops[i]; if (!(o->w == 1 ? bl.count(o) : bv.count(o))) { st.push_back(o); ready = false; } }
      if (!ready) continue;
      build(e); st.pop_back(); }
  }
  Z3_ast B(Expr* e) { return bl.at(e); }
  Z3_ast V(Expr* e) { if (e->w > 1) return bv.at(e); auto it = bv.find(e); if (it != bv.end()) return it->second; Z3_ast r = Z3_mk_ite(ctx, bl.at(e), num(1, 1), num(1, 0)); return bv[e] = r; }
  void build(Expr* e) {
    if (e->w == 1) {
      Z3_ast r;
      switch (e->k) {
      case K_Const: r = e->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
      case K_Sym: r = Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, e->lo), Z3_mk_bool_sort(ctx)); break;
      case K_And: case K_Or: { std::vector<Z3_ast> a; for (u32 i = 0; i < e->n; i++) a.push_back(B(e->ops[i])); r = e->k == K_And ? Z3_mk_and(ctx, a.size(), a.data()) : Z3_mk_or(ctx, a.size(), a.data()); break; }
      case K_Xor: r = B(e->ops[0]); for (u32 i = 1; i < e->n; i++) r = Pool::isC(e->ops[i], 1) ? Z3_mk_not(ctx, r) : Pool::isC(e->ops[0], 1) && i == 1 ? Z3_mk_not(ctx, B(e->ops[i])) : Z3_mk_xor(ctx, r, B(e->ops[i])); break;
      case K_Eq: r = e->ops[0]->w == 1 ? Z3_mk_iff(ctx, B(e->ops[0]), B(e->ops[1])) : Z3_mk_eq(ctx, V(e->ops[0]), V(e->ops[1])); break;
      case K_Ult: r = Z3_mk_bvult(ctx, V(e->ops[0]), V(e->ops[1])); break;
      case K_Ule: r = Z3_mk_bvule(ctx, V(e->ops[0]), V(e->ops[1])); break;
      case K_Slt: r = Z3_mk_bvslt(ctx, V(e->ops[0]), V(e->ops[1])); break;
      case K_Sle: r = Z3_mk_bvsle(ctx, V(e->ops[0]), V(e->ops[1])); break;
      case K_Ite: r = Z3_mk_ite(ctx, B(e->ops[0]), B(e->ops[1]), B(e->ops[2])); break;
      case K_Extract: r = Z3_mk_eq(ctx, Z3_mk_extract(ctx, e->lo, e->lo, V(e->ops[0])), num(1, 1)); break;
      default: { // rare one-bit arithmetic
        std::vector<Z3_ast> a; for (u32 i = 0; i < e->n; i++) a.push_back(V(e->ops[i])); r = Z3_mk_eq(ctx, arith(e, a), num(1, 1)); } }
      bl[e] = r; return;
    }
    std::vector<Z3_ast> a;
    if (e->k == K_Ite) { bv[e] = Z3_mk_ite(ctx, B(e->ops[0]), V(e->ops[1]), V(e->ops[2])); return; }
    for (u32 i = 0; i < e->n; i++) a.push_back(V(e->ops[i]));
    bv[e] = arith(e, a);
  }
  Z3_ast arith(Expr* e, std::vector<Z3_ast>& a) {
    auto fold = [&](Z3_ast (*f)(Z3_context, Z3_ast, Z3_ast)) { Z3_ast r = a[0]; for (size_t i = 1; i < a.size(); i++) r = f(ctx, r, a[i]); return r; };
    switch (e->k) {
    case K_Const: return num(e->w, e->c);
    case K_Sym: return Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, e->lo), Z3_mk_bv_sort(ctx, e->w));
    case K_Add: return fold(Z3_mk_bvadd); case K_Mul: return fold(Z3_mk_bvmul);
    case K_UDiv: return fold(Z3_mk_bvudiv); case K_SDiv: return fold(Z3_mk_bvsdiv);
    case K_URem: return fold(Z3_mk_bvurem); case K_SRem: return fold(Z3_mk_bvsrem);
    case K_And: return fold(Z3_mk_bvand); case K_Or: return fold(Z3_mk_bvor); case K_Xor: return fold(Z3_mk_bvxor);
    case K_Shl: return fold(Z3_mk_bvshl); case K_LShr: return fold(Z3_mk_bvlshr); case K_AShr: return fold(Z3_mk_bvashr);
    case K_Concat: return fold(Z3_mk_concat);
    case K_Extract: return Z3_mk_extract(ctx, e->lo + e->w - 1, e->lo, a[0]);
    case K_SExt: return Z3_mk_sign_ext(ctx, e->w - e->ops[0]->w, a[0]);
    default: fatal("z3 translation of kind " + std::to_string(e->k)); }
  }
  // slice of constraints relevant to the symbols of q
  void slice(const std::vector<Expr*>& pc, Expr* q, std::vector<Expr*>& out) {
    std::unordered_set<u32> seen(q->ss->v.begin(), q->ss->v.end()); std::vector<char> in(pc.size(), 0); bool ch = true;
    while (ch) { ch = false; for (size_t i = 0; i < pc.size(); i++) if (!in[i]) { bool hit = false; for (u32 x : pc[i]->ss->v) if (seen.count(x)) { hit = true; break; }
        if (hit) { in[i] = 1; ch = true; for (u32 x : pc[i]->ss->v) seen.insert(x); out.push_back(pc[i]); } } }
  }
  // is pc && q satisfiable?  On SAT values of the involved symbols go to *model (overlay).
  Sat check(const std::vector<Expr*>& pc, Expr* q, std::vector<std::pair<u32, u128>>* model) {
    if (Pool::isC(q)) { if (!q->c) return UNSAT; }
    std::vector<Expr*> cs; slice(pc, q, cs); if (!Pool::isC(q)) cs.push_back(q);
    std::sort(cs.begin(), cs.end(), Pool::byId); cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
    queries++;
    { // every condition involved concerns one and the same small symbol: intersect the value sets
      Set256 acc; acc.set(); bool ok = !cs.empty(); u32 sy = 0;
      for (size_t i = 0; i < cs.size() && ok; i++) { ok = BS.is(cs[i]) && (i == 0 || BS.symOf(cs[i]) == sy); if (!ok) break; sy = BS.symOf(cs[i]); auto* s = BS.set(cs[i]); if (!s) { ok = false; break; } acc &= *s; }
      if (ok) { byteDecided++; unsigned N = 1u << P.syms[sy].w; for (unsigned i = 0; i < N; i++) if (acc[i]) { if (model) *model = {{sy, i}}; return SAT; } return UNSAT; } 
      // quick refutation: value set of the queried symbol is already empty
      if (!Pool::isC(q) && BS.is(q)) { Set256 a; a.set(); for (Expr* e : cs) if (BS.is(e) && BS.symOf(e) == BS.symOf(q)) if (auto* s = BS.set(e)) a &= *s; unsigned N = 1u << P.syms[BS.symOf(q)].w; bool any = false; for (unsigned i = 0; i < N; i++) any |= a[i]; if (!any) { byteDecided++; return UNSAT; } } }
    std::vector<u32> key; size_t h = cs.size(); for (Expr* e : cs) { key.push_back(e->id); h = Pool::mix(h, e->id); }
    auto r = cache.equal_range(h); for (auto i = r.first; i != r.second; ++i) if (i->second.key == key) { cacheHits++; if (model) *model = i->second.model; return i->second.r; }
    CacheEnt ent; ent.key = key;
    ent.r = solve(cs, ent.model);
    if (model) *model = ent.model; Sat res = ent.r; if (res != UNKNOWN) cache.emplace(h, std::move(ent));
    return res;
  }
  // ---- elimination of equations: symbol = term
  u64 eliminated = 0;
  using Sub = std::unordered_map<u32, Expr*>;
  bool touches(Expr* e, const Sub& m) { for (u32 x : e->ss->v) if (m.count(x)) return true; return false; }
  Expr* rebuild(Expr* e, std::vector<Expr*>& o) {
    switch (e->k) {
    case K_Add: { Expr* r = o[0]; for (size_t i = 1; i < o.size(); i++) r = P.add(r, o[i]); return r; }
    case K_Mul: { Expr* r = o[0]; for (size_t i = 1; i < o.size(); i++) r = P.mul(r, o[i]); return r; }
    case K_UDiv: case K_SDiv: case K_URem: case K_SRem: return P.div(e->k, o[0], o[1]);
    case K_And: case K_Or: case K_Xor: return P.bitwise(e->k, o);
    case K_Shl: return P.shl(o[0], o[1]); case K_LShr: return P.lshr(o[0], o[1]); case K_AShr: return P.ashr(o[0], o[1]);
    case K_Eq: return P.eq(o[0], o[1]);
    case K_Ult: case K_Ule: case K_Slt: case K_Sle: return P.cmp(e->k, o[0], o[1]);
    case K_Ite: return P.ite(o[0], o[1], o[2]);
    case K_Concat: return P.concat(o);
    case K_Extract: return P.extract(o[0], e->lo + e->w - 1, e->lo);
    case K_SExt: return P.sext(o[0], e->w);
    default: return nullptr; }
  }
  Expr* subst(Expr* root, const Sub& m, std::unordered_map<Expr*, Expr*>& memo) {
    std::vector<Expr*> st{root};
    while (!st.empty()) { Expr* e = st.back(); if (memo.count(e)) { st.pop_back(); continue; }
      if (!touches(e, m)) { memo[e] = e; st.pop_back(); continue; }
      if (e->k == K_Sym) { memo[e] = m.at(e->lo); st.pop_back(); continue; }
      bool ready = true; for (u32 i = 0; i < e->n; i++) if (!memo.count(e->ops[i])) { st.push_back(e->ops[i]); ready = false; }
      if (!ready) continue;
      std::vector<Expr*> o; for (u32 i = 0; i < e->n; i++) o.push_back(memo[e->ops[i]]);
      Expr* r = rebuild(e, o); if (!r) return nullptr; memo[e] = r; st.pop_back(); }
    return memo[root];
  }
  void conjuncts(Expr* e, std::vector<Expr*>& out) { if (e->w == 1 && e->k == K_And) for (u32 i = 0; i < e->n; i++) conjuncts(e->ops[i], out); else out.push_back(e); }
  bool solvable(Expr* e, const Sub& m, const std::unordered_set<u32>& used, u32& sy, Expr*& t) {
    auto tryIt = [&](Expr* x, Expr* rhs) { if (x->k != K_Sym || m.count(x->lo) || used.count(x->lo)) return false; for (u32 y : rhs->ss->v) if (y == x->lo || m.count(y)) return false; sy = x->lo; t = rhs; return true; };
    if (e->k == K_Sym) return tryIt(e, P.tru());
    if (e->k == K_Eq) return tryIt(e->ops[0], e->ops[1]) || tryIt(e->ops[1], e->ops[0]);
    if (e->k == K_Xor && e->w == 1) for (u32 i = 0; i < e->n; i++) if (e->ops[i]->k == K_Sym) { Expr* r = P.tru(); for (u32 j = 0; j < e->n; j++) if (j != i) r = P.bxor(r, e->ops[j]); if (tryIt(e->ops[i], r)) return true; }
    return false;
  }
  void splitEq(Expr* e, std::vector<Expr*>& out) { // equality of concatenations, piecewise
    if (e->k != K_Eq || (e->ops[0]->k != K_Concat && e->ops[1]->k != K_Concat)) { out.push_back(e); return; }
    unsigned w = e->ops[0]->w; std::vector<bool> cut(w + 1, false); cut[0] = true;
    for (int s = 0; s < 2; s++) { Expr* x = e->ops[s]; if (x->k == K_Concat) { unsigned pos = w; for (u32 i = 0; i < x->n; i++) { pos -= x->ops[i]->w; cut[pos] = true; } } }
    unsigned hi = w; for (int q = w - 1; q >= 0; q--) if (cut[q]) { Expr* c = P.eq(P.extract(e->ops[0], hi - 1, q), P.extract(e->ops[1], hi - 1, q)); hi = q; if (!Pool::isC(c, 1)) out.push_back(c); }
  }
  Sat solve(std::vector<Expr*>& in, std::vector<std::pair<u32, u128>>& model) {
    auto t0 = std::chrono::steady_clock::now();
    std::vector<Expr*> cs = in; std::vector<std::pair<u32, Expr*>> elim;
    for (int round = 0; round < 64; round++) {
      Sub m; std::unordered_set<u32> used; std::vector<Expr*> flat, fl2; for (Expr* e : cs) conjuncts(e, flat); for (Expr* e : flat) splitEq(e, fl2);
      for (Expr* e : fl2) { u32 sy; Expr* t; if (solvable(e, m, used, sy, t)) { m[sy] = t; for (u32 y : t->ss->v) used.insert(y); } }
      if (m.empty()) break;
      std::unordered_map<Expr*, Expr*> memo; std::vector<Expr*> nx; bool bad = false, fal = false;
      for (Expr* e : fl2) { Expr* r = subst(e, m, memo); if (!r) { bad = true; break; } if (Pool::isC(r)) { if (!r->c) { fal = true; break; } continue; } nx.push_back(r); }
      if (bad) break;
      eliminated += m.size();
      if (fal) { time += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); return UNSAT; }
      for (auto& p : m) elim.push_back(p);
      cs = std::move(nx);
    }
    std::sort(cs.begin(), cs.end(), Pool::byId); cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
    std::vector<std::pair<u32, u128>> md; Sat r = SAT;
    if (!cs.empty()) r = solveZ3(cs, md); else time += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    if (r == SAT) { Model mm; for (auto& p : md) mm.v[p.first] = p.second;
      for (size_t i = elim.size(); i-- > 0;) { mm.memo.clear(); u128 v = evalIn(elim[i].second, mm); mm.v[elim[i].first] = v; }
      SymSet* ss = &P.empty; for (Expr* e : in) ss = P.unite(ss, e->ss);
      for (u32 y : ss->v) { auto it = mm.v.find(y); model.push_back({y, it == mm.v.end() ? 0 : it->second}); }
      if (!elim.empty()) { Model chk; for (auto& p : model) chk.v[p.first] = p.second; for (Expr* e : in) if (!evalIn(e, chk)) fatal("internal: model does not satisfy the constraints"); } }
    return r;
  }
  Sat solveZ3(std::vector<Expr*>& cs, std::vector<std::pair<u32, u128>>& model) {
    auto t0 = std::chrono::steady_clock::now(); z3calls++;
    for (Expr* e : cs) prepare(e);
    if (incremental && ++sinceReset > 1500) reset();
    Z3_lbool r; 
    std::vector<Z3_ast> as;
    if (incremental) {
      for (Expr* e : cs) { auto it = lit.find(e); if (it == lit.end()) { Z3_ast l = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, ("L" + std::to_string(e->id)).c_str()), Z3_mk_bool_sort(ctx)); Z3_solver_assert(ctx, s, Z3_mk_implies(ctx, l, B(e))); it = lit.emplace(e, l).first; } as.push_back(it->second); }
      r = Z3_solver_check_assumptions(ctx, s, as.size(), as.data());
    } else { Z3_solver_reset(ctx, s); for (Expr* e : cs) Z3_solver_assert(ctx, s, B(e)); r = Z3_solver_check(ctx, s); }
    Sat res = r == Z3_L_TRUE ? SAT : r == Z3_L_FALSE ? UNSAT : UNKNOWN;
    if (res == SAT) { Z3_model m = Z3_solver_get_model(ctx, s); Z3_model_inc_ref(ctx, m);
      SymSet* ss = &P.empty; for (Expr* e : cs) ss = P.unite(ss, e->ss);
      for (u32 sy : ss->v) { unsigned w = P.syms[sy].w; Z3_ast c = Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, sy), w == 1 ? Z3_mk_bool_sort(ctx) : Z3_mk_bv_sort(ctx, w)), v;
        u128 val = 0; if (Z3_model_eval(ctx, m, c, true, &v)) { if (w == 1) val = Z3_get_bool_value(ctx, v) == Z3_L_TRUE; else if (w <= 64) { uint64_t x = 0; Z3_get_numeral_uint64(ctx, v, &x); val = x; } else { const char* str = Z3_get_numeral_string(ctx, v); for (; *str; ++str) val = val * 10 + (*str - '0'); } }
        model.push_back({sy, val}); }
      Z3_model_dec_ref(ctx, m); }
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); time += dt; maxTime = std::max(maxTime, dt);
    if (dt > 0.5 && getenv("NB_DUMPQ")) { static int k = 0; FILE* f = fopen((std::string(getenv("NB_DUMPQ")) + "/q" + std::to_string(k++) + ".txt").c_str(), "w"); if (f) { for (Expr* e : cs) fprintf(f, "%s\n", P.str(e).c_str()); fprintf(f, "%.2fs %d\n", dt, res); fclose(f); } }
    if (res == UNKNOWN) unknowns++;
    return res;
  }
};

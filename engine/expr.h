// Hash-consed bit-vector expressions with a normalising constructor set.
#pragma once
#include <algorithm>
#include <cassert>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
using u8 = uint8_t; using u32 = uint32_t; using u64 = uint64_t; using i64 = int64_t;
using u128 = unsigned __int128; using i128 = __int128;

struct EngineError { std::string msg; };
[[noreturn]] inline void fatal(std::string m) { throw EngineError{std::move(m)}; }

enum Kind : u8 { K_Const, K_Sym, K_Add, K_Mul, K_UDiv, K_SDiv, K_URem, K_SRem, K_And, K_Or, K_Xor,
  K_Shl, K_LShr, K_AShr, K_Eq, K_Ult, K_Ule, K_Slt, K_Sle, K_Ite, K_Concat, K_Extract, K_SExt, K_FP };

struct SymSet { std::vector<u32> v; u32 id; };

struct Expr {
  Kind k; uint16_t w; u32 id; u32 lo; // lo: extract offset / sym number / fp op
  u32 n; Expr** ops;
  u128 c;            // constant
  u128 kz, ko;       // known zero / one bits
  SymSet* ss;        // symbols it depends on
  size_t hash;
};

inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline i128 sext128(u128 v, unsigned w) {
  if (w >= 128) return (i128)v;
  u128 m = (u128)1 << (w - 1); v &= maskw(w); return (i128)((v ^ m) - m);
}
inline int bitlen(u128 x) { int r = 0; u64 hi = x >> 64, lo = (u64)x; if (hi) return 128 - __builtin_clzll(hi); if (lo) r = 64 - __builtin_clzll(lo); return r; }

struct SymInfo { std::string name; unsigned w; bool undef; };

struct Pool {
  std::vector<SymInfo> syms;
  std::vector<Expr*> all;
  std::unordered_multimap<size_t, Expr*> tab;
  SymSet empty{{}, 0};
  std::vector<SymSet*> sets{&empty};
  std::unordered_multimap<size_t, SymSet*> setTab;
  std::unordered_map<u64, SymSet*> unionMemo;
  std::vector<char*> slabs; size_t slabPos = 1 << 20;

  void* alloc(size_t n) { n = (n + 15) & ~15ull; if (n > (1 << 20)) { char* p = (char*)malloc(n); return p; }
    if (slabPos + n > (1 << 20)) { slabs.push_back((char*)malloc(1 << 20)); slabPos = 0; }
    void* p = slabs.back() + slabPos; slabPos += n; return p; }

  SymSet* internSet(std::vector<u32>&& v) {
    if (v.empty()) return &empty;
    size_t h = v.size(); for (u32 x : v) h = h * 1000003 + x;
    auto r = setTab.equal_range(h);
    for (auto i = r.first; i != r.second; ++i) if (i->second->v == v) return i->second;
    auto* s = new SymSet{std::move(v), (u32)sets.size()}; sets.push_back(s); setTab.emplace(h, s); return s;
  }
  SymSet* unite(SymSet* a, SymSet* b) {
    if (a == b || b == &empty) return a; if (a == &empty) return b;
    if (a->id > b->id) std::swap(a, b);
    u64 key = ((u64)a->id << 32) | b->id;
    auto it = unionMemo.find(key); if (it != unionMemo.end()) return it->second;
    std::vector<u32> v; v.reserve(a->v.size() + b->v.size());
    std::set_union(a->v.begin(), a->v.end(), b->v.begin(), b->v.end(), std::back_inserter(v));
    return unionMemo[key] = internSet(std::move(v));
  }

  static size_t mix(size_t h, size_t x) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); return h; }

  Expr* raw(Kind k, unsigned w, u32 lo, u128 c, const Expr* const* ops, u32 n) {
    size_t h = mix(mix(mix((size_t)k * 131 + w, lo), (size_t)c), (size_t)(c >> 64));
    for (u32 i = 0; i < n; i++) h = mix(h, ops[i]->id);
    auto r = tab.equal_range(h);
    for (auto i = r.first; i != r.second; ++i) { Expr* e = i->second;
      if (e->k == k && e->w == w && e->lo == lo && e->c == c && e->n == n) {
        bool eq = true; for (u32 j = 0; j < n && eq; j++) eq = e->ops[j] == ops[j];
        if (eq) return e; } }
    Expr* e = (Expr*)alloc(sizeof(Expr) + n * sizeof(Expr*));
    e->k = k; e->w = w; e->lo = lo; e->c = c; e->n = n; e->ops = (Expr**)(e + 1); e->hash = h;
    e->id = all.size();
    SymSet* s = &empty;
    for (u32 i = 0; i < n; i++) { e->ops[i] = (Expr*)ops[i]; s = unite(s, ops[i]->ss); }
    if (k == K_Sym) s = internSet({lo});
    e->ss = s;
    known(e);
    all.push_back(e); tab.emplace(h, e);
    return e;
  }

  void known(Expr* e) {
    u128 m = maskw(e->w); e->kz = e->ko = 0;
    switch (e->k) {
    case K_Const: e->ko = e->c; e->kz = ~e->c & m; break;
    case K_And: e->kz = 0; e->ko = m; for (u32 i = 0; i < e->n; i++) { e->kz |= e->ops[i]->kz; e->ko &= e->ops[i]->ko; } break;
    case K_Or: e->ko = 0; e->kz = m; for (u32 i = 0; i < e->n; i++) { e->ko |= e->ops[i]->ko; e->kz &= e->ops[i]->kz; } break;
    case K_Xor: { u128 kn = m, v = 0; for (u32 i = 0; i < e->n; i++) { kn &= e->ops[i]->kz | e->ops[i]->ko; v ^= e->ops[i]->ko; } e->ko = v & kn; e->kz = ~v & kn; break; }
    case K_Concat: { unsigned pos = 0; for (int i = e->n - 1; i >= 0; i--) { e->kz |= e->ops[i]->kz << pos; e->ko |= e->ops[i]->ko << pos; pos += e->ops[i]->w; } break; }
    case K_Extract: e->kz = (e->ops[0]->kz >> e->lo) & m; e->ko = (e->ops[0]->ko >> e->lo) & m; break;
    case K_Ite: e->kz = e->ops[1]->kz & e->ops[2]->kz; e->ko = e->ops[1]->ko & e->ops[2]->ko; break;
    case K_SExt: { Expr* x = e->ops[0]; e->kz = x->kz; e->ko = x->ko; u128 hi = m & ~maskw(x->w); if ((x->kz >> (x->w - 1)) & 1) e->kz |= hi; if ((x->ko >> (x->w - 1)) & 1) e->ko |= hi; break; }
    case K_Add: { // bound by sum of maxima; low zero bits
      u128 sum = 0; bool ov = false; int tz = 200;
      for (u32 i = 0; i < e->n; i++) { u128 mx = ~e->ops[i]->kz & m; u128 ns = sum + mx; if (ns < sum || (ns & ~m)) ov = true; sum = ns;
        u128 nz = ~e->ops[i]->kz & m; int t = 0; while (t < e->w && !((nz >> t) & 1)) t++; tz = std::min(tz, t); }
      if (!ov) e->kz |= m & ~maskw(bitlen(sum)); e->kz |= maskw(std::min<int>(tz, e->w)) & m; if (tz == 0) e->kz &= m; break; }
    case K_Mul: { if (e->n == 2) { u128 a = ~e->ops[0]->kz & maskw(e->w), b = ~e->ops[1]->kz & maskw(e->w);
        int bl = bitlen(a) + bitlen(b); if (bl < e->w) e->kz |= m & ~maskw(bl);
        int ta = 0, tb = 0; while (ta < e->w && !((a >> ta) & 1)) ta++; while (tb < e->w && !((b >> tb) & 1)) tb++;
        e->kz |= maskw(std::min<int>(ta + tb, e->w)); } break; }
    case K_UDiv: if (e->ops[1]->k == K_Const && e->ops[1]->c) { u128 mx = (~e->ops[0]->kz & m) / e->ops[1]->c; e->kz |= m & ~maskw(bitlen(mx)); } break;
    case K_URem: if (e->ops[1]->k == K_Const && e->ops[1]->c) { e->kz |= m & ~maskw(bitlen(e->ops[1]->c - 1)); } { u128 mx = ~e->ops[0]->kz & m; e->kz |= m & ~maskw(bitlen(mx)); } break;
    case K_LShr: { u128 mx = ~e->ops[0]->kz & m; e->kz |= m & ~maskw(bitlen(mx)); break; }
    default: break;
    }
    e->kz &= m; e->ko &= m;
  }

  Expr* sym(std::string name, unsigned w, bool undef = false) { syms.push_back({std::move(name), w, undef}); return raw(K_Sym, w, syms.size() - 1, 0, nullptr, 0); }
  Expr* cst(unsigned w, u128 c) { return raw(K_Const, w, 0, c & maskw(w), nullptr, 0); }
  Expr* tru() { return cst(1, 1); }
  Expr* fls() { return cst(1, 0); }
  static bool isC(const Expr* e) { return e->k == K_Const; }
  static bool isC(const Expr* e, u128 v) { return e->k == K_Const && e->c == v; }
  static bool isAll(const Expr* e) { return e->k == K_Const && e->c == maskw(e->w); }
  static u128 umax(const Expr* e) { return ~e->kz & maskw(e->w); }
  static u128 umin(const Expr* e) { return e->ko; }
  Expr* fin(Expr* e) { // fully known?
    if (e->k != K_Const && ((e->kz | e->ko) == maskw(e->w))) return cst(e->w, e->ko);
    return e;
  }
  static bool byId(const Expr* a, const Expr* b) { return a->id < b->id; }

  // ---- linear arithmetic
  void lin(Expr* e, u128 co, std::vector<std::pair<Expr*, u128>>& t, u128& c) {
    if (e->k == K_Const) { c += co * e->c; return; }
    if (e->k == K_Add) { for (u32 i = 0; i < e->n; i++) lin(e->ops[i], co, t, c); return; }
    if (e->k == K_Mul && e->n == 2 && isC(e->ops[0])) { lin(e->ops[1], co * e->ops[0]->c, t, c); return; }
    t.push_back({e, co});
  }
  bool segDisjoint(Expr* a, Expr* b) {
    if (((~a->kz & maskw(a->w)) & (~b->kz & maskw(b->w))) == 0) return true;
    unsigned w = a->w; std::vector<bool> cut(w + 1, false); cut[0] = true; for (Expr* e : {a, b}) if (e->k == K_Concat) { unsigned pos = w; for (u32 i = 0; i < e->n; i++) { pos -= e->ops[i]->w; cut[pos] = true; } }
    unsigned hi = w; for (int q = w - 1; q >= 0; q--) if (cut[q]) { Expr *x = extractDeep(a, hi - 1, q), *y = extractDeep(b, hi - 1, q); hi = q; if (isC(x, 0) || isC(y, 0)) continue; if (x->w > 128) return false; if (!isC(bitwise(K_And, {x, y}), 0)) return false; }
    return true;
  }
  Expr* fromLin(unsigned w, std::vector<std::pair<Expr*, u128>>& t, u128 c) {
    u128 m = maskw(w);
    std::sort(t.begin(), t.end(), [](auto& a, auto& b) { return a.first->id < b.first->id; });
    std::vector<Expr*> out; 
    for (size_t i = 0; i < t.size();) { size_t j = i; u128 co = 0; while (j < t.size() && t[j].first == t[i].first) co += t[j++].second; co &= m;
      if (co == 1) out.push_back(t[i].first);
      else if (co != 0) { Expr* o[2] = {cst(w, co), t[i].first}; out.push_back(fin(raw(K_Mul, w, 0, 0, o, 2))); }
      i = j; }
    c &= m;
    // terms that are bitwise disjoint form a union (choice written as a sum)
    if (w > 1 && w <= 128) for (size_t i = 0; i < out.size(); i++) if (isBw(out[i])) for (size_t j = i + 1; j < out.size(); j++) if (isBw(out[j])) {
      std::vector<Expr*> l; if (!ttLeaves(out[i], l, 0) || !ttLeaves(out[j], l, 0)) continue;
      if (ttEval(out[i], l) & ttEval(out[j], l)) continue;
      Expr* u = bor(out[i], out[j]); std::vector<std::pair<Expr*, u128>> t2; u128 c2 = c; lin(u, 1, t2, c2); for (size_t q = 0; q < out.size(); q++) if (q != i && q != j) lin(out[q], 1, t2, c2); return fromLin(w, t2, c2); }
    if (w > 1 && w <= 64 && out.size() > 1) for (size_t i = 0; i < out.size(); i++) if (hasConstPiece(out[i])) for (size_t j = 0; j < out.size(); j++) if (j != i && (hasConstPiece(out[j]) ? j > i : isBw(out[j]) || hasBwPiece(out[j])) && segDisjoint(out[i], out[j])) {
      Expr* u = bor(out[i], out[j]); std::vector<std::pair<Expr*, u128>> t2; u128 c2 = c; lin(u, 1, t2, c2); for (size_t q = 0; q < out.size(); q++) if (q != i && q != j) lin(out[q], 1, t2, c2); return fromLin(w, t2, c2); }
    if (out.empty()) return cst(w, c);
    if (c) out.push_back(cst(w, c));
    if (out.size() == 1) return out[0];
    std::sort(out.begin(), out.end(), byId);
    return fin(raw(K_Add, w, 0, 0, out.data(), out.size()));
  }
  Expr* addc(Expr* a, u128 ca, Expr* b, u128 cb) {
    std::vector<std::pair<Expr*, u128>> t; u128 c = 0; lin(a, ca, t, c); lin(b, cb, t, c);
    return fromLin(a->w, t, c);
  }
  Expr* add(Expr* a, Expr* b) { if (isC(a) && isC(b)) return cst(a->w, a->c + b->c); if (isC(a, 0)) return b; if (isC(b, 0)) return a; if (a->w == 1) return bxor(a, b); 
    // disjoint bits: treat as concatenation
    if (!isC(a) && !isC(b) && ((~a->kz & maskw(a->w)) & (~b->kz & maskw(a->w))) == 0) return bor(a, b);
    return addc(a, 1, b, 1); }
  Expr* sub(Expr* a, Expr* b) { if (a == b) return cst(a->w, 0); if (isC(b, 0)) return a; if (a->w == 1) return bxor(a, b); return addc(a, 1, b, ~(u128)0); }
  Expr* mul(Expr* a, Expr* b) {
    if (isC(a) && isC(b)) return cst(a->w, a->c * b->c);
    if (isC(b)) std::swap(a, b);
    if (isC(a)) { if (a->c == 0) return a; if (a->c == 1) return b; std::vector<std::pair<Expr*, u128>> t; u128 c = 0; lin(b, a->c, t, c); return fromLin(b->w, t, c); }
    if (a->w == 1) return band(a, b);
    Expr* o[2] = {a, b}; if (o[0]->id > o[1]->id) std::swap(o[0], o[1]);
    return fin(raw(K_Mul, a->w, 0, 0, o, 2));
  }
  Expr* div(Kind k, Expr* a, Expr* b) {
    unsigned w = a->w;
    if (isC(b)) {
      if (b->c == 0) return cst(w, k == K_URem || k == K_SRem ? (isC(a) ? a->c : 0) : 0);
      if (isC(a)) { switch (k) { case K_UDiv: return cst(w, a->c / b->c); case K_URem: return cst(w, a->c % b->c);
          case K_SDiv: { i128 x = sext128(a->c, w), y = sext128(b->c, w); return cst(w, y == -1 ? (u128)0 - (u128)x : (u128)(x / y)); }
          default: { i128 x = sext128(a->c, w), y = sext128(b->c, w); return cst(w, y == -1 ? 0 : (u128)(x % y)); } } }
      // signed with both non-negative -> unsigned
      if ((k == K_SDiv || k == K_SRem) && ((a->kz >> (w - 1)) & 1) && ((b->kz >> (w - 1)) & 1)) k = k == K_SDiv ? K_UDiv : K_URem;
      if (b->c == 1) return (k == K_UDiv || k == K_SDiv) ? a : cst(w, 0);
      if ((b->c & (b->c - 1)) == 0) { int s = bitlen(b->c) - 1;
        if (k == K_UDiv) return lshr(a, cst(w, s));
        if (k == K_URem) return zext(extract(a, s - 1, 0), w); }
      if (k == K_UDiv && umax(a) < b->c) return cst(w, 0);
      if (k == K_URem && umax(a) < b->c) return a;
      // narrow unsigned division when high bits known zero
      if (k == K_UDiv || k == K_URem) { int bl = std::max(bitlen(umax(a)), bitlen(b->c)); if (bl < (int)w && bl > 0) { Expr* o[2] = {extract(a, bl - 1, 0), cst(bl, b->c)}; return zext(fin(raw(k, bl, 0, 0, o, 2)), w); } }
    }
    Expr* o[2] = {a, b}; return fin(raw(k, w, 0, 0, o, 2));
  }
  // ---- concat / extract
  static bool isXorC(const Expr* e) { return e->k == K_Xor && e->n == 2 && (isC(e->ops[0]) || isC(e->ops[1])); }
  static u128 xorC(const Expr* e) { return isC(e->ops[0]) ? e->ops[0]->c : e->ops[1]->c; }
  static Expr* xorRest(const Expr* e) { return isC(e->ops[0]) ? e->ops[1] : e->ops[0]; }
  // two neighbouring slices (hi, lo) of the same word-level expression, put back together
  Expr* mergeRun(Expr* p, Expr* x, int depth) {
    if (isC(p) && isC(x)) return depth && p->w + x->w <= 128 ? cst(p->w + x->w, (p->c << x->w) | x->c) : nullptr;
    if (isC(p) || isC(x)) return nullptr;
    Expr *pb = p, *xb = x; unsigned pl = 0, xl = 0; if (p->k == K_Extract) { pb = p->ops[0]; pl = p->lo; } if (x->k == K_Extract) { xb = x->ops[0]; xl = x->lo; }
    if (pb == xb && pl == xl + x->w) { Expr* r = extract(pb, pl + p->w - 1, xl); return r; }
    if (depth > 4 || p->w + x->w > 128) return nullptr;
    if (!isBw(p) && !isBw(x)) return nullptr;
    if (isBw(p) && isBw(x) && p->k == x->k && (p->n == x->n || p->k == K_Xor)) {
      std::vector<Expr*> o; std::vector<char> used(x->n, 0); u32 np = 0; bool ok = true; u128 pc = 0, xc = 0; bool hc = false;
      for (u32 i = 0; i < x->n; i++) if (isC(x->ops[i])) { used[i] = 1; xc = x->ops[i]->c; hc = true; np++; if (p->k != K_Xor) return nullptr; }
      u32 cnt = 0; for (u32 i = 0; i < p->n && ok; i++) { if (isC(p->ops[i])) { if (p->k != K_Xor) return nullptr; pc = p->ops[i]->c; hc = true; continue; } bool f = false; for (u32 j = 0; j < x->n; j++) if (!used[j]) if (Expr* m = mergeRun(p->ops[i], x->ops[j], depth + 1)) { used[j] = 1; o.push_back(m); f = true; cnt++; break; } ok = f; }
      for (char u : used) if (!u) ok = false;
      if (!ok || o.empty()) return nullptr; u128 mm = maskw(p->w + x->w), cc = (pc << x->w) | xc; for (Expr* e : o) { if (e->k == K_Concat || hasBwPiece(e)) return nullptr; if (isXorC(e) && xorC(e) != mm && (o.size() > 1 || hc)) return nullptr; if (hc && cc && cc != mm && isBw(e)) return nullptr; } if (hc) o.push_back(cst(p->w + x->w, (pc << x->w) | xc)); return bitwise(p->k, o); }
    // one side inverted, the other plain
    if (isXorC(p) && !isBw(x)) { if (Expr* m = mergeRun(xorRest(p), x, depth + 1)) if (m->k != K_Concat && !isBw(m)) return bitwise(K_Xor, {m, cst(p->w + x->w, xorC(p) << x->w)}); }
    if (isXorC(x) && !isBw(p)) { if (Expr* m = mergeRun(p, xorRest(x), depth + 1)) if (m->k != K_Concat && !isBw(m)) return bitwise(K_Xor, {m, cst(p->w + x->w, xorC(x))}); }
    return nullptr; }
  Expr* concat(std::vector<Expr*> in) { // high to low
    std::vector<Expr*> v;
    auto push = [&](Expr* x) {
      while (!v.empty()) { Expr* p = v.back();
        if (isC(p) && isC(x)) { x = cst(p->w + x->w, (p->c << x->w) | x->c); v.pop_back(); continue; }
        Expr *pb = p, *xb = x; unsigned pl = 0, xl = 0;
        if (p->k == K_Extract) { pb = p->ops[0]; pl = p->lo; } if (x->k == K_Extract) { xb = x->ops[0]; xl = x->lo; }
        if (pb == xb && !isC(pb) && pl == xl + x->w) { v.pop_back(); x = extract(pb, pl + p->w - 1, xl); if (x->k == K_Concat) { break; } continue; }
        if (Expr* mg = mergeRun(p, x, 0)) { v.pop_back(); x = mg; if (x->k == K_Concat) break; continue; }
        if (p->k == K_Ite && x->k == K_Ite && p->ops[0] == x->ops[0]) { v.pop_back(); x = ite(p->ops[0], concat({p->ops[1], x->ops[1]}), concat({p->ops[2], x->ops[2]})); if (x->k == K_Concat) break; continue; }
        break; }
      v.push_back(x); };
    for (Expr* e : in) { if (e->w == 0) continue; if (e->k == K_Concat) for (u32 i = 0; i < e->n; i++) push(e->ops[i]); else push(e); }
    // a merge may have produced nested concats
    bool nested = false; for (Expr* e : v) if (e->k == K_Concat) nested = true;
    if (nested && v.size() > 1) { std::vector<Expr*> f; for (Expr* e : v) { if (e->k == K_Concat) f.insert(f.end(), e->ops, e->ops + e->n); else f.push_back(e); } v = f; }
    if (v.size() == 1) return v[0];
    unsigned w = 0; for (Expr* e : v) w += e->w;
    if (w > 128) fatal("concat wider than 128");
    return fin(raw(K_Concat, w, 0, 0, v.data(), v.size()));
  }
  Expr* zext(Expr* a, unsigned w) { if (w == a->w) return a; if (isC(a)) return cst(w, a->c); return concat({cst(w - a->w, 0), a}); }
  Expr* sext(Expr* a, unsigned w) {
    if (w == a->w) return a; if (isC(a)) return cst(w, (u128)sext128(a->c, a->w));
    if ((a->kz >> (a->w - 1)) & 1) return zext(a, w);
    if (a->w == 1) return ite(a, cst(w, ~(u128)0), cst(w, 0));
    if (a->k == K_SExt) return sext(a->ops[0], w);
    if (a->k == K_Ite && (isC(a->ops[1]) || isC(a->ops[2]))) return ite(a->ops[0], sext(a->ops[1], w), sext(a->ops[2], w));
    Expr* o[1] = {a}; return fin(raw(K_SExt, w, 0, 0, o, 1));
  }
  Expr* extract(Expr* e, unsigned hi, unsigned lo) {
    unsigned w = hi - lo + 1;
    if (w == e->w) return e;
    if (isC(e)) return cst(w, e->c >> lo);
    u128 m = maskw(w);
    if ((((e->kz | e->ko) >> lo) & m) == m) return cst(w, e->ko >> lo);
    switch (e->k) {
    case K_Extract: return extract(e->ops[0], hi + e->lo, lo + e->lo);
    case K_Concat: { std::vector<Expr*> v; unsigned pos = e->w;
      for (u32 i = 0; i < e->n; i++) { Expr* p = e->ops[i]; unsigned ph = pos - 1, pl = pos - p->w; pos = pl;
        if (pl > hi || ph < lo) continue; unsigned h = std::min(ph, hi) - pl, l = std::max(pl, lo) - pl; v.push_back(extract(p, h, l)); }
      return concat(v); }
    case K_SExt: { Expr* a = e->ops[0]; if (hi < a->w) return extract(a, hi, lo); if (lo < a->w) return sext(extract(a, a->w - 1, lo), w); return sext(extract(a, a->w - 1, a->w - 1), w); }
    case K_Ite: return ite(e->ops[0], extract(e->ops[1], hi, lo), extract(e->ops[2], hi, lo));
    case K_And: case K_Or: case K_Xor: { // push when some operand becomes constant
      bool any = false; for (u32 i = 0; i < e->n; i++) { Expr* o = e->ops[i]; u128 kn = ((o->kz | o->ko) >> lo) & m; if (kn == m) any = true; }
      if (any) { Expr* r = extract(e->ops[0], hi, lo); for (u32 i = 1; i < e->n; i++) { Expr* x = extract(e->ops[i], hi, lo); r = e->k == K_And ? band(r, x) : e->k == K_Or ? bor(r, x) : bxor(r, x); } return r; }
      break; }
    case K_Add: // x + c with disjoint bits is a concatenation
      if (e->n == 2) for (int q = 0; q < 2; q++) if (isC(e->ops[q]) && e->ops[1 - q]->k == K_Concat && (~e->ops[1 - q]->kz & maskw(e->w) & e->ops[q]->c) == 0) { Expr* o = bor(e->ops[1 - q], e->ops[q]); if (o->k == K_Concat) return extract(o, hi, lo); }
      break;
    case K_Mul: // c*x with trailing zeros
      if (e->n == 2 && isC(e->ops[0])) { u128 c = e->ops[0]->c; if ((c & (c - 1)) == 0) { unsigned s = bitlen(c) - 1; if (lo >= s && s) return extract(e->ops[1], hi - s, lo - s); } }
      break;
    default: break; }
    Expr* o[1] = {e}; return fin(raw(K_Extract, w, lo, 0, o, 1));
  }
  bool shrinks(Expr* e, unsigned w) { return isC(e) || (e->k == K_Concat && isC(e->ops[0])) || (e->k == K_SExt && e->ops[0]->w <= w) || (e->k == K_Mul && isC(e->ops[0]) && shrinks(e->ops[1], w)) || (e->k == K_Add && shrinksAll(e, w)); }
  bool shrinksAll(Expr* e, unsigned w) { for (u32 i = 0; i < e->n; i++) if (!shrinks(e->ops[i], w)) return false; return true; }
  Expr* trunc(Expr* e, unsigned w) {
    if (w == e->w) return e;
    if ((e->k == K_Add || e->k == K_Mul) && shrinksAll(e, w)) { Expr* r = nullptr; for (u32 i = 0; i < e->n; i++) { Expr* x = trunc(e->ops[i], w); r = !r ? x : e->k == K_Add ? add(r, x) : mul(r, x); } return r; }
    return extract(e, w - 1, 0);
  }
  // ---- bitwise
  static bool hasBwPiece(Expr* e) { if (e->k != K_Concat) return false; for (u32 i = 0; i < e->n; i++) if (isBw(e->ops[i])) return true; return false; }
  bool hasConstPiece(Expr* e) { if (e->k != K_Concat) return false; for (u32 i = 0; i < e->n; i++) if (isC(e->ops[i])) return true; return false; }
  Expr* extractDeep(Expr* e, unsigned hi, unsigned lo) { if (hi - lo + 1 == e->w) return e; if (!isBw(e)) return extract(e, hi, lo); std::vector<Expr*> o; for (u32 i = 0; i < e->n; i++) o.push_back(extractDeep(e->ops[i], hi, lo)); return bitwise(e->k, o); }
  Expr* bitwise(Kind k, std::vector<Expr*> in) {
    unsigned w = in[0]->w; u128 m = maskw(w);
    u128 c = k == K_And ? m : 0; std::vector<Expr*> v;
    for (Expr* e : in) { if (e->k == k) { for (u32 i = 0; i < e->n; i++) { Expr* o = e->ops[i]; if (isC(o)) c = k == K_And ? c & o->c : k == K_Or ? c | o->c : c ^ o->c; else v.push_back(o); } }
      else if (isC(e)) c = k == K_And ? c & e->c : k == K_Or ? c | e->c : c ^ e->c; else v.push_back(e); }
    if (k == K_And && c == 0) return cst(w, 0);
    if (k == K_Or && c == m) return cst(w, m);
    std::sort(v.begin(), v.end(), byId);
    if (k == K_Xor) { std::vector<Expr*> o; for (size_t i = 0; i < v.size();) { if (i + 1 < v.size() && v[i] == v[i + 1]) i += 2; else o.push_back(v[i++]); } v = o; }
    else v.erase(std::unique(v.begin(), v.end()), v.end());
    if (v.empty()) return cst(w, c);
    // complementary operands
    if (k != K_Xor && v.size() > 1) for (Expr* e : v) if (e->k == K_Xor || w == 1) { Expr* ne = bnot(e); if (ne != e && std::binary_search(v.begin(), v.end(), ne, byId) ) { for (Expr* q : v) if (q == ne) return cst(w, k == K_And ? 0 : m); } }
    // absorption for booleans: handled by the solver
    bool cId = k == K_And ? c == m : c == 0;
    if (v.size() == 1 && cId) return v[0];
    // split over constant pieces
    bool split = false;
    if (!cId && (k == K_And || k == K_Or)) split = true;
    if (!split && v.size() + (cId ? 0 : 1) > 1) for (Expr* e : v) if (hasConstPiece(e)) { split = true; break; }
    bool partial = false;
    if (w > 1) { for (Expr* e : v) if (isXorC(e) && xorC(e) != m && v.size() > 1) partial = true; if (k == K_Xor && !cId && c != m) for (Expr* e : v) if (isBw(e) || hasBwPiece(e)) partial = true; }
    if (partial) split = true;
    if (split && w > 1) {
      std::vector<bool> cut(w + 1, false); cut[0] = cut[w] = true;
      if (partial) { for (Expr* e : v) if (isXorC(e)) { u128 xc = xorC(e); for (unsigned q = 1; q < w; q++) if (((xc >> q) & 1) != ((xc >> (q - 1)) & 1)) cut[q] = true; }
        if (k == K_Xor && !cId) for (unsigned q = 1; q < w; q++) if (((c >> q) & 1) != ((c >> (q - 1)) & 1)) cut[q] = true; }
      for (Expr* e : v) if (hasConstPiece(e)) { unsigned pos = w; for (u32 i = 0; i < e->n; i++) { if (isC(e->ops[i])) { cut[pos] = true; cut[pos - e->ops[i]->w] = true; 
            // runs inside the constant matter for and/or
            if (k != K_Xor) { unsigned b = pos - e->ops[i]->w; for (unsigned q = 1; q < e->ops[i]->w; q++) if (((e->ops[i]->c >> q) & 1) != ((e->ops[i]->c >> (q - 1)) & 1)) cut[b + q] = true; } }
          pos -= e->ops[i]->w; } }
      if (!cId && k != K_Xor) for (unsigned q = 1; q < w; q++) if (((c >> q) & 1) != ((c >> (q - 1)) & 1)) cut[q] = true;
      unsigned cnt = 0; for (unsigned q = 1; q < w; q++) cnt += cut[q];
      if (cnt || !cId) { if (cnt == 0) { // constant all-identity or absorbing handled; xor with const only
          if (k == K_Xor) goto plain; }
        std::vector<Expr*> segs; unsigned hi = w; 
        for (int q = w - 1; q >= 0; q--) if (cut[q]) { std::vector<Expr*> s; for (Expr* e : v) s.push_back(extractDeep(e, hi - 1, q)); s.push_back(cst(hi - q, c >> q)); segs.push_back(bitwise(k, s)); hi = q; }
        return concat(segs); } }
  plain:
    // boolean xor of a comparison with 1: push negation
    if (k == K_Xor && w == 1 && c == 1 && v.size() == 1) { Expr* e = v[0];
      if (e->k == K_Ult) return cmp(K_Ule, e->ops[1], e->ops[0]); if (e->k == K_Ule) return cmp(K_Ult, e->ops[1], e->ops[0]);
      if (e->k == K_Slt) return cmp(K_Sle, e->ops[1], e->ops[0]); if (e->k == K_Sle) return cmp(K_Slt, e->ops[1], e->ops[0]);
      if (e->k == K_And || e->k == K_Or) { std::vector<Expr*> o; for (u32 i = 0; i < e->n; i++) o.push_back(bnot(e->ops[i])); return bitwise(e->k == K_And ? K_Or : K_And, o); }
      if (e->k == K_Ite) return ite(e->ops[0], bnot(e->ops[1]), bnot(e->ops[2])); }
    if (k == K_Xor && w > 1 && c == m && v.size() == 1 && v[0]->k == K_Ite) { Expr* e = v[0]; if (isC(e->ops[1]) || isC(e->ops[2])) return ite(e->ops[0], bnot(e->ops[1]), bnot(e->ops[2])); }
    // Ite with constants absorbing
    if (v.size() == 1 && v[0]->k == K_Ite && !cId && isC(v[0]->ops[1]) && isC(v[0]->ops[2])) { Expr* cc = cst(w, c); return ite(v[0]->ops[0], bitwise(k, {v[0]->ops[1], cc}), bitwise(k, {v[0]->ops[2], cc})); }
    if (!cId) v.push_back(cst(w, c));
    std::sort(v.begin(), v.end(), byId);
    return ttNorm(fin(raw(k, w, 0, 0, v.data(), v.size())));
  }
  // One representative per bitwise function of at most four words (choice, majority ... in any formulation).
  struct TTKey { Expr* l[4]; u32 tt; unsigned w; bool operator==(const TTKey& o) const { return l[0] == o.l[0] && l[1] == o.l[1] && l[2] == o.l[2] && l[3] == o.l[3] && tt == o.tt && w == o.w; } };
  struct TTHash { size_t operator()(const TTKey& k) const { size_t h = k.tt * 31 + k.w; for (auto* e : k.l) h = mix(h, (size_t)e); return h; } };
  std::unordered_map<TTKey, Expr*, TTHash> ttTab;
  static bool isBw(const Expr* e) { return e->k == K_And || e->k == K_Or || e->k == K_Xor; }
  bool ttLeaves(Expr* e, std::vector<Expr*>& l, int depth) { if (depth > 5) return false;
    for (u32 i = 0; i < e->n; i++) { Expr* o = e->ops[i]; if (isC(o)) { if (!isAll(o)) return false; continue; }
      if (isBw(o)) { if (!ttLeaves(o, l, depth + 1)) return false; continue; }
      if (std::find(l.begin(), l.end(), o) == l.end()) { if (l.size() == 4) return false; l.push_back(o); } }
    return true; }
  u32 ttEval(Expr* e, const std::vector<Expr*>& l) { static const u32 pat[4] = {0xAAAA, 0xCCCC, 0xF0F0, 0xFF00};
    if (isC(e)) return 0xFFFF; if (!isBw(e)) return pat[std::find(l.begin(), l.end(), e) - l.begin()];
    u32 r = ttEval(e->ops[0], l); for (u32 i = 1; i < e->n; i++) { u32 x = ttEval(e->ops[i], l); r = e->k == K_And ? r & x : e->k == K_Or ? r | x : r ^ x; } return r; }
  Expr* ttNorm(Expr* e) {
    if (!isBw(e)) return e;
    bool nested = false; for (u32 i = 0; i < e->n; i++) if (isBw(e->ops[i])) nested = true;
    if (e->n > 8 || (!nested && e->n > 4)) return e;
    std::vector<Expr*> l; if (!ttLeaves(e, l, 0) || l.empty()) return e;
    if (e->w == 1) for (Expr* x : l) if (x->k != K_Extract) return e;
    std::sort(l.begin(), l.end(), byId); u32 tt = ttEval(e, l);
    // drop leaves that do not matter
    static const u32 pat[4] = {0xAAAA, 0xCCCC, 0xF0F0, 0xFF00}; 
    if (tt == 0) return cst(e->w, 0); if (tt == 0xFFFF) return cst(e->w, maskw(e->w));
    std::vector<Expr*> used; u32 keepMask = 0;
    for (size_t i = 0; i < l.size(); i++) { unsigned sh = 1u << i; u32 hi = (tt & pat[i]) >> sh, lo = tt & ~pat[i] & 0xFFFF; if (hi != lo) { used.push_back(l[i]); keepMask |= 1u << i; } }
    if (used.size() == 1) { unsigned i = 0; while (!((keepMask >> i) & 1)) i++; if (tt == pat[i]) return used[0]; }
    if (used.size() != l.size()) { // re-index the table over the remaining leaves
      u32 t2 = 0; for (unsigned x = 0; x < 16; x++) { unsigned full = 0, j = 0; for (size_t i = 0; i < l.size(); i++) if ((keepMask >> i) & 1) { full |= ((x >> j) & 1) << i; j++; } t2 |= ((tt >> full) & 1) << x; } tt = t2; }
    TTKey k{{nullptr, nullptr, nullptr, nullptr}, tt, e->w}; for (size_t i = 0; i < used.size(); i++) k.l[i] = used[i];
    auto it = ttTab.find(k); if (it != ttTab.end()) return it->second; ttTab[k] = e; return e;
  }
  Expr* band(Expr* a, Expr* b) { return bitwise(K_And, {a, b}); }
  Expr* bor(Expr* a, Expr* b) { return bitwise(K_Or, {a, b}); }
  Expr* bxor(Expr* a, Expr* b) { return bitwise(K_Xor, {a, b}); }
  Expr* bnot(Expr* a) { return bitwise(K_Xor, {a, cst(a->w, ~(u128)0)}); }
  Expr* shl(Expr* a, Expr* s) { unsigned w = a->w;
    if (isC(s)) { if (s->c >= w) return cst(w, 0); unsigned k = s->c; if (!k) return a; if (isC(a)) return cst(w, a->c << k); return concat({extract(a, w - 1 - k, 0), cst(k, 0)}); }
    if (isC(a, 0)) return a;
    Expr* o[2] = {a, s}; return fin(raw(K_Shl, w, 0, 0, o, 2)); }
  Expr* lshr(Expr* a, Expr* s) { unsigned w = a->w;
    if (isC(s)) { if (s->c >= w) return cst(w, 0); unsigned k = s->c; if (!k) return a; return zext(extract(a, w - 1, k), w); }
    if (isC(a, 0)) return a;
    Expr* o[2] = {a, s}; return fin(raw(K_LShr, w, 0, 0, o, 2)); }
  Expr* ashr(Expr* a, Expr* s) { unsigned w = a->w;
    if (isC(s)) { unsigned k = s->c >= w ? w - 1 : (unsigned)s->c; if (!k) return a; return sext(extract(a, w - 1, k), w); }
    if ((a->kz >> (w - 1)) & 1) return lshr(a, s);
    Expr* o[2] = {a, s}; return fin(raw(K_AShr, w, 0, 0, o, 2)); }
  // ---- comparisons
  Expr* eq(Expr* a, Expr* b) {
    if (a == b) return tru(); if (isC(a) && isC(b)) return cst(1, a->c == b->c);
    if (isC(a)) std::swap(a, b);
    if ((a->kz & b->ko) | (a->ko & b->kz)) return fls();
    unsigned w = a->w;
    if (w == 1) { if (isC(b)) return b->c ? a : bnot(a); return bnot(bxor(a, b)); }
    if (isC(b)) {
      if (a->k == K_Ite) { Expr *x = a->ops[1], *y = a->ops[2]; if (isC(x) || isC(y)) { Expr *ex = eq(x, b), *ey = eq(y, b); return ite(a->ops[0], ex, ey); } }
      if (a->k == K_Add) { for (u32 i = 0; i < a->n; i++) if (isC(a->ops[i])) return eq(sub(a, a->ops[i]), cst(w, b->c - a->ops[i]->c)); }
      if (a->k == K_Mul && isC(a->ops[0]) && (a->ops[0]->c & 1)) { u128 x = a->ops[0]->c, inv = x; for (int i = 0; i < 7; i++) inv *= 2 - x * inv; return eq(a->ops[1], cst(w, b->c * inv)); }
      if (a->k == K_Xor) { for (u32 i = 0; i < a->n; i++) if (isC(a->ops[i])) return eq(bxor(a, a->ops[i]), cst(w, b->c ^ a->ops[i]->c)); }
      if (a->k == K_SExt) { Expr* x = a->ops[0]; u128 t = b->c & maskw(x->w); if ((u128)sext128(t, x->w) % 1 == 0 && (((u128)sext128(t, x->w)) & maskw(w)) == b->c) return eq(x, cst(x->w, t)); return fls(); }
    }
    if (a->k == K_Concat && (isC(b) || b->k == K_Concat)) {
      // split along a's (and b's) boundaries
      std::vector<bool> cut(w + 1, false); unsigned pos = w; for (u32 i = 0; i < a->n; i++) { pos -= a->ops[i]->w; cut[pos] = true; }
      if (b->k == K_Concat) { bool share = false; pos = w; for (u32 i = 0; i < b->n; i++) { pos -= b->ops[i]->w; if (pos && cut[pos]) share = true; }
        if (!share) goto plain;
        std::vector<bool> cb(w + 1, false); pos = w; for (u32 i = 0; i < b->n; i++) { pos -= b->ops[i]->w; cb[pos] = true; }
        for (unsigned q = 0; q <= w; q++) cut[q] = cut[q] && cb[q]; }
      cut[0] = true;
      std::vector<Expr*> r; unsigned hi = w; for (int q = w - 1; q >= 0; q--) if (cut[q]) { r.push_back(eq(extract(a, hi - 1, q), extract(b, hi - 1, q))); hi = q; }
      return bitwise(K_And, r);
    }
    if (b->k == K_Concat && !isC(a) && a->k != K_Concat) { /* keep */ }
  plain:
    if (a->k == K_SExt && b->k == K_SExt && a->ops[0]->w == b->ops[0]->w) return eq(a->ops[0], b->ops[0]);
    if (a->k == K_Add || b->k == K_Add || (a->k == K_Mul && b->k == K_Mul)) { Expr* d = sub(a, b); if (isC(d)) return cst(1, d->c == 0); if (d->k == K_Mul || d->k != K_Add) { if (!(a->k==K_Mul||b->k==K_Mul) ) {Expr* z = cst(w, 0); if (!(isC(b,0) && d == a)) return eq(d, z);} }
      else if (!isC(b)) { // common terms cancel
        if (d->n < (a->k == K_Add ? a->n : 1) + (b->k == K_Add ? b->n : 1)) { Expr* z = cst(w, 0); return eq(d, z); } } }
    if (a->k == K_Ite && b->k == K_Ite && a->ops[0] == b->ops[0]) return ite(a->ops[0], eq(a->ops[1], b->ops[1]), eq(a->ops[2], b->ops[2]));
    Expr* o[2] = {a, b}; if (o[0]->id > o[1]->id) std::swap(o[0], o[1]);
    return raw(K_Eq, 1, 0, 0, o, 2);
  }
  static i128 smin(const Expr* e) { u128 m = maskw(e->w), sb = (u128)1 << (e->w - 1); u128 v = e->ko; if (!(e->kz & sb)) v |= sb; return sext128(v & m, e->w); }
  static i128 smax(const Expr* e) { u128 m = maskw(e->w), sb = (u128)1 << (e->w - 1); u128 v = ~e->kz & m; if (!(e->ko & sb)) v &= ~sb; return sext128(v & m, e->w); }
  Expr* cmp(Kind k, Expr* a, Expr* b) {
    if (a == b) return cst(1, k == K_Ule || k == K_Sle);
    unsigned w = a->w; bool sg = k == K_Slt || k == K_Sle; bool strict = k == K_Ult || k == K_Slt;
    if (isC(a) && isC(b)) { bool r; if (sg) { i128 x = sext128(a->c, w), y = sext128(b->c, w); r = strict ? x < y : x <= y; } else r = strict ? a->c < b->c : a->c <= b->c; return cst(1, r); }
    if (sg) { u128 sb = (u128)1 << (w - 1);
      if (((a->kz & sb) && (b->kz & sb)) || ((a->ko & sb) && (b->ko & sb))) return cmp(strict ? K_Ult : K_Ule, a, b);
      if ((a->ko & sb) && (b->kz & sb)) return tru(); if ((a->kz & sb) && (b->ko & sb)) return fls();
      if (strict) { if (smax(a) < smin(b)) return tru(); if (smin(a) >= smax(b)) return fls(); } else { if (smax(a) <= smin(b)) return tru(); if (smin(a) > smax(b)) return fls(); }
      if (isC(b, 0) && strict) return extract(a, w - 1, w - 1);
      if (isC(b, maskw(w)) && !strict) return extract(a, w - 1, w - 1);
      if (isC(a, maskw(w)) && strict) return bnot(extract(b, w - 1, w - 1));
      if (isC(a, 0) && !strict) return bnot(extract(b, w - 1, w - 1));
      if (a->k == K_SExt && b->k == K_SExt && a->ops[0]->w == b->ops[0]->w) return cmp(k, a->ops[0], b->ops[0]);
      if (a->k == K_SExt && isC(b)) { unsigned xw = a->ops[0]->w; i128 y = sext128(b->c, w); if (sext128(b->c, xw) == y) return cmp(k, a->ops[0], cst(xw, b->c)); return cst(1, y > 0); }
      if (b->k == K_SExt && isC(a)) { unsigned xw = b->ops[0]->w; i128 y = sext128(a->c, w); if (sext128(a->c, xw) == y) return cmp(k, cst(xw, a->c), b->ops[0]); return cst(1, y < 0); }
      if (isC(b) && !strict) { i128 y = sext128(b->c, w); if (y != sext128(maskw(w - 1), w)) return cmp(K_Slt, a, cst(w, b->c + 1)); }
      if (isC(a) && !strict) { i128 y = sext128(a->c, w); if (y != sext128((u128)1 << (w - 1), w)) return cmp(K_Slt, cst(w, a->c - 1), b); }
    } else {
      if (strict) { if (umax(a) < umin(b)) return tru(); if (umin(a) >= umax(b)) return fls(); } else { if (umax(a) <= umin(b)) return tru(); if (umin(a) > umax(b)) return fls(); }
      if (w == 1) { return strict ? band(bnot(a), b) : bor(bnot(a), b); }
      if (!strict) { if (isC(b)) { if (b->c == maskw(w)) return tru(); return cmp(K_Ult, a, cst(w, b->c + 1)); } if (isC(a)) { if (a->c == 0) return tru(); return cmp(K_Ult, cst(w, a->c - 1), b); } }
      else { if (isC(b, 1)) return eq(a, cst(w, 0)); if (isC(a, 0)) return bnot(eq(b, a)); 
        if (isC(b) && isAll(b)) return bnot(eq(a, b)); }
      // strip common known-zero high part
      int bl = std::max(bitlen(umax(a)), bitlen(umax(b)));
      if (bl < (int)w && bl > 0) return cmp(k, extract(a, bl - 1, 0), extract(b, bl - 1, 0));
      if (isC(b) && strict && a->k == K_Concat) { // compare power of two: high part == 0
        if ((b->c & (b->c - 1)) == 0) { int s = bitlen(b->c) - 1; return eq(extract(a, w - 1, s), cst(w - s, 0)); } }
      if (isC(b) && strict && (b->c & (b->c - 1)) == 0 && b->c) { int s = bitlen(b->c) - 1; Expr* h = extract(a, w - 1, s); if (h->k != K_Extract) return eq(h, cst(w - s, 0)); }
    }
    if (a->k == K_Ite && isC(b) && isC(a->ops[1]) && isC(a->ops[2])) return ite(a->ops[0], cmp(k, a->ops[1], b), cmp(k, a->ops[2], b));
    if (b->k == K_Ite && isC(a) && isC(b->ops[1]) && isC(b->ops[2])) return ite(b->ops[0], cmp(k, a, b->ops[1]), cmp(k, a, b->ops[2]));
    Expr* o[2] = {a, b}; return raw(k, 1, 0, 0, o, 2);
  }
  Expr* ite(Expr* c, Expr* a, Expr* b) {
    if (isC(c)) return c->c ? a : b; if (a == b) return a;
    if (a->w == 1) { if (isC(a) && isC(b)) return a->c ? c : bnot(c);
      if (isC(a)) return a->c ? bor(c, b) : band(bnot(c), b);
      if (isC(b)) return b->c ? bor(bnot(c), a) : band(c, a);
      if (a == c) return bor(c, b); if (b == c) return band(c, a); }
    if (c->k == K_Xor && isC(c->ops[c->n - 1] , 1) && c->n == 2) return ite(c->ops[0], b, a);
    if (c->k == K_Xor && c->n == 2 && isC(c->ops[0], 1)) return ite(c->ops[1], b, a);
    if (a->k == K_Ite && a->ops[0] == c) a = a->ops[1];
    if (b->k == K_Ite && b->ops[0] == c) b = b->ops[2];
    if (a == b) return a;
    if (b->k == K_Ite && b->ops[1] == a) return ite(bor(c, b->ops[0]), a, b->ops[2]);
    if (a->k == K_Ite && a->ops[2] == b) return ite(band(c, a->ops[0]), a->ops[1], b);
    Expr* o[3] = {c, a, b}; return fin(raw(K_Ite, a->w, 0, 0, o, 3));
  }
  std::string str(Expr* e, int depth = 6) {
    static const char* nm[] = {"const","sym","+","*","udiv","sdiv","urem","srem","&","|","^","<<",">>u",">>s","=","<u","<=u","<s","<=s","ite","concat","extract","sext","fp"};
    char buf[64];
    if (e->k == K_Const) { snprintf(buf, 64, "%llx:%u", (unsigned long long)e->c, e->w); return buf; }
    if (e->k == K_Sym) return syms[e->lo].name;
    if (!depth) return "...";
    std::string s = "("; s += nm[e->k]; if (e->k == K_Extract) { snprintf(buf, 64, "[%u:%u]", e->lo + e->w - 1, e->lo); s += buf; }
    for (u32 i = 0; i < e->n; i++) s += " " + str(e->ops[i], depth - 1);
    return s + ")";
  }
};

// concrete evaluation of one node given operand values
inline u128 evalNode(const Expr* e, const u128* v) {
  u128 m = maskw(e->w);
  switch (e->k) {
  case K_Const: return e->c;
  case K_Add: { u128 r = 0; for (u32 i = 0; i < e->n; i++) r += v[i]; return r & m; }
  case K_Mul: { u128 r = 1; for (u32 i = 0; i < e->n; i++) r *= v[i]; return r & m; }
  case K_UDiv: return v[1] ? v[0] / v[1] : m;
  case K_URem: return v[1] ? v[0] % v[1] : v[0];
  case K_SDiv: { i128 x = sext128(v[0], e->w), y = sext128(v[1], e->w); if (!y) return (x >= 0 ? m : 1); if (y == -1) return (u128)(-(u128)x) & m; return (u128)(x / y) & m; }
  case K_SRem: { i128 x = sext128(v[0], e->w), y = sext128(v[1], e->w); if (!y) return v[0]; if (y == -1) return 0; return (u128)(x % y) & m; }
  case K_And: { u128 r = m; for (u32 i = 0; i < e->n; i++) r &= v[i]; return r; }
  case K_Or: { u128 r = 0; for (u32 i = 0; i < e->n; i++) r |= v[i]; return r; }
  case K_Xor: { u128 r = 0; for (u32 i = 0; i < e->n; i++) r ^= v[i]; return r; }
  case K_Shl: return v[1] >= e->w ? 0 : (v[0] << (unsigned)v[1]) & m;
  case K_LShr: return v[1] >= e->w ? 0 : v[0] >> (unsigned)v[1];
  case K_AShr: { i128 x = sext128(v[0], e->w); unsigned s = v[1] >= e->w ? e->w - 1 : (unsigned)v[1]; return (u128)(x >> s) & m; }
  case K_Eq: return v[0] == v[1];
  case K_Ult: return v[0] < v[1];
  case K_Ule: return v[0] <= v[1];
  case K_Slt: return sext128(v[0], e->ops[0]->w) < sext128(v[1], e->ops[0]->w);
  case K_Sle: return sext128(v[0], e->ops[0]->w) <= sext128(v[1], e->ops[0]->w);
  case K_Ite: return v[0] ? v[1] : v[2];
  case K_Concat: { u128 r = 0; for (u32 i = 0; i < e->n; i++) r = (r << e->ops[i]->w) | v[i]; return r & m; }
  case K_Extract: return (v[0] >> e->lo) & m;
  case K_SExt: return (u128)sext128(v[0], e->ops[0]->w) & m;
  default: fatal("evalNode");
  }
}

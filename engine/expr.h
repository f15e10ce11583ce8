// Hash-consed bit-vector expression DAG with local simplification.
#pragma once
#include "llvm/ADT/APInt.h"
#include "llvm/ADT/Hashing.h"
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <functional>
#include <algorithm>
#include <memory>
#include <map>
#include <set>
using llvm::APInt;

enum K : uint8_t { KConst, KSym, KUF, KAdd, KSub, KMul, KUDiv, KSDiv, KURem, KSRem, KAnd, KOr, KXor, KShl, KLShr, KAShr,
  KEq, KUlt, KUle, KSlt, KSle, KConcat, KExtract, KSExt, KIte, KLin, KLut };
// KLin: sum of coefficient*term plus a constant (a = term, coefficient, ..., constant); KLut: bitwise function
// of up to five words (truth table in lo). Both are canonical and only built in word mode (--words).
static const char *KNames[] = {"const","sym","uf","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr",
  "eq","ult","ule","slt","sle","concat","extract","sext","ite","lin","lut"};
extern bool gWords;

struct Expr;
typedef Expr *E;
struct Expr {
  K k; uint32_t w; uint32_t id; uint32_t lo = 0;
  uint64_t v = 0;            // const value (w<=64) or symbol index
  APInt *big = nullptr;      // const w>64
  std::vector<E> a;
  uint64_t umin = 0, umax = ~0ULL; // w<=64 only
  std::vector<uint32_t> *sup = nullptr; // support: ids of Sym/UF nodes (lazily)
  const std::string *name = nullptr;    // Sym / UF name
  uint64_t h = 0;
  bool isC() const { return k == KConst; }
  APInt ap() const { return w <= 64 ? APInt(w, v) : *big; }
  bool isZero() const { return k == KConst && (w <= 64 ? v == 0 : big->isZero()); }
  bool isOnes() const { return k == KConst && (w <= 64 ? v == maskOf(w) : big->isAllOnes()); }
  static uint64_t maskOf(uint32_t w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
};
static inline uint64_t M(uint32_t w) { return Expr::maskOf(w); }

struct ExprHash { size_t operator()(const Expr *e) const { return e->h; } };
struct ExprEq { bool operator()(const Expr *x, const Expr *y) const {
  if (x->h != y->h || x->k != y->k || x->w != y->w || x->lo != y->lo || x->a.size() != y->a.size()) return false;
  if (x->k == KConst) { if (x->w <= 64) return x->v == y->v; return *x->big == *y->big; }
  if (x->k == KSym) return x->v == y->v;
  if (x->k == KUF && (x->name != y->name || x->v != y->v)) return false;
  for (size_t i = 0; i < x->a.size(); i++) if (x->a[i] != y->a[i]) return false;
  return true; } };

struct Pool {
  std::unordered_set<Expr *, ExprHash, ExprEq> tab;
  std::vector<Expr *> all;
  std::unordered_map<std::string, std::string *> names;
  const std::string *intern(const std::string &s) { auto &p = names[s]; if (!p) p = new std::string(s); return p; }
  static uint64_t mix(uint64_t h, uint64_t x) { h ^= x + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; return h ^ (h >> 32); }
  E put(Expr &t) {
    uint64_t h = mix(t.k * 1000003 + t.w, t.lo);
    if (t.k == KConst) h = mix(h, t.w <= 64 ? t.v : (uint64_t)(size_t)llvm::hash_value(*t.big));
    else if (t.k == KSym) h = mix(h, t.v);
    else { if (t.k == KUF) { h = mix(h, (uint64_t)t.name); h = mix(h, t.v); } for (E x : t.a) h = mix(h, x->id + 0x1000); }
    t.h = h;
    auto it = tab.find(&t);
    if (it != tab.end()) { return *it; }
    Expr *n = new Expr(t);
    if (t.big) n->big = new APInt(*t.big);
    n->id = all.size();
    range(n);
    all.push_back(n); tab.insert(n);
    return n;
  }
  void range(Expr *n) {
    if (n->w > 64) { n->umin = 0; n->umax = ~0ULL; return; }
    uint64_t m = M(n->w); n->umin = 0; n->umax = m;
    auto &a = n->a;
    switch (n->k) {
    case KConst: n->umin = n->umax = n->v; break;
    case KAdd: { if (a[0]->umax <= m - std::min(m, a[1]->umax)) { n->umin = a[0]->umin + a[1]->umin; n->umax = a[0]->umax + a[1]->umax; }
      else if (a[1]->isC() && a[0]->umin >= (m - a[1]->v + 1 & m) && a[1]->v != 0) { // always wraps: adding negative const
        uint64_t neg = (m - a[1]->v + 1) & m; n->umin = a[0]->umin - neg; n->umax = a[0]->umax - neg; } break; }
    case KSub: if (a[0]->umin >= a[1]->umax) { n->umin = a[0]->umin - a[1]->umax; n->umax = a[0]->umax - a[1]->umin; } break;
    case KMul: { unsigned __int128 p = (unsigned __int128)a[0]->umax * a[1]->umax; if (p <= m) { n->umax = (uint64_t)p; n->umin = a[0]->umin * a[1]->umin; } break; }
    case KUDiv: if (a[1]->umin > 0) { n->umax = a[0]->umax / a[1]->umin; n->umin = a[0]->umin / a[1]->umax; } break;
    case KURem: if (a[1]->umin > 0) { n->umax = std::min(a[0]->umax, a[1]->umax - 1); } break;
    case KAnd: n->umax = std::min(a[0]->umax, a[1]->umax); break;
    case KOr: { uint64_t x = a[0]->umax | a[1]->umax; for (int s = 1; s < 64; s <<= 1) x |= x >> s; n->umax = x & m; n->umin = std::max(a[0]->umin, a[1]->umin); break; }
    case KXor: { uint64_t x = a[0]->umax | a[1]->umax; for (int s = 1; s < 64; s <<= 1) x |= x >> s; n->umax = x & m; break; }
    case KLShr: if (a[1]->isC() && a[1]->v < n->w) { n->umin = a[0]->umin >> a[1]->v; n->umax = a[0]->umax >> a[1]->v; } else n->umax = a[0]->umax; break;
    case KShl: if (a[1]->isC() && a[1]->v < n->w && (a[0]->umax << a[1]->v >> a[1]->v) == a[0]->umax && (a[0]->umax << a[1]->v) <= m) { n->umin = a[0]->umin << a[1]->v; n->umax = a[0]->umax << a[1]->v; } break;
    case KConcat: { uint64_t lo = 0, hi = 0; for (E x : a) { lo = (x->w == 64 ? 0 : lo << x->w) | x->umin; hi = (x->w == 64 ? 0 : hi << x->w) | x->umax; } n->umin = lo; n->umax = hi; break; }
    case KExtract: if (a[0]->w <= 64 && n->lo == 0 && a[0]->umax <= m) { n->umin = a[0]->umin; n->umax = a[0]->umax; }
      else if (a[0]->w <= 64 && n->lo + n->w == a[0]->w) { n->umin = a[0]->umin >> n->lo; n->umax = a[0]->umax >> n->lo; } break;
    case KSExt: if (a[0]->w <= 64 && a[0]->umax < (1ULL << (a[0]->w - 1))) { n->umin = a[0]->umin; n->umax = a[0]->umax; } break;
    case KIte: n->umin = std::min(a[1]->umin, a[2]->umin); n->umax = std::max(a[1]->umax, a[2]->umax); break;
    default: break;
    }
  }
};
extern Pool P;
extern std::vector<std::string> symNames; // per symbol index

static inline E C(uint32_t w, uint64_t v) { Expr t; t.k = KConst; t.w = w; if (w > 64) { APInt b(w, v); t.big = &b; return P.put(t); } t.v = v & M(w); return P.put(t); }
static inline E CA(const APInt &x) { Expr t; t.k = KConst; t.w = x.getBitWidth(); if (t.w <= 64) { t.v = x.getZExtValue(); return P.put(t); } APInt b = x; t.big = &b; return P.put(t); }
static inline E T1() { static E e = C(1, 1); return e; }
static inline E F1() { static E e = C(1, 0); return e; }
E mkExtract(E x, uint32_t lo, uint32_t w);
E mkConcat(std::vector<E> v);
E mkIte(E c, E a, E b);
E mkBin(K k, E a, E b);
E mkNot(E a);
E mkLin(E a, E b, bool sub);
E mkLut(E a, E b, K k);
E mkRebuild(E e, const std::vector<E> &n);
APInt foldBin(K k, const APInt &a, const APInt &b);
E mkSExt(E a, uint32_t w);
static inline E mkZExt(E a, uint32_t w) { if (w == a->w) return a; if (a->isC()) return CA(a->ap().zext(w)); return mkConcat({C(w - a->w, 0), a}); }
static inline E mkEq(E a, E b) { return mkBin(KEq, a, b); }
static inline E mkAnd1(E a, E b) { return mkBin(KAnd, a, b); }
static inline E mkOr1(E a, E b) { return mkBin(KOr, a, b); }
E mkSym(uint32_t w, const std::string &name);
E mkUF(const std::string &name, E arg, uint32_t outw);
const std::vector<uint32_t> &supp(E e);

// ---------------- model / evaluation
struct Model {
  std::unordered_map<uint32_t, APInt> val;            // Sym id -> value
  std::map<const std::string *, std::unordered_map<std::string, APInt>> uf; // function tables
  APInt ufLookup(const std::string *name, uint32_t w, const APInt &x);
  void ufSet(const std::string *name, uint32_t w, const APInt &x, const APInt &r);
  std::unordered_map<uint32_t, APInt> memo;
};
APInt evalM(Model &m, E e);
// values of the abstracted functions on concrete arguments, as computed by the real code
extern std::map<const std::string *, std::map<std::string, APInt>> gFacts;
std::string ufKey(const APInt &x, uint32_t w);
std::string toStr(E e, int depth = 6);

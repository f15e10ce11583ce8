#include "expr.h"
#include "llvm/ADT/SmallString.h"
Pool P;
std::vector<std::string> symNames;

APInt foldBin(K k, const APInt &a, const APInt &b) {
  unsigned w = a.getBitWidth();
  switch (k) {
  case KAdd: return a + b; case KSub: return a - b; case KMul: return a * b;
  case KUDiv: return b.isZero() ? APInt::getAllOnes(w) : a.udiv(b);
  case KURem: return b.isZero() ? a : a.urem(b);
  case KSDiv: return b.isZero() ? (a.isNegative() ? APInt(w, 1) : APInt::getAllOnes(w)) : a.sdiv(b);
  case KSRem: return b.isZero() ? a : a.srem(b);
  case KAnd: return a & b; case KOr: return a | b; case KXor: return a ^ b;
  case KShl: return b.uge(w) ? APInt(w, 0) : a.shl((unsigned)b.getZExtValue());
  case KLShr: return b.uge(w) ? APInt(w, 0) : a.lshr((unsigned)b.getZExtValue());
  case KAShr: return b.uge(w) ? (a.isNegative() ? APInt::getAllOnes(w) : APInt(w, 0)) : a.ashr((unsigned)b.getZExtValue());
  case KEq: return APInt(1, a == b); case KUlt: return APInt(1, a.ult(b)); case KUle: return APInt(1, a.ule(b));
  case KSlt: return APInt(1, a.slt(b)); case KSle: return APInt(1, a.sle(b));
  default: abort();
  }
}
static bool isCmp(K k) { return k >= KEq && k <= KSle; }
static E raw(K k, uint32_t w, std::vector<E> a, uint32_t lo = 0) { Expr t; t.k = k; t.w = w; t.a = std::move(a); t.lo = lo; return P.put(t); }

E mkSym(uint32_t w, const std::string &name) { Expr t; t.k = KSym; t.w = w; t.v = symNames.size(); symNames.push_back(name); t.name = P.intern(name); return P.put(t); }
E mkUF(const std::string &name, E arg, uint32_t outw) { Expr t; t.k = KUF; t.w = outw; t.name = P.intern(name); t.v = arg->w; t.a = {arg}; return P.put(t); }

bool gWords = false;
static void linAdd(std::map<uint32_t, APInt> &m, APInt &c, E e, const APInt &f) {
  if (e->isC()) { c += e->ap() * f; return; }
  auto one = [&](E b, const APInt &g) { auto it = m.find(b->id); if (it == m.end()) m.emplace(b->id, g); else { it->second += g; if (it->second.isZero()) m.erase(it); } };
  if (e->k == KLin) { for (size_t i = 0; i + 1 < e->a.size(); i += 2) one(e->a[i], e->a[i + 1]->ap() * f); c += e->a.back()->ap() * f; return; }
  one(e, f);
}
static E linMake(std::map<uint32_t, APInt> &m, const APInt &c, uint32_t w) {
  if (m.empty()) return CA(c); if (m.size() == 1 && c.isZero() && m.begin()->second == 1) return P.all[m.begin()->first];
  std::vector<E> a; for (auto &kv : m) { a.push_back(P.all[kv.first]); a.push_back(CA(kv.second)); } a.push_back(CA(c)); return raw(KLin, w, a);
}
E mkLin(E a, E b, bool sub) { std::map<uint32_t, APInt> m; APInt c(a->w, 0), one(a->w, 1); linAdd(m, c, a, one); linAdd(m, c, b, sub ? -one : one); return linMake(m, c, a->w); }
static E lutMake(std::vector<E> v, uint32_t tt, uint32_t w) { // drop words without influence, sort
  for (size_t i = 0; i < v.size();) { bool used = false; uint32_t q = 0, n = 0; for (uint32_t m = 0; m < (1u << v.size()); m++) if (!(m >> i & 1)) { bool x = tt >> m & 1, y = tt >> (m | 1u << i) & 1; if (x != y) used = true; q |= (uint32_t)x << n; n++; } if (used) { i++; continue; } tt = q; v.erase(v.begin() + i); }
  if (v.empty()) return tt & 1 ? CA(APInt::getAllOnes(w)) : C(w, 0); if (v.size() == 1 && tt == 2) return v[0];
  return raw(KLut, w, v, tt);
}
E mkLut(E a, E b, K k) {
  std::vector<E> v; auto leaves = [&](E e) { if (e->isC()) return; if (e->k == KLut) v.insert(v.end(), e->a.begin(), e->a.end()); else v.push_back(e); }; leaves(a); leaves(b);
  auto byId = [](E x, E y) { return x->id < y->id; }; std::sort(v.begin(), v.end(), byId); v.erase(std::unique(v.begin(), v.end()), v.end()); if (v.size() > 5) return nullptr;
  auto val = [&](E e, uint32_t m) -> bool { if (e->isC()) return e->isOnes(); if (e->k != KLut) return m >> (std::lower_bound(v.begin(), v.end(), e, byId) - v.begin()) & 1; uint32_t x = 0; for (size_t i = 0; i < e->a.size(); i++) x |= (m >> (std::lower_bound(v.begin(), v.end(), e->a[i], byId) - v.begin()) & 1) << i; return e->lo >> x & 1; };
  uint32_t tt = 0; for (uint32_t m = 0; m < (1u << v.size()); m++) { bool x = val(a, m), y = val(b, m); tt |= (uint32_t)(k == KAnd ? x && y : k == KOr ? x || y : x != y) << m; }
  return lutMake(v, tt, a->w);
}
static E lutWith(uint32_t tt, const std::vector<E> &n) { // a truth table over new operands, as and/or/not of them
  E r = C(n[0]->w, 0); for (uint32_t m = 0; m < (1u << n.size()); m++) if (tt >> m & 1) { E t = nullptr; for (size_t i = 0; i < n.size(); i++) { E x = m >> i & 1 ? n[i] : mkBin(KXor, n[i], CA(APInt::getAllOnes(n[i]->w))); t = t ? mkBin(KAnd, t, x) : x; } r = mkBin(KOr, r, t); }
  return r;
}
E mkRebuild(E e, const std::vector<E> &n) {
  if (e->k == KLin) { std::map<uint32_t, APInt> m; APInt c = n.back()->ap(); for (size_t i = 0; i + 1 < n.size(); i += 2) linAdd(m, c, n[i], n[i + 1]->ap()); return linMake(m, c, e->w); }
  return lutWith(e->lo, n);
}
static bool hasC(E e) { if (e->k == KConcat) for (E x : e->a) if (x->isC()) return true; return false; }
E mkNot(E a) {
  if (a->isC()) return a->isZero() ? T1() : F1();
  return mkBin(KXor, a, T1());
}

bool gLia = false; // integer arithmetic (lia.cpp): keep sums whole
static E mkExtract1(E x, uint32_t lo, uint32_t w);
struct ExKey { E x; uint32_t lo, w; bool operator==(const ExKey &o) const { return x == o.x && lo == o.lo && w == o.w; } };
struct ExHash { size_t operator()(const ExKey &k) const { return ((size_t)k.x >> 4) * 0x9e3779b97f4a7c15ull ^ ((size_t)k.lo << 20 | k.w) * 0xc2b2ae3d27d4eb4full; } };
static std::unordered_map<ExKey, E, ExHash> exMemo;
E mkExtract(E x, uint32_t lo, uint32_t w) {
  if (lo == 0 && w == x->w) return x;
  if (lo + w > x->w) { fprintf(stderr, "bad extract\n"); abort(); }
  if (x->isC()) return CA(x->ap().extractBits(w, lo));
  switch (x->k) { case KAnd: case KOr: case KXor: case KAdd: case KSub: case KMul: case KIte: break; default: return mkExtract1(x, lo, w); }
  if (exMemo.size() > 4000000) exMemo.clear();
  auto it = exMemo.find({x, lo, w}); if (it != exMemo.end()) return it->second;
  E r = mkExtract1(x, lo, w); exMemo[{x, lo, w}] = r; return r;
}
static E mkExtract1(E x, uint32_t lo, uint32_t w) {
  switch (x->k) {
  case KExtract: return mkExtract(x->a[0], x->lo + lo, w);
  case KConcat: {
    uint32_t pos = x->w; std::vector<E> out;
    for (E p : x->a) { pos -= p->w; uint32_t l = std::max(lo, pos), h = std::min(lo + w, pos + p->w); if (l < h) out.push_back(mkExtract(p, l - pos, h - l)); }
    return mkConcat(out);
  }
  case KSExt: if (lo + w <= x->a[0]->w) return mkExtract(x->a[0], lo, w); break;
  case KAnd: case KOr: case KXor: return mkBin(x->k, mkExtract(x->a[0], lo, w), mkExtract(x->a[1], lo, w));
  case KAdd: case KSub: case KMul: if (lo == 0 && !gLia) return mkBin(x->k, mkExtract(x->a[0], 0, w), mkExtract(x->a[1], 0, w)); break;
  case KIte: if (x->a[1]->isC() || x->a[2]->isC()) return mkIte(x->a[0], mkExtract(x->a[1], lo, w), mkExtract(x->a[2], lo, w)); break;
  default: break;
  }
  return raw(KExtract, w, {x}, lo);
}

E mkConcat(std::vector<E> v) {
  std::vector<E> o;
  auto push = [&](E e) {
    if (!o.empty()) {
      E b = o.back();
      if (b->isC() && e->isC()) { o.back() = CA(b->ap().concat(e->ap())); return; }
      // adjacent extracts of the same base
      E bb = b->k == KExtract ? b->a[0] : nullptr; uint32_t bl = b->k == KExtract ? b->lo : 0;
      E eb = e->k == KExtract ? e->a[0] : nullptr; uint32_t el = e->k == KExtract ? e->lo : 0;
      if (bb && eb && bb == eb && el + e->w == bl) { o.back() = mkExtract(bb, el, b->w + e->w); return; }
      // extract high part with whole? (e is whole base not possible since widths) 
      if (b->k == KIte && e->k == KIte && b->a[0] == e->a[0] && b->a[1]->isC() && b->a[2]->isC() && e->a[1]->isC() && e->a[2]->isC()) {
        o.back() = mkIte(b->a[0], mkConcat({b->a[1], e->a[1]}), mkConcat({b->a[2], e->a[2]})); return; }
    }
    o.push_back(e);
  };
  for (E e : v) { if (e->k == KConcat) for (E x : e->a) push(x); else push(e); }
  if (o.size() == 1) return o[0];
  uint32_t w = 0; for (E e : o) w += e->w;
  return raw(KConcat, w, o);
}

E mkSExt(E a, uint32_t w) {
  if (a->w == w) return a;
  if (a->isC()) return CA(a->ap().sext(w));
  if (a->w <= 64 && a->w > 1 && a->umax < (1ULL << (a->w - 1))) return mkZExt(a, w);
  if (a->k == KConcat && a->a[0]->isC() && !a->a[0]->ap().isNegative()) return mkZExt(a, w);
  if (a->k == KSExt) return mkSExt(a->a[0], w);
  if (a->k == KIte && (a->a[1]->isC() && a->a[2]->isC())) return mkIte(a->a[0], mkSExt(a->a[1], w), mkSExt(a->a[2], w));
  return raw(KSExt, w, {a});
}

static int iteDepthConst(E e, int lim) { // is e an ite tree with all-const leaves (bounded)?
  std::vector<E> st{e}; std::unordered_set<E> seen; int n = 0;
  while (!st.empty()) { E x = st.back(); st.pop_back(); if (!seen.insert(x).second) continue; if (x->isC()) continue; if (x->k != KIte) return 0; if (++n > lim) return 0; st.push_back(x->a[1]); st.push_back(x->a[2]); }
  return n;
}
static std::unordered_map<E, int> iteMemo;
static bool constIte(E e) {
  if (e->k != KIte) return false;
  auto it = iteMemo.find(e); if (it != iteMemo.end()) return it->second;
  auto ok = [](E x) { return x->isC() || constIte(x); };
  bool r = ok(e->a[1]) && ok(e->a[2]);
  iteMemo[e] = r; return r;
}
static E mapIte(K k, E t, E other, bool left, std::unordered_map<E, E> &memo) {
  if (t->isC()) return left ? mkBin(k, t, other) : mkBin(k, other, t);
  auto it = memo.find(t); if (it != memo.end()) return it->second;
  E r = mkIte(t->a[0], mapIte(k, t->a[1], other, left, memo), mapIte(k, t->a[2], other, left, memo));
  memo[t] = r; return r;
}

E mkIte(E c, E a, E b) {
  if (c->isC()) return c->isZero() ? b : a;
  if (a == b) return a;
  if (c->k == KXor && c->a[1]->isC()) return mkIte(c->a[0], b, a); // not
  if (a->w == 1) {
    if (a->isC() && b->isC()) return a->isZero() ? mkNot(c) : c;
    if (a->isC()) return a->isZero() ? mkAnd1(mkNot(c), b) : mkOr1(c, b);
    if (b->isC()) return b->isZero() ? mkAnd1(c, a) : mkOr1(mkNot(c), a);
  }
  if (a->k == KIte && a->a[0] == c) a = a->a[1];
  if (b->k == KIte && b->a[0] == c) b = b->a[2];
  if (a == b) return a;
  if (b->k == KIte && b->a[1] == a) return mkIte(mkOr1(c, b->a[0]), a, b->a[2]);
  // common concat structure: push ite into pieces (keeps byte structure)
  if (a->k == KConcat && b->k == KConcat && a->a.size() == b->a.size()) {
    bool same = true; for (size_t i = 0; i < a->a.size(); i++) if (a->a[i]->w != b->a[i]->w) same = false;
    if (same) { bool shared = false; for (size_t i = 0; i < a->a.size(); i++) if (a->a[i] == b->a[i]) shared = true;
      if (shared) { std::vector<E> o; for (size_t i = 0; i < a->a.size(); i++) o.push_back(mkIte(c, a->a[i], b->a[i])); return mkConcat(o); } }
  }
  return raw(KIte, a->w, {c, a, b});
}

// split const mask into runs; apply bitwise op with const piecewise
static int runs(const APInt &m) { int n = 1; for (unsigned i = 1; i < m.getBitWidth(); i++) if (m[i] != m[i - 1]) n++; return n; }

static E bitwiseConst(K k, E x, E c) {
  APInt m = c->ap(); unsigned w = x->w; std::vector<E> out;
  int hi = w;
  while (hi > 0) {
    int lo = hi - 1; bool b = m[lo];
    while (lo > 0 && m[lo - 1] == b) lo--;
    unsigned pw = hi - lo;
    if (k == KAnd) out.push_back(b ? mkExtract(x, lo, pw) : C(pw, 0));
    else /*KOr*/ out.push_back(b ? CA(APInt::getAllOnes(pw)) : mkExtract(x, lo, pw));
    hi = lo;
  }
  return mkConcat(out);
}
// number of known-constant pieces
static bool hasConstPiece(E x) { if (x->k != KConcat) return false; for (E p : x->a) if (p->isC()) return true; return false; }

static E concatWise(K k, E a, E b) { // a,b at least one concat: split at all boundaries
  std::set<uint32_t> cuts; cuts.insert(0); cuts.insert(a->w);
  auto add = [&](E x) { if (x->k == KConcat) { uint32_t pos = x->w; for (E p : x->a) { pos -= p->w; cuts.insert(pos); } } };
  add(a); add(b);
  std::vector<uint32_t> v(cuts.begin(), cuts.end());
  std::vector<E> out;
  for (int i = (int)v.size() - 2; i >= 0; i--) out.push_back(mkBin(k, mkExtract(a, v[i], v[i + 1] - v[i]), mkExtract(b, v[i], v[i + 1] - v[i])));
  return mkConcat(out);
}
static bool disjointPieces(E a, E b) { // worthwhile: every boundary piece has a const on one side
  std::set<uint32_t> cuts; cuts.insert(0); cuts.insert(a->w);
  auto add = [&](E x) { if (x->k == KConcat) { uint32_t pos = x->w; for (E p : x->a) { pos -= p->w; cuts.insert(pos); } } };
  add(a); add(b);
  if (cuts.size() > 70) return false;
  return true;
}

E mkBin(K k, E a, E b) {
  if (a->w != b->w) { fprintf(stderr, "width mismatch %s %u %u\n", KNames[k], a->w, b->w); abort(); }
  uint32_t w = a->w; uint32_t rw = isCmp(k) ? 1 : w;
  if (a->isC() && b->isC()) return CA(foldBin(k, a->ap(), b->ap()));
  bool comm = k == KAdd || k == KMul || k == KAnd || k == KOr || k == KXor || k == KEq;
  if (comm && (a->isC() || (!b->isC() && a->id > b->id))) std::swap(a, b);
  if (gWords && (w == 32 || w == 64)) {
    if ((k == KAdd || k == KSub) && !(hasC(a) && hasC(b))) return mkLin(a, b, k == KSub);
    if ((k == KAnd || k == KOr || k == KXor) && !((hasC(a) || hasC(b)) && k != KXor) && (!b->isC() || ((a->k == KLut || a->k == KLin) && b->isOnes())) && !(a->isC())) { E r = mkLut(a, b, k); if (r) return r; }
  }
  // push into const-ite trees when the other side is const
  if (b->isC() && constIte(a) && k != KXor) { std::unordered_map<E, E> memo; return mapIte(k, a, b, true, memo); }
  if (a->isC() && constIte(b)) { std::unordered_map<E, E> memo; return mapIte(k, b, a, false, memo); }
  switch (k) {
  case KAdd:
    if (b->isZero()) return a;
    if (b->isC() && a->k == KAdd && a->a[1]->isC()) return mkBin(KAdd, a->a[0], CA(a->a[1]->ap() + b->ap()));
    if (b->isC() && a->k == KSub && a->a[0]->isC()) return mkBin(KSub, CA(a->a[0]->ap() + b->ap()), a->a[1]);
    if (!b->isC() && a->k == KAdd && a->a[1]->isC()) return mkBin(KAdd, mkBin(KAdd, a->a[0], b), a->a[1]);
    if (!b->isC() && b->k == KAdd && b->a[1]->isC()) return mkBin(KAdd, mkBin(KAdd, a, b->a[0]), b->a[1]);
    if (a->k == KSub && a->a[1] == b) return a->a[0];
    if (b->k == KSub && b->a[1] == a) return b->a[0];
    if (w == 1) return mkBin(KXor, a, b);
    // disjoint bits: zext/shift style adds become concat
    if ((a->k == KConcat && b->k == KConcat)) {
      // check every overlapping piece has a zero on one side
      std::set<uint32_t> cuts; cuts.insert(0); cuts.insert(w);
      auto add = [&](E x) { uint32_t pos = x->w; for (E p : x->a) { pos -= p->w; cuts.insert(pos); } };
      add(a); add(b); std::vector<uint32_t> v(cuts.begin(), cuts.end()); bool ok = true;
      for (size_t i = 0; i + 1 < v.size() && ok; i++) { E p = mkExtract(a, v[i], v[i + 1] - v[i]), q = mkExtract(b, v[i], v[i + 1] - v[i]); if (!p->isZero() && !q->isZero()) ok = false; }
      if (ok) return mkBin(KOr, a, b);
    }
    break;
  case KSub:
    if (a == b) return C(w, 0);
    if (b->isC()) return mkBin(KAdd, a, CA(-b->ap()));
    if (a->k == KAdd && a->a[0] == b) return a->a[1];
    if (a->k == KAdd && a->a[1] == b) return a->a[0];
    if (w == 1) return mkBin(KXor, a, b);
    if (a->k == KAdd && a->a[1]->isC()) return mkBin(KAdd, mkBin(KSub, a->a[0], b), a->a[1]);
    if (b->k == KAdd && b->a[1]->isC()) return mkBin(KAdd, mkBin(KSub, a, b->a[0]), CA(-b->a[1]->ap()));
    break;
  case KMul:
    if (b->isZero()) return b;
    if (b->isC() && b->ap() == 1) return a;
    if (b->isC() && b->ap().isPowerOf2()) return mkBin(KShl, a, C(w, b->ap().logBase2()));
    if (b->isC() && a->k == KMul && a->a[1]->isC()) return mkBin(KMul, a->a[0], CA(a->a[1]->ap() * b->ap()));
    if (w == 1) return mkBin(KAnd, a, b);
    break;
  case KUDiv:
    if (b->isC() && b->ap() == 1) return a;
    if (b->isC() && b->ap().isPowerOf2()) return mkBin(KLShr, a, C(w, b->ap().logBase2()));
    if (w <= 64 && b->umin > 0 && a->umax < b->umin) return C(w, 0);
    break;
  case KURem:
    if (b->isC() && b->ap() == 1) return C(w, 0);
    if (b->isC() && b->ap().isPowerOf2()) return mkBin(KAnd, a, CA(b->ap() - 1));
    if (w <= 64 && b->umin > 0 && a->umax < b->umin) return a;
    break;
  case KSDiv:
    if (b->isC() && b->ap() == 1) return a;
    if (w <= 64 && w > 1 && a->umax < (1ULL << (w - 1)) && b->umax < (1ULL << (w - 1))) return mkBin(KUDiv, a, b);
    break;
  case KSRem:
    if (w <= 64 && w > 1 && a->umax < (1ULL << (w - 1)) && b->umax < (1ULL << (w - 1))) return mkBin(KURem, a, b);
    break;
  case KAnd:
    if (a == b) return a;
    if (b->isZero()) return b;
    if (b->isOnes()) return a;
    if (w == 1) {
      if (a->k == KXor && a->a[1]->isC() && a->a[0] == b) return F1();
      if (b->k == KXor && b->a[1]->isC() && b->a[0] == a) return F1();
      if (b->k == KAnd && (b->a[0] == a || b->a[1] == a)) return b;
      if (a->k == KAnd && (a->a[0] == b || a->a[1] == b)) return a;
      break;
    }
    if (b->isC() && runs(b->ap()) <= 9) return bitwiseConst(KAnd, a, b);
    if ((hasConstPiece(a) || hasConstPiece(b)) && disjointPieces(a, b)) return concatWise(k, a, b);
    break;
  case KOr:
    if (a == b) return a;
    if (b->isZero()) return a;
    if (b->isOnes()) return b;
    if (w == 1) {
      if (a->k == KXor && a->a[1]->isC() && a->a[0] == b) return T1();
      if (b->k == KXor && b->a[1]->isC() && b->a[0] == a) return T1();
      if (b->k == KOr && (b->a[0] == a || b->a[1] == a)) return b;
      if (a->k == KOr && (a->a[0] == b || a->a[1] == b)) return a;
      break;
    }
    if (b->isC() && runs(b->ap()) <= 9) return bitwiseConst(KOr, a, b);
    if ((hasConstPiece(a) || hasConstPiece(b)) && disjointPieces(a, b)) return concatWise(k, a, b);
    break;
  case KXor:
    if (a == b) return C(w, 0);
    if (b->isZero()) return a;
    if (b->isC() && a->k == KXor && a->a[1]->isC()) return mkBin(KXor, a->a[0], CA(a->a[1]->ap() ^ b->ap()));
    if (w == 1 && b->isC()) { // not
      if (a->k == KUlt) return mkBin(KUle, a->a[1], a->a[0]);
      if (a->k == KUle) return mkBin(KUlt, a->a[1], a->a[0]);
      if (a->k == KSlt) return mkBin(KSle, a->a[1], a->a[0]);
      if (a->k == KSle) return mkBin(KSlt, a->a[1], a->a[0]);
    }
    if (w > 1 && (hasConstPiece(a) || hasConstPiece(b)) && disjointPieces(a, b)) return concatWise(k, a, b);
    break;
  case KShl: case KLShr: case KAShr:
    if (b->isZero()) return a;
    if (a->isZero()) return a;
    if (b->isC()) {
      APInt s = b->ap();
      if (s.uge(w)) return k == KAShr ? mkSExt(mkExtract(a, w - 1, 1), w) : C(w, 0);
      unsigned n = s.getZExtValue();
      if (k == KShl) return mkConcat({mkExtract(a, 0, w - n), C(n, 0)});
      if (k == KLShr) return mkConcat({C(n, 0), mkExtract(a, n, w - n)});
      return mkSExt(mkExtract(a, n, w - n), w);
    }
    break;
  case KEq:
    if (a == b) return T1();
    if (w <= 64 && (a->umax < b->umin || b->umax < a->umin)) return F1();
    if (w == 1) { if (b->isC()) return b->isZero() ? mkNot(a) : a; }
    if (b->isC()) {
      if (a->k == KAdd && a->a[1]->isC()) return mkEq(a->a[0], CA(b->ap() - a->a[1]->ap()));
      if (a->k == KSub && a->a[0]->isC()) return mkEq(a->a[1], CA(a->a[0]->ap() - b->ap()));
      if (a->k == KXor && a->a[1]->isC()) return mkEq(a->a[0], CA(b->ap() ^ a->a[1]->ap()));
      if (b->isZero() && a->k == KSub) return mkEq(a->a[0], a->a[1]);
      if (a->k == KSExt) { E x = a->a[0]; APInt t = b->ap().trunc(x->w); if (t.sext(w) != b->ap()) return F1(); return mkEq(x, CA(t)); }
      if (a->k == KConcat) { E r = T1(); uint32_t pos = w; for (E p : a->a) { pos -= p->w; r = mkAnd1(r, mkEq(p, mkExtract(b, pos, p->w))); if (r->isZero()) return r; } return r; }
      if (a->k == KIte) {
        if (a->a[1]->isC()) { if (a->a[1] == b) return mkOr1(a->a[0], mkEq(a->a[2], b)); return mkAnd1(mkNot(a->a[0]), mkEq(a->a[2], b)); }
        if (a->a[2]->isC()) { if (a->a[2] == b) return mkOr1(mkNot(a->a[0]), mkEq(a->a[1], b)); return mkAnd1(a->a[0], mkEq(a->a[1], b)); }
      }
    }
    if (a->k == KConcat || b->k == KConcat) {
      // split when both concat, at common boundaries
      if (a->k == KConcat && b->k == KConcat) {
        std::set<uint32_t> ca, cb; uint32_t pos = w; for (E p : a->a) { pos -= p->w; ca.insert(pos); } pos = w; for (E p : b->a) { pos -= p->w; cb.insert(pos); }
        std::vector<uint32_t> v; for (uint32_t x : ca) if (cb.count(x)) v.push_back(x);
        v.push_back(w);
        if (v.size() > 2) { E r = T1(); for (size_t i = 0; i + 1 < v.size(); i++) { r = mkAnd1(r, mkEq(mkExtract(a, v[i], v[i + 1] - v[i]), mkExtract(b, v[i], v[i + 1] - v[i]))); if (r->isZero()) return r; } return r; }
      }
    }
    if (a->k == KAdd && b->k == KAdd) { if (a->a[0] == b->a[0]) return mkEq(a->a[1], b->a[1]); if (a->a[1] == b->a[1]) return mkEq(a->a[0], b->a[0]); }
    break;
  case KUlt:
    if (a == b) return F1();
    if (b->isZero()) return F1();
    if (w <= 64) { if (a->umax < b->umin) return T1(); if (a->umin >= b->umax) return F1(); }
    if (b->isC() && b->ap() == 1) return mkEq(a, C(w, 0));
    if (a->isC() && a->isZero()) return mkNot(mkEq(b, a));
    if (a->k == KConcat && b->k == KConcat && a->a[0]->isZero() && b->a[0]->isZero()) { uint32_t z = std::min(a->a[0]->w, b->a[0]->w); return mkBin(k, mkExtract(a, 0, w - z), mkExtract(b, 0, w - z)); }
    if (a->k == KConcat && a->a[0]->isZero() && b->isC()) { uint32_t z = a->a[0]->w; if (b->ap().getActiveBits() > w - z) return T1(); return mkBin(k, mkExtract(a, 0, w - z), mkExtract(b, 0, w - z)); }
    if (b->k == KConcat && b->a[0]->isZero() && a->isC()) { uint32_t z = b->a[0]->w; if (a->ap().getActiveBits() > w - z) return F1(); return mkBin(k, mkExtract(a, 0, w - z), mkExtract(b, 0, w - z)); }
    break;
  case KUle:
    if (a == b) return T1();
    if (a->isZero()) return T1();
    if (b->isOnes()) return T1();
    if (w <= 64) { if (a->umax <= b->umin) return T1(); if (a->umin > b->umax) return F1(); }
    if (b->isZero()) return mkEq(a, b);
    if (a->isC()) return mkBin(KUlt, CA(a->ap() - 1), b);
    if (b->isC()) return mkBin(KUlt, a, CA(b->ap() + 1));
    if (a->k == KConcat && b->k == KConcat && a->a[0]->isZero() && b->a[0]->isZero()) { uint32_t z = std::min(a->a[0]->w, b->a[0]->w); return mkBin(k, mkExtract(a, 0, w - z), mkExtract(b, 0, w - z)); }
    break;
  case KSlt: case KSle: {
    if (a == b) return k == KSle ? T1() : F1();
    if (w <= 64 && w > 1) {
      uint64_t s = 1ULL << (w - 1);
      if (a->umax < s && b->umax < s) return mkBin(k == KSlt ? KUlt : KUle, a, b);
      if (a->umax < s && b->umin >= s) return F1();
      if (a->umin >= s && b->umax < s) return T1();
    }
    if (a->k == KSExt && b->k == KSExt && a->a[0]->w == b->a[0]->w) return mkBin(k, a->a[0], b->a[0]);
    if (a->k == KSExt && b->isC()) { E x = a->a[0]; APInt t = b->ap().trunc(x->w); if (t.sext(w) == b->ap()) return mkBin(k, x, CA(t)); return b->ap().isNegative() ? F1() : T1(); }
    if (b->k == KSExt && a->isC()) { E x = b->a[0]; APInt t = a->ap().trunc(x->w); if (t.sext(w) == a->ap()) return mkBin(k, CA(t), x); return a->ap().isNegative() ? T1() : F1(); }
    break;
  }
  default: break;
  }
  // not() canonicalisation produced above may loop for KUle const; raw otherwise
  return raw(k, rw, {a, b});
}

const std::vector<uint32_t> &supp(E e) {
  if (e->sup) return *e->sup;
  std::set<uint32_t> s;
  std::vector<E> st{e}; std::unordered_set<E> seen;
  while (!st.empty()) {
    E x = st.back(); st.pop_back();
    if (!seen.insert(x).second) continue;
    if (x->sup && x != e) { s.insert(x->sup->begin(), x->sup->end()); continue; }
    if (x->k == KSym || x->k == KUF) s.insert(x->id);
    for (E y : x->a) st.push_back(y);
  }
  e->sup = new std::vector<uint32_t>(s.begin(), s.end());
  return *e->sup;
}

std::map<const std::string *, std::map<std::string, APInt>> gFacts;
std::string ufKey(const APInt &x, uint32_t w) { std::string key((const char *)x.getRawData(), x.getNumWords() * 8); key += std::to_string(x.getBitWidth()) + "/" + std::to_string(w); return key; }
APInt Model::ufLookup(const std::string *name, uint32_t w, const APInt &x) {
  auto &t = uf[name];
  std::string key((const char *)x.getRawData(), x.getNumWords() * 8); key += std::to_string(x.getBitWidth()) + "/" + std::to_string(w);
  auto &ft = gFacts[name]; auto fi = ft.find(key); if (fi != ft.end()) return fi->second;
  auto it = t.find(key); if (it != t.end()) return it->second;
  // default interpretation: a deterministic pseudo-random function
  APInt r(w, 0); uint64_t h = 0x1234567; for (char c : key) h = Pool::mix(h, (unsigned char)c); for (char c : *name) h = Pool::mix(h, (unsigned char)c);
  for (uint32_t i = 0; i < w; i += 64) { h = Pool::mix(h, i + 77); uint32_t n = std::min(64u, w - i); r.insertBits(APInt(n, h & M(n)), i); }
  t.emplace(key, r); return r;
}
void Model::ufSet(const std::string *name, uint32_t w, const APInt &x, const APInt &r) {
  std::string key((const char *)x.getRawData(), x.getNumWords() * 8); key += std::to_string(x.getBitWidth()) + "/" + std::to_string(w);
  uf[name].insert_or_assign(key, r);
}
APInt evalM(Model &m, E e) {
  if (e->isC()) return e->ap();
  auto it = m.memo.find(e->id); if (it != m.memo.end()) return it->second;
  APInt r(e->w, 0);
  switch (e->k) {
  case KSym: { auto j = m.val.find(e->id); if (j != m.val.end()) r = j->second; break; }
  case KUF: { APInt x = evalM(m, e->a[0]); r = m.ufLookup(e->name, e->w, x); break; }
  case KConcat: { bool first = true; for (E x : e->a) { APInt v = evalM(m, x); if (first) { r = v; first = false; } else r = r.concat(v); } break; }
  case KExtract: r = evalM(m, e->a[0]).extractBits(e->w, e->lo); break;
  case KSExt: r = evalM(m, e->a[0]).sext(e->w); break;
  case KIte: r = evalM(m, e->a[0]).getBoolValue() ? evalM(m, e->a[1]) : evalM(m, e->a[2]); break;
  case KLin: r = e->a.back()->ap(); for (size_t i = 0; i + 1 < e->a.size(); i += 2) r += evalM(m, e->a[i]) * e->a[i + 1]->ap(); break;
  case KLut: { std::vector<APInt> v; for (E x : e->a) v.push_back(evalM(m, x)); for (uint32_t b = 0; b < e->w; b++) { uint32_t x = 0; for (size_t i = 0; i < v.size(); i++) x |= (uint32_t)v[i][b] << i; if (e->lo >> x & 1) r.setBit(b); } break; }
  default: r = foldBin(e->k, evalM(m, e->a[0]), evalM(m, e->a[1]));
  }
  m.memo.emplace(e->id, r);
  return r;
}

std::string toStr(E e, int d) {
  if (e->isC()) { llvm::SmallString<64> s; e->ap().toString(s, 16, false, true); return std::string(s.str()) + ":" + std::to_string(e->w); }
  if (e->k == KSym) return *e->name;
  if (d == 0) return "...";
  std::string s = "(" + std::string(e->k == KUF ? ("uf_" + *e->name) : KNames[e->k]);
  if (e->k == KExtract) s += "[" + std::to_string(e->lo) + "+" + std::to_string(e->w) + "]";
  for (E x : e->a) s += " " + toStr(x, d - 1);
  return s + ")";
}

// Normal form of bit-vector expressions as polynomials over GF(2).
// Every bit is a sum (xor) of monomials over base bits (bits of symbols, or of sub-expressions that are
// not worth expanding). Sub-expressions over at most MAXV base bits are tabulated exactly, so table look-ups
// compose. Used for conditions over checksums (bech32, descriptors), where plain SAT search is hopeless.
#include "gf2.h"
#include <algorithm>
#include <functional>
typedef uint32_t Mono;                  // index into monos
typedef std::vector<Mono> Poly;         // sorted; empty = 0; {0} = 1
static std::vector<std::vector<uint32_t>> monos; static std::map<std::vector<uint32_t>, Mono> monoId;
static std::vector<std::pair<E, uint32_t>> vars; static std::map<std::pair<uint32_t, uint32_t>, uint32_t> varId;
static const unsigned MAXV = 12; static const size_t MAXP = 3000;
static Mono mono(const std::vector<uint32_t> &v) { auto it = monoId.find(v); if (it != monoId.end()) return it->second; Mono m = monos.size(); monos.push_back(v); monoId[v] = m; return m; }
static uint32_t var(E e, uint32_t b) { auto k = std::make_pair(e->id, b); auto it = varId.find(k); if (it != varId.end()) return it->second; uint32_t i = vars.size(); vars.push_back({e, b}); varId[k] = i; return i; }
static std::map<Poly, uint32_t> derId; static std::map<uint32_t, Poly> derOf; // variables standing for a whole polynomial
static uint32_t derived(const Poly &p) { auto it = derId.find(p); if (it != derId.end()) return it->second; uint32_t i = vars.size(); vars.push_back({nullptr, 0}); derId[p] = i; derOf[i] = p; return i; }
static void init() { if (monos.empty()) mono({}); }
static Poly padd(const Poly &a, const Poly &b) { Poly r; r.reserve(a.size() + b.size()); std::set_symmetric_difference(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(r)); return r; }
static bool isC(const Poly &p) { return p.empty() || (p.size() == 1 && p[0] == 0); }
static bool pmul(const Poly &a, const Poly &b, Poly &r) {
  if (a.empty() || b.empty()) { r.clear(); return true; }
  if (isC(a)) { r = b; return true; } if (isC(b)) { r = a; return true; }
  if (a == b) { r = a; return true; }
  if (a.size() * b.size() > 600) return false;
  std::vector<Mono> t;
  for (Mono x : a) for (Mono y : b) { std::vector<uint32_t> u; std::set_union(monos[x].begin(), monos[x].end(), monos[y].begin(), monos[y].end(), std::back_inserter(u)); if (u.size() > 24) return false; t.push_back(mono(u)); }
  std::sort(t.begin(), t.end()); r.clear();
  for (size_t i = 0; i < t.size();) { size_t j = i; while (j < t.size() && t[j] == t[i]) j++; if ((j - i) & 1) r.push_back(t[i]); i = j; }
  return true;
}
struct TT { bool ok = false; std::vector<uint32_t> v; std::vector<uint64_t> t; }; // w <= 64
struct N { std::vector<Poly> *b = nullptr; TT *t = nullptr; };
static std::unordered_map<uint32_t, N> memo;
static std::vector<Poly> &bits(E e);
static TT &table(E e);
static void opaque(E e, std::vector<Poly> &r) { r.resize(e->w); for (uint32_t i = 0; i < e->w; i++) r[i] = {mono({var(e, i)})}; }
static Poly fromTT(const std::vector<uint32_t> &v, std::vector<uint8_t> f) { // Moebius transform
  size_t n = v.size();
  for (size_t i = 0; i < n; i++) for (size_t m = 0; m < (1u << n); m++) if (m >> i & 1) f[m] ^= f[m ^ (1u << i)];
  Poly p, ex; for (size_t m = 0; m < (1u << n); m++) if (f[m]) { if (m && !(m & (m - 1))) { auto d = derOf.find(v[__builtin_ctz(m)]); if (d != derOf.end()) { ex = padd(ex, d->second); continue; } }
    std::vector<uint32_t> u; for (size_t i = 0; i < n; i++) if (m >> i & 1) u.push_back(v[i]); p.push_back(mono(u)); }
  std::sort(p.begin(), p.end()); return padd(p, ex);
}
static bool tabPoly0(const std::vector<Poly> &b, TT &o);
// table of a vector of polynomials, if they range over few variables
static bool tabPoly(const std::vector<Poly> &b, TT &o) {
  if (b.size() > 64) return false;
  // per bit, so that slices of one value are treated alike: long sums become one derived variable
  std::vector<Poly> d(b.size());
  for (size_t i = 0; i < b.size(); i++) { Poly p = b[i]; if (p.size() <= 9) { d[i] = p; continue; }
    bool affine = true; for (Mono m : p) if (monos[m].size() > 1) affine = false; if (!affine && p.size() <= 300) { d[i] = p; continue; }
    bool one = p[0] == 0; if (one) p.erase(p.begin()); d[i] = {mono({derived(p)})}; if (one) d[i] = padd(d[i], {0}); }
  if (tabPoly0(d, o) || tabPoly0(b, o)) return true;
  for (size_t i = 0; i < b.size(); i++) { Poly p = b[i]; bool one = !p.empty() && p[0] == 0; if (one) p.erase(p.begin());
    if (p.empty() || (p.size() == 1 && monos[p[0]].size() == 1)) d[i] = p; else d[i] = {mono({derived(p)})};
    if (one) d[i] = padd(d[i], {0}); }
  return tabPoly0(d, o);
}
static bool tabPoly0(const std::vector<Poly> &b, TT &o) {
  std::set<uint32_t> s; for (auto &p : b) { if (p.size() > 1100) return false; for (Mono m : p) for (uint32_t x : monos[m]) { s.insert(x); if (s.size() > MAXV) return false; } }
  o.v.assign(s.begin(), s.end()); size_t n = o.v.size(); o.t.assign(1u << n, 0);
  for (size_t i = 0; i < b.size(); i++) {
    std::vector<uint8_t> f(1u << n, 0);
    for (Mono m : b[i]) { size_t k = 0; for (uint32_t x : monos[m]) k |= 1u << (std::lower_bound(o.v.begin(), o.v.end(), x) - o.v.begin()); f[k] ^= 1; }
    for (size_t j = 0; j < n; j++) for (size_t m = 0; m < (1u << n); m++) if (m >> j & 1) f[m] ^= f[m ^ (1u << j)];
    for (size_t m = 0; m < (1u << n); m++) if (f[m]) o.t[m] |= 1ULL << i;
  }
  o.ok = true; return true;
}
static TT &table(E e) {
  N &n0 = memo[e->id]; if (n0.t) return *n0.t;
  TT *t = new TT();
  if (e->w <= 64) {
    if (e->isC()) { t->ok = true; t->t = {e->v}; }
    else if (e->k != KSym && e->k != KUF && e->k != KLin && e->k != KLut && e->k != KExtract && e->k != KConcat && e->k != KSExt && e->k != KXor) {
      std::vector<TT *> c; bool ok = true; std::set<uint32_t> s;
      for (E x : e->a) { TT &y = table(x); if (!y.ok || x->w > 64) { ok = false; break; } c.push_back(&y); s.insert(y.v.begin(), y.v.end()); if (s.size() > MAXV) { ok = false; break; } }
      if (ok) {
        t->v.assign(s.begin(), s.end()); size_t n = t->v.size(); t->t.resize(1u << n);
        std::vector<std::vector<int>> pos; for (TT *y : c) { std::vector<int> p; for (uint32_t x : y->v) p.push_back(std::lower_bound(t->v.begin(), t->v.end(), x) - t->v.begin()); pos.push_back(p); }
        for (size_t m = 0; m < (1u << n); m++) {
          uint64_t a[3]; for (size_t i = 0; i < c.size(); i++) { size_t k = 0; for (size_t j = 0; j < pos[i].size(); j++) if (m >> pos[i][j] & 1) k |= 1u << j; a[i] = c[i]->t[k]; }
          if (e->k == KIte) t->t[m] = a[0] & 1 ? a[1] : a[2];
          else t->t[m] = foldBin(e->k, APInt(e->a[0]->w, a[0]), APInt(e->a[1]->w, a[1])).getZExtValue();
        }
        t->ok = true;
        // drop variables without influence, so that composed look-ups stay small
        for (size_t i = 0; i < t->v.size();) {
          bool used = false; size_t n2 = t->v.size(); for (size_t m = 0; m < (1u << n2) && !used; m++) if (!(m >> i & 1) && t->t[m] != t->t[m | 1u << i]) used = true;
          if (used) { i++; continue; }
          std::vector<uint64_t> q; for (size_t m = 0; m < (1u << n2); m++) if (!(m >> i & 1)) q.push_back(t->t[m]);
          t->t = q; t->v.erase(t->v.begin() + i);
        }
      }
    }
    if (!t->ok) { memo[e->id].t = t; /* bits() must not come back here */ auto &b = bits(e); TT o; if (tabPoly(b, o)) *t = o; }
  }
  memo[e->id].t = t; return *t;
}
static std::vector<Poly> &bits(E e) {
  { N &n = memo[e->id]; if (n.b) return *n.b; }
  auto *r = new std::vector<Poly>(e->w); bool ok = true; const Poly one = {0};
  auto B = [&](int i) -> std::vector<Poly> & { return bits(e->a[i]); };
  auto tryTable = [&]() { // exact tabulation of a node over few variables
    if (e->w > 64) return false; for (E x : e->a) if (x->w > 64) return false;
    // avoid mutual recursion for structural nodes
    TT &t = table(e); if (!t.ok) return false;
    for (uint32_t i = 0; i < e->w; i++) { std::vector<uint8_t> f(t.t.size()); for (size_t m = 0; m < t.t.size(); m++) f[m] = t.t[m] >> i & 1; (*r)[i] = fromTT(t.v, f); }
    return true; };
  switch (e->k) {
  case KConst: { APInt v = e->ap(); for (uint32_t i = 0; i < e->w; i++) if (v[i]) (*r)[i] = one; break; }
  case KSym: case KUF: case KLin: case KLut: opaque(e, *r); break;
  case KConcat: { uint32_t p = e->w; for (E x : e->a) { p -= x->w; auto &b = bits(x); for (uint32_t i = 0; i < x->w; i++) (*r)[p + i] = b[i]; } break; }
  case KExtract: { auto &b = B(0); for (uint32_t i = 0; i < e->w; i++) (*r)[i] = b[e->lo + i]; break; }
  case KSExt: { auto &b = B(0); uint32_t w = e->a[0]->w; for (uint32_t i = 0; i < e->w; i++) (*r)[i] = b[std::min(i, w - 1)]; break; }
  case KXor: { auto &a = B(0), &b = B(1); for (uint32_t i = 0; i < e->w && ok; i++) { (*r)[i] = padd(a[i], b[i]); if ((*r)[i].size() > MAXP) ok = false; } break; }
  case KAnd: case KOr: { auto &a = B(0), &b = B(1); bool nc = false; for (uint32_t i = 0; i < e->w; i++) if (!isC(a[i]) && !isC(b[i]) && a[i] != b[i]) nc = true; if (nc && tryTable()) break; for (uint32_t i = 0; i < e->w && ok; i++) { Poly p; ok = pmul(a[i], b[i], p); if (ok) (*r)[i] = e->k == KAnd ? p : padd(padd(a[i], b[i]), p); if ((*r)[i].size() > MAXP) ok = false; } break; }
  case KShl: case KLShr: case KAShr: if (e->a[1]->isC() && e->w <= 64 && e->a[1]->v < e->w) { auto &a = B(0); uint32_t k = e->a[1]->v;
      for (uint32_t i = 0; i < e->w; i++) { if (e->k == KShl) { if (i >= k) (*r)[i] = a[i - k]; } else if (i + k < e->w) (*r)[i] = a[i + k]; else if (e->k == KAShr) (*r)[i] = a[e->w - 1]; } } else ok = tryTable(); break;
  case KSub: case KAdd: { auto &a = B(0), &b = B(1); bool disj = true, azero = true; for (uint32_t i = 0; i < e->w; i++) { if (!a[i].empty()) azero = false; if (!a[i].empty() && !b[i].empty()) disj = false; }
      if (e->k == KAdd && disj) { for (uint32_t i = 0; i < e->w; i++) (*r)[i] = padd(a[i], b[i]); break; }
      if (e->k == KSub && azero) { bool hi = false; for (uint32_t i = 1; i < e->w; i++) if (!b[i].empty()) hi = true; if (!hi) { for (uint32_t i = 0; i < e->w; i++) (*r)[i] = b[0]; break; } }
      ok = tryTable(); break; }
  case KIte: { if (tryTable()) break; auto &c = B(0), &a = B(1), &b = B(2); for (uint32_t i = 0; i < e->w && ok; i++) { Poly d = padd(a[i], b[i]), p; ok = pmul(c[0], d, p); if (ok) (*r)[i] = padd(b[i], p); if ((*r)[i].size() > 300) ok = false; } break; }
  case KEq: { auto &a = B(0), &b = B(1); bool all0 = true, one1 = false; std::vector<Poly> d(a.size()); for (size_t i = 0; i < a.size(); i++) { d[i] = padd(a[i], b[i]); if (!d[i].empty()) all0 = false; if (d[i].size() == 1 && d[i][0] == 0) one1 = true; }
      if (all0) (*r)[0] = one; else if (one1) (*r)[0].clear(); else { TT t; if (d.size() <= 64 && tabPoly(d, t)) { std::vector<uint8_t> f(t.t.size()); for (size_t m = 0; m < t.t.size(); m++) f[m] = t.t[m] == 0; (*r)[0] = fromTT(t.v, f); } else ok = false; } break; }
  default: ok = tryTable();
  }
  if (!ok) { r->assign(e->w, Poly()); opaque(e, *r); }
  memo[e->id].b = r; return *r;
}
static E build(const Poly &p);
static E varE(uint32_t v) { auto d = derOf.find(v); if (d != derOf.end()) return build(d->second); return mkExtract(vars[v].first, vars[v].second, 1); }
static E build(const Poly &p) {
  E r = nullptr;
  for (Mono m : p) { E t; if (monos[m].empty()) t = T1(); else { t = nullptr; for (uint32_t v : monos[m]) t = t ? mkBin(KAnd, t, varE(v)) : varE(v); } r = r ? mkBin(KXor, r, t) : t; }
  return r ? r : F1();
}
// decision tree of a truth table (shared by content)
static E shannon(const TT &t) {
  std::map<std::pair<size_t, std::vector<uint8_t>>, E> sh;
  std::function<E(size_t, const std::vector<uint8_t> &)> go = [&](size_t k, const std::vector<uint8_t> &f) -> E {
    bool all0 = true, all1 = true; for (uint8_t x : f) (x ? all0 : all1) = false;
    if (all0) return F1(); if (all1) return T1();
    auto key = std::make_pair(k, f); auto it = sh.find(key); if (it != sh.end()) return it->second;
    std::vector<uint8_t> lo(f.begin(), f.begin() + f.size() / 2), hi(f.begin() + f.size() / 2, f.end());
    E r = lo == hi ? go(k - 1, lo) : mkIte(varE(t.v[k - 1]), go(k - 1, hi), go(k - 1, lo));
    sh[key] = r; return r; };
  std::vector<uint8_t> f(t.t.size()); for (size_t m = 0; m < f.size(); m++) f[m] = t.t[m] & 1;
  return go(t.v.size(), f);
}
static std::unordered_map<uint32_t, E> nmemo;
E gf2norm(E c) {

  if (c->isC() || c->w != 1) return c;
  auto it = nmemo.find(c->id); if (it != nmemo.end()) return it->second;
  init(); E r = c;
  if (c->k == KXor && c->a[1]->isC()) r = mkNot(gf2norm(c->a[0]));
  else if ((c->k == KAnd || c->k == KOr) && isC(bits(c)[0])) r = bits(c)[0].empty() ? F1() : T1();
  else if ((c->k == KAnd || c->k == KOr) && bits(c)[0].size() > 64) { TT tt; if (tabPoly0({bits(c)[0]}, tt)) r = shannon(tt); else { E a = gf2norm(c->a[0]), b = gf2norm(c->a[1]); r = mkBin(c->k, a, b); } }
  else if (c->k == KAnd || c->k == KOr) { E a = gf2norm(c->a[0]), b = gf2norm(c->a[1]); r = mkBin(c->k, a, b); }
  else {
    Poly p = bits(c)[0]; // copy: the memo may grow
    TT tt; if (isC(p)) r = p.empty() ? F1() : T1();
    else if (p.size() > 6 && tabPoly0({p}, tt)) r = shannon(tt);
    else if (c->k == KEq && c->a[0]->w > 1) {
      std::vector<Poly> a = bits(c->a[0]), b = bits(c->a[1]); size_t tot = 0; std::set<Poly> s; bool never = false;
      for (size_t i = 0; i < a.size(); i++) { Poly d = padd(a[i], b[i]); tot += d.size(); if (!d.empty()) s.insert(d); if (d.size() == 1 && d[0] == 0) never = true; }
      if (never) r = F1(); else if (tot < 4000) { E x = T1(); for (auto &d : s) x = mkBin(KAnd, x, mkNot(build(d))); r = x; }
    } else if (p.size() <= 64) r = build(p);
  }
  nmemo[c->id] = r; return r;
}
E gf2fold(E e) { // constant, single-table identity or the expression itself
  if (e->isC() || e->w > 64) return e; init();
  auto &b = bits(e); APInt v(e->w, 0); for (uint32_t i = 0; i < e->w; i++) { if (!isC(b[i])) return e; if (!b[i].empty()) v.setBit(i); }
  return CA(v);
}
E gf2rebuild(E e) { // canonical bytes: keeps composed table look-ups from growing
  if (e->isC() || e->w > 64) return e; init();
  auto &b = bits(e); size_t tot = 0; for (auto &p : b) { tot += p.size(); if (tot > 40) return e; for (Mono m : p) if (monos[m].size() > 1) return e; }
  std::vector<E> v; for (int i = e->w - 1; i >= 0; i--) v.push_back(build(b[i])); return mkConcat(v);
}

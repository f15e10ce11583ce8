// Decision of bit-vector conditions as integer linear arithmetic (flag --lia), for limb arithmetic where products
// make bit-blasting hopeless. Every bit-vector term becomes a linear form over integer atoms with bounds: symbols,
// products of two forms (uninterpreted but bounded: an over-approximation), and for each division by a power of two
// the quotient and remainder atoms with B = 2^s q + r. Sums that may wrap subtract 2^w times a quotient.
// UNSAT is sound. A model is only believed when the original conditions evaluate to true under it; otherwise one
// factor of every product is fixed (to the model's value and to extreme ones), which makes the problem exact, and solved again.
#include "lia.h"
#include <string>
typedef APInt I; static const unsigned BW = 2048;
static I IC(int64_t v) { return I(BW, (uint64_t)v, true); }
static I pw(unsigned s) { return IC(1).shl(s); }
static I widen(const APInt &x) { return x.zextOrTrunc(BW); }
static I fdiv(const I &a, const I &b) { I q = a.sdiv(b), r = a - q * b; if (r.isNegative()) q -= 1; return q; } // b > 0
struct LF { std::map<int, I> m; I c = IC(0); I lo = IC(0), hi = IC(0); };
struct Atom { I lo, hi; E e = nullptr; bool rem = false, def = false; LF B; unsigned s = 0; int q = -1, r = -1; bool prod = false; LF f, g; int kind = 0; };
static std::vector<Atom> atoms; static std::unordered_map<uint32_t, LF> memo; static std::map<std::string, int> keys; static std::map<uint32_t, int> bools;
static std::string key(const LF &f) { std::string k; auto put = [&](const I &x) { llvm::SmallString<64> t; x.toString(t, 36, true); k += t.str().str() + ","; }; for (auto &x : f.m) { k += std::to_string(x.first) + ":"; put(x.second); } put(f.c); return k; }
static void interval(LF &f) { I lo = f.c, hi = f.c; for (auto &x : f.m) { const Atom &a = atoms[x.first]; if (x.second.isNegative()) { lo += x.second * a.hi; hi += x.second * a.lo; } else { lo += x.second * a.lo; hi += x.second * a.hi; } } f.lo = lo; f.hi = hi; }
static LF cst(const I &c) { LF f; f.c = f.lo = f.hi = c; return f; }
static LF atomF(int a) { LF f; f.m[a] = IC(1); f.lo = atoms[a].lo; f.hi = atoms[a].hi; return f; }
static LF addF(const LF &x, const LF &y, const I &k) { LF f = x; f.c += k * y.c; for (auto &t : y.m) { auto it = f.m.find(t.first); if (it == f.m.end()) f.m.emplace(t.first, k * t.second); else { it->second += k * t.second; if (it->second.isZero()) f.m.erase(it); } }
  interval(f); I lo = x.lo + (k.isNegative() ? k * y.hi : k * y.lo), hi = x.hi + (k.isNegative() ? k * y.lo : k * y.hi); if (lo.sgt(f.lo)) f.lo = lo; if (hi.slt(f.hi)) f.hi = hi; return f; }
static LF scale(const LF &x, const I &k) { return addF(cst(IC(0)), x, k); }
static int newAtom(const I &lo, const I &hi) { Atom a; a.lo = lo; a.hi = hi; atoms.push_back(a); return atoms.size() - 1; }
// X = mod * Q + R with 0 <= R < mod; forms for both. R as an atom of its own (cut) when it is not evident.
static void split(const LF &X, const I &mod, LF &Q, LF &R, bool modular) {
  LF A, B; I half = mod.lshr(1);
  auto sp = [&](const I &c, I &a, I &b) { a = fdiv(c, mod); b = c - a * mod; if (b.sge(half) && !mod.isOne()) { b -= mod; a += 1; } };
  for (auto &t : X.m) { I a, b; sp(t.second, a, b); if (!a.isZero()) A.m[t.first] = a; if (!b.isZero()) B.m[t.first] = b; }
  { I a = fdiv(X.c, mod); A.c = a; B.c = X.c - a * mod; }
  interval(A); interval(B);
  if (A.m.empty()) { I lo = X.lo - A.c * mod, hi = X.hi - A.c * mod; if (lo.sgt(B.lo)) B.lo = lo; if (hi.slt(B.hi)) B.hi = hi; }
  I ql = fdiv(B.lo, mod), qh = fdiv(B.hi, mod);
  if (ql == qh) { R = addF(B, cst(ql * mod), IC(-1)); if (R.lo.isNegative()) R.lo = IC(0); if (R.hi.sge(mod)) R.hi = mod - 1; Q = addF(A, cst(ql), IC(1)); return; }
  llvm::SmallString<64> t; mod.toString(t, 36, true); std::string k = "d" + t.str().str() + "/" + key(B); auto it = keys.find(k); int q, r;
  if (it != keys.end()) { q = it->second; r = atoms[q].r; }
  else { q = newAtom(ql, qh); r = newAtom(IC(0), mod - 1); atoms[q].def = atoms[r].def = true; atoms[r].rem = true; atoms[q].r = atoms[r].r = r; atoms[q].q = atoms[r].q = q; atoms[q].B = atoms[r].B = B; atoms[r].f = cst(mod); atoms[q].f = cst(mod); keys[k] = q; }
  Q = addF(A, atomF(q), IC(1)); if (modular) { R = addF(B, atomF(q), -mod); R.lo = IC(0); R.hi = mod - 1; } else R = atomF(r);
}
static LF wrap(const LF &V, unsigned w) { if (!V.lo.isNegative() && V.hi.slt(pw(w))) return V; LF Q, R; split(V, pw(w), Q, R, true); return R; }
static LF tr(E e);
static LF opaque(E e) { std::string k = "o" + std::to_string(e->id); auto it = keys.find(k); int a; if (it != keys.end()) a = it->second; else { a = newAtom(e->w <= 64 ? widen(APInt(64, e->umin)) : IC(0), e->w <= 64 ? widen(APInt(64, e->umax)) : pw(e->w) - 1); atoms[a].e = e; keys[k] = a; } return atomF(a); }
static LF expand(LF f) { for (int n = 0; n < 100000; n++) { int hit = -1; for (auto it = f.m.rbegin(); it != f.m.rend(); ++it) if (atoms[it->first].rem) { hit = it->first; break; } if (hit < 0) break; I c = f.m[hit]; f.m.erase(hit); f = addF(f, atoms[hit].B, c); f = addF(f, atomF(atoms[hit].q), -(c * atoms[hit].f.c)); } interval(f); return f; }
static bool fixAtom(int a, I &v); static void tighten(LF &x, const I &bound);
static bool exists(E base, uint32_t w) { Expr t; t.k = KExtract; t.w = w; t.lo = 0; t.a = {base}; uint64_t h = Pool::mix(t.k * 1000003 + t.w, t.lo); for (E y : t.a) h = Pool::mix(h, y->id + 0x1000); t.h = h; return P.tab.find(&t) != P.tab.end(); }
static I inverse(const I &a, const I &m) { I r0 = m, r1 = a - fdiv(a, m) * m, t0 = IC(0), t1 = IC(1); while (!r1.isZero()) { I q = fdiv(r0, r1), r2 = r0 - q * r1, t2 = t0 - q * t1; r0 = r1; r1 = r2; t0 = t1; t1 = t2; } return t0 - fdiv(t0, m) * m; }
// bits of a symbol: disjoint pieces, cut where extractions begin and end
static LF bits(E sym, uint32_t l, uint32_t h) {
  static std::map<uint32_t, std::map<uint32_t, std::pair<uint32_t, LF>>> all; auto &ps = all[sym->id];
  for (uint32_t c : {l, h}) for (auto it = ps.begin(); it != ps.end(); ++it) if (it->first < c && c < it->second.first) { LF Q, R; split(it->second.second, pw(c - it->first), Q, R, false); ps[c] = {it->second.first, Q}; it->second = {c, R}; break; }
  LF f = cst(IC(0)); uint32_t at = l;
  while (at < h) { auto it = ps.find(at); if (it == ps.end()) { auto nx = ps.upper_bound(at); uint32_t end = nx == ps.end() ? h : std::min(h, nx->first); LF g = opaque(mkExtract(sym, at, end - at)); it = ps.emplace(at, std::make_pair(end, g)).first; } f = addF(f, it->second.second, pw(at - l)); at = it->second.first; }
  return f; }
static LF tr0(E e) {
  switch (e->k) {
  case KConst: return cst(widen(e->ap()));
  case KSym: return bits(e, 0, e->w);
  case KAdd: return wrap(addF(tr(e->a[0]), tr(e->a[1]), IC(1)), e->w);
  case KSub: return wrap(addF(tr(e->a[0]), tr(e->a[1]), IC(-1)), e->w);
  case KMul: { LF a = tr(e->a[0]), b = tr(e->a[1]); auto sg = [&](I c) { return c.sge(pw(e->w - 1)) ? c - pw(e->w) : c; };
    if (a.m.empty()) return wrap(scale(b, sg(a.c)), e->w); if (b.m.empty()) return wrap(scale(a, sg(b.c)), e->w);
    if (a.lo.isNegative() || b.lo.isNegative()) return opaque(e);
    std::string ka = key(a), kb = key(b); if (kb < ka) { std::swap(ka, kb); std::swap(a, b); } std::string k = "p" + ka + "*" + kb; auto it = keys.find(k); int p;
    if (it != keys.end()) p = it->second; else { p = newAtom(a.lo * b.lo, a.hi * b.hi); atoms[p].prod = true; atoms[p].f = a; atoms[p].g = b; keys[k] = p; }
    return wrap(atomF(p), e->w); }
  case KShl: if (e->a[1]->isC()) return wrap(scale(tr(e->a[0]), pw(e->a[1]->v)), e->w); break;
  case KLShr: if (e->a[1]->isC()) { LF Q, R; split(tr(e->a[0]), pw(e->a[1]->v), Q, R, false); return Q; } break;
  case KConcat: { LF f = cst(IC(0)); for (E x : e->a) f = addF(scale(f, pw(x->w)), tr(x), IC(1)); return f; }
  case KExtract: { if (e->a[0]->k == KSym) return bits(e->a[0], e->lo, e->lo + e->w); LF Q, R, x = tr(e->a[0]); if (e->lo + e->w < e->a[0]->w) { static std::map<uint32_t, std::map<uint32_t, LF>> cuts; auto &cu = cuts[e->a[0]->id]; uint32_t top = e->lo + e->w; auto ci = cu.lower_bound(top);
      if (ci == cu.end()) for (uint32_t w2 = top + 1; w2 < e->a[0]->w && w2 < top + 40; w2++) if (exists(e->a[0], w2)) { LF q2, r2; split(x, pw(w2), q2, r2, false); cu[w2] = r2; ci = cu.lower_bound(top); break; } // a wider truncation of the same sum is in use: go through it
      if (ci != cu.end()) x = ci->second; if (ci == cu.end() || ci->first != top) { tighten(x, pw(top)); LF q2, r2; split(x, pw(top), q2, r2, false); x = r2; cu[top] = x; } } Q = x; if (e->lo) split(x, pw(e->lo), Q, R, false); if (Q.lo.isNegative()) Q.lo = IC(0); if (Q.hi.sge(pw(e->w))) Q.hi = pw(e->w) - 1; return Q; }
  case KURem: case KUDiv: if (e->a[1]->isC() && !e->a[1]->isZero()) { LF f = expand(tr(e->a[0])), Q, R; I m = widen(e->a[1]->ap());
      if (e->k == KURem && m[0]) { // odd modulus: work with residues of the coefficients
        auto red = [&](LF &g) { LF h; h.c = g.c - fdiv(g.c, m) * m; for (auto &t : g.m) { I c = t.second - fdiv(t.second, m) * m; if (!c.isZero()) h.m[t.first] = c; } interval(h); g = h; };
        red(f); std::set<int> tried;
        if (getenv("LIA_DBG")) { auto st = [](const I &y) { llvm::SmallString<64> t; y.toString(t, 16, true); return t.str().str(); }; for (auto &t : f.m) { auto &a = atoms[t.first]; fprintf(stderr, "R a%d %s [%s,%s] %s r=a%d[%s,%s]", t.first, st(t.second).c_str(), st(a.lo).c_str(), st(a.hi).c_str(), a.prod ? "prod" : a.def ? "quo" : "?", a.r, a.r >= 0 ? st(atoms[a.r].lo).c_str() : "", a.r >= 0 ? st(atoms[a.r].hi).c_str() : ""); if (a.def) { fprintf(stderr, " mod %s of", st(a.f.c).c_str()); for (auto &u : a.B.m) fprintf(stderr, " %s*a%d", st(u.second).c_str(), u.first); fprintf(stderr, " + %s", st(a.B.c).c_str()); } fprintf(stderr, "\n"); } }
        for (int n = 0; n < 400; n++) { int hit = -1; for (auto it = f.m.rbegin(); it != f.m.rend(); ++it) { int t = it->first; if (!atoms[t].def || atoms[t].rem || tried.count(t)) continue; hit = t; break; } if (hit < 0) break; tried.insert(hit); I c = f.m[hit], v; const Atom at = atoms[hit]; int r = at.r;
          if (atoms[r].lo == atoms[r].hi) { I mod2 = at.f.c, inv = inverse(mod2, m); f.m.erase(hit); LF g = addF(at.B, cst(atoms[r].lo), IC(-1)); f = addF(f, expand(g), (c * inv) - fdiv(c * inv, m) * m); red(f); tried.clear(); }
          else if (fixAtom(hit, v)) { f.m.erase(hit); f.c += c * v; red(f); } }
        if (getenv("LIA_DBG")) { fprintf(stderr, "residue:"); for (auto &t : f.m) fprintf(stderr, " a%d", t.first); fprintf(stderr, "\n"); } }
      split(f, m, Q, R, false); return e->k == KURem ? R : Q; } break;
  default: break;
  }
  return opaque(e);
}
static LF tr(E e) { auto it = memo.find(e->id); if (it != memo.end()) { LF &g = it->second; LF h = g; interval(h); if (h.lo.sgt(g.lo)) g.lo = h.lo; if (h.hi.slt(g.hi)) g.hi = h.hi; return g; } LF f = tr0(e); I top = e->w <= 64 ? widen(APInt(64, e->umax)) : pw(e->w) - 1, bot = e->w <= 64 ? widen(APInt(64, e->umin)) : IC(0); if (f.hi.sgt(top)) f.hi = top; if (f.lo.slt(bot)) f.lo = bot; if (e->k != KURem) memo[e->id] = f; return f; }

struct Ctx {
  int minDef = 0; // definitions of older atoms are left out (sound for UNSAT)
  Z3_context c; Z3_solver s; std::vector<Z3_ast> v; std::vector<char> defined; Z3_sort IS;
  Z3_ast num(const I &x) { llvm::SmallString<64> t; x.toString(t, 10, true); return Z3_mk_numeral(c, t.c_str(), IS); }
  void need(int a) {
    if (a < (int)v.size() && v[a]) return; if (v.size() < atoms.size()) v.resize(atoms.size(), nullptr);
    v[a] = Z3_mk_const(c, Z3_mk_string_symbol(c, ("a" + std::to_string(a)).c_str()), IS);
    Z3_solver_assert(c, s, Z3_mk_ge(c, v[a], num(atoms[a].lo))); Z3_solver_assert(c, s, Z3_mk_le(c, v[a], num(atoms[a].hi)));
    if (atoms[a].def && atoms[a].q >= minDef) { int q = atoms[a].q, r = atoms[a].r; need(q); need(r); if (a == q) { LF f = addF(atoms[a].B, atomF(q), -atoms[a].f.c); f = addF(f, atomF(r), IC(-1)); Z3_solver_assert(c, s, Z3_mk_eq(c, form(f), num(IC(0)))); } }
    if (atoms[a].e && atoms[a].e->k == KIte) { E e = atoms[a].e; Z3_ast b = boolean(e->a[0]); Z3_solver_assert(c, s, Z3_mk_eq(c, v[a], Z3_mk_ite(c, b, form(tr(e->a[1])), form(tr(e->a[2]))))); }
    else if (atoms[a].e && atoms[a].e->w == 1 && atoms[a].e->k != KSym && atoms[a].e->k != KExtract) Z3_solver_assert(c, s, Z3_mk_iff(c, Z3_mk_eq(c, v[a], num(IC(1))), boolean(atoms[a].e)));
  }
  Z3_ast form(const LF &f) { std::vector<Z3_ast> t; for (auto &x : f.m) { need(x.first); Z3_ast m[2] = {num(x.second), v[x.first]}; t.push_back(x.second.isOne() ? v[x.first] : Z3_mk_mul(c, 2, m)); } if (!f.c.isZero() || t.empty()) t.push_back(num(f.c)); return t.size() == 1 ? t[0] : Z3_mk_add(c, t.size(), t.data()); }
  Z3_ast boolean(E e) {
    if (e->isC()) return e->isZero() ? Z3_mk_false(c) : Z3_mk_true(c);
    auto rel = [&](const LF &x, const LF &y, int k) { LF d = addF(y, x, IC(-1)); if (k == 0) { if (d.lo.sgt(IC(0)) || d.hi.isNegative()) return Z3_mk_false(c); return Z3_mk_eq(c, form(d), num(IC(0))); } if (k == 1) { if (d.lo.sgt(IC(0))) return Z3_mk_true(c); if (d.hi.sle(IC(0))) return Z3_mk_false(c); return Z3_mk_gt(c, form(d), num(IC(0))); } if (!d.lo.isNegative()) return Z3_mk_true(c); if (d.hi.isNegative()) return Z3_mk_false(c); return Z3_mk_ge(c, form(d), num(IC(0))); };
    auto sgn = [&](E x) { return wrapS(tr(x), x->w); };
    switch (e->k) {
    case KEq: if (e->a[0]->w == 1) return Z3_mk_iff(c, boolean(e->a[0]), boolean(e->a[1])); return rel(tr(e->a[0]), tr(e->a[1]), 0);
    case KUlt: return rel(tr(e->a[0]), tr(e->a[1]), 1); case KUle: return rel(tr(e->a[0]), tr(e->a[1]), 2);
    case KSlt: return rel(sgn(e->a[0]), sgn(e->a[1]), 1); case KSle: return rel(sgn(e->a[0]), sgn(e->a[1]), 2);
    case KAnd: if (e->w == 1) { Z3_ast t[2] = {boolean(e->a[0]), boolean(e->a[1])}; return Z3_mk_and(c, 2, t); } break;
    case KOr: if (e->w == 1) { Z3_ast t[2] = {boolean(e->a[0]), boolean(e->a[1])}; return Z3_mk_or(c, 2, t); } break;
    case KXor: if (e->w == 1) return Z3_mk_xor(c, boolean(e->a[0]), boolean(e->a[1])); break;
    case KIte: if (e->w == 1) return Z3_mk_ite(c, boolean(e->a[0]), boolean(e->a[1]), boolean(e->a[2])); break;
    default: break;
    }
    if (e->k == KSym || e->k == KExtract || e->k == KAdd || e->k == KSub) return Z3_mk_eq(c, form(tr(e)), num(IC(1)));
    LF f = opaqueBool(e); return Z3_mk_eq(c, form(f), num(IC(1)));
  }
  LF wrapS(const LF &x, unsigned w) { LF y = addF(x, cst(pw(w - 1)), IC(1)), Q, R; split(y, pw(w), Q, R, true); LF r = addF(R, cst(pw(w - 1)), IC(-1)); return r; }
  LF opaqueBool(E e) { std::string k = "b" + std::to_string(e->id); auto it = keys.find(k); if (it != keys.end()) return atomF(it->second); int a = newAtom(IC(0), IC(1)); keys[k] = a; return atomF(a); }
  I value(Z3_model m, int a) { Z3_ast r = nullptr; Z3_model_eval(c, m, v[a], true, &r); Z3_string t = Z3_get_numeral_string(c, r); bool neg = t[0] == '-'; I x(BW, llvm::StringRef(neg ? t + 1 : t), 10); return neg ? -x : x; }
};
static bool believe(Ctx &x, Z3_model m, const std::vector<E> &cs, std::shared_ptr<Model> *out) {
  auto mod = std::make_shared<Model>(); std::set<uint32_t> sup; for (E c : cs) { auto &s = supp(c); sup.insert(s.begin(), s.end()); }
  for (uint32_t id : sup) if (P.all[id]->k == KSym) mod->val.emplace(id, APInt(P.all[id]->w, 0)); else return false;
  for (size_t a = 0; a < x.v.size(); a++) if (x.v[a] && atoms[a].e) { E e = atoms[a].e; E b = e->k == KExtract ? e->a[0] : e; if (b->k != KSym) continue; auto it = mod->val.find(b->id); if (it == mod->val.end()) continue; it->second.insertBits(x.value(m, a).trunc(e->w), e->lo); }
  for (E c : cs) if (evalM(*mod, c).isZero()) return false;
  mod->memo.clear(); if (out) *out = mod; return true;
}
static void collect(E e, std::vector<int> &st) { // atoms of the forms below the boolean structure
  std::vector<E> w{e}; std::set<uint32_t> seen; while (!w.empty()) { E x = w.back(); w.pop_back(); if (!seen.insert(x->id).second || x->isC()) continue;
    if (x->w == 1 && x->k != KSym && x->k != KExtract) { for (E a : x->a) w.push_back(a); continue; } if (x->k == KURem || x->k == KUDiv) { w.push_back(x->a[0]); continue; }
    if (x == e && x->k == KIte) { for (E a : x->a) w.push_back(a); continue; } LF f = tr(x); for (auto &t : f.m) st.push_back(t.first); } }
static R attempt(Z3_context ctx, const std::vector<E> &cs, std::shared_ptr<Model> *out, unsigned timeout_ms, int minDef) {
  Ctx x; x.minDef = minDef; x.c = ctx; x.IS = Z3_mk_int_sort(ctx); x.s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_LIA")); Z3_solver_inc_ref(ctx, x.s);
  Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p); Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), timeout_ms); Z3_solver_set_params(ctx, x.s, p); Z3_params_dec_ref(ctx, p);
  std::unordered_map<uint32_t, bool> hm; std::function<bool(E)> has = [&](E e) -> bool { auto it = hm.find(e->id); if (it != hm.end()) return it->second; bool h = e->k == KURem || e->k == KUDiv; for (E a : e->a) { if (h) break; h = has(a); } return hm[e->id] = h; };
  for (int late = 0; late < 2; late++) for (E c : cs) if (has(c) == (late == 1)) { Z3_ast b = x.boolean(c); Z3_solver_assert(ctx, x.s, b); } // conditions on remainders last: they use what the others imply
  static bool dbg = getenv("LIA_DBG"); auto t0 = std::chrono::steady_clock::now();
  R r = UNK; Z3_lbool z = Z3_solver_check(ctx, x.s);
  if (dbg) { static int qn; int n = 0; for (auto a : x.v) n += a != nullptr; fprintf(stderr, "lia %d: conditions %zu atoms %d -> %d (%.2fs) last %s\n", qn, cs.size(), n, (int)z, std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(), toStr(cs.back(), 2).c_str()); if (getenv("LIA_DUMP")) { FILE *f = fopen((std::string(getenv("LIA_DUMP")) + std::to_string(qn) + ".smt2").c_str(), "w"); for (size_t a = 0; a < x.v.size(); a++) if (x.v[a]) { auto st = [](const I &y) { llvm::SmallString<64> t; y.toString(t, 16, true); return t.str().str(); }; fprintf(f, "a%zu [%s,%s]", a, st(atoms[a].lo).c_str(), st(atoms[a].hi).c_str()); if (atoms[a].prod) fprintf(f, " prod"); if (atoms[a].e) fprintf(f, " e=%s", toStr(atoms[a].e, 3).c_str()); if (atoms[a].def) { fprintf(f, " %s mod %s of", atoms[a].rem ? "rem" : "quo", st(atoms[a].f.c).c_str()); for (auto &t : atoms[a].B.m) fprintf(f, " %s*a%d", st(t.second).c_str(), t.first); fprintf(f, " + %s", st(atoms[a].B.c).c_str()); } fprintf(f, "\n"); } fclose(f); } qn++; }
  if (z == Z3_L_FALSE) r = UNSAT;
  else if (z == Z3_L_TRUE && minDef == 0) {
    Z3_model m = Z3_solver_get_model(ctx, x.s); Z3_model_inc_ref(ctx, m);
    if (believe(x, m, cs, out)) r = SAT;
    else { // fix one side of every product
      std::vector<int> prods; for (size_t a = 0; a < x.v.size(); a++) if (x.v[a] && atoms[a].prod) prods.push_back(a);
      std::map<std::string, const LF *> sides; // a vertex cover: greedily the form that occurs most
      std::vector<int> left = prods; while (!left.empty()) { std::map<std::string, std::pair<int, const LF *>> cnt; for (int a : left) for (const LF *f : {&atoms[a].f, &atoms[a].g}) { auto &c = cnt[key(*f)]; c.first++; c.second = f; } std::string best; int n = 0; for (auto &c : cnt) if (c.second.first > n) { n = c.second.first; best = c.first; } sides[best] = cnt[best].second; std::vector<int> l2; for (int a : left) if (key(atoms[a].f) != best && key(atoms[a].g) != best) l2.push_back(a); left = l2; }
      uint64_t seed = 88172645463325252ull; auto rnd = [&] { seed ^= seed << 13; seed ^= seed >> 7; seed ^= seed << 17; return seed; };
      for (int mode = 0; mode < 6 && r == UNK && !prods.empty(); mode++) {
        Z3_solver_push(ctx, x.s); std::map<std::string, I> val;
        for (auto &sd : sides) { const LF &f = *sd.second; I w; if (mode == 0) { w = f.c; for (auto &t : f.m) { x.need(t.first); w += t.second * x.value(m, t.first); } } else if (mode == 1) w = f.hi; else if (mode == 2) w = f.hi.lshr(1); else { I span = f.hi - f.lo + 1; I q = I(BW, rnd()) ; w = f.lo + (q - fdiv(q, span) * span); if (mode == 5 && (rnd() & 1)) w = f.hi; } val[sd.first] = w; Z3_solver_assert(ctx, x.s, Z3_mk_eq(ctx, x.form(f), x.num(w))); }
        for (int a : prods) { auto i = val.find(key(atoms[a].f)); const LF &o = i != val.end() ? atoms[a].g : atoms[a].f; if (i == val.end()) i = val.find(key(atoms[a].g)); Z3_solver_assert(ctx, x.s, Z3_mk_eq(ctx, x.v[a], x.form(scale(o, i->second)))); }
        if (Z3_solver_check(ctx, x.s) == Z3_L_TRUE) { Z3_model m2 = Z3_solver_get_model(ctx, x.s); Z3_model_inc_ref(ctx, m2); if (believe(x, m2, cs, out)) r = SAT; Z3_model_dec_ref(ctx, m2); }
        Z3_solver_pop(ctx, x.s, 1);
      }
    }
    Z3_model_dec_ref(ctx, m);
  }
  Z3_solver_dec_ref(ctx, x.s); return r;
}
// definitions below some atoms, the latest first
static std::vector<int> closure(std::vector<int> st) { std::set<int> defs, seen; while (!st.empty()) { int a = st.back(); st.pop_back(); if (!seen.insert(a).second) continue; if (atoms[a].def) { defs.insert(atoms[a].q); for (auto &t : atoms[a].B.m) st.push_back(t.first); } if (atoms[a].e && atoms[a].e->k == KIte) collect(atoms[a].e, st); } return std::vector<int>(defs.rbegin(), defs.rend()); }
static Z3_context theCtx; static std::map<int, bool> fixTried;
static Z3_solver mkSolver(Z3_context ctx, unsigned ms) { Z3_solver s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_LIA")); Z3_solver_inc_ref(ctx, s); Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p); Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), ms); Z3_solver_set_params(ctx, s, p); Z3_params_dec_ref(ctx, p); return s; }
// can the atom have this value at all? (no other conditions: what is learned holds everywhere)
static bool excluded(int a, const I &v, bool orMore = false) { std::vector<int> d = closure({a});
  for (size_t n : {12, 20, 24, 28, 34, 40, 50, 90}) { Ctx x; x.c = theCtx; x.IS = Z3_mk_int_sort(theCtx); x.s = mkSolver(theCtx, 2000); x.minDef = n < d.size() ? d[n] : 0; x.need(a); Z3_solver_assert(theCtx, x.s, orMore ? Z3_mk_ge(theCtx, x.v[a], x.num(v)) : Z3_mk_eq(theCtx, x.v[a], x.num(v))); Z3_lbool z = Z3_solver_check(theCtx, x.s); Z3_solver_dec_ref(theCtx, x.s); if (getenv("LIA_DBG")) fprintf(stderr, "  excl a%d n=%zu %d\n", a, n, (int)z); if (z == Z3_L_FALSE) return true; if (n >= d.size()) break; }
  return false; }
static bool fixAtom(int a, I &v) { if (fixTried.count(a)) { v = atoms[a].lo; return fixTried[a]; } bool ok = (atoms[a].hi - atoms[a].lo).slt(IC(4));
  while (ok && atoms[a].lo != atoms[a].hi) { if (excluded(a, atoms[a].hi)) atoms[a].hi -= 1; else if (excluded(a, atoms[a].lo)) atoms[a].lo += 1; else ok = false; }
  fixTried[a] = ok; v = atoms[a].lo; return ok; }
// a truncation of one atom: is what it cuts off always zero?
static void tighten(LF &x, const I &bound) { if (x.m.size() != 1 || !x.c.isZero() || !x.m.begin()->second.isOne()) return; int a = x.m.begin()->first; if (!atoms[a].def || atoms[a].hi.slt(bound) || !theCtx) return; static std::map<std::pair<int, std::string>, bool> tried; llvm::SmallString<64> t; bound.toString(t, 16, true); auto k = std::make_pair(a, t.str().str()); if (tried.count(k)) return; tried[k] = true;
  if (excluded(a, bound, true)) { atoms[a].hi = bound - 1; x = atomF(a); } }
static void propagate(const LF &d, int depth = 0) { // d >= 0 for all inputs
  for (auto &t : d.m) { I rest = d.c; for (auto &u : d.m) if (u.first != t.first) rest += u.second * (u.second.isNegative() ? atoms[u.first].lo : atoms[u.first].hi);
    Atom &a = atoms[t.first]; bool ch = false; // t.second * v >= -rest
    if (t.second.isNegative()) { I b = fdiv(rest, -t.second); if (b.slt(a.hi)) a.hi = b, ch = true; } else { I b = -fdiv(rest, t.second); if (b.sgt(a.lo)) a.lo = b, ch = true; }
    if (ch && a.def && depth < 8) { LF e = addF(scale(atomF(a.q), a.f.c), atomF(a.r), IC(1)), x = addF(e, a.B, IC(-1)), y = addF(a.B, e, IC(-1)); propagate(x, depth + 1); propagate(y, depth + 1); } } }
static void learn(E c) { // c holds for all inputs
  bool neg = false; if (c->k == KXor && c->w == 1 && c->a[1]->isC()) { neg = true; c = c->a[0]; }
  if (c->k == KUlt || c->k == KUle) { LF x = tr(c->a[0]), y = tr(c->a[1]); LF d = neg ? addF(x, y, IC(-1)) : addF(y, x, IC(-1)); if ((c->k == KUlt) != neg) d.c -= 1; propagate(d); }
  else if (c->k == KEq && !neg && c->a[0]->w > 1) { LF x = tr(c->a[0]), y = tr(c->a[1]); propagate(addF(x, y, IC(-1))); propagate(addF(y, x, IC(-1))); } }
// candidate values, believed only when every condition evaluates to true under them
static bool guess(const std::vector<E> &cs, std::shared_ptr<Model> *out) {
  std::set<uint32_t> sup; for (E c : cs) { auto &s = supp(c); sup.insert(s.begin(), s.end()); } for (uint32_t id : sup) if (P.all[id]->k != KSym) return false;
  uint64_t seed = 88172645463325252ull; auto rnd = [&] { seed ^= seed << 13; seed ^= seed >> 7; seed ^= seed << 17; return seed; };
  for (int n = 0; n < 64; n++) { auto m = std::make_shared<Model>(); int half = 0; size_t i = 0;
    for (uint32_t id : sup) { unsigned w = P.all[id]->w; half = i++ * 2 >= sup.size(); int k = n == 0 ? 1 : n == 1 ? 0 : n < 8 ? 2 : n < 16 ? (half == (n & 1) ? 1 : 2) : n < 24 ? (half == (n & 1) ? 0 : 2) : (int)((rnd() >> 20) % 3);
      APInt v = k == 0 ? APInt(w, 0) : APInt::getAllOnes(w); if (k == 2) { v = APInt(w, 0); for (unsigned b = 0; b < w; b++) if (rnd() >> 33 & 1) v.setBit(b); } m->val.emplace(id, v); }
    bool ok = true; for (E c : cs) if (evalM(*m, c).isZero()) { ok = false; break; } if (ok) { m->memo.clear(); if (out) *out = m; return true; } }
  return false; }
R liaCheck(Z3_context ctx, const std::vector<E> &cs, std::shared_ptr<Model> *out, unsigned timeout_ms) {
  // definitions in the order of their creation: the latest ones first, more when they do not suffice
  theCtx = ctx; std::vector<int> st; for (E c : cs) collect(c, st); std::vector<int> d = closure(st); R r = UNK;
  for (size_t n : {12, 20, 24, 28, 34, 40, 50, 90}) if (n < d.size() && r == UNK) r = attempt(ctx, cs, nullptr, std::min(timeout_ms, 3000u), d[n]);
  if (r == UNK && guess(cs, out)) r = SAT;
  if (r == UNK) r = attempt(ctx, cs, out, timeout_ms, 0);
  if (r == UNSAT && cs.size() == 1) learn(mkNot(cs[0]));
  return r;
}

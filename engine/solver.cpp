#include "solver.h"
#include "llvm/ADT/SmallString.h"
#include <cstring>
#include <unistd.h>
#include "lia.h"
static void errh(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); _exit(70); }
extern unsigned gQT;
Solver::Solver() {
  timeout_ms = gQT;
  cfg = Z3_mk_config(); ctx = Z3_mk_context(cfg); // no ref counting: asts live forever
  Z3_set_error_handler(ctx, errh);
}
template <class V> static Z3_ast get(V &v, uint32_t id) { return id < v.size() ? v[id] : nullptr; }
template <class V> static Z3_ast put(V &v, uint32_t id, Z3_ast a) { if (id >= v.size()) v.resize(id + 1024, nullptr); v[id] = a; return a; }

Z3_ast Solver::asBool(E e) {
  if (Z3_ast r = get(bl, e->id)) return r;
  Z3_ast r;
  auto A = [&](int i) { return asBV(e->a[i]); };
  switch (e->k) {
  case KConst: r = e->v ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
  case KEq: if (e->a[0]->w == 1) r = Z3_mk_eq(ctx, asBool(e->a[0]), asBool(e->a[1])); else r = Z3_mk_eq(ctx, A(0), A(1)); break;
  case KUlt: r = Z3_mk_bvult(ctx, A(0), A(1)); break;
  case KUle: r = Z3_mk_bvule(ctx, A(0), A(1)); break;
  case KSlt: r = Z3_mk_bvslt(ctx, A(0), A(1)); break;
  case KSle: r = Z3_mk_bvsle(ctx, A(0), A(1)); break;
  case KAnd: { Z3_ast x[2] = {asBool(e->a[0]), asBool(e->a[1])}; r = Z3_mk_and(ctx, 2, x); break; }
  case KOr: { Z3_ast x[2] = {asBool(e->a[0]), asBool(e->a[1])}; r = Z3_mk_or(ctx, 2, x); break; }
  case KXor: if (e->a[1]->isC()) r = Z3_mk_not(ctx, asBool(e->a[0])); else r = Z3_mk_xor(ctx, asBool(e->a[0]), asBool(e->a[1])); break;
  case KIte: r = Z3_mk_ite(ctx, asBool(e->a[0]), asBool(e->a[1]), asBool(e->a[2])); break;
  default: r = Z3_mk_eq(ctx, asBV(e), Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1)));
  }
  return put(bl, e->id, r);
}
Z3_ast Solver::asBV(E e) {
  if (Z3_ast r = get(bv, e->id)) return r;
  Z3_ast r;
  auto A = [&](int i) { return asBV(e->a[i]); };
  if (e->w == 1 && (e->k >= KEq && e->k <= KSle || e->k == KAnd || e->k == KOr || e->k == KXor)) {
    Z3_sort s = Z3_mk_bv_sort(ctx, 1);
    r = Z3_mk_ite(ctx, asBool(e), Z3_mk_unsigned_int64(ctx, 1, s), Z3_mk_unsigned_int64(ctx, 0, s));
    return put(bv, e->id, r);
  }
  switch (e->k) {
  case KConst: { Z3_sort s = Z3_mk_bv_sort(ctx, e->w); if (e->w <= 64) r = Z3_mk_unsigned_int64(ctx, e->v, s); else { llvm::SmallString<128> t; e->big->toString(t, 10, false); r = Z3_mk_numeral(ctx, std::string(t.str()).c_str(), s); } break; }
  case KSym: case KUF: r = Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, e->id), Z3_mk_bv_sort(ctx, e->w)); break;
  case KAdd: r = Z3_mk_bvadd(ctx, A(0), A(1)); break;
  case KSub: r = Z3_mk_bvsub(ctx, A(0), A(1)); break;
  case KMul: r = Z3_mk_bvmul(ctx, A(0), A(1)); break;
  case KUDiv: r = Z3_mk_bvudiv(ctx, A(0), A(1)); break;
  case KSDiv: r = Z3_mk_bvsdiv(ctx, A(0), A(1)); break;
  case KURem: r = Z3_mk_bvurem(ctx, A(0), A(1)); break;
  case KSRem: r = Z3_mk_bvsrem(ctx, A(0), A(1)); break;
  case KAnd: r = Z3_mk_bvand(ctx, A(0), A(1)); break;
  case KOr: r = Z3_mk_bvor(ctx, A(0), A(1)); break;
  case KXor: r = Z3_mk_bvxor(ctx, A(0), A(1)); break;
  case KShl: r = Z3_mk_bvshl(ctx, A(0), A(1)); break;
  case KLShr: r = Z3_mk_bvlshr(ctx, A(0), A(1)); break;
  case KAShr: r = Z3_mk_bvashr(ctx, A(0), A(1)); break;
  case KConcat: { r = A(0); for (size_t i = 1; i < e->a.size(); i++) r = Z3_mk_concat(ctx, r, A(i)); break; }
  case KExtract: r = Z3_mk_extract(ctx, e->lo + e->w - 1, e->lo, A(0)); break;
  case KSExt: r = Z3_mk_sign_ext(ctx, e->w - e->a[0]->w, A(0)); break;
  case KIte: r = Z3_mk_ite(ctx, asBool(e->a[0]), A(1), A(2)); break;
  case KLin: { r = asBV(e->a.back()); for (size_t i = 0; i + 1 < e->a.size(); i += 2) r = Z3_mk_bvadd(ctx, r, Z3_mk_bvmul(ctx, A(i), A(i + 1))); break; }
  case KLut: { r = Z3_mk_unsigned_int64(ctx, 0, Z3_mk_bv_sort(ctx, e->w)); for (uint32_t m = 0; m < (1u << e->a.size()); m++) if (e->lo >> m & 1) { Z3_ast t = nullptr; for (size_t i = 0; i < e->a.size(); i++) { Z3_ast x = m >> i & 1 ? A(i) : Z3_mk_bvnot(ctx, A(i)); t = t ? Z3_mk_bvand(ctx, t, x) : x; } r = Z3_mk_bvor(ctx, r, t); } break; }
  default: abort();
  }
  return put(bv, e->id, r);
}

static APInt numeral(Z3_context ctx, Z3_ast v, unsigned w) {
  if (w <= 64) { uint64_t x = 0; if (Z3_get_numeral_uint64(ctx, v, &x)) return APInt(w, x); }
  const char *s = Z3_get_numeral_string(ctx, v);
  return APInt(std::max<unsigned>(w, 8 + 4 * strlen(s)), s, 10).trunc(w);
}

R Solver::checkZ3(const std::vector<E> &cs, std::shared_ptr<Model> *out) {
  auto t0 = std::chrono::steady_clock::now();
  std::set<uint32_t> sup;
  for (E c : cs) { auto &s = supp(c); sup.insert(s.begin(), s.end()); }
  std::vector<E> ufs; bool hasUF = false;
  for (uint32_t id : sup) if (P.all[id]->k == KUF) { ufs.push_back(P.all[id]); hasUF = true; }
  Z3_solver s = nullptr;
  if (hasUF) s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
  else s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
  Z3_solver_inc_ref(ctx, s);
  Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
  Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), timeout_ms);
  Z3_solver_set_params(ctx, s, p); Z3_params_dec_ref(ctx, p);
  for (E c : cs) Z3_solver_assert(ctx, s, asBool(c));
  R res;
  for (;;) {
    Z3_lbool r = Z3_solver_check(ctx, s);
    if (r == Z3_L_FALSE) { res = UNSAT; break; }
    if (r == Z3_L_UNDEF) { res = UNK; break; }
    Z3_model m = Z3_solver_get_model(ctx, s); Z3_model_inc_ref(ctx, m);
    auto mod = std::make_shared<Model>();
    std::map<uint32_t, APInt> ufval;
    for (uint32_t id : sup) {
      E e = P.all[id]; Z3_ast v = nullptr;
      if (Z3_model_eval(ctx, m, asBV(e), true, &v)) { APInt x = numeral(ctx, v, e->w); if (e->k == KSym) mod->val.emplace(id, x); else ufval.emplace(id, x); }
    }
    Z3_model_dec_ref(ctx, m);
    // congruence: evaluate applications in id order (arguments have smaller ids)
    bool bad = false;
    std::map<std::pair<const std::string *, std::string>, E> tab;
    // evaluation of args must use the solver's own values for nested UFs
    Model raw = *mod; for (auto &kv : ufval) raw.memo.emplace(kv.first, kv.second);
    for (E u : ufs) {
      APInt x = evalM(raw, u->a[0]);
      std::string key((const char *)x.getRawData(), x.getNumWords() * 8); key += std::to_string(x.getBitWidth()) + "/" + std::to_string(u->w);
      auto k = std::make_pair(u->name, key);
      auto &ft = gFacts[u->name]; auto fi = ft.find(key);
      if (fi != ft.end()) { if (fi->second != ufval.at(u->id)) { E c = mkOr1(mkNot(mkEq(u->a[0], CA(x))), mkEq(u, CA(fi->second))); Z3_solver_assert(ctx, s, asBool(c)); nack++; bad = true; } else mod->ufSet(u->name, u->w, x, ufval.at(u->id)); continue; }
      auto it = tab.find(k);
      if (it == tab.end()) { tab[k] = u; mod->ufSet(u->name, u->w, x, ufval.at(u->id)); }
      else if (ufval.at(it->second->id) != ufval.at(u->id)) {
        E v = it->second; E c = mkOr1(mkNot(mkEq(u->a[0], v->a[0])), mkEq(u, v));
        Z3_solver_assert(ctx, s, asBool(c)); nack++; bad = true;
      }
    }
    if (bad) continue;
    if (out) *out = mod;
    res = SAT; break;
  }
  Z3_solver_dec_ref(ctx, s);
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  time += dt; nq++; if (dt > maxq) maxq = dt;
  if (res == SAT) nsat++; else if (res == UNSAT) nunsat++; else nunk++;
  return res;
}
R Solver::check(const std::vector<E> &cs, std::shared_ptr<Model> *out) {
  std::vector<uint32_t> key; for (E c : cs) { if (c->isC()) { if (c->isZero()) return UNSAT; continue; } key.push_back(c->id); }
  std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
  auto it = cache.find(key);
  if (it != cache.end()) { ncache++; if (out && it->second.second) *out = it->second.second; return it->second.first; }
  std::shared_ptr<Model> m;
  R r = UNK;
  if (gLia) { auto t0 = std::chrono::steady_clock::now(); r = liaCheck(ctx, cs, &m, timeout_ms); double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); time += dt; nq++; if (dt > maxq) maxq = dt; if (r == SAT) nsat++; else if (r == UNSAT) nunsat++; }
  if (r == UNK) r = checkZ3(cs, &m);
  if (r != UNK) cache[key] = {r, m};
  if (out) *out = m;
  return r;
}

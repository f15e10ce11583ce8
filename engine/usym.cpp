// usym: symbolic executor over LLVM bitcode. See /verif/DESIGN.md.
#include "solver.h"
#include "gf2.h"
#include "lia.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Bitcode/BitcodeWriter.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/FileSystem.h"
#include "llvm/Analysis/PostDominators.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/CFG.h"
#include "llvm/Demangle/Demangle.h"
#include <pthread.h>
#include <sys/resource.h>
#include <cstring>
#include <unistd.h>
#include <fstream>
#include <sstream>
using namespace llvm;
typedef std::string str;

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static double tStart;

// ---------------------------------------------------------------- values
struct Val { uint64_t c = 0; E e = nullptr; std::vector<Val> *agg = nullptr; };
static inline Val VC(uint64_t c) { Val v; v.c = c; return v; }
static inline Val VE(E e) { Val v; if (e->isC() && e->w <= 64) v.c = e->v; else v.e = e; return v; }
static inline E toE(const Val &v, unsigned w) { return v.e ? v.e : C(w, v.c); }

static E UNINIT = (E)1; // sentinel in byte arrays
struct Obj {
  uint32_t slot; uint64_t base, size; E symSize = nullptr; uint8_t kind; bool ro = false;
  std::vector<uint8_t> c; std::vector<E> e; const char *name = "";
};
enum { OGlobal, OStack, OHeap, OHeapArr, OHeapMalloc };
static const char *kindName[] = {"global", "stack", "heap(new)", "heap(new[])", "heap(malloc)"};
static uint64_t slotBase(uint32_t s) { return ((uint64_t)s << 32) + 0x10000000ULL; }
struct SlotInfo { const char *name; uint64_t size; uint8_t kind; bool freed; };
static std::vector<SlotInfo> slots;

struct Op { bool isReg = false; uint32_t reg = 0; Val c; };
struct KInst {
  Instruction *I; unsigned opc; std::vector<Op> ops; int dst = -1; unsigned w = 0; // result width
  uint64_t gepOff = 0; std::vector<std::pair<unsigned, uint64_t>> gepVar; // op idx, scale
  unsigned t1 = 0, t2 = 0; // branch targets
  std::vector<std::pair<uint64_t, unsigned>> cases; Function *callee = nullptr; unsigned aw = 0; // operand width
  std::vector<unsigned> phiPreds; std::vector<uint64_t> bigcase; bool sw = false;
};
struct KBlock { std::vector<KInst> insts; BasicBlock *bb; unsigned nphi = 0; };
struct KFunc { Function *f; unsigned nregs = 0; std::vector<KBlock> blocks; std::vector<int> join, loopOf; std::vector<std::vector<char>> loops; bool inLoop(int l, unsigned b) const { return loops[l][b]; } std::vector<unsigned> argw; uint64_t calls = 0; uint64_t isym = 0; };
struct Frame { KFunc *kf; unsigned blk = 0, prev = 0, ip = 0; std::vector<Val> regs; std::vector<uint32_t> allocas; int retReg = -1; std::vector<Val> *va = nullptr; };
typedef std::shared_ptr<Obj> OP;

struct SymIn { str name; std::vector<E> bytes; };
struct State {
  std::vector<Frame> st; std::unordered_map<uint32_t, OP> mem; std::vector<E> pc; std::shared_ptr<Model> model;
  std::vector<SymIn> inputs; uint64_t steps = 0; uint64_t id = 0; unsigned depth = 0;
  std::unordered_map<E, E> eqs; std::unordered_map<E, E> smemo; bool merge = false, linear = false; int region = 0; std::vector<E> trace;
  uint32_t uninitUse = 0; std::vector<str> labels;
};

struct PathEnd { const char *why; };
struct MergeAbort { const char *why; };

// ---------------------------------------------------------------- options / stats
static std::unique_ptr<Module> MOD; static const DataLayout *DL; static LLVMContext CTX;
static std::map<str, str> intercept; static std::map<str, long> params;
static double budget = 600; static uint64_t maxSteps = 50000000; static uint64_t allocCap = 256; static uint64_t maxPaths = 10000000; static bool gMerge = false; static bool gTrace = false; static bool gOvershift = true; static unsigned maxErrors = 4; static unsigned mergeBudget = 4000;
static Solver *S;
static uint64_t nInstr = 0, nPaths = 0, nForks = 0, nMerges = 0, nMergeAborts = 0, nAssumeKill = 0, nAsserts = 0, nAssertConst = 0, nAssertQueries = 0, nTrunc = 0, nUnknownAssert = 0, nUninit = 0, nMemQ = 0;
static std::map<str, uint64_t> reached, truncWhy; static bool incomplete = false; static std::set<str> incompleteWhy;
static std::map<str, uint64_t> forkLoc;
struct Err { str kind, msg, loc, stack; std::vector<std::pair<str, std::vector<uint8_t>>> inputs; std::vector<std::tuple<str, str, str>> uf; bool uninit = false; };
static std::vector<Err> errors; static std::set<str> errSeen;
static std::vector<State *> work;
static uint64_t stateIds = 0;

static str locOf(Instruction *I) {
  if (!I) return "?";
  str r = I->getFunction()->getName().str(); r = llvm::demangle(r);
  if (DILocation *d = I->getDebugLoc()) { str f = d->getFilename().str(); size_t p = f.rfind('/'); if (p != str::npos) f = f.substr(p + 1); r += " " + f + ":" + std::to_string(d->getLine()); }
  return r;
}
static Instruction *curI(State &s) { if (s.st.empty()) return nullptr; Frame &f = s.st.back(); auto &b = f.kf->blocks[f.blk]; return f.ip < b.insts.size() ? b.insts[f.ip].I : nullptr; }

// ---------------------------------------------------------------- constraints
static E subst0(State &s, E e) {
  if (e->isC() || s.eqs.empty()) return e;
  auto q = s.eqs.find(e); if (q != s.eqs.end()) return q->second;
  if (e->k == KSym) return e;
  auto it = s.smemo.find(e); if (it != s.smemo.end()) return it->second;
  E r = e;
  if (e->k == KUF) { r = e; }
  else {
    std::vector<E> n; bool ch = false; for (E x : e->a) { E y = subst0(s, x); n.push_back(y); if (y != x) ch = true; }
    if (ch) switch (e->k) {
      case KConcat: r = mkConcat(n); break; case KExtract: r = mkExtract(n[0], e->lo, e->w); break; case KSExt: r = mkSExt(n[0], e->w); break;
      case KIte: r = mkIte(n[0], n[1], n[2]); break; case KLin: case KLut: r = mkRebuild(e, n); break; default: r = mkBin(e->k, n[0], n[1]); }
  }
  s.smemo[e] = r; return r;
}
static E subst(State &s, E e) {
  e = subst0(s, e);
  if (s.linear && e->w == 1 && !e->isC()) { e = gf2norm(e); if (!e->isC()) { e = subst0(s, e); } }
  return e;
}
static void addPC(State &s, E c) {
  if (c->isC()) return;
  if (c->k == KAnd) { addPC(s, c->a[0]); addPC(s, c->a[1]); return; }
  if (c->k == KXor && c->a[1]->isC() && c->a[0]->k == KOr) { addPC(s, mkNot(c->a[0]->a[0])); addPC(s, mkNot(c->a[0]->a[1])); return; }
  s.pc.push_back(c);
  bool changed = false;
  if (c->k == KEq && c->a[1]->isC()) { s.eqs[c->a[0]] = c->a[1]; changed = true; }
  s.eqs[c] = T1(); E n = mkNot(c); s.eqs[n] = F1(); changed = true;
  if (changed) s.smemo.clear();
}
static void slice(State &s, E extra, std::vector<E> &out) {
  // constraint independence
  std::set<uint32_t> syms; std::set<const str *> ufn;
  auto add = [&](E c) { bool ch = false; for (uint32_t id : supp(c)) { if (syms.insert(id).second) ch = true; E x = P.all[id]; if (x->k == KUF && ufn.insert(x->name).second) ch = true; } return ch; };
  add(extra); out.push_back(extra);
  std::vector<char> used(s.pc.size(), 0); bool ch = true;
  while (ch) { ch = false;
    for (size_t i = 0; i < s.pc.size(); i++) if (!used[i]) {
      bool hit = false; for (uint32_t id : supp(s.pc[i])) { if (syms.count(id)) { hit = true; break; } E x = P.all[id]; if (x->k == KUF && ufn.count(x->name)) { hit = true; break; } }
      if (hit) { used[i] = 1; out.push_back(s.pc[i]); if (add(s.pc[i])) ch = true; else ch = true; }
    } }
}
static std::shared_ptr<Model> overlay(std::shared_ptr<Model> base, std::shared_ptr<Model> n) {
  auto m = std::make_shared<Model>(); m->val = base->val; m->uf = base->uf;
  for (auto &kv : n->val) m->val.insert_or_assign(kv.first, kv.second);
  for (auto &kv : n->uf) m->uf[kv.first] = kv.second;
  return m;
}
// is (pc && c) satisfiable; fills model
static R query(State &s, E c, std::shared_ptr<Model> *out) {
  c = subst(s, c);
  if (c->isC()) { if (c->isZero()) return UNSAT; if (out) *out = s.model; return SAT; }
  if (evalM(*s.model, c).getBoolValue()) { if (out) *out = s.model; return SAT; }
  std::vector<E> cs; slice(s, c, cs);
  std::shared_ptr<Model> m;
  static const bool slow = getenv("USYM_SLOW") != nullptr; double t0 = slow ? now() : 0;
  R r = S->check(cs, &m);
  if (slow && now() - t0 > 1) { str st; int n = 0; for (auto it = s.st.rbegin(); it != s.st.rend() && n < 5; ++it, n++) { auto &b = it->kf->blocks[it->blk]; unsigned ip = std::min<unsigned>(it->ip, b.insts.size() - 1); st += locOf(b.insts[ip].I) + " < "; } fprintf(stderr, "slow query %.1fs (%d, %zu conjuncts): %s\n", now() - t0, (int)r, cs.size(), st.c_str()); }
  if (r == SAT && out) *out = overlay(s.model, m);
  return r;
}

// ---------------------------------------------------------------- errors
static void report(State &s, const str &kind, const str &msg, std::shared_ptr<Model> m, E cond = nullptr) {
    Instruction *I = curI(s); str loc = locOf(I);
  // for assertion: caller location
  str key = kind + "|" + msg + "|" + loc;
  if (!errSeen.insert(key).second) return;
  // full (unsliced) re-check so that the reported assignment satisfies everything
  std::vector<E> cs = s.pc; if (cond) cs.push_back(cond);
  std::shared_ptr<Model> fm; R r = gFacts.empty() ? S->check(cs, &fm) : S->checkZ3(cs, &fm);
  if (r == UNSAT && !gFacts.empty()) { errSeen.erase(key); throw PathEnd{"infeasible"}; } // refuted by a value computed since the path was forked
  if (r == UNSAT) { incomplete = true; incompleteWhy.insert("inconsistent slice"); errSeen.erase(key); return; }
  if (r == SAT) m = overlay(m, fm);
  Err e; e.kind = kind; e.msg = msg; e.loc = loc;
  for (auto it = s.st.rbegin(); it != s.st.rend(); ++it) { auto &b = it->kf->blocks[it->blk]; unsigned ip = std::min<unsigned>(it->ip, b.insts.size() - 1); e.stack += locOf(b.insts[ip].I) + "\n"; }
  for (auto &in : s.inputs) { std::vector<uint8_t> v; for (E b : in.bytes) v.push_back(evalM(*m, b).getZExtValue()); e.inputs.push_back({in.name, v}); }
  std::set<uint32_t> sup; for (E c : cs) for (uint32_t id : supp(c)) sup.insert(id);
  for (uint32_t id : sup) { E x = P.all[id]; if (x->k == KSym && x->name->compare(0, 6, "uninit") == 0) e.uninit = true;
    if (x->k == KUF) { APInt a = evalM(*m, x->a[0]), v = evalM(*m, x); auto hex = [](const APInt &z) { str o; for (int i = (int)z.getBitWidth() / 8 - 1; i >= 0; i--) { char t[3]; sprintf(t, "%02x", (unsigned)z.extractBits(8, i * 8).getZExtValue()); o += t; } return o; };
      e.uf.push_back({*x->name, hex(a), hex(v)}); } }
  errors.push_back(e);
  fprintf(stderr, "[usym] %s: %s at %s\n", kind.c_str(), msg.c_str(), loc.c_str());
  if (errors.size() >= maxErrors) { incomplete = true; incompleteWhy.insert("error limit reached"); budget = 0; }
}
static void mustHold(State &s, E c, const str &kind, const str &msg) {
  c = subst(s, c);
  if (c->isC() && !c->isZero()) return;
  std::shared_ptr<Model> m; E n = mkNot(c); nMemQ++;
  R r = query(s, n, &m);
  if (r == UNSAT) { return; }
  if (r == SAT) { report(s, kind, msg, m, n); }
  if (r == UNK) { incomplete = true; incompleteWhy.insert("solver unknown on safety check"); nUnknownAssert++; }
  std::shared_ptr<Model> m2; R r2 = query(s, c, &m2);
  if (r2 != SAT) throw PathEnd{"error"};
  s.model = m2; addPC(s, c);
}

// ---------------------------------------------------------------- memory
static std::unordered_map<uint32_t, OP> gmem; // initial globals
static uint32_t newSlot(const char *name, uint64_t size, uint8_t kind) { slots.push_back({name, size, kind, false}); return slots.size() - 1; }
static OP newObj(State *s, const char *name, uint64_t size, uint8_t kind, bool uninit) {
  auto o = std::make_shared<Obj>(); o->slot = newSlot(name, size, kind); o->base = slotBase(o->slot); o->size = size; o->kind = kind; o->name = name;
  o->c.assign(size, 0); if (uninit) o->e.assign(size, UNINIT);
  if (s) s->mem[o->slot] = o;
  return o;
}
static Obj *findObj(State &s, uint64_t addr) { auto it = s.mem.find(addr >> 32); if (it != s.mem.end()) return it->second.get(); auto g = gmem.find(addr >> 32); if (g != gmem.end()) return g->second.get(); return nullptr; }
static Obj *writable(State &s, uint32_t slot) {
  auto it = s.mem.find(slot);
  if (it == s.mem.end()) { auto g = gmem.find(slot); auto n = std::make_shared<Obj>(*g->second); s.mem[slot] = n; return n.get(); }
  if (it->second.use_count() > 1) it->second = std::make_shared<Obj>(*it->second);
  return it->second.get();
}
static str descAddr(uint64_t addr) { uint32_t sl = addr >> 32; if (sl < slots.size() && sl > 0) return str(slots[sl].name) + " (" + kindName[slots[sl].kind] + ", size " + std::to_string(slots[sl].size) + (slots[sl].freed ? ", maybe freed" : "") + ", offset " + std::to_string((int64_t)(addr - slotBase(sl))) + ")"; char b[32]; sprintf(b, "0x%llx", (unsigned long long)addr); return b; }
static E byteAt(State &s, Obj *o, uint64_t i) {
  if (o->e.empty() || !o->e[i]) return C(8, o->c[i]);
  if (o->e[i] == UNINIT) { E x = mkSym(8, str("uninit:") + o->name + "+" + std::to_string(i)); nUninit++; Obj *w = writable(s, o->slot); w->e[i] = x; return x; }
  return o->e[i];
}
static void setByte(Obj *o, uint64_t i, E b) {
  if (b->isC()) { o->c[i] = b->v; if (!o->e.empty()) o->e[i] = nullptr; }
  else { if (o->e.empty()) o->e.assign(o->size, nullptr); o->e[i] = b; }
}
static void truncated(State &s, const str &why) { nTrunc++; truncWhy[why]++; throw PathEnd{"truncated"}; }

// concretise e in this state: fork on value, current instruction re-executed in the sibling
static State *cloneState(State &s) { State *n = new State(s); n->id = ++stateIds; return n; }
static uint64_t concretize(State &s, E e, const char *what) {
  e = subst(s, e);
  if (e->isC()) return e->ap().getZExtValue();
    uint64_t v = evalM(*s.model, e).getZExtValue();
  E eq = mkEq(e, C(e->w, v)); E ne = mkNot(eq);
  std::shared_ptr<Model> m; R r = query(s, ne, &m);
  if (r == SAT) { State *o = cloneState(s); o->model = m; addPC(*o, ne); work.push_back(o); nForks++; forkLoc[str(what) + " " + locOf(curI(s))]++; }
  else if (r == UNK) { incomplete = true; incompleteWhy.insert("solver unknown (concretize)"); }
  addPC(s, eq); return v;
}
static bool decide(State &s, E c, const char *what) { // fork on condition (re-executes instruction in sibling)
  c = subst(s, c);
  if (c->isC()) return !c->isZero();
    bool b = evalM(*s.model, c).getBoolValue(); E other = b ? mkNot(c) : c;
  std::shared_ptr<Model> m; R r = query(s, other, &m);
  if (r == SAT) { State *o = cloneState(s); o->model = m; addPC(*o, other); work.push_back(o); nForks++; forkLoc[str(what) + " " + locOf(curI(s))]++; }
  else if (r == UNK) { incomplete = true; incompleteWhy.insert("solver unknown (decide)"); }
  addPC(s, b ? c : mkNot(c)); return b;
}
static bool collectLeaves(E e, std::vector<std::pair<E, int>> &dummy, std::set<uint64_t> &leaves, std::unordered_set<E> &seen) {
  if (!seen.insert(e).second) return true;
  if (e->isC()) { leaves.insert(e->v); return leaves.size() <= 8192; }
  if (e->k != KIte) return false;
  return collectLeaves(e->a[1], dummy, leaves, seen) && collectLeaves(e->a[2], dummy, leaves, seen);
}
struct Ref { Obj *o; uint64_t off; E offE; uint64_t lo, hi, step; }; // offE null -> concrete
static void checkSym(State &s, Obj *o, E offE, uint64_t off, uint64_t n, const char *what) {
  if (!o->symSize) return;
  E sz = o->symSize; E end = offE ? mkBin(KAdd, offE, C(64, n)) : C(64, off + n);
  mustHold(s, mkBin(KUle, end, sz), "memory", str(what) + " out of bounds (size symbolic) of " + o->name);
}
// resolve an address expression to an object reference, checking bounds. May fork.
static Ref resolve(State &s, const Val &a, uint64_t n, const char *what) {
  E e = a.e ? subst(s, a.e) : nullptr;
  if (!e || e->isC()) {
    uint64_t addr = e ? e->v : a.c; Obj *o = findObj(s, addr);
    if (!o || addr - o->base > o->size || addr - o->base + n > o->size) {
      if (o && o->symSize && addr >= o->base && addr - o->base + n > o->size) { uint64_t off = addr - o->base; checkSym(s, o, nullptr, off, n, what); truncated(s, "access beyond modelled capacity of symbolic-size allocation"); }
      report(s, "memory", str(what) + (addr < 0x100000000ULL ? " through null/invalid pointer" : o ? " out of bounds of " : " through dangling/invalid pointer ") + (addr < 0x100000000ULL ? "" : descAddr(addr)), s.model); throw PathEnd{"error"}; }
    uint64_t off = addr - o->base; checkSym(s, o, nullptr, off, n, what);
    return {o, off, nullptr, off, off, 1};
  }
  uint32_t sl; if ((e->umin >> 32) == (e->umax >> 32)) sl = e->umin >> 32;
  else {
    uint64_t v = evalM(*s.model, e).getZExtValue(); sl = v >> 32;
    uint64_t lo = (uint64_t)sl << 32;
    E in = mkAnd1(mkBin(KUle, C(64, lo), e), mkBin(KUlt, e, C(64, lo + 0x100000000ULL)));
    decide(s, in, "ptr-slot");
    v = evalM(*s.model, e).getZExtValue(); sl = v >> 32;
  }
  Obj *o = findObj(s, (uint64_t)sl << 32);
  if (!o) { report(s, "memory", str(what) + " through dangling/invalid pointer " + descAddr(evalM(*s.model, e).getZExtValue()), s.model); throw PathEnd{"error"}; }
  E off = mkBin(KSub, e, C(64, o->base));
  if (n > o->size && !o->symSize) { report(s, "memory", str(what) + " out of bounds of " + o->name, s.model); throw PathEnd{"error"}; }
  if (o->symSize) { mustHold(s, mkBin(KUle, off, C(64, 0x7fffffff)), "memory", str(what) + " before start of " + o->name); checkSym(s, o, off, 0, n, what);
    if (!(off->umax + n <= o->size)) { if (!decide(s, mkBin(KUle, off, C(64, o->size >= n ? o->size - n : 0)), "symcap")) truncated(s, "access beyond modelled capacity of symbolic-size allocation"); } }
  else if (!(off->umax <= o->size - n)) mustHold(s, mkBin(KUle, off, C(64, o->size - n)), "memory", str(what) + " out of bounds of " + o->name + " (" + kindName[o->kind] + ", size " + std::to_string(o->size) + ")");
  off = subst(s, off); if (s.linear) off = gf2fold(off);
  if (off->isC()) return {o, off->v, nullptr, off->v, off->v, 1};
  uint64_t step = 1; if (off->k == KConcat && off->a.back()->isZero()) step = 1ULL << std::min<uint32_t>(off->a.back()->w, 20);
  uint64_t lo = off->umin, hi = std::min<uint64_t>(off->umax, o->size - n);
  // align lo
  lo = (lo + step - 1) / step * step;
  return {o, 0, off, lo, hi, step};
}
static E muxRead(E off, uint64_t lo, uint64_t hi, uint64_t step, const std::function<E(uint64_t)> &leaf, unsigned w) {
  // balanced binary decision on offset value
  std::function<E(uint64_t, uint64_t)> rec = [&](uint64_t a, uint64_t b) -> E { // indexes
    if (a == b) return leaf(lo + a * step);
    uint64_t m = (a + b) / 2; E l = rec(a, m), r = rec(m + 1, b); if (l == r) return l;
    if (b - a == 1 || false) return mkIte(mkEq(off, C(64, lo + a * step)), l, r);
    return mkIte(mkBin(KUle, off, C(64, lo + m * step)), l, r); };
  return rec(0, (hi - lo) / step);
}
static E muxReadBits(E idx, unsigned bit, uint64_t base, uint64_t n, const std::function<E(uint64_t)> &leaf) { (void)idx; (void)bit; (void)base; (void)n; (void)leaf; return nullptr; }
static Val loadBytes(State &s, Obj *o, uint64_t off, uint64_t n, unsigned w) {
  if (o->e.empty() && w <= 64) { uint64_t v = 0; for (uint64_t i = 0; i < n; i++) v |= (uint64_t)o->c[off + i] << (8 * i); return VC(v & M(w)); }
  if (w <= 64) { bool sym = false; for (uint64_t i = 0; i < n; i++) if (o->e[off + i]) { sym = true; break; } if (!sym) { uint64_t v = 0; for (uint64_t i = 0; i < n; i++) v |= (uint64_t)o->c[off + i] << (8 * i); return VC(v & M(w)); } }
  std::vector<E> b; for (uint64_t i = n; i-- > 0;) { b.push_back(byteAt(s, o, off + i)); o = findObj(s, o->base); }
  E r = mkConcat(b); if (r->w > w) r = mkExtract(r, 0, w);
  return VE(subst(s, r));
}
static Val loadMem(State &s, const Val &a, unsigned w) {
  uint64_t n = (w + 7) / 8;
  if (a.e) { // ite-tree of constant pointers spanning objects: map the load
    E e = subst(s, a.e);
    if (!e->isC() && (e->umin >> 32) != (e->umax >> 32) && e->k == KIte) {
      std::vector<std::pair<E, int>> d; std::set<uint64_t> leaves; std::unordered_set<E> seen;
      if (collectLeaves(e, d, leaves, seen)) {
        bool ok = true; std::unordered_map<uint64_t, E> lv; uint64_t any = 0; bool have = false;
        for (uint64_t l : leaves) { Obj *o = findObj(s, l); if (!o || o->symSize || l - o->base > o->size || l - o->base + n > o->size) { // must be infeasible
              std::shared_ptr<Model> m; if (query(s, mkEq(e, C(64, l)), &m) != UNSAT) { ok = false; break; } } else { lv[l] = toE(loadBytes(s, o, l - o->base, n, w), w); any = l; have = true; } }
        if (ok && have) { E dflt = lv[any]; std::unordered_map<E, E> memo;
          std::function<E(E)> rec = [&](E x) -> E { if (x->isC()) { auto it = lv.find(x->v); return it == lv.end() ? dflt : it->second; } auto it = memo.find(x); if (it != memo.end()) return it->second; E r = mkIte(x->a[0], rec(x->a[1]), rec(x->a[2])); memo[x] = r; return r; };
          return VE(rec(e)); }
      }
    }
  }
  Ref r = resolve(s, a, n, "read");
  if (!r.offE) return loadBytes(s, r.o, r.off, n, w);
  if ((r.hi - r.lo) / r.step > 16384) { uint64_t v = concretize(s, r.offE, "load-offset"); return loadBytes(s, r.o, v, n, w); }
  uint32_t slot = r.o->slot;
  E x = muxRead(r.offE, r.lo, r.hi, r.step, [&](uint64_t off) { return toE(loadBytes(s, findObj(s, slotBase(slot)), off, n, w), w); }, w);
  if (s.linear) x = gf2rebuild(x);
  return VE(x);
}
static void storeMem(State &s, const Val &a, const Val &v, unsigned w) {
  uint64_t n = (w + 7) / 8;
  Ref r = resolve(s, a, n, "write");
  if (r.o->ro) { report(s, "memory", str("write to read-only ") + r.o->name, s.model); throw PathEnd{"error"}; }
  Obj *o = writable(s, r.o->slot);
  if (!r.offE) {
    if (!v.e) { for (uint64_t i = 0; i < n; i++) { o->c[r.off + i] = (i < 8) ? (v.c >> (8 * i)) & 0xff : 0; if (!o->e.empty()) o->e[r.off + i] = nullptr; } return; }
    E x = v.e; if (x->w < n * 8) x = mkZExt(x, n * 8);
    for (uint64_t i = 0; i < n; i++) setByte(o, r.off + i, mkExtract(x, 8 * i, 8));
    return;
  }
  if ((r.hi - r.lo) / r.step > 4096) { uint64_t off = concretize(s, r.offE, "store-offset"); o = writable(s, r.o->slot); E x = toE(v, w); if (x->w < n * 8) x = mkZExt(x, n * 8); for (uint64_t i = 0; i < n; i++) setByte(o, off + i, mkExtract(x, 8 * i, 8)); return; }
  E x = toE(v, w); if (x->w < n * 8) x = mkZExt(x, n * 8);
  for (uint64_t off = r.lo; off <= r.hi; off += r.step) { E c = mkEq(r.offE, C(64, off)); if (c->isZero()) continue;
    for (uint64_t i = 0; i < n; i++) { E old = byteAt(s, o, off + i); o = writable(s, o->slot); setByte(o, off + i, mkIte(c, mkExtract(x, 8 * i, 8), old)); } }
}
static void removeObj(State &s, uint32_t slot) { s.mem.erase(slot); }

// ---------------------------------------------------------------- decoding
static std::unordered_map<const GlobalValue *, uint64_t> gaddr; static std::unordered_map<uint64_t, Function *> faddr;
static std::unordered_map<Function *, KFunc *> kfuncs; static std::set<str> usedFns;
static unsigned widthOf(Type *t) { if (t->isPointerTy()) return 64; if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isFloatTy()) return 32; if (t->isDoubleTy()) return 64; return 0; }
static Val constVal(Constant *c);
static uint64_t constAddr(Constant *c) {
  Val v = constVal(c); return v.c;
}
static Val constVal(Constant *c) {
  if (auto *ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() <= 64) return VC(ci->getZExtValue()); Val v; v.e = CA(ci->getValue()); return v; }
  if (isa<ConstantPointerNull>(c)) return VC(0);
  if (isa<UndefValue>(c)) { if (c->getType()->isStructTy() || c->getType()->isArrayTy()) { Val v; v.agg = new std::vector<Val>(); unsigned n = c->getType()->isStructTy() ? c->getType()->getStructNumElements() : c->getType()->getArrayNumElements(); for (unsigned i = 0; i < n; i++) v.agg->push_back(VC(0)); return v; } Val v; v.e = UNINIT; return v; }
  if (auto *g = dyn_cast<GlobalValue>(c)) { auto it = gaddr.find(g); if (it == gaddr.end()) { fprintf(stderr, "no address for global %s\n", g->getName().str().c_str()); return VC(0); } return VC(it->second); }
  if (auto *f = dyn_cast<ConstantFP>(c)) return VC(f->getValueAPF().bitcastToAPInt().getZExtValue());
  if (isa<ConstantAggregateZero>(c) || isa<ConstantStruct>(c) || isa<ConstantArray>(c)) { Val v; v.agg = new std::vector<Val>(); Type *t = c->getType(); unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements(); for (unsigned i = 0; i < n; i++) v.agg->push_back(constVal(c->getAggregateElement(i))); return v; }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: { APInt off(64, 0); if (cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) return VC(constAddr(ce->getOperand(0)) + off.getSExtValue()); break; }
    case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::PtrToInt: case Instruction::IntToPtr: { Val v = constVal(ce->getOperand(0)); unsigned w = widthOf(ce->getType()); if (!v.e && w < 64) v.c &= M(w); return v; }
    case Instruction::Sub: return VC((constVal(ce->getOperand(0)).c - constVal(ce->getOperand(1)).c) & M(widthOf(ce->getType())));
    case Instruction::Add: return VC((constVal(ce->getOperand(0)).c + constVal(ce->getOperand(1)).c) & M(widthOf(ce->getType())));
    case Instruction::Trunc: return VC(constVal(ce->getOperand(0)).c & M(widthOf(ce->getType())));
    case Instruction::ICmp: { uint64_t x = constVal(ce->getOperand(0)).c, y = constVal(ce->getOperand(1)).c; if (ce->getPredicate() == CmpInst::ICMP_EQ) return VC(x == y); if (ce->getPredicate() == CmpInst::ICMP_NE) return VC(x != y); break; }
    default: break;
    }
  }
  str t; raw_string_ostream os(t); c->print(os); fprintf(stderr, "unsupported constant %s\n", os.str().c_str()); exit(71);
}
static void initGlobal(Obj *o, uint64_t off, Constant *c) {
  Type *t = c->getType();
  if (isa<UndefValue>(c) || c->isNullValue()) return;
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { StringRef r = cd->getRawDataValues(); memcpy(&o->c[off], r.data(), r.size()); return; }
  if (auto *s = dyn_cast<StructType>(t)) { const StructLayout *L = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) initGlobal(o, off + L->getElementOffset(i), c->getAggregateElement(i)); return; }
  if (auto *a = dyn_cast<ArrayType>(t)) { uint64_t sz = DL->getTypeAllocSize(a->getElementType()); for (uint64_t i = 0; i < a->getNumElements(); i++) initGlobal(o, off + i * sz, c->getAggregateElement(i)); return; }
  Val v = constVal(c); uint64_t n = DL->getTypeStoreSize(t);
  if (v.e) { APInt x = v.e->ap(); if (x.getBitWidth() < n * 8) x = x.zext(n * 8); for (uint64_t i = 0; i < n; i++) o->c[off + i] = x.extractBits(8, i * 8).getZExtValue(); return; }
  for (uint64_t i = 0; i < n && i < 8; i++) o->c[off + i] = v.c >> (8 * i);
}
static void setupGlobals() {
  slots.push_back({"null", 0, 0, false}); slots.push_back({"code", 0, 0, false});
  uint64_t i = 0; for (Function &f : *MOD) { if (f.isDeclaration() && f.hasExternalWeakLinkage()) { gaddr[&f] = 0; continue; } uint64_t a = slotBase(1) + 16 * (++i); gaddr[&f] = a; faddr[a] = &f; }
  std::vector<std::pair<GlobalVariable *, OP>> v;
  for (GlobalVariable &g : MOD->globals()) { uint64_t sz = DL->getTypeAllocSize(g.getValueType()); str *nm = new str(g.getName().str()); OP o = newObj(nullptr, nm->c_str(), sz, OGlobal, false); o->ro = g.isConstant(); gmem[o->slot] = o; gaddr[&g] = o->base; v.push_back({&g, o}); }
  for (GlobalAlias &a : MOD->aliases()) { if (auto *g = dyn_cast<GlobalValue>(a.getAliasee()->stripPointerCasts())) gaddr[&a] = gaddr[g]; }
  for (auto &p : v) if (p.first->hasInitializer()) initGlobal(p.second.get(), 0, p.first->getInitializer());
}
static KFunc *decode(Function *F) {
  auto it = kfuncs.find(F); if (it != kfuncs.end()) return it->second;
  KFunc *k = new KFunc; kfuncs[F] = k; k->f = F;
  std::unordered_map<const Value *, uint32_t> reg; uint32_t n = 0;
  for (Argument &a : F->args()) { reg[&a] = n++; k->argw.push_back(widthOf(a.getType())); }
  std::unordered_map<BasicBlock *, unsigned> bi; unsigned b = 0;
  for (BasicBlock &bb : *F) { bi[&bb] = b++; for (Instruction &I : bb) if (!I.getType()->isVoidTy()) reg[&I] = n++; }
  k->nregs = n;
  for (BasicBlock &bb : *F) {
    k->blocks.emplace_back(); KBlock &kb = k->blocks.back(); kb.bb = &bb;
    for (Instruction &I : bb) {
      if (isa<DbgInfoIntrinsic>(I)) continue;
      KInst ki; ki.I = &I; ki.opc = I.getOpcode(); if (!I.getType()->isVoidTy()) { ki.dst = reg[&I]; ki.w = widthOf(I.getType()); }
      auto mkop = [&](Value *v) { Op o; auto r = reg.find(v); if (r != reg.end()) { o.isReg = true; o.reg = r->second; } else if (auto *c = dyn_cast<Constant>(v)) { o.c = constVal(c); } return o; };
      if (auto *p = dyn_cast<PHINode>(&I)) { kb.nphi++; for (unsigned i = 0; i < p->getNumIncomingValues(); i++) { ki.ops.push_back(mkop(p->getIncomingValue(i))); ki.phiPreds.push_back(bi[p->getIncomingBlock(i)]); } }
      else if (auto *br = dyn_cast<BranchInst>(&I)) { if (br->isConditional()) ki.ops.push_back(mkop(br->getCondition())); ki.t1 = bi[br->getSuccessor(0)]; if (br->isConditional()) ki.t2 = bi[br->getSuccessor(1)]; }
      else if (auto *sw = dyn_cast<SwitchInst>(&I)) { ki.ops.push_back(mkop(sw->getCondition())); ki.aw = widthOf(sw->getCondition()->getType()); ki.t1 = bi[sw->getDefaultDest()]; for (auto &c : sw->cases()) ki.cases.push_back({c.getCaseValue()->getZExtValue(), bi[c.getCaseSuccessor()]}); }
      else if (auto *cb = dyn_cast<CallBase>(&I)) { for (auto &a : cb->args()) { if (a->getType()->isMetadataTy()) ki.ops.push_back(Op()); else ki.ops.push_back(mkop(a)); } if (Function *cf = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts())) ki.callee = cf; else if (auto *ga = dyn_cast<GlobalAlias>(cb->getCalledOperand()->stripPointerCasts())) { ki.callee = dyn_cast<Function>(ga->getAliasee()->stripPointerCasts()); } else ki.ops.push_back(mkop(cb->getCalledOperand())); }
      else if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
        ki.ops.push_back(mkop(g->getPointerOperand())); unsigned idx = 1;
        for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi, ++idx) {
          Value *v = gi.getOperand();
          if (StructType *st = gi.getStructTypeOrNull()) { ki.gepOff += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(v)->getZExtValue()); ki.ops.push_back(Op()); }
          else { uint64_t sz = DL->getTypeAllocSize(gi.getIndexedType()); if (auto *ci = dyn_cast<ConstantInt>(v)) { ki.gepOff += sz * ci->getSExtValue(); ki.ops.push_back(Op()); } else { ki.ops.push_back(mkop(v)); ki.gepVar.push_back({idx, sz}); } }
        }
        }
      else for (Value *v : I.operands()) { if (isa<BasicBlock>(v)) continue; ki.ops.push_back(mkop(v)); }
      if (I.getNumOperands() && !isa<PHINode>(I) && !isa<BranchInst>(I)) ki.aw = widthOf(I.getOperand(0)->getType());
      if (isa<GetElementPtrInst>(I)) { for (auto &gv : ki.gepVar) { (void)gv; } }
      kb.insts.push_back(std::move(ki));
    }
  }
  // where the two sides of a conditional branch rejoin: the immediate post-dominator if it lies in the same innermost loop,
  // otherwise (early exits) the nearest block every in-loop path passes; loop-exit conditions are never joined
  PostDominatorTree pdt(*F); DominatorTree dt(*F); LoopInfo li(dt); size_t nb = k->blocks.size(); k->join.assign(nb, -1); k->loopOf.assign(nb, -1);
  std::map<Loop *, int> lid;
  for (BasicBlock &bb : *F) if (Loop *L = li.getLoopFor(&bb)) { if (!lid.count(L)) { lid[L] = k->loops.size(); std::vector<char> v(nb, 0); for (BasicBlock *x : L->blocks()) v[bi[x]] = 1; k->loops.push_back(v); } k->loopOf[bi[&bb]] = lid[L]; }
  for (BasicBlock &bb : *F) {
    auto *br = dyn_cast<BranchInst>(bb.getTerminator()); if (!br || !br->isConditional()) continue;
    Loop *L = li.getLoopFor(&bb); auto *nd = pdt.getNode(&bb); BasicBlock *ip = nd && nd->getIDom() ? nd->getIDom()->getBlock() : nullptr;
    if (!L) { if (ip) k->join[bi[&bb]] = bi[ip]; continue; }
    if (ip && L->contains(ip)) { k->join[bi[&bb]] = bi[ip]; continue; }
    if (!L->contains(br->getSuccessor(0)) || !L->contains(br->getSuccessor(1))) continue;
    BasicBlock *H = L->getHeader();
    auto reach = [&](BasicBlock *from, BasicBlock *to, BasicBlock *without) { std::set<BasicBlock *> seen; std::vector<BasicBlock *> w; for (BasicBlock *x : successors(from)) w.push_back(x); while (!w.empty()) { BasicBlock *x = w.back(); w.pop_back(); if (!L->contains(x) || x == without || !seen.insert(x).second) continue; if (x == to) return true; if (x == H) continue; for (BasicBlock *y : successors(x)) w.push_back(y); } return false; };
    std::vector<BasicBlock *> pd; for (BasicBlock *x : L->blocks()) if (x != H && x != &bb && reach(&bb, x, nullptr) && !reach(&bb, H, x)) pd.push_back(x);
    BasicBlock *best = H; for (BasicBlock *x : pd) { bool first = true; for (BasicBlock *y : pd) if (y != x && reach(&bb, y, x)) first = false; if (first) { best = x; break; } }
    k->join[bi[&bb]] = bi[best]; }
  return k;
}

// ---------------------------------------------------------------- interpreter
static inline Val getOp(State &s, const Op &o) {
  if (o.isReg) return s.st.back().regs[o.reg];
  if (o.c.e == UNINIT) { nUninit++; return VE(mkSym(64, "uninit:undef")); }
  return o.c;
}
static inline Val getOpW(State &s, const Op &o, unsigned w) {
  if (o.isReg) { Val &v = s.st.back().regs[o.reg]; return v; }
  if (o.c.e == UNINIT) { nUninit++; return VE(mkSym(w ? w : 64, "uninit:undef")); }
  return o.c;
}
// --tab n: a term that depends on the low n bits of one byte only is kept as the decision tree of its values
static unsigned gTab = 0;
static std::pair<uint32_t, uint64_t> used(E e) { // the only symbol (0: none, ~0: several) and its bits
  static std::unordered_map<uint32_t, std::pair<uint32_t, uint64_t>> memo; if (e->isC()) return {0, 0}; auto it = memo.find(e->id); if (it != memo.end()) return it->second; std::pair<uint32_t, uint64_t> r{0, 0};
  if (e->k == KSym) r = {e->id, e->w <= 8 ? M(e->w) : ~0ULL}; else if (e->k == KUF) r = {~0u, ~0ULL}; else if (e->k == KExtract && e->a[0]->k == KSym && e->a[0]->w <= 8) r = {e->a[0]->id, M(e->w) << e->lo};
  else for (E x : e->a) { auto t = used(x); if (!t.first) continue; if (!r.first) r = t; else { if (t.first != r.first) r.first = ~0u; r.second |= t.second; } }
  return memo[e->id] = r; }
static E tabulate(E e) {
  if (e->isC() || e->k == KSym) return e; auto u = used(e); if (!u.first || u.first == ~0u || u.second >> gTab) return e; E sym = P.all[u.first];
  static std::map<uint32_t, std::vector<std::shared_ptr<Model>>> models; auto &ms = models[u.first]; if (ms.empty()) for (unsigned i = 0; i < 1u << gTab; i++) { auto m = std::make_shared<Model>(); m->val.emplace(u.first, APInt(sym->w, i)); ms.push_back(m); }
  std::vector<E> v; for (auto &m : ms) v.push_back(CA(evalM(*m, e)));
  for (unsigned b = 0; b < gTab; b++) { E c = mkExtract(sym, b, 1); std::vector<E> n; for (size_t i = 0; i < v.size(); i += 2) n.push_back(v[i] == v[i + 1] ? v[i] : mkIte(c, v[i + 1], v[i])); v = n; }
  return v[0]; }
static void setReg(State &s, const KInst &k, const Val &v) { if (k.dst >= 0) { s.st.back().regs[k.dst] = v; if (gTab && v.e) { E t = tabulate(v.e); if (t->isC() && t->w <= 64) s.st.back().regs[k.dst] = VC(t->v); else s.st.back().regs[k.dst].e = t; } } }
static void enterBlock(State &s, unsigned t) {
  Frame &f = s.st.back(); f.prev = f.blk; f.blk = t; KBlock &b = f.kf->blocks[t];
  if (b.nphi) { std::vector<Val> tmp(b.nphi);
    for (unsigned i = 0; i < b.nphi; i++) { KInst &k = b.insts[i]; for (unsigned j = 0; j < k.phiPreds.size(); j++) if (k.phiPreds[j] == f.prev) { tmp[i] = getOpW(s, k.ops[j], k.w); break; } }
    for (unsigned i = 0; i < b.nphi; i++) f.regs[b.insts[i].dst] = tmp[i]; }
  f.ip = b.nphi;
}
static void pushCall(State &s, Function *F, const std::vector<Val> &args, int retReg) {
  KFunc *k = decode(F); k->calls++;
  if (s.st.size() > 2000) { report(s, "stack", "call depth exceeds 2000 (unbounded recursion)", s.model); throw PathEnd{"error"}; }
  Frame f; f.kf = k; f.regs.resize(k->nregs); f.retReg = retReg;
  for (size_t i = 0; i < F->arg_size() && i < args.size(); i++) f.regs[i] = args[i];
  s.st.push_back(std::move(f)); s.st.back().ip = k->blocks[0].nphi;
}
// A shift whose value only feeds selects was speculated by simplifycfg: an oversized amount there is not executed by the source.
static bool onlySelects(Instruction *I, int d) {
  if (d > 4 || I->use_empty()) return false;
  for (User *u : I->users()) { Instruction *J = dyn_cast<Instruction>(u); if (!J || J->getParent() != I->getParent()) return false; if (isa<SelectInst>(J) && J->getOperand(0) != I) continue; if (!(isa<BinaryOperator>(J) || isa<CastInst>(J)) || !onlySelects(J, d + 1)) return false; }
  return true;
}
static bool speculated(Instruction *I) { static std::map<Instruction *, bool> m; auto it = m.find(I); if (it == m.end()) it = m.emplace(I, onlySelects(I, 0)).first; return it->second; }
static Val binop(State &s, unsigned opc, const Val &a, const Val &b, unsigned w, Instruction *I) {
  if (!a.e && !b.e && w <= 64) {
    uint64_t x = a.c, y = b.c, m = M(w); auto sx = [&](uint64_t v) { return w == 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); };
    switch (opc) {
    case Instruction::Add: return VC((x + y) & m); case Instruction::Sub: return VC((x - y) & m); case Instruction::Mul: return VC((x * y) & m);
    case Instruction::And: return VC(x & y); case Instruction::Or: return VC(x | y); case Instruction::Xor: return VC(x ^ y);
    case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem:
      if (y == 0) { report(s, "ub", "division by zero", s.model); throw PathEnd{"error"}; }
      if (opc == Instruction::UDiv) return VC(x / y); if (opc == Instruction::URem) return VC(x % y);
      { int64_t p = sx(x), q = sx(y); if (q == -1) return VC(opc == Instruction::SDiv ? (uint64_t)(0 - (uint64_t)p) & m : 0); return VC((uint64_t)(opc == Instruction::SDiv ? p / q : p % q) & m); }
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
      if (y >= w) { if (speculated(I)) return VC(0); if (gOvershift) { report(s, "ub", "shift amount " + std::to_string(y) + " >= width " + std::to_string(w), s.model); throw PathEnd{"error"}; } y %= (w < 32 ? 32 : w); if (y >= w) return VC(opc == Instruction::AShr && sx(x) < 0 ? m : 0); }
      if (opc == Instruction::Shl) return VC((x << y) & m); if (opc == Instruction::LShr) return VC(x >> y); return VC((uint64_t)(sx(x) >> y) & m);
    }
  }
  E x = toE(a, w), y = toE(b, w); K k;
  switch (opc) {
  case Instruction::Add: k = KAdd; break; case Instruction::Sub: k = KSub; break; case Instruction::Mul: k = KMul; break;
  case Instruction::And: k = KAnd; break; case Instruction::Or: k = KOr; break; case Instruction::Xor: k = KXor; break;
  case Instruction::UDiv: k = KUDiv; break; case Instruction::URem: k = KURem; break; case Instruction::SDiv: k = KSDiv; break; case Instruction::SRem: k = KSRem; break;
  case Instruction::Shl: k = KShl; break; case Instruction::LShr: k = KLShr; break; case Instruction::AShr: k = KAShr; break; default: abort();
  }
  if (k >= KUDiv && k <= KSRem && !y->isC()) mustHold(s, mkNot(mkEq(y, C(w, 0))), "ub", "division by zero");
  if (k >= KUDiv && k <= KSRem && y->isZero()) { report(s, "ub", "division by zero", s.model); throw PathEnd{"error"}; }
  if (k >= KShl && k <= KAShr && gOvershift && !(y->isC() && y->v < w) && !speculated(I)) mustHold(s, mkBin(KUlt, y, C(w, w)), "ub", "shift amount >= width");
  return VE(mkBin(k, x, y));
}
static Val icmp(unsigned p, const Val &a, const Val &b, unsigned w) {
  if (!a.e && !b.e && w <= 64) { uint64_t x = a.c, y = b.c; auto sx = [&](uint64_t v) { return w == 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }; bool r;
    switch (p) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break;
      case CmpInst::ICMP_SGT: r = sx(x) > sx(y); break; case CmpInst::ICMP_SGE: r = sx(x) >= sx(y); break; case CmpInst::ICMP_SLT: r = sx(x) < sx(y); break; default: r = sx(x) <= sx(y); }
    return VC(r); }
  E x = toE(a, w), y = toE(b, w);
  switch (p) { case CmpInst::ICMP_EQ: return VE(mkEq(x, y)); case CmpInst::ICMP_NE: return VE(mkNot(mkEq(x, y))); case CmpInst::ICMP_UGT: return VE(mkBin(KUlt, y, x)); case CmpInst::ICMP_UGE: return VE(mkBin(KUle, y, x)); case CmpInst::ICMP_ULT: return VE(mkBin(KUlt, x, y)); case CmpInst::ICMP_ULE: return VE(mkBin(KUle, x, y));
    case CmpInst::ICMP_SGT: return VE(mkBin(KSlt, y, x)); case CmpInst::ICMP_SGE: return VE(mkBin(KSle, y, x)); case CmpInst::ICMP_SLT: return VE(mkBin(KSlt, x, y)); default: return VE(mkBin(KSle, x, y)); }
}
static void step(State &s);
static bool tryMerge(State &s, KInst &k, E cond, std::shared_ptr<Model> mT, std::shared_ptr<Model> mF);

static str readStr(State &s, uint64_t a) { str r; for (;;) { Obj *o = findObj(s, a); if (!o || a - o->base >= o->size) break; uint64_t off = a - o->base; if (!o->e.empty() && o->e[off]) break; char c = o->c[off]; if (!c) break; r += c; a++; } return r; }
static uint64_t cAddr(State &s, const Val &v) { return v.e ? concretize(s, v.e, "addr") : v.c; }
static void copyMem(State &s, const Val &d, const Val &sr, const Val &nV, bool move) {
  uint64_t n = nV.e ? concretize(s, nV.e, "memcpy-len") : nV.c;
  if (n == 0) return;
  Ref rs = resolve(s, sr, n, "memcpy read"); if (rs.offE) { uint64_t o = concretize(s, rs.offE, "memcpy-src"); rs.off = o; }
  uint32_t ss = rs.o->slot; uint64_t so = rs.off;
  Ref rd = resolve(s, d, n, "memcpy write"); if (rd.offE) { uint64_t o = concretize(s, rd.offE, "memcpy-dst"); rd.off = o; }
  if (rd.o->ro) { report(s, "memory", str("write to read-only ") + rd.o->name, s.model); throw PathEnd{"error"}; }
  Obj *o = writable(s, rd.o->slot); Obj *src = findObj(s, slotBase(ss));
  std::vector<uint8_t> c(src->c.begin() + so, src->c.begin() + so + n); std::vector<E> e; if (!src->e.empty()) e.assign(src->e.begin() + so, src->e.begin() + so + n);
  if (!e.empty() && o->e.empty()) o->e.assign(o->size, nullptr);
  for (uint64_t i = 0; i < n; i++) { o->c[rd.off + i] = c[i]; if (!o->e.empty()) o->e[rd.off + i] = e.empty() ? nullptr : e[i]; }
}
static void setMem(State &s, const Val &d, const Val &v, const Val &nV) {
  uint64_t n = nV.e ? concretize(s, nV.e, "memset-len") : nV.c;
  if (n == 0) return;
  Ref rd = resolve(s, d, n, "memset write"); if (rd.offE) rd.off = concretize(s, rd.offE, "memset-dst");
  if (rd.o->ro) { report(s, "memory", str("write to read-only ") + rd.o->name, s.model); throw PathEnd{"error"}; }
  Obj *o = writable(s, rd.o->slot); E b = v.e ? mkExtract(v.e, 0, 8) : C(8, v.c);
  for (uint64_t i = 0; i < n; i++) setByte(o, rd.off + i, b);
}
static Val allocHeap(State &s, const Val &n, uint8_t kind, bool zero, Instruction *I) {
  str *nm = new str("heap@" + locOf(I));
  if (n.e) {
    E e = subst(s, n.e);
    if (!e->isC()) {
            uint64_t cap = std::min<uint64_t>(e->umax, allocCap);
      OP o = newObj(&s, nm->c_str(), cap, kind, !zero); o->symSize = e; return VC(o->base);
    }
    OP o = newObj(&s, nm->c_str(), e->v, kind, !zero); return VC(o->base);
  }
  if (n.c > (1ULL << 28)) { if (kind == OHeapMalloc) return VC(0); truncated(s, "allocation larger than 256MB"); }
  OP o = newObj(&s, nm->c_str(), n.c, kind, !zero); return VC(o->base);
}
static void freeHeap(State &s, const Val &p, uint8_t kind) {
  uint64_t a = cAddr(s, p); if (a == 0) return; Obj *o = findObj(s, a);
  if (!o || o->kind < OHeap) { report(s, "memory", str(o ? "free of non-heap pointer " : "double free or free of invalid pointer ") + descAddr(a), s.model); throw PathEnd{"error"}; }
  if (a != o->base) { report(s, "memory", str("free of interior pointer ") + descAddr(a), s.model); throw PathEnd{"error"}; }
  if (o->kind != kind) { report(s, "memory", str("mismatched allocation/deallocation ") + kindName[o->kind] + " vs " + kindName[kind], s.model); throw PathEnd{"error"}; }
  slots[o->slot].freed = true; removeObj(s, o->slot);
}
static E gatherBytes(State &s, const Val &p, uint64_t n, bool bigEndian) {
  Ref r = resolve(s, p, n, "read"); if (r.offE) r.off = concretize(s, r.offE, "uf-arg");
  std::vector<E> v; uint64_t base = r.o->base; for (uint64_t i = 0; i < n; i++) { v.push_back(subst(s, byteAt(s, findObj(s, base), r.off + i))); }
  if (!bigEndian) std::reverse(v.begin(), v.end());
  return mkConcat(v);
}
// returns true if handled natively
static bool native(State &s, KInst &k, Function *F, std::vector<Val> &A) {
  StringRef n = F->getName(); Instruction *I = k.I;
  if (n.starts_with("llvm.")) {
    switch (F->getIntrinsicID()) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: copyMem(s, A[0], A[1], A[2], true); return true;
    case Intrinsic::memset: setMem(s, A[0], A[1], A[2]); return true;
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: return true;
    case Intrinsic::stacksave: setReg(s, k, VC(0)); return true; case Intrinsic::stackrestore: return true;
    case Intrinsic::expect: setReg(s, k, A[0]); return true;
    case Intrinsic::bswap: { unsigned w = k.w; E x = toE(A[0], w); std::vector<E> v; for (unsigned i = 0; i < w; i += 8) v.push_back(mkExtract(x, i, 8)); setReg(s, k, VE(mkConcat(v))); return true; }
    case Intrinsic::fshl: case Intrinsic::fshr: { unsigned w = k.w; if (A[2].e) break; unsigned sh = A[2].c % w; E x = mkConcat({toE(A[0], w), toE(A[1], w)}); E r = F->getIntrinsicID() == Intrinsic::fshl ? mkExtract(x, w - sh, w) : mkExtract(x, sh, w); setReg(s, k, VE(r)); return true; }
    case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin: { unsigned w = k.w; E x = toE(A[0], w), y = toE(A[1], w); auto id = F->getIntrinsicID(); E c = mkBin(id == Intrinsic::umax || id == Intrinsic::umin ? KUlt : KSlt, x, y); bool mx = id == Intrinsic::umax || id == Intrinsic::smax; setReg(s, k, VE(mx ? mkIte(c, y, x) : mkIte(c, x, y))); return true; }
    case Intrinsic::abs: { unsigned w = k.w; E x = toE(A[0], w); setReg(s, k, VE(mkIte(mkBin(KSlt, x, C(w, 0)), mkBin(KSub, C(w, 0), x), x))); return true; }
    case Intrinsic::umul_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: {
      unsigned w = widthOf(F->getReturnType()->getStructElementType(0)); E x = mkZExt(toE(A[0], w), 2 * w), y = mkZExt(toE(A[1], w), 2 * w); E r; E ov;
      auto id = F->getIntrinsicID();
      if (id == Intrinsic::umul_with_overflow) { r = mkBin(KMul, x, y); ov = mkNot(mkEq(mkExtract(r, w, w), C(w, 0)));
        if (!A[1].e && A[1].c && w <= 64) { ov = mkBin(KUlt, C(w, M(w) / A[1].c), toE(A[0], w)); } else if (!A[0].e && A[0].c && w <= 64) ov = mkBin(KUlt, C(w, M(w) / A[0].c), toE(A[1], w)); }
      else if (id == Intrinsic::uadd_with_overflow) { r = mkBin(KAdd, x, y); ov = mkExtract(r, w, 1); } else { r = mkBin(KSub, x, y); ov = mkBin(KUlt, x, y); }
      Val v; v.agg = new std::vector<Val>{VE(id == Intrinsic::umul_with_overflow ? mkBin(KMul, toE(A[0], w), toE(A[1], w)) : mkExtract(r, 0, w)), VE(ov)}; setReg(s, k, v); return true; }
    case Intrinsic::trap: case Intrinsic::ubsantrap: report(s, "abort", "trap reached", s.model); throw PathEnd{"error"};
    case Intrinsic::objectsize: setReg(s, k, VC(~0ULL & M(k.w))); return true;
    case Intrinsic::is_constant: setReg(s, k, VC(0)); return true;
    default: break;
    }
        incomplete = true; incompleteWhy.insert(("unsupported intrinsic " + n).str()); throw PathEnd{"unsupported"};
  }
  if (n.starts_with("usym_")) {
    
    if (n == "usym_sym") { uint64_t p = cAddr(s, A[0]), len = A[1].e ? concretize(s, A[1].e, "sym") : A[1].c; str nm = readStr(s, A[2].c); Ref r = resolve(s, VC(p), len, "usym_sym"); Obj *o = len ? writable(s, r.o->slot) : nullptr; SymIn in; in.name = nm; for (uint64_t i = 0; i < len; i++) { E x = mkSym(8, nm + "[" + std::to_string(i) + "]"); in.bytes.push_back(x); setByte(o, r.off + i, x); } s.inputs.push_back(in); return true; }
    if (n == "usym_int") { str nm = readStr(s, A[0].c); uint64_t lo = cAddr(s, A[1]), hi = cAddr(s, A[2]); // value in [lo,hi]
      SymIn in; in.name = nm; unsigned bits = 64 - (hi ? __builtin_clzll(hi) : 64); unsigned nb = (bits + 7) / 8; std::vector<E> be; for (unsigned i = 0; i < 8; i++) { E x = i < nb ? mkSym(8, nm + "." + std::to_string(i)) : C(8, 0); in.bytes.push_back(x); be.insert(be.begin(), x); }
      E v = mkConcat(be); E c = mkAnd1(mkBin(KUle, C(64, lo), v), mkBin(KUle, v, C(64, hi))); std::shared_ptr<Model> m; if (query(s, c, &m) != SAT) { nAssumeKill++; throw PathEnd{"assume"}; } s.inputs.push_back(in); s.model = m; addPC(s, c); setReg(s, k, VE(subst(s, v))); return true; }
    if (n == "usym_concretize") { uint64_t v = A[0].e ? concretize(s, A[0].e, "usym_concretize") : A[0].c; setReg(s, k, VC(v)); return true; }
    if (n == "usym_assume") { E c = subst(s, A[0].e ? mkNot(mkEq(A[0].e, C(A[0].e->w, 0))) : C(1, A[0].c != 0)); std::shared_ptr<Model> m; R r = query(s, c, &m); if (r == UNSAT) { nAssumeKill++; throw PathEnd{"assume"}; } if (r == UNK) { incomplete = true; incompleteWhy.insert("solver unknown (assume)"); throw PathEnd{"assume"}; } s.model = m; addPC(s, c); return true; }
    if (n == "usym_assert") { nAsserts++; str msg = readStr(s, cAddr(s, A[1])); E c = subst(s, A[0].e ? mkNot(mkEq(A[0].e, C(A[0].e->w, 0))) : C(1, A[0].c != 0)); reached["assert:" + msg]++;
      if (c->isC() && !c->isZero()) { nAssertConst++; return true; }
      nAssertQueries++; std::shared_ptr<Model> m; R r = query(s, mkNot(c), &m);
      if (r == SAT) { report(s, "assert", msg, m, mkNot(c)); std::shared_ptr<Model> m2; if (query(s, c, &m2) != SAT) throw PathEnd{"assert"}; s.model = m2; addPC(s, c); }
      else if (r == UNK) { incomplete = true; incompleteWhy.insert("solver unknown on assertion: " + msg); nUnknownAssert++; }
      return true; }
    if (n == "usym_reach") { str l = readStr(s, cAddr(s, A[0])); reached[l]++; s.labels.push_back(l); return true; }
    if (n == "usym_kill") { throw PathEnd{"kill"}; }
    if (n == "usym_trunc") { truncated(s, readStr(s, cAddr(s, A[0]))); }
    if (n == "usym_param") { str nm = readStr(s, cAddr(s, A[0])); auto it = params.find(nm); setReg(s, k, it == params.end() ? A[1] : VC((uint64_t)it->second)); return true; }
    if (n == "usym_same" || n == "usym_same_here") { uint64_t p = cAddr(s, A[0]), q = cAddr(s, A[1]), len = cAddr(s, A[2]); E c = C(1, 1); for (uint64_t i = 0; i < len; i++) { Ref a = resolve(s, VC(p + i), 1, "usym_same"); E x = subst(s, byteAt(s, a.o, a.off)); Ref b = resolve(s, VC(q + i), 1, "usym_same"); E y = subst(s, byteAt(s, b.o, b.off)); if (x != y) c = mkAnd1(c, mkEq(x, y)); }
      bool same = c->isC() ? !c->isZero() : false; if (!c->isC() && evalM(*s.model, c).getBoolValue()) { std::shared_ptr<Model> m; same = (n == "usym_same" ? S->check({mkNot(c)}, &m) : query(s, mkNot(c), &m)) == UNSAT; } SymIn in; in.name = "?same"; in.bytes.push_back(C(8, same)); s.inputs.push_back(in); setReg(s, k, VC(same)); return true; }
    if (n == "usym_is_symbolic") { uint64_t p = cAddr(s, A[0]), len = cAddr(s, A[1]); bool sy = false; Ref r = resolve(s, VC(p), len, "usym_is_symbolic"); if (!r.o->e.empty()) for (uint64_t i = 0; i < len; i++) if (r.o->e[r.off + i]) { E b = r.o->e[r.off + i]; if (b == UNINIT || !subst(s, b)->isC()) sy = true; } if (s.st[0].blk || s.st[0].ip) { SymIn in; in.name = "?symbolic"; in.bytes.push_back(C(8, sy)); s.inputs.push_back(in); } // not in static constructors, which run before a replay starts
      setReg(s, k, VC(sy)); return true; }
    if (n == "usym_uf") { str nm = readStr(s, cAddr(s, A[0])); uint64_t inl = cAddr(s, A[2]), outl = cAddr(s, A[4]); E a = gatherBytes(s, A[1], inl, true); E u = mkUF(nm, a, outl * 8); Ref r = resolve(s, VC(cAddr(s, A[3])), outl, "usym_uf out"); Obj *o = writable(s, r.o->slot); for (uint64_t i = 0; i < outl; i++) setByte(o, r.off + i, mkExtract(u, 8 * (outl - 1 - i), 8)); return true; }
    if (n == "usym_uf_fact") { str nm = readStr(s, cAddr(s, A[0])); E a = gatherBytes(s, A[1], cAddr(s, A[2]), true), b = gatherBytes(s, A[3], cAddr(s, A[4]), true); if (a->isC() && b->isC()) gFacts[P.intern(nm)].insert_or_assign(ufKey(a->ap(), b->w), b->ap()); return true; }
    if (n == "usym_uf_try") { str nm = readStr(s, cAddr(s, A[0])); uint64_t inl = cAddr(s, A[2]), outl = cAddr(s, A[4]); E a = gatherBytes(s, A[1], inl, true); if (a->isC()) { setReg(s, k, VC(0)); return true; } E u = mkUF(nm, a, outl * 8); Ref r = resolve(s, VC(cAddr(s, A[3])), outl, "usym_uf out"); Obj *o = writable(s, r.o->slot); for (uint64_t i = 0; i < outl; i++) setByte(o, r.off + i, mkExtract(u, 8 * (outl - 1 - i), 8)); setReg(s, k, VC(1)); return true; }
    if (n == "usym_replaying") { setReg(s, k, VC(0)); return true; }
    if (n == "usym_linear") { s.linear = A[0].c; return true; }
    if (n == "usym_merge") { s.merge = A[0].c; return true; }
    if (n == "usym_objsize") { uint64_t p = cAddr(s, A[0]); Obj *o = findObj(s, p); uint64_t z = o ? o->size : 0; if (o && o->symSize) { z = concretize(s, o->symSize, "objsize"); o = findObj(s, p); } setReg(s, k, VC(o ? z - (p - o->base) : 0)); return true; }
    if (n == "usym_alive") { uint64_t p = cAddr(s, A[0]); Obj *o = findObj(s, p); setReg(s, k, VC(o != nullptr)); return true; }
    if (n == "usym_heap_count") { uint64_t c = 0; for (auto &kv : s.mem) if (kv.second->kind >= OHeap) c++; setReg(s, k, VC(c)); return true; }
    if (n == "usym_print") { str nm = readStr(s, cAddr(s, A[0])); fprintf(stderr, "[print] %s %s\n", nm.c_str(), A[1].e ? toStr(subst(s, A[1].e), 8).c_str() : std::to_string(A[1].c).c_str()); return true; }
    if (n == "usym_strz_concrete") { uint64_t p = cAddr(s, A[0]); bool ok = false; for (;;) { Obj *o = findObj(s, p); if (!o || p - o->base >= o->size) break; if (!o->e.empty() && o->e[p - o->base]) break; if (!o->c[p - o->base]) { ok = true; break; } p++; } setReg(s, k, VC(ok)); return true; }
    if (n == "usym_strchr_native") { uint64_t p = cAddr(s, A[0]); E c = mkExtract(toE(A[1], 32), 0, 8); std::vector<std::pair<uint64_t, uint8_t>> v; std::set<uint8_t> seen; for (;; p++) { Obj *o = findObj(s, p); uint8_t b = o->c[p - o->base]; if (seen.insert(b).second) v.push_back({p, b}); if (!b) break; } E r = C(64, 0); for (size_t i = v.size(); i-- > 0;) r = mkIte(mkEq(c, C(8, v[i].second)), C(64, v[i].first), r); setReg(s, k, VE(r)); return true; }
    if (n == "usym_strcmp_ok" || n == "usym_strcmp_native") {
      uint64_t p[2] = {cAddr(s, A[0]), cAddr(s, A[1])}; int64_t len[2] = {-1, -1}; uint64_t room[2] = {0, 0}; bool sym = false;
      for (int t = 0; t < 2; t++) { Obj *o = findObj(s, p[t]); if (!o || o->symSize || p[t] - o->base >= o->size) continue; room[t] = o->size - (p[t] - o->base); uint64_t off = p[t] - o->base;
        for (uint64_t i = 0; i < room[t]; i++) { if (!o->e.empty() && o->e[off + i]) { sym = true; if (o->e[off + i] == UNINIT) room[t] = i; break; } if (!o->c[off + i]) { len[t] = i; break; } } }
      int c = len[0] >= 0 ? 0 : len[1] >= 0 ? 1 : -1; bool ok = c >= 0 && sym && room[1 - c] > (uint64_t)len[c];
      if (n == "usym_strcmp_ok") { setReg(s, k, VC(ok)); return true; }
      E all = T1(), r = C(32, 1); for (int64_t i = len[c]; i >= 0; i--) { E x = byteAt(s, findObj(s, p[0]), p[0] + i - findObj(s, p[0])->base), y = byteAt(s, findObj(s, p[1]), p[1] + i - findObj(s, p[1])->base); E q = mkEq(x, y); all = mkAnd1(q, all); r = mkIte(q, r, mkIte(mkBin(KUlt, x, y), C(32, 0xffffffff), C(32, 1))); }
      r = mkIte(all, C(32, 0), r);
      setReg(s, k, VE(subst(s, r))); return true; }
    fprintf(stderr, "unknown usym intrinsic %s\n", n.str().c_str()); exit(72);
  }
  if (!F->isDeclaration()) return false;
  if (n == "memcpy" || n == "memmove" || n == "__memcpy_chk") { copyMem(s, A[0], A[1], A[2], true); setReg(s, k, A[0]); return true; }
  if (n == "memset") { setMem(s, A[0], A[1], A[2]); setReg(s, k, A[0]); return true; }
  if (n == "memcmp" || n == "bcmp") {
    uint64_t len = A[2].e ? concretize(s, A[2].e, "memcmp-len") : A[2].c; if (len == 0) { setReg(s, k, VC(0)); return true; }
    Ref x = resolve(s, A[0], len, "memcmp read"); if (x.offE) x.off = concretize(s, x.offE, "memcmp"); uint64_t xb = x.o->base;
    Ref y = resolve(s, A[1], len, "memcmp read"); if (y.offE) y.off = concretize(s, y.offE, "memcmp"); uint64_t yb = y.o->base;
    E r = C(32, 0); for (uint64_t i = len; i-- > 0;) { E a = subst(s, byteAt(s, findObj(s, xb), x.off + i)), b = subst(s, byteAt(s, findObj(s, yb), y.off + i)); if (a == b) continue; r = mkIte(mkEq(a, b), r, mkIte(mkBin(KUlt, a, b), C(32, 0xffffffff), C(32, 1))); }
    setReg(s, k, VE(r)); return true; }
  if (n == "malloc") { setReg(s, k, allocHeap(s, A[0], OHeapMalloc, false, I)); return true; }
  if (n == "calloc") { Val t = (A[0].e || A[1].e) ? VE(mkBin(KMul, toE(A[0], 64), toE(A[1], 64))) : VC(A[0].c * A[1].c); setReg(s, k, allocHeap(s, t, OHeapMalloc, true, I)); return true; }
  if (n == "free") { freeHeap(s, A[0], OHeapMalloc); return true; }
  if (n == "_Znwm") { setReg(s, k, allocHeap(s, A[0], OHeap, false, I)); return true; }
  if (n == "_Znam") { setReg(s, k, allocHeap(s, A[0], OHeapArr, false, I)); return true; }
  if (n == "_ZdlPv" || n == "_ZdlPvm") { freeHeap(s, A[0], OHeap); return true; }
  if (n == "_ZdaPv" || n == "_ZdaPvm") { freeHeap(s, A[0], OHeapArr); return true; }
  if (n == "__cxa_atexit") { setReg(s, k, VC(0)); return true; }
  if (n == "abort" || n == "exit" || n.starts_with("_ZSt") || n == "__assert_fail" || n == "__cxa_pure_virtual" || n == "__cxa_throw_bad_array_new_length") { report(s, "abort", ("call to " + n).str(), s.model); throw PathEnd{"error"}; }
    incomplete = true; incompleteWhy.insert(("call to unmodelled external " + n).str()); throw PathEnd{"unsupported"};
}

static void doCall(State &s, KInst &k) {
  auto *cb = cast<CallBase>(k.I); unsigned na = cb->arg_size(); std::vector<Val> A; A.reserve(na);
  for (unsigned i = 0; i < na; i++) A.push_back(getOpW(s, k.ops[i], widthOf(cb->getArgOperand(i)->getType())));
  Function *F = k.callee;
  if (!F) { if (cb->isInlineAsm()) { s.st.back().ip++; return; } uint64_t a = cAddr(s, getOp(s, k.ops[na])); auto it = faddr.find(a); if (it == faddr.end()) { report(s, "memory", "indirect call through invalid function pointer " + descAddr(a), s.model); throw PathEnd{"error"}; } F = it->second; }
  if (!intercept.empty() && !F->getName().starts_with("usym_")) { auto it = intercept.find(F->getName().str()); if (it != intercept.end()) { bool inside = false; for (auto &f : s.st) if (f.kf->f->getName() == it->second) inside = true; if (!inside) { Function *G = MOD->getFunction(it->second); if (!G) { fprintf(stderr, "missing stub %s\n", it->second.c_str()); exit(73); } usedFns.insert("(stubbed) " + F->getName().str()); F = G; } } }
  if (native(s, k, F, A)) { s.st.back().ip++; return; }
  // byval args: copy
  for (unsigned i = 0; i < na; i++) if (cb->isByValArgument(i)) { uint64_t sz = DL->getTypeAllocSize(cb->getParamByValType(i)); OP o = newObj(&s, "byval", sz, OStack, true); s.st.back().allocas.push_back(o->slot); copyMem(s, VC(o->base), A[i], VC(sz), true); A[i] = VC(o->base); }
  s.st.back().ip++;
  pushCall(s, F, A, k.dst);
}

static void step(State &s) {
  Frame &f = s.st.back(); KInst &k = f.kf->blocks[f.blk].insts[f.ip]; nInstr++; s.steps++;
  switch (k.opc) {
  case Instruction::Alloca: { auto *ai = cast<AllocaInst>(k.I); uint64_t sz = DL->getTypeAllocSize(ai->getAllocatedType()); if (ai->isArrayAllocation()) { Val n = getOpW(s, k.ops[0], 64); uint64_t c = n.e ? concretize(s, n.e, "alloca") : n.c; sz *= c; } static std::unordered_map<Instruction *, str *> nm; str *&p = nm[k.I]; if (!p) p = new str((ai->hasName() ? ai->getName().str() : str("tmp")) + "@" + llvm::demangle(ai->getFunction()->getName().str())); OP o = newObj(&s, p->c_str(), sz, OStack, true); f.allocas.push_back(o->slot); setReg(s, k, VC(o->base)); break; }
  case Instruction::Load: { Val a = getOp(s, k.ops[0]); Type *t = k.I->getType(); if (!k.w) { incomplete = true; incompleteWhy.insert("aggregate load"); throw PathEnd{"unsupported"}; } Val v = loadMem(s, a, k.w); (void)t; setReg(s, k, v); break; }
  case Instruction::Store: { auto *si = cast<StoreInst>(k.I); unsigned w = widthOf(si->getValueOperand()->getType()); Val v = getOpW(s, k.ops[0], w); Val a = getOp(s, k.ops[1]);
      if (!w) { // aggregate store
        Type *t = si->getValueOperand()->getType(); auto *stt = dyn_cast<StructType>(t); if (!stt || !v.agg || a.e) { incomplete = true; incompleteWhy.insert("aggregate store"); throw PathEnd{"unsupported"}; } const StructLayout *L = DL->getStructLayout(stt); for (unsigned i = 0; i < stt->getNumElements(); i++) storeMem(s, VC(a.c + L->getElementOffset(i)), (*v.agg)[i], widthOf(stt->getElementType(i))); break; }
      storeMem(s, a, v, w); break; }
  case Instruction::GetElementPtr: {
    Val b = getOp(s, k.ops[0]); 
    if (k.gepVar.empty() && !b.e) { setReg(s, k, VC(b.c + k.gepOff)); break; }
    bool conc = !b.e; uint64_t acc = b.c + k.gepOff; E acE = nullptr;
    if (b.e) acE = mkBin(KAdd, b.e, C(64, k.gepOff));
    for (auto &gv : k.gepVar) { auto *g = cast<GetElementPtrInst>(k.I); unsigned w = widthOf(g->getOperand(gv.first)->getType()); Val i = getOpW(s, k.ops[gv.first], w);
      if (!i.e) { int64_t sv = w == 64 ? (int64_t)i.c : (int64_t)(i.c << (64 - w)) >> (64 - w); if (conc) acc += gv.second * sv; else acE = mkBin(KAdd, acE, C(64, gv.second * sv)); }
      else { E x = mkSExt(i.e, 64); E t = mkBin(KMul, x, C(64, gv.second)); if (conc) { acE = mkBin(KAdd, t, C(64, acc)); conc = false; } else acE = mkBin(KAdd, acE, t); } }
    setReg(s, k, conc ? VC(acc) : VE(acE)); break; }
  case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
    Val a = getOpW(s, k.ops[0], k.w), b = getOpW(s, k.ops[1], k.w); setReg(s, k, binop(s, k.opc, a, b, k.w, k.I)); break; }
  case Instruction::ICmp: { Val a = getOpW(s, k.ops[0], k.aw), b = getOpW(s, k.ops[1], k.aw); setReg(s, k, icmp(cast<ICmpInst>(k.I)->getPredicate(), a, b, k.aw)); break; }
  case Instruction::Select: { Val c = getOpW(s, k.ops[0], 1); if (!c.e) { setReg(s, k, getOpW(s, k.ops[c.c ? 1 : 2], k.w)); break; }
    Val a = getOpW(s, k.ops[1], k.w), b = getOpW(s, k.ops[2], k.w); setReg(s, k, VE(mkIte(c.e, toE(a, k.w), toE(b, k.w)))); break; }
  case Instruction::ZExt: { Val a = getOpW(s, k.ops[0], k.aw); if (!a.e && k.w <= 64) setReg(s, k, a); else setReg(s, k, VE(mkZExt(toE(a, k.aw), k.w))); break; }
  case Instruction::SExt: { Val a = getOpW(s, k.ops[0], k.aw); if (!a.e && k.w <= 64) { uint64_t v = (uint64_t)((int64_t)(a.c << (64 - k.aw)) >> (64 - k.aw)) & M(k.w); setReg(s, k, VC(v)); } else setReg(s, k, VE(mkSExt(toE(a, k.aw), k.w))); break; }
  case Instruction::Trunc: { Val a = getOpW(s, k.ops[0], k.aw); if (!a.e) setReg(s, k, VC(a.c & M(k.w))); else setReg(s, k, VE(mkExtract(a.e, 0, k.w))); break; }
  case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: { Val a = getOpW(s, k.ops[0], k.aw); if (k.aw == k.w) setReg(s, k, a); else if (k.aw > k.w) setReg(s, k, a.e ? VE(mkExtract(a.e, 0, k.w)) : VC(a.c & M(k.w))); else setReg(s, k, a.e ? VE(mkZExt(a.e, k.w)) : a); break; }
  case Instruction::Freeze: setReg(s, k, getOpW(s, k.ops[0], k.w)); break;
  case Instruction::ExtractValue: { Val a = getOp(s, k.ops[0]); auto *ev = cast<ExtractValueInst>(k.I); for (unsigned i : ev->getIndices()) { if (!a.agg) { incomplete = true; incompleteWhy.insert("extractvalue"); throw PathEnd{"unsupported"}; } Val t = (*a.agg)[i]; a = t; } setReg(s, k, a); break; }
  case Instruction::InsertValue: { Val a = getOp(s, k.ops[0]); auto *iv = cast<InsertValueInst>(k.I); unsigned w = widthOf(iv->getInsertedValueOperand()->getType()); Val v = getOpW(s, k.ops[1], w); if (iv->getNumIndices() != 1) { incomplete = true; incompleteWhy.insert("insertvalue"); throw PathEnd{"unsupported"}; } auto *n = new std::vector<Val>(); if (a.agg) *n = *a.agg; else n->resize(iv->getType()->isStructTy() ? iv->getType()->getStructNumElements() : iv->getType()->getArrayNumElements()); (*n)[iv->getIndices()[0]] = v; Val r; r.agg = n; setReg(s, k, r); break; }
  case Instruction::Call: doCall(s, k); return;
  case Instruction::Ret: {
    Val v; bool has = !k.ops.empty(); if (has) v = getOpW(s, k.ops[0], k.aw);
    for (uint32_t sl : f.allocas) removeObj(s, sl);
    int rr = f.retReg; s.st.pop_back();
    if (s.st.empty()) throw PathEnd{"done"};
    if (rr >= 0 && has) s.st.back().regs[rr] = v;
    return; }
  case Instruction::Br: {
    if (k.ops.empty()) { enterBlock(s, k.t1); return; }
    Val c = getOpW(s, k.ops[0], 1);
    if (!c.e) { enterBlock(s, c.c ? k.t1 : k.t2); return; }
    E e = subst(s, c.e); if (e->isC()) { enterBlock(s, e->v ? k.t1 : k.t2); return; }
    bool b = evalM(*s.model, e).getBoolValue(); E other = b ? mkNot(e) : e; std::shared_ptr<Model> m; R r = query(s, other, &m);
    if (r == UNSAT) { if (!s.region) { s.eqs[e] = b ? T1() : F1(); s.eqs[mkNot(e)] = b ? F1() : T1(); s.smemo.clear(); } enterBlock(s, b ? k.t1 : k.t2); return; }
    if (r == UNK) { incomplete = true; incompleteWhy.insert("solver unknown at branch"); enterBlock(s, b ? k.t1 : k.t2); return; }
    if (s.merge && tryMerge(s, k, e, b ? s.model : m, b ? m : s.model)) { nMerges++; return; }
        nForks++; forkLoc["br " + locOf(k.I)]++; f.kf->isym++;
    if (isa<UnreachableInst>(cast<BranchInst>(k.I)->getSuccessor(b ? 1 : 0)->getTerminator())) { // a failing assertion of the code: report it before going on
      State *o = cloneState(s); addPC(*o, b ? e : mkNot(e)); work.push_back(o); s.model = m; addPC(s, other); enterBlock(s, b ? k.t2 : k.t1); return; }
    State *o = cloneState(s); o->model = m; addPC(*o, other); work.push_back(o);
    addPC(s, b ? e : mkNot(e)); enterBlock(s, b ? k.t1 : k.t2); return; }
  case Instruction::Switch: {
    Val c = getOpW(s, k.ops[0], k.aw); E e = c.e ? subst(s, c.e) : nullptr;
    if (!e || e->isC()) { uint64_t v = e ? e->v : c.c; unsigned t = k.t1; for (auto &p : k.cases) if (p.first == v) { t = p.second; break; } enterBlock(s, t); return; }
    uint64_t v = evalM(*s.model, e).getZExtValue(); unsigned t = k.t1; for (auto &p : k.cases) if (p.first == v) { t = p.second; break; }
    E cond; if (t == k.t1) { cond = T1(); for (auto &p : k.cases) if (p.second != t) cond = mkAnd1(cond, mkNot(mkEq(e, C(k.aw, p.first)))); } else { cond = F1(); for (auto &p : k.cases) if (p.second == t) cond = mkOr1(cond, mkEq(e, C(k.aw, p.first))); }
    decide(s, cond, "switch"); enterBlock(s, t); return; }
  case Instruction::Unreachable: report(s, "ub", "unreachable code reached (missing return or abort)", s.model); throw PathEnd{"error"};
  case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FDiv: case Instruction::FMul: case Instruction::FAdd: case Instruction::FSub: case Instruction::FPExt: case Instruction::FPTrunc: {
    Val a = getOp(s, k.ops[0]), b; bool two = k.opc == Instruction::FDiv || k.opc == Instruction::FMul || k.opc == Instruction::FAdd || k.opc == Instruction::FSub; if (two) b = getOp(s, k.ops[1]);
    Type *ot = k.I->getOperand(0)->getType(), *rt = k.I->getType();
    if (a.e || b.e || !(rt->isFloatTy() || rt->isDoubleTy())) { incomplete = true; incompleteWhy.insert(str("floating point on symbolic values in ") + locOf(k.I)); throw PathEnd{"unsupported"}; }
    auto fp = [](uint64_t v, Type *t) -> double { if (t->isFloatTy()) { float f; uint32_t x = v; memcpy(&f, &x, 4); return f; } double d; memcpy(&d, &v, 8); return d; };
    double r; if (k.opc == Instruction::SIToFP) { unsigned w = widthOf(ot); r = (double)((int64_t)(a.c << (64 - w)) >> (64 - w)); } else if (k.opc == Instruction::UIToFP) r = (double)a.c; else if (!two) r = fp(a.c, ot);
    else { double x = fp(a.c, ot), y = fp(b.c, ot); r = k.opc == Instruction::FDiv ? x / y : k.opc == Instruction::FMul ? x * y : k.opc == Instruction::FAdd ? x + y : x - y; }
    uint64_t o = 0; if (rt->isFloatTy()) { float f = (float)r; uint32_t x; memcpy(&x, &f, 4); o = x; } else memcpy(&o, &r, 8);
    setReg(s, k, VC(o)); break; }
  default:
        incomplete = true; incompleteWhy.insert(str("unsupported instruction ") + k.I->getOpcodeName() + " in " + locOf(k.I)); throw PathEnd{"unsupported"};
  }
  s.st.back().ip++;
}


static std::map<str, uint64_t> endWhy;
static void sample(State &s);
static bool outOfTime() { if (now() - tStart > budget) { incomplete = true; incompleteWhy.insert("time budget exhausted"); return true; } return false; }
// fold joiner b (guard gb) into a: every differing phi and memory byte becomes ite(gb, b, a). false = not mergeable, a unchanged
static bool foldInto(State &a, State &b, E gb, KBlock &kb, State &base) {
  if (a.inputs.size() != b.inputs.size() || a.labels != b.labels || a.st.size() != b.st.size()) return false;
  for (size_t i = 0; i < a.inputs.size(); i++) if (a.inputs[i].bytes != b.inputs[i].bytes) return false;
  Frame &fa = a.st.back(), &fb = b.st.back(); if (fa.allocas != fb.allocas) return false;
  std::vector<Val> ph;
  for (unsigned i = 0; i < kb.nphi; i++) { Val x = fa.regs[kb.insts[i].dst], y = fb.regs[kb.insts[i].dst]; if (x.agg || y.agg) return false; unsigned w = kb.insts[i].w; E ex = toE(x, w), ey = toE(y, w);
    if (ex != ey && kb.insts[i].I->getType()->isPointerTy()) { if (!(ex->isC() && ey->isC() && (ex->v >> 32) == (ey->v >> 32))) return false; }
    ph.push_back(ex == ey ? x : VE(mkIte(gb, ey, ex))); }
  for (auto &kv : a.mem) if (!b.mem.count(kv.first) && (base.mem.count(kv.first) || !gmem.count(kv.first))) return false;
  for (auto &kv : b.mem) if (!a.mem.count(kv.first) && (base.mem.count(kv.first) || !gmem.count(kv.first))) return false;
  std::vector<std::pair<uint32_t, OP>> upd; std::vector<uint32_t> ks; for (auto &kv : a.mem) ks.push_back(kv.first); for (auto &kv : b.mem) if (!a.mem.count(kv.first)) ks.push_back(kv.first);
  for (uint32_t sl : ks) {
    auto ia = a.mem.find(sl), ib = b.mem.find(sl); OP oa = ia != a.mem.end() ? ia->second : gmem.find(sl)->second, ob = ib != b.mem.end() ? ib->second : gmem.find(sl)->second;
    if (oa == ob) continue; if (oa->size != ob->size || oa->symSize != ob->symSize) return false;
    OP n = std::make_shared<Obj>(*oa);
    for (uint64_t i = 0; i < n->size; i++) {
      E ea = oa->e.empty() ? nullptr : oa->e[i], eb = ob->e.empty() ? nullptr : ob->e[i];
      if (ea == eb && (ea || oa->c[i] == ob->c[i])) continue;
      if (ea == UNINIT) { ea = mkSym(8, str("uninit:") + oa->name); } if (eb == UNINIT) { eb = mkSym(8, str("uninit:") + ob->name); }
      E x = ea ? ea : C(8, oa->c[i]), y = eb ? eb : C(8, ob->c[i]); setByte(n.get(), i, mkIte(gb, y, x)); }
    upd.push_back({sl, n}); }
  for (auto &u : upd) a.mem[u.first] = u.second;
  for (unsigned i = 0; i < kb.nphi; i++) fa.regs[kb.insts[i].dst] = ph[i];
  a.steps = std::max(a.steps, b.steps); a.uninitUse |= b.uninitUse; return true;
}
// Explore both sides of a branch up to the block where they rejoin and fold the states that arrive there into one.
// States that leave the region by another way stay separate. Nothing is dropped.
static bool tryMerge(State &s, KInst &k, E cond, std::shared_ptr<Model> mT, std::shared_ptr<Model> mF) {
  Frame &f = s.st.back(); int p = f.kf->join[f.blk]; if (p < 0) return false;
  int loop = f.kf->loopOf[f.blk]; size_t depth = s.st.size(); KFunc *kf = f.kf;
  std::vector<State *> outer; outer.swap(work);
  State base(s); size_t n0 = base.pc.size();
  State *A = cloneState(s), *B = cloneState(s); A->model = mT; B->model = mF; addPC(*A, cond); addPC(*B, mkNot(cond)); enterBlock(*A, k.t1); enterBlock(*B, k.t2);
  work.push_back(B); work.push_back(A);
  std::vector<State *> join, leave; size_t lost = 0; uint64_t bud = mergeBudget; bool over = false; nForks++;
  while (!work.empty()) {
    State *x = work.back(); work.pop_back();
    if (over) { leave.push_back(x); continue; }
    try { for (uint64_t cnt = 0;; cnt++) {
        Frame &g = x->st.back();
        if (x->st.size() < depth) { leave.push_back(x); break; }
        if (x->st.size() == depth) { if (g.blk == (unsigned)p && g.ip == kf->blocks[p].nphi) { join.push_back(x); break; } if (loop >= 0 && !kf->inLoop(loop, g.blk)) { leave.push_back(x); break; } }
        if (bud == 0 || ((cnt & 255) == 255 && outOfTime())) { over = true; leave.push_back(x); break; }
        bud--; if (x->steps > maxSteps) { report(*x, "hang", "path exceeded " + std::to_string(maxSteps) + " instructions", x->model); throw PathEnd{"error"}; }
        step(*x); }
    } catch (PathEnd &pe) { endWhy[pe.why]++; if (!strcmp(pe.why, "done")) sample(*x); if (strcmp(pe.why, "moved")) nPaths++; lost++; delete x; }
    if (join.size() + leave.size() + work.size() > 512) over = true;
  }
  work.swap(outer);
  std::vector<State *> res; std::vector<E> guards; KBlock &kb = kf->blocks[p];
  for (State *x : join) {
    E g = T1(); for (size_t i = n0; i < x->pc.size(); i++) g = mkAnd1(g, x->pc[i]);
    bool done = false; for (size_t r = 0; r < res.size() && !done; r++) if (foldInto(*res[r], *x, g, kb, base)) { guards[r] = mkOr1(guards[r], g); done = true; nMerges++; delete x; }
    if (!done) { res.push_back(x); guards.push_back(g); }
  }
  bool total = lost == 0 && leave.empty() && res.size() == 1;
  for (size_t r = 0; r < res.size(); r++) { State *x = res[r]; x->pc = base.pc; x->eqs = base.eqs; x->smemo.clear(); if (!total) addPC(*x, guards[r]); }
  for (State *x : leave) work.push_back(x);
  for (size_t r = 1; r < res.size(); r++) work.push_back(res[r]);
  if (res.empty()) throw PathEnd{"moved"};
  State *x = res[0]; uint64_t id = s.id; s = std::move(*x); s.id = id; delete x; return true;
}


struct Sample { std::vector<std::pair<str, std::vector<uint8_t>>> inputs; std::vector<str> labels; bool uf = false, uninit = false; };
static std::vector<Sample> samples; static unsigned maxSamples = 6; static uint64_t nDone = 0; static std::map<std::vector<str>, int> sampleKinds;
// keep the assignment of a few completed paths (preferring distinct outcome label sequences) for native validation
static void sample(State &s) {
  nDone++; int &c = sampleKinds[s.labels]; c++; if (samples.size() >= maxSamples && !(c == 1 && samples.size() < 3 * maxSamples)) return; if (c > 2 && samples.size() >= 2) return;
  Sample x; x.labels = s.labels; for (E c2 : s.pc) for (uint32_t id : supp(c2)) { E e = P.all[id]; if (e->k == KUF) x.uf = true; if (e->k == KSym && e->name->compare(0, 6, "uninit") == 0) x.uninit = true; }
  for (auto &in : s.inputs) { std::vector<uint8_t> v; for (E b : in.bytes) v.push_back(evalM(*s.model, b).getZExtValue()); x.inputs.push_back({in.name, v}); }
  samples.push_back(x);
}
static void explore(State *init) {
  work.push_back(init);
  while (!work.empty()) {
    if (now() - tStart > budget) { incomplete = true; incompleteWhy.insert("time budget exhausted"); break; }
    if (nPaths >= maxPaths) { incomplete = true; incompleteWhy.insert("path limit"); break; }
    State *s = work.back(); work.pop_back();
    try { uint64_t cnt = 0;
      for (;;) { step(*s);
        if ((++cnt & 1023) == 0) { if (now() - tStart > budget) { incomplete = true; incompleteWhy.insert("time budget exhausted"); break; }
          if (s->steps > maxSteps) { report(*s, "hang", "path exceeded " + std::to_string(maxSteps) + " instructions", s->model); break; } } }
    } catch (PathEnd &p) { endWhy[p.why]++; if (!strcmp(p.why, "done")) sample(*s); }
    nPaths++; delete s;
  }
}

static str jesc(const str &s) { str o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((unsigned char)c < 32) o += ' '; else o += c; } return o; }
static str outFile, entry = "harness"; static str inFile; static str emitFile;
static void writeReport() {
  double wall = now() - tStart;
  std::ostringstream o;
  o << "{\"entry\":\"" << entry << "\",\"complete\":" << (incomplete ? "false" : "true") << ",\"incomplete_why\":["; bool first = true; for (auto &w : incompleteWhy) { o << (first ? "" : ",") << "\"" << jesc(w) << "\""; first = false; }
  o << "],\"paths\":" << nPaths << ",\"forks\":" << nForks << ",\"merges\":" << nMerges << ",\"merge_aborts\":" << nMergeAborts << ",\"instructions\":" << nInstr << ",\"queries\":" << S->nq << ",\"query_cache_hits\":" << S->ncache << ",\"sat\":" << S->nsat << ",\"unsat\":" << S->nunsat << ",\"unknown\":" << S->nunk << ",\"congruence_lemmas\":" << S->nack << ",\"solver_s\":" << S->time << ",\"max_query_s\":" << S->maxq << ",\"wall_s\":" << wall
    << ",\"asserts_checked\":" << nAsserts << ",\"asserts_by_simplification\":" << nAssertConst << ",\"asserts_by_solver\":" << nAssertQueries << ",\"safety_queries\":" << nMemQ << ",\"assume_killed\":" << nAssumeKill << ",\"truncated\":" << nTrunc << ",\"exprs\":" << P.all.size() << ",\"symbols\":" << symNames.size() << ",\"uninit_reads\":" << nUninit;
  o << ",\"ends\":{"; first = true; for (auto &w : endWhy) { o << (first ? "" : ",") << "\"" << w.first << "\":" << w.second; first = false; }
  o << "},\"truncated_why\":{"; first = true; for (auto &w : truncWhy) { o << (first ? "" : ",") << "\"" << jesc(w.first) << "\":" << w.second; first = false; }
  o << "},\"reached\":{"; first = true; for (auto &w : reached) { o << (first ? "" : ",") << "\"" << jesc(w.first) << "\":" << w.second; first = false; }
  o << "},\"done\":" << nDone << ",\"samples\":["; first = true;
  for (auto &e : samples) { o << (first ? "" : ",") << "{\"uf\":" << (e.uf ? "true" : "false") << ",\"uninit\":" << (e.uninit ? "true" : "false") << ",\"labels\":["; bool f2 = true; for (auto &l : e.labels) { o << (f2 ? "" : ",") << "\"" << jesc(l) << "\""; f2 = false; } o << "],\"inputs\":["; f2 = true;
    for (auto &in : e.inputs) { o << (f2 ? "" : ",") << "[\"" << jesc(in.first) << "\",\""; for (uint8_t b : in.second) { char t[3]; sprintf(t, "%02x", b); o << t; } o << "\"]"; f2 = false; } o << "]}"; first = false; }
  o << "],\"functions\":["; first = true; for (auto &kf : kfuncs) if (kf.second->calls) { o << (first ? "" : ",") << "\"" << jesc(llvm::demangle(kf.first->getName().str())) << "\""; first = false; } for (auto &u : usedFns) { o << (first ? "" : ",") << "\"" << jesc(u) << "\""; first = false; }
  o << "],\"errors\":["; first = true;
  for (auto &e : errors) { o << (first ? "" : ",") << "{\"kind\":\"" << e.kind << "\",\"msg\":\"" << jesc(e.msg) << "\",\"loc\":\"" << jesc(e.loc) << "\",\"stack\":\"" << jesc(e.stack) << "\",\"uninit\":" << (e.uninit ? "true" : "false") << ",\"inputs\":["; bool f2 = true;
    for (auto &in : e.inputs) { o << (f2 ? "" : ",") << "[\"" << jesc(in.first) << "\",\""; for (uint8_t b : in.second) { char t[3]; sprintf(t, "%02x", b); o << t; } o << "\"]"; f2 = false; }
    o << "],\"uf\":["; f2 = true; for (auto &u : e.uf) { o << (f2 ? "" : ",") << "[\"" << std::get<0>(u) << "\",\"" << std::get<1>(u) << "\",\"" << std::get<2>(u) << "\"]"; f2 = false; }
    o << "]}"; first = false; }
  o << "]}";
  if (outFile.empty()) puts(o.str().c_str()); else { std::ofstream of(outFile); of << o.str() << "\n"; }
  if (gTrace) { std::vector<std::pair<uint64_t, str>> v; for (auto &kv : forkLoc) v.push_back({kv.second, kv.first}); std::sort(v.rbegin(), v.rend()); for (size_t i = 0; i < v.size() && i < 25; i++) fprintf(stderr, "%8llu %s\n", (unsigned long long)v[i].first, v[i].second.c_str()); }
  fflush(stdout);
  _exit(errors.empty() ? 0 : 1);
}
static void *mainThread(void *) {
  SMDiagnostic err; MOD = parseIRFile(inFile, err, CTX); if (!MOD) { err.print("usym", errs()); exit(74); }
  DL = &MOD->getDataLayout();
  if (!emitFile.empty()) { // rewrite intercepted functions for the replay build
    for (auto &kv : intercept) { Function *F = MOD->getFunction(kv.first), *G = MOD->getFunction(kv.second); if (!F || !G) continue;
      std::vector<Use *> us; for (Use &u : F->uses()) us.push_back(&u);
      for (Use *u : us) { if (auto *I = dyn_cast<Instruction>(u->getUser())) { if (I->getFunction() == G) continue; u->set(G); } else if (!isa<Constant>(u->getUser())) u->set(G); } }
    for (Function &F : *MOD) if (!F.isDeclaration()) F.addFnAttr(Attribute::SanitizeAddress); // the replay build runs under ASan
    for (const char *n : {"strlen", "strcmp", "strncmp", "strcpy", "strncpy", "strcat", "strchr", "strrchr", "memchr", "strnlen", "strstr", "isdigit", "isspace", "tolower", "toupper", "isupper", "islower", "realloc", "rand", "srand"})
      if (Function *f = MOD->getFunction(n)) if (!f->isDeclaration()) { f->deleteBody(); f->setComdat(nullptr); } // libc's own in the native build
    std::error_code ec; raw_fd_ostream os(emitFile, ec); WriteBitcodeToFile(*MOD, os); os.flush(); _exit(0); }
  setupGlobals();
  S = new Solver();
  State *s = new State; s->model = std::make_shared<Model>(); s->merge = gMerge;
  Function *F = MOD->getFunction(entry); if (!F || F->isDeclaration()) { fprintf(stderr, "no entry %s\n", entry.c_str()); exit(75); }
  pushCall(*s, F, {}, -1);
  // static constructors run first: push their frames on top (last ctor first)
  if (GlobalVariable *g = MOD->getGlobalVariable("llvm.global_ctors")) if (g->hasInitializer()) if (auto *ca = dyn_cast<ConstantArray>(g->getInitializer())) for (unsigned i = ca->getNumOperands(); i-- > 0;) if (auto *fn = dyn_cast<Function>(ca->getOperand(i)->getOperand(1))) pushCall(*s, fn, {}, -1);
  explore(s);
  writeReport(); return nullptr;
}
int main(int argc, char **argv) {
  tStart = now();
  for (int i = 1; i < argc; i++) { str a = argv[i]; auto val = [&]() { return str(argv[++i]); };
    if (a == "--lia") gLia = true; else if (a == "--tab") gTab = atoi(val().c_str()); else if (a == "--entry") entry = val(); else if (a == "--out") outFile = val(); else if (a == "--budget") budget = atof(val().c_str()); else if (a == "--max-steps") maxSteps = strtoull(val().c_str(), 0, 0); else if (a == "--alloc-cap") allocCap = strtoull(val().c_str(), 0, 0); else if (a == "--merge") gMerge = true; else if (a == "--words") gWords = true; else if (a == "--merge-budget") mergeBudget = atoi(val().c_str()); else if (a == "--trace") gTrace = true; else if (a == "--no-overshift") gOvershift = false; else if (a == "--max-errors") maxErrors = atoi(val().c_str()); else if (a == "--emit") emitFile = val();
    else if (a == "--intercept") { str v = val(); size_t p = v.find('='); intercept[v.substr(0, p)] = v.substr(p + 1); } else if (a == "--param") { str v = val(); size_t p = v.find('='); params[v.substr(0, p)] = strtol(v.substr(p + 1).c_str(), 0, 0); } else if (a == "--query-timeout") { extern unsigned gQT; gQT = atoi(val().c_str()) * 1000; }
    else inFile = a; }
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 4ULL << 30); pthread_t t; if (pthread_create(&t, &at, mainThread, nullptr)) { perror("thread"); return 76; } 
  for (;;) { // watchdog: time and memory limits hold even inside one solver call
    sleep(1); double over = now() - tStart - budget; long pages = 0, rss = 0; if (FILE *f = fopen("/proc/self/statm", "r")) { if (fscanf(f, "%ld %ld", &pages, &rss) != 2) rss = 0; fclose(f); }
    if (rss * 4096.0 > 7e9) { incomplete = true; incompleteWhy.insert("memory limit"); writeReport(); }
    if (over > 5 && S) Z3_interrupt(S->ctx);
    if (over > 40) { incomplete = true; incompleteWhy.insert("time budget exhausted"); writeReport(); }
  }
}
unsigned gQT = 60000;

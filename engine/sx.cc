// sx: symbolic executor for LLVM IR (forking paths, byte-precise bounded memory, Z3 decisions, coroutines).
#include "expr.h"
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Transforms/IPO/Internalize.h>
#include <llvm/IR/Verifier.h>
#include <memory>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <sys/resource.h>
#include <unistd.h>

using namespace llvm;
typedef std::string str;

// ------------------------------------------------------------------------------------------ values
struct V { uint64_t c = 0; E e = nullptr; };
static inline E toE(const V& v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
static inline V fromE(E e) { V v; if (isC(e)) { v.c = e->c; v.e = nullptr; } else { v.c = 0; v.e = e; } return v; }
static inline V cv(uint64_t c) { V v; v.c = c; return v; }

// ------------------------------------------------------------------------------------------ options
static std::map<str, uint64_t> gParams;
static bool gForkSelect = false;
static double gTimeLimit = 600; static uint64_t gPathInstr = 30000000; static unsigned gMaxErrors = 4; static unsigned gEnumLimit = 300;
static unsigned gSamples = 3; static uint64_t gMaxPaths = ~0ull; static bool gVerbose = false; static size_t gMaxMemMB = 6000;
static std::chrono::steady_clock::time_point gT0;
static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - gT0).count(); }
static str gIncomplete;
static void incomplete(const str& why) { if (gIncomplete.empty()) gIncomplete = why; if (gVerbose) fprintf(stderr, "incomplete: %s\n", why.c_str()); }

static std::unique_ptr<Module> M; static const DataLayout* DL;

// ------------------------------------------------------------------------------------------ memory
struct Content { std::vector<uint8_t> b, k; std::vector<E> s; }; // k: 0 concrete 1 symbolic 2 uninitialised
struct Obj { uint64_t base = 0, size = 0; std::shared_ptr<Content> c; bool ro = false; uint8_t kind = 0; /*0 global 1 heap 2 stack*/ };
typedef std::map<uint64_t, Obj> Mem;
static Mem gConstMem;
static uint64_t gGlobalNext = 0x100000;

// ------------------------------------------------------------------------------------------ code
struct Opnd { int slot; int cidx; }; // slot>=0: register; else constant pool index
struct KInst { Instruction* I; unsigned op; int dest; int nd; std::vector<Opnd> ops; int t0 = -1, t1 = -1; unsigned w = 0; int64_t gepOff = 0; std::vector<std::pair<int, uint64_t>> gepIdx; };
struct KFunc { Function* F; std::vector<KInst> code; std::vector<int> bbStart; std::map<BasicBlock*, int> bbIdx; int nregs = 0; std::vector<int> argSlot; std::vector<std::vector<V>> consts; str name; uint64_t calls = 0; bool repo = false; };
static std::unordered_map<Function*, KFunc*> gFuncs;
static std::unordered_map<uint64_t, Function*> gFuncByAddr; static std::unordered_map<const Function*, uint64_t> gFuncAddr;
static std::unordered_map<const GlobalVariable*, uint64_t> gGlobAddr;

struct Frame { KFunc* f; int pc = 0; int bb = 0; std::vector<V> r; std::vector<uint64_t> allocas; };
struct Thread { std::vector<Frame> st; bool done = false; };
struct Input { str name; std::vector<E> bytes; };
struct Obs { str name; E val; };
struct State {
  std::vector<Thread> th; int cur = 0; Mem mem; std::vector<E> pc; std::unordered_set<E> pcset; Model model;
  std::vector<Input> in; std::vector<Obs> obs; uint64_t next = 0x10000000; uint64_t instrs = 0; int nun = 0; std::map<str, int> nameCount; bool inexact = false;
  unsigned depth = 0; unsigned enumCount = 0;
};
static std::vector<State*> gWork;
struct Err { str kind, msg, loc; std::vector<str> stack; str inputs; };
static std::vector<Err> gErrs; static std::set<str> gErrKeys; static uint64_t gErrTotal = 0;
static std::map<str, uint64_t> gCovers; static std::vector<str> gSampleOut;
static uint64_t gPaths = 0, gCompleted = 0, gForks = 0, gInstr = 0, gAsserts = 0, gAssertQueries = 0, gAssumeKilled = 0, gBranchesSym = 0;

struct PathEnd {};
static std::set<str> gNoUb; // functions in which UB findings are not reported

static str jstr(const str& s) { str o = "\""; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o + "\""; }

// ------------------------------------------------------------------------------------------ types
static unsigned scalarW(Type* t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isPointerTy()) return 64; if (t->isFloatTy()) return 32; if (t->isDoubleTy()) return 64; if (t->isHalfTy()) return 16;
  if (t->isX86_FP80Ty()) return 80;
  errs() << "sx: unsupported type " << *t << "\n"; abort();
}
struct Flat { uint64_t off; unsigned w; };
static void flatten(Type* t, uint64_t off, std::vector<Flat>& out) {
  if (t->isVoidTy() || t->isLabelTy() || t->isMetadataTy() || t->isTokenTy()) return;
  if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) flatten(st->getElementType(i), off + sl->getElementOffset(i), out); return; }
  if (auto* at = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (uint64_t i = 0; i < at->getNumElements(); i++) flatten(at->getElementType(), off + i * es, out); return; }
  if (auto* vt = dyn_cast<FixedVectorType>(t)) { uint64_t es = (scalarW(vt->getElementType()) + 7) / 8; for (unsigned i = 0; i < vt->getNumElements(); i++) flatten(vt->getElementType(), off + i * es, out); return; }
  out.push_back({off, scalarW(t)});
}
static std::unordered_map<Type*, std::vector<Flat>> gFlat;
static const std::vector<Flat>& flat(Type* t) { auto it = gFlat.find(t); if (it != gFlat.end()) return it->second; std::vector<Flat> f; flatten(t, 0, f); return gFlat[t] = f; }

static void constVals(const Constant* c, std::vector<V>& out);
static uint64_t constAddr(const Constant* c) { std::vector<V> v; constVals(c, v); return v[0].c; }
static void constVals(const Constant* c, std::vector<V>& out) {
  Type* t = c->getType();
  if (auto* ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) { E e = mkConcat(mkConst(ci->getValue().extractBitsAsZExtValue(ci->getBitWidth() - 64, 64), ci->getBitWidth() - 64), mkConst(ci->getValue().extractBitsAsZExtValue(64, 0), 64)); V v; v.e = e; out.push_back(v); return; } out.push_back(cv(ci->getZExtValue())); return; }
  if (auto* cf = dyn_cast<ConstantFP>(c)) { if (t->isX86_FP80Ty()) { out.push_back(cv(0)); return; } out.push_back(cv(cf->getValueAPF().bitcastToAPInt().getZExtValue())); return; }
  if (isa<ConstantPointerNull>(c)) { out.push_back(cv(0)); return; }
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) { for (auto& f : flat(t)) { V v = cv(0); if (f.w > 64) v.e = mkConst(0, f.w); out.push_back(v); } return; }
  if (auto* f = dyn_cast<Function>(c)) { out.push_back(cv(gFuncAddr.at(f))); return; }
  if (auto* g = dyn_cast<GlobalVariable>(c)) { out.push_back(cv(gGlobAddr.at(g))); return; }
  if (auto* ga = dyn_cast<GlobalAlias>(c)) { constVals(ga->getAliasee(), out); return; }
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < cd->getNumElements(); i++) constVals(cd->getElementAsConstant(i), out); return; }
  if (isa<ConstantStruct>(c) || isa<ConstantArray>(c) || isa<ConstantVector>(c)) { for (auto& o : c->operands()) constVals(cast<Constant>(o), out); return; }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: { APInt off(64, 0); auto* g = cast<GEPOperator>(ce); bool ok = g->accumulateConstantOffset(*DL, off); if (!ok) abort(); out.push_back(cv(constAddr(ce->getOperand(0)) + off.getSExtValue())); return; }
      case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::IntToPtr: case Instruction::PtrToInt: constVals(ce->getOperand(0), out); out.back().c &= maskw(scalarW(t)); return;
      case Instruction::Add: out.push_back(cv(constAddr(ce->getOperand(0)) + constAddr(ce->getOperand(1)))); return;
      case Instruction::Sub: out.push_back(cv(constAddr(ce->getOperand(0)) - constAddr(ce->getOperand(1)))); return;
      case Instruction::Trunc: out.push_back(cv(constAddr(ce->getOperand(0)) & maskw(scalarW(t)))); return;
      default: break;
    }
  }
  errs() << "sx: unsupported constant " << *c << "\n"; abort();
}

// ------------------------------------------------------------------------------------------ compile
static KFunc* kfunc(Function* F) {
  auto it = gFuncs.find(F); if (it != gFuncs.end()) return it->second;
  KFunc* k = new KFunc; k->F = F; gFuncs[F] = k; k->name = demangle(F->getName().str());
  std::unordered_map<const Value*, int> slot;
  auto alloc = [&](const Value* v) { int s = k->nregs; slot[v] = s; k->nregs += flat(v->getType()).size(); return s; };
  for (auto& a : F->args()) k->argSlot.push_back(alloc(&a));
  int n = 0, b = 0;
  for (auto& bb : *F) { k->bbIdx[&bb] = b++; k->bbStart.push_back(n); for (auto& i : bb) { if (!i.getType()->isVoidTy()) alloc(&i); n++; } }
  std::unordered_map<const Constant*, int> cmap;
  for (auto& bb : *F) for (auto& i : bb) {
    KInst ki; ki.I = &i; ki.op = i.getOpcode(); ki.dest = i.getType()->isVoidTy() ? -1 : slot[&i]; ki.nd = flat(i.getType()).size();
    for (auto& o : i.operands()) {
      Opnd od{-1, -1}; Value* v = o.get();
      if (isa<BasicBlock>(v) || isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) {}
      else if (auto* c = dyn_cast<Constant>(v)) {
        auto ci = cmap.find(c); if (ci != cmap.end()) od.cidx = ci->second; else { std::vector<V> vals; constVals(c, vals); od.cidx = k->consts.size(); k->consts.push_back(vals); cmap[c] = od.cidx; }
      } else od.slot = slot.at(v);
      ki.ops.push_back(od);
    }
    if (auto* br = dyn_cast<BranchInst>(&i)) { ki.t0 = k->bbIdx[br->getSuccessor(0)]; if (br->isConditional()) ki.t1 = k->bbIdx[br->getSuccessor(1)]; }
    if (auto* iv = dyn_cast<InvokeInst>(&i)) ki.t0 = k->bbIdx[iv->getNormalDest()];
    if (auto* g = dyn_cast<GetElementPtrInst>(&i)) {
      int oi = 1;
      for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi, ++oi) {
        if (StructType* st = gi.getStructTypeOrNull()) { ki.gepOff += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(gi.getOperand())->getZExtValue()); }
        else { uint64_t sz = gi.getSequentialElementStride(*DL).getFixedValue(); if (auto* ci = dyn_cast<ConstantInt>(gi.getOperand())) ki.gepOff += ci->getSExtValue() * (int64_t)sz; else ki.gepIdx.push_back({oi, sz}); }
      }
    }
    k->code.push_back(std::move(ki));
  }
  // bbIdx for later blocks was complete before the second loop (filled above)
  if (auto* sp = F->getSubprogram()) { str fn = (sp->getDirectory() + "/" + sp->getFilename()).str(); if (sp->getFilename().starts_with("/")) fn = sp->getFilename().str(); k->repo = fn.find("/repo/") == 0; }
  return k;
}

// ------------------------------------------------------------------------------------------ state helpers
static str instLoc(const KInst& ki) {
  if (auto& dl = ki.I->getDebugLoc()) { auto* sc = cast<DIScope>(dl->getScope()); str f = sc->getFilename().str(); return f + ":" + std::to_string(dl.getLine()); }
  return "?";
}
static str curLoc(State& s) { // innermost frame in /repo, else innermost
  auto& st = s.th[s.cur].st; str in = "?";
  for (int i = (int)st.size() - 1; i >= 0; i--) { Frame& f = st[i]; int pc = std::max(0, f.pc - 1); str l = instLoc(f.f->code[pc]); if (in == "?") in = l; if (l.find("/repo/") == 0) return l; }
  return in;
}
static str inputsJson(State& s, const Model& m) {
  str o = "[";
  for (size_t i = 0; i < s.in.size(); i++) {
    if (i) o += ",";
    o += "[" + jstr(s.in[i].name) + ",\"";
    for (E b : s.in[i].bytes) { char h[4]; snprintf(h, 4, "%02x", (unsigned)evalE(b, m) & 255); o += h; }
    o += "\"]";
  }
  return o + "]";
}
static void report(State& s, const str& kind, const str& msg, const Model& m) {
  str loc = curLoc(s); str key = kind + "|" + msg + "|" + (kind == "assert" ? "" : loc);
  gErrTotal++;
  if (gErrKeys.count(key) || gErrs.size() >= 40) return;
  gErrKeys.insert(key);
  Err e; e.kind = kind; e.msg = msg; e.loc = loc; e.inputs = inputsJson(s, m);
  auto& st = s.th[s.cur].st;
  for (int i = (int)st.size() - 1; i >= 0 && e.stack.size() < 25; i--) e.stack.push_back(st[i].f->name.substr(0, 160) + " @ " + instLoc(st[i].f->code[std::max(0, st[i].pc - 1)]));
  gErrs.push_back(e);
  if (gVerbose) { fprintf(stderr, "ERR %s: %s at %s\n", kind.c_str(), msg.c_str(), loc.c_str()); for (auto& x : e.stack) fprintf(stderr, "    %s\n", x.c_str()); fprintf(stderr, "   inputs %s\n", e.inputs.c_str()); }
}
static void addPC(State& s, E c) {
  if (isTrue(c)) return;
  if (c->op == O_AND && c->w == 1) { addPC(s, c->a); addPC(s, c->b); return; }
  if (s.pcset.insert(c).second) s.pc.push_back(c);
}
static Res query(State& s, E c, Model& m) {
  if (isTrue(c)) return SAT; if (isFalse(c)) return UNSAT;
  if (s.pcset.count(c)) return SAT; if (s.pcset.count(mkNot(c))) return UNSAT;
  if (c->op == O_AND && c->w == 1) { /* quick refutation */ if (s.pcset.count(mkNot(c->a)) || s.pcset.count(mkNot(c->b))) return UNSAT; }
  return solverCheck(s.pc, c, m);
}
static std::map<str, std::pair<uint64_t, double>> gProf; static str gProfLoc;
[[noreturn]] static void endPath() { throw PathEnd(); }

static State* forkState(State& s) { gForks++; State* n = new State(s); n->depth++; return n; }

// Decide a condition; forks when both sides are possible.  Returns the side the current state follows.
static bool decide(State& s, E c) {
  if (isC(c)) return c->c;
  if (s.pcset.count(c)) return true; E nc = mkNot(c); if (s.pcset.count(nc)) return false;
  gBranchesSym++; if (gVerbose) { auto& st = s.th[s.cur].st; gProf[instLoc(st.back().f->code[std::max(0, st.back().pc - 1)]) + " < " + curLoc(s)].first++; }
  Model mt = s.model, mf = s.model;
  Res t = solverCheck(s.pc, c, mt), f = (t == UNSAT) ? SAT : solverCheck(s.pc, nc, mf);
  if (t == UNSAT) { addPC(s, nc); return false; }
  if (f == UNSAT) { addPC(s, c); if (t == SAT) s.model = mt; return true; }
  if (t == UNKNOWN || f == UNKNOWN) { s.inexact = true; }
  State* o = forkState(s);
  o->model = mf; addPC(*o, nc); o->inexact = s.inexact || f == UNKNOWN;
  // the other state must re-execute the current instruction: it sees nc in its pcset
  auto& fr = o->th[o->cur].st.back(); fr.pc--; o->instrs--;
  gWork.push_back(o);
  s.model = mt; addPC(s, c);
  return true;
}
// Replace a symbolic value by a concrete one, forking over all feasible values.
static uint64_t concretize(State& s, const V& v, unsigned w, const char* what) {
  if (!v.e) return v.c;
  E e = v.e;
  // the current model's value in this state; decide() forks the remaining values as a re-execution of this
  // instruction in another state, whose enumCount says how many values were taken out before
  for (;;) {
    if (s.enumCount > gEnumLimit) { incomplete(str("too many values for ") + what + " at " + curLoc(s)); endPath(); }
    uint64_t val = (uint64_t)evalE(e, s.model);
    E eq = mkBin(O_EQ, e, mkConst(val, w));
    unsigned c = s.enumCount++;
    bool r = decide(s, eq);
    if (r) { s.enumCount = 0; (void)c; return val; }
  }
}

// ------------------------------------------------------------------------------------------ memory ops
static Obj* findObj(State& s, uint64_t a) {
  auto it = s.mem.upper_bound(a);
  if (it != s.mem.begin()) { --it; Obj& o = it->second; if (a >= o.base && a < o.base + o.size) return &o; }
  auto jt = gConstMem.upper_bound(a);
  if (jt != gConstMem.begin()) { --jt; Obj& o = jt->second; if (a >= o.base && a < o.base + o.size) return &o; }
  return nullptr;
}
static uint64_t allocObj(State& s, uint64_t size, uint8_t kind, bool zero) {
  uint64_t base = s.next; s.next = (base + size + 15) / 16 * 16 + 64;
  Obj o; o.base = base; o.size = size; o.kind = kind; o.c = std::make_shared<Content>();
  o.c->b.assign(size, 0); if (!zero) o.c->k.assign(size, 2);
  s.mem[base] = o; return base;
}
static Content& wr(Obj& o) { if (o.c.use_count() > 1) o.c = std::make_shared<Content>(*o.c); return *o.c; }
static E byteAt(State& s, Obj& o, uint64_t off) {
  Content* c = o.c.get();
  if (c->k.empty() || c->k[off] == 0) return mkConst(c->b[off], 8);
  if (c->k[off] == 1) return c->s[off];
  E v = mkVar("uninit" + std::to_string(gVars.size()), 8);
  Content& w = wr(o); if (w.s.empty()) w.s.assign(o.size, nullptr);
  w.k[off] = 1; w.s[off] = v; return v;
}
static void setByte(Content& c, uint64_t size, uint64_t off, E e) {
  if (isC(e)) { c.b[off] = e->c; if (!c.k.empty()) c.k[off] = 0; return; }
  if (c.k.empty()) c.k.assign(size, 0); if (c.s.empty()) c.s.assign(size, nullptr);
  c.k[off] = 1; c.s[off] = e;
}
static V readObj(State& s, Obj& o, uint64_t off, unsigned w) {
  unsigned n = (w + 7) / 8; Content& c = *o.c; bool conc = true;
  if (!c.k.empty()) for (unsigned i = 0; i < n; i++) if (c.k[off + i]) { conc = false; break; }
  if (conc && n <= 8) { uint64_t v = 0; memcpy(&v, &c.b[off], n); return cv(v & maskw(w)); }
  E r = byteAt(s, o, off);
  for (unsigned i = 1; i < n; i++) r = mkConcat(byteAt(s, o, off + i), r);
  if (r->w != w) r = mkExtract(r, 0, w);
  if (r->op == O_EXTRACT) r = mkExtract(r->a, r->c, r->w);
  return fromE(r);
}
static void writeObj(Obj& o, uint64_t off, unsigned w, const V& v) {
  unsigned n = (w + 7) / 8; Content& c = wr(o);
  if (!v.e) { memcpy(&c.b[off], &v.c, std::min(n, 8u)); if (n > 8) memset(&c.b[off + 8], 0, n - 8); if (!c.k.empty()) memset(&c.k[off], 0, n); return; }
  E e = v.e; if (e->w != n * 8) e = mkZExt(e, n * 8);
  for (unsigned i = 0; i < n; i++) setByte(c, o.size, off + i, mkExtract(e, 8 * i, 8));
}
static void memError(State& s, const str& what, uint64_t addr, uint64_t n, const Model& m) {
  char b[200]; snprintf(b, 200, "%s of %llu bytes at an invalid address (0x%llx)", what.c_str(), (unsigned long long)n, (unsigned long long)addr);
  Obj* near = nullptr; auto it = s.mem.upper_bound(addr); if (it != s.mem.begin()) { --it; near = &it->second; }
  str msg = what + " outside of any object"; (void)b;
  if (near && addr - near->base < near->size + 4096) msg = what + " beyond the end of an object";
  if (addr < 4096) msg = what + " through a null pointer";
  report(s, "memory", msg, m);
}
static bool isFreedNear(State&, uint64_t) { return false; }
// An upper bound of an unsigned value read off its structure.
static uint64_t ubound(E e, int d = 12) {
  uint64_t top = maskw(e->w); if (!d || e->w > 64) return top;
  switch (e->op) {
    case O_CONST: return e->c; case O_ZEXT: return ubound(e->a, d - 1);
    case O_AND: return std::min(ubound(e->a, d - 1), ubound(e->b, d - 1));
    case O_ITE: return std::max(ubound(e->b, d - 1), ubound(e->d, d - 1));
    case O_UREM: return isC(e->b) && e->b->c ? e->b->c - 1 : top;
    case O_LSHR: return isC(e->b) && e->b->c < e->w ? ubound(e->a, d - 1) >> e->b->c : top;
    case O_ADD: { u128 t = (u128)ubound(e->a, d - 1) + ubound(e->b, d - 1); return t > top ? top : (uint64_t)t; }
    case O_MUL: { u128 t = (u128)ubound(e->a, d - 1) * ubound(e->b, d - 1); return t > top ? top : (uint64_t)t; }
    case O_CONCAT: { uint64_t h = ubound(e->a, d - 1); return (h << e->b->w) | (isC(e->b) ? e->b->c : maskw(e->b->w)); }
    case O_EXTRACT: if (e->c == 0) return std::min(top, ubound(e->a, d - 1)); return top;
    default: return top;
  }
}
// Resolve [addr, addr+n) to an object; a concrete offset within it.  Forks on symbolic addresses.
struct Res1 { Obj* o; uint64_t off; E symOff; };
static Res1 resolve(State& s, const V& addr, uint64_t n, bool write, bool allowSymRead) {
  if (!addr.e) {
    Obj* o = findObj(s, addr.c);
    if (!o || addr.c + n > o->base + o->size) { memError(s, write ? "write" : "read", addr.c, n, s.model); endPath(); }
    if (write && o->ro) { report(s, "memory", "write to read-only memory", s.model); endPath(); }
    return {o, addr.c - o->base, nullptr};
  }
  E e = addr.e;
  for (int tries = 0; tries < 64; tries++) {
    uint64_t a = (uint64_t)evalE(e, s.model);
    Obj* o = findObj(s, a);
    if (!o || a + n > o->base + o->size) {
      memError(s, write ? "write" : "read", a, n, s.model);
      // continue with the addresses that are inside the nearest object, if any
      auto it = s.mem.upper_bound(a); bool cont = false;
      std::vector<Obj*> cands;
      if (it != s.mem.begin()) { auto j = std::prev(it); cands.push_back(&j->second); }
      if (it != s.mem.end()) cands.push_back(&it->second);
      auto jt = gConstMem.upper_bound(a); if (jt != gConstMem.begin()) cands.push_back(&std::prev(jt)->second);
      for (Obj* c : cands) { if (c->size < n) continue;
        E in = mkBin(O_ULE, mkBin(O_SUB, e, mkConst(c->base, 64)), mkConst(c->size - n, 64)); Model m2 = s.model;
        if (solverCheck(s.pc, in, m2) == SAT) { s.model = m2; addPC(s, in); cont = true; break; } }
      if (!cont) endPath();
      continue;
    }
    E off = mkBin(O_SUB, e, mkConst(o->base, 64));
    E in = mkBin(O_ULE, off, mkConst(o->size - n, 64));
    if (!(n <= o->size && ubound(off) <= o->size - n) && !decide(s, in)) continue;
    if (write && o->ro) { report(s, "memory", "write to read-only memory", s.model); endPath(); }
    if (isC(off)) return {o, off->c, nullptr};
    if (allowSymRead && o->size <= 8192) return {o, 0, off};
    uint64_t cval = concretize(s, addr, 64, "address");
    // the object map may have been copied but not changed: look it up again
    o = findObj(s, cval); return {o, cval - o->base, nullptr};
  }
  incomplete("address resolution"); endPath();
}
// An address that is an if-then-else tree with constant leaves (selected pointers, table look-ups after a
// search): distribute the operators over it, so that loads need no solver query and no fork.
struct IteTree {
  State* st = nullptr; IteTree(State* x = nullptr) : st(x) {}
  std::unordered_map<E, E> memo; unsigned budget = 3000;
  static E ap(Op op, E x, E y) { return op == O_CONCAT ? mkConcat(x, y) : mkBin(op, x, y); }
  E norm(E e) { // nullptr: not such a tree
    if (isC(e)) return e;
    auto it = memo.find(e); if (it != memo.end()) return it->second;
    E r = nullptr;
    if (budget && --budget) switch (e->op) {
      case O_ITE: { if (st && st->pcset.count(e->a)) { r = norm(e->b); break; } if (st && st->pcset.count(mkNot(e->a))) { r = norm(e->d); break; }
        E a = norm(e->b); E b = a ? norm(e->d) : nullptr; r = b ? mkIte(e->a, a, b) : nullptr; break; }
      case O_ZEXT: case O_SEXT: case O_EXTRACT: { E a = norm(e->a); if (a) r = map(a, [&](E x) { return e->op == O_ZEXT ? mkZExt(x, e->w) : e->op == O_SEXT ? mkSExt(x, e->w) : mkExtract(x, e->c, e->w); }); break; }
      case O_ADD: case O_SUB: case O_MUL: case O_SHL: case O_AND: case O_OR: case O_XOR: case O_LSHR: case O_ASHR: case O_SDIV: case O_UDIV: case O_CONCAT: {
        E a = norm(e->a); E b = a ? norm(e->b) : nullptr; if (!b) break;
        if (isC(b)) r = map(a, [&](E x) { return ap(e->op, x, b); });
        else if (isC(a)) r = map(b, [&](E x) { return ap(e->op, a, x); });
        else { std::map<std::pair<E, E>, E> m; r = combine(e->op, a, b, m); }
        break; }
      default: break;
    }
    memo[e] = r; return r;
  }
  // the tree under the assumption that condition c has value v
  static E restrict(E t, E c, bool v, std::unordered_map<E, E>& m) {
    if (t->op != O_ITE) return t; auto it = m.find(t); if (it != m.end()) return it->second;
    E r; if (t->a == c) r = restrict(v ? t->b : t->d, c, v, m); else { E x = restrict(t->b, c, v, m), y = restrict(t->d, c, v, m); r = x == t->b && y == t->d ? t : mkIte(t->a, x, y); }
    m[t] = r; return r;
  }
  E combine(Op op, E a, E b, std::map<std::pair<E, E>, E>& memo2) {
    if (isC(a) && isC(b)) return ap(op, a, b);
    auto k = std::make_pair(a, b); auto it = memo2.find(k); if (it != memo2.end()) return it->second;
    if (!budget || !--budget) return nullptr;
    E t = isC(a) ? b : a; E c = t->a;
    std::unordered_map<E, E> m1, m2, m3, m4;
    E x = combine(op, restrict(a, c, true, m1), restrict(b, c, true, m2), memo2); E y = x ? combine(op, restrict(a, c, false, m3), restrict(b, c, false, m4), memo2) : nullptr;
    E r = y ? mkIte(c, x, y) : nullptr; memo2[k] = r; return r;
  }
  template <class F> static E map(E t, F f) { std::unordered_map<E, E> m; return mapm(t, f, m); }
  template <class F> static E mapm(E t, F& f, std::unordered_map<E, E>& m) {
    if (isC(t)) return f(t);
    auto it = m.find(t); if (it != m.end()) return it->second;
    if (t->op != O_ITE) return nullptr;
    E a = mapm(t->b, f, m), b = mapm(t->d, f, m); E r = a && b ? mkIte(t->a, a, b) : nullptr; m[t] = r; return r;
  }
  static void collect(E t, std::set<uint64_t>& out, std::unordered_set<E>& seen) { if (isC(t)) { out.insert(t->c); return; } if (!seen.insert(t).second) return; collect(t->b, out, seen); collect(t->d, out, seen); }
  static size_t leaves(E t) { std::set<uint64_t> o; std::unordered_set<E> sn; collect(t, o, sn); return o.size(); }
};
static V simpAddr(State& s, const V& a) { if (!a.e) return a; IteTree t(&s); E e = t.norm(a.e); return e && isC(e) ? cv(e->c) : a; }
static V loadScalar(State& s, const V& addr0, unsigned w) {
  V addr = simpAddr(s, addr0);
  unsigned n = (w + 7) / 8;
  if (addr.e) {
    IteTree t(&s); E a = t.norm(addr.e);
    if (a && !isC(a)) {
      std::set<uint64_t> ls; std::unordered_set<E> sn; IteTree::collect(a, ls, sn); bool ok = ls.size() <= 1024;
      for (uint64_t x : ls) { Obj* o = ok ? findObj(s, x) : nullptr; if (!o || x + n > o->base + o->size) ok = false; }
      if (ok) { E r = IteTree::map(a, [&](E x) { Obj* o = findObj(s, x->c); return toE(readObj(s, *o, x->c - o->base, w), w); }); if (r) return fromE(r); }
    }
  }
  Res1 r = resolve(s, addr, n, false, true);
  if (!r.symOff) return readObj(s, *r.o, r.off, w);
  // read with a symbolic offset: if-then-else chain over the feasible offsets
  uint64_t stride = 1; Model m = s.model;
  if (n > 1) { E mis = mkNot(mkBin(O_EQ, mkBin(O_AND, r.symOff, mkConst(n - 1, 64)), mkConst(0, 64))); if ((n & (n - 1)) == 0 && (isFalse(mis) || solverCheck(s.pc, mis, m) == UNSAT)) stride = n; }
  // tight bounds of the offset by the solver
  if (gVerbose) { if (!gProf["symbolic read " + curLoc(s)].first++) fprintf(stderr, "symbolic read at %s: %s\n", curLoc(s).c_str(), show(addr.e, 9).substr(0, 600).c_str()); }
  auto feasible = [&](E c) { Model mm = s.model; return solverCheck(s.pc, c, mm) != UNSAT; };
  uint64_t lo = 0, hi = std::min(r.o->size - n, ubound(r.symOff));
  bool wide = (hi - lo) / stride > 300;
  if (wide) { uint64_t a = 0, b = (uint64_t)evalE(r.symOff, s.model); while (a < b) { uint64_t mid = (a + b) / 2; if (feasible(mkBin(O_ULE, r.symOff, mkConst(mid, 64)))) b = mid; else a = mid + 1; } lo = a; }
  if (wide) { uint64_t a = (uint64_t)evalE(r.symOff, s.model), b = hi; while (a < b) { uint64_t mid = (a + b + 1) / 2; if (feasible(mkBin(O_ULE, mkConst(mid, 64), r.symOff))) a = mid; else b = mid - 1; } hi = a; }
  lo = (lo + stride - 1) / stride * stride;
  E acc = nullptr;
  // group equal values
  for (uint64_t o = lo; o <= hi; o += stride) {
    V v = readObj(s, *r.o, o, w); E ve = toE(v, w);
    if (!acc) acc = ve; else if (acc == ve) {} else acc = mkIte(mkBin(O_EQ, r.symOff, mkConst(o, 64)), ve, acc);
  }
  // ranges with equal neighbours: the chain above keeps the first value as default
  return fromE(acc);
}
static void storeScalar(State& s, const V& addr0, unsigned w, const V& v) {
  V addr = simpAddr(s, addr0);
  unsigned n = (w + 7) / 8; Res1 r = resolve(s, addr, n, true, false); writeObj(*r.o, r.off, w, v);
}
static V addOff(const V& a, uint64_t off) { if (!off) return a; if (!a.e) return cv(a.c + off); return fromE(mkBin(O_ADD, a.e, mkConst(off, 64))); }

static void memCopy(State& s, const V& d0, const V& sr0, uint64_t n) {
  V d = simpAddr(s, d0), sr = simpAddr(s, sr0);
  if (!n) return;
  if (sr.e && n <= 64) { // select the bytes instead of forking over the source
    IteTree t(&s); E a = t.norm(sr.e);
    if (a && !isC(a)) {
      std::set<uint64_t> ls; std::unordered_set<E> sn; IteTree::collect(a, ls, sn); bool ok = ls.size() <= 256;
      for (uint64_t x : ls) { Obj* o = ok ? findObj(s, x) : nullptr; if (!o || x + n > o->base + o->size) ok = false; else if (!o->c->k.empty()) for (uint64_t i = 0; i < n; i++) if (o->c->k[x - o->base + i] == 2) ok = false; }
      if (ok) {
        std::vector<E> by; for (uint64_t i = 0; i < n; i++) by.push_back(IteTree::map(a, [&](E x) { Obj* o = findObj(s, x->c); return byteAt(s, *o, x->c - o->base + i); }));
        Res1 rd = resolve(s, d, n, true, false); Content& c = wr(*rd.o); for (uint64_t i = 0; i < n; i++) setByte(c, rd.o->size, rd.off + i, by[i]); return;
      }
    }
  }
  Res1 rs = resolve(s, sr, n, false, false); Res1 rd = resolve(s, d, n, true, false);
  rs = resolve(s, sr.e ? fromE(mkConst(rs.o->base + rs.off, 64)) : sr, n, false, false);
  std::shared_ptr<Content> src = rs.o->c; // keeps the old bytes alive for overlapping copies
  Content& dst = wr(*rd.o); Content& sc = *src;
  if (sc.k.empty() && dst.k.empty()) { memmove(&dst.b[rd.off], &sc.b[rs.off], n); return; }
  if (dst.k.empty()) dst.k.assign(rd.o->size, 0);
  bool anySym = false; if (!sc.k.empty()) for (uint64_t i = 0; i < n; i++) if (sc.k[rs.off + i] == 1) { anySym = true; break; }
  std::vector<E> tmp; std::vector<uint8_t> tk(n, 0), tb(n);
  memcpy(tb.data(), &sc.b[rs.off], n); if (!sc.k.empty()) memcpy(tk.data(), &sc.k[rs.off], n);
  if (anySym) { tmp.assign(&sc.s[rs.off], &sc.s[rs.off] + n); if (dst.s.empty()) dst.s.assign(rd.o->size, nullptr); }
  memcpy(&dst.b[rd.off], tb.data(), n); memcpy(&dst.k[rd.off], tk.data(), n);
  if (anySym) std::copy(tmp.begin(), tmp.end(), dst.s.begin() + rd.off);
}
static void memSet(State& s, const V& d, const V& val, uint64_t n) {
  if (!n) return; Res1 r = resolve(s, d, n, true, false); Content& c = wr(*r.o);
  if (!val.e) { memset(&c.b[r.off], (int)val.c, n); if (!c.k.empty()) memset(&c.k[r.off], 0, n); }
  else { E b = mkExtract(val.e, 0, 8); for (uint64_t i = 0; i < n; i++) setByte(c, r.o->size, r.off + i, b); }
}
static str readCStr(State& s, const V& p) {
  if (p.e) return "<sym>"; str o; Obj* b = findObj(s, p.c); if (!b) return "<bad>";
  for (uint64_t i = p.c - b->base; i < b->size; i++) { if (!b->c->k.empty() && b->c->k[i]) return o + "?"; if (!b->c->b[i]) break; o += (char)b->c->b[i]; } return o;
}

// ------------------------------------------------------------------------------------------ arithmetic
static V bin(Op op, const V& a, const V& b, unsigned w) {
  if (!a.e && !b.e && w <= 64) {
    uint64_t m = maskw(w);
    switch (op) {
      case O_ADD: return cv((a.c + b.c) & m); case O_SUB: return cv((a.c - b.c) & m); case O_MUL: return cv((a.c * b.c) & m);
      case O_AND: return cv(a.c & b.c); case O_OR: return cv(a.c | b.c); case O_XOR: return cv(a.c ^ b.c);
      case O_EQ: return cv(a.c == b.c); case O_ULT: return cv(a.c < b.c); case O_ULE: return cv(a.c <= b.c);
      case O_SLT: return cv(sextw(a.c, w) < sextw(b.c, w)); case O_SLE: return cv(sextw(a.c, w) <= sextw(b.c, w));
      default: return fromE(mkBin(op, mkConst(a.c, w), mkConst(b.c, w)));
    }
  }
  return fromE(mkBin(op, toE(a, w), toE(b, w)));
}
static V vnot(const V& a) { if (!a.e) return cv(!a.c); return fromE(mkNot(a.e)); }

static V fcmpV(FCmpInst::Predicate p, const V& a, const V& b, unsigned w) {
  auto eq = [&] { return bin(O_FEQ, a, b, w); }; auto lt = [&] { return bin(O_FLT, a, b, w); }; auto gt = [&] { return bin(O_FLT, b, a, w); };
  auto le = [&] { return bin(O_FLE, a, b, w); }; auto ge = [&] { return bin(O_FLE, b, a, w); }; auto uno = [&] { return bin(O_FUNO, a, b, w); };
  auto orv = [&](V x, V y) { return bin(O_OR, x, y, 1); };
  switch (p) {
    case FCmpInst::FCMP_OEQ: return eq(); case FCmpInst::FCMP_OGT: return gt(); case FCmpInst::FCMP_OGE: return ge();
    case FCmpInst::FCMP_OLT: return lt(); case FCmpInst::FCMP_OLE: return le(); case FCmpInst::FCMP_ONE: return bin(O_AND, vnot(eq()), vnot(uno()), 1);
    case FCmpInst::FCMP_ORD: return vnot(uno()); case FCmpInst::FCMP_UNO: return uno();
    case FCmpInst::FCMP_UEQ: return orv(eq(), uno()); case FCmpInst::FCMP_UGT: return vnot(le()); case FCmpInst::FCMP_UGE: return vnot(lt());
    case FCmpInst::FCMP_ULT: return vnot(ge()); case FCmpInst::FCMP_ULE: return vnot(gt()); case FCmpInst::FCMP_UNE: return vnot(eq());
    case FCmpInst::FCMP_FALSE: return cv(0); default: return cv(1);
  }
}
static V icmpV(ICmpInst::Predicate p, const V& a, const V& b, unsigned w) {
  switch (p) {
    case ICmpInst::ICMP_EQ: return bin(O_EQ, a, b, w); case ICmpInst::ICMP_NE: return vnot(bin(O_EQ, a, b, w));
    case ICmpInst::ICMP_ULT: return bin(O_ULT, a, b, w); case ICmpInst::ICMP_ULE: return bin(O_ULE, a, b, w);
    case ICmpInst::ICMP_UGT: return bin(O_ULT, b, a, w); case ICmpInst::ICMP_UGE: return bin(O_ULE, b, a, w);
    case ICmpInst::ICMP_SLT: return bin(O_SLT, a, b, w); case ICmpInst::ICMP_SLE: return bin(O_SLE, a, b, w);
    case ICmpInst::ICMP_SGT: return bin(O_SLT, b, a, w); case ICmpInst::ICMP_SGE: return bin(O_SLE, b, a, w);
    default: abort();
  }
}
static V iteV(const V& c, const V& a, const V& b, unsigned w) {
  if (!c.e) return c.c ? a : b;
  if (!a.e && !b.e && a.c == b.c) return a;
  return fromE(mkIte(c.e, toE(a, w), toE(b, w)));
}
static std::map<std::pair<str, std::vector<uint32_t>>, E> gUF;
static V uf(const str& name, std::vector<E> args, unsigned w) {
  std::vector<uint32_t> k; for (E a : args) k.push_back(a->id);
  auto& e = gUF[{name, k}]; if (!e) e = mkVar("uf_" + name + std::to_string(gVars.size()), w); return fromE(e);
}

// ------------------------------------------------------------------------------------------ execution
static inline const V& opv(Frame& f, const KInst& k, unsigned i, unsigned sub = 0) { const Opnd& o = k.ops[i]; return o.slot >= 0 ? f.r[o.slot + sub] : f.f->consts[o.cidx][sub]; }

static void jump(Frame& f, int bb) {
  KFunc* k = f.f; int pc = k->bbStart[bb]; BasicBlock* from = nullptr;
  // predecessor block
  { int idx = f.bb; auto it = k->F->begin(); (void)it; static thread_local std::unordered_map<KFunc*, std::vector<BasicBlock*>> blocks; auto& v = blocks[k]; if (v.empty()) for (auto& b : *k->F) v.push_back(&b); from = v[idx]; }
  std::vector<std::pair<int, V>> upd;
  while (k->code[pc].op == Instruction::PHI) {
    KInst& ki = k->code[pc]; PHINode* p = cast<PHINode>(ki.I); int i = p->getBasicBlockIndex(from);
    for (int j = 0; j < ki.nd; j++) upd.push_back({ki.dest + j, opv(f, ki, i, j)});
    pc++;
  }
  for (auto& u : upd) f.r[u.first] = u.second;
  f.pc = pc; f.bb = bb;
}
static void popFrame(State& s, const std::vector<V>& rv) {
  Thread& t = s.th[s.cur]; Frame& f = t.st.back();
  for (uint64_t a : f.allocas) s.mem.erase(a);
  t.st.pop_back();
  if (t.st.empty()) { t.done = true; return; }
  Frame& c = t.st.back(); KInst& ki = c.f->code[c.pc - 1];
  for (int j = 0; j < ki.nd && j < (int)rv.size(); j++) c.r[ki.dest + j] = rv[j];
  if (ki.op == Instruction::Invoke) jump(c, ki.t0);
}
static void pushFrame(State& s, Function* F, const std::vector<std::vector<V>>& args) {
  KFunc* k = kfunc(F); k->calls++;
  if (s.th[s.cur].st.size() > 2000) { report(s, "recursion", "call depth exceeds 2000", s.model); endPath(); }
  s.th[s.cur].st.emplace_back(); Frame& f = s.th[s.cur].st.back(); f.f = k; f.r.resize(k->nregs);
  for (size_t i = 0; i < args.size() && i < k->argSlot.size(); i++) for (size_t j = 0; j < args[i].size(); j++) f.r[k->argSlot[i] + j] = args[i][j];
}
static bool anyAlive(State& s) { for (auto& t : s.th) if (!t.done) return true; return false; }
static void switchThread(State& s) { int n = s.th.size(); for (int i = 1; i <= n; i++) { int j = (s.cur + i) % n; if (!s.th[j].done) { s.cur = j; return; } } }

static void symbolicRead(State& s, uint64_t addr, uint64_t n, const str& name) {
  Obj* o = findObj(s, addr); if (!o || addr + n > o->base + o->size) { memError(s, "sx_sym", addr, n, s.model); endPath(); }
  Input in; in.name = name; std::vector<E> bytes;
  str full = name; int cnt = s.nameCount[name]++; if (cnt) full += "#" + std::to_string(cnt);
  // deterministic variable identity: same name & occurrence & width gives the same variable in every path
  static std::map<std::pair<str, unsigned>, E> vars;
  auto var = [&](const str& nm, unsigned w) { auto& v = vars[{nm, w}]; if (!v) v = mkVar(nm, w); return v; };
  if (n == 1 || n == 2 || n == 4 || n == 8) { E v = var(full, n * 8); for (uint64_t i = 0; i < n; i++) bytes.push_back(mkExtract(v, 8 * i, 8)); }
  else for (uint64_t i = 0; i < n; i++) bytes.push_back(var(full + "[" + std::to_string(i) + "]", 8));
  Content& c = wr(*o); for (uint64_t i = 0; i < n; i++) setByte(c, o->size, addr - o->base + i, bytes[i]);
  in.bytes = bytes; s.in.push_back(in);
}

static bool startsWith(const str& s, const char* p) { return s.compare(0, strlen(p), p) == 0; }
typedef std::vector<std::vector<V>> Args;
static V a0(const Args& a, int i) { return a[i][0]; }

// returns true if handled; result in rv
static bool external(State& s, Function* F, const Args& a, const KInst& ki, std::vector<V>& rv, bool& switched) {
  str n = F->getName().str();
  auto ret = [&](V v) { rv.push_back(v); return true; };
  if (startsWith(n, "llvm.")) {
    Intrinsic::ID id = F->getIntrinsicID(); unsigned w = ki.nd ? flat(ki.I->getType())[0].w : 0; unsigned nd = ki.nd;
    auto each = [&](auto fn) { for (unsigned j = 0; j < nd; j++) rv.push_back(fn(j)); return true; };
    switch (id) {
      case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end:
      case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::assume: case Intrinsic::stackrestore: case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::donothing: case Intrinsic::var_annotation: return true;
      case Intrinsic::invariant_start: case Intrinsic::stacksave: return ret(cv(0));
      case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::expect: case Intrinsic::ptr_annotation: case Intrinsic::expect_with_probability: return ret(a0(a, 0));
      case Intrinsic::objectsize: return ret(cv(~0ull)); case Intrinsic::is_constant: return ret(cv(0));
      case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { uint64_t len = concretize(s, a0(a, 2), 64, "memcpy length"); memCopy(s, a0(a, 0), a0(a, 1), len); return true; }
      case Intrinsic::memset: { uint64_t len = concretize(s, a0(a, 2), 64, "memset length"); memSet(s, a0(a, 0), a0(a, 1), len); return true; }
      case Intrinsic::umin: return each([&](unsigned j) { return iteV(bin(O_ULT, a[0][j], a[1][j], w), a[0][j], a[1][j], w); });
      case Intrinsic::umax: return each([&](unsigned j) { return iteV(bin(O_ULT, a[1][j], a[0][j], w), a[0][j], a[1][j], w); });
      case Intrinsic::smin: return each([&](unsigned j) { return iteV(bin(O_SLT, a[0][j], a[1][j], w), a[0][j], a[1][j], w); });
      case Intrinsic::smax: return each([&](unsigned j) { return iteV(bin(O_SLT, a[1][j], a[0][j], w), a[0][j], a[1][j], w); });
      case Intrinsic::abs: return each([&](unsigned j) { return iteV(bin(O_SLT, a[0][j], cv(0), w), bin(O_SUB, cv(0), a[0][j], w), a[0][j], w); });
      case Intrinsic::usub_sat: return each([&](unsigned j) { return iteV(bin(O_ULT, a[0][j], a[1][j], w), cv(0), bin(O_SUB, a[0][j], a[1][j], w), w); });
      case Intrinsic::uadd_sat: return each([&](unsigned j) { V t = bin(O_ADD, a[0][j], a[1][j], w); return iteV(bin(O_ULT, t, a[0][j], w), cv(maskw(w)), t, w); });
      case Intrinsic::fabs: return each([&](unsigned j) { return bin(O_AND, a[0][j], cv(maskw(w - 1)), w); });
      case Intrinsic::copysign: return each([&](unsigned j) { return bin(O_OR, bin(O_AND, a[0][j], cv(maskw(w - 1)), w), bin(O_AND, a[1][j], cv(1ull << (w - 1)), w), w); });
      case Intrinsic::fmuladd: return each([&](unsigned j) { return bin(O_FADD, bin(O_FMUL, a[0][j], a[1][j], w), a[2][j], w); });
      case Intrinsic::sqrt: return each([&](unsigned j) { return fromE(mkFUn(O_FSQRT, toE(a[0][j], w), w)); });
      case Intrinsic::floor: return each([&](unsigned j) { return fromE(mkFUn(O_FROUND, toE(a[0][j], w), w, 2)); });
      case Intrinsic::ceil: return each([&](unsigned j) { return fromE(mkFUn(O_FROUND, toE(a[0][j], w), w, 3)); });
      case Intrinsic::trunc: return each([&](unsigned j) { return fromE(mkFUn(O_FROUND, toE(a[0][j], w), w, 4)); });
      case Intrinsic::round: return each([&](unsigned j) { return fromE(mkFUn(O_FROUND, toE(a[0][j], w), w, 1)); });
      case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: return each([&](unsigned j) { return fromE(mkFUn(O_FROUND, toE(a[0][j], w), w, 0)); });
      case Intrinsic::lround: case Intrinsic::llround: { unsigned wa = flat(ki.I->getOperand(0)->getType())[0].w; E r = mkFUn(O_FROUND, toE(a0(a, 0), wa), wa, 1); return ret(fromE(mkFUn(O_FPTOSI, r, w))); }
      case Intrinsic::minnum: return each([&](unsigned j) { return iteV(bin(O_OR, bin(O_FLT, a[0][j], a[1][j], w), bin(O_FUNO, a[1][j], a[1][j], w), 1), a[0][j], a[1][j], w); });
      case Intrinsic::maxnum: return each([&](unsigned j) { return iteV(bin(O_OR, bin(O_FLT, a[1][j], a[0][j], w), bin(O_FUNO, a[1][j], a[1][j], w), 1), a[0][j], a[1][j], w); });
      case Intrinsic::bswap: { E e = toE(a0(a, 0), w), r = mkExtract(e, 0, 8); for (unsigned i = 1; i < w / 8; i++) r = mkConcat(r, mkExtract(e, 8 * i, 8)); return ret(fromE(r)); }
      case Intrinsic::fshl: case Intrinsic::fshr: { // constant or symbolic amount
        E x = toE(a0(a, 0), w), y = toE(a0(a, 1), w), c = mkBin(O_UREM, toE(a0(a, 2), w), mkConst(w, w)); E full = mkConcat(x, y), c2 = mkZExt(c, 2 * w);
        if (id == Intrinsic::fshl) { if (isC(c)) return ret(fromE(mkExtract(full, w - c->c, w))); return ret(fromE(mkExtract(mkBin(O_SHL, full, c2), w, w))); }
        if (isC(c)) return ret(fromE(mkExtract(full, c->c, w))); return ret(fromE(mkExtract(mkBin(O_LSHR, full, c2), 0, w))); }
      case Intrinsic::ctpop: { E e = toE(a0(a, 0), w), r = mkConst(0, w); for (unsigned i = 0; i < w; i++) r = mkBin(O_ADD, r, mkZExt(mkExtract(e, i, 1), w)); return ret(fromE(r)); }
      case Intrinsic::ctlz: { E e = toE(a0(a, 0), w), r = mkConst(w, w); for (unsigned i = 0; i < w; i++) r = mkIte(mkBin(O_EQ, mkExtract(e, i, 1), mkConst(1, 1)), mkConst(w - 1 - i, w), r); return ret(fromE(r)); }
      case Intrinsic::cttz: { E e = toE(a0(a, 0), w), r = mkConst(w, w); for (int i = w - 1; i >= 0; i--) r = mkIte(mkBin(O_EQ, mkExtract(e, i, 1), mkConst(1, 1)), mkConst(i, w), r); return ret(fromE(r)); }
      case Intrinsic::uadd_with_overflow: { V t = bin(O_ADD, a0(a, 0), a0(a, 1), w); rv.push_back(t); rv.push_back(bin(O_ULT, t, a0(a, 0), w)); return true; }
      case Intrinsic::usub_with_overflow: { rv.push_back(bin(O_SUB, a0(a, 0), a0(a, 1), w)); rv.push_back(bin(O_ULT, a0(a, 0), a0(a, 1), w)); return true; }
      case Intrinsic::umul_with_overflow: { E x = mkZExt(toE(a0(a, 0), w), 2 * w), y = mkZExt(toE(a0(a, 1), w), 2 * w);
        if (!a0(a, 0).e && !a0(a, 1).e && w <= 64) { u128 p = (u128)a0(a, 0).c * a0(a, 1).c; rv.push_back(cv((uint64_t)p & maskw(w))); rv.push_back(cv((p >> w) != 0)); return true; }
        E p = mkBin(O_MUL, x, y); rv.push_back(bin(O_MUL, a0(a, 0), a0(a, 1), w)); rv.push_back(vnot(fromE(mkBin(O_EQ, mkExtract(p, w, w), mkConst(0, w))))); return true; }
      case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
        unsigned W = id == Intrinsic::smul_with_overflow ? 2 * w : w + 1; Op op = id == Intrinsic::sadd_with_overflow ? O_ADD : id == Intrinsic::ssub_with_overflow ? O_SUB : O_MUL;
        E t = mkBin(op, mkSExt(toE(a0(a, 0), w), W), mkSExt(toE(a0(a, 1), w), W)); E lo = mkExtract(t, 0, w); rv.push_back(fromE(lo)); rv.push_back(vnot(fromE(mkBin(O_EQ, t, mkSExt(lo, W))))); return true; }
      case Intrinsic::trap: case Intrinsic::ubsantrap: report(s, "abort", "trap", s.model); endPath();
      case Intrinsic::eh_typeid_for: return ret(cv(1));
      case Intrinsic::is_fpclass: { // mask bits: 0,1 nan; 2 -inf 3 -norm 4 -sub 5 -0 6 +0 7 +sub 8 +norm 9 +inf
        unsigned wa = flat(ki.I->getOperand(0)->getType())[0].w; uint64_t mask = a0(a, 1).c; E x = toE(a0(a, 0), wa); unsigned mb = wa == 32 ? 23 : 52, eb = wa - 1 - mb;
        E sg = mkExtract(x, wa - 1, 1), ex = mkExtract(x, mb, eb), ma = mkExtract(x, 0, mb); E eAll = mkBin(O_EQ, ex, mkConst(maskw(eb), eb)), e0 = mkBin(O_EQ, ex, mkConst(0, eb)), m0 = mkBin(O_EQ, ma, mkConst(0, mb)), pos = mkNot(sg);
        E qn = mkExtract(x, mb - 1, 1); E r = mkConst(0, 1); auto orr = [&](int bit, E c) { if (mask >> bit & 1) r = mkBin(O_OR, r, c); };
        E nan = mkBin(O_AND, eAll, mkNot(m0)); orr(0, mkBin(O_AND, nan, mkNot(qn))); orr(1, mkBin(O_AND, nan, qn));
        E inf = mkBin(O_AND, eAll, m0), zer = mkBin(O_AND, e0, m0), sub = mkBin(O_AND, e0, mkNot(m0)), nor = mkBin(O_AND, mkNot(eAll), mkNot(e0));
        orr(2, mkBin(O_AND, sg, inf)); orr(9, mkBin(O_AND, pos, inf)); orr(3, mkBin(O_AND, sg, nor)); orr(8, mkBin(O_AND, pos, nor)); orr(4, mkBin(O_AND, sg, sub)); orr(7, mkBin(O_AND, pos, sub)); orr(5, mkBin(O_AND, sg, zer)); orr(6, mkBin(O_AND, pos, zer));
        return ret(fromE(r)); }
      case Intrinsic::exp: n = w == 32 ? "expf" : "exp"; break; case Intrinsic::log: n = w == 32 ? "logf" : "log"; break; case Intrinsic::log10: n = w == 32 ? "log10f" : "log10"; break;
      case Intrinsic::sin: n = w == 32 ? "sinf" : "sin"; break; case Intrinsic::cos: n = w == 32 ? "cosf" : "cos"; break; case Intrinsic::pow: n = w == 32 ? "powf" : "pow"; break;
      case Intrinsic::powi: n = w == 32 ? "__powisf2" : "__powidf2"; break;
      default: errs() << "sx: unsupported intrinsic " << n << "\n"; incomplete("unsupported intrinsic " + n); endPath();
    }
  }
  if (startsWith(n, "sx_")) {
    if (n == "sx_sym_") { symbolicRead(s, concretize(s, a0(a, 0), 64, "sx_sym"), a0(a, 1).c, readCStr(s, a0(a, 2))); return true; }
    if (n == "sx_assume_") {
      V c = a0(a, 0); E e = vnot(bin(O_EQ, c, cv(0), 32)).e; if (!e) { if (!vnot(bin(O_EQ, c, cv(0), 32)).c) { gAssumeKilled++; endPath(); } return true; }
      Model m = s.model; Res r = query(s, e, m); if (r == UNSAT) { gAssumeKilled++; endPath(); } if (r == UNKNOWN) s.inexact = true; s.model = m; addPC(s, e); return true; }
    if (n == "sx_assert_") {
      gAsserts++; V c = vnot(bin(O_EQ, a0(a, 0), cv(0), 32)); str msg = readCStr(s, a0(a, 1));
      if (!c.e) { if (!c.c) { report(s, "assert", msg, s.model); endPath(); } return true; }
      gAssertQueries++; E bad = mkNot(c.e); Model m = s.model; Res r = query(s, bad, m);
      if (r == SAT) { Model mm = m; report(s, "assert", msg, m); } else if (r == UNKNOWN) incomplete("solver gave up on assertion: " + msg);
      if (r != UNSAT) { Model m2 = s.model; Res g = query(s, c.e, m2); if (g == UNSAT) endPath(); s.model = m2; }
      addPC(s, c.e); return true; }
    if (n == "sx_fail") { report(s, "assert", readCStr(s, a0(a, 0)), s.model); endPath(); }
    if (n == "sx_stop") endPath();
    if (n == "sx_choose") {
      uint64_t k = concretize(s, a0(a, 0), 64, "choose"); str name = readCStr(s, a0(a, 1));
      // fork k ways, recorded as a concrete input
      uint64_t pick = 0;
      auto rec = [&](State& t, uint64_t v) { Input in; in.name = name; for (int i = 0; i < 8; i++) in.bytes.push_back(mkConst(v >> (8 * i) & 255, 8)); t.in.push_back(in); };
      for (uint64_t v = k; v-- > 1;) { State* o = forkState(s); rec(*o, v); Frame& f = o->th[o->cur].st.back(); KInst& kk = f.f->code[f.pc - 1]; f.r[kk.dest] = cv(v); if (kk.op == Instruction::Invoke) jump(f, kk.t0); gWork.push_back(o); }
      rec(s, pick); return ret(cv(pick)); }
    if (n == "sx_concretize") return ret(cv(concretize(s, a0(a, 0), 64, "sx_concretize")));
    if (n == "sx_is_symbolic") return ret(cv(a0(a, 0).e ? 1 : 0));
    if (n == "sx_cover_if") { // witness without forking: can the condition hold here?
      str name = readCStr(s, a0(a, 1)); if (gCovers.count(name)) return true; V c = vnot(bin(O_EQ, a0(a, 0), cv(0), 32));
      if (!c.e) { if (c.c) gCovers[name]++; return true; }
      Model m = s.model; if (query(s, c.e, m) == SAT) gCovers[name]++; return true; }
    if (n == "sx_cover") { gCovers[readCStr(s, a0(a, 0))]++; return true; }
    if (n == "sx_observe") { s.obs.push_back({readCStr(s, a0(a, 0)), toE(a0(a, 1), 64)}); return true; }
    if (n == "sx_native") return ret(cv(0));
    if (n == "sx_param") { auto it = gParams.find(readCStr(s, a0(a, 0))); return ret(cv(it == gParams.end() ? a0(a, 1).c : it->second)); }
    if (n == "sx_debug") { fprintf(stderr, "[sx] %s %s\n", readCStr(s, a0(a, 0)).c_str(), a0(a, 1).e ? show(a0(a, 1).e, 6).c_str() : std::to_string(a0(a, 1).c).c_str()); return true; }
    if (n == "sx_spawn") {
      Thread t; Function* fn = gFuncByAddr.at(a0(a, 0).c); KFunc* k = kfunc(fn); k->calls++; Frame f; f.f = k; f.r.resize(k->nregs); f.r[k->argSlot[0]] = a0(a, 1); t.st.push_back(f); s.th.push_back(t); return ret(cv(s.th.size() - 1)); }
    if (n == "sx_self") return ret(cv(s.cur));
    if (n == "sx_nthreads_alive") { uint64_t c = 0; for (auto& t : s.th) c += !t.done; return ret(cv(c)); }
    if (n == "sx_yield") { switched = true; return true; }
    if (n == "sx_switch") { switched = true; uint64_t t = concretize(s, a0(a, 0), 64, "switch"); if (t < s.th.size() && !s.th[t].done) { rv.clear(); s.cur = -1 - (int)t; } return true; }
    if (n == "sx_uf32" ) { return ret(uf("h" + readCStr(s, a0(a, 0)), {toE(a0(a, 1), 32)}, 32)); }
    if (n == "sx_ite64") { V c = vnot(bin(O_EQ, a0(a, 0), cv(0), 32)); return ret(iteV(c, a0(a, 1), a0(a, 2), 64)); }
    if (n == "sx_memobj_ok") { // is [p,p+n) inside one live object?
      uint64_t p = concretize(s, a0(a, 0), 64, "memobj"); uint64_t len = a0(a, 1).c; Obj* o = findObj(s, p); return ret(cv(o && p + len <= o->base + o->size)); }
  }
  // allocation
  if (n == "malloc" || n == "_Znwm" || n == "_Znam" || n == "_ZnwmSt11align_val_t" || n == "_ZnamSt11align_val_t" || n == "_ZnwmRKSt9nothrow_t" || n == "_ZnamRKSt9nothrow_t" || n == "__cxa_allocate_exception" || n == "calloc" || n == "fftwf_malloc" || n == "fftwf_alloc_real" || n == "fftwf_alloc_complex") {
    V sz = n == "calloc" ? bin(O_MUL, a0(a, 0), a0(a, 1), 64) : a0(a, 0);
    if (n == "fftwf_alloc_real") sz = bin(O_MUL, sz, cv(4), 64); if (n == "fftwf_alloc_complex") sz = bin(O_MUL, sz, cv(8), 64);
    if (sz.e) { // absurd sizes are an error of their own, not something to enumerate
      E big = mkBin(O_ULT, mkConst(1ull << 33, 64), sz.e); if (decide(s, big)) { report(s, "alloc", "allocation of more than 8 GiB", s.model); endPath(); } }
    uint64_t k = concretize(s, sz, 64, "allocation size");
    if (k > (1ull << 30)) { report(s, "alloc", "allocation of more than 1 GiB", s.model); endPath(); }
    return ret(cv(allocObj(s, k, 1, n == "calloc"))); }
  if (n == "free" || n == "_ZdlPv" || n == "_ZdlPvm" || n == "_ZdaPv" || n == "_ZdaPvm" || n == "_ZdlPvSt11align_val_t" || n == "_ZdlPvmSt11align_val_t" || n == "fftwf_free" || n == "_ZdaPvmSt11align_val_t" || n == "_ZdaPvSt11align_val_t") {
    uint64_t p = concretize(s, a0(a, 0), 64, "free"); if (!p) return true; auto it = s.mem.find(p);
    if (it == s.mem.end() || it->second.kind != 1) { report(s, "memory", "invalid or double free", s.model); endPath(); } s.mem.erase(it); return true; }
  if (n == "realloc") { uint64_t p = a0(a, 0).c, k = concretize(s, a0(a, 1), 64, "realloc"); uint64_t q = allocObj(s, k, 1, false); if (p) { Obj* o = findObj(s, p); memCopy(s, cv(q), cv(p), std::min(k, o->size)); s.mem.erase(p); } return ret(cv(q)); }
  if (n == "memcpy" || n == "memmove") { uint64_t len = concretize(s, a0(a, 2), 64, "memcpy length"); memCopy(s, a0(a, 0), a0(a, 1), len); return ret(a0(a, 0)); }
  if (n == "memset") { uint64_t len = concretize(s, a0(a, 2), 64, "memset length"); memSet(s, a0(a, 0), a0(a, 1), len); return ret(a0(a, 0)); }
  if (n == "memcmp" || n == "bcmp") {
    uint64_t len = concretize(s, a0(a, 2), 64, "memcmp length"); if (!len) return ret(cv(0));
    Res1 x = resolve(s, a0(a, 0), len, false, false), y = resolve(s, a0(a, 1), len, false, false); E r = mkConst(0, 32);
    for (uint64_t i = len; i-- > 0;) { E p = byteAt(s, *x.o, x.off + i), q = byteAt(s, *y.o, y.off + i); r = mkIte(mkBin(O_EQ, p, q), r, mkBin(O_SUB, mkZExt(p, 32), mkZExt(q, 32))); }
    return ret(fromE(r)); }
  if (n == "__cxa_throw" || n == "__cxa_rethrow") { report(s, "exception", "uncaught C++ exception", s.model); endPath(); }
  if (n == "__cxa_begin_catch" || n == "__cxa_end_catch") { return ret(cv(0)); }
  if (n == "_ZSt9terminatev" || n == "abort" || n == "exit" || n == "_exit" || n == "__cxa_pure_virtual" || n == "MPI_Abort" || n == "__stack_chk_fail") { report(s, "abort", "program terminated by " + demangle(n), s.model); endPath(); }
  if (n == "__cxa_atexit" || n == "atexit" || n == "pthread_mutex_lock" || n == "pthread_mutex_unlock" || n == "fflush" || n == "puts" || n == "printf" || n == "fprintf" || n == "putchar" || n == "usleep" || n == "sleep") return ret(cv(0));
  if (n == "pthread_self") return ret(cv(1));
  // libm
  static const std::set<str> f1{"expf","exp","logf","log","log10f","log10","sinf","sin","cosf","cos","tanf","tan","atanf","atan","acosf","acos","asinf","asin","sinhf","sinh","coshf","cosh","tanhf","tanh","sqrtf","sqrt","cbrt","cbrtf","exp2","exp2f","log2","log2f","acosh","acoshf","asinh","asinhf"};
  static const std::set<str> f2{"powf","pow","atan2f","atan2","hypotf","hypot","fmodf","fmod","__powisf2","__powidf2"};
  if (f1.count(n) || f2.count(n)) {
    unsigned w = flat(F->getReturnType())[0].w; bool two = f2.count(n); bool conc = !a0(a, 0).e && (!two || !a0(a, 1).e);
    if (n == "sqrtf" || n == "sqrt") return ret(fromE(mkFUn(O_FSQRT, toE(a0(a, 0), w), w)));
    if (conc) {
      auto tof = [&](uint64_t b) -> double { if (w == 32) { float f; uint32_t x = b; memcpy(&f, &x, 4); return f; } double d; memcpy(&d, &b, 8); return d; };
      double x = tof(a0(a, 0).c), r = 0; float xf = (float)x, rf = 0; str nn = n; if (w == 32 && nn.back() == 'f' && nn != "__powisf2") nn.pop_back();
      double y = 0; if (two && nn.compare(0, 2, "__") != 0) y = tof(a0(a, 1).c); float yf = (float)y;
#define F1(NAME) if (nn == #NAME) { if (w == 32) rf = NAME##f(xf); else r = NAME(x); }
#define F2(NAME) if (nn == #NAME) { if (w == 32) rf = NAME##f(xf, yf); else r = NAME(x, y); }
      F1(exp) F1(log) F1(log10) F1(sin) F1(cos) F1(tan) F1(atan) F1(acos) F1(asin) F1(sinh) F1(cosh) F1(tanh) F1(cbrt) F1(exp2) F1(log2) F1(acosh) F1(asinh) F2(pow) F2(atan2) F2(hypot) F2(fmod)
      if (n == "__powisf2") rf = __builtin_powif(xf, (int)a0(a, 1).c); if (n == "__powidf2") r = __builtin_powi(x, (int)a0(a, 1).c);
      if (w == 32) { uint32_t b; memcpy(&b, &rf, 4); return ret(cv(b)); } uint64_t b; memcpy(&b, &r, 8); return ret(cv(b));
    }
    std::vector<E> as; for (size_t i = 0; i < a.size(); i++) as.push_back(toE(a0(a, i), flat(F->getArg(i)->getType())[0].w)); return ret(uf(n, as, w));
  }
  if (n == "lround" || n == "llround" || n == "lroundf" || n == "llroundf") { unsigned wa = flat(F->getArg(0)->getType())[0].w; return ret(fromE(mkFUn(O_FPTOSI, mkFUn(O_FROUND, toE(a0(a, 0), wa), wa, 1), 64))); }
  if (n == "lrint" || n == "lrintf") { unsigned wa = flat(F->getArg(0)->getType())[0].w; return ret(fromE(mkFUn(O_FPTOSI, mkFUn(O_FROUND, toE(a0(a, 0), wa), wa, 0), 64))); }
  { static const std::map<str, int> rm{{"round",1},{"roundf",1},{"floor",2},{"floorf",2},{"ceil",3},{"ceilf",3},{"trunc",4},{"truncf",4},{"rint",0},{"rintf",0},{"nearbyint",0},{"nearbyintf",0}};
    auto it = rm.find(n); if (it != rm.end()) { unsigned w = flat(F->getReturnType())[0].w; return ret(fromE(mkFUn(O_FROUND, toE(a0(a, 0), w), w, it->second))); } }
  if (n == "fabs" || n == "fabsf") { unsigned w = flat(F->getReturnType())[0].w; return ret(bin(O_AND, a0(a, 0), cv(maskw(w - 1)), w)); }
  if (n == "fmaxf" || n == "fmax" || n == "fminf" || n == "fmin") { unsigned w = flat(F->getReturnType())[0].w; bool mx = n[2] == 'a'; V lt = mx ? bin(O_FLT, a0(a, 1), a0(a, 0), w) : bin(O_FLT, a0(a, 0), a0(a, 1), w); return ret(iteV(bin(O_OR, lt, bin(O_FUNO, a0(a, 1), a0(a, 1), w), 1), a0(a, 0), a0(a, 1), w)); }
  // iostreams and locale: no observable effect here
  str d = demangle(n);
  if (startsWith(d, "std::basic_ostream") || startsWith(d, "std::ostream") || d.find("std::operator<<") != str::npos || d.find("__ostream_insert") != str::npos || startsWith(d, "std::endl") || startsWith(d, "std::flush")) { if (ki.nd) rv.push_back(a.empty() ? cv(0) : a0(a, 0)); return true; }
  if (startsWith(d, "std::ios_base") || startsWith(d, "std::locale")) { for (int i = 0; i < ki.nd; i++) rv.push_back(cv(0)); return true; }
  if (gVerbose) fprintf(stderr, "sx: call of undefined function %s\n", d.c_str());
  incomplete("call of a function without a model: " + d + " at " + curLoc(s)); endPath();
}

static bool inRepo(State& s) { return s.th[s.cur].st.back().f->repo; }

static void step(State& s) {
  Thread& t = s.th[s.cur]; Frame& f = t.st.back(); KInst& ki = f.f->code[f.pc++];
  s.instrs++; gInstr++;
  Instruction* I = ki.I;
  auto setd = [&](const V& v) { f.r[ki.dest] = v; };
  switch (ki.op) {
    case Instruction::Ret: { std::vector<V> rv; if (I->getNumOperands()) { unsigned n = flat(I->getOperand(0)->getType()).size(); for (unsigned j = 0; j < n; j++) rv.push_back(opv(f, ki, 0, j)); } popFrame(s, rv); if (t.done && anyAlive(s)) switchThread(s); return; }
    case Instruction::Br: {
      if (ki.t1 < 0) { jump(f, ki.t0); return; }
      const V& c = opv(f, ki, 0); bool b = c.e ? decide(s, c.e) : c.c; jump(f, b ? ki.t0 : ki.t1); return; }
    case Instruction::Switch: {
      auto* sw = cast<SwitchInst>(I); V c = opv(f, ki, 0); unsigned w = scalarW(sw->getCondition()->getType());
      if (!c.e) { BasicBlock* d = sw->getDefaultDest(); for (auto& cs : sw->cases()) if (cs.getCaseValue()->getZExtValue() == c.c) { d = cs.getCaseSuccessor(); break; } jump(f, f.f->bbIdx[d]); return; }
      for (auto& cs : sw->cases()) if (decide(s, mkBin(O_EQ, c.e, mkConst(cs.getCaseValue()->getZExtValue(), w)))) { jump(f, f.f->bbIdx[cs.getCaseSuccessor()]); return; }
      jump(f, f.f->bbIdx[sw->getDefaultDest()]); return; }
    case Instruction::Unreachable: report(s, "unreachable", "unreachable code executed", s.model); endPath();
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor:
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
      static const std::map<unsigned, Op> mp{{Instruction::Add, O_ADD}, {Instruction::Sub, O_SUB}, {Instruction::Mul, O_MUL}, {Instruction::And, O_AND}, {Instruction::Or, O_OR}, {Instruction::Xor, O_XOR}, {Instruction::UDiv, O_UDIV}, {Instruction::SDiv, O_SDIV}, {Instruction::URem, O_UREM}, {Instruction::SRem, O_SREM}, {Instruction::Shl, O_SHL}, {Instruction::LShr, O_LSHR}, {Instruction::AShr, O_ASHR}};
      static Op tab[64]; static bool init = false; if (!init) { for (auto& p : mp) tab[p.first] = p.second; init = true; }
      Op op = tab[ki.op]; auto& fl = flat(I->getType());
      for (int j = 0; j < ki.nd; j++) {
        const V& a = opv(f, ki, 0, j); const V& b = opv(f, ki, 1, j); unsigned w = fl[j].w;
        if (op == O_UDIV || op == O_SDIV || op == O_UREM || op == O_SREM) {
          E z = mkBin(O_EQ, toE(b, w), mkConst(0, w));
          if (!isFalse(z)) { Model m = s.model; if (query(s, z, m) == SAT) { report(s, "div", "integer division by zero", m); Model m2 = s.model; E nz = mkNot(z); if (query(s, nz, m2) != SAT) endPath(); s.model = m2; addPC(s, nz); } }
        } else if (op == O_SHL || op == O_LSHR || op == O_ASHR) {
          E z = mkBin(O_ULE, mkConst(w, w), toE(b, w));
          if (!isFalse(z) && f.f->repo) { Model m = s.model; if (query(s, z, m) == SAT) { report(s, "shift", "shift by at least the width of the type", m); } }
          // over-shift: the machine masks the amount
          if (!isFalse(z)) { f.r[ki.dest + j] = bin(op, a, bin(O_AND, b, cv(w - 1), w), w); continue; }
        }
        f.r[ki.dest + j] = bin(op, a, b, w);
      }
      return; }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
      Op op = ki.op == Instruction::FAdd ? O_FADD : ki.op == Instruction::FSub ? O_FSUB : ki.op == Instruction::FMul ? O_FMUL : ki.op == Instruction::FDiv ? O_FDIV : O_FREM;
      auto& fl = flat(I->getType());
      for (int j = 0; j < ki.nd; j++) {
        const V &a = opv(f, ki, 0, j), &b = opv(f, ki, 1, j);
        if (op == O_FREM && (a.e || b.e)) f.r[ki.dest + j] = uf("frem", {toE(a, fl[j].w), toE(b, fl[j].w)}, fl[j].w); else f.r[ki.dest + j] = bin(op, a, b, fl[j].w); }
      return; }
    case Instruction::FNeg: { auto& fl = flat(I->getType()); for (int j = 0; j < ki.nd; j++) f.r[ki.dest + j] = bin(O_XOR, opv(f, ki, 0, j), cv(1ull << (fl[j].w - 1)), fl[j].w); return; }
    case Instruction::ICmp: { auto* c = cast<ICmpInst>(I); unsigned w = flat(I->getOperand(0)->getType())[0].w; for (int j = 0; j < ki.nd; j++) f.r[ki.dest + j] = icmpV(c->getPredicate(), opv(f, ki, 0, j), opv(f, ki, 1, j), w); return; }
    case Instruction::FCmp: { auto* c = cast<FCmpInst>(I); unsigned w = flat(I->getOperand(0)->getType())[0].w; for (int j = 0; j < ki.nd; j++) f.r[ki.dest + j] = fcmpV(c->getPredicate(), opv(f, ki, 0, j), opv(f, ki, 1, j), w); return; }
    case Instruction::Select: {
      V c = opv(f, ki, 0); auto& fl = flat(I->getType()); bool vec = I->getOperand(0)->getType()->isVectorTy();
      for (int j = 0; j < ki.nd; j++) { if (vec) c = opv(f, ki, 0, j);
        // pointer-like selects are better decided by forking
        if (c.e && (I->getType()->isPointerTy() || (gForkSelect && I->getType()->isIntegerTy() && !I->getType()->isIntegerTy(1)))) { bool b = decide(s, c.e); c = cv(b); }
        f.r[ki.dest + j] = iteV(c, opv(f, ki, 1, j), opv(f, ki, 2, j), fl[j].w); }
      return; }
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: {
      auto& fs = flat(I->getOperand(0)->getType()); auto& fd = flat(I->getType());
      for (int j = 0; j < ki.nd; j++) { const V& a = opv(f, ki, 0, j); unsigned ws = fs[j].w, wd = fd[j].w; V r;
        if (!a.e && wd <= 64) r = cv((ki.op == Instruction::SExt ? (uint64_t)sextw(a.c, ws) : a.c) & maskw(wd));
        else { E e = toE(a, ws); r = fromE(ki.op == Instruction::Trunc ? mkExtract(e, 0, wd) : ki.op == Instruction::ZExt ? mkZExt(e, wd) : mkSExt(e, wd)); }
        f.r[ki.dest + j] = r; }
      return; }
    case Instruction::PtrToInt: case Instruction::IntToPtr: { unsigned ws = flat(I->getOperand(0)->getType())[0].w, wd = flat(I->getType())[0].w; const V& a = opv(f, ki, 0); if (!a.e) setd(cv(a.c & maskw(wd))); else setd(fromE(ws == wd ? a.e : ws > wd ? mkExtract(a.e, 0, wd) : mkZExt(a.e, wd))); return; }
    case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP: {
      Op op = ki.op == Instruction::FPExt ? O_FPEXT : ki.op == Instruction::FPTrunc ? O_FPTRUNC : ki.op == Instruction::FPToSI ? O_FPTOSI : ki.op == Instruction::FPToUI ? O_FPTOUI : ki.op == Instruction::SIToFP ? O_SITOFP : O_UITOFP;
      auto& fs = flat(I->getOperand(0)->getType()); auto& fd = flat(I->getType());
      for (int j = 0; j < ki.nd; j++) f.r[ki.dest + j] = fromE(mkFUn(op, toE(opv(f, ki, 0, j), fs[j].w), fd[j].w));
      return; }
    case Instruction::BitCast: {
      auto& fs = flat(I->getOperand(0)->getType()); auto& fd = flat(I->getType());
      if (fs.size() == 1 && fd.size() == 1) { setd(opv(f, ki, 0)); return; }
      E all = toE(opv(f, ki, 0, 0), fs[0].w); for (size_t j = 1; j < fs.size(); j++) all = mkConcat(toE(opv(f, ki, 0, j), fs[j].w), all);
      unsigned lo = 0; for (int j = 0; j < ki.nd; j++) { f.r[ki.dest + j] = fromE(mkExtract(all, lo, fd[j].w)); lo += fd[j].w; }
      return; }
    case Instruction::Freeze: for (int j = 0; j < ki.nd; j++) f.r[ki.dest + j] = opv(f, ki, 0, j); return;
    case Instruction::GetElementPtr: {
      V a = opv(f, ki, 0);
      uint64_t off = ki.gepOff;
      for (auto& g : ki.gepIdx) {
        const V& x = opv(f, ki, g.first); unsigned w = flat(I->getOperand(g.first)->getType())[0].w;
        if (!x.e) off += (uint64_t)sextw(x.c, w) * g.second; else a = fromE(mkBin(O_ADD, toE(a, 64), mkBin(O_MUL, mkSExt(x.e, 64), mkConst(g.second, 64)))); }
      setd(addOff(a, off)); return; }
    case Instruction::Alloca: {
      auto* al = cast<AllocaInst>(I); uint64_t n = concretize(s, opv(f, ki, 0), 64, "alloca"); uint64_t sz = DL->getTypeAllocSize(al->getAllocatedType()) * n;
      uint64_t p = allocObj(s, sz, 2, false); f.allocas.push_back(p); setd(cv(p)); return; }
    case Instruction::Load: {
      auto& fl = flat(I->getType()); V p = opv(f, ki, 0);
      if (p.e && fl.size() > 1) p = cv(concretize(s, p, 64, "address"));
      for (int j = 0; j < ki.nd; j++) f.r[ki.dest + j] = loadScalar(s, addOff(p, fl[j].off), fl[j].w);
      return; }
    case Instruction::Store: {
      auto& fl = flat(I->getOperand(0)->getType()); V p = opv(f, ki, 1); if (p.e && fl.size() > 1) p = cv(concretize(s, p, 64, "address"));
      for (size_t j = 0; j < fl.size(); j++) storeScalar(s, addOff(p, fl[j].off), fl[j].w, opv(f, ki, 0, j));
      return; }
    case Instruction::ExtractValue: {
      auto* ev = cast<ExtractValueInst>(I); Type* t2 = ev->getAggregateOperand()->getType(); unsigned idx = 0;
      for (unsigned ix : ev->indices()) { if (auto* st = dyn_cast<StructType>(t2)) { for (unsigned q = 0; q < ix; q++) idx += flat(st->getElementType(q)).size(); t2 = st->getElementType(ix); } else { t2 = cast<ArrayType>(t2)->getElementType(); idx += ix * flat(t2).size(); } }
      for (int j = 0; j < ki.nd; j++) f.r[ki.dest + j] = opv(f, ki, 0, idx + j);
      return; }
    case Instruction::InsertValue: {
      auto* iv = cast<InsertValueInst>(I); Type* t2 = iv->getType(); unsigned idx = 0;
      for (unsigned ix : iv->indices()) { if (auto* st = dyn_cast<StructType>(t2)) { for (unsigned q = 0; q < ix; q++) idx += flat(st->getElementType(q)).size(); t2 = st->getElementType(ix); } else { t2 = cast<ArrayType>(t2)->getElementType(); idx += ix * flat(t2).size(); } }
      for (int j = 0; j < ki.nd; j++) f.r[ki.dest + j] = opv(f, ki, 0, j);
      unsigned n2 = flat(t2).size(); for (unsigned j = 0; j < n2; j++) f.r[ki.dest + idx + j] = opv(f, ki, 1, j);
      return; }
    case Instruction::ExtractElement: { uint64_t ix = concretize(s, opv(f, ki, 1), 64, "lane"); setd(opv(f, ki, 0, ix)); return; }
    case Instruction::InsertElement: { uint64_t ix = concretize(s, opv(f, ki, 2), 64, "lane"); for (int j = 0; j < ki.nd; j++) f.r[ki.dest + j] = (uint64_t)j == ix ? opv(f, ki, 1) : opv(f, ki, 0, j); return; }
    case Instruction::ShuffleVector: { auto* sv = cast<ShuffleVectorInst>(I); int n = cast<FixedVectorType>(sv->getOperand(0)->getType())->getNumElements(); std::vector<V> r; for (int j = 0; j < ki.nd; j++) { int m = sv->getMaskValue(j); r.push_back(m < 0 ? cv(0) : m < n ? opv(f, ki, 0, m) : opv(f, ki, 1, m - n)); } for (int j = 0; j < ki.nd; j++) f.r[ki.dest + j] = r[j]; return; }
    case Instruction::AtomicRMW: {
      auto* rm = cast<AtomicRMWInst>(I); unsigned w = flat(rm->getValOperand()->getType())[0].w; V p = opv(f, ki, 0), v = opv(f, ki, 1), old = loadScalar(s, p, w), nv;
      switch (rm->getOperation()) { case AtomicRMWInst::Add: nv = bin(O_ADD, old, v, w); break; case AtomicRMWInst::Sub: nv = bin(O_SUB, old, v, w); break; case AtomicRMWInst::Xchg: nv = v; break; case AtomicRMWInst::Or: nv = bin(O_OR, old, v, w); break; case AtomicRMWInst::And: nv = bin(O_AND, old, v, w); break; default: incomplete("atomicrmw"); endPath(); }
      storeScalar(s, p, w, nv); setd(old); return; }
    case Instruction::AtomicCmpXchg: { auto* cx = cast<AtomicCmpXchgInst>(I); unsigned w = flat(cx->getCompareOperand()->getType())[0].w; V p = opv(f, ki, 0), cm = opv(f, ki, 1), nv = opv(f, ki, 2), old = loadScalar(s, p, w); V eq = bin(O_EQ, old, cm, w); storeScalar(s, p, w, iteV(eq, nv, old, w)); f.r[ki.dest] = old; f.r[ki.dest + 1] = eq; return; }
    case Instruction::Fence: return;
    case Instruction::LandingPad: case Instruction::Resume: report(s, "exception", "exception handling code reached", s.model); endPath();
    case Instruction::Call: case Instruction::Invoke: {
      auto* cb = cast<CallBase>(I); Function* F = nullptr; Value* cal = cb->getCalledOperand()->stripPointerCasts();
      if (isa<InlineAsm>(cal)) { for (int j = 0; j < ki.nd; j++) f.r[ki.dest + j] = cv(0); return; }
      if (auto* ga = dyn_cast<GlobalAlias>(cal)) cal = ga->getAliaseeObject();
      F = dyn_cast<Function>(cal);
      if (!F) { V p = opv(f, ki, I->getNumOperands() - 1); uint64_t ad = concretize(s, p, 64, "function pointer"); auto it = gFuncByAddr.find(ad); if (it == gFuncByAddr.end()) { report(s, "memory", "call through an invalid function pointer", s.model); endPath(); } F = it->second; }
      if (F->isIntrinsic() && isa<DbgInfoIntrinsic>(I)) return;
      Args args; unsigned na = cb->arg_size(); args.resize(na);
      for (unsigned i = 0; i < na; i++) { Value* av = cb->getArgOperand(i); if (isa<MetadataAsValue>(av)) { args[i].push_back(cv(0)); continue; } unsigned n = flat(av->getType()).size(); for (unsigned j = 0; j < n; j++) args[i].push_back(opv(f, ki, i, j));
        if (cb->isByValArgument(i)) { Type* bt = cb->getParamByValType(i); uint64_t sz = DL->getTypeAllocSize(bt); uint64_t p = allocObj(s, sz, 2, false); f.allocas.push_back(p); memCopy(s, cv(p), args[i][0], sz); args[i][0] = cv(p); } }
      if (!F->isDeclaration() && !F->getName().starts_with("sx_")) { pushFrame(s, F, args); return; }
      std::vector<V> rv; bool sw = false; external(s, F, args, ki, rv, sw);
      int tgt = -1; if (s.cur < 0) { tgt = -1 - s.cur; s.cur = -1; for (size_t i = 0; i < s.th.size(); i++) if (&s.th[i] == &t) s.cur = i; }
      Frame& g = s.th[s.cur].st.back();
      for (int j = 0; j < ki.nd; j++) g.r[ki.dest + j] = j < (int)rv.size() ? rv[j] : cv(0);
      if (ki.op == Instruction::Invoke) jump(g, ki.t0);
      if (sw) { if (tgt >= 0) s.cur = tgt; else switchThread(s); }
      return; }
    default: errs() << "sx: unsupported instruction " << *I << "\n"; incomplete("unsupported instruction"); endPath();
  }
}

// ------------------------------------------------------------------------------------------ globals
static void writeConst(Obj& o, const Constant* c, uint64_t off) {
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  std::vector<V> v; constVals(c, v); auto& fl = flat(c->getType());
  for (size_t i = 0; i < fl.size() && i < v.size(); i++) { if (fl[i].w == 80) continue; writeObj(o, off + fl[i].off, fl[i].w, v[i]); }
}
static void finishPath(State& s) {
  gCompleted++;
  if (gSampleOut.size() < gSamples) {
    str o = "{\"inputs\":" + inputsJson(s, s.model) + ",\"observe\":[";
    for (size_t i = 0; i < s.obs.size(); i++) { if (i) o += ","; o += "[" + jstr(s.obs[i].name) + ",\"" + std::to_string((unsigned long long)evalE(s.obs[i].val, s.model)) + "\"]"; }
    gSampleOut.push_back(o + "]}");
  }
}
static bool fromRepo(Function& F) {
  auto* sp = F.getSubprogram(); if (!sp) return false;
  str fn = sp->getFilename().starts_with("/") ? sp->getFilename().str() : (sp->getDirectory() + "/" + sp->getFilename()).str();
  return fn.find("/repo/") == 0;
}
// Dead code removal, inlining of library templates (never of /repo functions) and promotion of locals to registers.
static void prepare(const str& entry) {
  if (Function* X = M->getFunction("_ZN9__gnu_cxx12__to_xstringINSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEcEET_PFiPT0_mPKS8_P13__va_list_tagEmSB_z")) if (Function* R = M->getFunction("sxrt_to_xstring")) X->replaceAllUsesWith(R); // variadic helper of std::to_string
  for (auto& F : *M) { if (F.isDeclaration()) continue; F.removeFnAttr(Attribute::OptimizeNone); if (fromRepo(F) || F.getName() == entry || F.getName().starts_with("MPI_")) { if (!F.hasFnAttribute(Attribute::AlwaysInline)) F.addFnAttr(Attribute::NoInline); } }
  LoopAnalysisManager lam; FunctionAnalysisManager fam; CGSCCAnalysisManager cam; ModuleAnalysisManager mam; PassBuilder pb;
  pb.registerModuleAnalyses(mam); pb.registerCGSCCAnalyses(cam); pb.registerFunctionAnalyses(fam); pb.registerLoopAnalyses(lam); pb.crossRegisterProxies(lam, fam, cam, mam);
  ModulePassManager pm; pm.addPass(InternalizePass([&](const GlobalValue& g) { return g.getName() == entry; }));
  if (auto e = pb.parsePassPipeline(pm, "globaldce,function(sroa,early-cse,simplifycfg,instsimplify),cgscc(inline),function(sroa,early-cse,simplifycfg,instsimplify,dce,simplifycfg),globaldce")) { errs() << toString(std::move(e)) << "\n"; exit(3); }
  pm.run(*M, mam);
}
int main(int argc, char** argv) {
  str bc, entry = "harness", out;
  for (int i = 1; i < argc; i++) {
    str a = argv[i]; auto nx = [&] { return str(argv[++i]); };
    if (a == "--entry") entry = nx(); else if (a == "--out") out = nx(); else if (a == "--time") gTimeLimit = std::stod(nx()); else if (a == "--solver-ms") gSolverTimeoutMs = std::stoul(nx());
    else if (a == "--param") { str p = nx(); auto e = p.find('='); gParams[p.substr(0, e)] = std::stoull(p.substr(e + 1)); }
    else if (a == "--path-instr") gPathInstr = std::stoull(nx()); else if (a == "--max-errors") gMaxErrors = std::stoul(nx()); else if (a == "--samples") gSamples = std::stoul(nx());
    else if (a == "--enum") gEnumLimit = std::stoul(nx()); else if (a == "--max-paths") gMaxPaths = std::stoull(nx()); else if (a == "-v") gVerbose = true; else if (a == "--fork-select") gForkSelect = true; else if (a == "--tab") gTabBits = std::stoul(nx()); else if (a == "--dump") gDumpDir = nx(); else if (a == "--no-inc") gIncremental = false; else if (a == "--mem-mb") gMaxMemMB = std::stoul(nx());
    else bc = a;
  }
  gT0 = std::chrono::steady_clock::now();
  LLVMContext ctx; SMDiagnostic diag; M = parseIRFile(bc, diag, ctx); if (!M) { diag.print("sx", errs()); return 3; }
  prepare(entry);
  DL = &M->getDataLayout();
  uint64_t fa = 0x1000; for (auto& F : *M) { gFuncAddr[&F] = fa; gFuncByAddr[fa] = &F; fa += 16; if (fa >= 0xf0000) { fprintf(stderr, "too many functions\n"); return 3; } }
  State* s0 = new State;
  for (auto& G : M->globals()) { uint64_t sz = G.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(G.getValueType()) : 8; gGlobAddr[&G] = gGlobalNext; gGlobalNext = (gGlobalNext + std::max<uint64_t>(sz, 1) + 15) / 16 * 16 + 64; }
  for (auto& G : M->globals()) {
    if (G.getName().starts_with("llvm.")) continue;
    uint64_t sz = G.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(G.getValueType()) : 8; if (G.isDeclaration() && sz < 256) sz = 256 > sz ? sz : sz;
    Obj o; o.base = gGlobAddr[&G]; o.size = sz; o.c = std::make_shared<Content>(); o.c->b.assign(sz, 0); if (G.hasInitializer()) writeConst(o, G.getInitializer(), 0);
    if (G.isConstant()) { o.ro = true; gConstMem[o.base] = o; } else s0->mem[o.base] = o;
  }
  Function* H = M->getFunction(entry); if (!H || H->isDeclaration()) { fprintf(stderr, "sx: no entry %s\n", entry.c_str()); return 3; }
  // static constructors, then the harness
  s0->th.resize(1);
  std::vector<Function*> ctors;
  if (auto* gc = M->getGlobalVariable("llvm.global_ctors")) if (gc->hasInitializer()) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
    std::vector<std::pair<uint64_t, Function*>> v; for (auto& o : ca->operands()) { auto* cs = cast<ConstantStruct>(o); if (auto* f = dyn_cast<Function>(cs->getOperand(1))) v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), f}); }
    std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; }); for (auto& p : v) ctors.push_back(p.second); }
  try {
    for (Function* c : ctors) { s0->th[0].done = false; pushFrame(*s0, c, {}); while (!s0->th[0].done) step(*s0); if (gWork.size()) { fprintf(stderr, "fork in a static constructor\n"); return 3; } }
    s0->th[0].done = false; s0->instrs = 0; pushFrame(*s0, H, {});
  } catch (PathEnd&) { fprintf(stderr, "sx: static constructor failed: %s\n", gIncomplete.c_str()); return 3; }
  gWork.push_back(s0);
  uint64_t tick = 0; bool stop = false;
  while (!gWork.empty() && !stop) {
    State* s = gWork.back(); gWork.pop_back();
    try {
      while (anyAlive(*s)) {
        step(*s);
        if ((++tick & 0xfff) == 0) {
          if (elapsed() > gTimeLimit) { incomplete("time limit"); stop = true; break; }
          if ((tick & 0xfffff) == 0) { struct rusage ru; getrusage(RUSAGE_SELF, &ru); if ((size_t)ru.ru_maxrss / 1024 > gMaxMemMB) { incomplete("memory limit"); stop = true; break; } }
        }
        if (s->instrs > gPathInstr) { report(*s, "nonterm", "path exceeds the instruction bound (possible endless loop)", s->model); incomplete("instruction bound"); endPath(); }
      }
      if (!stop) finishPath(*s);
    } catch (PathEnd&) {}
    gPaths++; delete s;
    if (gErrs.size() >= gMaxErrors) { incomplete("stopped after " + std::to_string(gErrs.size()) + " findings"); break; }
    if (gPaths >= gMaxPaths) { incomplete("path limit"); break; }
    if (elapsed() > gTimeLimit && !gWork.empty()) { incomplete("time limit"); break; }
  }
  str j = "{\n";
  auto num = [&](const char* k, double v) { char b[100]; snprintf(b, 100, "\"%s\": %.17g,\n", k, v); j += b; };
  num("paths", gPaths); num("completed", gCompleted); num("forks", gForks); num("instructions", gInstr); num("asserts", gAsserts); num("assert_queries", gAssertQueries); num("assume_killed", gAssumeKilled); num("symbolic_branches", gBranchesSym);
  num("queries", gStats.queries); num("q_sat", gStats.sat); num("q_unsat", gStats.unsat); num("q_unknown", gStats.unknown); num("q_cache", gStats.cacheHits); num("q_model", gStats.modelHits); num("solver_s", gStats.time); num("solver_max_s", gStats.maxTime); num("wall_s", elapsed()); num("error_total", gErrTotal);
  j += "\"incomplete\": " + (gIncomplete.empty() ? str("null") : jstr(gIncomplete)) + ",\n\"covers\": {";
  bool first = true; for (auto& c : gCovers) { j += (first ? "" : ",") + jstr(c.first) + ":" + std::to_string(c.second); first = false; }
  j += "},\n\"functions\": ["; first = true; { std::set<str> fs; for (auto& p : gFuncs) if (p.second->repo && p.second->calls && !p.first->isDeclaration()) fs.insert(p.second->name); for (auto& f : fs) { j += (first ? "" : ",") + jstr(f); first = false; } }
  j += "],\n\"errors\": ["; first = true;
  for (auto& e : gErrs) { j += str(first ? "" : ",") + "{\"kind\":" + jstr(e.kind) + ",\"msg\":" + jstr(e.msg) + ",\"loc\":" + jstr(e.loc) + ",\"stack\":["; for (size_t i = 0; i < e.stack.size(); i++) j += (i ? "," : "") + jstr(e.stack[i]); j += "],\"inputs\":" + e.inputs + "}\n"; first = false; }
  j += "],\n\"samples\": ["; first = true; for (auto& x : gSampleOut) { j += (first ? "" : ",") + x + "\n"; first = false; }
  j += "]\n}\n";
  if (out.empty()) fputs(j.c_str(), stdout); else { FILE* o = fopen(out.c_str(), "w"); fputs(j.c_str(), o); fclose(o); }
  if (gVerbose) { std::vector<std::pair<uint64_t, str>> v; for (auto& x : gProf) v.push_back({x.second.first, x.first}); std::sort(v.rbegin(), v.rend()); for (size_t i = 0; i < v.size() && i < 25; i++) fprintf(stderr, "PROF %8llu %s\n", (unsigned long long)v[i].first, v[i].second.c_str()); }
  fflush(stdout); _exit(0);
}

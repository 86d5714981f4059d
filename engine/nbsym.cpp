// nbsym: symbolic executor for LLVM IR (LLVM 18, Z3).  See /verif/DESIGN.md.
#include "solver.h"
#include <llvm/ADT/APInt.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <fstream>
#include <functional>
#include <set>
#include <sys/resource.h>
#include <unistd.h>
using namespace llvm;

static Pool P;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct Val { Expr* e = nullptr; u64 c = 0; uint16_t w = 0; };
static inline Val cv(unsigned w, u64 c) { Val v; v.w = w; v.c = w >= 64 ? c : c & ((1ull << w) - 1); return v; }
static inline Expr* X(const Val& v) { return v.e ? v.e : P.cst(v.w, v.c); }
static inline Val mk(Expr* e) { Val v; v.w = e->w; if (e->k == K_Const && e->w <= 64) v.c = (u64)e->c; else v.e = e; return v; }
static inline Val cv128(unsigned w, u128 c) { if (w <= 64) return cv(w, (u64)c); return mk(P.cst(w, c)); }

struct Opnd { int reg = -1; Val c; const std::vector<Val>* agg = nullptr; };
struct CFunc;
struct GepStep { Opnd idx; u64 stride; };
struct CInst {
  Instruction* I = nullptr; unsigned op = 0; int dst = -1; unsigned ndst = 0; std::vector<uint16_t> dw;
  std::vector<Opnd> ops; u64 a = 0, b = 0; std::vector<GepStep> gep; CFunc* callee = nullptr; Function* fn = nullptr; unsigned iid = 0;
  std::vector<u32> offs; // flattened offsets for load/store
  std::vector<std::pair<u64, u32>> cases; int t0 = -1, t1 = -1; bool hit = false; int builtin = -1; u32 nfork = 0, mfail = 0;
};
struct CBlock { std::vector<CInst> in; unsigned firstNonPhi = 0; std::map<int, u32> phiIdx; };
struct CFunc { Function* F; std::vector<CBlock> bb; u32 nregs = 0; std::vector<std::pair<int, unsigned>> args; bool compiled = false; bool executed = false; u64 addr = 0; std::string name; int builtin = -1; std::vector<int> rpo; std::vector<char> alive; };

enum MKind : u8 { M_Const, M_Global, M_Stack, M_New, M_Malloc, M_Exc };
struct MemObj {
  u64 base, size; MKind kind; bool dead = false; bool tagged = false; const char* name = "";
  std::vector<u8> data; std::vector<Expr*> sym; std::vector<u8> init; // init empty = all initialised
  bool allInit() const { return init.empty(); }
};
using MemP = std::shared_ptr<MemObj>;

struct Frame { CFunc* f; u32 bb = 0, prev = 0, ip = 0; std::vector<Val> regs; std::vector<u64> allocas; u64 freeOnRet = 0; bool isEntry = false; };
using FrameP = std::shared_ptr<Frame>;
struct ExcInfo { u64 tinfo = 0, dtor = 0; int handlers = 0; bool rethrown = false; };
struct InputRec { std::string name; std::vector<Expr*> e; };
struct ObsRec { std::string name; std::vector<Val> v; };

struct State {
  std::vector<FrameP> fr;
  std::vector<MemP> mem; // sorted by base
  u64 next = 0x100000000ull;
  std::vector<Expr*> pc; std::unordered_map<Expr*, bool> known; ModelP model; std::map<u32, Set256> dom;
  std::map<u64, ExcInfo> exc; std::vector<u64> caught; u64 landObj = 0; u32 landSel = 0;
  std::vector<InputRec> inputs; std::vector<ObsRec> obs; std::vector<std::string> covers;
  u64 steps = 0; int uncaught = 0;
};
using StateP = std::unique_ptr<State>;

struct PathEnd { std::string why; };          // path finished (normal, assume)
struct Violation { std::string kind, msg; };   // property violated on this path

static const DataLayout* DL;
struct Engine {
  Module* M; Solver S{P};
  std::unordered_map<const Function*, CFunc*> funcs; std::map<u64, CFunc*> faddr; std::unordered_map<const GlobalVariable*, u64> gaddr;
  std::map<u64, MemP> constMem; std::vector<MemP> globMem; std::map<std::string, u64> gByName; std::map<u64, std::string> gName;
  std::vector<StateP> work; State* st = nullptr;
  std::map<std::string, std::string> params;
  std::map<u64, u32> typeIds; // typeinfo -> selector
  // stats
  u64 nForks = 0, nPaths = 0, nAssumeEnd = 0, nSteps = 0, nStates = 1; std::set<std::string> covers, warned;
  std::map<std::string, u64> pathEnds;
  struct Vio { std::string kind, msg, loc, stack; std::vector<std::pair<std::string, std::string>> inputs; };
  std::vector<Vio> vios; std::set<std::string> vioKeys;
  struct Tst { std::vector<std::pair<std::string, std::string>> inputs, obs; std::vector<std::string> covers; std::string end; };
  std::vector<Tst> tests; unsigned maxTests = 64; u64 maxSteps = 20000000; double timeBudget = 800; double t0; u64 allocLimit = 1 << 24; unsigned maxDepth = 4000; u64 maxPaths = 1000000; unsigned maxVios = 10; bool allVios = false; u64 nVioPaths = 0; double firstVio = 0;
  std::string error; CInst* cur = nullptr; u64 asserts = 0, assertQueries = 0;

  [[noreturn]] void vio(std::string kind, std::string msg) { throw Violation{std::move(kind), std::move(msg)}; }

  // ---------- types
  void flatten(Type* T, u64 off, std::vector<uint16_t>& w, std::vector<u32>& o) {
    if (auto* s = dyn_cast<StructType>(T)) { auto* L = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) flatten(s->getElementType(i), off + L->getElementOffset(i), w, o); return; }
    if (auto* a = dyn_cast<ArrayType>(T)) { u64 sz = DL->getTypeAllocSize(a->getElementType()); for (u64 i = 0; i < a->getNumElements(); i++) flatten(a->getElementType(), off + i * sz, w, o); return; }
    if (auto* v = dyn_cast<FixedVectorType>(T)) { u64 sz = DL->getTypeSizeInBits(v->getElementType()) / 8; if (!sz) fatal("vector of i1 in memory"); for (u64 i = 0; i < v->getNumElements(); i++) flatten(v->getElementType(), off + i * sz, w, o); return; }
    w.push_back(DL->getTypeSizeInBits(T)); o.push_back(off);
  }
  void flatW(Type* T, std::vector<uint16_t>& w) {
    if (T->isVoidTy()) return;
    if (auto* v = dyn_cast<FixedVectorType>(T)) { for (u64 i = 0; i < v->getNumElements(); i++) flatW(v->getElementType(), w); return; }
    if (auto* s = dyn_cast<StructType>(T)) { for (auto* e : s->elements()) flatW(e, w); return; }
    if (auto* a = dyn_cast<ArrayType>(T)) { for (u64 i = 0; i < a->getNumElements(); i++) flatW(a->getElementType(), w); return; }
    if (T->isLabelTy() || T->isMetadataTy() || T->isTokenTy()) return;
    w.push_back(DL->getTypeSizeInBits(T));
  }
  // ---------- constants
  void constVals(const Constant* C, std::vector<Val>& out) {
    Type* T = C->getType();
    if (auto* ci = dyn_cast<ConstantInt>(C)) { const APInt& a = ci->getValue(); if (a.getBitWidth() <= 64) out.push_back(cv(a.getBitWidth(), a.getZExtValue())); else if (a.getBitWidth() <= 128) out.push_back(mk(P.cst(a.getBitWidth(), ((u128)a.getRawData()[1] << 64) | a.getRawData()[0]))); else fatal("int constant too wide"); return; }
    if (isa<ConstantPointerNull>(C)) { out.push_back(cv(64, 0)); return; }
    if (auto* f = dyn_cast<ConstantFP>(C)) { APInt a = f->getValueAPF().bitcastToAPInt(); if (a.getBitWidth() <= 64) out.push_back(cv(a.getBitWidth(), a.getZExtValue())); else out.push_back(mk(P.cst(a.getBitWidth(), ((u128)a.getRawData()[1] << 64) | a.getRawData()[0]))); return; }
    if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) { std::vector<uint16_t> w; flatW(T, w); for (auto x : w) out.push_back(x > 64 ? mk(P.cst(x, 0)) : cv(x, 0)); return; }
    if (auto* f = dyn_cast<Function>(C)) { out.push_back(cv(64, fAddr(f))); return; }
    if (auto* g = dyn_cast<GlobalVariable>(C)) { out.push_back(cv(64, gaddr.at(g))); return; }
    if (auto* a = dyn_cast<GlobalAlias>(C)) { constVals(a->getAliasee(), out); return; }
    if (auto* a = dyn_cast<ConstantAggregate>(C)) { for (auto& o : a->operands()) constVals(cast<Constant>(o), out); return; }
    if (auto* d = dyn_cast<ConstantDataSequential>(C)) { for (unsigned i = 0; i < d->getNumElements(); i++) constVals(d->getElementAsConstant(i), out); return; }
    if (auto* ce = dyn_cast<ConstantExpr>(C)) { out.push_back(constExpr(ce)); return; }
    if (isa<ConstantTokenNone>(C)) return;
    std::string s; raw_string_ostream os(s); C->print(os); fatal("constant: " + os.str());
  }
  Val cval(const Constant* C) { std::vector<Val> v; constVals(C, v); if (v.size() != 1) fatal("scalar constant expected"); return v[0]; }
  Val constExpr(const ConstantExpr* ce) {
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: { APInt off(64, 0); if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) fatal("const gep"); Val b = cval(cast<Constant>(ce->getOperand(0))); return cv(64, b.c + off.getZExtValue()); }
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: case Instruction::ZExt: case Instruction::AddrSpaceCast: { Val v = cval(cast<Constant>(ce->getOperand(0))); return cv(DL->getTypeSizeInBits(ce->getType()), v.c); }
    case Instruction::Add: case Instruction::Sub: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::Mul: {
      Val a = cval(cast<Constant>(ce->getOperand(0))), b = cval(cast<Constant>(ce->getOperand(1))); return binop(ce->getOpcode(), a, b); }
    case Instruction::ICmp: return icmp(ce->getPredicate(), cval(cast<Constant>(ce->getOperand(0))), cval(cast<Constant>(ce->getOperand(1))));
    case Instruction::Select: { Val c = cval(cast<Constant>(ce->getOperand(0))); return cval(cast<Constant>(ce->getOperand(c.c ? 1 : 2))); }
    default: fatal(std::string("constexpr ") + ce->getOpcodeName()); }
  }
  u64 fAddr(const Function* f) { auto* c = funcs.at(f); return c->addr; }

  // ---------- setup
  void initMemBytes(MemObj& o, u64 off, const Constant* C) {
    Type* T = C->getType();
    if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) return;
    if (auto* d = dyn_cast<ConstantDataSequential>(C)) { StringRef r = d->getRawDataValues(); memcpy(&o.data[off], r.data(), r.size()); return; }
    if (auto* s = dyn_cast<ConstantStruct>(C)) { auto* L = DL->getStructLayout(s->getType()); for (unsigned i = 0; i < s->getNumOperands(); i++) initMemBytes(o, off + L->getElementOffset(i), s->getOperand(i)); return; }
    if (auto* a = dyn_cast<ConstantArray>(C)) { u64 sz = DL->getTypeAllocSize(a->getType()->getElementType()); for (unsigned i = 0; i < a->getNumOperands(); i++) initMemBytes(o, off + i * sz, a->getOperand(i)); return; }
    std::vector<Val> v; constVals(C, v); u64 sz = DL->getTypeStoreSize(T);
    if (v.size() == 1) { u128 x = v[0].e ? v[0].e->c : v[0].c; for (u64 i = 0; i < sz; i++) o.data[off + i] = (u8)(x >> (8 * i)); return; }
    std::vector<uint16_t> w; std::vector<u32> of; flatten(T, 0, w, of); for (size_t j = 0; j < v.size(); j++) { u128 x = v[j].e ? v[j].e->c : v[j].c; for (u32 i = 0; i < (w[j] + 7u) / 8; i++) o.data[off + of[j] + i] = (u8)(x >> (8 * i)); }
  }
  void setup() {
    DL = &M->getDataLayout(); u64 fa = 0x40000000;
    for (auto& F : *M) { auto* c = new CFunc(); c->F = &F; c->name = F.getName().str(); c->addr = fa; fa += 32; if (F.isDeclaration() && F.hasExternalWeakLinkage()) c->addr = 0; else faddr[c->addr] = c; funcs[&F] = c; }
    u64 a = 0x10000000;
    for (auto& G : M->globals()) { u64 sz = G.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(G.getValueType()) : 8; if (G.isDeclaration() && sz < 64) sz = 64; u64 al = std::max<u64>(16, G.getAlignment()); a = (a + al - 1) / al * al; gaddr[&G] = a; 
      if (G.isDeclaration() && G.hasExternalWeakLinkage()) gaddr[&G] = 0;
      gByName[G.getName().str()] = a; gName[a] = G.getName().str(); a += sz + 48; }
    for (auto& G : M->globals()) { u64 sz = G.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(G.getValueType()) : 8; if (G.isDeclaration() && sz < 64) sz = 64; if (!gaddr[&G]) continue;
      auto o = std::make_shared<MemObj>(); o->base = gaddr[&G]; o->size = sz; o->name = strdup(G.getName().str().c_str()); o->data.assign(sz, 0); o->kind = G.isConstant() ? M_Const : M_Global;
      if (G.hasInitializer()) initMemBytes(*o, 0, G.getInitializer());
      if (G.getName() == "__libc_single_threaded") o->data[0] = 1;
      if (o->kind == M_Const) constMem[o->base] = o; else globMem.push_back(o); }
    std::sort(globMem.begin(), globMem.end(), [](const MemP& x, const MemP& y) { return x->base < y->base; });
  }
  Opnd operand(const Value* v, std::unordered_map<const Value*, int>& num) {
    Opnd o; if (auto* c = dyn_cast<Constant>(v)) { std::vector<Val> vs; constVals(c, vs); if (vs.size() == 1) { o.c = vs[0]; } else o.agg = new std::vector<Val>(vs); return o; }
    auto it = num.find(v); if (it == num.end()) { return o; } o.reg = it->second; return o;
  }
  void compile(CFunc* cf) {
    if (cf->compiled) return; cf->compiled = true; Function& F = *cf->F;
    std::unordered_map<const Value*, int> num; std::unordered_map<const BasicBlock*, int> bbn; u32 n = 0;
    for (auto& A : F.args()) { std::vector<uint16_t> w; flatW(A.getType(), w); num[&A] = n; cf->args.push_back({(int)n, (unsigned)w.size()}); n += w.size(); }
    int bi = 0; for (auto& B : F) { bbn[&B] = bi++; for (auto& I : B) { std::vector<uint16_t> w; flatW(I.getType(), w); if (!w.empty()) { num[&I] = n; n += w.size(); } } }
    cf->nregs = n; cf->bb.resize(bi);
    for (auto& B : F) { CBlock& cb = cf->bb[bbn[&B]];
      for (auto& I : B) { if (isa<DbgInfoIntrinsic>(I)) continue; CInst c; c.I = &I; c.op = I.getOpcode(); flatW(I.getType(), c.dw); c.ndst = c.dw.size(); if (c.ndst) c.dst = num[&I];
        switch (c.op) {
        case Instruction::PHI: { auto& p = cast<PHINode>(I); for (unsigned i = 0; i < p.getNumIncomingValues(); i++) { c.cases.push_back({(u64)bbn[p.getIncomingBlock(i)], i}); c.ops.push_back(operand(p.getIncomingValue(i), num)); } break; }
        case Instruction::Br: { auto& b = cast<BranchInst>(I); if (b.isConditional()) { c.ops.push_back(operand(b.getCondition(), num)); c.t0 = bbn[b.getSuccessor(0)]; c.t1 = bbn[b.getSuccessor(1)]; } else c.t0 = bbn[b.getSuccessor(0)]; break; }
        case Instruction::Switch: { auto& s = cast<SwitchInst>(I); c.ops.push_back(operand(s.getCondition(), num)); c.t0 = bbn[s.getDefaultDest()]; for (auto& k : s.cases()) c.cases.push_back({k.getCaseValue()->getZExtValue(), (u32)bbn[k.getCaseSuccessor()]}); break; }
        case Instruction::GetElementPtr: { auto& g = cast<GetElementPtrInst>(I); c.ops.push_back(operand(g.getPointerOperand(), num)); u64 off = 0;
          for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) { Value* ix = gi.getOperand(); if (auto* s = gi.getStructTypeOrNull()) { off += DL->getStructLayout(s)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); }
            else { u64 str = DL->getTypeAllocSize(gi.getIndexedType()); if (auto* ci = dyn_cast<ConstantInt>(ix)) off += ci->getSExtValue() * str; else c.gep.push_back({operand(ix, num), str}); } }
          c.a = off; break; }
        case Instruction::Load: { auto& l = cast<LoadInst>(I); c.ops.push_back(operand(l.getPointerOperand(), num)); std::vector<uint16_t> w; flatten(l.getType(), 0, w, c.offs); break; }
        case Instruction::Store: { auto& s = cast<StoreInst>(I); c.ops.push_back(operand(s.getPointerOperand(), num)); c.ops.push_back(operand(s.getValueOperand(), num)); flatten(s.getValueOperand()->getType(), 0, c.dw, c.offs); break; }
        case Instruction::Alloca: { auto& al = cast<AllocaInst>(I); c.ops.push_back(operand(al.getArraySize(), num)); c.a = DL->getTypeAllocSize(al.getAllocatedType()); c.b = al.getAlign().value(); break; }
        case Instruction::ExtractValue: { auto& e = cast<ExtractValueInst>(I); c.ops.push_back(operand(e.getAggregateOperand(), num)); c.a = slotOf(e.getAggregateOperand()->getType(), e.getIndices()); break; }
        case Instruction::InsertValue: { auto& e = cast<InsertValueInst>(I); c.ops.push_back(operand(e.getAggregateOperand(), num)); c.ops.push_back(operand(e.getInsertedValueOperand(), num)); c.a = slotOf(e.getAggregateOperand()->getType(), e.getIndices()); std::vector<uint16_t> w; flatW(e.getInsertedValueOperand()->getType(), w); c.b = w.size(); break; }
        case Instruction::Call: case Instruction::Invoke: { auto& cb2 = cast<CallBase>(I); c.fn = cb2.getCalledFunction(); if (!c.fn) if (auto* al = dyn_cast<GlobalAlias>(cb2.getCalledOperand())) c.fn = dyn_cast<Function>(al->getAliaseeObject());
          if (c.fn) { c.iid = c.fn->getIntrinsicID(); c.callee = funcs.at(c.fn); if (c.iid == Intrinsic::not_intrinsic && c.fn->isDeclaration()) c.builtin = 1; }
          c.t0 = c.t1 = -1;
          for (auto& a : cb2.args()) { if (a->getType()->isMetadataTy()) { c.ops.push_back(Opnd{}); continue; } c.ops.push_back(operand(a.get(), num)); }
          if (!c.fn && !cb2.isInlineAsm()) c.gep.push_back({operand(cb2.getCalledOperand(), num), 0});
          if (auto* iv = dyn_cast<InvokeInst>(&I)) { c.t0 = bbn[iv->getNormalDest()]; c.t1 = bbn[iv->getUnwindDest()]; } break; }
        case Instruction::ShuffleVector: { auto& s = cast<ShuffleVectorInst>(I); for (auto& o : I.operands()) c.ops.push_back(operand(o.get(), num)); for (int m : s.getShuffleMask()) c.cases.push_back({(u64)(i64)m, 0}); c.a = cast<FixedVectorType>(s.getOperand(0)->getType())->getNumElements(); break; }
        case Instruction::LandingPad: break;
        default: for (auto& o : I.operands()) if (!o->getType()->isLabelTy()) c.ops.push_back(operand(o.get(), num)); }
        if (c.op == Instruction::Call && c.iid && (c.iid == Intrinsic::dbg_declare || c.iid == Intrinsic::dbg_value || c.iid == Intrinsic::dbg_label || c.iid == Intrinsic::experimental_noalias_scope_decl)) continue;
        cb.in.push_back(std::move(c)); }
      while (cb.firstNonPhi < cb.in.size() && cb.in[cb.firstNonPhi].op == Instruction::PHI) cb.firstNonPhi++; }
  }
  u64 slotOf(Type* T, ArrayRef<unsigned> idx) { u64 s = 0; for (unsigned i : idx) { if (auto* st = dyn_cast<StructType>(T)) { for (unsigned k = 0; k < i; k++) { std::vector<uint16_t> w; flatW(st->getElementType(k), w); s += w.size(); } T = st->getElementType(i); } else { T = cast<ArrayType>(T)->getElementType(); std::vector<uint16_t> w; flatW(T, w); s += w.size() * i; } } return s; }

  bool prof = false; struct ProfE { u64 n = 0, forks = 0; double t = 0; }; std::map<Instruction*, ProfE> profMap;
  void profDump() { std::vector<std::pair<ProfE, Instruction*>> v; for (auto& p : profMap) v.push_back({p.second, p.first}); std::sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first.forks > b.first.forks; });
    for (size_t i = 0; i < v.size() && i < 25; i++) fprintf(stderr, "%8lu q %8lu forks %8.2fs  %s\n", v[i].first.n, v[i].first.forks, v[i].first.t, locOf(v[i].second).c_str()); }
  // ---------- deciding
  void learn(State& s, Expr* c, bool v) {
    if (Pool::isC(c)) return; s.known[c] = v; s.known[P.bnot(c)] = !v;
    if (v && c->k == K_And) for (u32 i = 0; i < c->n; i++) learn(s, c->ops[i], true);
    if (!v && c->k == K_Or) for (u32 i = 0; i < c->n; i++) learn(s, c->ops[i], false);
  }
  void addPc(State& s, Expr* c) { // c is true on this path
    if (Pool::isC(c)) return; learn(s, c, true);
    if (c->k == K_And) { for (u32 i = 0; i < c->n; i++) addPc(s, c->ops[i]); return; }
    s.pc.push_back(c);
    if (S.BS.is(c)) if (auto* v = S.BS.set(c)) { auto it = s.dom.find(S.BS.symOf(c)); if (it == s.dom.end()) s.dom[S.BS.symOf(c)] = *v; else it->second &= *v; }
  }
  // replace parts that the value sets of single small symbols already decide (sound: the sets over-approximate the path condition)
  Expr* simpDom(Expr* c, int depth = 0) {
    if (c->w != 1 || Pool::isC(c) || depth > 6) return c;
    auto it = st->known.find(c); if (it != st->known.end()) return it->second ? P.tru() : P.fls();
    if (S.BS.is(c)) { auto d = st->dom.find(S.BS.symOf(c)); if (d == st->dom.end()) return c; auto* v = S.BS.set(c); if (!v) return c; if ((d->second & *v).none()) return P.fls(); if ((d->second & ~*v).none()) return P.tru(); return c; }
    if ((c->k == K_And || c->k == K_Or) && c->n <= 256) { std::vector<Expr*> o; bool ch = false; bool isAnd = c->k == K_And;
      for (u32 i = 0; i < c->n; i++) { Expr* x = simpDom(c->ops[i], depth + 1); if (x != c->ops[i]) ch = true; if (Pool::isC(x)) { if ((x->c != 0) != isAnd) return x; continue; } o.push_back(x); }
      if (!ch) return c; Expr* r = isAnd ? P.tru() : P.fls(); for (auto* x : o) r = isAnd ? P.band(r, x) : P.bor(r, x); return r; }
    if (c->k == K_Xor && c->n == 2 && (Pool::isC(c->ops[0], 1) || Pool::isC(c->ops[1], 1))) { Expr* x = Pool::isC(c->ops[0]) ? c->ops[1] : c->ops[0]; Expr* y = simpDom(x, depth + 1); return y == x ? c : P.bnot(y); }
    return c;
  }
  Expr* norm(Expr* c) { if (Pool::isC(c)) return c; c = S.BS.canon(c); return simpDom(c); }
  ModelP overlay(const ModelP& m, const std::vector<std::pair<u32, u128>>& nm) { auto r = std::make_shared<Model>(); r->v = m->v; for (auto& p : nm) r->v[p.first] = p.second; return r; }
  bool hasUndef(Expr* e) { for (u32 x : e->ss->v) if (P.syms[x].undef) return true; return false; }
  // does the value of c on this path depend on uninitialised bytes (and not merely mention them, as a wide load over padding does)?
  bool dependsOnUndef(Expr* c) {
    Solver::Sub m1; for (u32 x : c->ss->v) if (P.syms[x].undef) { unsigned w = P.syms[x].w; m1[x] = P.sym("undef2", w, true); }
    std::unordered_map<Expr*, Expr*> memo; Expr* z = S.subst(c, m1, memo); if (!z) return true;
    Expr* d = P.bxor(c, z); if (Pool::isC(d)) return d->c; std::vector<std::pair<u32, u128>> nm;
    Sat r = S.check(st->pc, d, &nm); if (r == UNSAT) return false; if (r == SAT) st->model = overlay(st->model, nm); return true; }
  Expr* withoutUndef(Expr* c) { Solver::Sub m0; for (u32 x : c->ss->v) if (P.syms[x].undef) m0[x] = P.cst(P.syms[x].w, 0); std::unordered_map<Expr*, Expr*> memo; Expr* z = S.subst(c, m0, memo); return z ? z : c; }
  bool decide(Expr* c) {
    c = norm(c);
    if (!Pool::isC(c) && hasUndef(c)) { auto it = st->known.find(c); if (it != st->known.end()) return it->second; if (dependsOnUndef(c)) vio("uninit", "branch depends on uninitialised memory"); c = norm(withoutUndef(c)); }
    if (Pool::isC(c)) return c->c;
    auto it = st->known.find(c); if (it != st->known.end()) return it->second;
    bool b = evalIn(c, *st->model); std::vector<std::pair<u32, u128>> nm;
    double tq = S.time; Sat r = S.check(st->pc, b ? P.bnot(c) : c, &nm);
    if (prof) { auto& e = profMap[cur ? cur->I : nullptr]; e.n++; e.t += S.time - tq; if (r == SAT) e.forks++; }
    if (r == UNKNOWN) fatal("solver gave no answer within the limit");
    if (r == UNSAT) { learn(*st, c, b); return b; }
    if (inMerge) throw MergeAbort{};
    if (cur) cur->nfork++;
    auto ns = std::make_unique<State>(*st); nForks++; nStates++;
    ns->fr.back() = std::make_shared<Frame>(*ns->fr.back()); // keep the running frame unshared
    ns->model = overlay(st->model, nm);
    addPc(*ns, b ? P.bnot(c) : c); addPc(*st, b ? c : P.bnot(c));
    work.push_back(std::move(ns));
    return b;
  }
  bool decide(const Val& v) { if (!v.e) return v.c & 1; return decide(v.e); }
  bool feasible(Expr* c) { c = norm(c); if (Pool::isC(c)) return c->c; auto it = st->known.find(c); if (it != st->known.end()) return it->second; if (evalIn(c, *st->model)) return true; Sat r = S.check(st->pc, c, nullptr); if (r == UNKNOWN) fatal("solver gave no answer"); return r == SAT; }
  void assume(Expr* c) {
    c = norm(c);
    if (Pool::isC(c)) { if (!c->c) throw PathEnd{"assume"}; return; }
    auto it = st->known.find(c); if (it != st->known.end()) { if (!it->second) throw PathEnd{"assume"}; return; }
    if (!evalIn(c, *st->model)) { std::vector<std::pair<u32, u128>> nm; Sat r = S.check(st->pc, c, &nm); if (r == UNKNOWN) fatal("solver gave no answer in assume"); if (r == UNSAT) throw PathEnd{"assume"}; st->model = overlay(st->model, nm); }
    addPc(*st, c);
  }
  void assertTrue(Expr* c, const std::string& msg) {
    asserts++; c = norm(c);
    if (Pool::isC(c)) { if (!c->c) vio("assert", msg); return; }
    auto it = st->known.find(c); if (it != st->known.end()) { if (!it->second) vio("assert", msg); return; }
    if (!evalIn(c, *st->model)) vio("assert", msg);
    if (st->pc.size() <= 40) for (int k = 0; k < 4; k++) { // a counterexample at hand saves the solver a search
      auto m = std::make_shared<Model>(*st->model); m->memo.clear(); static u64 x = 0x9E3779B97F4A7C15ull; for (u32 sy : c->ss->v) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; m->v[sy] = x & maskw(P.syms[sy].w); }
      bool ok = true; for (Expr* e : st->pc) if (!evalIn(e, *m)) { ok = false; break; }
      if (ok && !evalIn(c, *m)) { st->model = m; vio("assert", msg); } }
    std::vector<Expr*> parts; if (c->k == K_And) parts.assign(c->ops, c->ops + c->n); else parts.push_back(c);
    for (Expr* p : parts) { assertQueries++; std::vector<std::pair<u32, u128>> nm; double tq = S.time; Sat r = S.check(st->pc, P.bnot(p), &nm); if (prof) { auto& e = profMap[cur ? cur->I : nullptr]; e.n++; e.t += S.time - tq; } if (r == UNKNOWN) fatal("solver gave no answer for assertion: " + msg);
      if (r == SAT) { st->model = overlay(st->model, nm); vio("assert", msg); } learn(*st, p, true); }
  }
  u64 concretize(const Val& v) {
    if (!v.e) return v.c; u64 x = (u64)evalIn(v.e, *st->model);
    if (!decide(P.eq(v.e, P.cst(v.w, x)))) fatal("concretize"); return x;
  }

  // ---------- memory
  MemP* findMem(u64 a) {
    auto& m = st->mem; size_t lo = 0, hi = m.size(); while (lo < hi) { size_t mid = (lo + hi) / 2; if (m[mid]->base <= a) lo = mid + 1; else hi = mid; }
    if (lo == 0) return nullptr; return &m[lo - 1];
  }
  // object containing address a (a may be one past the end)
  MemObj* objAt(u64 a, u64 n, bool write, MemP** slot = nullptr) {
    if (a >= 0x10000000 && a < 0x40000000) { auto it = constMem.upper_bound(a); if (it != constMem.begin()) { --it; MemObj* o = it->second.get(); if (a >= o->base && a - o->base <= o->size && (n == 0 || a - o->base + n <= o->size)) { if (write && n) vio("memory", std::string("write to constant object ") + o->name); return o; } } }
    MemP* p = findMem(a); if (!p) return nullptr; MemObj* o = p->get(); if (a - o->base > o->size || (n && (n > o->size || a - o->base > o->size - n))) return nullptr;
    if (slot) *slot = p; return o;
  }
  std::string describe(u64 a, u64 n) {
    char b[160]; MemObj* o = nullptr; try { MemP* p = findMem(a); if (p) o = p->get(); auto it = constMem.upper_bound(a); if (it != constMem.begin()) { --it; MemObj* c = it->second.get(); if (!o || c->base > o->base) o = c; } } catch (...) {}
    if (a < 4096) snprintf(b, 160, "%llu bytes at null+%llu", (unsigned long long)n, (unsigned long long)a);
    else if (o && a - o->base < o->size + 4096) snprintf(b, 160, "%llu bytes at offset %lld of a %llu-byte %s object %s", (unsigned long long)n, (long long)(a - o->base), (unsigned long long)o->size, o->kind == M_Stack ? "stack" : o->kind == M_Const ? "constant" : o->kind == M_Global ? "global" : "heap", o->name);
    else snprintf(b, 160, "%llu bytes at 0x%llx (no live object: freed or never valid)", (unsigned long long)n, (unsigned long long)a);
    return b;
  }
  u64 allocObj(u64 size, u64 align, MKind k, bool init, const char* name) {
    align = std::max<u64>(16, align); u64 a = (st->next + align - 1) / align * align; auto o = std::make_shared<MemObj>(); o->base = a; o->size = size; o->kind = k; o->name = name; o->data.assign(size, 0); if (!init && size) o->init.assign(size, 0);
    st->next = a + size + 48; st->mem.push_back(o); return a;
  }
  void freeObj(u64 a) { auto& m = st->mem; size_t lo = 0, hi = m.size(); while (lo < hi) { size_t mid = (lo + hi) / 2; if (m[mid]->base <= a) lo = mid + 1; else hi = mid; } if (!lo || m[lo - 1]->base != a) fatal("freeObj"); m.erase(m.begin() + lo - 1); }
  MemObj* writable(MemP* slot) { if (slot->use_count() > 1) *slot = std::make_shared<MemObj>(**slot); return slot->get(); }

  struct Loc { MemObj* o; MemP* slot; u64 off; Expr* sym; };
  Loc resolve(const Val& p, u64 n, bool write) {
    Val q = p;
    if (q.e && q.e->k == K_Ite) { // fork on pointer selection
      while (q.e && q.e->k == K_Ite) q = decide(q.e->ops[0]) ? mk(q.e->ops[1]) : mk(q.e->ops[2]); }
    Loc l{nullptr, nullptr, 0, nullptr};
    if (!q.e) { MemP* s = nullptr; MemObj* o = objAt(q.c, n, write, &s); if (!o) vio("memory", std::string(write ? "invalid write of " : "invalid read of ") + describe(q.c, n)); if (o->dead) vio("memory", "use after scope"); l.o = o; l.slot = s; l.off = q.c - o->base; return l; }
    u64 guess = 0; Expr* e = q.e; MemObj* o = nullptr; MemP* s = nullptr;
    if (e->k == K_Add) for (u32 i = 0; i < e->n; i++) if (Pool::isC(e->ops[i])) { guess = (u64)e->ops[i]->c; o = objAt(guess, 0, write, &s); }
    if (!o || o->size < n) { guess = (u64)evalIn(e, *st->model); o = objAt(guess, n, write, &s); if (!o) vio("memory", std::string(write ? "invalid write of " : "invalid read of ") + describe(guess, n)); }
    Expr* off = P.sub(e, P.cst(64, o->base));
    Expr* inb = o->size < n ? P.fls() : P.cmp(K_Ule, off, P.cst(64, o->size - n));
    if (!decide(inb)) { // outside this object: look where it can point
      u64 v = (u64)evalIn(e, *st->model); MemP* s2 = nullptr; MemObj* o2 = objAt(v, n, write, &s2); if (!o2) { vio("memory", std::string(write ? "invalid write of " : "invalid read of ") + describe(v, n) + " (symbolic address)"); }
      off = P.sub(e, P.cst(64, o2->base)); if (!decide(P.cmp(K_Ule, off, P.cst(64, o2->size - n)))) fatal("address spans more than two objects"); o = o2; s = s2; }
    if (o->dead) vio("memory", "use after scope");
    l.o = o; l.slot = s; 
    auto kn = st->known.end(); (void)kn;
    if (Pool::isC(off)) { l.off = (u64)off->c; return l; }
    l.sym = off; return l;
  }
  Expr* byteAt(MemObj* o, MemP* slot, u64 i) {
    if (!o->sym.empty() && o->sym[i]) return o->sym[i];
    if (!o->init.empty() && !o->init[i]) { Expr* u = P.sym("undef", 8, true); if (slot) { o = writable(slot); } if (o->sym.empty()) o->sym.assign(o->size, nullptr); o->sym[i] = u; o->init[i] = 1; return u; }
    return P.cst(8, o->data[i]);
  }
  Val readAt(MemObj* o, MemP* slot, u64 off, unsigned w) {
    unsigned n = (w + 7) / 8; bool conc = o->sym.empty() && o->init.empty();
    if (!conc) { conc = true; for (unsigned i = 0; i < n && conc; i++) { if (!o->sym.empty() && o->sym[off + i]) conc = false; if (!o->init.empty() && !o->init[off + i]) conc = false; } }
    if (conc && w <= 64) { u64 r = 0; for (unsigned i = 0; i < n; i++) r |= (u64)o->data[off + i] << (8 * i); return cv(w, r); }
    std::vector<Expr*> v; for (int i = n - 1; i >= 0; i--) { v.push_back(byteAt(slot ? slot->get() : o, slot, off + i)); }
    Expr* e = P.concat(v); if (e->w > w) e = P.extract(e, w - 1, 0); return mk(e);
  }
  void writeAt(MemObj* o, u64 off, const Val& v) {
    unsigned n = (v.w + 7) / 8;
    if (!v.e) { for (unsigned i = 0; i < n; i++) { o->data[off + i] = (u8)(i < 8 ? v.c >> (8 * i) : 0); if (!o->sym.empty()) o->sym[off + i] = nullptr; if (!o->init.empty()) o->init[off + i] = 1; } return; }
    if (o->sym.empty()) o->sym.assign(o->size, nullptr);
    Expr* e = v.e; if (e->w % 8) e = P.zext(e, n * 8);
    for (unsigned i = 0; i < n; i++) { Expr* b = P.extract(e, 8 * i + 7, 8 * i); if (Pool::isC(b)) { o->data[off + i] = (u8)b->c; o->sym[off + i] = nullptr; } else o->sym[off + i] = b; if (!o->init.empty()) o->init[off + i] = 1; }
  }
  Expr* mux(MemObj* o, MemP* slot, Expr* off, unsigned w, int bit, u64 prefix, u64 maxOff, unsigned tz) {
    if (prefix > maxOff) return nullptr;
    if (bit < (int)tz) return X(readAt(slot ? slot->get() : o, slot, prefix, w));
    Expr* lo = mux(o, slot, off, w, bit - 1, prefix, maxOff, tz), *hi = mux(o, slot, off, w, bit - 1, prefix | (1ull << bit), maxOff, tz);
    if (!hi) return lo; if (!lo) return hi; return P.ite(P.extract(off, bit, bit), hi, lo);
  }
  Val load(const Val& p, unsigned w) {
    unsigned n = (w + 7) / 8; Loc l = resolve(p, n, false);
    if (!l.sym) return readAt(l.o, l.slot, l.off, w);
    u64 maxOff = l.o->size - n; unsigned tz = 0; while (tz < 12 && ((l.sym->kz >> tz) & 1)) tz++;
    if ((maxOff >> tz) > 70000) fatal("symbolic read from a very large object");
    return mk(mux(l.o, l.slot, l.sym, w, bitlen(maxOff) - 1, 0, maxOff, tz));
  }
  void store(const Val& p, const Val& v) {
    unsigned n = (v.w + 7) / 8; Loc l = resolve(p, n, true); if (!l.slot) fatal("store to constant");
    MemObj* o = writable(l.slot);
    if (!l.sym) { writeAt(o, l.off, v); return; }
    u64 maxOff = o->size - n; unsigned tz = 0; while (tz < 12 && ((l.sym->kz >> tz) & 1)) tz++;
    if ((maxOff >> tz) > 4096) fatal("symbolic write to a large object");
    Expr* e = X(v); if (e->w % 8) e = P.zext(e, n * 8);
    std::vector<Expr*> nb(o->size); std::vector<char> ch(o->size, 0);
    for (u64 i = 0; i <= maxOff; i += 1ull << tz) { Expr* c = P.eq(l.sym, P.cst(64, i)); if (Pool::isC(c, 0)) continue; for (unsigned k = 0; k < n; k++) { Expr* old = ch[i + k] ? nb[i + k] : byteAt(l.slot->get(), l.slot, i + k); nb[i + k] = P.ite(c, P.extract(e, 8 * k + 7, 8 * k), old); ch[i + k] = 1; } }
    o = l.slot->get(); for (u64 i = 0; i < o->size; i++) if (ch[i]) writeAt(o, i, mk(nb[i]));
  }
  void copyBytes(u64 d, u64 s, u64 n) {
    if (!n) return; MemP *ds = nullptr, *ss = nullptr; Loc ls = resolve(cv(64, s), n, false); Loc ld = resolve(cv(64, d), n, true); (void)ds; (void)ss;
    MemObj* so = ls.o; MemObj keep; std::vector<u8> data(so->data.begin() + ls.off, so->data.begin() + ls.off + n); std::vector<Expr*> sy; std::vector<u8> in;
    if (!so->sym.empty()) sy.assign(so->sym.begin() + ls.off, so->sym.begin() + ls.off + n); if (!so->init.empty()) in.assign(so->init.begin() + ls.off, so->init.begin() + ls.off + n);
    MemObj* o = writable(ld.slot);
    memcpy(&o->data[ld.off], data.data(), n);
    if (!sy.empty() || !o->sym.empty()) { if (o->sym.empty()) o->sym.assign(o->size, nullptr); for (u64 i = 0; i < n; i++) o->sym[ld.off + i] = sy.empty() ? nullptr : sy[i]; }
    if (!in.empty() || !o->init.empty()) { if (o->init.empty()) o->init.assign(o->size, 1); for (u64 i = 0; i < n; i++) o->init[ld.off + i] = in.empty() ? 1 : in[i]; }
  }

  // ---------- scalar operations
  Val binop(unsigned op, const Val& a, const Val& b) {
    unsigned w = a.w;
    if (!a.e && !b.e && w <= 64) { u64 x = a.c, y = b.c; i64 sx = (i64)sext128(x, w), sy = (i64)sext128(y, w);
      switch (op) {
      case Instruction::Add: return cv(w, x + y); case Instruction::Sub: return cv(w, x - y); case Instruction::Mul: return cv(w, x * y);
      case Instruction::UDiv: if (!y) vio("ub", "division by zero"); return cv(w, x / y);
      case Instruction::URem: if (!y) vio("ub", "division by zero"); return cv(w, x % y);
      case Instruction::SDiv: if (!y) vio("ub", "division by zero"); if (sy == -1) return cv(w, 0 - x); return cv(w, sx / sy);
      case Instruction::SRem: if (!y) vio("ub", "division by zero"); if (sy == -1) return cv(w, 0); return cv(w, sx % sy);
      case Instruction::And: return cv(w, x & y); case Instruction::Or: return cv(w, x | y); case Instruction::Xor: return cv(w, x ^ y);
      case Instruction::Shl: return cv(w, y >= w ? 0 : x << y); case Instruction::LShr: return cv(w, y >= w ? 0 : x >> y); case Instruction::AShr: return cv(w, (u64)(sx >> (y >= w ? w - 1 : y)));
      case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: return fpop(op, w, x, y);
      } }
    Expr *x = X(a), *y = X(b);
    switch (op) {
    case Instruction::Add: return mk(P.add(x, y)); case Instruction::Sub: return mk(P.sub(x, y)); case Instruction::Mul: return mk(P.mul(x, y));
    case Instruction::UDiv: divCheck(y); return mk(P.div(K_UDiv, x, y)); case Instruction::URem: divCheck(y); return mk(P.div(K_URem, x, y));
    case Instruction::SDiv: divCheck(y); return mk(P.div(K_SDiv, x, y)); case Instruction::SRem: divCheck(y); return mk(P.div(K_SRem, x, y));
    case Instruction::And: return mk(P.band(x, y)); case Instruction::Or: return mk(P.bor(x, y)); case Instruction::Xor: return mk(P.bxor(x, y));
    case Instruction::Shl: return mk(P.shl(x, y)); case Instruction::LShr: return mk(P.lshr(x, y)); case Instruction::AShr: return mk(P.ashr(x, y));
    default: fatal(std::string("symbolic operation ") + Instruction::getOpcodeName(op)); }
  }
  void divCheck(Expr* y) { if (Pool::isC(y)) { if (!y->c) vio("ub", "division by zero"); return; } if (decide(P.eq(y, P.cst(y->w, 0)))) vio("ub", "division by zero"); }
  Val fpop(unsigned op, unsigned w, u64 x, u64 y) {
    auto f = [&](auto a, auto b) { switch (op) { case Instruction::FAdd: return a + b; case Instruction::FSub: return a - b; case Instruction::FMul: return a * b; default: return a / b; } };
    if (w == 32) { float a, b; u32 xx = x, yy = y; memcpy(&a, &xx, 4); memcpy(&b, &yy, 4); float r = f(a, b); u32 u; memcpy(&u, &r, 4); return cv(32, u); }
    if (w == 64) { double a, b; memcpy(&a, &x, 8); memcpy(&b, &y, 8); double r = f(a, b); u64 u; memcpy(&u, &r, 8); return cv(64, u); }
    fatal("fp width");
  }
  Val icmp(unsigned pred, const Val& a, const Val& b) {
    unsigned w = a.w;
    if (!a.e && !b.e) { u64 x = a.c, y = b.c; i64 sx = (i64)sext128(x, w), sy = (i64)sext128(y, w); bool r;
      switch (pred) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break; case CmpInst::ICMP_SGT: r = sx > sy; break; case CmpInst::ICMP_SGE: r = sx >= sy; break; case CmpInst::ICMP_SLT: r = sx < sy; break; case CmpInst::ICMP_SLE: r = sx <= sy; break; default: fatal("icmp"); }
      return cv(1, r); }
    Expr *x = X(a), *y = X(b);
    switch (pred) { case CmpInst::ICMP_EQ: return mk(P.eq(x, y)); case CmpInst::ICMP_NE: return mk(P.bnot(P.eq(x, y))); case CmpInst::ICMP_UGT: return mk(P.cmp(K_Ult, y, x)); case CmpInst::ICMP_UGE: return mk(P.cmp(K_Ule, y, x)); case CmpInst::ICMP_ULT: return mk(P.cmp(K_Ult, x, y)); case CmpInst::ICMP_ULE: return mk(P.cmp(K_Ule, x, y)); case CmpInst::ICMP_SGT: return mk(P.cmp(K_Slt, y, x)); case CmpInst::ICMP_SGE: return mk(P.cmp(K_Sle, y, x)); case CmpInst::ICMP_SLT: return mk(P.cmp(K_Slt, x, y)); case CmpInst::ICMP_SLE: return mk(P.cmp(K_Sle, x, y)); default: fatal("icmp"); }
  }
  Val fcmp(unsigned pred, const Val& a, const Val& b) {
    if (a.e || b.e) fatal("symbolic fcmp"); double x, y; if (a.w == 32) { float f; u32 u = a.c; memcpy(&f, &u, 4); x = f; u = b.c; memcpy(&f, &u, 4); y = f; } else { memcpy(&x, &a.c, 8); memcpy(&y, &b.c, 8); }
    bool un = x != x || y != y, r; switch (pred) { case CmpInst::FCMP_OEQ: r = !un && x == y; break; case CmpInst::FCMP_OGT: r = x > y; break; case CmpInst::FCMP_OGE: r = x >= y; break; case CmpInst::FCMP_OLT: r = x < y; break; case CmpInst::FCMP_OLE: r = x <= y; break; case CmpInst::FCMP_ONE: r = !un && x != y; break; case CmpInst::FCMP_ORD: r = !un; break; case CmpInst::FCMP_UNO: r = un; break; case CmpInst::FCMP_UEQ: r = un || x == y; break; case CmpInst::FCMP_UGT: r = un || x > y; break; case CmpInst::FCMP_UGE: r = un || x >= y; break; case CmpInst::FCMP_ULT: r = un || x < y; break; case CmpInst::FCMP_ULE: r = un || x <= y; break; case CmpInst::FCMP_UNE: r = un || x != y; break; case CmpInst::FCMP_TRUE: r = true; break; default: r = false; }
    return cv(1, r);
  }
  static double toD(const Val& v) { if (v.w == 32) { float f; u32 u = v.c; memcpy(&f, &u, 4); return f; } double d; memcpy(&d, &v.c, 8); return d; }
  static Val fromD(unsigned w, double d) { if (w == 32) { float f = d; u32 u; memcpy(&u, &f, 4); return cv(32, u); } u64 u; memcpy(&u, &d, 8); return cv(64, u); }
  Val castop(unsigned op, const Val& a, unsigned w) {
    switch (op) {
    case Instruction::BitCast: case Instruction::AddrSpaceCast: return a;
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: case Instruction::ZExt:
      if (w == a.w) return a; if (!a.e && w <= 64) return cv(w, a.c); return w < a.w ? mk(P.trunc(X(a), w)) : mk(P.zext(X(a), w));
    case Instruction::SExt: if (!a.e && w <= 64) return cv(w, (u64)sext128(a.c, a.w)); return mk(P.sext(X(a), w));
    case Instruction::FPExt: case Instruction::FPTrunc: if (a.e) fatal("symbolic fp"); return fromD(w, toD(a));
    case Instruction::FPToUI: case Instruction::FPToSI: if (a.e) fatal("symbolic fp"); return op == Instruction::FPToUI ? cv(w, (u64)toD(a)) : cv(w, (u64)(i64)toD(a));
    case Instruction::UIToFP: if (a.e) fatal("symbolic int to fp"); return fromD(w, (double)a.c);
    case Instruction::SIToFP: if (a.e) fatal("symbolic int to fp"); return fromD(w, (double)(i64)sext128(a.c, a.w));
    default: fatal("cast"); }
  }

  // ---------- frames
  Frame& top() { FrameP& f = st->fr.back(); if (f.use_count() > 1) f = std::make_shared<Frame>(*f); return *f; }
  Val get(Frame& f, const Opnd& o, unsigned k = 0) { if (o.reg >= 0) return f.regs[o.reg + k]; if (o.agg) return (*o.agg)[k]; return o.c; }
  void set(Frame& f, int dst, const Val& v) { f.regs[dst] = v; }
  void pushFrame(CFunc* cf, const std::vector<Val>& args) {
    if (cf->F->isDeclaration()) fatal("call to undefined function " + cf->name); compile(cf); cf->executed = true;
    if (st->fr.size() >= maxDepth) vio("stack", "call depth exceeds " + std::to_string(maxDepth));
    auto f = std::make_shared<Frame>(); f->f = cf; f->regs.resize(cf->nregs); size_t k = 0; for (auto& a : cf->args) for (unsigned i = 0; i < a.second; i++) { if (k >= args.size()) fatal("too few arguments for " + cf->name); f->regs[a.first + i] = args[k++]; }
    st->fr.push_back(f);
  }
  void jump(Frame& f, int to) {
    f.prev = f.bb; f.bb = to; CBlock& b = f.f->bb[to];
    if (b.firstNonPhi) { std::vector<std::pair<int, Val>> nv; for (unsigned i = 0; i < b.firstNonPhi; i++) { CInst& c = b.in[i]; c.hit = true; bool ok = false; for (auto& k : c.cases) if (k.first == f.prev) { for (unsigned s = 0; s < c.ndst; s++) nv.push_back({c.dst + (int)s, get(f, c.ops[k.second], s)}); ok = true; break; } if (!ok) fatal("phi"); }
      for (auto& p : nv) f.regs[p.first] = p.second; }
    f.ip = b.firstNonPhi;
  }
  // ---------- merging the two sides of a branch that keeps forking
  // A branch that has forked `mergeAfter` times is executed as a region instead: the blocks between it and the one block where all its
  // sides meet again are executed once, each under its guard, and the values that meet become if-then-else terms. Only side-effect-free
  // instructions and stores to known addresses take part; anything else abandons the attempt, and the branch forks as before.
  struct MergeAbort {}; bool inMerge = false; unsigned mergeAfter = 8; u64 nMerges = 0;
  using Edges = std::vector<std::pair<int, Expr*>>;
  void flow(CFunc* cf) {
    size_t n = cf->bb.size(); cf->rpo.assign(n, -1); cf->alive.assign(n, 0); std::vector<std::vector<int>> pred(n), succ(n); std::vector<int> todo;
    for (size_t b = 0; b < n; b++) { CInst& t = cf->bb[b].in.back(); auto add = [&](int x) { if (x >= 0) { succ[b].push_back(x); pred[x].push_back(b); } };
      if (t.op == Instruction::Br) { add(t.t0); if (!t.ops.empty()) add(t.t1); } else if (t.op == Instruction::Switch) { add(t.t0); for (auto& k : t.cases) add(k.second); } else if (t.op == Instruction::Invoke) { add(t.t0); add(t.t1); }
      else if (t.op == Instruction::Ret || t.op == Instruction::Resume) { cf->alive[b] = 1; todo.push_back(b); } }
    while (!todo.empty()) { int b = todo.back(); todo.pop_back(); for (int p : pred[b]) if (!cf->alive[p]) { cf->alive[p] = 1; todo.push_back(p); } }
    std::vector<std::pair<int, size_t>> stk{{0, 0}}; std::vector<char> seen(n, 0); seen[0] = 1; int num = (int)n;
    while (!stk.empty()) { auto& t = stk.back(); if (t.second < succ[t.first].size()) { int x = succ[t.first][t.second++]; if (!seen[x]) { seen[x] = 1; stk.push_back({x, 0}); } } else { cf->rpo[t.first] = --num; stk.pop_back(); } }
  }
  void mergeEdges(Frame& f, CInst& t, int from, Expr* g, std::map<int, Edges>& pend) {
    auto add = [&](int to, Expr* c) { c = norm(c); if (Pool::isC(c, 0)) return; auto& v = pend[to]; if (!v.empty() && v.back().first == from) v.back().second = P.bor(v.back().second, c); else v.push_back({from, c}); };
    if (t.op == Instruction::Br) { if (t.ops.empty()) { add(t.t0, g); return; } Val v = get(f, t.ops[0]); if (!v.e) { add(v.c & 1 ? t.t0 : t.t1, g); return; } if (hasUndef(v.e)) throw MergeAbort{}; add(t.t0, P.band(g, v.e)); add(t.t1, P.band(g, P.bnot(v.e))); return; }
    Val v = get(f, t.ops[0]); if (v.e && hasUndef(v.e)) throw MergeAbort{}; Expr* x = X(v); std::vector<std::pair<int, Expr*>> by; Expr* none = P.tru();
    for (auto& k : t.cases) { Expr* e = P.eq(x, P.cst(v.w, k.first)); none = P.band(none, P.bnot(e)); bool fnd = false; for (auto& b : by) if (b.first == (int)k.second) { b.second = P.bor(b.second, e); fnd = true; } if (!fnd) by.push_back({(int)k.second, e}); }
    for (auto& b : by) add(b.first, P.band(g, b.second)); add(t.t0, P.band(g, none));
  }
  static bool sameVal(const Val& a, const Val& b) { return a.w == b.w && a.e == b.e && (a.e || a.c == b.c); }
  void mergePhis(Frame& f, int to, const Edges& es) {
    CBlock& b = f.f->bb[to]; std::vector<std::pair<int, Val>> nv;
    for (unsigned i = 0; i < b.firstNonPhi; i++) { CInst& c = b.in[i]; c.hit = true;
      for (unsigned s = 0; s < c.ndst; s++) { Val r; bool first = true;
        for (size_t q = es.size(); q-- > 0;) { Val v; bool ok = false; for (auto& k : c.cases) if ((int)k.first == es[q].first) { v = get(f, c.ops[k.second], s); ok = true; break; } if (!ok) throw MergeAbort{};
          if (first) { r = v; first = false; continue; } if (sameVal(r, v)) continue; Type* T = c.I->getType(); if (!T->isIntegerTy() || r.w != v.w) throw MergeAbort{};
          r = mk(P.ite(es[q].second, X(v), X(r))); }
        nv.push_back({c.dst + (int)s, r}); } }
    for (auto& p : nv) f.regs[p.first] = p.second;
  }
  static bool mergeable(const CInst& c) {
    switch (c.op) {
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
    case Instruction::ICmp: case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::Freeze: case Instruction::Select: case Instruction::GetElementPtr: case Instruction::Load: case Instruction::Store: case Instruction::ExtractValue: case Instruction::InsertValue: case Instruction::PtrToInt: return true;
    case Instruction::Call: switch (c.iid) { case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: case Intrinsic::abs: case Intrinsic::fshl: case Intrinsic::fshr: case Intrinsic::bswap: case Intrinsic::expect: case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::usub_sat: case Intrinsic::uadd_sat: return true; default: return false; }
    default: return false; }
  }
  bool tryMerge(CInst& ci) {
    Val cv0 = get(top(), ci.ops[0]); if (!cv0.e || hasUndef(cv0.e)) return false; Expr* c = cv0.e;
    if (ci.op == Instruction::Br) { c = norm(c); if (Pool::isC(c) || st->known.count(c)) return false; bool b = evalIn(c, *st->model); Sat r = S.check(st->pc, b ? P.bnot(c) : c, nullptr); if (r != SAT) return false; }
    Frame& f = top(); CFunc* cf = f.f; if (cf->rpo.empty()) flow(cf); int B = f.bb; unsigned ip0 = f.ip, prev0 = f.prev; auto snap = st->mem; CInst* cur0 = cur;
    auto undo = [&] { inMerge = false; st->mem = snap; f.bb = B; f.ip = ip0; f.prev = prev0; cur = cur0; ci.mfail++; return false; };
    try {
      inMerge = true; std::map<int, Edges> pend; std::set<int> seen{B}; int n = 0, base = cf->rpo[B]; mergeEdges(f, ci, B, P.tru(), pend);
      for (;;) {
        if (pend.empty()) throw MergeAbort{};
        if (pend.size() == 1) { int J = pend.begin()->first; if (!cf->alive[J] || (seen.count(J) && J != B)) throw MergeAbort{}; mergePhis(f, J, pend.begin()->second); f.prev = B; f.bb = J; f.ip = cf->bb[J].firstNonPhi; inMerge = false; cur = cur0; nMerges++; return true; }
        int Xb = -1; for (auto& p : pend) if (cf->rpo[p.first] > base && (Xb < 0 || cf->rpo[p.first] < cf->rpo[Xb])) Xb = p.first;
        if (Xb < 0 || seen.count(Xb) || ++n > 48) throw MergeAbort{};
        Edges es = pend[Xb]; Expr* g = P.fls(); for (auto& e : es) g = P.bor(g, e.second);
        if (!cf->alive[Xb]) { if (feasible(g)) throw MergeAbort{}; learn(*st, norm(g), false); pend.erase(Xb); continue; }
        pend.erase(Xb); seen.insert(Xb); mergePhis(f, Xb, es); f.bb = Xb; f.ip = cf->bb[Xb].firstNonPhi;
        for (;;) { CInst& d = cf->bb[Xb].in[f.ip]; cur = &d;
          if (d.op == Instruction::Br || d.op == Instruction::Switch) { d.hit = true; mergeEdges(f, d, Xb, g, pend); for (auto& p : pend) if (seen.count(p.first) && p.first != B) throw MergeAbort{}; break; }
          if (!mergeable(d)) throw MergeAbort{};
          if (d.op == Instruction::Store) { d.hit = true; Val p = get(f, d.ops[0]); if (p.e) throw MergeAbort{}; bool ints = cast<StoreInst>(d.I)->getValueOperand()->getType()->isIntegerTy();
            for (unsigned k = 0; k < d.offs.size(); k++) { Val q = binop(Instruction::Add, p, cv(64, d.offs[k])), v = get(f, d.ops[1], k), old = load(q, v.w); if (sameVal(old, v)) continue; if (!ints) throw MergeAbort{}; store(q, mk(P.ite(g, X(v), X(old)))); } f.ip++; continue; }
          step(); }
      }
    } catch (MergeAbort&) { return undo(); } catch (Violation&) { return undo(); } catch (EngineError&) { return undo(); }
  }
  void releaseAllocas(Frame& f) { for (u64 a : f.allocas) freeObj(a); f.allocas.clear(); }
  void doRet(const std::vector<Val>& rv) {
    Frame& f = top(); releaseAllocas(f); u64 fr = f.freeOnRet; bool entry = f.isEntry; st->fr.pop_back();
    if (fr) { st->exc.erase(fr); freeObj(fr); }
    if (entry || st->fr.empty()) { if (st->fr.empty()) throw PathEnd{"done"}; return; }
    Frame& c = top(); CInst& ci = c.f->bb[c.bb].in[c.ip]; finishCall(c, ci, rv);
  }
  void finishCall(Frame& c, CInst& ci, const std::vector<Val>& rv) {
    for (unsigned i = 0; i < ci.ndst && i < rv.size(); i++) c.regs[ci.dst + i] = rv[i];
    if (ci.op == Instruction::Invoke) jump(c, ci.t0); else c.ip++;
  }
  // ---------- exceptions
  u64 rd64(u64 a) { return concretize(load(cv(64, a), 64)); }
  std::string tiName(u64 ti) { auto it = gName.find(ti); return it == gName.end() ? "?" : it->second; }
  bool tiMatch(u64 thrown, u64 want) {
    if (thrown == want) return true; if (!thrown) return false;
    std::string n = tiName(thrown), wn = tiName(want); if (n == wn) return true;
    static const std::map<std::string, std::string> par = {{"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt12system_error", "_ZTISt13runtime_error"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}};
    auto it = par.find(n); if (it != par.end()) { for (std::string q = it->second;;) { if (q == wn) return true; auto k = par.find(q); if (k == par.end()) break; q = k->second; } auto g = gByName.find(it->second); (void)g; return false; }
    auto gi = gByName.find(n); if (gi == gByName.end()) return false; MemObj* o = objAt(thrown, 8, false); if (!o || o->size < 16) return false;
    u64 vt = rd64(thrown); std::string vn = tiName(vt - 16);
    if (vn.find("__si_class_type_info") != std::string::npos) { return tiMatch(rd64(thrown + 16), want); }
    if (vn.find("__vmi_class_type_info") != std::string::npos) { u64 cnt = rd64(thrown + 16) >> 32; for (u64 i = 0; i < cnt; i++) if (tiMatch(rd64(thrown + 24 + 16 * i), want)) return true; }
    return false;
  }
  u32 typeId(u64 ti) { auto it = typeIds.find(ti); if (it != typeIds.end()) return it->second; u32 id = typeIds.size() + 1; return typeIds[ti] = id; }
  void unwind(u64 obj) {
    u64 ti = st->exc[obj].tinfo;
    bool first = true;
    while (!st->fr.empty()) {
      Frame& f = top(); CInst& ci = f.f->bb[f.bb].in[f.ip];
      if (ci.op == Instruction::Invoke && ci.t1 >= 0) {
        CBlock& lb = f.f->bb[ci.t1]; LandingPadInst* lp = nullptr; for (auto& x : lb.in) if (x.op == Instruction::LandingPad) lp = cast<LandingPadInst>(x.I);
        if (!lp) fatal("no landingpad");
        bool enter = lp->isCleanup(); u32 sel = 0;
        for (unsigned i = 0; i < lp->getNumClauses(); i++) { if (lp->isCatch(i)) { Val t = cval(lp->getClause(i)); if (t.c == 0 || tiMatch(ti, t.c)) { enter = true; sel = typeId(t.c); break; } }
          else { auto* arr = lp->getClause(i); std::vector<Val> fl; if (!isa<ConstantAggregateZero>(arr) || cast<ArrayType>(arr->getType())->getNumElements()) constVals(arr, fl); bool ok = false; for (auto& v : fl) if (tiMatch(ti, v.c)) ok = true; if (!ok) { enter = true; sel = (u32)-1; break; } } }
        if (enter) { st->landObj = obj; st->landSel = sel; jump(f, ci.t1); return; } }
      (void)first; first = false;
      if (f.isEntry) break; releaseAllocas(f); st->fr.pop_back();
    }
    vio("terminate", "uncaught exception of type " + tiName(ti));
  }
  // ---------- misc
  std::string cstr(u64 a) { std::string s; for (;;) { Val v = load(cv(64, a++), 8); if (v.e) { s += '?'; if (s.size() > 200) break; continue; } if (!v.c) break; s += (char)v.c; if (s.size() > 4096) break; } return s; }
  std::vector<std::pair<std::string, std::string>> modelInputs(State& s) {
    std::vector<std::pair<std::string, std::string>> r; static const char* hx = "0123456789abcdef";
    for (auto& in : s.inputs) { std::string h; for (Expr* e : in.e) { u128 v = evalIn(e, *s.model); unsigned n = (e->w + 7) / 8; for (unsigned i = 0; i < n; i++) { u8 b = v >> (8 * i); h += hx[b >> 4]; h += hx[b & 15]; } } r.push_back({in.name, h}); }
    return r;
  }
  std::string locOf(Instruction* I) { if (!I) return "?"; if (auto& d = I->getDebugLoc()) { std::string s = (d->getFilename() + ":" + std::to_string(d.getLine())).str(); for (auto* ia = d.getInlinedAt(); ia; ia = ia->getInlinedAt()) { s += " < " + (ia->getFilename() + ":" + std::to_string(ia->getLine())).str(); if (s.size() > 600) break; } return s; } return "?"; }
  std::string stackOf() { std::string s; for (size_t i = st->fr.size(); i-- > 0 && s.size() < 2000;) { Frame& f = *st->fr[i]; if (f.f && f.bb < f.f->bb.size() && f.ip < f.f->bb[f.bb].in.size()) s += f.f->name.substr(0, 120) + "@" + locOf(f.f->bb[f.bb].in[f.ip].I) + "\n"; } return s; }

  bool builtin(Frame& f, CInst& ci, const std::string& n, std::vector<Val>& a, std::vector<Val>& rv);
  bool intrinsic(Frame& f, CInst& ci, std::vector<Val>& rv);
  void step();
  void runState();
  void run(const std::string& entry);
  void dump(const std::string& path, const std::string& entry);
};

static const u64 TAG = 0;

bool Engine::intrinsic(Frame& f, CInst& ci, std::vector<Val>& rv) {
  auto A = [&](unsigned i) { return get(f, ci.ops[i]); };
  switch (ci.iid) {
  case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: { Val p = A(1); if (p.e) return true; MemP* s; MemObj* o = objAt(p.c, 0, false, &s); if (o && o->kind == M_Stack && o->base == p.c) { o = writable(s); if (ci.iid == Intrinsic::lifetime_start) { o->dead = false; o->init.assign(o->size, 0); o->sym.clear(); } else o->dead = true; } return true; }
  case Intrinsic::assume: { Val c = A(0); if (c.e || c.c) return true; return true; }
  case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: case Intrinsic::ptr_annotation: case Intrinsic::ssa_copy: rv.push_back(A(0)); return true;
  case Intrinsic::is_constant: rv.push_back(cv(1, 0)); return true;
  case Intrinsic::objectsize: rv.push_back(cv(ci.dw[0], A(1).c & 1 ? 0 : ~0ull)); return true;
  case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { u64 n = concretize(A(2)); if (!n) return true; u64 d, s; Val dv = A(0), sv = A(1);
    if (dv.e || sv.e) { // symbolic pointers: go bytewise when small
      if (n <= 16) { std::vector<Val> t; for (u64 i = 0; i < n; i++) t.push_back(load(binop(Instruction::Add, sv, cv(64, i)), 8)); Val d0 = dv; for (u64 i = 0; i < n; i++) resolve(binop(Instruction::Add, d0, cv(64, i)), 1, true); for (u64 i = 0; i < n; i++) store(binop(Instruction::Add, dv, cv(64, i)), t[i]); return true; }
      d = concretize(dv); s = concretize(sv); } else { d = dv.c; s = sv.c; }
    copyBytes(d, s, n); return true; }
  case Intrinsic::memset: case Intrinsic::memset_inline: { u64 n = concretize(A(2)); if (!n) return true; u64 d = concretize(A(0)); Loc l = resolve(cv(64, d), n, true); MemObj* o = writable(l.slot); Val b = A(1); for (u64 i = 0; i < n; i++) writeAt(o, l.off + i, b); return true; }
  case Intrinsic::trap: vio("ub", "trap reached"); case Intrinsic::debugtrap: vio("ub", "trap reached");
  case Intrinsic::ubsantrap: { static const char* nm[] = {"signed addition overflow", "unreachable code reached", "cfi", "division by zero", "dynamic type", "float cast overflow", "function type", "implicit conversion", "invalid builtin argument", "objc cast", "load of invalid value", "missing return", "signed multiplication overflow", "negation overflow", "null argument", "null return", "nonnull argument", "nonnull return", "array index out of bounds", "pointer overflow", "shift exponent out of range", "signed subtraction overflow", "null or misaligned access", "alignment", "vla bound"}; u64 k = A(0).c; vio("ub", k < 25 ? nm[k] : "ubsan"); }
  case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin: { Val x = A(0), y = A(1); unsigned p = ci.iid == Intrinsic::umax ? CmpInst::ICMP_UGE : ci.iid == Intrinsic::umin ? CmpInst::ICMP_ULE : ci.iid == Intrinsic::smax ? CmpInst::ICMP_SGE : CmpInst::ICMP_SLE; Val c = icmp(p, x, y); if (!c.e) rv.push_back(c.c ? x : y); else rv.push_back(mk(P.ite(c.e, X(x), X(y)))); return true; }
  case Intrinsic::abs: { Val x = A(0); Val c = icmp(CmpInst::ICMP_SLT, x, cv(x.w, 0)); Val ng = binop(Instruction::Sub, cv(x.w, 0), x); if (!c.e) rv.push_back(c.c ? ng : x); else rv.push_back(mk(P.ite(c.e, X(ng), X(x)))); return true; }
  case Intrinsic::fshl: case Intrinsic::fshr: { Val hi = A(0), lo = A(1); Val s = A(2); unsigned w = hi.w; if (s.e) { u64 v = concretize(s); s = cv(w, v); } u64 k = s.c % w; if (ci.iid == Intrinsic::fshr) k = (w - k) % w, (void)0; if (ci.iid == Intrinsic::fshr && s.c % w == 0) { rv.push_back(lo); return true; } if (k == 0) { rv.push_back(hi); return true; }
    Expr* e = P.concat({P.extract(X(hi), w - 1 - k, 0), P.extract(X(lo), w - 1, w - k)}); rv.push_back(mk(e)); return true; }
  case Intrinsic::bswap: { Val x = A(0); std::vector<Expr*> v; for (unsigned i = 0; i < x.w / 8; i++) v.push_back(P.extract(X(x), 8 * i + 7, 8 * i)); rv.push_back(mk(P.concat(v))); return true; }
  case Intrinsic::bitreverse: { Val x = A(0); std::vector<Expr*> v; for (unsigned i = 0; i < x.w; i++) v.push_back(P.extract(X(x), i, i)); rv.push_back(mk(P.concat(v))); return true; }
  case Intrinsic::ctpop: { Val x = A(0); Expr* r = P.cst(x.w, 0); for (unsigned i = 0; i < x.w; i++) r = P.add(r, P.zext(P.extract(X(x), i, i), x.w)); rv.push_back(mk(r)); return true; }
  case Intrinsic::ctlz: case Intrinsic::cttz: { Val x = A(0); Expr* r = P.cst(x.w, x.w); if (ci.iid == Intrinsic::ctlz) for (unsigned i = 0; i < x.w; i++) r = P.ite(P.extract(X(x), i, i), P.cst(x.w, x.w - 1 - i), r); else for (int i = x.w - 1; i >= 0; i--) r = P.ite(P.extract(X(x), i, i), P.cst(x.w, i), r); rv.push_back(mk(r)); return true; }
  case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: {
    Val x = A(0), y = A(1); unsigned w = x.w; bool sg = ci.iid == Intrinsic::sadd_with_overflow || ci.iid == Intrinsic::ssub_with_overflow || ci.iid == Intrinsic::smul_with_overflow;
    unsigned op = ci.iid == Intrinsic::sadd_with_overflow || ci.iid == Intrinsic::uadd_with_overflow ? Instruction::Add : ci.iid == Intrinsic::ssub_with_overflow || ci.iid == Intrinsic::usub_with_overflow ? Instruction::Sub : Instruction::Mul;
    if (!x.e && !y.e && w <= 64) { i128 r; bool ov; if (sg) { i128 p = sext128(x.c, w), q = sext128(y.c, w); r = op == Instruction::Add ? p + q : op == Instruction::Sub ? p - q : p * q; ov = r != sext128((u128)r, w); } else { u128 p = x.c, q = y.c; u128 t = op == Instruction::Add ? p + q : op == Instruction::Sub ? p - q : p * q; ov = t != (t & maskw(w)); r = (i128)t; } rv.push_back(cv(w, (u64)r)); rv.push_back(cv(1, ov)); return true; }
    Val r = binop(op, x, y); unsigned W = op == Instruction::Mul ? 2 * w : w + 1; if (W > 128) fatal("overflow arithmetic too wide");
    Expr *ex = sg ? P.sext(X(x), W) : P.zext(X(x), W), *ey = sg ? P.sext(X(y), W) : P.zext(X(y), W); Expr* er = op == Instruction::Add ? P.add(ex, ey) : op == Instruction::Sub ? P.sub(ex, ey) : P.mul(ex, ey);
    Expr* ov = !sg && op == Instruction::Sub ? P.cmp(K_Ult, X(x), X(y)) : P.bnot(P.eq(er, sg ? P.sext(X(r), W) : P.zext(X(r), W)));
    rv.push_back(r); rv.push_back(mk(ov)); return true; }
  case Intrinsic::uadd_sat: case Intrinsic::usub_sat: { Val x = A(0), y = A(1); if (ci.iid == Intrinsic::usub_sat) { Val c = icmp(CmpInst::ICMP_ULT, x, y); Val d = binop(Instruction::Sub, x, y); rv.push_back(c.e ? mk(P.ite(c.e, P.cst(x.w, 0), X(d))) : c.c ? cv(x.w, 0) : d); } else { Val d = binop(Instruction::Add, x, y); Val c = icmp(CmpInst::ICMP_ULT, d, x); rv.push_back(c.e ? mk(P.ite(c.e, P.cst(x.w, ~(u128)0), X(d))) : c.c ? cv128(x.w, maskw(x.w)) : d); } return true; }
  case Intrinsic::eh_typeid_for: rv.push_back(cv(32, typeId(A(0).c))); return true;
  case Intrinsic::stacksave: rv.push_back(cv(64, 0x1000)); return true;
  case Intrinsic::stackrestore: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::donothing: case Intrinsic::sideeffect: if (ci.ndst) rv.push_back(cv(64, 0)); return true;
  default: break;
  }
  return false;
}

bool Engine::builtin(Frame& f, CInst& ci, const std::string& n, std::vector<Val>& a, std::vector<Val>& rv) {
  auto ret = [&](Val v) { rv.push_back(v); return true; };
  if (n.compare(0, 3, "nb_") == 0) {
    if (n == "nb_make_symbolic") { u64 p = concretize(a[0]), sz = concretize(a[1]); std::string nm = cstr(concretize(a[2])); InputRec in{nm, {}}; if (sz) { Loc l = resolve(cv(64, p), sz, true); MemObj* o = writable(l.slot); for (u64 i = 0; i < sz; i++) { Expr* s = P.sym(nm + "[" + std::to_string(i) + "]", 8); in.e.push_back(s); writeAt(o, l.off + i, mk(s)); } } st->inputs.push_back(in); return true; }
    if (n == "nb_bits") { unsigned w = concretize(a[0]); std::string nm = cstr(concretize(a[1])); Expr* s = P.sym(nm, w); InputRec in{nm, {P.zext(s, 64)}}; st->inputs.push_back(in); return ret(mk(P.zext(s, 64))); }
    if (n == "nb_choose") { u64 k = concretize(a[0]); std::string nm = cstr(concretize(a[1])); if (k == 0) throw PathEnd{"assume"}; unsigned w = std::max(1, bitlen(k - 1)); 
      // fork explicitly into k states
      Expr* s = P.sym(nm, w); st->inputs.push_back({nm, {P.zext(s, 64)}});
      for (u64 i = k; i-- > 1;) { auto ns = std::make_unique<State>(*st); nForks++; nStates++; ns->model = overlay(st->model, {{s->lo, (u128)i}}); addPc(*ns, P.eq(s, P.cst(w, i))); Frame* nf; { FrameP& fp = ns->fr.back(); fp = std::make_shared<Frame>(*fp); nf = fp.get(); } State* keep = st; st = ns.get(); finishCall(*nf, ci, {cv(64, i)}); st = keep; work.push_back(std::move(ns)); }
      addPc(*st, P.eq(s, P.cst(w, 0))); return ret(cv(64, 0)); }
    if (n == "nb_assume") { Val c = a[0]; Expr* e = c.e ? P.bnot(P.eq(c.e, P.cst(c.w, 0))) : (c.c ? P.tru() : P.fls()); assume(e); return true; }
    if (n == "nb_assert") { Val c = a[0]; Expr* e = c.e ? P.bnot(P.eq(c.e, P.cst(c.w, 0))) : (c.c ? P.tru() : P.fls()); std::string m = cstr(concretize(a[1])); assertTrue(e, m); return true; }
    if (n == "nb_fail") { vio("assert", cstr(concretize(a[0]))); }
    if (n == "nb_cover") { std::string m = cstr(concretize(a[0])); st->covers.push_back(m); return true; }
    if (n == "nb_observe") { ObsRec o{cstr(concretize(a[0])), {a[1]}}; st->obs.push_back(o); return true; }
    if (n == "nb_observe_mem") { std::string nm = cstr(concretize(a[0])); u64 p = concretize(a[1]), k = concretize(a[2]); ObsRec o{nm, {}}; for (u64 i = 0; i < k; i++) o.v.push_back(load(cv(64, p + i), 8)); st->obs.push_back(o); return true; }
    if (n == "nb_param") { std::string nm = cstr(concretize(a[0])); auto it = params.find(nm); return ret(it == params.end() ? a[1] : cv(64, strtoull(it->second.c_str(), nullptr, 0))); }
    if (n == "nb_live") { u64 k = 0; for (auto& m : st->mem) if (m->kind == M_New) k++; return ret(cv(64, k)); }
    if (n == "nb_ite") { Val c = a[0]; if (!c.e) return ret(c.c & 1 ? a[1] : a[2]); Expr* e = P.bnot(P.eq(c.e, P.cst(c.w, 0))); return ret(mk(P.ite(e, X(a[1]), X(a[2])))); }
    if (n == "nb_concretize") { return ret(cv(64, concretize(a[0]))); }
    if (n == "nb_end") { throw PathEnd{"done"}; }
    if (n == "nb_is_symbolic") { return ret(cv(32, a[0].e != nullptr)); }
    if (n == "nb_is_eq") { return ret(cv(1, X(a[0]) == X(a[1]))); }
    if (n == "nb_native") { return ret(cv(32, 0)); }
    if (n == "nb_dbg") { fprintf(stderr, "dbg %s %s\n", cstr(concretize(a[0])).c_str(), P.str(X(a[1])).c_str()); return true; }
    fatal("unknown builtin " + n);
  }
  static const std::set<std::string> news = {"_Znwm", "_Znam", "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t", "malloc", "calloc", "__cxa_allocate_exception"};
  if (news.count(n)) {
    Val sz = a[0]; if (n == "calloc") { sz = binop(Instruction::Mul, a[0], a[1]); }
    Function* hugeFn = M->getFunction("nb_throw_bad_alloc"); bool cxx = n[0] == '_' && n[1] == 'Z' && n.find("nothrow") == std::string::npos && hugeFn; bool huge = false; // no request above 2^36 bytes can be met: std::bad_alloc
    if (sz.e) { if (decide(P.cmp(K_Ult, P.cst(64, allocLimit), sz.e))) { if (cxx && decide(P.cmp(K_Ult, P.cst(64, 1ull << 36), sz.e))) huge = true; else throw PathEnd{"alloc-limit"}; } }
    if (!huge) { u64 k0 = concretize(sz); if (k0 > allocLimit) { if (cxx && k0 > (1ull << 36)) huge = true; else throw PathEnd{"alloc-limit"}; } }
    if (huge) { pushFrame(funcs[hugeFn], {}); return false; }
    u64 k = concretize(sz);
    u64 al = n.find("align_val") != std::string::npos ? concretize(a[1]) : 16;
    MKind mk_ = n == "malloc" || n == "calloc" ? M_Malloc : n == "__cxa_allocate_exception" ? M_Exc : M_New;
    return ret(cv(64, allocObj(k, al, mk_, n == "calloc", "heap"))); }
  if (n.compare(0, 6, "_ZdlPv") == 0 || n.compare(0, 6, "_ZdaPv") == 0 || n == "free" || n == "__cxa_free_exception") {
    u64 p = concretize(a[0]); if (!p) return true; MemP* s = nullptr; MemObj* o = objAt(p, 0, false, &s);
    if (!o || o->base != p || (o->kind != M_New && o->kind != M_Malloc && o->kind != M_Exc)) vio("memory", "invalid or double free of " + describe(p, 0));
    bool del = n[1] == 'Z'; if (del != (o->kind == M_New) && o->kind != M_Exc) vio("memory", "mismatched deallocation");
    freeObj(p); return true; }
  if (n == "realloc") fatal("realloc");
  if (n == "memcpy" || n == "memmove" || n == "mempcpy") { u64 k = concretize(a[2]), d = concretize(a[0]), s = concretize(a[1]); if (k) copyBytes(d, s, k); return ret(n == "mempcpy" ? cv(64, d + k) : a[0]); }
  if (n == "memset") { u64 k = concretize(a[2]), d = concretize(a[0]); if (k) { Loc l = resolve(cv(64, d), k, true); MemObj* o = writable(l.slot); Val b = castop(Instruction::Trunc, a[1], 8); for (u64 i = 0; i < k; i++) writeAt(o, l.off + i, b); } return ret(a[0]); }
  if (n == "bcmp" || n == "memcmp") { u64 k = concretize(a[2]); std::vector<Val> x, y; for (u64 i = 0; i < k; i++) { x.push_back(load(binop(Instruction::Add, a[0], cv(64, i)), 8)); y.push_back(load(binop(Instruction::Add, a[1], cv(64, i)), 8)); }
    if (n == "bcmp") { Expr* c = P.tru(); std::vector<Expr*> v{P.tru()}; for (u64 i = 0; i < k; i++) v.push_back(P.eq(X(x[i]), X(y[i]))); c = P.bitwise(K_And, v); return ret(mk(P.zext(P.bnot(c), 32))); }
    Expr* r = P.cst(32, 0); for (u64 i = k; i-- > 0;) r = P.ite(P.eq(X(x[i]), X(y[i])), r, P.sub(P.zext(X(x[i]), 32), P.zext(X(y[i]), 32))); return ret(mk(r)); }
  if (n == "memchr") { u64 k = concretize(a[2]), p = concretize(a[0]); Expr* c = P.trunc(X(a[1]), 8); for (u64 i = 0; i < k; i++) if (decide(P.eq(X(load(cv(64, p + i), 8)), c))) return ret(cv(64, p + i)); return ret(cv(64, 0)); }
  if (n == "strlen") { u64 p = concretize(a[0]); for (u64 i = 0;; i++) if (decide(P.eq(X(load(cv(64, p + i), 8)), P.cst(8, 0)))) return ret(cv(64, i)); }
  if (n == "strcmp") { u64 p = concretize(a[0]), q = concretize(a[1]); for (u64 i = 0;; i++) { Expr *x = X(load(cv(64, p + i), 8)), *y = X(load(cv(64, q + i), 8)); if (!decide(P.eq(x, y))) return ret(mk(P.ite(P.cmp(K_Ult, x, y), P.cst(32, ~0u), P.cst(32, 1)))); if (decide(P.eq(x, P.cst(8, 0)))) return ret(cv(32, 0)); } }
  if (n == "tolower" || n == "toupper") { Expr* c = X(a[0]); bool lo = n == "tolower"; Expr* in = P.band(P.cmp(K_Sle, P.cst(32, lo ? 'A' : 'a'), c), P.cmp(K_Sle, c, P.cst(32, lo ? 'Z' : 'z'))); return ret(mk(P.ite(in, P.add(c, P.cst(32, lo ? 32 : -32)), c))); }
  if (n == "iswspace" || n == "isspace") { Expr* c = X(a[0]); Expr* in = P.bor(P.eq(c, P.cst(32, 32)), P.band(P.cmp(K_Ule, P.cst(32, 9), c), P.cmp(K_Ule, c, P.cst(32, 13)))); return ret(mk(P.zext(in, 32))); }
  if (n == "isdigit") { Expr* c = X(a[0]); return ret(mk(P.zext(P.band(P.cmp(K_Ule, P.cst(32, '0'), c), P.cmp(K_Ule, c, P.cst(32, '9'))), 32))); }
  if (n == "isalpha" || n == "isalnum") { Expr* c = X(a[0]); auto rg = [&](int l, int h) { return P.band(P.cmp(K_Ule, P.cst(32, l), c), P.cmp(K_Ule, c, P.cst(32, h))); }; Expr* r = P.bor(rg('a', 'z'), rg('A', 'Z')); if (n == "isalnum") r = P.bor(r, rg('0', '9')); return ret(mk(P.zext(r, 32))); }
  if (n == "abort" || n == "exit" || n == "_exit" || n == "quick_exit") vio("terminate", n + " called");
  if (n == "_ZSt9terminatev" || n == "__clang_call_terminate") vio("terminate", "std::terminate called");
  if (n == "__assert_fail") vio("assertion", "assert() failed: " + cstr(concretize(a[0])));
  if (n == "__cxa_pure_virtual") vio("ub", "pure virtual call");
  if (n == "__cxa_atexit" || n == "atexit" || n == "pthread_mutex_lock" || n == "pthread_mutex_unlock" || n == "puts" || n == "printf" || n == "fprintf" || n == "putchar" || n == "fwrite" || n == "fputs") return ret(cv(32, 0));
  if (n == "__cxa_guard_acquire") { Val v = load(a[0], 8); return ret(cv(32, v.c ? 0 : 1)); }
  if (n == "__cxa_guard_release") { store(a[0], cv(8, 1)); return true; }
  if (n == "__cxa_guard_abort") return true;
  if (n == "__cxa_throw") { u64 o = concretize(a[0]), ti = concretize(a[1]), d = concretize(a[2]); ExcInfo e; e.tinfo = ti; e.dtor = d; st->exc[o] = e; unwind(o); return false; }
  if (n == "_Unwind_Resume") { unwind(concretize(a[0])); return false; }
  if (n == "__cxa_begin_catch") { u64 o = concretize(a[0]); auto& e = st->exc[o]; e.handlers++; e.rethrown = false; st->caught.push_back(o); return ret(cv(64, o)); }
  if (n == "__cxa_get_exception_ptr") return ret(a[0]);
  if (n == "__cxa_end_catch") { if (st->caught.empty()) return true; u64 o = st->caught.back(); st->caught.pop_back(); auto& e = st->exc[o]; e.handlers--; if (e.handlers == 0 && !e.rethrown) { u64 d = e.dtor; if (d && faddr.count(d) && !faddr[d]->F->isDeclaration()) { pushFrame(faddr[d], {cv(64, o)}); st->fr.back()->freeOnRet = o; return false; } st->exc.erase(o); freeObj(o); } return true; }
  if (n == "__cxa_rethrow") { if (st->caught.empty()) vio("terminate", "rethrow without exception"); u64 o = st->caught.back(); st->exc[o].rethrown = true; unwind(o); return false; }
  if (n == "_ZSt18uncaught_exceptionv") return ret(cv(1, 0));
  if (n == "_ZSt19uncaught_exceptionsv") return ret(cv(32, 0));
  if (n == "__errno_location") return ret(cv(64, gByName.count("nb_errno") ? gByName["nb_errno"] : 0));
  if (n == "__cxa_call_unexpected") vio("terminate", "unexpected exception");
  if (n == "__dynamic_cast") { u64 p = concretize(a[0]); if (!p) return ret(cv(64, 0)); u64 vt = rd64(p); u64 ti = rd64(vt - 8); i64 top = (i64)rd64(vt - 16); u64 want = concretize(a[2]); return ret(cv(64, tiMatch(ti, want) ? p + top : 0)); }
  fatal("external function " + n);
}

void Engine::step() {
  Frame& f = top(); CBlock& b = f.f->bb[f.bb]; if (f.ip >= b.in.size()) fatal("fell off block"); CInst& ci = b.in[f.ip]; cur = &ci; ci.hit = true; st->steps++; nSteps++;
  switch (ci.op) {
  case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: {
    for (unsigned k = 0; k < ci.ndst; k++) { Val r = binop(ci.op, get(f, ci.ops[0], k), get(f, ci.ops[1], k)); f.regs[ci.dst + k] = r; } f.ip++; return; }
  case Instruction::ICmp: for (unsigned k = 0; k < ci.ndst; k++) set(f, ci.dst + k, icmp(cast<CmpInst>(ci.I)->getPredicate(), get(f, ci.ops[0], k), get(f, ci.ops[1], k))); f.ip++; return;
  case Instruction::FCmp: set(f, ci.dst, fcmp(cast<CmpInst>(ci.I)->getPredicate(), get(f, ci.ops[0]), get(f, ci.ops[1]))); f.ip++; return;
  case Instruction::FNeg: { Val v = get(f, ci.ops[0]); set(f, ci.dst, binop(Instruction::Xor, v, cv(v.w, 1ull << (v.w - 1)))); f.ip++; return; }
  case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::AddrSpaceCast:
    if (ci.op == Instruction::BitCast && ci.ndst != 1) { // vector <-> vector of the same shape only
      fatal("vector bitcast"); }
    for (unsigned k = 0; k < ci.ndst; k++) set(f, ci.dst + k, castop(ci.op, get(f, ci.ops[0], k), ci.dw[k])); f.ip++; return;
  case Instruction::Freeze: for (unsigned k = 0; k < ci.ndst; k++) set(f, ci.dst + k, get(f, ci.ops[0], k)); f.ip++; return;
  case Instruction::Select: { Val c = get(f, ci.ops[0]); for (unsigned k = 0; k < ci.ndst; k++) { Val x = get(f, ci.ops[1], k), y = get(f, ci.ops[2], k); Val r = !c.e ? (c.c ? x : y) : mk(P.ite(c.e, X(x), X(y))); f.regs[ci.dst + k] = r; } f.ip++; return; }
  case Instruction::GetElementPtr: { Val p = get(f, ci.ops[0]); if (ci.a) p = binop(Instruction::Add, p, cv(64, ci.a)); for (auto& g : ci.gep) { Val ix = get(f, g.idx); if (ix.w != 64) ix = castop(Instruction::SExt, ix, 64); p = binop(Instruction::Add, p, g.stride == 1 ? ix : binop(Instruction::Mul, ix, cv(64, g.stride))); } set(f, ci.dst, p); f.ip++; return; }
  case Instruction::Load: { Val p = get(f, ci.ops[0]); if (ci.ndst == 1) { Val v = load(p, ci.dw[0]); set(f, ci.dst, v); } else { std::vector<Val> t; for (unsigned k = 0; k < ci.ndst; k++) t.push_back(load(binop(Instruction::Add, p, cv(64, ci.offs[k])), ci.dw[k])); for (unsigned k = 0; k < ci.ndst; k++) f.regs[ci.dst + k] = t[k]; } f.ip++; return; }
  case Instruction::Store: { Val p = get(f, ci.ops[0]); if (ci.offs.size() > 1) for (unsigned k = 0; k < ci.offs.size(); k++) resolve(binop(Instruction::Add, p, cv(64, ci.offs[k])), (ci.dw[k] + 7) / 8, true); for (unsigned k = 0; k < ci.offs.size(); k++) store(ci.offs[k] ? binop(Instruction::Add, p, cv(64, ci.offs[k])) : p, get(f, ci.ops[1], k)); f.ip++; return; }
  case Instruction::Alloca: { u64 n = concretize(get(f, ci.ops[0])); u64 a = allocObj(ci.a * n, ci.b, M_Stack, false, "stack"); f.allocas.push_back(a); set(f, ci.dst, cv(64, a)); f.ip++; return; }
  case Instruction::ExtractValue: for (unsigned k = 0; k < ci.ndst; k++) set(f, ci.dst + k, get(f, ci.ops[0], ci.a + k)); f.ip++; return;
  case Instruction::InsertValue: { for (unsigned k = 0; k < ci.ndst; k++) set(f, ci.dst + k, get(f, ci.ops[0], k)); for (unsigned k = 0; k < ci.b; k++) set(f, ci.dst + ci.a + k, get(f, ci.ops[1], k)); f.ip++; return; }
  case Instruction::ExtractElement: { u64 i = concretize(get(f, ci.ops[1])); set(f, ci.dst, get(f, ci.ops[0], i)); f.ip++; return; }
  case Instruction::InsertElement: { u64 i = concretize(get(f, ci.ops[2])); for (unsigned k = 0; k < ci.ndst; k++) set(f, ci.dst + k, get(f, ci.ops[0], k)); set(f, ci.dst + i, get(f, ci.ops[1])); f.ip++; return; }
  case Instruction::ShuffleVector: { std::vector<Val> t; for (auto& m : ci.cases) { i64 i = (i64)m.first; if (i < 0) t.push_back(cv(ci.dw[0], 0)); else t.push_back((u64)i < ci.a ? get(f, ci.ops[0], i) : get(f, ci.ops[1], i - ci.a)); } for (unsigned k = 0; k < ci.ndst; k++) set(f, ci.dst + k, t[k]); f.ip++; return; }
  case Instruction::Br: if (ci.ops.empty()) jump(f, ci.t0); else { if (ci.nfork >= mergeAfter && ci.mfail < 12 && tryMerge(ci)) return; bool c = decide(get(top(), ci.ops[0])); jump(top(), c ? ci.t0 : ci.t1); } return;
  case Instruction::Switch: { Val v = get(f, ci.ops[0]); if (!v.e) { int t = ci.t0; for (auto& k : ci.cases) if (k.first == v.c) { t = k.second; break; } jump(f, t); return; }
    if (ci.nfork >= mergeAfter && ci.mfail < 12 && tryMerge(ci)) return;
    std::map<u32, std::vector<Expr*>> by; std::vector<u32> order; for (auto& k : ci.cases) { if (k.second == (u32)ci.t0) continue; if (!by.count(k.second)) order.push_back(k.second); by[k.second].push_back(P.eq(v.e, P.cst(v.w, k.first))); }
    for (u32 t : order) { auto vs = by[t]; vs.push_back(P.fls()); if (decide(P.bitwise(K_Or, vs))) { jump(top(), t); return; } }
    jump(top(), ci.t0); return; }
  case Instruction::Ret: { std::vector<Val> rv; if (!ci.ops.empty()) { std::vector<uint16_t> w; flatW(ci.I->getOperand(0)->getType(), w); for (unsigned k = 0; k < w.size(); k++) rv.push_back(get(f, ci.ops[0], k)); } doRet(rv); return; }
  case Instruction::Unreachable: vio("ub", "unreachable code reached");
  case Instruction::LandingPad: set(f, ci.dst, cv(64, st->landObj)); set(f, ci.dst + 1, cv(32, st->landSel)); f.ip++; return;
  case Instruction::Resume: { u64 o = concretize(get(f, ci.ops[0], 0)); releaseAllocas(f); bool e = f.isEntry; st->fr.pop_back(); if (e || st->fr.empty()) vio("terminate", "uncaught exception of type " + tiName(st->exc[o].tinfo)); unwind(o); return; }
  case Instruction::Fence: f.ip++; return;
  case Instruction::AtomicRMW: { auto* r = cast<AtomicRMWInst>(ci.I); Val p = get(f, ci.ops[0]), v = get(f, ci.ops[1]); Val old = load(p, ci.dw[0]); Val nv; switch (r->getOperation()) { case AtomicRMWInst::Add: nv = binop(Instruction::Add, old, v); break; case AtomicRMWInst::Sub: nv = binop(Instruction::Sub, old, v); break; case AtomicRMWInst::Xchg: nv = v; break; case AtomicRMWInst::And: nv = binop(Instruction::And, old, v); break; case AtomicRMWInst::Or: nv = binop(Instruction::Or, old, v); break; default: fatal("atomicrmw"); } store(p, nv); set(f, ci.dst, old); f.ip++; return; }
  case Instruction::AtomicCmpXchg: { Val p = get(f, ci.ops[0]), c = get(f, ci.ops[1]), n = get(f, ci.ops[2]); Val old = load(p, c.w); bool eq = decide(icmp(CmpInst::ICMP_EQ, old, c)); if (eq) store(p, n); set(top(), ci.dst, old); set(top(), ci.dst + 1, cv(1, eq)); top().ip++; return; }
  case Instruction::Call: case Instruction::Invoke: {
    std::vector<Val> rv;
    if (ci.iid) { if (!intrinsic(f, ci, rv)) fatal("intrinsic " + ci.fn->getName().str()); finishCall(top(), ci, rv); return; }
    CFunc* cf = ci.callee;
    if (!cf) { if (cast<CallBase>(ci.I)->isInlineAsm()) { auto* ia = cast<InlineAsm>(cast<CallBase>(ci.I)->getCalledOperand()); if (ia->getAsmString().empty()) { if (ci.ndst) { for (unsigned k = 0; k < ci.ndst; k++) rv.push_back(k < ci.ops.size() ? get(f, ci.ops[k]) : cv(ci.dw[k], 0)); } finishCall(f, ci, rv); return; } fatal("inline asm"); }
      u64 a = concretize(get(f, ci.gep[0].idx)); auto it = faddr.find(a); if (it == faddr.end()) vio("memory", a ? "call through an invalid function pointer" : "call through a null function pointer"); cf = it->second; }
    std::vector<Val> args; auto& cb = *cast<CallBase>(ci.I);
    for (unsigned i = 0; i < ci.ops.size(); i++) { Type* T = cb.getArgOperand(i)->getType(); if (T->isMetadataTy()) continue; if (T->isAggregateType() || T->isVectorTy()) { std::vector<uint16_t> w; flatW(T, w); for (unsigned k = 0; k < w.size(); k++) args.push_back(get(f, ci.ops[i], k)); }
      else { Val v = get(f, ci.ops[i]); if (cb.isByValArgument(i)) { u64 sz = DL->getTypeAllocSize(cb.getParamByValType(i)); u64 n = allocObj(sz, 16, M_Stack, false, "byval"); top().allocas.push_back(n); copyBytes(n, concretize(v), sz); v = cv(64, n); } args.push_back(v); } }
    if (cf->F->isDeclaration()) { if (builtin(f, ci, cf->name, args, rv)) { finishCall(top(), ci, rv); } return; }
    if (cf->name == "__clang_call_terminate") vio("terminate", "exception escapes a noexcept function");
    pushFrame(cf, args); return; }
  default: fatal(std::string("instruction ") + ci.I->getOpcodeName());
  }
}

void Engine::runState() {
  std::string why;
  try {
    for (;;) {
      step();
      if (st->steps > maxSteps) vio("hang", "no termination within " + std::to_string(maxSteps) + " instructions");
      if ((nSteps & 0xfff) == 0 && now() - t0 > timeBudget) fatal("time budget exhausted");
    }
  } catch (PathEnd& p) { why = p.why; }
  catch (Violation& v) {
    std::string loc = locOf(cur ? cur->I : nullptr); std::string key = v.kind + "|" + v.msg + "|" + loc;
    if (v.kind == "assert") key = v.kind + "|" + v.msg;
    if (vioKeys.insert(key).second && vios.size() < maxVios) vios.push_back({v.kind, v.msg, loc, stackOf(), modelInputs(*st)});
    why = "violation"; nVioPaths++; if (!firstVio) firstVio = now();
  }
  pathEnds[why]++; nPaths++;
  if (why == "done") { for (auto& c : st->covers) covers.insert(c);
    static u64 seen = 0; seen++; 
    size_t slot = tests.size(); if (tests.size() >= maxTests) { u64 r = (seen * 6364136223846793005ull + 1442695040888963407ull) >> 33; slot = r % seen; }
    if (slot < maxTests) { Tst t; t.inputs = modelInputs(*st); t.covers = st->covers; t.end = why; static const char* hx = "0123456789abcdef"; for (auto& o : st->obs) { std::string h; for (auto& v : o.v) { u128 x = v.e ? evalIn(v.e, *st->model) : v.c; for (unsigned i = 0; i < (v.w + 7u) / 8; i++) { u8 bb = x >> (8 * i); h += hx[bb >> 4]; h += hx[bb & 15]; } } t.obs.push_back({o.name, h}); }
      if (slot == tests.size()) tests.push_back(t); else tests[slot] = t; } }
}

static std::string js(const std::string& s) { std::string r = "\""; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) r += ' '; else r += c; } return r + "\""; }

void Engine::run(const std::string& entry) {
  t0 = now(); setup();
  StateP alive; auto init = std::make_unique<State>(); init->mem = globMem; init->model = std::make_shared<Model>();
  try {
    st = init.get();
    // global constructors
    if (auto* g = M->getGlobalVariable("llvm.global_ctors")) if (g->hasInitializer()) if (auto* arr = dyn_cast<ConstantArray>(g->getInitializer())) {
      std::vector<std::pair<u64, Function*>> cs; for (auto& o : arr->operands()) { auto* s = cast<ConstantStruct>(o); if (auto* fn = dyn_cast<Function>(s->getOperand(1)->stripPointerCasts())) cs.push_back({cast<ConstantInt>(s->getOperand(0))->getZExtValue(), fn}); }
      std::stable_sort(cs.begin(), cs.end(), [](auto& a, auto& b) { return a.first < b.first; });
      for (auto& c : cs) { pushFrame(funcs[c.second], {}); st->fr.back()->isEntry = true; size_t depth = st->fr.size(); try { while (st->fr.size() >= depth) step(); } catch (PathEnd& p) { if (p.why != "done") throw; } catch (Violation& v) { fatal("static initialisation: " + v.kind + ": " + v.msg + "\n" + stackOf()); } st->fr.clear(); } }
    Function* F = M->getFunction(entry); if (!F) fatal("no entry " + entry);
    pushFrame(funcs[F], {}); st->steps = 0; for (auto& m : st->mem) if (m->kind == M_New) { const_cast<MemObj*>(m.get())->kind = M_New; }
    work.push_back(std::move(init));
    while (!work.empty()) { alive = std::move(work.back()); work.pop_back(); st = alive.get(); runState(); st = nullptr; if (nPaths >= maxPaths) fatal("path limit"); if (vios.size() >= maxVios || (!vios.empty() && !allVios && (nVioPaths >= 100 || now() - firstVio > 60))) break; } // enough violations
  } catch (EngineError& e) { error = e.msg; if (st) { try { error += "\n at " + locOf(cur ? cur->I : nullptr) + "\n" + stackOf(); } catch (...) {} } }
}

void Engine::dump(const std::string& path, const std::string& entry) {
  std::ofstream o(path); struct rusage ru; getrusage(RUSAGE_SELF, &ru);
  o << "{\"entry\":" << js(entry) << ",\"error\":" << js(error) << ",\"paths\":" << nPaths << ",\"states\":" << nStates << ",\"forks\":" << nForks << ",\"steps\":" << nSteps << ",\"merges\":" << nMerges << ",\"queries\":" << S.queries << ",\"z3_calls\":" << S.z3calls  << ",\"byte_decided\":" << S.byteDecided << ",\"cache_hits\":" << S.cacheHits << ",\"solver_s\":" << S.time << ",\"max_query_s\":" << S.maxTime << ",\"asserts\":" << asserts << ",\"assert_queries\":" << assertQueries << ",\"wall_s\":" << now() - t0 << ",\"rss_mb\":" << ru.ru_maxrss / 1024 << ",\"exprs\":" << P.all.size();
  o << ",\"path_ends\":{"; bool first = true; for (auto& p : pathEnds) { o << (first ? "" : ",") << js(p.first) << ":" << p.second; first = false; }
  o << "},\"covers\":["; first = true; for (auto& c : covers) { o << (first ? "" : ",") << js(c); first = false; }
  o << "],\"functions\":["; first = true;
  std::set<std::string> lines; std::set<std::string> fns;
  for (auto& p : funcs) { CFunc* c = p.second; if (!c->executed) continue; for (auto& b : c->bb) for (auto& i : b.in) if (i.hit) if (auto& d = i.I->getDebugLoc()) for (const DILocation* l = d.get(); l; l = l->getInlinedAt()) { StringRef fn = l->getFilename(); if (fn.contains("/repo/")) { lines.insert((fn + ":" + std::to_string(l->getLine())).str()); if (auto* sp = l->getScope()->getSubprogram()) { std::string nm = sp->getName().str(); fns.insert((fn + ":" + nm).str()); } } } }
  for (auto& c : fns) { o << (first ? "" : ",") << js(c); first = false; }
  o << "],\"lines\":["; first = true; for (auto& c : lines) { o << (first ? "" : ",") << js(c); first = false; }
  auto kvs = [&](auto& v) { o << "["; bool f1 = true; for (auto& k : v) { o << (f1 ? "" : ",") << "[" << js(k.first) << "," << js(k.second) << "]"; f1 = false; } o << "]"; };
  o << "],\"violations\":["; first = true; for (auto& v : vios) { o << (first ? "" : ",") << "{\"kind\":" << js(v.kind) << ",\"msg\":" << js(v.msg) << ",\"loc\":" << js(v.loc) << ",\"stack\":" << js(v.stack) << ",\"inputs\":"; kvs(v.inputs); o << "}"; first = false; }
  o << "],\"tests\":["; first = true; for (auto& t : tests) { o << (first ? "" : ",") << "{\"inputs\":"; kvs(t.inputs); o << ",\"obs\":"; kvs(t.obs); o << ",\"covers\":["; bool f2 = true; for (auto& c : t.covers) { o << (f2 ? "" : ",") << js(c); f2 = false; } o << "]}"; first = false; }
  o << "]}\n";
}

int main(int argc, char** argv) {
  { struct rlimit rl; getrlimit(RLIMIT_STACK, &rl); rlim_t want = std::min<rlim_t>(rl.rlim_max, 2ul << 30); if (rl.rlim_cur < want && !getenv("NB_STACK")) { rl.rlim_cur = want; if (!setrlimit(RLIMIT_STACK, &rl)) { setenv("NB_STACK", "1", 1); execv("/proc/self/exe", argv); } } }
  std::string bc, entry, out = "/dev/stdout"; Engine* E = new Engine();
  for (int i = 1; i < argc; i++) { std::string a = argv[i];
    if (a == "-o") out = argv[++i]; else if (a == "-e") entry = argv[++i]; else if (a == "-p") { std::string kv = argv[++i]; auto q = kv.find('='); E->params[kv.substr(0, q)] = kv.substr(q + 1); }
    else if (a == "--max-steps") E->maxSteps = strtoull(argv[++i], 0, 0); else if (a == "--time") E->timeBudget = atof(argv[++i]); else if (a == "--tests") E->maxTests = atoi(argv[++i]); else if (a == "--alloc-limit") E->allocLimit = strtoull(argv[++i], 0, 0); else if (a == "--timeout-ms") { E->S.timeoutMs = atoi(argv[++i]); E->S.setTimeout(); } else if (a == "--all-vios") E->allVios = true; else if (a == "--merge-after") E->mergeAfter = atoi(argv[++i]); else if (a == "--prof") E->prof = true; else if (a == "--no-inc") E->S.incremental = false; else if (a == "--depth") E->maxDepth = atoi(argv[++i]); else bc = a; }
  LLVMContext C; SMDiagnostic D; auto M = parseIRFile(bc, D, C); if (!M) { D.print("nbsym", errs()); return 2; }
  E->M = M.get(); E->run(entry); if (E->prof) E->profDump(); E->dump(out, entry);
  fflush(nullptr); _exit(E->error.empty() ? (E->vios.empty() ? 0 : 1) : 2);
}

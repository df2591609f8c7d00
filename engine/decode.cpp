// Loads LLVM bitcode and lowers functions to flat instruction arrays over scalar slots.
#include "sxe.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <algorithm>
using namespace llvm;

std::vector<Val> g_consts;
std::vector<Fn *> g_fns, g_ctors;
std::map<std::string, Fn *> g_fnByName;
std::map<uint64_t, bool> g_tlsGlobals;
static LLVMContext C;
static std::unique_ptr<Module> M;
static const DataLayout *DL;
static std::map<uint64_t, Fn *> fnAddr;
static DenseMap<const GlobalValue *, uint64_t> gaddr;
static DenseMap<const Constant *, int32_t> constIdx;
static DenseMap<const Function *, Fn *> fnOf;
static std::map<uint64_t, std::string> idName;
extern int builtinIndex(const std::string &name);
extern int intrinsicIndex(const std::string &name);

Fn *fnByAddr(uint64_t a) { auto i = fnAddr.find(a); return i == fnAddr.end() ? nullptr : i->second; }
std::string demangle(const std::string &s) { return llvm::demangle(s); }
std::string symbolOfGlobal(uint64_t id) { auto i = idName.find(id); return i == idName.end() ? "" : i->second; }
uint64_t globalAddr(const std::string &name) { GlobalValue *g = M->getNamedValue(name); return g ? gaddr.lookup(g) : 0; }
bool isTypeinfoVtable(uint64_t addr, int &kind) {
  std::string n = symbolOfGlobal(addr >> OBJ_SHIFT);
  kind = n == "_ZTVN10__cxxabiv117__class_type_infoE" ? 1 : n == "_ZTVN10__cxxabiv120__si_class_type_infoE" ? 2 : n == "_ZTVN10__cxxabiv121__vmi_class_type_infoE" ? 3 : 0;
  return kind != 0;
}

// ---- flattening ----
struct Leaf { Type *t; uint64_t off; };
static void flatten(Type *t, uint64_t off, std::vector<Leaf> &out) {
  if (auto *st = dyn_cast<StructType>(t)) {
    const StructLayout *sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) flatten(st->getElementType(i), off + sl->getElementOffset(i), out);
  } else if (auto *at = dyn_cast<ArrayType>(t)) {
    uint64_t es = DL->getTypeAllocSize(at->getElementType());
    for (uint64_t i = 0; i < at->getNumElements(); i++) flatten(at->getElementType(), off + i * es, out);
  } else if (auto *vt = dyn_cast<FixedVectorType>(t)) {
    uint64_t eb = DL->getTypeSizeInBits(vt->getElementType());
    for (uint64_t i = 0; i < vt->getNumElements(); i++) flatten(vt->getElementType(), off + i * ((eb + 7) / 8), out);
  } else if (!t->isVoidTy()) out.push_back({t, off});
}
static std::vector<Leaf> leaves(Type *t) { std::vector<Leaf> v; flatten(t, 0, v); return v; }
static unsigned nslots(Type *t) { return t->isVoidTy() ? 0 : (t->isSingleValueType() && !t->isVectorTy()) ? 1 : leaves(t).size(); }
static unsigned width(Type *t) {
  if (t->isPointerTy()) return 64;
  if (t->isFloatTy()) return 32;
  if (t->isDoubleTy()) return 64;
  if (t->isX86_FP80Ty()) return 80;
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  return 0;
}
static unsigned flatIndex(Type *t, ArrayRef<unsigned> idx) {
  unsigned r = 0;
  for (unsigned i : idx) {
    if (auto *st = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < i; k++) r += nslots(st->getElementType(k)); t = st->getElementType(i); }
    else if (auto *at = dyn_cast<ArrayType>(t)) { r += i * nslots(at->getElementType()); t = at->getElementType(); }
  }
  return r;
}

// ---- constants ----
static uint64_t addrOf(const GlobalValue *g) {
  if (auto *a = dyn_cast<GlobalAlias>(g)) { if (auto *t = a->getAliaseeObject()) return addrOf(t); }
  auto it = gaddr.find(g);
  if (it == gaddr.end()) { errs() << "no address for " << g->getName() << "\n"; abort(); }
  return it->second;
}
static u128 apv(const APInt &v) { u128 r = 0; const uint64_t *d = v.getRawData(); r = d[0]; if (v.getBitWidth() > 64) r |= (u128)d[1] << 64; return r; }

static u128 evalScalar(const Constant *c) {
  if (auto *ci = dyn_cast<ConstantInt>(c)) return apv(ci->getValue());
  if (auto *cf = dyn_cast<ConstantFP>(c)) return apv(cf->getValueAPF().bitcastToAPInt());
  if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c)) return 0;
  if (auto *g = dyn_cast<GlobalValue>(c)) return addrOf(g);
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: {
      auto *gep = cast<GEPOperator>(ce);
      APInt off(64, 0);
      if (!gep->accumulateConstantOffset(*DL, off)) { errs() << "const gep\n"; abort(); }
      return (uint64_t)(evalScalar(cast<Constant>(gep->getPointerOperand())) + (uint64_t)off.getSExtValue()); }
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::ZExt: case Instruction::AddrSpaceCast:
      return evalScalar(ce->getOperand(0)) & maskw(width(ce->getType()));
    case Instruction::Trunc: return evalScalar(ce->getOperand(0)) & maskw(width(ce->getType()));
    case Instruction::Add: return (evalScalar(ce->getOperand(0)) + evalScalar(ce->getOperand(1))) & maskw(width(ce->getType()));
    case Instruction::Sub: return (evalScalar(ce->getOperand(0)) - evalScalar(ce->getOperand(1))) & maskw(width(ce->getType()));
    case Instruction::And: return evalScalar(ce->getOperand(0)) & evalScalar(ce->getOperand(1));
    case Instruction::Or: return evalScalar(ce->getOperand(0)) | evalScalar(ce->getOperand(1));
    case Instruction::ICmp: {
      u128 a = evalScalar(ce->getOperand(0)), b = evalScalar(ce->getOperand(1));
      switch (ce->getPredicate()) { case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b; case CmpInst::ICMP_ULT: return a < b; case CmpInst::ICMP_UGT: return a > b; default: break; }
      break; }
    case Instruction::Select: return evalScalar(ce->getOperand(0)) ? evalScalar(ce->getOperand(1)) : evalScalar(ce->getOperand(2));
    }
    errs() << "unsupported constexpr " << *ce << "\n"; abort();
  }
  if (isa<BlockAddress>(c)) return 0;
  errs() << "unsupported constant " << *c << "\n"; abort();
}
static void flatConst(const Constant *c, std::vector<Val> &out) {
  Type *t = c->getType();
  if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
    unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
    for (unsigned i = 0; i < n; i++) flatConst(c->getAggregateElement(i), out);
    return;
  }
  u128 v = evalScalar(c);
  unsigned w = width(t);
  out.push_back(w <= 64 ? cval((uint64_t)v) : Val{0, mkConst(v, w)});
}
static void writeConst(const Constant *c, uint8_t *p) {
  Type *t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  if (auto *cds = dyn_cast<ConstantDataSequential>(c)) { StringRef r = cds->getRawDataValues(); memcpy(p, r.data(), r.size()); return; }
  if (auto *st = dyn_cast<StructType>(t)) {
    const StructLayout *sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) writeConst(c->getAggregateElement(i), p + sl->getElementOffset(i));
    return;
  }
  if (auto *at = dyn_cast<ArrayType>(t)) {
    uint64_t es = DL->getTypeAllocSize(at->getElementType());
    for (uint64_t i = 0; i < at->getNumElements(); i++) writeConst(c->getAggregateElement(i), p + i * es);
    return;
  }
  if (auto *vt = dyn_cast<FixedVectorType>(t)) {
    uint64_t es = (DL->getTypeSizeInBits(vt->getElementType()) + 7) / 8;
    for (uint64_t i = 0; i < vt->getNumElements(); i++) writeConst(c->getAggregateElement(i), p + i * es);
    return;
  }
  u128 v = evalScalar(c);
  unsigned n = (width(t) + 7) / 8;
  memcpy(p, &v, n);
}

bool loadModule(const std::string &path, State &init) {
  SMDiagnostic err;
  M = parseIRFile(path, err, C);
  if (!M) { err.print("sxe", errs()); return false; }
  DL = &M->getDataLayout();
  uint64_t nullFnObj = init.mem.alloc(0, M_FUNC, false); (void)nullFnObj;
  for (Function &f : *M) {
    Fn *fn = new Fn; fn->name = f.getName().str(); fn->llvm = &f; fn->decl = f.isDeclaration(); fn->vararg = f.isVarArg();
    fn->builtin = builtinIndex(fn->name);
    uint64_t id = init.mem.alloc(0, M_FUNC, false, strdup(fn->name.c_str()));
    fn->addr = id << OBJ_SHIFT; gaddr[&f] = fn->addr; fnAddr[fn->addr] = fn; fnOf[&f] = fn;
    g_fns.push_back(fn); g_fnByName[fn->name] = fn;
    if (auto *sp = f.getSubprogram()) {
      std::string file = sp->getFilename().str(); if (!file.empty() && file[0] != '/') file = sp->getDirectory().str() + "/" + file;
      fn->file = file; fn->inRepo = file.compare(0, 6, "/repo/") == 0;
    }
  }
  for (GlobalVariable &g : M->globals()) {
    uint64_t sz = g.getValueType()->isSized() ? DL->getTypeAllocSize(g.getValueType()) : 8;
    bool ext = g.isDeclaration();
    if (ext && sz < 64) sz = 64;
    uint64_t id = init.mem.alloc(sz, ext ? M_EXT : M_GLOBAL, false, strdup(g.getName().str().c_str()));
    gaddr[&g] = id << OBJ_SHIFT; idName[id] = g.getName().str();
    if (g.isThreadLocal()) g_tlsGlobals[id] = true;
    if (ext && g.hasExternalWeakLinkage()) gaddr[&g] = 0;
  }
  for (GlobalVariable &g : M->globals()) if (g.hasInitializer()) {
    uint64_t id = gaddr[&g] >> OBJ_SHIFT;
    Obj *o = init.mem.findW(id);
    if (g.getName() == "llvm.global_ctors" || g.getName() == "llvm.used" || g.getName() == "llvm.compiler.used" || g.getName() == "llvm.global_dtors") continue;
    writeConst(g.getInitializer(), o->data);
    if (g.isConstant()) o->ro = 1;
  }
  if (GlobalVariable *gc = M->getNamedGlobal("llvm.global_ctors")) if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
    std::vector<std::pair<uint64_t, Fn *>> v;
    for (auto &op : ca->operands()) {
      auto *s = cast<ConstantStruct>(op);
      if (auto *f = dyn_cast<Function>(s->getOperand(1)->stripPointerCasts())) v.push_back({cast<ConstantInt>(s->getOperand(0))->getZExtValue(), fnOf[f]});
    }
    std::stable_sort(v.begin(), v.end(), [](auto &a, auto &b) { return a.first < b.first; });
    for (auto &x : v) g_ctors.push_back(x.second);
  }
  return true;
}

// ---- function lowering ----
namespace {
struct Lower {
  Fn *fn; Function *F;
  DenseMap<const Value *, int32_t> slot;
  DenseMap<const BasicBlock *, uint32_t> blockPc;
  struct Fix { int edge; const BasicBlock *from, *to; };
  std::vector<Fix> fixes;
  const Instruction *cur = nullptr;

  int32_t newSlots(unsigned n) { int32_t s = fn->nslots; fn->nslots += n; return s; }
  int32_t op(const Value *v) {
    auto it = slot.find(v);
    if (it != slot.end()) return it->second;
    if (auto *c = dyn_cast<Constant>(v)) {
      if (isa<UndefValue>(c) && !isa<PoisonValue>(c) && !c->getType()->isStructTy() && !c->getType()->isArrayTy() && !c->getType()->isVectorTy()) {
        int32_t s = newSlots(1); emit(O_UNDEF, width(c->getType()), s); return s;
      }
      auto ci = constIdx.find(c);
      if (ci != constIdx.end()) return ci->second;
      std::vector<Val> vs; flatConst(c, vs);
      // constants need ascending slots under ~idx addressing, so store reversed
      int32_t base = (int32_t)g_consts.size();
      for (auto i = vs.rbegin(); i != vs.rend(); ++i) g_consts.push_back(*i);
      if (vs.empty()) g_consts.push_back(cval(0));
      int32_t r = ~(int32_t)(g_consts.size() - 1); (void)base;
      constIdx[c] = r;
      return r;
    }
    if (isa<MetadataAsValue>(v) || isa<BasicBlock>(v) || isa<InlineAsm>(v)) return 0;
    errs() << "operand without slot in " << F->getName() << ": " << *v << "\n"; abort();
  }
  Inst &emit(Op o, unsigned w, int32_t dst, int32_t a = 0, int32_t b = 0, int32_t c = 0, uint32_t x = 0, int64_t imm = 0, unsigned w2 = 0) {
    Inst i; i.op = o; i.w = w; i.w2 = w2; i.flag = 0; i.dst = dst; i.a = a; i.b = b; i.c = c; i.x = x; i.imm = imm;
    fn->code.push_back(i); fn->src.push_back((void *)cur);
    return fn->code.back();
  }
  int edge(const BasicBlock *from, const BasicBlock *to) { int e = fn->edges.size(); fn->edges.push_back(Edge()); fixes.push_back({e, from, to}); return e; }

  void run() {
    for (auto &a : F->args()) {
      unsigned n = nslots(a.getType()); int32_t s = newSlots(n); slot[&a] = s;
      for (unsigned i = 0; i < n; i++) fn->argSlots.push_back(s + i);
    }
    for (auto &bb : *F) for (auto &I : bb) { unsigned n = nslots(I.getType()); if (n || I.getType()->isSized()) slot[&I] = newSlots(n); }
    for (auto &bb : *F) {
      blockPc[&bb] = fn->code.size();
      for (auto &I : bb) { cur = &I; if (!isa<PHINode>(I)) lower(I); }
      if (fn->code.size() == blockPc[&bb]) { emit(O_UNREACH, 0, 0); }
    }
    // edges: phi undef constants would emit code, so map them to constant 0 slots via fresh slots
    for (auto &f : fixes) {
      Edge &e = fn->edges[f.edge];
      e.target = blockPc[f.to];
      for (auto &I : *f.to) {
        auto *p = dyn_cast<PHINode>(&I); if (!p) break;
        const Value *v = p->getIncomingValueForBlock(f.from);
        unsigned n = nslots(p->getType());
        int32_t d = slot[p];
        if (isa<UndefValue>(v) && n == 1) { if (!isa<PoisonValue>(v)) e.moves.push_back({d, INT32_MIN + (int)width(p->getType())}); else e.moves.push_back({d, op(Constant::getNullValue(p->getType()))}); continue; }
        int32_t s = op(v);
        for (unsigned k = 0; k < n; k++) e.moves.push_back({d + (int32_t)k, s + (s < 0 ? (int32_t)k : (int32_t)k)});
      }
    }
    fn->hit.assign(fn->code.size(), 0);
  }
  // operand k-th slot: constants are stored so that idx+k works as well (~(n-1-..) ascending)
  void unsup(const Instruction &I, const char *why) { emit(O_UNSUP, 0, 0); (void)I; (void)why; }

  void lower(Instruction &I) {
    Type *T = I.getType();
    unsigned n = nslots(T);
    int32_t d = slot.count(&I) ? slot[&I] : 0;
    auto elt = [&](Type *t) { return t->isVectorTy() ? cast<VectorType>(t)->getElementType() : t; };
    if (auto *bo = dyn_cast<BinaryOperator>(&I)) {
      unsigned w = width(elt(T));
      static const std::map<unsigned, std::pair<Op, int>> m = {
        {Instruction::Add, {O_ADD, 0}}, {Instruction::Sub, {O_SUB, 0}}, {Instruction::Mul, {O_MUL, 0}}, {Instruction::UDiv, {O_UDIV, 0}}, {Instruction::SDiv, {O_SDIV, 0}},
        {Instruction::URem, {O_UREM, 0}}, {Instruction::SRem, {O_SREM, 0}}, {Instruction::And, {O_AND, 0}}, {Instruction::Or, {O_OR, 0}}, {Instruction::Xor, {O_XOR, 0}},
        {Instruction::Shl, {O_SHL, 0}}, {Instruction::LShr, {O_LSHR, 0}}, {Instruction::AShr, {O_ASHR, 0}},
        {Instruction::FAdd, {O_FBIN, K_FADD}}, {Instruction::FSub, {O_FBIN, K_FSUB}}, {Instruction::FMul, {O_FBIN, K_FMUL}}, {Instruction::FDiv, {O_FBIN, K_FDIV}}, {Instruction::FRem, {O_FBIN, K_FREM}}};
      auto &p = m.at(bo->getOpcode());
      if (w > 64 && elt(T)->isX86_FP80Ty()) { unsup(I, "fp80"); return; }
      int32_t a = op(I.getOperand(0)), b = op(I.getOperand(1));
      for (unsigned k = 0; k < n; k++) emit(p.first, w, d + k, a + k, b + k, 0, p.second);
      return;
    }
    if (auto *ci = dyn_cast<ICmpInst>(&I)) {
      Type *ot = elt(ci->getOperand(0)->getType());
      static const std::map<unsigned, int> pm = {{CmpInst::ICMP_EQ, P_EQ}, {CmpInst::ICMP_NE, P_NE}, {CmpInst::ICMP_UGT, P_UGT}, {CmpInst::ICMP_UGE, P_UGE}, {CmpInst::ICMP_ULT, P_ULT}, {CmpInst::ICMP_ULE, P_ULE}, {CmpInst::ICMP_SGT, P_SGT}, {CmpInst::ICMP_SGE, P_SGE}, {CmpInst::ICMP_SLT, P_SLT}, {CmpInst::ICMP_SLE, P_SLE}};
      int32_t a = op(I.getOperand(0)), b = op(I.getOperand(1));
      for (unsigned k = 0; k < n; k++) emit(O_ICMP, width(ot), d + k, a + k, b + k, 0, pm.at(ci->getPredicate()));
      return;
    }
    if (auto *fc = dyn_cast<FCmpInst>(&I)) {
      Type *ot = elt(fc->getOperand(0)->getType());
      if (ot->isX86_FP80Ty()) { unsup(I, "fp80"); return; }
      int32_t a = op(I.getOperand(0)), b = op(I.getOperand(1));
      for (unsigned k = 0; k < n; k++) emit(O_FCMP, width(ot), d + k, a + k, b + k, 0, fc->getPredicate());
      return;
    }
    if (auto *un = dyn_cast<UnaryOperator>(&I)) {
      int32_t a = op(un->getOperand(0));
      for (unsigned k = 0; k < n; k++) emit(O_FUN, width(elt(T)), d + k, a + k, 0, 0, K_FNEG, 0, width(elt(T)));
      return;
    }
    if (auto *ca = dyn_cast<CastInst>(&I)) {
      Type *st = ca->getSrcTy(); unsigned ws = width(elt(st)), wd = width(elt(T));
      if (elt(st)->isX86_FP80Ty() || elt(T)->isX86_FP80Ty()) { unsup(I, "fp80"); return; }
      int32_t a = op(ca->getOperand(0));
      auto each = [&](Op o, uint32_t x = 0) { for (unsigned k = 0; k < n; k++) emit(o, wd, d + k, a + k, 0, 0, x, 0, ws); };
      switch (ca->getOpcode()) {
      case Instruction::Trunc: each(O_TRUNC); return;
      case Instruction::ZExt: each(O_ZEXT); return;
      case Instruction::SExt: each(O_SEXT); return;
      case Instruction::FPTrunc: each(O_FUN, K_FPTRUNC); return;
      case Instruction::FPExt: each(O_FUN, K_FPEXT); return;
      case Instruction::FPToUI: each(O_FUN, K_FPTOUI); return;
      case Instruction::FPToSI: each(O_FUN, K_FPTOSI); return;
      case Instruction::UIToFP: each(O_FUN, K_UITOFP); return;
      case Instruction::SIToFP: each(O_FUN, K_SITOFP); return;
      case Instruction::PtrToInt: case Instruction::IntToPtr: each(wd < ws ? O_TRUNC : wd > ws ? O_ZEXT : O_COPY); return;
      case Instruction::AddrSpaceCast: each(O_COPY); return;
      case Instruction::BitCast: {
        unsigned ns = nslots(st);
        if (ns == n && ws == wd) { each(O_COPY); return; }
        if (n == 1 || ws * ns == wd * n) { // pack into one then unpack
          if (ws * ns > 128) { unsup(I, "wide bitcast"); return; }
          int32_t tmp = n == 1 ? d : newSlots(1);
          emit(O_PACK, ws * ns, tmp, a, ns, 0, 0, 0, ws);
          if (n > 1) emit(O_UNPACK, wd, d, tmp, n, 0, 0, 0, ws * ns);
          return;
        }
        unsup(I, "bitcast"); return; }
      default: unsup(I, "cast"); return;
      }
    }
    if (auto *s = dyn_cast<SelectInst>(&I)) {
      int32_t c = op(s->getCondition()), a = op(s->getTrueValue()), b = op(s->getFalseValue());
      bool vc = s->getCondition()->getType()->isVectorTy();
      auto ls = leaves(T);
      for (unsigned k = 0; k < n; k++) emit(O_SELECT, width(ls[k].t), d + k, a + k, b + k, vc ? c + k : c);
      return;
    }
    if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
      if (T->isVectorTy()) { unsup(I, "vector gep"); return; }
      int64_t off = 0; std::vector<GepIdx> idx;
      for (gep_type_iterator it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
        Value *v = it.getOperand();
        if (StructType *st = it.getStructTypeOrNull()) { off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(v)->getZExtValue()); continue; }
        int64_t sc = DL->getTypeAllocSize(it.getIndexedType());
        if (auto *ci = dyn_cast<ConstantInt>(v)) off += ci->getSExtValue() * sc;
        else idx.push_back({op(v), (uint16_t)width(v->getType()), sc});
      }
      int32_t a = op(g->getPointerOperand());
      fn->geps.push_back(idx);
      emit(O_GEP, 64, d, a, 0, 0, fn->geps.size() - 1, off);
      return;
    }
    if (auto *l = dyn_cast<LoadInst>(&I)) {
      int32_t a = op(l->getPointerOperand());
      if (T->isX86_FP80Ty()) { unsup(I, "fp80"); return; }
      auto ls = leaves(T);
      for (unsigned k = 0; k < n; k++) emit(O_LOAD, width(ls[k].t), d + k, a, 0, 0, 0, ls[k].off);
      return;
    }
    if (auto *s = dyn_cast<StoreInst>(&I)) {
      Type *vt = s->getValueOperand()->getType();
      if (vt->isX86_FP80Ty()) { unsup(I, "fp80"); return; }
      int32_t v = op(s->getValueOperand()), a = op(s->getPointerOperand());
      auto ls = leaves(vt);
      for (unsigned k = 0; k < ls.size(); k++) emit(O_STORE, width(ls[k].t), 0, a, v + k, 0, 0, ls[k].off);
      return;
    }
    if (auto *al = dyn_cast<AllocaInst>(&I)) {
      int32_t cnt = op(al->getArraySize());
      emit(O_ALLOCA, width(al->getArraySize()->getType()), d, cnt, 0, 0, 0, DL->getTypeAllocSize(al->getAllocatedType()));
      return;
    }
    if (auto *b = dyn_cast<BranchInst>(&I)) {
      if (b->isUnconditional()) { int e = edge(I.getParent(), b->getSuccessor(0)); emit(O_BR, 0, 0, e); }
      else { int32_t c = op(b->getCondition()); int e0 = edge(I.getParent(), b->getSuccessor(0)), e1 = edge(I.getParent(), b->getSuccessor(1)); emit(O_CBR, 0, 0, c, e0, e1); }
      return;
    }
    if (auto *sw = dyn_cast<SwitchInst>(&I)) {
      int32_t c = op(sw->getCondition());
      SwitchInfo si; si.def = edge(I.getParent(), sw->getDefaultDest());
      for (auto &cs : sw->cases()) si.cases.push_back({cs.getCaseValue()->getZExtValue(), edge(I.getParent(), cs.getCaseSuccessor())});
      fn->switches.push_back(si);
      emit(O_SWITCH, width(sw->getCondition()->getType()), 0, c, 0, 0, fn->switches.size() - 1);
      return;
    }
    if (auto *r = dyn_cast<ReturnInst>(&I)) {
      int32_t v = 0; unsigned k = 0;
      if (r->getReturnValue()) { v = op(r->getReturnValue()); k = nslots(r->getReturnValue()->getType()); }
      emit(O_RET, 0, 0, v, k);
      return;
    }
    if (auto *ev = dyn_cast<ExtractValueInst>(&I)) {
      int32_t a = op(ev->getAggregateOperand()); unsigned k0 = flatIndex(ev->getAggregateOperand()->getType(), ev->getIndices());
      for (unsigned k = 0; k < n; k++) emit(O_COPY, 0, d + k, a + k0 + k);
      return;
    }
    if (auto *iv = dyn_cast<InsertValueInst>(&I)) {
      int32_t a = op(iv->getAggregateOperand()), v = op(iv->getInsertedValueOperand()); unsigned k0 = flatIndex(T, iv->getIndices()), nv = nslots(iv->getInsertedValueOperand()->getType());
      for (unsigned k = 0; k < n; k++) emit(O_COPY, 0, d + k, (k >= k0 && k < k0 + nv) ? v + (int32_t)(k - k0) : a + (int32_t)k);
      return;
    }
    if (auto *ee = dyn_cast<ExtractElementInst>(&I)) {
      int32_t a = op(ee->getVectorOperand());
      if (auto *ci = dyn_cast<ConstantInt>(ee->getIndexOperand())) emit(O_COPY, 0, d, a + (int32_t)ci->getZExtValue());
      else unsup(I, "extractelement");
      return;
    }
    if (auto *ie = dyn_cast<InsertElementInst>(&I)) {
      int32_t a = op(ie->getOperand(0)), v = op(ie->getOperand(1));
      if (auto *ci = dyn_cast<ConstantInt>(ie->getOperand(2))) { for (unsigned k = 0; k < n; k++) emit(O_COPY, 0, d + k, k == ci->getZExtValue() ? v : a + (int32_t)k); }
      else unsup(I, "insertelement");
      return;
    }
    if (auto *sv = dyn_cast<ShuffleVectorInst>(&I)) {
      int32_t a = op(sv->getOperand(0)), b = op(sv->getOperand(1));
      int na = cast<FixedVectorType>(sv->getOperand(0)->getType())->getNumElements();
      int32_t z = op(Constant::getNullValue(elt(T)));
      for (unsigned k = 0; k < n; k++) { int m = sv->getMaskValue(k); emit(O_COPY, 0, d + k, m < 0 ? z : m < na ? a + m : b + (m - na)); }
      return;
    }
    if (isa<FreezeInst>(I)) { int32_t a = op(I.getOperand(0)); for (unsigned k = 0; k < n; k++) emit(O_COPY, 0, d + k, a + k); return; }
    if (isa<UnreachableInst>(I)) { emit(O_UNREACH, 0, 0); return; }
    if (isa<FenceInst>(I)) { emit(O_NOP, 0, 0); return; }
    if (auto *cx = dyn_cast<AtomicCmpXchgInst>(&I)) { emit(O_CMPXCHG, width(cx->getCompareOperand()->getType()), d, op(cx->getPointerOperand()), op(cx->getCompareOperand()), op(cx->getNewValOperand())); return; }
    if (auto *rm = dyn_cast<AtomicRMWInst>(&I)) { emit(O_RMW, width(T), d, op(rm->getPointerOperand()), op(rm->getValOperand()), 0, rm->getOperation()); return; }
    if (auto *lp = dyn_cast<LandingPadInst>(&I)) { emit(O_LPAD, 0, d); (void)lp; return; }
    if (auto *re = dyn_cast<ResumeInst>(&I)) { emit(O_RESUME, 0, 0, op(re->getValue())); return; }
    if (auto *va = dyn_cast<VAArgInst>(&I)) { emit(O_VAARG, width(T), d, op(va->getPointerOperand())); return; }
    if (auto *cb = dyn_cast<CallBase>(&I)) {
      if (isa<DbgInfoIntrinsic>(cb)) return;
      if (cb->isInlineAsm()) { if (n) for (unsigned k = 0; k < n; k++) emit(O_COPY, 0, d + k, op(Constant::getNullValue(Type::getInt64Ty(C)))); else emit(O_NOP, 0, 0); if (auto *iv = dyn_cast<InvokeInst>(cb)) { int e = edge(I.getParent(), iv->getNormalDest()); emit(O_BR, 0, 0, e); } return; }
      CallInfo ci;
      Value *cv = cb->getCalledOperand()->stripPointerCasts();
      if (auto *ga = dyn_cast<GlobalAlias>(cv)) cv = (Value *)ga->getAliaseeObject();
      Function *cf = dyn_cast<Function>(cv);
      if (cf) {
        if (cf->isIntrinsic()) {
          std::string nm = cf->getName().str();
          if (nm.compare(0, 9, "llvm.dbg.") == 0 || nm.find("llvm.lifetime.end") == 0 || nm == "llvm.experimental.noalias.scope.decl" || nm.find("llvm.invariant.") == 0 || nm.find("llvm.prefetch") == 0 || nm == "llvm.assume" || nm == "llvm.donothing") return;
          ci.intrinsic = intrinsicIndex(nm);
        }
        ci.fn = fnOf[cf];
      } else ci.callee = op(cb->getCalledOperand());
      ci.nfixed = 0;
      unsigned fixedArgs = cb->getFunctionType()->getNumParams();
      for (unsigned i = 0; i < cb->arg_size(); i++) {
        Value *av = cb->getArgOperand(i);
        if (av->getType()->isMetadataTy()) continue;
        int32_t a = op(av); auto ls = leaves(av->getType());
        uint32_t bv = cb->isByValArgument(i) ? DL->getTypeAllocSize(cb->getParamByValType(i)) : 0;
        for (unsigned k = 0; k < ls.size(); k++) { ci.args.push_back(a + k); ci.argw.push_back(width(ls[k].t)); ci.argByval.push_back(bv); ci.argIdx.push_back(i); ci.argFp.push_back(ls[k].t->isFloatingPointTy()); if (i < fixedArgs) ci.nfixed++; }
      }
      ci.retSlots = n;
      unsigned rw = n == 1 ? width(leaves(T)[0].t) : 0;
      if (auto *iv = dyn_cast<InvokeInst>(cb)) {
        ci.edgeNormal = edge(I.getParent(), iv->getNormalDest());
        ci.edgeUnwind = edge(I.getParent(), iv->getUnwindDest());
        auto *lp = iv->getLandingPadInst();
        ci.lpad.cleanup = lp->isCleanup();
        for (unsigned i = 0; i < lp->getNumClauses(); i++) {
          Clause cl; cl.filter = lp->isFilter(i);
          Constant *cc = lp->getClause(i);
          if (!cl.filter) cl.tis.push_back((uint64_t)evalScalar(cc));
          else if (auto *ca = dyn_cast<ConstantArray>(cc)) for (auto &o : ca->operands()) cl.tis.push_back((uint64_t)evalScalar(cast<Constant>(o)));
          ci.lpad.clauses.push_back(cl);
        }
        fn->calls.push_back(ci);
        emit(O_INVOKE, rw, d, 0, 0, 0, fn->calls.size() - 1);
      } else { fn->calls.push_back(ci); emit(O_CALL, rw, d, 0, 0, 0, fn->calls.size() - 1); }
      return;
    }
    unsup(I, "instruction");
  }
};
}

void decodeFn(Fn *f) {
  if (f->decoded) return;
  f->decoded = true;
  Lower l; l.fn = f; l.F = (Function *)f->llvm;
  l.run();
}
std::string instText(Fn *f, uint32_t pc) {
  if (pc >= f->src.size() || !f->src[pc]) return "";
  std::string s; raw_string_ostream os(s); ((Instruction *)f->src[pc])->print(os); return s;
}
std::string instLoc(Fn *f, uint32_t pc) {
  if (pc >= f->src.size() || !f->src[pc]) return f->name;
  auto *I = (Instruction *)f->src[pc];
  std::string s = llvm::demangle(f->name);
  if (auto dl = I->getDebugLoc()) {
    std::string in = " (";
    const DILocation *l = dl.get();
    std::string chain;
    while (l) { chain += (chain.empty() ? "" : " <- ") + l->getFilename().str() + ":" + std::to_string(l->getLine()); l = l->getInlinedAt(); }
    s += in + chain + ")";
  }
  return s;
}

void repoScopes(Fn *f, std::map<std::string, std::array<uint64_t, 2>> &out) {
  for (size_t pc = 0; pc < f->src.size() && pc < f->hit.size(); pc++) {
    if (!f->src[pc]) continue;
    auto dl = ((Instruction *)f->src[pc])->getDebugLoc(); if (!dl) continue;
    DISubprogram *sp = dl->getScope()->getSubprogram(); if (!sp) continue;
    std::string file = sp->getFilename().str(); if (!file.empty() && file[0] != '/') file = sp->getDirectory().str() + "/" + file;
    if (file.compare(0, 6, "/repo/") != 0) continue;
    size_t k = file.find("/icl_core/src/"); if (k != std::string::npos) file = file.substr(k + 14);
    auto &e = out[sp->getName().str() + " [" + file + ":" + std::to_string(sp->getLine()) + "]"]; e[0]++; e[1] += f->hit[pc];
  }
}

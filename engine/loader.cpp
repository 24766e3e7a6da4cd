#include "ir.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
using namespace llvm;

std::vector<Func*> g_funcs; std::unordered_map<std::string, Func*> g_funcByName;
std::vector<GlobalObj> g_globals; std::vector<std::string> g_files; std::vector<Func*> g_ctors;
static LLVMContext ctx; static std::unique_ptr<Module> M; static const DataLayout *DL;
static std::unordered_map<const GlobalVariable*, u64> gaddr; static std::unordered_map<const Function*, Func*> fmap;
static std::map<std::string, u32> fileIdx;

std::string locStr(u32 loc) { if (!loc) return "?"; u32 f = loc >> 20; return (f < g_files.size() ? g_files[f] : std::string("?")) + ":" + std::to_string(loc & 0xfffff); }
static u32 mkLoc(const DebugLoc &d) {
  if (!d) return 0; auto *sc = dyn_cast_or_null<DIScope>(d.getScope()); if (!sc) return 0;
  std::string fn = sc->getFilename().str(); auto it = fileIdx.find(fn); u32 i;
  if (it == fileIdx.end()) { i = g_files.size(); g_files.push_back(fn); fileIdx[fn] = i; } else i = it->second;
  return (i << 20) | (d.getLine() & 0xfffff);
}
static u16 ordFlags(AtomicOrdering o) { return (isAcquireOrStronger(o) ? 16 : 0) | (isReleaseOrStronger(o) ? 32 : 0); }
[[noreturn]] static void die(const std::string &s) { errs() << "loader: " << s << "\n"; exit(3); }

static unsigned scalarBits(Type *t) {
  if (t->isPointerTy()) return 64; if (auto *i = dyn_cast<IntegerType>(t)) return i->getBitWidth();
  if (t->isFloatTy()) return 32; if (t->isDoubleTy()) return 64; if (t->isHalfTy()) return 16;
  return 0;
}
static void flat(Type *t, u64 off, std::vector<MemLane> &out) {
  if (unsigned b = scalarBits(t)) { out.push_back({(u32)off, (u16)b, (u16)((b + 7) / 8)}); return; }
  if (auto *s = dyn_cast<StructType>(t)) { auto *l = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) flat(s->getElementType(i), off + l->getElementOffset(i), out); return; }
  if (auto *a = dyn_cast<ArrayType>(t)) { u64 sz = DL->getTypeAllocSize(a->getElementType()); for (u64 i = 0; i < a->getNumElements(); i++) flat(a->getElementType(), off + i * sz, out); return; }
  if (auto *v = dyn_cast<FixedVectorType>(t)) { unsigned b = scalarBits(v->getElementType()); for (unsigned i = 0; i < v->getNumElements(); i++) out.push_back({(u32)(off + (u64)i * (b / 8)), (u16)b, (u16)((b + 7) / 8)}); return; }
  if (t->isVoidTy() || t->isMetadataTy() || t->isTokenTy() || t->isLabelTy()) return;
  std::string s; raw_string_ostream o(s); t->print(o); die("type " + o.str());
}
static unsigned slotsOf(Type *t) { 
  if (scalarBits(t)) return 1; if (t->isVoidTy() || t->isMetadataTy() || t->isLabelTy()) return 0;
  if (auto *s = dyn_cast<StructType>(t)) { unsigned n = 0; for (auto *e : s->elements()) n += slotsOf(e); return n; }
  if (auto *a = dyn_cast<ArrayType>(t)) return a->getNumElements() * slotsOf(a->getElementType());
  if (auto *v = dyn_cast<FixedVectorType>(t)) return v->getNumElements();
  return 0; }

static void constVals(const Constant *c, std::vector<Val> &out);
static u64 constScalar(const Constant *c) { std::vector<Val> v; constVals(c, v); if (v.size() != 1) die("const scalar"); return v[0].c; }
static void constVals(const Constant *c, std::vector<Val> &out) {
  Type *t = c->getType();
  if (auto *ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) { if (ci->getValue().getActiveBits() > 64) die("const int >64"); } out.push_back(VC(ci->getValue().getLimitedValue() & maskw(ci->getBitWidth()))); if (ci->getBitWidth() <= 64) out.back().c = ci->getZExtValue(); return; }
  if (auto *cf = dyn_cast<ConstantFP>(c)) { out.push_back(VC(cf->getValueAPF().bitcastToAPInt().getZExtValue())); return; }
  if (isa<ConstantPointerNull>(c)) { out.push_back(VC(0)); return; }
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { unsigned n = slotsOf(t); for (unsigned i = 0; i < n; i++) out.push_back(VC(0)); return; }
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < cd->getNumElements(); i++) { if (cd->getElementType()->isIntegerTy()) out.push_back(VC(cd->getElementAsInteger(i))); else out.push_back(VC(cd->getElementAsAPFloat(i).bitcastToAPInt().getZExtValue())); } return; }
  if (auto *ca = dyn_cast<ConstantAggregate>(c)) { for (unsigned i = 0; i < ca->getNumOperands(); i++) constVals(cast<Constant>(ca->getOperand(i)), out); return; }
  if (auto *f = dyn_cast<Function>(c)) { auto it = fmap.find(f); if (it == fmap.end()) die("func addr"); out.push_back(VC(funcAddr(it->second->id))); return; }
  if (auto *g = dyn_cast<GlobalVariable>(c)) { auto it = gaddr.find(g); if (it == gaddr.end()) die("global addr " + g->getName().str()); out.push_back(VC(it->second)); return; }
  if (auto *ga = dyn_cast<GlobalAlias>(c)) { constVals(ga->getAliasee(), out); return; }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: { auto *gep = cast<GEPOperator>(ce); APInt off(64, 0); if (!gep->accumulateConstantOffset(*DL, off)) die("gep const"); out.push_back(VC(constScalar(cast<Constant>(gep->getPointerOperand())) + off.getZExtValue())); return; }
      case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::PtrToInt: case Instruction::IntToPtr: constVals(ce->getOperand(0), out); return;
      case Instruction::Sub: out.push_back(VC((constScalar(ce->getOperand(0)) - constScalar(ce->getOperand(1))) & maskw(scalarBits(t)))); return;
      case Instruction::Add: out.push_back(VC((constScalar(ce->getOperand(0)) + constScalar(ce->getOperand(1))) & maskw(scalarBits(t)))); return;
      case Instruction::Trunc: out.push_back(VC(constScalar(ce->getOperand(0)) & maskw(scalarBits(t)))); return;
      case Instruction::ICmp: { u64 a = constScalar(ce->getOperand(0)), b = constScalar(ce->getOperand(1)); bool r; switch (ce->getPredicate()) { case CmpInst::ICMP_EQ: r = a == b; break; case CmpInst::ICMP_NE: r = a != b; break; default: die("const icmp"); } out.push_back(VC(r)); return; }
      default: break; }
  }
  std::string s; raw_string_ostream o(s); c->print(o); die("constant " + o.str());
}
static void initBytes(const Constant *c, u8 *p) {
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  Type *t = c->getType();
  if (auto *cs = dyn_cast<ConstantStruct>(c)) { auto *l = DL->getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); i++) initBytes(cs->getOperand(i), p + l->getElementOffset(i)); return; }
  if (auto *ca = dyn_cast<ConstantArray>(c)) { u64 sz = DL->getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); i++) initBytes(ca->getOperand(i), p + i * sz); return; }
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { StringRef r = cd->getRawDataValues(); memcpy(p, r.data(), r.size()); return; }
  if (auto *cv = dyn_cast<ConstantVector>(c)) { u64 sz = scalarBits(cv->getType()->getElementType()) / 8; for (unsigned i = 0; i < cv->getNumOperands(); i++) initBytes(cv->getOperand(i), p + i * sz); return; }
  u64 v = constScalar(c); memcpy(p, &v, DL->getTypeStoreSize(t));
}

bool loadModule(const std::string &path) {
  SMDiagnostic e; M = parseIRFile(path, e, ctx); if (!M) { e.print("symex", errs()); return false; }
  DL = &M->getDataLayout(); g_files.push_back("?");
  for (Function &f : *M) { if (f.isIntrinsic() && f.getName().starts_with("llvm.dbg")) continue;
    Func *x = new Func; x->name = f.getName().str(); x->id = g_funcs.size(); x->llvm = &f; x->defined = !f.isDeclaration(); x->vararg = f.isVarArg(); x->nargs = f.arg_size();
    x->builtin = builtinId(x->name); fmap[&f] = x; g_funcs.push_back(x); g_funcByName[x->name] = x; }
  u64 region = GLOBAL_REGION0;
  for (GlobalVariable &g : M->globals()) { if (g.getName().starts_with("llvm.")) continue;
    GlobalObj o; o.name = g.getName().str(); o.size = g.hasInitializer() ? DL->getTypeAllocSize(g.getValueType()).getFixedValue() : 4096; o.align = g.getAlign() ? g.getAlign()->value() : 16; if (o.align < 16) o.align = 16;
    o.constant = g.isConstant(); o.addr = (region << REGION_BITS) + 4096 + o.align; region += 1 + (o.size + 16384) / REGION; gaddr[&g] = o.addr; o.data.assign(o.size, 0); g_globals.push_back(o); }
  size_t i = 0;
  for (GlobalVariable &g : M->globals()) { if (g.getName().starts_with("llvm.")) continue; if (g.hasInitializer()) initBytes(g.getInitializer(), g_globals[i].data.data()); i++; }
  if (auto *ct = M->getGlobalVariable("llvm.global_ctors")) if (ct->hasInitializer()) if (auto *ca = dyn_cast<ConstantArray>(ct->getInitializer())) for (unsigned k = 0; k < ca->getNumOperands(); k++) { auto *s = cast<ConstantStruct>(ca->getOperand(k)); if (auto *f = dyn_cast<Function>(s->getOperand(1))) g_ctors.push_back(fmap[f]); }
  return true;
}

namespace {
struct Tr {
  Func *F; Function &L; DenseMap<const Value*, i32> slot; std::map<std::pair<const Constant*, int>, i32> cslot; DenseMap<const BasicBlock*, u32> bidx;
  Tr(Func *f) : F(f), L(*(Function*)f->llvm) {}
  i32 opnd(const Value *v) {
    auto it = slot.find(v); if (it != slot.end()) return it->second;
    if (auto *c = dyn_cast<Constant>(v)) {
      i32 base = (i32)F->consts.size(); constVals(c, F->consts); if ((size_t)base == F->consts.size()) F->consts.push_back(VC(0));
      // operands are addressed as base+lane for registers and ~(base+lane) for constants
      i32 r = ~base; slot[v] = r; return r;
    }
    if (isa<InlineAsm>(v) || isa<MetadataAsValue>(v)) return ~0;
    die("operand"); }
  i32 addLanes(Type *t) { i32 s = F->lanes.size(); flat(t, 0, F->lanes); return s; }
  i32 edge(const BasicBlock *from, const BasicBlock *to) {
    Edge e; e.block = bidx[to]; e.ip = 0; e.mv = F->moves.size();
    for (const PHINode &p : to->phis()) { int i = p.getBasicBlockIndex(from); const Value *v = p.getIncomingValue(i); i32 s = opnd(v), d = slot[&p]; unsigned n = slotsOf(p.getType());
      if (isa<UndefValue>(v)) { }
      for (unsigned k = 0; k < n; k++) F->moves.push_back({d + (i32)k, s >= 0 ? s + (i32)k : ~(~s + (i32)k)}); }
    e.nmv = F->moves.size() - e.mv; F->edges.push_back(e); return F->edges.size() - 1; }
  void run() {
    i32 n = 0;
    for (Argument &a : L.args()) { slot[&a] = n; F->argSlots.push_back(n); F->byval.push_back(a.hasByValAttr() ? (u32)DL->getTypeAllocSize(a.getParamByValType()) : 0); unsigned k = slotsOf(a.getType()); F->argCounts.push_back(k); n += k; }
    u32 bi = 0; for (BasicBlock &b : L) { bidx[&b] = bi++; for (Instruction &i : b) { unsigned k = slotsOf(i.getType()); if (k) { slot[&i] = n; n += k; } } }
    F->nslots = n; F->retSlots = slotsOf(L.getReturnType()); F->cov.assign(bi, 0);
    for (BasicBlock &b : L) { F->blockIp.push_back(F->code.size()); u32 bl = 0; for (Instruction &i : b) { u32 l = mkLoc(i.getDebugLoc()); if (l && !bl) bl = l; } F->blockLoc.push_back(bl);
      for (Instruction &i : b) if (!isa<PHINode>(i)) inst(i, b); }
    for (Edge &e : F->edges) e.ip = F->blockIp[e.block];
    F->translated = true;
  }
  void unsupported(Instruction &i) { std::string s; raw_string_ostream o(s); i.print(o); Inst x{}; x.op = I_Unsupported; x.aux = F->strs.size(); F->strs.push_back(o.str()); x.loc = mkLoc(i.getDebugLoc()); F->code.push_back(x); }
  void inst(Instruction &I, BasicBlock &B) {
    Inst x{}; x.loc = mkLoc(I.getDebugLoc()); x.dst = slot.count(&I) ? slot[&I] : -1;
    Type *t = I.getType(); Type *st = t->getScalarType(); x.w = std::min(255u, scalarBits(st)); x.lanes = std::max(1u, slotsOf(t)); if (st->isPointerTy()) x.flags |= 1;
    { u32 l = x.loc; bool lib; if (l) lib = g_files[l >> 20].compare(0, 6, "/repo/") == 0; else { auto *sp = L.getSubprogram(); lib = sp && sp->getFilename().starts_with("/repo/"); } if (lib) x.flags |= 4; }
    auto push = [&] { F->code.push_back(x); };
    for (Use &u : I.operands()) { Type *ot = u->getType()->getScalarType(); if (ot->isIntegerTy() && scalarBits(ot) > 64 && !isa<CallBase>(I)) return unsupported(I); }
    if (st->isIntegerTy() && scalarBits(st) > 64) return unsupported(I);
    if (auto *bo = dyn_cast<BinaryOperator>(&I)) {
      x.a = opnd(bo->getOperand(0)); x.b = opnd(bo->getOperand(1));
      switch (bo->getOpcode()) {
        case Instruction::Add: x.sub = O_Add; break; case Instruction::Sub: x.sub = O_Sub; break; case Instruction::Mul: x.sub = O_Mul; break;
        case Instruction::UDiv: x.sub = O_UDiv; break; case Instruction::SDiv: x.sub = O_SDiv; break; case Instruction::URem: x.sub = O_URem; break; case Instruction::SRem: x.sub = O_SRem; break;
        case Instruction::And: x.sub = O_And; break; case Instruction::Or: x.sub = O_Or; break; case Instruction::Xor: x.sub = O_Xor; break;
        case Instruction::Shl: x.sub = O_Shl; break; case Instruction::LShr: x.sub = O_LShr; break; case Instruction::AShr: x.sub = O_AShr; break;
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
          x.op = I_FBin; x.sub = bo->getOpcode() - Instruction::FAdd; x.sub = bo->getOpcode() == Instruction::FAdd ? 0 : bo->getOpcode() == Instruction::FSub ? 1 : bo->getOpcode() == Instruction::FMul ? 2 : bo->getOpcode() == Instruction::FDiv ? 3 : 4; push(); return;
        default: return unsupported(I); }
      x.op = I_Bin; push(); return; }
    if (auto *c = dyn_cast<ICmpInst>(&I)) {
      x.op = I_ICmp; x.a = opnd(c->getOperand(0)); x.b = opnd(c->getOperand(1)); x.w = scalarBits(c->getOperand(0)->getType()->getScalarType()); bool sw = false, neg = false;
      switch (c->getPredicate()) { case CmpInst::ICMP_EQ: x.sub = O_Eq; break; case CmpInst::ICMP_NE: x.sub = O_Eq; neg = true; break;
        case CmpInst::ICMP_ULT: x.sub = O_Ult; break; case CmpInst::ICMP_ULE: x.sub = O_Ule; break; case CmpInst::ICMP_UGT: x.sub = O_Ult; sw = true; break; case CmpInst::ICMP_UGE: x.sub = O_Ule; sw = true; break;
        case CmpInst::ICMP_SLT: x.sub = O_Slt; break; case CmpInst::ICMP_SLE: x.sub = O_Sle; break; case CmpInst::ICMP_SGT: x.sub = O_Slt; sw = true; break; case CmpInst::ICMP_SGE: x.sub = O_Sle; sw = true; break; default: return unsupported(I); }
      if (sw) std::swap(x.a, x.b); x.c = neg; push(); return; }
    if (auto *s = dyn_cast<SelectInst>(&I)) { x.op = I_Select; x.a = opnd(s->getCondition()); x.b = opnd(s->getTrueValue()); x.c = opnd(s->getFalseValue()); x.sub = s->getCondition()->getType()->isVectorTy(); push(); return; }
    if (auto *c = dyn_cast<CastInst>(&I)) {
      x.a = opnd(c->getOperand(0)); unsigned sw = scalarBits(c->getSrcTy()->getScalarType()); x.w2 = sw;
      switch (c->getOpcode()) {
        case Instruction::Trunc: x.op = I_Trunc; break; case Instruction::ZExt: x.op = I_ZExt; break; case Instruction::SExt: x.op = I_SExt; break;
        case Instruction::PtrToInt: case Instruction::IntToPtr: x.op = x.w == sw ? I_Mov : x.w < sw ? I_Trunc : I_ZExt; break;
        case Instruction::BitCast: { unsigned sl = slotsOf(c->getSrcTy()); if (sl == x.lanes) x.op = I_Mov; else { x.op = I_Bitcast; x.b = sl; } break; }
        case Instruction::UIToFP: x.op = I_FCast; x.sub = 0; break; case Instruction::SIToFP: x.op = I_FCast; x.sub = 1; break;
        case Instruction::FPToUI: x.op = I_FCast; x.sub = 2; break; case Instruction::FPToSI: x.op = I_FCast; x.sub = 3; break;
        case Instruction::FPExt: case Instruction::FPTrunc: x.op = I_FCast; x.sub = 4; break;
        default: return unsupported(I); }
      push(); return; }
    if (auto *l = dyn_cast<LoadInst>(&I)) { x.op = I_Load; x.a = opnd(l->getPointerOperand()); x.aux = addLanes(t); x.lanes = slotsOf(t); x.b = l->getAlign().value(); x.c = DL->getTypeStoreSize(t); if (l->isAtomic()) x.flags |= 2 | ordFlags(l->getOrdering()); 
      if (t->isVectorTy() && scalarBits(st) % 8) return unsupported(I); push(); return; }
    if (auto *s = dyn_cast<StoreInst>(&I)) { Type *vt = s->getValueOperand()->getType(); x.op = I_Store; x.a = opnd(s->getPointerOperand()); x.dst = opnd(s->getValueOperand()); x.aux = addLanes(vt); x.lanes = slotsOf(vt); x.b = s->getAlign().value(); x.c = DL->getTypeStoreSize(vt); if (s->isAtomic()) x.flags |= 2 | ordFlags(s->getOrdering());
      if (vt->isVectorTy() && scalarBits(vt->getScalarType()) % 8) return unsupported(I); push(); return; }
    if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
      if (t->isVectorTy()) return unsupported(I);
      x.op = I_Gep; x.a = opnd(g->getPointerOperand()); u64 off = 0; std::vector<i32> parts;
      for (auto ti = gep_type_begin(g), te = gep_type_end(g); ti != te; ++ti) { Value *ix = ti.getOperand();
        if (StructType *s = ti.getStructTypeOrNull()) { off += DL->getStructLayout(s)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
        u64 sz = ti.getSequentialElementStride(*DL); if (auto *ci = dyn_cast<ConstantInt>(ix)) { off += sz * ci->getSExtValue(); continue; }
        parts.push_back(opnd(ix)); parts.push_back((i32)sz); parts.push_back(scalarBits(ix->getType())); }
      x.aux = F->aux.size(); x.b = parts.size() / 3; x.c = (i32)F->consts.size(); F->consts.push_back(VC(off)); F->aux.insert(F->aux.end(), parts.begin(), parts.end()); push(); return; }
    if (auto *a = dyn_cast<AllocaInst>(&I)) { x.op = I_Alloca; u64 sz = DL->getTypeAllocSize(a->getAllocatedType()); x.a = opnd(a->getArraySize()); x.w2 = 0; x.b = F->consts.size(); F->consts.push_back(VC(sz)); x.c = a->getAlign().value(); push(); return; }
    if (auto *b = dyn_cast<BranchInst>(&I)) { if (b->isConditional()) { x.op = I_CondBr; x.a = opnd(b->getCondition()); x.b = edge(&B, b->getSuccessor(0)); x.c = edge(&B, b->getSuccessor(1)); } else { x.op = I_Br; x.b = edge(&B, b->getSuccessor(0)); } push(); return; }
    if (auto *s = dyn_cast<SwitchInst>(&I)) { x.op = I_Switch; x.a = opnd(s->getCondition()); x.w = scalarBits(s->getCondition()->getType()); x.b = edge(&B, s->getDefaultDest()); std::vector<i32> v; for (auto &c : s->cases()) { v.push_back(F->consts.size()); F->consts.push_back(VC(c.getCaseValue()->getZExtValue())); v.push_back(edge(&B, c.getCaseSuccessor())); } x.aux = F->aux.size(); x.c = v.size() / 2; F->aux.insert(F->aux.end(), v.begin(), v.end()); push(); return; }
    if (auto *r = dyn_cast<ReturnInst>(&I)) { x.op = I_Ret; x.lanes = 0; if (Value *v = r->getReturnValue()) { x.a = opnd(v); x.lanes = slotsOf(v->getType()); } push(); return; }
    if (isa<UnreachableInst>(&I)) { x.op = I_Unreachable; push(); return; }
    if (isa<FreezeInst>(&I)) { x.op = I_Mov; x.a = opnd(I.getOperand(0)); push(); return; }
    if (I.getOpcode() == Instruction::FNeg) { x.op = I_FNeg; x.a = opnd(I.getOperand(0)); push(); return; }
    if (auto *c = dyn_cast<FCmpInst>(&I)) { x.op = I_FCmp; x.a = opnd(c->getOperand(0)); x.b = opnd(c->getOperand(1)); x.sub = c->getPredicate(); x.w = scalarBits(c->getOperand(0)->getType()); push(); return; }
    if (auto *e = dyn_cast<ExtractElementInst>(&I)) { x.op = I_ExtractElt; x.a = opnd(e->getVectorOperand()); x.b = opnd(e->getIndexOperand()); x.c = slotsOf(e->getVectorOperandType()); push(); return; }
    if (auto *e = dyn_cast<InsertElementInst>(&I)) { x.op = I_InsertElt; x.a = opnd(e->getOperand(0)); x.b = opnd(e->getOperand(1)); x.c = opnd(e->getOperand(2)); push(); return; }
    if (auto *s = dyn_cast<ShuffleVectorInst>(&I)) { x.op = I_Shuffle; x.a = opnd(s->getOperand(0)); x.b = opnd(s->getOperand(1)); x.c = slotsOf(s->getOperand(0)->getType()); x.aux = F->aux.size(); for (int m : s->getShuffleMask()) F->aux.push_back(m); push(); return; }
    if (auto *e = dyn_cast<ExtractValueInst>(&I)) { unsigned o = 0; Type *ct = e->getAggregateOperand()->getType(); for (unsigned ix : e->indices()) { if (auto *s = dyn_cast<StructType>(ct)) { for (unsigned k = 0; k < ix; k++) o += slotsOf(s->getElementType(k)); ct = s->getElementType(ix); } else { auto *a = cast<ArrayType>(ct); o += ix * slotsOf(a->getElementType()); ct = a->getElementType(); } }
      x.op = I_ExtractVal; x.a = opnd(e->getAggregateOperand()); x.b = o; push(); return; }
    if (auto *e = dyn_cast<InsertValueInst>(&I)) { unsigned o = 0; Type *ct = t; for (unsigned ix : e->indices()) { if (auto *s = dyn_cast<StructType>(ct)) { for (unsigned k = 0; k < ix; k++) o += slotsOf(s->getElementType(k)); ct = s->getElementType(ix); } else { auto *a = cast<ArrayType>(ct); o += ix * slotsOf(a->getElementType()); ct = a->getElementType(); } }
      x.op = I_InsertVal; x.a = opnd(e->getAggregateOperand()); x.b = opnd(e->getInsertedValueOperand()); x.c = o; x.aux = slotsOf(e->getInsertedValueOperand()->getType()); push(); return; }
    if (auto *r = dyn_cast<AtomicRMWInst>(&I)) { x.op = I_AtomicRMW; x.flags |= ordFlags(r->getOrdering()); x.a = opnd(r->getPointerOperand()); x.b = opnd(r->getValOperand()); switch (r->getOperation()) { case AtomicRMWInst::Add: x.sub = O_Add; break; case AtomicRMWInst::Sub: x.sub = O_Sub; break; case AtomicRMWInst::And: x.sub = O_And; break; case AtomicRMWInst::Or: x.sub = O_Or; break; case AtomicRMWInst::Xor: x.sub = O_Xor; break; case AtomicRMWInst::Xchg: x.sub = O_Const; break; default: return unsupported(I); } push(); return; }
    if (auto *r = dyn_cast<AtomicCmpXchgInst>(&I)) { x.op = I_CmpXchg; x.flags |= ordFlags(r->getSuccessOrdering()); x.a = opnd(r->getPointerOperand()); x.b = opnd(r->getCompareOperand()); x.c = opnd(r->getNewValOperand()); x.w = scalarBits(r->getCompareOperand()->getType()); push(); return; }
    if (auto *fe = dyn_cast<FenceInst>(&I)) { x.op = I_Fence; x.flags |= ordFlags(fe->getOrdering()); push(); return; }
    if (auto *lp = dyn_cast<LandingPadInst>(&I)) { x.op = I_LandingPad; x.aux = F->aux.size(); std::vector<i32> v; for (unsigned k = 0; k < lp->getNumClauses(); k++) { if (lp->isCatch(k)) v.push_back(opnd(lp->getClause(k))); } x.b = v.size(); x.c = lp->isCleanup(); F->aux.insert(F->aux.end(), v.begin(), v.end()); push(); return; }
    if (auto *r = dyn_cast<ResumeInst>(&I)) { x.op = I_Resume; x.a = opnd(r->getOperand(0)); push(); return; }
    if (auto *cb = dyn_cast<CallBase>(&I)) {
      if (cb->isInlineAsm()) { auto *ia = cast<InlineAsm>(cb->getCalledOperand()); x.op = I_Asm; x.aux = F->aux.size(); F->aux.push_back(F->strs.size()); F->strs.push_back(std::string(ia->getAsmString())); F->strs.push_back(std::string(ia->getConstraintString())); F->aux.push_back(cb->arg_size()); for (Use &u : cb->args()) F->aux.push_back(opnd(u.get())); 
        x.b = isa<StructType>(t) ? cast<StructType>(t)->getNumElements() : 1; push(); return; }
      Value *cv = cb->getCalledOperand()->stripPointerCasts(); Func *cf = nullptr;
      if (auto *f = dyn_cast<Function>(cv)) { if (f->isIntrinsic() && f->getName().starts_with("llvm.dbg")) return; cf = fmap[f]; }
      else if (auto *ga = dyn_cast<GlobalAlias>(cv)) { if (auto *f = dyn_cast<Function>(ga->getAliasee()->stripPointerCasts())) cf = fmap[f]; }
      x.op = I_Call; x.aux = F->aux.size(); F->aux.push_back(cf ? (i32)cf->id : -1); F->aux.push_back(cf ? 0 : opnd(cb->getCalledOperand())); F->aux.push_back(cb->arg_size());
      // invoke edges
      i32 ne = -1, ue = -1; if (auto *iv = dyn_cast<InvokeInst>(cb)) { ne = edge(&B, iv->getNormalDest()); ue = edge(&B, iv->getUnwindDest()); }
      size_t p = F->aux.size(); F->aux.push_back(ne); F->aux.push_back(ue);
      std::vector<i32> av; for (Use &u : cb->args()) { if (isa<MetadataAsValue>(u.get())) { av.push_back(~0); av.push_back(0); av.push_back(0); continue; } av.push_back(opnd(u.get())); av.push_back(slotsOf(u->getType())); av.push_back(std::min(255u, scalarBits(u->getType()->getScalarType()))); }
      (void)p; F->aux.insert(F->aux.end(), av.begin(), av.end());
      x.lanes = slotsOf(t); if (isa<StructType>(t) && x.lanes) x.w = scalarBits(cast<StructType>(t)->getElementType(0)->getScalarType());
      push(); return; }
    unsupported(I);
  }
};
}
void translate(Func *f) { if (f->translated) return; Tr t(f); t.run(); }

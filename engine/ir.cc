#include "ir.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Support/Path.h>
#include <llvm/Support/FileSystem.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Analysis/ValueTracking.h>
#include <cstring>
#include <algorithm>
using namespace llvm;
::Module M;
static LLVMContext *ctx; static std::unique_ptr<llvm::Module> LM; static const DataLayout *DL;
static std::unordered_map<const GlobalValue *, uint64_t> gaddr;
static std::unordered_map<std::string, uint32_t> fileIdx;

static void flatten(Type *t, uint64_t off, Leaves &out) {
  if (t->isVoidTy()) return;
  if (auto *s = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) flatten(s->getElementType(i), off + sl->getElementOffset(i), out); return; }
  if (auto *a = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(a->getElementType()); for (uint64_t i = 0; i < a->getNumElements(); i++) flatten(a->getElementType(), off + i * es, out); return; }
  if (auto *v = dyn_cast<FixedVectorType>(t)) { uint64_t es = DL->getTypeAllocSize(v->getElementType()); for (unsigned i = 0; i < v->getNumElements(); i++) flatten(v->getElementType(), off + i * es, out); return; }
  uint64_t w = t->isPointerTy() ? 64 : t->isX86_FP80Ty() ? 80 : DL->getTypeSizeInBits(t).getFixedValue();
  out.push_back({(uint32_t)off, (uint8_t)std::min<uint64_t>(w, 255)});
}
static unsigned nleaves(Type *t) { Leaves l; flatten(t, 0, l); return l.size(); }

static uint64_t constScalar(const Constant *c);
static void constFlat(const Constant *c, Type *t, std::vector<uint64_t> &out) {
  if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
    unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
    for (unsigned i = 0; i < n; i++) { Type *et = t->isStructTy() ? t->getStructElementType(i) : t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType();
      const Constant *e = c->getAggregateElement(i); if (!e) e = Constant::getNullValue(et); constFlat(e, et, out); }
    return;
  }
  out.push_back(constScalar(c));
}
static uint64_t trunc64(const APInt &v) { return v.extractBitsAsZExtValue(std::min(64u, v.getBitWidth()), 0); }
static uint64_t constScalar(const Constant *c) {
  if (auto *i = dyn_cast<ConstantInt>(c)) return trunc64(i->getValue());
  if (auto *f = dyn_cast<ConstantFP>(c)) return trunc64(f->getValueAPF().bitcastToAPInt());
  if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return 0;
  if (auto *g = dyn_cast<GlobalValue>(c)) { if (auto *a = dyn_cast<GlobalAlias>(g)) return constScalar(a->getAliasee()); return gaddr[g]; }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: { auto *gep = cast<GEPOperator>(ce); APInt off(64, 0); gep->accumulateConstantOffset(*DL, off); return constScalar(cast<Constant>(gep->getPointerOperand())) + off.getZExtValue(); }
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::ZExt: return constScalar(ce->getOperand(0));
    case Instruction::Trunc: return constScalar(ce->getOperand(0)) & ((1ULL << ce->getType()->getIntegerBitWidth()) - 1);
    case Instruction::Add: return constScalar(ce->getOperand(0)) + constScalar(ce->getOperand(1));
    case Instruction::Sub: return constScalar(ce->getOperand(0)) - constScalar(ce->getOperand(1));
    case Instruction::ICmp: { uint64_t a = constScalar(ce->getOperand(0)), b = constScalar(ce->getOperand(1)); return ce->getPredicate() == CmpInst::ICMP_EQ ? a == b : a != b; }
    default: errs() << "ksym: constexpr " << *ce << "\n"; return 0;
    }
  }
  if (isa<DSOLocalEquivalent>(c) || isa<NoCFIValue>(c)) return 0;
  return 0;
}
static void constBytes(const Constant *c, Type *t, std::vector<uint8_t> &buf, uint64_t off) {
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  if (auto *cds = dyn_cast<ConstantDataSequential>(c)) { StringRef r = cds->getRawDataValues(); memcpy(&buf[off], r.data(), r.size()); return; }
  if (auto *s = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) constBytes(c->getAggregateElement(i), s->getElementType(i), buf, off + sl->getElementOffset(i)); return; }
  if (auto *a = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(a->getElementType()); for (uint64_t i = 0; i < a->getNumElements(); i++) constBytes(c->getAggregateElement(i), a->getElementType(), buf, off + i * es); return; }
  if (auto *v = dyn_cast<FixedVectorType>(t)) { uint64_t es = DL->getTypeAllocSize(v->getElementType()); for (unsigned i = 0; i < v->getNumElements(); i++) constBytes(c->getAggregateElement(i), v->getElementType(), buf, off + i * es); return; }
  if (auto *ci = dyn_cast<ConstantInt>(c); ci && ci->getBitWidth() > 64) { for (unsigned i = 0; i < ci->getBitWidth() / 64; i++) { uint64_t v = ci->getValue().extractBitsAsZExtValue(64, i * 64); memcpy(&buf[off + i * 8], &v, 8); } return; }
  uint64_t v = constScalar(c); memcpy(&buf[off], &v, std::min<uint64_t>(8, DL->getTypeStoreSize(t)));
}

void ::Module::load(const std::vector<std::string> &paths) {
  ctx = new LLVMContext; SMDiagnostic err;
  LM = parseIRFile(paths[0], err, *ctx);
  if (!LM) { err.print("ksym", errs()); exit(3); }
  DL = new DataLayout(LM.get());
  for (auto &f : *LM) {
    if (f.isIntrinsic() && f.getIntrinsicID() == Intrinsic::dbg_declare) continue;
    Func *x = new Func; x->name = f.getName().str(); x->isDecl = f.isDeclaration(); x->ll = &f; x->addr = winAddr(nextWin++); x->vararg = f.isVarArg();
    gaddr[&f] = x->addr; funcs.push_back(x); fByName[x->name] = x; fByAddr[x->addr] = x;
  }
  for (auto &g : LM->globals()) {
    if (g.getName().starts_with("llvm.")) continue;
    GlobalInit gi; gi.name = g.getName().str(); gi.addr = winAddr(nextWin++); gi.size = DL->getTypeAllocSize(g.getValueType()); gi.ro = g.isConstant(); gi.tls = g.isThreadLocal(); gi.external = g.isDeclaration();
    if (gi.external) { gi.size = std::max<uint64_t>(gi.size, 256); gi.ro = false; }
    gaddr[&g] = gi.addr; gByName[gi.name] = globals.size(); globals.push_back(gi);
  }
  size_t i = 0;
  for (auto &g : LM->globals()) {
    if (g.getName().starts_with("llvm.")) continue;
    GlobalInit &gi = globals[i++]; gi.bytes.assign(gi.size, 0);
    if (g.hasInitializer()) constBytes(g.getInitializer(), g.getValueType(), gi.bytes, 0);
  }
  for (auto &a : LM->aliases()) { if (auto *f = dyn_cast<Function>(a.getAliaseeObject())) { auto *t = fByAddr[gaddr[f]]; fByName[a.getName().str()] = t; gaddr[&a] = t->addr; } }
  if (auto *gv = LM->getNamedGlobal("llvm.global_ctors")) if (gv->hasInitializer()) {
    std::vector<std::pair<uint64_t, Func *>> l; auto *ca = dyn_cast<ConstantArray>(gv->getInitializer());
    if (ca) for (auto &o : ca->operands()) { auto *cs = cast<ConstantStruct>(o); auto *f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts()); if (f) l.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), fByAddr[gaddr[f]]}); }
    std::stable_sort(l.begin(), l.end(), [](auto &x, auto &y) { return x.first < y.first; }); for (auto &p : l) ctors.push_back(p.second);
  }
}

void ::Module::compile(Func *F) {
  if (F->compiled || F->isDecl) return;
  F->compiled = true; Function &f = *(Function *)F->ll;
  if (auto *sp = f.getSubprogram()) F->srcFile = sp->getFilename().str();
  std::unordered_map<const Value *, int> slot; std::unordered_map<const BasicBlock *, int> bidx; int n = 0;
  for (auto &a : f.args()) { slot[&a] = n; n += nleaves(a.getType()); }
  F->nargs = n; int bi = 0;
  for (auto &b : f) { bidx[&b] = bi++; for (auto &ins : b) if (!ins.getType()->isVoidTy()) { slot[&ins] = n; n += nleaves(ins.getType()); } }
  std::map<uint64_t, int> cpool;
  auto cst = [&](uint64_t v) -> Opd { auto it = cpool.find(v); if (it != cpool.end()) return ~it->second; int k = F->consts.size(); F->consts.push_back(v); cpool[v] = k; return ~k; };
  auto opsOf = [&](const Value *v, std::vector<Opd> &out) {
    if (auto *c = dyn_cast<Constant>(v)) { std::vector<uint64_t> fl; constFlat(c, c->getType(), fl); for (auto x : fl) out.push_back(cst(x)); return; }
    if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) { out.push_back(cst(0)); return; }
    int s = slot.at(v); unsigned k = nleaves(v->getType()); for (unsigned i = 0; i < k; i++) out.push_back(s + i);
  };
  auto one = [&](const Value *v) { std::vector<Opd> o; opsOf(v, o); return o.empty() ? cst(0) : o[0]; };
  auto width = [&](Type *t) -> uint8_t { if (auto *v = dyn_cast<VectorType>(t)) t = v->getElementType(); return t->isPointerTy() ? 64 : t->isVoidTy() ? 0 : (uint8_t)std::min<uint64_t>(255, DL->getTypeSizeInBits(t).getFixedValue()); };
  auto edge = [&](const BasicBlock *from, const BasicBlock *to) {
    Edge e; e.block = bidx[to];
    for (auto &phi : to->phis()) { std::vector<Opd> o; opsOf(phi.getIncomingValueForBlock(from), o); int d = slot[&phi]; for (unsigned i = 0; i < o.size(); i++) e.phis.push_back({d + (int)i, o[i]}); }
    return e;
  };
  F->blocks.resize(f.size()); bi = 0;
  for (auto &b : f) {
    Blk &B = F->blocks[bi++];
    for (auto &ins : b) {
      if (isa<PHINode>(ins)) continue;
      if (isa<DbgInfoIntrinsic>(ins)) continue;
      Inst I; I.dst = ins.getType()->isVoidTy() ? -1 : slot[&ins]; I.w = width(ins.getType());
      if (auto &dl = ins.getDebugLoc()) { I.line = dl.getLine(); if (auto *sc = dyn_cast_or_null<DIScope>(dl.getScope())) { std::string fn = sc->getFilename().str(); auto it = fileIdx.find(fn); if (it == fileIdx.end()) { fileIdx[fn] = files.size(); I.file = files.size(); files.push_back(fn); } else I.file = it->second; } }
      auto unsup = [&](const char *why) { I.op = I_UNSUPPORTED; std::string s; raw_string_ostream os(s); os << why << ": " << ins; I.note = s.substr(0, 200); };
      if (auto *bo = dyn_cast<BinaryOperator>(&ins)) {
        opsOf(bo->getOperand(0), I.ops); size_t k = I.ops.size(); opsOf(bo->getOperand(1), I.ops); I.k = k; I.op = I_BIN;
        switch (bo->getOpcode()) {
        case Instruction::Add: I.sub = B_ADD; break; case Instruction::Sub: I.sub = B_SUB; break; case Instruction::Mul: I.sub = B_MUL; break;
        case Instruction::UDiv: I.sub = B_UDIV; break; case Instruction::SDiv: I.sub = B_SDIV; break; case Instruction::URem: I.sub = B_UREM; break; case Instruction::SRem: I.sub = B_SREM; break;
        case Instruction::And: I.sub = B_AND; break; case Instruction::Or: I.sub = B_OR; break; case Instruction::Xor: I.sub = B_XOR; break;
        case Instruction::Shl: I.sub = B_SHL; break; case Instruction::LShr: I.sub = B_LSHR; break; case Instruction::AShr: I.sub = B_ASHR; break;
        case Instruction::FAdd: I.op = I_FBIN; I.sub = 0; break; case Instruction::FSub: I.op = I_FBIN; I.sub = 1; break; case Instruction::FMul: I.op = I_FBIN; I.sub = 2; break; case Instruction::FDiv: I.op = I_FBIN; I.sub = 3; break;
        default: unsup("bin"); }
        if (I.op == I_BIN && I.w > 64) unsup("wide int");
      } else if (auto *c = dyn_cast<ICmpInst>(&ins)) {
        I.op = I_ICMP; opsOf(c->getOperand(0), I.ops); I.k = I.ops.size(); opsOf(c->getOperand(1), I.ops); I.w = width(c->getOperand(0)->getType());
        switch (c->getPredicate()) { case CmpInst::ICMP_EQ: I.sub = P_EQ; break; case CmpInst::ICMP_NE: I.sub = P_NE; break; case CmpInst::ICMP_ULT: I.sub = P_ULT; break; case CmpInst::ICMP_ULE: I.sub = P_ULE; break; case CmpInst::ICMP_UGT: I.sub = P_UGT; break; case CmpInst::ICMP_UGE: I.sub = P_UGE; break; case CmpInst::ICMP_SLT: I.sub = P_SLT; break; case CmpInst::ICMP_SLE: I.sub = P_SLE; break; case CmpInst::ICMP_SGT: I.sub = P_SGT; break; default: I.sub = P_SGE; }
        if (I.w > 64) unsup("wide cmp");
      } else if (auto *c = dyn_cast<FCmpInst>(&ins)) { I.op = I_FCMP; I.ops = {one(c->getOperand(0)), one(c->getOperand(1))}; I.w = width(c->getOperand(0)->getType()); I.sub = c->getPredicate();
      } else if (auto *c = dyn_cast<CastInst>(&ins)) {
        I.op = I_CAST; opsOf(c->getOperand(0), I.ops); I.w2 = width(c->getOperand(0)->getType());
        switch (c->getOpcode()) { case Instruction::Trunc: I.sub = C_TRUNC; break; case Instruction::ZExt: I.sub = C_ZEXT; break; case Instruction::SExt: I.sub = C_SEXT; break; case Instruction::FPToSI: I.sub = C_FPTOSI; break; case Instruction::FPToUI: I.sub = C_FPTOUI; break; case Instruction::SIToFP: I.sub = C_SITOFP; break; case Instruction::UIToFP: I.sub = C_UITOFP; break; case Instruction::FPExt: I.sub = C_FPEXT; break; case Instruction::FPTrunc: I.sub = C_FPTRUNC; break;
        default: I.sub = C_SAME; if (c->getOpcode() == Instruction::PtrToInt && I.w < 64) I.sub = C_TRUNC; if (c->getOpcode() == Instruction::IntToPtr && I.w2 < 64) I.sub = C_ZEXT; if (nleaves(c->getType()) != I.ops.size()) unsup("bitcast"); }
        if (I.w > 64 || I.w2 > 64) unsup("wide cast");
      } else if (auto *s = dyn_cast<SelectInst>(&ins)) { I.op = I_SELECT; I.ops.push_back(one(s->getCondition())); if (s->getCondition()->getType()->isVectorTy()) unsup("vsel"); opsOf(s->getTrueValue(), I.ops); opsOf(s->getFalseValue(), I.ops); flatten(s->getType(), 0, I.leaves); I.sub = s->getType()->isPointerTy();
      } else if (isa<FreezeInst>(ins)) { I.op = I_COPY; opsOf(ins.getOperand(0), I.ops);
      } else if (auto *u = dyn_cast<UnaryOperator>(&ins)) { I.op = I_FNEG; I.ops = {one(u->getOperand(0))};
      } else if (auto *ev = dyn_cast<ExtractValueInst>(&ins)) {
        std::vector<Opd> all; opsOf(ev->getAggregateOperand(), all); Type *t = ev->getAggregateOperand()->getType(); unsigned pos = 0;
        for (unsigned x : ev->indices()) { for (unsigned j = 0; j < x; j++) pos += nleaves(t->isStructTy() ? t->getStructElementType(j) : t->getArrayElementType()); t = t->isStructTy() ? t->getStructElementType(x) : t->getArrayElementType(); }
        I.op = I_COPY; for (unsigned j = 0; j < nleaves(t); j++) I.ops.push_back(all[pos + j]);
      } else if (auto *iv = dyn_cast<InsertValueInst>(&ins)) {
        std::vector<Opd> all, v; opsOf(iv->getAggregateOperand(), all); opsOf(iv->getInsertedValueOperand(), v); Type *t = iv->getAggregateOperand()->getType(); unsigned pos = 0;
        for (unsigned x : iv->indices()) { for (unsigned j = 0; j < x; j++) pos += nleaves(t->isStructTy() ? t->getStructElementType(j) : t->getArrayElementType()); t = t->isStructTy() ? t->getStructElementType(x) : t->getArrayElementType(); }
        for (unsigned j = 0; j < v.size(); j++) all[pos + j] = v[j]; I.op = I_COPY; I.ops = all;
      } else if (auto *ee = dyn_cast<ExtractElementInst>(&ins)) { std::vector<Opd> all; opsOf(ee->getVectorOperand(), all); if (auto *ci = dyn_cast<ConstantInt>(ee->getIndexOperand())) { I.op = I_COPY; I.ops = {all[ci->getZExtValue()]}; } else unsup("extractelement");
      } else if (auto *ie = dyn_cast<InsertElementInst>(&ins)) { std::vector<Opd> all; opsOf(ie->getOperand(0), all); if (auto *ci = dyn_cast<ConstantInt>(ie->getOperand(2))) { all[ci->getZExtValue()] = one(ie->getOperand(1)); I.op = I_COPY; I.ops = all; } else unsup("insertelement");
      } else if (auto *sv = dyn_cast<ShuffleVectorInst>(&ins)) { std::vector<Opd> x, y; opsOf(sv->getOperand(0), x); opsOf(sv->getOperand(1), y); I.op = I_COPY; for (int m : sv->getShuffleMask()) I.ops.push_back(m < 0 ? cst(0) : m < (int)x.size() ? x[m] : y[m - x.size()]);
      } else if (auto *al = dyn_cast<AllocaInst>(&ins)) { I.op = I_ALLOCA; I.k = DL->getTypeAllocSize(al->getAllocatedType()); I.ops = {one(al->getArraySize())};
      } else if (auto *ld = dyn_cast<LoadInst>(&ins)) { I.op = I_LOAD; I.ops = {one(ld->getPointerOperand())}; flatten(ld->getType(), 0, I.leaves); I.atomic = ld->isAtomic(); I.k = DL->getTypeStoreSize(ld->getType()); for (auto &l : I.leaves) if (l.w > 64) { unsup("wide load"); break; }
      } else if (auto *st = dyn_cast<StoreInst>(&ins)) { I.op = I_STORE; I.ops = {one(st->getPointerOperand())}; opsOf(st->getValueOperand(), I.ops); flatten(st->getValueOperand()->getType(), 0, I.leaves); I.atomic = st->isAtomic(); I.k = DL->getTypeStoreSize(st->getValueOperand()->getType()); for (auto &l : I.leaves) if (l.w > 64) { unsup("wide store"); break; }
      } else if (auto *g = dyn_cast<GetElementPtrInst>(&ins)) {
        I.op = I_GEP; I.ops = {one(g->getPointerOperand())}; if (g->getType()->isVectorTy()) unsup("vgep");
        for (auto gi = gep_type_begin(g); gi != gep_type_end(g); ++gi) {
          if (auto *s = gi.getStructTypeOrNull()) I.k += DL->getStructLayout(s)->getElementOffset(cast<ConstantInt>(gi.getOperand())->getZExtValue());
          else { int64_t sc = DL->getTypeAllocSize(gi.getIndexedType()); if (auto *ci = dyn_cast<ConstantInt>(gi.getOperand())) I.k += ci->getSExtValue() * sc; else I.idx.push_back({one(gi.getOperand()), width(gi.getOperand()->getType()), sc}); }
        }
      } else if (auto *cb = dyn_cast<CallBase>(&ins)) {
        I.op = isa<InvokeInst>(cb) ? I_INVOKE : I_CALL; flatten(cb->getType(), 0, I.leaves);
        for (unsigned i = 0; i < cb->arg_size(); i++) { size_t k = I.ops.size(); opsOf(cb->getArgOperand(i), I.ops); if (cb->isByValArgument(i)) { I.byval.resize(I.ops.size(), 0); I.byval[k] = DL->getTypeAllocSize(cb->getParamByValType(i)); } }
        I.byval.resize(I.ops.size(), 0);
        Value *cv = cb->getCalledOperand()->stripPointerCasts();
        if (auto *ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliaseeObject();
        if (auto *cf = dyn_cast<Function>(cv)) { I.callee = fByAddr[gaddr[cf]]; if (!I.callee) { I.op = I_NOP; } }
        else if (auto *ia = dyn_cast<InlineAsm>(cv)) { if (ia->getAsmString().empty() || ia->getAsmString().find("pause") != std::string::npos) { I.op = I.dst >= 0 ? I_COPY : I_NOP; if (I.dst >= 0) I.ops.resize(I.leaves.size()); } else unsup("asm"); }
        else I.fp = one(cv);
        if (auto *inv = dyn_cast<InvokeInst>(cb)) { I.edges.push_back(edge(&b, inv->getNormalDest())); I.edges.push_back(edge(&b, inv->getUnwindDest())); }
      } else if (auto *r = dyn_cast<ReturnInst>(&ins)) { I.op = I_RET; if (r->getReturnValue()) opsOf(r->getReturnValue(), I.ops);
      } else if (auto *br = dyn_cast<BranchInst>(&ins)) { if (br->isUnconditional()) { I.op = I_BR; I.edges.push_back(edge(&b, br->getSuccessor(0))); } else { I.op = I_CONDBR; I.ops = {one(br->getCondition())}; I.edges.push_back(edge(&b, br->getSuccessor(0))); I.edges.push_back(edge(&b, br->getSuccessor(1))); }
      } else if (auto *sw = dyn_cast<SwitchInst>(&ins)) { I.op = I_SWITCH; I.ops = {one(sw->getCondition())}; I.w = width(sw->getCondition()->getType()); I.edges.push_back(edge(&b, sw->getDefaultDest())); for (auto &c : sw->cases()) { I.cases.push_back(c.getCaseValue()->getZExtValue()); I.edges.push_back(edge(&b, c.getCaseSuccessor())); }
      } else if (isa<UnreachableInst>(ins)) I.op = I_UNREACHABLE;
      else if (auto *lp = dyn_cast<LandingPadInst>(&ins)) { I.op = I_LANDINGPAD; I.cleanup = lp->isCleanup(); for (unsigned i = 0; i < lp->getNumClauses(); i++) { if (lp->isCatch(i)) I.clauses.push_back({0, constScalar(lp->getClause(i))}); else I.clauses.push_back({1, 0}); }
      } else if (auto *rs = dyn_cast<ResumeInst>(&ins)) { I.op = I_RESUME; opsOf(rs->getValue(), I.ops);
      } else if (auto *rm = dyn_cast<AtomicRMWInst>(&ins)) { I.op = I_RMW; I.atomic = true; I.ops = {one(rm->getPointerOperand()), one(rm->getValOperand())}; I.sub = rm->getOperation();
      } else if (auto *cx = dyn_cast<AtomicCmpXchgInst>(&ins)) { I.op = I_CMPXCHG; I.atomic = true; I.ops = {one(cx->getPointerOperand()), one(cx->getCompareOperand()), one(cx->getNewValOperand())}; I.w = width(cx->getCompareOperand()->getType());
      } else if (isa<FenceInst>(ins)) I.op = I_NOP;
      else unsup("instruction");
      B.insts.push_back(std::move(I));
    }
  }
  F->nslots = n;
}

// Inserts a call of ks_preempt before every access to memory other than the function's own stack slots in the functions
// whose source file (or name) matches, so that both the engine and the native replay may switch threads there.
int instrumentModule(const std::string &in, const std::string &out, const std::vector<std::string> &match) {
  LLVMContext C; SMDiagnostic err; auto m = parseIRFile(in, err, C); if (!m) { err.print("ksym", errs()); return 3; }
  FunctionCallee P = m->getOrInsertFunction("ks_preempt", FunctionType::get(Type::getVoidTy(C), false)); int n = 0;
  for (auto &f : *m) {
    if (f.isDeclaration()) continue; f.addFnAttr(Attribute::SanitizeAddress);
    std::string src = f.getName().str(); if (auto *sp = f.getSubprogram()) src += " " + (sp->getDirectory() + "/" + sp->getFilename()).str() + " " + sp->getFilename().str();
    bool hit = false; for (auto &x : match) if (src.find(x) != std::string::npos) hit = true;
    if (src.find("/bits/atomic_base.h") != std::string::npos || (src.size() > 7 && src.find("/atomic ") != std::string::npos)) hit = true; // std::atomic itself
    if (!hit) continue;
    std::vector<Instruction *> at;
    for (auto &b : f) for (auto &i : b) {
      const Value *p = nullptr;
      if (auto *l = dyn_cast<LoadInst>(&i)) p = l->getPointerOperand(); else if (auto *st = dyn_cast<StoreInst>(&i)) p = st->getPointerOperand(); else if (auto *r = dyn_cast<AtomicRMWInst>(&i)) p = r->getPointerOperand(); else if (auto *c = dyn_cast<AtomicCmpXchgInst>(&i)) p = c->getPointerOperand();
      if (!p) continue; const Value *o = getUnderlyingObject(p); if (isa<AllocaInst>(o)) continue; if (auto *g = dyn_cast<GlobalVariable>(o)) if (g->isConstant() || g->isThreadLocal()) continue;
      if (auto *ii = dyn_cast<IntrinsicInst>(o)) if (ii->getIntrinsicID() == Intrinsic::threadlocal_address) continue;
      at.push_back(&i); }
    for (auto *i : at) { auto *c = CallInst::Create(P, "", i); DebugLoc dl = i->getDebugLoc(); if (!dl) if (auto *sp = f.getSubprogram()) dl = DILocation::get(C, sp->getLine(), 0, sp); c->setDebugLoc(dl); n++; }
  }
  std::error_code ec; raw_fd_ostream os(out, ec); if (ec) return 3; WriteBitcodeToFile(*m, os); fprintf(stderr, "instrumented %d accesses\n", n); return 0;
}

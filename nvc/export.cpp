// nvc exporter: LLVM bitcode -> line-oriented JSON (one line per function / global), with the data layout applied.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/CFG.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/ADT/SmallString.h"
#include "llvm/ADT/APFloat.h"
#include "llvm/ADT/MapVector.h"
#include <map>
#include <string>
#include <set>
using namespace llvm;
static const DataLayout *DL;
static std::map<const Value *, int> ids;
static std::string esc(StringRef s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}
static std::string ty(Type *t) {
  if (t->isVoidTy()) return "\"void\"";
  if (t->isIntegerTy()) return "\"i" + std::to_string(t->getIntegerBitWidth()) + "\"";
  if (t->isPointerTy()) return "\"ptr\"";
  if (t->isFloatTy()) return "\"float\"";
  if (t->isDoubleTy()) return "\"double\"";
  if (t->isX86_FP80Ty()) return "\"fp80\"";
  if (auto *s = dyn_cast<StructType>(t)) {
    if (s->isOpaque()) return "\"opaque\"";
    std::string o = "[\"s\"," + std::to_string(DL->getTypeAllocSize(t)) + ",[";
    auto *sl = DL->getStructLayout(s);
    for (unsigned i = 0; i < s->getNumElements(); i++) {
      if (i) o += ",";
      o += "[" + std::to_string((uint64_t)sl->getElementOffset(i)) + "," + ty(s->getElementType(i)) + "]";
    }
    return o + "]]";
  }
  if (auto *a = dyn_cast<ArrayType>(t))
    return "[\"a\"," + std::to_string(DL->getTypeAllocSize(t)) + "," + std::to_string(a->getNumElements()) + "," +
           ty(a->getElementType()) + "," + std::to_string(DL->getTypeAllocSize(a->getElementType())) + "]";
  if (auto *v = dyn_cast<FixedVectorType>(t))
    return "[\"vec\"," + std::to_string(v->getNumElements()) + "," + ty(v->getElementType()) + "]";
  std::string r; raw_string_ostream os(r); t->print(os); return esc(os.str());
}
static std::string val(const Value *v);
static std::string gepstr(const GEPOperator *g) {
  unsigned bw = 64;
  MapVector<Value *, APInt> vo; APInt co(bw, 0);
  if (!g->collectOffset(*DL, bw, vo, co)) return "[\"badgep\"]";
  std::string o = val(g->getPointerOperand()) + "," + std::to_string(co.getSExtValue()) + ",[";
  bool f = true;
  for (auto &p : vo) {
    if (!f) o += ","; f = false;
    o += "[" + std::to_string(p.second.getSExtValue()) + "," + val(p.first) + "," + ty(p.first->getType()) + "]";
  }
  return o + "]";
}
static std::string gname(const GlobalValue *g) { return esc(g->getName()); }
static std::string val(const Value *v) {
  if (auto *ci = dyn_cast<ConstantInt>(v)) {
    SmallString<32> s; ci->getValue().toString(s, 10, false);
    return "[\"c\"," + std::to_string(ci->getBitWidth()) + ",\"" + std::string(s) + "\"]";
  }
  if (isa<ConstantPointerNull>(v)) return "[\"null\"]";
  if (auto *f = dyn_cast<ConstantFP>(v)) {
    SmallString<40> s; f->getValueAPF().bitcastToAPInt().toString(s, 10, false);
    return "[\"fp\"," + ty(v->getType()) + ",\"" + std::string(s) + "\"]";
  }
  if (isa<UndefValue>(v)) return "[\"undef\"," + ty(v->getType()) + "]";
  if (isa<ConstantAggregateZero>(v)) return "[\"zero\"," + ty(v->getType()) + "]";
  if (auto *ga = dyn_cast<GlobalAlias>(v)) return val(ga->getAliasee());
  if (auto *g = dyn_cast<GlobalValue>(v)) return "[\"g\"," + gname(g) + "]";
  if (auto *ce = dyn_cast<ConstantExpr>(v)) {
    if (auto *g = dyn_cast<GEPOperator>(ce)) return "[\"gep\"," + gepstr(g) + "]";
    std::string o = "[\"ce\"," + esc(ce->getOpcodeName()) + "," + ty(ce->getType());
    for (auto &u : ce->operands()) o += "," + val(u.get());
    return o + "]";
  }
  if (auto *ca = dyn_cast<ConstantDataSequential>(v)) {
    std::string o = "[\"cds\"," + ty(v->getType()) + ",\"";
    for (unsigned char c : ca->getRawDataValues()) { char b[3]; snprintf(b, 3, "%02x", c); o += b; }
    return o + "\"]";
  }
  if (auto *ca = dyn_cast<ConstantAggregate>(v)) {
    std::string o = "[\"agg\"," + ty(v->getType()) + ",[";
    for (unsigned i = 0; i < ca->getNumOperands(); i++) { if (i) o += ","; o += val(ca->getOperand(i)); }
    return o + "]]";
  }
  auto it = ids.find(v);
  if (it != ids.end()) return "[\"v\"," + std::to_string(it->second) + "]";
  if (isa<MetadataAsValue>(v)) return "[\"md\"]";
  if (isa<InlineAsm>(v)) return "[\"asm\"]";
  return "[\"unk\"]";
}
static std::string callparts(const CallBase *cb) {
  std::string o = ",\"callee\":" + val(cb->getCalledOperand()) + ",\"a\":[";
  for (unsigned i = 0; i < cb->arg_size(); i++) {
    if (i) o += ",";
    o += val(cb->getArgOperand(i));
  }
  o += "],\"at\":[";
  for (unsigned i = 0; i < cb->arg_size(); i++) { if (i) o += ","; o += ty(cb->getArgOperand(i)->getType()->isMetadataTy() ? Type::getVoidTy(cb->getContext()) : cb->getArgOperand(i)->getType()); }
  o += "]";
  std::string bv;
  for (unsigned i = 0; i < cb->arg_size(); i++)
    if (cb->isByValArgument(i)) { bv += (bv.empty() ? "" : ",") + std::string("[") + std::to_string(i) + "," + std::to_string(DL->getTypeAllocSize(cb->getParamByValType(i))) + "]"; }
  if (!bv.empty()) o += ",\"byval\":[" + bv + "]";
  if (cb->doesNotThrow()) o += ",\"nt\":1";
  return o;
}
int main(int argc, char **argv) {
  LLVMContext ctx; SMDiagnostic err;
  auto M = parseIRFile(argv[1], err, ctx);
  if (!M) { err.print("export", errs()); return 1; }
  std::error_code ec; raw_fd_ostream os(argv[2], ec);
  DL = &M->getDataLayout();
  for (auto &g : M->globals()) {
    os << "G\t" << g.getName() << "\t{\"n\":" << gname(&g) << ",\"const\":" << (g.isConstant() ? 1 : 0)
       << ",\"local\":" << (g.hasLocalLinkage() ? 1 : 0) << ",\"tls\":" << (g.isThreadLocal() ? 1 : 0)
       << ",\"size\":" << (g.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(g.getValueType()) : 0)
       << ",\"t\":" << ty(g.getValueType());
    if (g.hasInitializer()) os << ",\"init\":" << val(g.getInitializer());
    os << "}\n";
  }
  for (auto &a : M->aliases()) os << "A\t" << a.getName() << "\t{\"n\":" << esc(a.getName()) << ",\"to\":" << val(a.getAliasee()) << "}\n";
  for (auto &F : *M) {
    std::string dn = demangle(F.getName().str());
    if (F.isDeclaration()) { os << "D\t" << F.getName() << "\t{\"dn\":" << esc(dn) << "}\n"; continue; }
    ids.clear(); int n = 0;
    for (auto &A : F.args()) ids[&A] = n++;
    std::map<const BasicBlock *, int> bid; int bn = 0;
    for (auto &B : F) { bid[&B] = bn++; for (auto &I : B) ids[&I] = n++; }
    os << "F\t" << F.getName() << "\t{\"n\":" << gname(&F) << ",\"dn\":" << esc(dn) << ",\"local\":" << (F.hasLocalLinkage() ? 1 : 0)
       << ",\"va\":" << (F.isVarArg() ? 1 : 0) << ",\"ret\":" << ty(F.getReturnType()) << ",\"args\":[";
    bool first = true;
    for (auto &A : F.args()) {
      if (!first) os << ","; first = false;
      os << "{\"t\":" << ty(A.getType()) << ",\"n\":" << esc(A.getName());
      if (A.hasStructRetAttr()) os << ",\"sret\":" << (uint64_t)DL->getTypeAllocSize(A.getParamStructRetType());
      if (A.hasByValAttr()) os << ",\"byval\":" << (uint64_t)DL->getTypeAllocSize(A.getParamByValType());
      os << "}";
    }
    os << "],\"blocks\":[";
    bool fb = true;
    for (auto &B : F) {
      if (!fb) os << ","; fb = false;
      os << "[";
      bool fi = true;
      for (auto &I : B) {
        if (isa<DbgInfoIntrinsic>(I)) continue;
        if (auto *ii = dyn_cast<IntrinsicInst>(&I)) {
          auto id = ii->getIntrinsicID();
          if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::assume ||
              id == Intrinsic::experimental_noalias_scope_decl) continue;
        }
        if (!fi) os << ","; fi = false;
        os << "{\"i\":" << ids[&I] << ",\"op\":" << esc(I.getOpcodeName()) << ",\"t\":" << ty(I.getType());
        if (auto &dl = I.getDebugLoc()) os << ",\"ln\":" << dl.getLine();
        if (auto *x = dyn_cast<AllocaInst>(&I)) {
          os << ",\"size\":" << (uint64_t)DL->getTypeAllocSize(x->getAllocatedType()) << ",\"at\":" << ty(x->getAllocatedType()) << ",\"o\":[" << val(x->getArraySize()) << "]";
        } else if (auto *x = dyn_cast<GetElementPtrInst>(&I)) {
          os << ",\"gep\":[" << gepstr(cast<GEPOperator>(x)) << "]";
        } else if (auto *x = dyn_cast<PHINode>(&I)) {
          os << ",\"in\":[";
          for (unsigned i = 0; i < x->getNumIncomingValues(); i++) {
            if (i) os << ",";
            os << "[" << val(x->getIncomingValue(i)) << "," << bid[x->getIncomingBlock(i)] << "]";
          }
          os << "]";
        } else if (auto *x = dyn_cast<BranchInst>(&I)) {
          if (x->isConditional()) os << ",\"o\":[" << val(x->getCondition()) << "]";
          os << ",\"s\":[";
          for (unsigned i = 0; i < x->getNumSuccessors(); i++) { if (i) os << ","; os << bid[x->getSuccessor(i)]; }
          os << "]";
        } else if (auto *x = dyn_cast<SwitchInst>(&I)) {
          os << ",\"o\":[" << val(x->getCondition()) << "],\"def\":" << bid[x->getDefaultDest()] << ",\"cases\":[";
          bool f = true;
          for (auto &c : x->cases()) { if (!f) os << ","; f = false; os << "[" << val(c.getCaseValue()) << "," << bid[c.getCaseSuccessor()] << "]"; }
          os << "]";
        } else if (auto *x = dyn_cast<InvokeInst>(&I)) {
          os << callparts(x) << ",\"nd\":" << bid[x->getNormalDest()] << ",\"ud\":" << bid[x->getUnwindDest()];
        } else if (auto *x = dyn_cast<CallBase>(&I)) {
          os << callparts(x);
        } else if (auto *x = dyn_cast<LandingPadInst>(&I)) {
          os << ",\"cleanup\":" << (x->isCleanup() ? 1 : 0) << ",\"cl\":[";
          for (unsigned i = 0; i < x->getNumClauses(); i++) { if (i) os << ","; os << "[" << (x->isCatch(i) ? "\"catch\"" : "\"filter\"") << "," << val(x->getClause(i)) << "]"; }
          os << "]";
        } else if (auto *x = dyn_cast<ExtractValueInst>(&I)) {
          os << ",\"o\":[" << val(x->getAggregateOperand()) << "],\"ix\":[";
          bool f = true; for (unsigned k : x->indices()) { if (!f) os << ","; f = false; os << k; } os << "]";
        } else if (auto *x = dyn_cast<InsertValueInst>(&I)) {
          os << ",\"o\":[" << val(x->getAggregateOperand()) << "," << val(x->getInsertedValueOperand()) << "],\"ot\":" << ty(x->getInsertedValueOperand()->getType()) << ",\"ix\":[";
          bool f = true; for (unsigned k : x->indices()) { if (!f) os << ","; f = false; os << k; } os << "]";
        } else {
          if (auto *x = dyn_cast<CmpInst>(&I)) os << ",\"p\":" << esc(CmpInst::getPredicateName(x->getPredicate()));
          if (auto *x = dyn_cast<OverflowingBinaryOperator>(&I)) { if (x->hasNoSignedWrap()) os << ",\"nsw\":1"; if (x->hasNoUnsignedWrap()) os << ",\"nuw\":1"; }
          if (auto *x = dyn_cast<AtomicRMWInst>(&I)) os << ",\"rmw\":" << esc(AtomicRMWInst::getOperationName(x->getOperation()));
          os << ",\"o\":[";
          for (unsigned i = 0; i < I.getNumOperands(); i++) { if (i) os << ","; os << val(I.getOperand(i)); }
          os << "],\"ot\":[";
          for (unsigned i = 0; i < I.getNumOperands(); i++) { if (i) os << ","; os << ty(I.getOperand(i)->getType()); }
          os << "]";
        }
        os << "}";
      }
      os << "]";
    }
    os << "]}\n";
  }
  return 0;
}

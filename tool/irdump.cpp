// irdump: load one LLVM bitcode module, promote allocas to SSA, and print a
// compact JSON description with struct fields resolved to source names.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Dominators.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/JSON.h"
#include "llvm/Transforms/Utils/PromoteMemToReg.h"
#include "llvm/Transforms/Utils/Local.h"
#include <map>
#include <string>
using namespace llvm;
namespace js = llvm::json;

static const DataLayout *DL;
static std::map<std::string, const DICompositeType *> Structs;   // name -> DI
static std::map<const StructType *, std::string> StructName;

static std::string stripName(StringRef n) {
  std::string s = n.str();
  if (s.rfind("struct.", 0) == 0) s = s.substr(7);
  else if (s.rfind("union.", 0) == 0) s = s.substr(6);
  size_t p = s.rfind('.');
  if (p != std::string::npos && p + 1 < s.size()) {
    bool dig = true;
    for (size_t i = p + 1; i < s.size(); i++) if (!isdigit((unsigned char)s[i])) dig = false;
    if (dig && s.rfind("anon", 0) != 0) s = s.substr(0, p);
  }
  return s;
}

static std::string fieldName(StructType *ST, unsigned idx) {
  std::string sn = ST->hasName() ? stripName(ST->getName()) : std::string("lit");
  uint64_t off = DL->getStructLayout(ST)->getElementOffset(idx);
  auto it = Structs.find(sn);
  if (it != Structs.end()) {
    for (auto *e : it->second->getElements())
      if (auto *m = dyn_cast<DIDerivedType>(e)) {
        if (m->getTag() != dwarf::DW_TAG_member) continue;
        if (m->isBitField()) continue;
        if (m->getOffsetInBits() == off * 8) {
          if (m->getName().empty()) return sn + ".@" + std::to_string(off);
          return sn + "." + m->getName().str();
        }
      }
  }
  return sn + ".@" + std::to_string(off);
}

static std::string tyStr(Type *T) {
  if (T->isPointerTy()) return "p";
  if (auto *I = dyn_cast<IntegerType>(T)) return "i" + std::to_string(I->getBitWidth());
  if (T->isVoidTy()) return "v";
  if (T->isDoubleTy()) return "d";
  if (T->isFloatTy()) return "f";
  if (auto *S = dyn_cast<StructType>(T)) return "S:" + (S->hasName() ? stripName(S->getName()) : std::string("lit"));
  if (auto *A = dyn_cast<ArrayType>(T)) return "A" + std::to_string(A->getNumElements()) + ":" + tyStr(A->getElementType());
  std::string s; raw_string_ostream os(s); T->print(os); return os.str();
}

struct FnCtx { std::map<const Value *, int> ids; };

static js::Value operand(const Value *V, FnCtx *C);

static js::Array gepPath(const GEPOperator *G, FnCtx *C) {
  js::Array path;
  Type *cur = G->getSourceElementType();
  bool first = true;
  for (auto it = G->idx_begin(); it != G->idx_end(); ++it) {
    Value *ix = *it;
    if (first) {
      first = false;
      if (auto *ci = dyn_cast<ConstantInt>(ix)) {
        if (ci->isZero()) continue;
      }
      js::Array e; e.push_back("i"); e.push_back(operand(ix, C)); e.push_back(tyStr(cur));
      path.push_back(std::move(e));
      continue;
    }
    if (auto *ST = dyn_cast<StructType>(cur)) {
      unsigned k = cast<ConstantInt>(ix)->getZExtValue();
      bool isUnion = ST->hasName() && ST->getName().starts_with("union.");
      js::Array e; e.push_back("f");
      e.push_back(isUnion ? stripName(ST->getName()) + ".@u" : fieldName(ST, k));
      path.push_back(std::move(e));
      cur = ST->getElementType(k);
    } else {
      Type *elt = nullptr; int64_t n = -1;
      if (auto *AT = dyn_cast<ArrayType>(cur)) { elt = AT->getElementType(); n = AT->getNumElements(); }
      else if (auto *VT = dyn_cast<FixedVectorType>(cur)) { elt = VT->getElementType(); n = VT->getNumElements(); }
      js::Array e; e.push_back("a"); e.push_back(operand(ix, C)); e.push_back(elt ? tyStr(elt) : "?"); e.push_back(n);
      path.push_back(std::move(e));
      cur = elt;
    }
  }
  return path;
}

static js::Value strval(StringRef d) {
  // escape to latin1-like: emit as UTF-8 encoding of each byte
  std::string out;
  for (unsigned char c : d) {
    if (c < 0x80) out.push_back(c);
    else { out.push_back(0xC0 | (c >> 6)); out.push_back(0x80 | (c & 0x3F)); }
  }
  return js::Value(out);
}

static js::Value operand(const Value *V, FnCtx *C) {
  if (C) {
    auto it = C->ids.find(V);
    if (it != C->ids.end()) { js::Array a; a.push_back("v"); a.push_back(it->second); return a; }
  }
  if (auto *ci = dyn_cast<ConstantInt>(V)) {
    if (ci->getBitWidth() <= 64) {
      if (ci->getBitWidth() == 1) return js::Value((int64_t)ci->getZExtValue());
      return js::Value((int64_t)ci->getSExtValue());
    }
    return js::Value((int64_t)ci->getValue().trunc(64).getSExtValue());
  }
  if (isa<ConstantPointerNull>(V)) return js::Value((int64_t)0);
  if (auto *cf = dyn_cast<ConstantFP>(V)) { js::Array a; a.push_back("d"); a.push_back(cf->getValueAPF().convertToDouble()); return a; }
  if (auto *gv = dyn_cast<GlobalVariable>(V)) {
    if (gv->hasPrivateLinkage() && gv->isConstant() && gv->hasInitializer()) {
      if (auto *cda = dyn_cast<ConstantDataSequential>(gv->getInitializer()))
        if (cda->isString()) {
          StringRef s = cda->isCString() ? cda->getAsCString() : cda->getAsString();
          js::Array a; a.push_back("s"); a.push_back(strval(s)); return a;
        }
      if (isa<ConstantAggregateZero>(gv->getInitializer())) { js::Array a; a.push_back("s"); a.push_back(""); return a; }
    }
    js::Array a; a.push_back("g"); a.push_back(gv->getName().str()); return a;
  }
  if (auto *f = dyn_cast<Function>(V)) { js::Array a; a.push_back("g"); a.push_back(f->getName().str()); return a; }
  if (isa<UndefValue>(V)) { js::Array a; a.push_back("u"); return a; }
  if (auto *ce = dyn_cast<ConstantExpr>(V)) {
    if (auto *G = dyn_cast<GEPOperator>(ce)) {
      js::Array a; a.push_back("gep"); a.push_back(operand(G->getPointerOperand(), C)); a.push_back(gepPath(G, C)); return a;
    }
    if (ce->isCast()) {
      js::Array a; a.push_back("cast"); a.push_back(Instruction::getOpcodeName(ce->getOpcode())); a.push_back(operand(ce->getOperand(0), C)); a.push_back(tyStr(ce->getType())); return a;
    }
    js::Array a; a.push_back("ce"); a.push_back(Instruction::getOpcodeName(ce->getOpcode()));
    for (auto &o : ce->operands()) a.push_back(operand(o, C));
    return a;
  }
  if (auto *cds = dyn_cast<ConstantDataSequential>(V)) {
    if (cds->isString()) { js::Array a; a.push_back("str"); a.push_back(strval(cds->getAsString())); return a; }
    js::Array l; for (unsigned i = 0; i < cds->getNumElements(); i++) l.push_back(operand(cds->getElementAsConstant(i), C));
    js::Array a; a.push_back("arr"); a.push_back(std::move(l)); return a;
  }
  if (auto *ca = dyn_cast<ConstantArray>(V)) {
    js::Array l; for (auto &o : ca->operands()) l.push_back(operand(o, C));
    js::Array a; a.push_back("arr"); a.push_back(std::move(l)); return a;
  }
  if (auto *cs = dyn_cast<ConstantStruct>(V)) {
    StructType *ST = cs->getType();
    js::Array l;
    for (unsigned i = 0; i < cs->getNumOperands(); i++) {
      js::Array e; e.push_back(fieldName(ST, i)); e.push_back(operand(cs->getOperand(i), C)); l.push_back(std::move(e));
    }
    js::Array a; a.push_back("st"); a.push_back(ST->hasName() ? stripName(ST->getName()) : "lit"); a.push_back(std::move(l)); return a;
  }
  if (isa<ConstantAggregateZero>(V)) { js::Array a; a.push_back("zero"); a.push_back(tyStr(V->getType())); return a; }
  js::Array a; a.push_back("?"); return a;
}

static js::Value dump(Function &F) {
  FnCtx C; int n = 0;
  js::Object fo;
  fo["name"] = F.getName().str();
  fo["internal"] = F.hasLocalLinkage();
  fo["ret"] = tyStr(F.getReturnType());
  fo["vararg"] = F.isVarArg();
  fo["noreturn"] = F.hasFnAttribute(Attribute::NoReturn);
  if (auto *sp = F.getSubprogram()) { fo["line"] = sp->getLine(); fo["file"] = sp->getFilename().str(); }
  js::Array params;
  for (auto &a : F.args()) { C.ids[&a] = n++; params.push_back(js::Value(js::Array{a.getName().str(), tyStr(a.getType())})); }
  fo["params"] = std::move(params);
  if (F.isDeclaration()) return fo;
  // promote
  DominatorTree DT(F);
  bool again = true;
  while (again) {
    std::vector<AllocaInst *> al;
    for (auto &I : F.getEntryBlock()) if (auto *a = dyn_cast<AllocaInst>(&I)) if (isAllocaPromotable(a)) al.push_back(a);
    if (al.empty()) again = false; else PromoteMemToReg(al, DT);
  }
  removeUnreachableBlocks(F);
  std::map<const BasicBlock *, int> bid; int b = 0;
  for (auto &B : F) bid[&B] = b++;
  js::Object vars;
  for (auto &B : F) for (auto &I : B) if (!isa<DbgInfoIntrinsic>(I)) C.ids[&I] = n++;
  for (auto &B : F) for (auto &I : B) {
    if (auto *d = dyn_cast<DbgVariableIntrinsic>(&I)) {
      if (d->getNumVariableLocationOps() == 1) {
        Value *v = d->getVariableLocationOp(0);
        if (v) { auto it = C.ids.find(v); if (it != C.ids.end()) vars[std::to_string(it->second)] = d->getVariable()->getName().str(); }
      }
    }
  }
  fo["vars"] = std::move(vars);
  js::Array blocks;
  for (auto &B : F) {
    js::Array bl;
    for (auto &I : B) {
      if (isa<DbgInfoIntrinsic>(I)) continue;
      js::Array a;
      int line = 0; if (auto dl = I.getDebugLoc()) line = dl.getLine();
      auto hdr = [&](const char *op) { a.push_back(op); a.push_back(C.ids[&I]); a.push_back(line); };
      auto O = [&](const Value *v) { return operand(v, &C); };
      if (auto *x = dyn_cast<LoadInst>(&I)) { hdr("load"); a.push_back(O(x->getPointerOperand())); a.push_back(tyStr(x->getType())); }
      else if (auto *x = dyn_cast<StoreInst>(&I)) { hdr("store"); a.push_back(O(x->getValueOperand())); a.push_back(O(x->getPointerOperand())); a.push_back(tyStr(x->getValueOperand()->getType())); }
      else if (auto *x = dyn_cast<GetElementPtrInst>(&I)) { hdr("gep"); a.push_back(O(x->getPointerOperand())); a.push_back(gepPath(cast<GEPOperator>(x), &C)); }
      else if (auto *x = dyn_cast<CallInst>(&I)) {
        if (auto *ii = dyn_cast<IntrinsicInst>(x)) {
          auto id = ii->getIntrinsicID();
          if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end) continue;
        }
        hdr("call"); a.push_back(O(x->getCalledOperand()->stripPointerCasts()));
        js::Array args, tys; for (auto &o : x->args()) { args.push_back(O(o)); tys.push_back(tyStr(o->getType())); }
        a.push_back(std::move(args)); a.push_back(tyStr(x->getType())); a.push_back(std::move(tys));
      }
      else if (auto *x = dyn_cast<ICmpInst>(&I)) { hdr("icmp"); a.push_back(CmpInst::getPredicateName(x->getPredicate()).str()); a.push_back(O(x->getOperand(0))); a.push_back(O(x->getOperand(1))); a.push_back(tyStr(x->getOperand(0)->getType())); }
      else if (auto *x = dyn_cast<BinaryOperator>(&I)) { hdr("bin"); a.push_back(x->getOpcodeName()); a.push_back(O(x->getOperand(0))); a.push_back(O(x->getOperand(1))); a.push_back(tyStr(x->getType())); }
      else if (auto *x = dyn_cast<CastInst>(&I)) { hdr("cast"); a.push_back(x->getOpcodeName()); a.push_back(O(x->getOperand(0))); a.push_back(tyStr(x->getType())); a.push_back(tyStr(x->getOperand(0)->getType())); }
      else if (auto *x = dyn_cast<PHINode>(&I)) { hdr("phi"); js::Array l; for (unsigned i = 0; i < x->getNumIncomingValues(); i++) l.push_back(js::Value(js::Array{bid[x->getIncomingBlock(i)], O(x->getIncomingValue(i))})); a.push_back(std::move(l)); a.push_back(tyStr(x->getType())); }
      else if (auto *x = dyn_cast<SelectInst>(&I)) { hdr("select"); a.push_back(O(x->getCondition())); a.push_back(O(x->getTrueValue())); a.push_back(O(x->getFalseValue())); }
      else if (auto *x = dyn_cast<BranchInst>(&I)) {
        if (x->isConditional()) { hdr("br"); a.push_back(O(x->getCondition())); a.push_back(bid[x->getSuccessor(0)]); a.push_back(bid[x->getSuccessor(1)]); }
        else { hdr("jmp"); a.push_back(bid[x->getSuccessor(0)]); }
      }
      else if (auto *x = dyn_cast<SwitchInst>(&I)) { hdr("switch"); a.push_back(O(x->getCondition())); a.push_back(bid[x->getDefaultDest()]); js::Array l; for (auto &c : x->cases()) l.push_back(js::Value(js::Array{c.getCaseValue()->getSExtValue(), bid[c.getCaseSuccessor()]})); a.push_back(std::move(l)); }
      else if (auto *x = dyn_cast<ReturnInst>(&I)) { hdr("ret"); if (x->getReturnValue()) a.push_back(O(x->getReturnValue())); else a.push_back(nullptr); }
      else if (isa<UnreachableInst>(&I)) hdr("unreachable");
      else if (auto *x = dyn_cast<AllocaInst>(&I)) { hdr("alloca"); a.push_back(tyStr(x->getAllocatedType())); a.push_back((int64_t)DL->getTypeAllocSize(x->getAllocatedType()).getFixedValue()); }
      else { hdr("other"); a.push_back(I.getOpcodeName()); js::Array l; for (auto &o : I.operands()) l.push_back(O(o)); a.push_back(std::move(l)); a.push_back(tyStr(I.getType())); }
      bl.push_back(std::move(a));
    }
    blocks.push_back(std::move(bl));
  }
  fo["blocks"] = std::move(blocks);
  return fo;
}

static std::string diTy(const DIType *T, int depth = 0) {
  if (!T) return "v";
  if (depth > 8) return "?";
  if (auto *d = dyn_cast<DIDerivedType>(T)) {
    switch (d->getTag()) {
      case dwarf::DW_TAG_pointer_type: return "*" + diTy(d->getBaseType(), depth + 1);
      default: return diTy(d->getBaseType(), depth + 1);
    }
  }
  if (auto *c = dyn_cast<DICompositeType>(T)) {
    if (c->getTag() == dwarf::DW_TAG_array_type) {
      std::string s;
      for (auto *e : c->getElements()) if (auto *sr = dyn_cast<DISubrange>(e)) {
        if (auto *ci = dyn_cast_if_present<ConstantInt *>(sr->getCount())) s += "[" + std::to_string(ci->getSExtValue()) + "]";
        else s += "[]";
      }
      return s + diTy(c->getBaseType(), depth + 1);
    }
    if (c->getTag() == dwarf::DW_TAG_enumeration_type) return "enum " + c->getName().str();
    return (c->getTag() == dwarf::DW_TAG_union_type ? "union " : "struct ") + c->getName().str();
  }
  if (auto *b = dyn_cast<DIBasicType>(T)) return b->getName().str();
  if (isa<DISubroutineType>(T)) return "fn";
  return "?";
}

int main(int argc, char **argv) {
  LLVMContext ctx; SMDiagnostic err;
  auto M = parseIRFile(argv[1], err, ctx);
  if (!M) { err.print(argv[0], errs()); return 1; }
  DL = &M->getDataLayout();
  DebugInfoFinder fi; fi.processModule(*M);
  js::Object structs;
  for (auto *t : fi.types()) {
    if (auto *c = dyn_cast<DICompositeType>(t)) {
      if ((c->getTag() == dwarf::DW_TAG_structure_type || c->getTag() == dwarf::DW_TAG_union_type) && !c->isForwardDecl() && !c->getName().empty()) {
        Structs[c->getName().str()] = c;
        js::Object so; so["size"] = (int64_t)(c->getSizeInBits() / 8);
        js::Array ms;
        for (auto *e : c->getElements()) if (auto *m = dyn_cast<DIDerivedType>(e)) if (m->getTag() == dwarf::DW_TAG_member)
          ms.push_back(js::Value(js::Array{m->getName().str(), (int64_t)(m->getOffsetInBits() / 8), (int64_t)(m->getSizeInBits() / 8), diTy(m->getBaseType())}));
        so["members"] = std::move(ms);
        structs[c->getName().str()] = std::move(so);
      }
    }
  }
  js::Object top;
  top["source"] = M->getSourceFileName();
  js::Object enums;
  for (auto *t : fi.types())
    if (auto *c = dyn_cast<DICompositeType>(t))
      if (c->getTag() == dwarf::DW_TAG_enumeration_type) {
        for (auto *e : c->getElements()) if (auto *en = dyn_cast<DIEnumerator>(e)) enums[en->getName().str()] = (int64_t)en->getValue().getSExtValue();
      }
  top["enums"] = std::move(enums);
  js::Object globals;
  for (auto &g : M->globals()) {
    if (g.hasPrivateLinkage()) {
      if (g.isConstant() && g.hasInitializer()) if (auto *cda = dyn_cast<ConstantDataSequential>(g.getInitializer())) if (cda->isString()) continue;
    }
    js::Object go; go["internal"] = g.hasLocalLinkage(); go["const"] = g.isConstant(); go["type"] = tyStr(g.getValueType());
    go["size"] = g.getValueType()->isSized() ? (int64_t)DL->getTypeAllocSize(g.getValueType()).getFixedValue() : (int64_t)0;
    if (g.hasInitializer()) go["init"] = operand(g.getInitializer(), nullptr);
    go["decl"] = !g.hasInitializer();
    SmallVector<DIGlobalVariableExpression *, 1> gve; g.getDebugInfo(gve);
    if (!gve.empty()) { go["line"] = gve[0]->getVariable()->getLine(); go["dity"] = diTy(gve[0]->getVariable()->getType()); }
    globals[g.getName().str()] = std::move(go);
  }
  top["globals"] = std::move(globals);
  js::Array fns;
  for (auto &F : *M) if (!F.isIntrinsic()) {
    auto v = dump(F);
    if (auto *sp = F.getSubprogram()) {
      js::Array pt;
      if (auto *st = sp->getType()) for (auto *t : st->getTypeArray()) pt.push_back(diTy(t));
      v.getAsObject()->operator[]("ditypes") = std::move(pt);
    }
    fns.push_back(std::move(v));
  }
  top["functions"] = std::move(fns);
  top["structs"] = std::move(structs);
  outs() << js::Value(std::move(top)) << "\n";
  return 0;
}

// vpdump: normalises LLVM bitcode of the analysis harness and prints it as JSON.
//
// The harness (/verif/harness) instantiates /repo's templates with opaque
// "archetype" configurations whose operations are undefined functions vp*_...;
// the prefix of the name states the effect of the function:
//   vpp_   value depends on the arguments only (memory none)
//   vpr_   reads state the program cannot see        (inaccessiblemem: read)
//   vpra_  reads the memory its arguments point to   (argmem: read, inacc: read)
//   vpi_   updates state the program cannot see      (inaccessiblemem: readwrite)
//   vpa_   may also write what its arguments point to
//   vpx_   anything, may throw
// Everything that is defined, except the entry points vp_root_*/vp_acc_*, is
// inlined, so each entry point becomes one function whose only calls are the
// opaque ones. The output is the control-flow graph of these functions.
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <string>

using namespace llvm;

static bool isRoot(StringRef n) {
  return n.starts_with("vp_root_") || n.starts_with("vp_acc_");
}

static void setEffects(Function& f, bool eh) {
  StringRef n = f.getName();
  MemoryEffects me = MemoryEffects::unknown();
  bool known = true;
  if (n.starts_with("vpp_")) me = MemoryEffects::none();
  else if (n.starts_with("vpr_")) me = MemoryEffects::inaccessibleMemOnly(ModRefInfo::Ref);
  else if (n.starts_with("vpra_")) me = MemoryEffects::inaccessibleOrArgMemOnly(ModRefInfo::Ref);
  else if (n.starts_with("vpi_")) me = MemoryEffects::inaccessibleMemOnly();
  else if (n.starts_with("vpa_")) me = MemoryEffects::inaccessibleOrArgMemOnly();
  else known = false;
  if (!known) return;
  f.setMemoryEffects(me);
  if (!eh) f.addFnAttr(Attribute::NoUnwind);
  f.addFnAttr(Attribute::WillReturn);
}

struct Dumper {
  json::OStream& J;
  const DataLayout& DL;
  std::map<const Value*, std::string> ids;
  std::map<const BasicBlock*, int> bbs;
  int tmp = 0;

  static std::string tyName(Type* t) {
    std::string s;
    raw_string_ostream os(s);
    t->print(os, false, true);
    return os.str();
  }

  // operand as JSON: string for simple ones, {"lin": ...} for constant GEPs
  void operand(const Value* v) {
    if (auto* c = dyn_cast<ConstantInt>(v)) {
      SmallString<32> s;
      c->getValue().toString(s, 10, c->getBitWidth() > 1);
      if (c->getBitWidth() == 1) J.value(c->isOne() ? "c1" : "c0");
      else J.value("c" + std::string(s.str()));
      return;
    }
    if (isa<ConstantPointerNull>(v)) { J.value("c0"); return; }
    if (isa<UndefValue>(v)) { J.value("u"); return; }
    if (auto* c = dyn_cast<ConstantFP>(v)) {
      SmallString<32> s;
      c->getValueAPF().toString(s);
      J.value("f" + std::string(s.str()));
      return;
    }
    if (isa<ConstantAggregateZero>(v)) { J.value("c0"); return; }
    if (auto* var = dyn_cast<GlobalVariable>(v))
      if (var->hasPrivateLinkage() && var->isConstant() && var->hasInitializer()) {
        auto* ty = dyn_cast<ArrayType>(var->getValueType());
        if (isa<ConstantAggregateZero>(var->getInitializer()) && ty && ty->getNumElements() == 1 &&
            ty->getElementType()->isIntegerTy(8)) { J.value("g:\"\""); return; }
        if (auto* arr = dyn_cast<ConstantDataArray>(var->getInitializer()))
          if (arr->isCString()) { J.value(json::fixUTF8("g:\"" + arr->getAsCString().str() + "\"")); return; }
      }
    if (auto* gv = dyn_cast<GlobalValue>(v)) { J.value("g:" + gv->getName().str()); return; }
    if (auto* ce = dyn_cast<ConstantExpr>(v)) {
      if (auto* gep = dyn_cast<GEPOperator>(ce)) {
        APInt off(64, 0);
        if (gep->accumulateConstantOffset(DL, off)) {
          J.object([&] {
            J.attributeBegin("base"); operand(gep->getPointerOperand()); J.attributeEnd();
            J.attribute("off", off.getSExtValue());
          });
          return;
        }
      }
      std::string s; raw_string_ostream os(s); ce->printAsOperand(os);
      J.value("k:" + os.str());
      return;
    }
    auto it = ids.find(v);
    if (it != ids.end()) { J.value(it->second); return; }
    std::string s; raw_string_ostream os(s); v->printAsOperand(os);
    J.value("k:" + os.str());
  }
  void op(const char* key, const Value* v) {
    J.attributeBegin(key); operand(v); J.attributeEnd();
  }
  void loc(const Instruction& I) {
    const DILocation* d = I.getDebugLoc().get();
    if (!d) return;
    J.attributeArray("loc", [&] {
      for (; d; d = d->getInlinedAt()) {
        std::string fn = d->getScope()->getSubprogram() ?
          d->getScope()->getSubprogram()->getName().str() : "";
        J.value((d->getDirectory().empty() || d->getFilename().starts_with("/") ?
          d->getFilename().str() : (d->getDirectory() + "/" + d->getFilename()).str())
          + ":" + std::to_string(d->getLine()) + ":" + fn);
      }
    });
  }
  void instr(const Instruction& I) {
    J.object([&] {
      if (!I.getType()->isVoidTy()) {
        J.attribute("id", ids[&I]);
        J.attribute("ty", tyName(I.getType()));
      }
      J.attribute("op", I.getOpcodeName());
      loc(I);
      if (auto* p = dyn_cast<PHINode>(&I)) {
        J.attributeArray("in", [&] {
          for (unsigned k = 0; k < p->getNumIncomingValues(); ++k)
            J.array([&] {
              J.value(bbs[p->getIncomingBlock(k)]);
              operand(p->getIncomingValue(k));
            });
        });
      } else if (auto* l = dyn_cast<LoadInst>(&I)) {
        op("ptr", l->getPointerOperand());
        tbaa(I);
      } else if (auto* s = dyn_cast<StoreInst>(&I)) {
        op("val", s->getValueOperand());
        op("ptr", s->getPointerOperand());
        J.attribute("vty", tyName(s->getValueOperand()->getType()));
        tbaa(I);
      } else if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
        op("base", g->getPointerOperand());
        MapVector<Value*, APInt> var;
        APInt off(64, 0);
        if (cast<GEPOperator>(g)->collectOffset(DL, 64, var, off)) {
          J.attribute("off", off.getSExtValue());
          J.attributeArray("idx", [&] {
            for (auto& kv : var)
              J.array([&] { operand(kv.first); J.value(kv.second.getSExtValue()); });
          });
        } else J.attribute("off", "?");
      } else if (auto* c = dyn_cast<CallBase>(&I)) {
        const Value* callee = c->getCalledOperand()->stripPointerCasts();
        if (auto* f = dyn_cast<Function>(callee)) {
          J.attribute("callee", f->getName());
          J.attribute("dem", demangle(f->getName().str()));
        } else { J.attribute("callee", ""); op("fptr", callee); }
        J.attributeArray("args", [&] { for (auto& a : c->args()) operand(a.get()); });
        if (auto* inv = dyn_cast<InvokeInst>(&I)) {
          J.attribute("normal", bbs[inv->getNormalDest()]);
          J.attribute("unwind", bbs[inv->getUnwindDest()]);
        }
        if (c->doesNotThrow()) J.attribute("nounwind", true);
      } else if (auto* b = dyn_cast<BranchInst>(&I)) {
        if (b->isConditional()) op("cond", b->getCondition());
        J.attributeArray("succ", [&] { for (unsigned k = 0; k < b->getNumSuccessors(); ++k) J.value(bbs[b->getSuccessor(k)]); });
      } else if (auto* sw = dyn_cast<SwitchInst>(&I)) {
        op("cond", sw->getCondition());
        J.attribute("default", bbs[sw->getDefaultDest()]);
        J.attributeArray("cases", [&] {
          for (auto& cs : sw->cases())
            J.array([&] { operand(cs.getCaseValue()); J.value(bbs[cs.getCaseSuccessor()]); });
        });
      } else if (auto* ic = dyn_cast<ICmpInst>(&I)) {
        J.attribute("pred", ICmpInst::getPredicateName(ic->getPredicate()));
        op("a", ic->getOperand(0)); op("b", ic->getOperand(1));
        J.attribute("oty", tyName(ic->getOperand(0)->getType()));
      } else if (auto* r = dyn_cast<ReturnInst>(&I)) {
        if (r->getReturnValue()) op("val", r->getReturnValue());
      } else if (auto* al = dyn_cast<AllocaInst>(&I)) {
        J.attribute("aty", tyName(al->getAllocatedType()));
      } else if (auto* ev = dyn_cast<ExtractValueInst>(&I)) {
        op("a", ev->getAggregateOperand());
        J.attributeArray("index", [&] { for (unsigned k : ev->indices()) J.value((int64_t)k); });
      } else if (auto* iv = dyn_cast<InsertValueInst>(&I)) {
        op("a", iv->getAggregateOperand()); op("b", iv->getInsertedValueOperand());
        J.attributeArray("index", [&] { for (unsigned k : iv->indices()) J.value((int64_t)k); });
      } else {
        if (auto* pe = dyn_cast<PossiblyExactOperator>(&I))
          if (pe->isExact()) J.attribute("exact", true);
        J.attributeArray("ops", [&] { for (auto& o : I.operands())
          if (!isa<BasicBlock>(o.get())) operand(o.get()); });
        if (I.isTerminator())
          J.attributeArray("succ", [&] {
            for (unsigned k = 0; k < I.getNumSuccessors(); ++k) J.value(bbs[I.getSuccessor(k)]); });
      }
    });
  }
  void tbaa(const Instruction& I) {
    MDNode* t = I.getMetadata(LLVMContext::MD_tbaa);
    if (!t || t->getNumOperands() < 3) return;
    auto name = [](const MDOperand& o) -> std::string {
      if (auto* n = dyn_cast_or_null<MDNode>(o.get()))
        if (n->getNumOperands() > 0)
          if (auto* s = dyn_cast_or_null<MDString>(n->getOperand(0).get()))
            return s->getString().str();
      return "";
    };
    std::string off;
    if (auto* c = mdconst::dyn_extract_or_null<ConstantInt>(t->getOperand(2)))
      off = std::to_string(c->getZExtValue());
    J.attributeArray("tbaa", [&] {
      J.value(name(t->getOperand(0))); J.value(name(t->getOperand(1))); J.value(off); });
  }
  void func(Function& F) {
    ids.clear(); bbs.clear();
    int n = 0, k = 0;
    for (auto& a : F.args()) ids[&a] = "a" + std::to_string(k++);
    k = 0;
    for (auto& B : F) {
      bbs[&B] = k++;
      for (auto& I : B)
        if (!I.getType()->isVoidTy()) ids[&I] = "i" + std::to_string(n++);
    }
    J.object([&] {
      J.attribute("name", F.getName());
      J.attribute("ret", tyName(F.getReturnType()));
      J.attributeArray("args", [&] { for (auto& a : F.args()) J.value(tyName(a.getType())); });
      J.attributeArray("blocks", [&] {
        for (auto& B : F)
          J.array([&] {
            for (auto& I : B) {
              if (isa<DbgInfoIntrinsic>(&I) || I.isLifetimeStartOrEnd()) continue;
              if (auto* ii = dyn_cast<IntrinsicInst>(&I))
                if (ii->getIntrinsicID() == Intrinsic::experimental_noalias_scope_decl ||
                    ii->getIntrinsicID() == Intrinsic::assume) continue;
              instr(I);
            }
          });
      });
    });
  }
};

int main(int argc, char** argv) {
  if (argc < 2) { errs() << "usage: vpdump in.bc [-eh] [-passes=...]\n"; return 2; }
  bool eh = false, raw = false, ll = false;
  std::string passes;
  for (int i = 2; i < argc; ++i) {
    StringRef a = argv[i];
    if (a == "-eh") eh = true;
    else if (a == "-raw") raw = true;
    else if (a == "-ll") ll = true;
    else if (a.starts_with("-passes=")) passes = a.substr(8).str();
  }
  LLVMContext ctx;
  SMDiagnostic err;
  auto M = parseIRFile(argv[1], err, ctx);
  if (!M) { err.print(argv[0], errs()); return 2; }
  for (auto& F : *M) {
    if (F.isDeclaration()) {
      setEffects(F, eh);
      if (!eh) F.setDoesNotThrow();
      continue;
    }
    F.removeFnAttr(Attribute::OptimizeNone);
    if (!eh)
      for (auto& B : F)
        for (auto& I : B)
          if (auto* c = dyn_cast<CallBase>(&I)) c->setDoesNotThrow();
    if (raw) continue;
    if (isRoot(F.getName()) || F.getName().starts_with("vpk_")) {
      F.removeFnAttr(Attribute::AlwaysInline);
      F.addFnAttr(Attribute::NoInline);
    } else {
      F.removeFnAttr(Attribute::NoInline);
      F.addFnAttr(Attribute::AlwaysInline);
      if (!F.hasLocalLinkage()) {
        F.setComdat(nullptr);
        F.setLinkage(GlobalValue::InternalLinkage);
      }
    }
  }
  if (!raw) {
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM;
    CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PassBuilder PB;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM);
    PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    ModulePassManager MPM;
    if (passes.empty())
      passes = "always-inline,globaldce,function(sroa,simplifycfg<no-sink-common-insts;no-hoist-common-insts;no-switch-to-lookup>,early-cse<memssa>,"
        "instcombine<no-verify-fixpoint>,simplifycfg<no-sink-common-insts;no-hoist-common-insts>,sroa,gvn<no-pre;no-load-pre>,instcombine<no-verify-fixpoint>,"
        "simplifycfg<no-sink-common-insts;no-hoist-common-insts>,adce,early-cse<memssa>,instcombine<no-verify-fixpoint>,loop-simplify),globaldce";
    if (auto e = PB.parsePassPipeline(MPM, passes)) {
      errs() << toString(std::move(e)) << "\n"; return 2;
    }
    MPM.run(*M, MAM);
  }
  if (ll) { M->print(outs(), nullptr); return 0; }
  json::OStream J(outs());
  J.object([&] {
    J.attributeArray("functions", [&] {
      for (auto& F : *M) {
        if (F.isDeclaration()) continue;
        if (!raw && !isRoot(F.getName()) && !F.getName().starts_with("vpk_") &&
            F.use_empty() ) continue;
        Dumper d{J, M->getDataLayout()};
        d.func(F);
      }
    });
  });
  outs() << "\n";
  return 0;
}

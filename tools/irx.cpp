// irx: normalise LLVM IR of /repo translation units and dump it as JSON.
//
//   irx CONFIG.json OUT.json
//
// CONFIG: { "inputs": [bc...], "repo": "/repo", "keep": [qualified names...],
//           "keepall": false, "pipeline": "...",
//           "specs": [{"as": name, "fn": qualified-or-mangled, "args": {"0": 3}}] }
//
// Every function whose definition lies under "repo" and which is not in "keep"
// is inlined into its callers (so that extracting a helper, or inlining one,
// does not change what the rules see); then a fixed list of LLVM
// normalisations runs, and what is left is dumped: functions, blocks, SSA
// instructions, resolved callees, debug lines, global initialisers and the
// record layouts known from debug info.  Nothing is executed.
#include "llvm/ADT/DenseMap.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Analysis/CGSCCPassManager.h"
#include "llvm/Analysis/LoopAnalysisManager.h"
#include "llvm/Bitcode/BitcodeReader.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/MemoryBuffer.h"
#include "llvm/Support/Regex.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include <map>
#include <set>

using namespace llvm;

static std::string Repo = "/repo";

static std::string diFile(const DIFile *F) {
  if (!F)
    return "";
  std::string fn = F->getFilename().str();
  if (!fn.empty() && fn[0] == '/')
    return fn;
  return (F->getDirectory() + "/" + fn).str();
}

static std::string scopeName(const DIScope *S) {
  std::string r;
  while (S) {
    if (isa<DIFile>(S) || isa<DICompileUnit>(S))
      break;
    if (auto *SP = dyn_cast<DISubprogram>(S)) {
      r = (SP->getName() + (r.empty() ? "" : "::") + r).str();
    } else if (auto *NS = dyn_cast<DINamespace>(S)) {
      StringRef n = NS->getName();
      r = ((n.empty() ? "(anonymous)" : n) + (r.empty() ? "" : "::") + r).str();
    } else if (isa<DILexicalBlockBase>(S)) {
    } else if (!S->getName().empty()) {
      r = (S->getName() + (r.empty() ? "" : "::") + r).str();
    } else if (isa<DIType>(S))
      r = std::string("(lambda)") + (r.empty() ? "" : "::") + r;
    S = S->getScope();
  }
  return r;
}

static bool inRepo(const Function &F) {
  if (auto *SP = F.getSubprogram()) {
    std::string f = diFile(SP->getFile());
    return StringRef(f).starts_with(Repo + "/");
  }
  return false;
}

static std::string qual(const Function &F) {
  if (auto *SP = F.getSubprogram())
    return scopeName(SP);
  return "";
}

static std::string tyStr(Type *T) {
  std::string s;
  raw_string_ostream os(s);
  if (auto *ST = dyn_cast<StructType>(T); ST && ST->hasName())
    os << "%" << ST->getName();
  else
    T->print(os, false, true);
  return s;
}

static const DataLayout *theLayout = nullptr;

static json::Value constant(const Constant *C, int depth = 0);

static json::Value operand(const Value *V, DenseMap<const Value *, int> &ids) {
  if (auto *C = dyn_cast<Constant>(V))
    return constant(C);
  if (isa<MetadataAsValue>(V))
    return json::Array{"m"};
  if (isa<InlineAsm>(V))
    return json::Array{"asm"};
  if (auto *BB = dyn_cast<BasicBlock>(V))
    return json::Array{"b", ids.lookup(BB)};
  auto it = ids.find(V);
  if (it == ids.end())
    return json::Array{"?"};
  return json::Array{"v", it->second};
}

static json::Value constant(const Constant *C, int depth) {
  if (auto *CI = dyn_cast<ConstantInt>(C)) {
    if (CI->getBitWidth() <= 64)
      return json::Array{"c", CI->getBitWidth() == 1 ? (int64_t)CI->getZExtValue() : CI->getSExtValue(),
          (int)CI->getBitWidth()};
    SmallString<40> s;
    CI->getValue().toStringSigned(s);
    return json::Array{"C", s.str().str(), (int)CI->getBitWidth()};
  }
  if (auto *CF = dyn_cast<ConstantFP>(C)) {
    APFloat f = CF->getValueAPF();
    SmallString<40> s;
    f.bitcastToAPInt().toStringUnsigned(s, 16);
    SmallString<40> t;
    f.toString(t);
    return json::Array{"f", t.str().str(), s.str().str()};
  }
  if (isa<ConstantPointerNull>(C))
    return json::Array{"n"};
  if (isa<PoisonValue>(C) || isa<UndefValue>(C))
    return json::Array{"u"};
  if (auto *GV = dyn_cast<GlobalValue>(C))
    return json::Array{"g", GV->getName().str()};
  if (isa<ConstantAggregateZero>(C))
    return json::Array{"z", tyStr(C->getType())};
  if (auto *CD = dyn_cast<ConstantDataSequential>(C)) {
    if (CD->isString()) {
      std::string raw = CD->getAsString().str();
      std::string out;
      for (unsigned char ch : raw)
        if (ch < 0x80)
          out += ch;
        else
          out += '?';
      return json::Array{"s", out};
    }
    json::Array a{"a"};
    for (unsigned i = 0; i < CD->getNumElements(); ++i)
      a.push_back(constant(CD->getElementAsConstant(i), depth + 1));
    return a;
  }
  if (auto *CA = dyn_cast<ConstantAggregate>(C)) {
    json::Array a{isa<ConstantStruct>(C) ? "st" : "a"};
    for (auto &O : CA->operands())
      a.push_back(constant(cast<Constant>(O), depth + 1));
    return a;
  }
  if (auto *CE = dyn_cast<ConstantExpr>(C)) {
    json::Array a{"ce", CE->getOpcodeName()};
    if (auto *G = dyn_cast<GEPOperator>(CE))
      a.push_back(tyStr(G->getSourceElementType()));
    else
      a.push_back(tyStr(CE->getType()));
    for (auto &O : CE->operands())
      a.push_back(constant(cast<Constant>(O), depth + 1));
    // the byte offset of a field or element, where the operands do not say it
    if (auto *G = dyn_cast<GEPOperator>(CE))
      if (theLayout && !G->getSourceElementType()->isIntegerTy(8)) {
        APInt off(64, 0);
        if (G->accumulateConstantOffset(*theLayout, off) && off != 0)
          a.push_back(json::Array{"off", off.getSExtValue()});
      }
    return a;
  }
  return json::Array{"?c"};
}

int main(int argc, char **argv) {
  if (argc != 3) {
    errs() << "usage: irx CONFIG OUT\n";
    return 3;
  }
  auto buf = MemoryBuffer::getFile(argv[1]);
  if (!buf) {
    errs() << "irx: cannot read config\n";
    return 3;
  }
  auto cfgE = json::parse((*buf)->getBuffer());
  if (!cfgE) {
    errs() << "irx: bad config\n";
    return 3;
  }
  json::Object &cfg = *cfgE->getAsObject();
  if (auto r = cfg.getString("repo"))
    Repo = r->str();
  std::set<std::string> keep;
  bool keepAll = cfg.getBoolean("keepall").value_or(false);
  if (auto *a = cfg.getArray("keep"))
    for (auto &v : *a)
      keep.insert(v.getAsString()->str());

  LLVMContext Ctx;
  std::unique_ptr<Module> M;
  std::unique_ptr<Linker> L;
  for (auto &v : *cfg.getArray("inputs")) {
    SMDiagnostic err;
    auto m = parseIRFile(*v.getAsString(), err, Ctx);
    if (!m) {
      err.print("irx", errs());
      return 3;
    }
    if (!M) {
      M = std::move(m);
      L = std::make_unique<Linker>(*M);
    } else if (L->linkInModule(std::move(m))) {
      errs() << "irx: link failed\n";
      return 3;
    }
  }

  // Specialisations: clone a function with some arguments fixed to constants.
  std::set<std::string> specNames;
  std::map<std::string, std::vector<std::pair<std::string, int64_t>>> specCalls;
  if (auto *a = cfg.getArray("specs"))
    for (auto &v : *a) {
      auto *o = v.getAsObject();
      std::string fn = o->getString("fn")->str();
      Function *T = nullptr;
      for (auto &F : *M)
        if (!F.isDeclaration() && !specNames.count(F.getName().str()) &&
            (F.getName() == fn || qual(F) == fn))
          T = &F;
      if (!T) {
        errs() << "irx: spec target not found: " << fn << "\n";
        continue;
      }
      ValueToValueMapTy vm;
      Function *N = CloneFunction(T, vm);
      N->setName(*o->getString("as"));
      N->setLinkage(GlobalValue::ExternalLinkage);
      N->setComdat(nullptr);
      specNames.insert(N->getName().str());
      if (auto *co = o->getObject("calls"))
        for (auto &kv : *co)
          specCalls[N->getName().str()].push_back(
              {kv.first.str(), *kv.second.getAsInteger()});
      if (!o->getObject("args"))
        continue;
      for (auto &kv : *o->getObject("args")) {
        unsigned idx = std::stoul(kv.first.str());
        int64_t val = *kv.second.getAsInteger();
        if (idx >= N->arg_size())
          continue;
        Argument *A = N->getArg(idx);
        if (A->getType()->isIntegerTy())
          A->replaceAllUsesWith(ConstantInt::get(A->getType(), val, true));
        else if (A->getType()->isPointerTy() && val == 0)
          A->replaceAllUsesWith(
              ConstantPointerNull::get(cast<PointerType>(A->getType())));
        else if (A->getType()->isFloatingPointTy())
          A->replaceAllUsesWith(ConstantFP::get(A->getType(), (double)val));
      }
    }

  std::set<std::string> statics;
  for (auto &F : *M)
    if (!F.isDeclaration() && F.hasLocalLinkage())
      statics.insert(F.getName().str());
  std::vector<Regex> istd;
  if (auto *a = cfg.getArray("inline_std"))
    for (auto &v : *a)
      istd.emplace_back(("^(" + *v.getAsString() + ")").str());

  // With "relevant" (regexes over callee names), a repo function that neither
  // reaches such a callee nor is small stays a call: it cannot affect the
  // property being decided, and inlining it would only add paths.
  std::set<const Function *> irrelevant;
  if (auto *a = cfg.getArray("relevant")) {
    std::vector<Regex> rel;
    for (auto &v : *a)
      rel.emplace_back(("^(" + *v.getAsString() + ")$").str());
    unsigned small = cfg.getInteger("small").value_or(60);
    std::map<const Function *, std::set<const Function *>> callers;
    std::vector<const Function *> work;
    std::set<const Function *> reach;
    for (auto &F : *M) {
      bool hit = false;
      std::string dn = qual(F);
      for (auto &R : rel)
        if (R.match(F.getName()) || (!dn.empty() && R.match(dn)))
          hit = true;
      if (hit && reach.insert(&F).second)
        work.push_back(&F);
      for (auto &I : instructions(F))
        if (auto *CB = dyn_cast<CallBase>(&I)) {
          if (auto *C = dyn_cast<Function>(
                  CB->getCalledOperand()->stripPointerCasts()))
            callers[C].insert(&F);
          // function objects passed on (lambdas to std algorithms)
          for (auto &A : CB->args())
            if (auto *C = dyn_cast<Function>(A->stripPointerCasts()))
              callers[C].insert(&F);
        }
    }
    while (!work.empty()) {
      auto *F = work.back();
      work.pop_back();
      for (auto *C : callers[F])
        if (reach.insert(C).second)
          work.push_back(C);
    }
    for (auto &F : *M)
      if (!F.isDeclaration() && inRepo(F) && !reach.count(&F)) {
        unsigned n = 0;
        for (auto &I : instructions(F))
          if (!isa<DbgInfoIntrinsic>(I) && !isa<AllocaInst>(I))
            ++n;
        if (n > small)
          irrelevant.insert(&F);
      }
  }
  std::set<std::string> addrTaken;
  for (auto &F : *M)
    if (!F.isDeclaration() && F.hasAddressTaken())
      addrTaken.insert(F.getName().str());

  // Inline everything from the repo that is not a named anchor.
  for (auto &F : *M) {
    if (F.isDeclaration())
      continue;
    bool k = keepAll || !inRepo(F) || keep.count(qual(F)) ||
             keep.count(F.getName().str()) || irrelevant.count(&F);
    if (!inRepo(F) && !istd.empty()) {
      std::string q = qual(F);
      if (q.empty())
        q = demangle(F.getName().str());
      for (auto &R : istd)
        if (R.match(q)) {
          k = false;
          break;
        }
    }
    if (!k) {
      F.removeFnAttr(Attribute::NoInline);
      F.removeFnAttr(Attribute::OptimizeNone);
      F.addFnAttr(Attribute::AlwaysInline);
      if (F.hasLinkOnceLinkage() || F.hasWeakLinkage())
        ; // still derefinable; AlwaysInliner inlines by attribute
      F.setLinkage(F.isInterposable() ? GlobalValue::ExternalLinkage
                                      : F.getLinkage());
    } else {
      F.removeFnAttr(Attribute::AlwaysInline);
      if (inRepo(F))
        F.addFnAttr(Attribute::NoInline);
    }
  }
  // Local (static / lambda) functions must survive as roots for reporting even
  // when they are inlined everywhere: give them external linkage.
  for (auto &F : *M)
    if (!F.isDeclaration() && inRepo(F) && F.hasLocalLinkage()) {
      F.setLinkage(GlobalValue::ExternalLinkage);
    }
  for (auto &F : *M)
    if (!F.isDeclaration() && inRepo(F) && F.hasLinkOnceLinkage()) {
      F.setComdat(nullptr);
      F.setLinkage(GlobalValue::ExternalLinkage);
    }

  std::string pipeline =
      cfg.getString("pipeline")
          .value_or("always-inline,function(sroa,early-cse<memssa>,"
                    "simplifycfg<bonus-inst-threshold=0;no-forward-switch-cond;"
                    "switch-range-to-icmp;no-switch-to-lookup;keep-loops;"
                    "no-hoist-common-insts;no-sink-common-insts>,"
                    "instsimplify,sccp,adce,"
                    "simplifycfg<bonus-inst-threshold=0;no-forward-switch-cond;"
                    "switch-range-to-icmp;no-switch-to-lookup;keep-loops;"
                    "no-hoist-common-insts;no-sink-common-insts>)")
          .str();
  {
    PassBuilder PB;
    LoopAnalysisManager LAM;
    FunctionAnalysisManager FAM;
    CGSCCAnalysisManager CGAM;
    ModuleAnalysisManager MAM;
    PB.registerModuleAnalyses(MAM);
    PB.registerCGSCCAnalyses(CGAM);
    PB.registerFunctionAnalyses(FAM);
    PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    ModulePassManager MPM;
    if (!specCalls.empty()) {
      // inline first, then fix the results of the named calls
      ModulePassManager PM0;
      if (auto e = PB.parsePassPipeline(PM0, "always-inline")) {
        errs() << "irx: " << toString(std::move(e)) << "\n";
        return 3;
      }
      PM0.run(*M, MAM);
      for (auto &F : *M) {
        auto it = specCalls.find(F.getName().str());
        if (it == specCalls.end())
          continue;
        for (auto &I : instructions(F))
          if (auto *CB = dyn_cast<CallBase>(&I))
            if (auto *C = CB->getCalledFunction())
              for (const auto &kv : it->second)
                if ((C->getName() == kv.first || qual(*C) == kv.first) &&
                    I.getType()->isIntegerTy())
                  I.replaceAllUsesWith(
                      ConstantInt::get(I.getType(), kv.second, true));
      }
    }
    if (auto e = PB.parsePassPipeline(MPM, pipeline)) {
      errs() << "irx: pipeline: " << toString(std::move(e)) << "\n";
      return 3;
    }
    MPM.run(*M, MAM);
  }

  std::error_code ec;
  raw_fd_ostream out(argv[2], ec);
  if (ec)
    return 3;
  json::OStream J(out);
  J.objectBegin();

  // --- functions
  J.attributeBegin("functions");
  J.arrayBegin();
  const DataLayout &DL = M->getDataLayout();
  theLayout = &DL;
  for (auto &F : *M) {
    if (F.isDeclaration() && F.isIntrinsic())
      continue;
    bool repo = inRepo(F) || specNames.count(F.getName().str());
    J.objectBegin();
    J.attribute("name", F.getName());
    J.attribute("q", qual(F));
    J.attribute("dem", demangle(F.getName().str()));
    J.attribute("decl", F.isDeclaration());
    J.attribute("repo", repo);
    J.attribute("static", statics.count(F.getName().str()) > 0);
    J.attribute("used", F.hasNUsesOrMore(1));
    J.attribute("addr", addrTaken.count(F.getName().str()) > 0);
    J.attribute("ret", tyStr(F.getReturnType()));
    J.attribute("nounwind", F.doesNotThrow());
    J.attribute("noreturn", F.doesNotReturn());
    J.attribute("vararg", F.isVarArg());
    {
      json::Array ps;
      for (auto &A : F.args())
        ps.push_back(json::Array{A.getName().str(), tyStr(A.getType())});
      J.attribute("params", std::move(ps));
    }
    if (auto *SP = F.getSubprogram()) {
      J.attribute("file", diFile(SP->getFile()));
      J.attribute("line", (int64_t)SP->getLine());
      {
        const DISubprogram *D = SP->getDeclaration() ? SP->getDeclaration() : SP;
        auto acc = D->getFlags() & DINode::FlagAccessibility;
        bool member = isa_and_nonnull<DICompositeType>(D->getScope());
        bool cls = member && cast<DICompositeType>(D->getScope())->getTag() ==
                                 dwarf::DW_TAG_class_type;
        J.attribute("access", acc == DINode::FlagPublic ? "public"
                              : acc == DINode::FlagProtected ? "protected"
                              : acc == DINode::FlagPrivate ? "private"
                              : cls ? "private" : "public");
        J.attribute("member", member);
        if (member)
          J.attribute("class", cast<DICompositeType>(D->getScope())->getName());
        J.attribute("thisarg", F.arg_size() && F.hasStructRetAttr() ? 1 : 0);
        J.attribute("hasthis",
                    SP->getType() && SP->getType()->getTypeArray().size() > 1 &&
                        SP->getType()->getTypeArray()[1] &&
                        SP->getType()->getTypeArray()[1]->isArtificial());
      }
      if (auto *T = SP->getType()) {
        json::Array a;
        for (auto *E : T->getTypeArray()) {
          std::string s;
          const DIType *D = E;
          std::string suffix;
          while (D) {
            if (auto *DT = dyn_cast<DIDerivedType>(D)) {
              if (DT->getTag() == dwarf::DW_TAG_pointer_type)
                suffix += "*";
              else if (DT->getTag() == dwarf::DW_TAG_reference_type ||
                       DT->getTag() == dwarf::DW_TAG_rvalue_reference_type)
                suffix += "&";
              else if (DT->getTag() == dwarf::DW_TAG_typedef) {
                s = DT->getName().str();
                break;
              }
              D = DT->getBaseType();
            } else {
              s = D->getName().str();
              break;
            }
          }
          if (!D)
            s = "void";
          a.push_back(s + suffix);
        }
        J.attribute("sig", std::move(a));
      }
    }
    if (!F.isDeclaration() && repo) {
      DenseMap<const Value *, int> ids;
      int n = 0;
      for (auto &A : F.args())
        ids[&A] = n++;
      int b = 0;
      for (auto &B : F)
        ids[&B] = b++;
      for (auto &I : instructions(F))
        if (!I.getType()->isVoidTy())
          ids[&I] = n++;
      J.attributeBegin("blocks");
      J.arrayBegin();
      for (auto &B : F) {
        J.arrayBegin();
        for (auto &I : B) {
          if (isa<DbgInfoIntrinsic>(I))
            continue;
          if (auto *II = dyn_cast<IntrinsicInst>(&I))
            if (II->isLifetimeStartOrEnd() ||
                II->getIntrinsicID() == Intrinsic::experimental_noalias_scope_decl)
              continue;
          J.objectBegin();
          if (!I.getType()->isVoidTy()) {
            J.attribute("i", ids[&I]);
            J.attribute("ty", tyStr(I.getType()));
          }
          J.attribute("op", I.getOpcodeName());
          if (const DebugLoc &D = I.getDebugLoc()) {
            J.attribute("l", (int64_t)D.getLine());
            if (auto *SP = getDISubprogram(D.getScope())) {
              if (SP != F.getSubprogram()) {
                J.attribute("f", diFile(SP->getFile()));
                J.attribute("fn", scopeName(SP));
              }
            }
          }
          if (auto *PN = dyn_cast<PHINode>(&I)) {
            J.attributeBegin("phi");
            J.arrayBegin();
            for (unsigned k = 0; k < PN->getNumIncomingValues(); ++k)
              J.value(json::Array{operand(PN->getIncomingValue(k), ids),
                  ids[PN->getIncomingBlock(k)]});
            J.arrayEnd();
            J.attributeEnd();
          } else if (auto *CB = dyn_cast<CallBase>(&I)) {
            const Value *cv = CB->getCalledOperand()->stripPointerCasts();
            if (auto *GA = dyn_cast<GlobalAlias>(cv))
              cv = GA->getAliasee()->stripPointerCasts();
            if (auto *CF = dyn_cast<Function>(cv))
              J.attribute("callee", CF->getName());
            else {
              J.attributeBegin("indirect");
              J.value(operand(cv, ids));
              J.attributeEnd();
            }
            if (CB->doesNotThrow())
              J.attribute("nt", true);
            if (CB->doesNotReturn())
              J.attribute("nr", true);
            J.attributeBegin("args");
            J.arrayBegin();
            for (auto &A : CB->args())
              J.value(operand(A.get(), ids));
            J.arrayEnd();
            J.attributeEnd();
            if (auto *IV = dyn_cast<InvokeInst>(CB)) {
              J.attribute("normal", ids[IV->getNormalDest()]);
              J.attribute("unwind", ids[IV->getUnwindDest()]);
            }
          } else if (auto *BI = dyn_cast<BranchInst>(&I)) {
            json::Array s;
            for (unsigned k = 0; k < BI->getNumSuccessors(); ++k)
              s.push_back(ids[BI->getSuccessor(k)]);
            J.attribute("succ", std::move(s));
            if (BI->isConditional()) {
              J.attributeBegin("cond");
              J.value(operand(BI->getCondition(), ids));
              J.attributeEnd();
            }
          } else if (auto *SI = dyn_cast<SwitchInst>(&I)) {
            J.attributeBegin("cond");
            J.value(operand(SI->getCondition(), ids));
            J.attributeEnd();
            J.attribute("default", ids[SI->getDefaultDest()]);
            J.attributeBegin("cases");
            J.arrayBegin();
            for (auto &C : SI->cases())
              J.value(json::Array{C.getCaseValue()->getSExtValue(),
                  ids[C.getCaseSuccessor()]});
            J.arrayEnd();
            J.attributeEnd();
          } else {
            J.attributeBegin("o");
            J.arrayBegin();
            for (auto &O : I.operands())
              J.value(operand(O.get(), ids));
            J.arrayEnd();
            J.attributeEnd();
            if (auto *C = dyn_cast<CmpInst>(&I)) {
              J.attribute("pred", CmpInst::getPredicateName(C->getPredicate()));
              J.attribute("oty", tyStr(C->getOperand(0)->getType()));
            }
            if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
              J.attribute("src", tyStr(G->getSourceElementType()));
              APInt off(64, 0);
              if (G->accumulateConstantOffset(DL, off))
                J.attribute("off", off.getSExtValue());
              J.attribute("esz",
                  (int64_t)DL.getTypeAllocSize(G->getResultElementType())
                      .getFixedValue());
            }
            if (auto *A = dyn_cast<AllocaInst>(&I)) {
              J.attribute("aty", tyStr(A->getAllocatedType()));
              if (A->getAllocatedType()->isSized())
                J.attribute("asz",
                    (int64_t)DL.getTypeAllocSize(A->getAllocatedType())
                        .getFixedValue());
            }
            if (auto *S = dyn_cast<StoreInst>(&I)) {
              J.attribute("sty", tyStr(S->getValueOperand()->getType()));
              J.attribute("vol", S->isVolatile());
            }
            if (isa<CastInst>(&I))
              J.attribute("from", tyStr(I.getOperand(0)->getType()));
            if (auto *EV = dyn_cast<ExtractValueInst>(&I)) {
              json::Array a;
              for (unsigned x : EV->indices())
                a.push_back((int64_t)x);
              J.attribute("idx", std::move(a));
            }
            if (auto *EV = dyn_cast<InsertValueInst>(&I)) {
              json::Array a;
              for (unsigned x : EV->indices())
                a.push_back((int64_t)x);
              J.attribute("idx", std::move(a));
            }
            if (auto *RMW = dyn_cast<AtomicRMWInst>(&I))
              J.attribute("rmw", AtomicRMWInst::getOperationName(RMW->getOperation()));
          }
          J.objectEnd();
        }
        J.arrayEnd();
      }
      J.arrayEnd();
      J.attributeEnd();
      // names of allocas/args from debug info
      J.attributeBegin("names");
      J.objectBegin();
      std::set<int> seen;
      for (auto &I : instructions(F))
        if (auto *DV = dyn_cast<DbgVariableIntrinsic>(&I)) {
          for (Value *V : DV->location_ops()) {
            auto it = ids.find(V);
            if (it != ids.end() && !isa<BasicBlock>(V) &&
                seen.insert(it->second).second)
              J.attribute(std::to_string(it->second), DV->getVariable()->getName());
          }
        }
      J.objectEnd();
      J.attributeEnd();
    }
    J.objectEnd();
  }
  J.arrayEnd();
  J.attributeEnd();

  // --- globals
  J.attributeBegin("globals");
  J.arrayBegin();
  for (auto &G : M->globals()) {
    J.objectBegin();
    J.attribute("name", G.getName());
    J.attribute("const", G.isConstant());
    J.attribute("local", G.hasLocalLinkage());
    J.attribute("tls", G.isThreadLocal());
    J.attribute("decl", G.isDeclaration());
    J.attribute("ty", tyStr(G.getValueType()));
    SmallVector<DIGlobalVariableExpression *, 1> gve;
    G.getDebugInfo(gve);
    if (!gve.empty()) {
      auto *V = gve[0]->getVariable();
      J.attribute("dname", V->getName());
      J.attribute("q", scopeName(V->getScope()));
      if (auto *T = dyn_cast_or_null<DIDerivedType>(V->getType()))
        J.attribute("dconst", T->getTag() == dwarf::DW_TAG_const_type);
      J.attribute("file", diFile(V->getFile()));
      J.attribute("line", (int64_t)V->getLine());
    }
    if (G.hasInitializer()) {
      J.attributeBegin("init");
      J.value(constant(G.getInitializer()));
      J.attributeEnd();
    }
    J.objectEnd();
  }
  J.arrayEnd();
  J.attributeEnd();

  // --- types from debug info
  DebugInfoFinder DIF;
  DIF.processModule(*M);
  J.attributeBegin("records");
  J.arrayBegin();
  for (auto *T : DIF.types()) {
    auto *CT = dyn_cast<DICompositeType>(T);
    if (!CT || CT->isForwardDecl())
      continue;
    unsigned tag = CT->getTag();
    std::string f = diFile(CT->getFile());
    if (!StringRef(f).starts_with(Repo + "/"))
      continue;
    if (tag == dwarf::DW_TAG_structure_type || tag == dwarf::DW_TAG_class_type ||
        tag == dwarf::DW_TAG_union_type || tag == dwarf::DW_TAG_enumeration_type) {
      J.objectBegin();
      J.attribute("name", CT->getName());
      J.attribute("q", scopeName(CT));
      J.attribute("file", f);
      J.attribute("line", (int64_t)CT->getLine());
      J.attribute("kind", tag == dwarf::DW_TAG_enumeration_type ? "enum" : "rec");
      J.attribute("bits", (int64_t)CT->getSizeInBits());
      J.attributeBegin("m");
      J.arrayBegin();
      for (auto *E : CT->getElements()) {
        if (auto *D = dyn_cast<DIDerivedType>(E)) {
          if (D->getTag() == dwarf::DW_TAG_member && !D->isStaticMember()) {
            std::string tn;
            if (auto *B = D->getBaseType())
              tn = B->getName().str();
            J.value(json::Array{D->getName().str(), (int64_t)D->getOffsetInBits(),
                (int64_t)D->getSizeInBits(), tn});
          } else if (D->getTag() == dwarf::DW_TAG_inheritance) {
            std::string tn;
            if (auto *B = D->getBaseType())
              tn = scopeName(B);
            J.value(json::Array{"<base>", (int64_t)D->getOffsetInBits(), 0, tn});
          }
        } else if (auto *E2 = dyn_cast<DIEnumerator>(E)) {
          J.value(json::Array{E2->getName().str(), E2->getValue().getSExtValue()});
        }
      }
      J.arrayEnd();
      J.attributeEnd();
      J.objectEnd();
    }
  }
  J.arrayEnd();
  J.attributeEnd();
  J.objectEnd();
  out << "\n";
  return 0;
}

// irdump: load LLVM bitcode, normalise it (inline everything that is not
// recursive and not listed as a boundary, promote memory to SSA) and print the
// resulting functions, types and debug-info layouts as JSON for the abstract
// interpreter.
#include <llvm/ADT/SCCIterator.h>
#include <llvm/Analysis/CallGraph.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/Bitcode/BitcodeReader.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Transforms/IPO/AlwaysInliner.h>

#include <map>
#include <regex>
#include <set>
#include <string>
#include <vector>

using namespace llvm;

static raw_ostream* OS;
static const DataLayout* DL;

static std::string esc(StringRef s) {
  std::string r;
  for (char c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += c;
    } else if ((unsigned char)c < 0x20 || (unsigned char)c > 0x7e) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", (unsigned char)c);
      r += b;
    } else {
      r += c;
    }
  }
  return r;
}

static void tyjson(Type* t) {
  auto& o = *OS;
  switch (t->getTypeID()) {
    case Type::VoidTyID: o << "[\"void\"]"; return;
    case Type::IntegerTyID:
      o << "[\"i\"," << t->getIntegerBitWidth() << "]"; return;
    case Type::FloatTyID: o << "[\"f\",32]"; return;
    case Type::DoubleTyID: o << "[\"f\",64]"; return;
    case Type::PointerTyID: o << "[\"p\"]"; return;
    case Type::FixedVectorTyID: {
      auto* v = cast<FixedVectorType>(t);
      o << "[\"v\"," << v->getNumElements() << ",";
      tyjson(v->getElementType());
      o << "]";
      return;
    }
    case Type::ArrayTyID: {
      o << "[\"a\"," << t->getArrayNumElements() << ",";
      tyjson(t->getArrayElementType());
      o << "]";
      return;
    }
    case Type::StructTyID: {
      auto* s = cast<StructType>(t);
      o << "[\"s\",\"" << (s->hasName() ? esc(s->getName()) : "") << "\","
        << (s->isSized() ? (uint64_t)DL->getTypeAllocSize(s) : 0) << ",[";
      if (s->isSized()) {
        auto* sl = DL->getStructLayout(s);
        for (unsigned i = 0; i < s->getNumElements(); i++) {
          if (i) o << ",";
          o << "[" << (uint64_t)sl->getElementOffset(i) << ",";
          tyjson(s->getElementType(i));
          o << "]";
        }
      }
      o << "]]";
      return;
    }
    default: o << "[\"other\"]"; return;
  }
}
static uint64_t szof(Type* t) {
  return t->isSized() ? (uint64_t)DL->getTypeAllocSize(t) : 0;
}

struct FDump {
  std::map<const Value*, int> ids;
  int idof(const Value* v) {
    auto it = ids.find(v);
    if (it != ids.end()) return it->second;
    int n = ids.size();
    ids[v] = n;
    return n;
  }
  std::map<const BasicBlock*, int> bbs;

  void apint(const APInt& a) {
    SmallString<40> s;
    a.toString(s, 10, false);
    *OS << s;
  }
  void konst(const Constant* c) {
    auto& o = *OS;
    if (auto* ci = dyn_cast<ConstantInt>(c)) {
      o << "[\"c\"," << ci->getBitWidth() << ",";
      apint(ci->getValue());
      o << "]";
    } else if (isa<ConstantPointerNull>(c)) {
      o << "[\"null\"]";
    } else if (isa<UndefValue>(c)) {
      o << "[\"undef\"]";
    } else if (auto* f = dyn_cast<Function>(c)) {
      o << "[\"fn\",\"" << esc(f->getName()) << "\"]";
    } else if (auto* g = dyn_cast<GlobalVariable>(c)) {
      o << "[\"g\",\"" << esc(g->getName()) << "\",0]";
    } else if (auto* ga = dyn_cast<GlobalAlias>(c)) {
      konst(ga->getAliasee());
    } else if (auto* ce = dyn_cast<ConstantExpr>(c)) {
      if (auto* gep = dyn_cast<GEPOperator>(ce)) {
        APInt off(64, 0);
        if (gep->accumulateConstantOffset(*DL, off) &&
            isa<GlobalVariable>(gep->getPointerOperand())) {
          o << "[\"g\",\"" << esc(gep->getPointerOperand()->getName()) << "\","
            << off.getSExtValue() << "]";
          return;
        }
      }
      o << "[\"ce\",\"" << ce->getOpcodeName() << "\",[";
      for (unsigned i = 0; i < ce->getNumOperands(); i++) {
        if (i) o << ",";
        konst(ce->getOperand(i));
      }
      o << "]]";
    } else if (auto* fp = dyn_cast<ConstantFP>(c)) {
      o << "[\"cf\",";
      apint(fp->getValueAPF().bitcastToAPInt());
      o << "," << fp->getType()->getPrimitiveSizeInBits() << "]";
    } else if (isa<ConstantAggregateZero>(c)) {
      o << "[\"zero\",";
      tyjson(c->getType());
      o << "]";
    } else if (isa<ConstantDataSequential>(c) || isa<ConstantVector>(c) ||
               isa<ConstantArray>(c) || isa<ConstantStruct>(c)) {
      o << "[\"agg\",[";
      unsigned n = 0;
      if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
        for (n = 0; n < cd->getNumElements(); n++) {
          if (n) o << ",";
          konst(cd->getElementAsConstant(n));
        }
      } else {
        for (n = 0; n < c->getNumOperands(); n++) {
          if (n) o << ",";
          konst(cast<Constant>(c->getOperand(n)));
        }
      }
      o << "],";
      tyjson(c->getType());
      o << "]";
    } else {
      o << "[\"unk\"]";
    }
  }
  void operand(const Value* v) {
    auto& o = *OS;
    if (auto* c = dyn_cast<Constant>(v)) return konst(c);
    if (isa<Argument>(v) || isa<Instruction>(v)) {
      o << "[\"v\"," << idof(v) << "]";
      return;
    }
    if (auto* mv = dyn_cast<MetadataAsValue>(v)) {
      (void)mv;
      o << "[\"md\"]";
      return;
    }
    o << "[\"unk\"]";
  }
  void loc(const Instruction& I) {
    // chain innermost..outermost: [func,line,file]
    auto& o = *OS;
    o << "[";
    bool first = true;
    const DILocation* dl = I.getDebugLoc().get();
    while (dl) {
      if (!first) o << ",";
      first = false;
      auto* sp = dl->getScope()->getSubprogram();
      o << "[\"" << esc(sp ? sp->getName() : "") << "\"," << dl->getLine()
        << ",\"" << esc(dl->getFilename()) << "\"]";
      dl = dl->getInlinedAt();
    }
    o << "]";
  }
};

static void dumpFn(Function& F, DominatorTree& DT, LoopInfo& LI) {
  auto& o = *OS;
  FDump D;
  o << "{\"name\":\"" << esc(F.getName()) << "\",\"dem\":\""
    << esc(demangle(F.getName().str())) << "\",\"nounwind\":"
    << (F.doesNotThrow() ? 1 : 0) << ",\"noreturn\":"
    << (F.doesNotReturn() ? 1 : 0) << ",\"ret\":";
  tyjson(F.getReturnType());
  if (auto* sp = F.getSubprogram())
    o << ",\"file\":\"" << esc(sp->getFilename()) << "\",\"line\":"
      << sp->getLine();
  o << ",\"args\":[";
  bool f = true;
  for (auto& A : F.args()) {
    if (!f) o << ",";
    f = false;
    o << "{\"id\":" << D.idof(&A) << ",\"ty\":";
    tyjson(A.getType());
    if (A.hasStructRetAttr())
      o << ",\"sret\":" << szof(A.getParamStructRetType());
    if (A.hasByValAttr()) o << ",\"byval\":" << szof(A.getParamByValType());
    o << "}";
  }
  o << "]";
  if (F.isDeclaration()) {
    o << ",\"decl\":1}";
    return;
  }
  int bi = 0;
  for (auto& B : F) D.bbs[&B] = bi++;
  o << ",\"loops\":[";
  f = true;
  for (Loop* L : LI.getLoopsInPreorder()) {
    if (!f) o << ",";
    f = false;
    o << "{\"header\":" << D.bbs[L->getHeader()] << ",\"depth\":"
      << L->getLoopDepth() << ",\"blocks\":[";
    bool g = true;
    for (auto* B : L->blocks()) {
      if (!g) o << ",";
      g = false;
      o << D.bbs[B];
    }
    o << "]}";
  }
  o << "],\"blocks\":[";
  f = true;
  for (auto& B : F) {
    if (!f) o << ",\n";
    f = false;
    o << "[";
    bool g = true;
    for (auto& I : B) {
      if (isa<DbgInfoIntrinsic>(I)) continue;
      if (auto* II = dyn_cast<IntrinsicInst>(&I)) {
        auto id = II->getIntrinsicID();
        if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end ||
            id == Intrinsic::experimental_noalias_scope_decl ||
            id == Intrinsic::invariant_start || id == Intrinsic::invariant_end)
          continue;
      }
      if (!g) o << ",\n ";
      g = false;
      o << "{\"op\":\"" << I.getOpcodeName() << "\"";
      if (!I.getType()->isVoidTy()) {
        o << ",\"id\":" << D.idof(&I) << ",\"ty\":";
        tyjson(I.getType());
      }
      auto ops = [&](unsigned from, unsigned to) {
        o << ",\"a\":[";
        for (unsigned i = from; i < to; i++) {
          if (i > from) o << ",";
          D.operand(I.getOperand(i));
        }
        o << "]";
      };
      if (auto* gep = dyn_cast<GetElementPtrInst>(&I)) {
        APInt coff(64, 0);
        MapVector<Value*, APInt> var;
        if (gep->collectOffset(*DL, 64, var, coff)) {
          o << ",\"base\":";
          D.operand(gep->getPointerOperand());
          o << ",\"coff\":" << coff.getSExtValue() << ",\"vars\":[";
          bool h = true;
          for (auto& p : var) {
            if (!h) o << ",";
            h = false;
            o << "[";
            D.operand(p.first);
            o << "," << p.second.getSExtValue() << "]";
          }
          o << "]";
          o << ",\"inb\":" << (gep->isInBounds() ? 1 : 0);
        } else {
          o << ",\"bad\":1";
        }
      } else if (auto* al = dyn_cast<AllocaInst>(&I)) {
        o << ",\"size\":" << szof(al->getAllocatedType())
          << ",\"align\":" << al->getAlign().value() << ",\"aty\":";
        tyjson(al->getAllocatedType());
        ops(0, 1);
        o << ",\"nm\":\"" << esc(al->getName()) << "\"";
      } else if (auto* ld = dyn_cast<LoadInst>(&I)) {
        o << ",\"size\":" << (uint64_t)DL->getTypeStoreSize(ld->getType())
          << ",\"align\":" << ld->getAlign().value();
        ops(0, 1);
      } else if (auto* st = dyn_cast<StoreInst>(&I)) {
        o << ",\"size\":"
          << (uint64_t)DL->getTypeStoreSize(st->getValueOperand()->getType())
          << ",\"align\":" << st->getAlign().value() << ",\"vty\":";
        tyjson(st->getValueOperand()->getType());
        ops(0, 2);
      } else if (auto* cb = dyn_cast<CallBase>(&I)) {
        o << ",\"callee\":";
        D.operand(cb->getCalledOperand()->stripPointerCasts());
        if (auto* cf = cb->getCalledFunction()) {
          o << ",\"cn\":\"" << esc(cf->getName()) << "\",\"cd\":\""
            << esc(demangle(cf->getName().str())) << "\"";
          if (cf->doesNotReturn()) o << ",\"noret\":1";
        }
        if (cb->doesNotThrow()) o << ",\"nothrow\":1";
        o << ",\"a\":[";
        for (unsigned i = 0; i < cb->arg_size(); i++) {
          if (i) o << ",";
          D.operand(cb->getArgOperand(i));
        }
        o << "]";
        if (auto* iv = dyn_cast<InvokeInst>(&I))
          o << ",\"succ\":[" << D.bbs[iv->getNormalDest()] << ","
            << D.bbs[iv->getUnwindDest()] << "]";
      } else if (auto* ph = dyn_cast<PHINode>(&I)) {
        o << ",\"in\":[";
        for (unsigned i = 0; i < ph->getNumIncomingValues(); i++) {
          if (i) o << ",";
          o << "[" << D.bbs[ph->getIncomingBlock(i)] << ",";
          D.operand(ph->getIncomingValue(i));
          o << "]";
        }
        o << "]";
      } else if (auto* br = dyn_cast<BranchInst>(&I)) {
        if (br->isConditional()) ops(0, 1);
        o << ",\"succ\":[";
        for (unsigned i = 0; i < br->getNumSuccessors(); i++) {
          if (i) o << ",";
          o << D.bbs[br->getSuccessor(i)];
        }
        o << "]";
      } else if (auto* sw = dyn_cast<SwitchInst>(&I)) {
        ops(0, 1);
        o << ",\"def\":" << D.bbs[sw->getDefaultDest()] << ",\"cases\":[";
        bool h = true;
        for (auto& c : sw->cases()) {
          if (!h) o << ",";
          h = false;
          o << "[";
          D.apint(c.getCaseValue()->getValue());
          o << "," << D.bbs[c.getCaseSuccessor()] << "]";
        }
        o << "]";
      } else if (auto* cmp = dyn_cast<CmpInst>(&I)) {
        o << ",\"pred\":\"" << CmpInst::getPredicateName(cmp->getPredicate())
          << "\",\"oty\":";
        tyjson(cmp->getOperand(0)->getType());
        ops(0, 2);
      } else if (auto* cast = dyn_cast<CastInst>(&I)) {
        o << ",\"oty\":";
        tyjson(cast->getSrcTy());
        ops(0, 1);
      } else if (auto* ev = dyn_cast<ExtractValueInst>(&I)) {
        ops(0, 1);
        o << ",\"idx\":[";
        for (unsigned i = 0; i < ev->getNumIndices(); i++)
          o << (i ? "," : "") << ev->getIndices()[i];
        o << "]";
      } else if (auto* iv = dyn_cast<InsertValueInst>(&I)) {
        ops(0, 2);
        o << ",\"idx\":[";
        for (unsigned i = 0; i < iv->getNumIndices(); i++)
          o << (i ? "," : "") << iv->getIndices()[i];
        o << "]";
      } else if (auto* sv = dyn_cast<ShuffleVectorInst>(&I)) {
        ops(0, 2);
        o << ",\"mask\":[";
        auto m = sv->getShuffleMask();
        for (unsigned i = 0; i < m.size(); i++) o << (i ? "," : "") << m[i];
        o << "]";
      } else if (auto* lp = dyn_cast<LandingPadInst>(&I)) {
        o << ",\"cleanup\":" << (lp->isCleanup() ? 1 : 0)
          << ",\"nclauses\":" << lp->getNumClauses() << ",\"clauses\":[";
        for (unsigned i = 0; i < lp->getNumClauses(); i++) {
          auto* c = lp->getClause(i)->stripPointerCasts();
          o << (i ? "," : "");
          if (lp->isCatch(i) && isa<GlobalVariable>(c))
            o << "\"" << esc(c->getName()) << "\"";
          else
            o << "null";  // catch (...), or an exception specification
        }
        o << "]";
      } else {
        ops(0, I.getNumOperands());
        if (auto* bo = dyn_cast<PossiblyExactOperator>(&I))
          o << ",\"exact\":" << (bo->isExact() ? 1 : 0);
        if (auto* ob = dyn_cast<OverflowingBinaryOperator>(&I))
          o << ",\"nuw\":" << (ob->hasNoUnsignedWrap() ? 1 : 0)
            << ",\"nsw\":" << (ob->hasNoSignedWrap() ? 1 : 0);
      }
      o << ",\"loc\":";
      D.loc(I);
      o << "}";
    }
    o << "]";
  }
  o << "]}";
}

static const DIType* strip(const DIType* t) {
  while (auto* d = dyn_cast_or_null<DIDerivedType>(t)) {
    if (d->getTag() == dwarf::DW_TAG_pointer_type ||
        d->getTag() == dwarf::DW_TAG_reference_type)
      return d;
    t = d->getBaseType();
  }
  return t;
}

static void ditype(const DIType* t) {
  auto& o = *OS;
  t = strip(t);
  if (!t) {
    o << "[\"void\"]";
    return;
  }
  if (auto* d = dyn_cast<DIDerivedType>(t)) {
    auto* b = strip(d->getBaseType());
    o << "[\"ptr\",\""
      << esc(b ? (b->getName().empty() ? "" : b->getName()) : "void")
      << "\",\""
      << (b && isa<DICompositeType>(b)
              ? esc(cast<DICompositeType>(b)->getIdentifier())
              : "")
      << "\"]";
    return;
  }
  if (auto* b = dyn_cast<DIBasicType>(t)) {
    o << "[\"base\",\"" << esc(b->getName()) << "\","
      << b->getSizeInBits() / 8 << "]";
    return;
  }
  if (auto* c = dyn_cast<DICompositeType>(t)) {
    if (c->getTag() == dwarf::DW_TAG_array_type) {
      uint64_t n = 0;
      for (auto* e : c->getElements())
        if (auto* sr = dyn_cast<DISubrange>(e))
          if (auto* ci = dyn_cast_if_present<ConstantInt*>(sr->getCount()))
            n = ci->getZExtValue();
      o << "[\"array\"," << n << "," << c->getSizeInBits() / 8 << ",";
      ditype(c->getBaseType());
      o << "]";
      return;
    }
    o << "[\"comp\",\"" << esc(c->getName()) << "\",\""
      << esc(c->getIdentifier()) << "\"," << c->getSizeInBits() / 8 << "]";
    return;
  }
  o << "[\"other\"]";
}

static std::string scopeName(const DIScope* s) {
  std::string r;
  while (s && !isa<DIFile>(s) && !isa<DICompileUnit>(s)) {
    std::string n = s->getName().str();
    if (!n.empty()) r = r.empty() ? n : n + "::" + r;
    s = s->getScope();
  }
  return r;
}

int main(int argc, char** argv) {
  // irdump in.bc out.json [-keep REGEX]...
  std::vector<std::regex> keep;
  for (int i = 3; i + 1 < argc; i += 2)
    if (std::string(argv[i]) == "-keep")
      keep.emplace_back(argv[i + 1], std::regex::extended);
  LLVMContext ctx;
  SMDiagnostic err;
  auto M = parseIRFile(argv[1], err, ctx);
  if (!M) {
    err.print("irdump", errs());
    return 2;
  }
  DL = &M->getDataLayout();
  std::error_code ec;
  raw_fd_ostream os(argv[2], ec);
  OS = &os;

  // recursion
  std::set<Function*> rec;
  {
    CallGraph CG(*M);
    for (auto it = scc_begin(&CG); !it.isAtEnd(); ++it) {
      if (it.hasCycle())
        for (auto* n : *it)
          if (n->getFunction()) rec.insert(n->getFunction());
    }
  }
  std::set<Function*> entries;
  for (auto& F : *M) {
    if (F.isDeclaration()) continue;
    std::string dem = demangle(F.getName().str());
    bool kept = rec.count(&F) > 0;
    for (auto& r : keep)
      if (std::regex_search(dem, r)) kept = true;
    bool entry = F.getName().starts_with("vpe_");
    if (entry) entries.insert(&F);
    F.removeFnAttr(Attribute::OptimizeNone);
    F.removeFnAttr(Attribute::NoInline);
    F.removeFnAttr(Attribute::AlwaysInline);
    if (kept || entry)
      F.addFnAttr(Attribute::NoInline);
    else
      F.addFnAttr(Attribute::AlwaysInline);
  }
  {
    PassBuilder PB;
    LoopAnalysisManager LAM;
    FunctionAnalysisManager FAM;
    CGSCCAnalysisManager CAM;
    ModuleAnalysisManager MAM;
    PB.registerModuleAnalyses(MAM);
    PB.registerCGSCCAnalyses(CAM);
    PB.registerFunctionAnalyses(FAM);
    PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
    ModulePassManager MPM;
    const char* pipe =
        "function(sroa,early-cse,simplifycfg),always-inline,function(sroa,"
        "early-cse<memssa>,instsimplify,simplifycfg,sroa,early-cse<memssa>,"
        "adce,simplifycfg,loop-simplify)";
    if (auto e = PB.parsePassPipeline(MPM, pipe)) {
      errs() << "pipeline: " << toString(std::move(e)) << "\n";
      return 2;
    }
    MPM.run(*M, MAM);
  }
  os << "{\"functions\":[";
  bool first = true;
  std::set<Function*> reach;
  std::vector<Function*> wl;
  for (auto& F : *M)
    if (F.getName().starts_with("vpe_") && !F.isDeclaration()) {
      wl.push_back(&F);
      reach.insert(&F);
    }
  while (!wl.empty()) {
    auto* F = wl.back();
    wl.pop_back();
    for (auto& I : instructions(F))
      for (auto& op : I.operands())
        if (auto* g = dyn_cast<Function>(op->stripPointerCasts()))
          if (reach.insert(g).second) wl.push_back(g);
  }
  std::set<GlobalVariable*> globs;
  for (auto& F : *M) {
    if (!reach.count(&F)) continue;
    if (F.isDeclaration() && F.isIntrinsic()) continue;
    if (!first) os << ",\n";
    first = false;
    DominatorTree DT;
    LoopInfo LI;
    if (!F.isDeclaration()) {
      DT.recalculate(F);
      LI.analyze(DT);
    }
    dumpFn(F, DT, LI);
  }
  os << "],\n\"globals\":[";
  first = true;
  for (auto& G : M->globals()) {
    if (!first) os << ",\n";
    first = false;
    os << "{\"name\":\"" << esc(G.getName()) << "\",\"size\":"
       << szof(G.getValueType()) << ",\"const\":" << (G.isConstant() ? 1 : 0)
       << ",\"ty\":";
    tyjson(G.getValueType());
    if (G.hasInitializer()) {
      os << ",\"init\":";
      FDump D;
      if (G.getName().starts_with("_ZT"))
        os << "[\"unk\"]";
      else
        D.konst(G.getInitializer());
    }
    os << "}";
  }
  os << "],\n\"di\":[";
  first = true;
  DebugInfoFinder dif;
  dif.processModule(*M);
  for (auto* t : dif.types()) {
    auto* c = dyn_cast<DICompositeType>(t);
    if (!c || c->isForwardDecl()) continue;
    if (c->getTag() != dwarf::DW_TAG_structure_type &&
        c->getTag() != dwarf::DW_TAG_class_type &&
        c->getTag() != dwarf::DW_TAG_union_type)
      continue;
    if (!first) os << ",\n";
    first = false;
    os << "{\"name\":\"" << esc(c->getName()) << "\",\"id\":\""
       << esc(c->getIdentifier()) << "\",\"scope\":\""
       << esc(scopeName(c->getScope())) << "\",\"size\":"
       << c->getSizeInBits() / 8 << ",\"align\":" << c->getAlignInBits() / 8
       << ",\"union\":"
       << (c->getTag() == dwarf::DW_TAG_union_type ? 1 : 0) << ",\"members\":[";
    bool g = true;
    for (auto* e : c->getElements()) {
      auto* d = dyn_cast<DIDerivedType>(e);
      if (!d || (d->getTag() != dwarf::DW_TAG_member &&
                 d->getTag() != dwarf::DW_TAG_inheritance))
        continue;
      if (d->isStaticMember()) continue;
      if (!g) os << ",";
      g = false;
      os << "[\"" << esc(d->getName()) << "\"," << d->getOffsetInBits() / 8
         << ",";
      ditype(d->getBaseType());
      os << "," << (d->getTag() == dwarf::DW_TAG_inheritance ? 1 : 0) << "]";
    }
    os << "]}";
  }
  os << "]}\n";
  os.flush();
  return 0;
}

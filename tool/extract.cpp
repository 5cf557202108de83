// Lowers LLVM bitcode (clang -O0, exception edges explicit) to line-delimited
// JSON facts.  Usage: lsextract OUTDIR ROOTPREFIX file.bc...
// Every .bc is loaded in its own context, promoted to SSA (mem2reg) and each
// function definition is emitted once (ODR duplicates are dropped).
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/IR/PassManager.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Support/FileSystem.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Transforms/Utils/PromoteMemToReg.h>
#include <llvm/ADT/APInt.h>
#include <atomic>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include <vector>
#include <map>
#include <unordered_map>
#include <unordered_set>
using namespace llvm;

static std::mutex claimMx;
static std::unordered_set<std::string> claimedFn, claimedTy, claimedGv;
static bool claim(std::unordered_set<std::string> &s, const std::string &k) {
  std::lock_guard<std::mutex> _(claimMx);
  return s.insert(k).second;
}
static std::string rootPrefix;

static std::string jstr(StringRef s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}

struct Emit {
  Module &M; const DataLayout &DL; raw_ostream &os; std::string tu;
  DenseMap<const Value *, int> ids; DenseMap<const BasicBlock *, int> bbs;
  std::set<const DIType *> types;
  Emit(Module &M, raw_ostream &os, std::string tu) : M(M), DL(M.getDataLayout()), os(os), tu(tu) {}

  std::string gname(const GlobalValue *g) {
    std::string n = g->getName().str();
    if (g->hasLocalLinkage()) n += "@@" + tu;
    return n;
  }
  std::string tystr(Type *t) {
    std::string s; raw_string_ostream o(s);
    if (auto *st = dyn_cast<StructType>(t)) { if (st->hasName()) return st->getName().str(); }
    t->print(o, false, true); return o.str();
  }
  std::string intc(const APInt &v) { SmallString<32> s; v.toStringSigned(s); return std::string(s.str()); }

  void cexpr(const Constant *c, int depth = 0) {
    if (auto *ci = dyn_cast<ConstantInt>(c)) { os << "[\"c\"," << intc(ci->getValue()) << "]"; return; }
    if (isa<ConstantPointerNull>(c)) { os << "[\"c\",0]"; return; }
    if (isa<UndefValue>(c)) { os << "[\"u\"]"; return; }
    if (auto *f = dyn_cast<ConstantFP>(c)) {
      SmallString<32> s; f->getValueAPF().toString(s); os << "[\"f\"," << jstr(s) << "]"; return; }
    if (auto *ga = dyn_cast<GlobalAlias>(c)) { cexpr(ga->getAliasee(), depth); return; }
    if (auto *g = dyn_cast<GlobalValue>(c)) { os << "[\"g\"," << jstr(gname(g)) << ",0]"; return; }
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
      APInt off(64, 0);
      const Value *b = ce->stripAndAccumulateConstantOffsets(DL, off, true);
      if (auto *g = dyn_cast<GlobalValue>(b)) { os << "[\"g\"," << jstr(gname(g)) << "," << off.getSExtValue() << "]"; return; }
      os << "[\"e\"," << jstr(ce->getOpcodeName());
      for (unsigned i = 0; i < ce->getNumOperands() && depth < 4; i++) { os << ","; cexpr(ce->getOperand(i), depth + 1); }
      os << "]"; return;
    }
    if (auto *cds = dyn_cast<ConstantDataSequential>(c)) {
      if (cds->isString() || cds->getElementType()->isIntegerTy(8)) { os << "[\"s\"," << jstr(cds->getRawDataValues()) << "]"; return; }
      os << "[\"l\",[";
      for (unsigned i = 0; i < cds->getNumElements(); i++) { if (i) os << ","; cexpr(cds->getElementAsConstant(i), depth + 1); }
      os << "]]"; return;
    }
    if (isa<ConstantAggregateZero>(c)) { os << "[\"z\"," << DL.getTypeAllocSize(c->getType()) << "]"; return; }
    if (isa<ConstantAggregate>(c)) {
      os << "[\"l\",[";
      for (unsigned i = 0; i < c->getNumOperands(); i++) { if (i) os << ","; cexpr(cast<Constant>(c->getOperand(i)), depth + 1); }
      os << "]]"; return;
    }
    os << "[\"u\"]";
  }
  void val(const Value *v) {
    auto it = ids.find(v);
    if (it != ids.end()) { os << it->second; return; }
    if (auto *a = dyn_cast<Argument>(v)) { os << "[\"a\"," << a->getArgNo() << "]"; return; }
    if (auto *c = dyn_cast<Constant>(v)) { cexpr(c); return; }
    os << "[\"u\"]";
  }
  void bb(const BasicBlock *b) { os << bbs[b]; }
  static const char *ord(AtomicOrdering o) {
    switch (o) {
      case AtomicOrdering::NotAtomic: return "";
      case AtomicOrdering::Unordered: return "unordered";
      case AtomicOrdering::Monotonic: return "relaxed";
      case AtomicOrdering::Acquire: return "acquire";
      case AtomicOrdering::Release: return "release";
      case AtomicOrdering::AcquireRelease: return "acq_rel";
      case AtomicOrdering::SequentiallyConsistent: return "seq_cst";
    }
    return "";
  }
  std::string relpath(const DIFile *f) {
    if (!f) return "";
    std::string p = f->getFilename().str();
    if (!p.empty() && p[0] != '/') p = f->getDirectory().str() + "/" + p;
    // normalise ./ and ../
    std::vector<std::string> parts; std::string cur;
    for (size_t i = 0; i <= p.size(); i++) {
      if (i == p.size() || p[i] == '/') {
        if (cur == "..") { if (!parts.empty()) parts.pop_back(); }
        else if (!cur.empty() && cur != ".") parts.push_back(cur);
        cur.clear();
      } else cur += p[i];
    }
    std::string r; for (auto &x : parts) r += "/" + x;
    if (r.compare(0, rootPrefix.size(), rootPrefix) == 0) r = r.substr(rootPrefix.size());
    return r;
  }
  int lineOf(const Instruction &I) { if (auto &d = I.getDebugLoc()) return d.getLine(); return 0; }

  void instr(const Instruction &I) {
    int id = ids.count(&I) ? ids[&I] : -1;
    auto head = [&](const char *op) { os << "[" << id << ",\"" << op << "\"," << lineOf(I); };
    if (auto *a = dyn_cast<AllocaInst>(&I)) {
      head("alloca"); os << "," << jstr(tystr(a->getAllocatedType())) << ",";
      auto sz = a->getAllocationSize(DL); os << (sz ? (int64_t)sz->getFixedValue() : -1) << ",";
      std::string nm, ty;
      for (auto *d : findDbgDeclares(const_cast<AllocaInst *>(a))) {
        nm = d->getVariable()->getName().str();
        if (d->getVariable()->getType()) { ty = ditype(d->getVariable()->getType()); }
      }
      os << jstr(nm) << "," << jstr(ty) << "]"; return;
    }
    if (auto *l = dyn_cast<LoadInst>(&I)) {
      head("load"); os << ","; val(l->getPointerOperand()); os << "," << jstr(tystr(l->getType())) << "," << jstr(ord(l->getOrdering())) << "," << (l->isVolatile() ? 1 : 0) << "]"; return;
    }
    if (auto *s = dyn_cast<StoreInst>(&I)) {
      head("store"); os << ","; val(s->getValueOperand()); os << ","; val(s->getPointerOperand());
      os << "," << jstr(tystr(s->getValueOperand()->getType())) << "," << jstr(ord(s->getOrdering())) << "," << (s->isVolatile() ? 1 : 0) << "]"; return;
    }
    if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
      APInt off(64, 0); MapVector<Value *, APInt> var;
      head("gep"); os << ","; val(g->getPointerOperand());
      bool ok = g->collectOffset(DL, 64, var, off);
      os << "," << (ok ? off.getSExtValue() : 0) << ",[";
      if (ok) { bool f = false; for (auto &kv : var) { if (f) os << ","; f = true; os << "["; val(kv.first); os << "," << kv.second.getSExtValue() << "]"; } }
      else os << "[[\"u\"],1]";
      os << "]," << jstr(tystr(g->getSourceElementType()));
      os << "]"; return;
    }
    if (auto *cb = dyn_cast<CallBase>(&I)) {
      if (isa<DbgInfoIntrinsic>(&I)) return;
      if (auto *ii = dyn_cast<IntrinsicInst>(&I)) {
        switch (ii->getIntrinsicID()) { case Intrinsic::assume: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: return; default: break; }
      }
      head("call"); os << ",";
      val(cb->getCalledOperand()->stripPointerCasts()); os << ",[";
      for (unsigned i = 0; i < cb->arg_size(); i++) {
        if (i) os << ",";
        if (isa<MetadataAsValue>(cb->getArgOperand(i))) {
          auto *md = cast<MetadataAsValue>(cb->getArgOperand(i))->getMetadata();
          if (auto *ms = dyn_cast<MDString>(md)) os << "[\"m\"," << jstr(ms->getString()) << "]"; else os << "[\"u\"]";
        } else val(cb->getArgOperand(i));
      }
      os << "]," << (cb->doesNotThrow() ? 1 : 0) << "," << (cb->doesNotReturn() ? 1 : 0) << ",";
      if (auto *iv = dyn_cast<InvokeInst>(&I)) { bb(iv->getNormalDest()); os << ","; bb(iv->getUnwindDest()); }
      else os << "-1,-1";
      os << "," << jstr(tystr(cb->getType()));
      std::string ft; raw_string_ostream fo(ft); cb->getFunctionType()->print(fo); os << "," << jstr(fo.str());
      bool sret = cb->arg_size() && cb->paramHasAttr(0, Attribute::StructRet);
      os << "," << (sret ? 1 : 0) << "]"; return;
    }
    if (auto *b = dyn_cast<BranchInst>(&I)) {
      if (b->isConditional()) { head("br"); os << ","; val(b->getCondition()); os << ","; bb(b->getSuccessor(0)); os << ","; bb(b->getSuccessor(1)); os << "]"; }
      else { head("jmp"); os << ","; bb(b->getSuccessor(0)); os << "]"; }
      return;
    }
    if (auto *s = dyn_cast<SwitchInst>(&I)) {
      head("switch"); os << ","; val(s->getCondition()); os << ","; bb(s->getDefaultDest()); os << ",[";
      bool f = false;
      for (auto &c : s->cases()) { if (f) os << ","; f = true; os << "[" << intc(c.getCaseValue()->getValue()) << ","; bb(c.getCaseSuccessor()); os << "]"; }
      os << "]]"; return;
    }
    if (auto *r = dyn_cast<ReturnInst>(&I)) { head("ret"); os << ","; if (r->getReturnValue()) val(r->getReturnValue()); else os << "null"; os << "]"; return; }
    if (isa<ResumeInst>(&I)) { head("resume"); os << ","; val(I.getOperand(0)); os << "]"; return; }
    if (isa<UnreachableInst>(&I)) { head("unreachable"); os << "]"; return; }
    if (auto *c = dyn_cast<CmpInst>(&I)) {
      head("cmp"); os << "," << jstr(CmpInst::getPredicateName(c->getPredicate())) << ","; val(c->getOperand(0)); os << ","; val(c->getOperand(1)); os << "," << jstr(tystr(c->getOperand(0)->getType())) << "]"; return;
    }
    if (auto *b = dyn_cast<BinaryOperator>(&I)) { head("bin"); os << "," << jstr(b->getOpcodeName()) << ","; val(b->getOperand(0)); os << ","; val(b->getOperand(1)); os << "," << jstr(tystr(b->getType())) << "]"; return; }
    if (auto *c = dyn_cast<CastInst>(&I)) { head("cast"); os << "," << jstr(c->getOpcodeName()) << ","; val(c->getOperand(0)); os << "," << jstr(tystr(c->getSrcTy())) << "," << jstr(tystr(c->getDestTy())) << "]"; return; }
    if (isa<SelectInst>(&I)) { head("select"); for (int i = 0; i < 3; i++) { os << ","; val(I.getOperand(i)); } os << "]"; return; }
    if (auto *p = dyn_cast<PHINode>(&I)) {
      head("phi"); os << ",[";
      for (unsigned i = 0; i < p->getNumIncomingValues(); i++) { if (i) os << ","; os << "["; val(p->getIncomingValue(i)); os << ","; bb(p->getIncomingBlock(i)); os << "]"; }
      os << "]]"; return;
    }
    if (auto *lp = dyn_cast<LandingPadInst>(&I)) {
      head("lpad"); os << "," << (lp->isCleanup() ? 1 : 0) << ",[";
      for (unsigned i = 0; i < lp->getNumClauses(); i++) { if (i) os << ","; os << "[" << (lp->isCatch(i) ? "\"catch\"," : "\"filter\","); cexpr(lp->getClause(i)); os << "]"; }
      os << "]]"; return;
    }
    if (auto *x = dyn_cast<ExtractValueInst>(&I)) { head("xv"); os << ","; val(x->getAggregateOperand()); os << "," << x->getIndices()[0] << "]"; return; }
    if (auto *x = dyn_cast<InsertValueInst>(&I)) { head("iv"); os << ","; val(x->getAggregateOperand()); os << ","; val(x->getInsertedValueOperand()); os << "," << x->getIndices()[0] << "]"; return; }
    if (auto *x = dyn_cast<AtomicCmpXchgInst>(&I)) { head("cmpxchg"); os << ","; val(x->getPointerOperand()); os << ","; val(x->getCompareOperand()); os << ","; val(x->getNewValOperand()); os << "," << jstr(ord(x->getSuccessOrdering())) << "," << jstr(ord(x->getFailureOrdering())) << "]"; return; }
    if (auto *x = dyn_cast<AtomicRMWInst>(&I)) { head("rmw"); os << "," << jstr(AtomicRMWInst::getOperationName(x->getOperation())) << ","; val(x->getPointerOperand()); os << ","; val(x->getValOperand()); os << "," << jstr(ord(x->getOrdering())) << "," << jstr(tystr(x->getType())) << "]"; return; }
    if (auto *x = dyn_cast<FenceInst>(&I)) { head("fence"); os << "," << jstr(ord(x->getOrdering())) << "]"; return; }
    if (isa<FreezeInst>(&I)) { head("cast"); os << ",\"freeze\","; val(I.getOperand(0)); os << ",\"\",\"\"]"; return; }
    if (isa<UnaryOperator>(&I)) { head("un"); os << ","; val(I.getOperand(0)); os << "]"; return; }
    head("other"); os << "," << jstr(I.getOpcodeName()) << "]";
  }

  std::string scopeName(const DIScope *s) {
    std::string r;
    while (s) {
      StringRef n = s->getName();
      if (isa<DINamespace>(s) || isa<DICompositeType>(s)) {
        std::string nm = n.empty() ? std::string("(anon)") : n.str();
        r = r.empty() ? nm : nm + "::" + r;
        s = s->getScope();
      } else if (isa<DISubprogram>(s)) { r = r.empty() ? n.str() + "()" : n.str() + "()::" + r; s = s->getScope(); }
      else s = s->getScope();
    }
    return r;
  }
  std::string ditype(const DIType *t) {
    if (!t) return "void";
    if (auto *d = dyn_cast<DIDerivedType>(t)) {
      switch (d->getTag()) {
        case dwarf::DW_TAG_pointer_type: return ditype(d->getBaseType()) + "*";
        case dwarf::DW_TAG_reference_type: case dwarf::DW_TAG_rvalue_reference_type: return ditype(d->getBaseType()) + "&";
        case dwarf::DW_TAG_const_type: return ditype(d->getBaseType());
        case dwarf::DW_TAG_volatile_type: return "volatile " + ditype(d->getBaseType());
        case dwarf::DW_TAG_typedef: return ditype(d->getBaseType());
        case dwarf::DW_TAG_ptr_to_member_type: return "memptr";
        default: return ditype(d->getBaseType());
      }
    }
    if (auto *c = dyn_cast<DICompositeType>(t)) {
      types.insert(c);
      if (c->getTag() == dwarf::DW_TAG_array_type) {
        std::string r = ditype(c->getBaseType());
        for (auto *e : c->getElements()) if (auto *sr = dyn_cast<DISubrange>(e)) {
          if (auto *ci = dyn_cast_if_present<ConstantInt *>(sr->getCount())) r += "[" + std::to_string(ci->getSExtValue()) + "]"; else r += "[]"; }
        return r;
      }
      std::string n = scopeName(c);
      return n;
    }
    if (isa<DISubroutineType>(t)) return "fn";
    return t->getName().str();
  }

  void func(Function &F) {
    // mem2reg
    DominatorTree DT(F);
    // keep names of promoted variables: value -> variable is not needed
    while (true) {
      std::vector<AllocaInst *> al;
      for (auto &I : F.getEntryBlock()) if (auto *a = dyn_cast<AllocaInst>(&I)) if (isAllocaPromotable(a)) al.push_back(a);
      if (al.empty()) break;
      PromoteMemToReg(al, DT);
    }
    ids.clear(); bbs.clear(); int n = 0, b = 0;
    for (auto &B : F) { bbs[&B] = b++; for (auto &I : B) if (!I.getType()->isVoidTy()) ids[&I] = n++; }
    DISubprogram *sp = F.getSubprogram();
    os << "{\"k\":\"fn\",\"n\":" << jstr(gname(&F)) << ",\"d\":" << jstr(demangle(F.getName().str()))
       << ",\"file\":" << jstr(sp ? relpath(sp->getFile()) : "") << ",\"line\":" << (sp ? sp->getLine() : 0)
       << ",\"lk\":" << (F.hasLocalLinkage() ? "\"int\"" : F.hasLinkOnceODRLinkage() || F.hasWeakLinkage() ? "\"odr\"" : "\"ext\"")
       << ",\"nothrow\":" << (F.doesNotThrow() ? 1 : 0) << ",\"sret\":" << (F.arg_size() && F.hasParamAttribute(0, Attribute::StructRet) ? 1 : 0);
    os << ",\"cls\":" << jstr(sp && sp->getScope() && isa<DICompositeType>(sp->getScope()) ? scopeName(sp->getScope()) : "");
    os << ",\"sn\":" << jstr(sp ? sp->getName() : "");
    os << ",\"art\":" << (sp && sp->isArtificial() ? 1 : 0);
    os << ",\"virt\":" << (sp && sp->getVirtuality() ? 1 : 0);
    os << ",\"scope\":" << jstr(sp ? scopeName(sp->getScope()) : "");
    int acc = 0; if (sp) { auto *d = sp->getDeclaration() ? sp->getDeclaration() : sp; acc = (int)(d->getFlags() & DINode::FlagAccessibility); }
    os << ",\"acc\":" << acc;
    os << ",\"ret\":" << jstr(tystr(F.getReturnType())) << ",\"dir\":";
    std::vector<std::string> ptys;
    if (sp && sp->getType()) { bool f = true; for (auto *t : sp->getType()->getTypeArray()) { ptys.push_back(t ? ditype(t) : "void"); } }
    os << "[";
    for (size_t i = 0; i < ptys.size(); i++) { if (i) os << ","; os << jstr(ptys[i]); }
    os << "],\"args\":[";
    { bool f = false; for (auto &a : F.args()) { if (f) os << ","; f = true; os << jstr(tystr(a.getType())); } }
    os << "],\"cst\":[";
    {
      // constness of the objects the parameters point to
      std::map<unsigned, std::pair<int, std::string>> cst;
      for (auto &B : F) for (auto &I : B) if (auto *dv = dyn_cast<DbgValueInst>(&I)) {
        auto *a = dyn_cast_or_null<Argument>(dv->getNumVariableLocationOps() == 1 ? dv->getVariableLocationOp(0) : nullptr);
        if (!a || !dv->getVariable()->isParameter() || cst.count(a->getArgNo())) continue;
        if (dv->getVariable()->getScope()->getSubprogram() != sp) continue;
        const DIType *t = dv->getVariable()->getType();
        while (auto *d = dyn_cast_or_null<DIDerivedType>(t)) { if (d->getTag() == dwarf::DW_TAG_const_type || d->getTag() == dwarf::DW_TAG_typedef) t = d->getBaseType(); else break; }
        auto *d = dyn_cast_or_null<DIDerivedType>(t);
        if (!d || (d->getTag() != dwarf::DW_TAG_pointer_type && d->getTag() != dwarf::DW_TAG_reference_type)) continue;
        int c = 0; t = d->getBaseType();
        while (auto *q = dyn_cast_or_null<DIDerivedType>(t)) { if (q->getTag() == dwarf::DW_TAG_const_type) c = 1; else if (q->getTag() != dwarf::DW_TAG_typedef && q->getTag() != dwarf::DW_TAG_volatile_type) break; t = q->getBaseType(); }
        cst[a->getArgNo()] = {c, t ? ditype(t) : "void"};
      }
      bool f = false;
      for (auto &kv : cst) { if (f) os << ","; f = true; os << "[" << kv.first << "," << kv.second.first << "," << jstr(kv.second.second) << "]"; }
    }
    os << "],\"b\":[";
    bool fb = false;
    for (auto &B : F) {
      if (fb) os << ","; fb = true; os << "[";
      bool fi = false; 
      for (auto &I : B) {
        if (isa<DbgInfoIntrinsic>(&I)) continue;
        if (auto *ii = dyn_cast<IntrinsicInst>(&I)) { auto x = ii->getIntrinsicID(); if (x == Intrinsic::assume || x == Intrinsic::lifetime_start || x == Intrinsic::lifetime_end) continue; }
        if (fi) os << ","; fi = true; instr(I);
      }
      os << "]";
    }
    os << "]}\n";
  }

  void emitType(const DICompositeType *c) {
    if (c->getTag() == dwarf::DW_TAG_array_type) return;
    std::string n = scopeName(c);
    if (c->isForwardDecl()) return;
    std::string f = relpath(c->getFile());
    std::string key = n + "|" + (n.find("(anon)") != std::string::npos ? tu : "");
    if (!claim(claimedTy, key)) return;
    if (c->getTag() == dwarf::DW_TAG_enumeration_type) {
      os << "{\"k\":\"enum\",\"n\":" << jstr(n) << ",\"file\":" << jstr(f) << ",\"line\":" << c->getLine() << ",\"v\":[";
      bool q = false;
      for (auto *e : c->getElements()) if (auto *en = dyn_cast<DIEnumerator>(e)) { if (q) os << ","; q = true; os << "[" << jstr(en->getName()) << "," << intc(en->getValue()) << "]"; }
      os << "]}\n"; return;
    }
    os << "{\"k\":\"cls\",\"n\":" << jstr(n) << ",\"file\":" << jstr(f) << ",\"line\":" << c->getLine() << ",\"size\":" << c->getSizeInBits() / 8 << ",\"m\":[";
    bool q = false;
    for (auto *e : c->getElements()) if (auto *d = dyn_cast<DIDerivedType>(e)) {
      if (d->getTag() == dwarf::DW_TAG_member && !d->isStaticMember()) {
        if (q) os << ","; q = true;
        os << "[" << jstr(d->getName()) << "," << d->getOffsetInBits() / 8 << "," << jstr(ditype(d->getBaseType())) << "," << d->getSizeInBits() / 8 << "]";
      }
    }
    os << "],\"bases\":["; q = false;
    for (auto *e : c->getElements()) if (auto *d = dyn_cast<DIDerivedType>(e)) if (d->getTag() == dwarf::DW_TAG_inheritance) {
      if (q) os << ","; q = true; os << "[" << jstr(ditype(d->getBaseType())) << "," << d->getOffsetInBits() / 8 << "," << (d->isVirtual() ? 1 : 0) << "]"; }
    os << "],\"meth\":["; q = false;
    for (auto *e : c->getElements()) if (auto *s = dyn_cast<DISubprogram>(e)) {
      if (q) os << ","; q = true;
      os << "[" << jstr(s->getName()) << "," << jstr(s->getLinkageName()) << "," << (s->getVirtuality() ? (s->getVirtuality() == dwarf::DW_VIRTUALITY_pure_virtual ? 2 : 1) : 0) << "," << (s->isArtificial() ? 1 : 0) << "," << (s->isDeleted() ? 1 : 0) << ",[";
      bool r = false;
      if (s->getType()) for (auto *t : s->getType()->getTypeArray()) { if (r) os << ","; r = true; os << jstr(t ? ditype(t) : "void"); }
      os << "]," << (int)(s->getFlags() & DINode::FlagAccessibility) << "]";
    }
    os << "]}\n";
  }

  void run() {
    for (auto &G : M.globals()) {
      if (!G.hasInitializer()) continue;
      std::string n = gname(&G);
      if (!claim(claimedGv, n)) continue;
      std::string f; int ln = 0;
      SmallVector<DIGlobalVariableExpression *, 1> gv; G.getDebugInfo(gv);
      std::string dt, dn;
      if (!gv.empty()) { auto *v = gv[0]->getVariable(); f = relpath(v->getFile()); ln = v->getLine(); dt = ditype(v->getType()); dn = scopeName(v->getScope()); if (!dn.empty()) dn += "::"; dn += v->getName().str(); }
      os << "{\"k\":\"gv\",\"n\":" << jstr(n) << ",\"d\":" << jstr(demangle(G.getName().str())) << ",\"dn\":" << jstr(dn) << ",\"file\":" << jstr(f) << ",\"line\":" << ln
         << ",\"ty\":" << jstr(tystr(G.getValueType())) << ",\"dt\":" << jstr(dt) << ",\"const\":" << (G.isConstant() ? 1 : 0) << ",\"tls\":" << (G.isThreadLocal() ? 1 : 0) << ",\"init\":";
      cexpr(G.getInitializer());
      SmallVector<MDNode *, 4> ts; G.getMetadata(LLVMContext::MD_type, ts);
      if (!ts.empty()) {
        os << ",\"vt\":["; bool q = false;
        for (auto *m : ts) { auto *s = dyn_cast<MDString>(m->getOperand(1)); if (!s) continue; if (q) os << ","; q = true;
          os << "[" << cast<ConstantInt>(cast<ConstantAsMetadata>(m->getOperand(0))->getValue())->getSExtValue() << "," << jstr(s->getString()) << "]"; }
        os << "]";
      }
      os << "}\n";
    }
    for (auto &F : M) {
      if (F.isDeclaration()) { if (F.doesNotThrow() && !F.isIntrinsic()) { std::string n = "decl:" + F.getName().str(); if (claim(claimedGv, n)) os << "{\"k\":\"decl\",\"n\":" << jstr(F.getName()) << ",\"nothrow\":1}\n"; } continue; }
      if (!F.hasLocalLinkage() && !claim(claimedFn, F.getName().str())) continue;
      func(F);
    }
    for (auto &A : M.aliases()) {
      if (!claim(claimedGv, "alias:" + gname(&A))) continue;
      if (auto *t = dyn_cast<GlobalValue>(A.getAliasee()->stripPointerCasts())) os << "{\"k\":\"alias\",\"n\":" << jstr(gname(&A)) << ",\"to\":" << jstr(gname(t)) << "}\n";
    }
    DebugInfoFinder df; df.processModule(M);
    for (auto *t : df.types()) if (auto *c = dyn_cast<DICompositeType>(t)) {
      std::string f = relpath(c->getFile());
      if (!f.empty() && f[0] != '/') emitType(c);
    }
    for (auto *t : types) if (auto *c = dyn_cast<DICompositeType>(t)) {
      std::string f = relpath(c->getFile());
      if (!f.empty() && f[0] != '/') emitType(c);
    }
  }
};

int main(int argc, char **argv) {
  if (argc < 4) { errs() << "usage\n"; return 2; }
  std::string outdir = argv[1]; rootPrefix = argv[2];
  std::vector<std::string> in(argv + 3, argv + argc);
  std::atomic<size_t> next(0); std::atomic<bool> bad(false);
  unsigned nt = std::min<unsigned>(8, std::max(1u, std::thread::hardware_concurrency()));
  std::vector<std::thread> th;
  for (unsigned t = 0; t < nt; t++) th.emplace_back([&, t] {
    std::error_code ec; raw_fd_ostream os(outdir + "/facts." + std::to_string(t) + ".jsonl", ec);
    if (ec) { bad = true; return; }
    while (true) {
      size_t i = next++; if (i >= in.size()) break;
      LLVMContext C; SMDiagnostic e;
      auto M = parseIRFile(in[i], e, C);
      if (!M) { errs() << "cannot read " << in[i] << "\n"; bad = true; continue; }
      std::string tu = in[i]; auto p = tu.rfind('/'); if (p != std::string::npos) tu = tu.substr(p + 1);
      Emit(*M, os, tu).run();
    }
  });
  for (auto &x : th) x.join();
  return bad ? 1 : 0;
}

// irdump: reads LLVM IR produced by clang from a harness that includes the real
// code of /repo, inlines everything except the functions that carry a contract
// (keep-regex) and the roots, promotes allocas to registers, and dumps the
// resulting functions as JSON for the VC generator.  It adds nothing to and
// removes nothing from the semantics: all transformations are stock LLVM passes.
#include <llvm/ADT/SmallVector.h>
#include <llvm/ADT/StringExtras.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/Regex.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace llvm;

static const DataLayout* DL;

static std::string TypeStr(Type* t) {
  std::string s; raw_string_ostream o(s);
  if (t->isIntegerTy()) { o << "i" << t->getIntegerBitWidth(); }
  else if (t->isPointerTy()) { o << "p"; }
  else if (t->isFloatTy()) { o << "f32"; }
  else if (t->isDoubleTy()) { o << "f64"; }
  else if (t->isX86_FP80Ty()) { o << "f80"; }
  else if (t->isVoidTy()) { o << "v"; }
  else if (auto* st = dyn_cast<StructType>(t)) { o << "{"; for (unsigned i=0;i<st->getNumElements();++i){ if(i) o<<","; o<<DL->getStructLayout(st)->getElementOffset(i)<<":"<<TypeStr(st->getElementType(i)); } o<<"}#"<<DL->getTypeAllocSize(t); }
  else if (auto* at = dyn_cast<ArrayType>(t)) { o<<"["<<at->getNumElements()<<"x"<<TypeStr(at->getElementType())<<"]#"<<DL->getTypeAllocSize(t); }
  else if (auto* vt = dyn_cast<FixedVectorType>(t)) { o<<"<"<<vt->getNumElements()<<"x"<<TypeStr(vt->getElementType())<<">"; }
  else { o << "?"; t->print(o); }
  return o.str();
}

static std::string HexInt(const APInt& v) { SmallString<64> s; v.toStringUnsigned(s, 16); return std::string(s.str()); }

struct FnCtx { std::map<const Value*, int> ids; int next = 0; std::map<const BasicBlock*, int> bbs; };

static json::Value Opnd(const Value* v, FnCtx* c);

static json::Value ConstV(const Constant* k, FnCtx* c) {
  if (auto* ci = dyn_cast<ConstantInt>(k)) return json::Array{"c", TypeStr(k->getType()), HexInt(ci->getValue())};
  if (auto* cf = dyn_cast<ConstantFP>(k)) return json::Array{"c", TypeStr(k->getType()), HexInt(cf->getValueAPF().bitcastToAPInt())};
  if (isa<ConstantPointerNull>(k)) return json::Array{"null"};
  if (isa<PoisonValue>(k)) return json::Array{"poison", TypeStr(k->getType())};
  if (isa<UndefValue>(k)) return json::Array{"undef", TypeStr(k->getType())};
  if (isa<ConstantAggregateZero>(k)) return json::Array{"zero", TypeStr(k->getType())};
  if (auto* g = dyn_cast<GlobalValue>(k)) return json::Array{"g", g->getName().str(), 0};
  if (auto* ce = dyn_cast<ConstantExpr>(k)) {
    APInt off(64, 0);
    const Value* base = ce->stripAndAccumulateConstantOffsets(*DL, off, true);
    if (auto* g = dyn_cast<GlobalValue>(base)) if (ce->getType()->isPointerTy()) return json::Array{"g", g->getName().str(), (int64_t)off.getSExtValue()};
    if (ce->getOpcode()==Instruction::PtrToInt) return json::Array{"p2i", Opnd(ce->getOperand(0), c)};
    std::string s; raw_string_ostream o(s); ce->print(o); return json::Array{"unsupported", s};
  }
  if (isa<ConstantDataSequential>(k) || isa<ConstantAggregate>(k)) {
    json::Array a{"agg", TypeStr(k->getType())};
    unsigned n = 0;
    if (auto* st = dyn_cast<StructType>(k->getType())) n = st->getNumElements();
    else if (auto* at = dyn_cast<ArrayType>(k->getType())) n = at->getNumElements();
    else if (auto* vt = dyn_cast<FixedVectorType>(k->getType())) n = vt->getNumElements();
    json::Array els;
    for (unsigned i=0;i<n;++i) els.push_back(ConstV(k->getAggregateElement(i), c));
    a.push_back(std::move(els));
    return a;
  }
  std::string s; raw_string_ostream o(s); k->print(o); return json::Array{"unsupported", s};
}

static json::Value Opnd(const Value* v, FnCtx* c) {
  if (auto* k = dyn_cast<Constant>(v)) return ConstV(k, c);
  if (auto* b = dyn_cast<BasicBlock>(v)) return json::Array{"b", c->bbs[b]};
  auto it = c->ids.find(v);
  if (it != c->ids.end()) return json::Array{"v", it->second};
  return json::Array{"unsupported", "opnd"};
}

static json::Value DumpFn(Function& f) {
  FnCtx c;
  json::Array params;
  for (auto& a : f.args()) {
    c.ids[&a] = c.next++;
    json::Object p{{"id", c.ids[&a]}, {"ty", TypeStr(a.getType())}};
    if (a.hasByValAttr()) p["byval"] = (int64_t)DL->getTypeAllocSize(a.getParamByValType());
    if (a.hasStructRetAttr()) p["sret"] = (int64_t)DL->getTypeAllocSize(a.getParamStructRetType());
    params.push_back(std::move(p));
  }
  int bi = 0;
  for (auto& b : f) { c.bbs[&b] = bi++; for (auto& i : b) c.ids[&i] = c.next++; }
  DominatorTree dt(f); LoopInfo li(dt);
  json::Array blocks;
  for (auto& b : f) {
    json::Array ins;
    for (auto& i : b) {
      if (isa<DbgInfoIntrinsic>(&i)) continue;
      json::Object o{{"id", c.ids[&i]}, {"op", i.getOpcodeName()}, {"ty", TypeStr(i.getType())}};
      json::Array ops;
      if (auto* p = dyn_cast<PHINode>(&i)) {
        for (unsigned k=0;k<p->getNumIncomingValues();++k) ops.push_back(json::Array{c.bbs[p->getIncomingBlock(k)], Opnd(p->getIncomingValue(k), &c)});
      } else if (auto* g = dyn_cast<GetElementPtrInst>(&i)) {
        MapVector<Value*, APInt> vars; APInt off(64, 0);
        if (g->collectOffset(*DL, 64, vars, off)) {
          o["off"] = (int64_t)off.getSExtValue();
          ops.push_back(Opnd(g->getPointerOperand(), &c));
          json::Array vs;
          for (auto& kv : vars) vs.push_back(json::Array{Opnd(kv.first, &c), TypeStr(kv.first->getType()), (int64_t)kv.second.getSExtValue()});
          o["vars"] = std::move(vs);
          o["inb"] = g->isInBounds();
        } else o["op"] = "unsupported_gep";
      } else if (auto* cb = dyn_cast<CallBase>(&i)) {
        for (auto& a : cb->args()) ops.push_back(Opnd(a.get(), &c));
        json::Array byv;
        for (unsigned k=0;k<cb->arg_size();++k) byv.push_back(cb->isByValArgument(k) ? (int64_t)DL->getTypeAllocSize(cb->getParamByValType(k)) : 0);
        o["byval"] = std::move(byv);
        if (auto* cf = cb->getCalledFunction()) o["callee"] = cf->getName().str();
        else { o["callee_v"] = Opnd(cb->getCalledOperand(), &c); }
        if (auto* inv = dyn_cast<InvokeInst>(&i)) { o["normal"] = c.bbs[inv->getNormalDest()]; o["unwind"] = c.bbs[inv->getUnwindDest()]; }
        json::Array tys; for (auto& a : cb->args()) tys.push_back(TypeStr(a->getType())); o["argty"] = std::move(tys);
      } else if (auto* a = dyn_cast<AllocaInst>(&i)) {
        o["size"] = (int64_t)DL->getTypeAllocSize(a->getAllocatedType());
        ops.push_back(Opnd(a->getArraySize(), &c));
      } else if (auto* l = dyn_cast<LoadInst>(&i)) {
        ops.push_back(Opnd(l->getPointerOperand(), &c)); o["sz"] = (int64_t)DL->getTypeStoreSize(l->getType());
      } else if (auto* s = dyn_cast<StoreInst>(&i)) {
        ops.push_back(Opnd(s->getValueOperand(), &c)); ops.push_back(Opnd(s->getPointerOperand(), &c));
        o["vty"] = TypeStr(s->getValueOperand()->getType()); o["sz"] = (int64_t)DL->getTypeStoreSize(s->getValueOperand()->getType());
      } else if (auto* ci = dyn_cast<CmpInst>(&i)) {
        o["pred"] = CmpInst::getPredicateName(ci->getPredicate()).str(); o["oty"] = TypeStr(ci->getOperand(0)->getType());
        for (auto& op : i.operands()) ops.push_back(Opnd(op.get(), &c));
      } else if (auto* br = dyn_cast<BranchInst>(&i)) {
        if (br->isConditional()) { ops.push_back(Opnd(br->getCondition(), &c)); }
        json::Array ss; for (unsigned k=0;k<br->getNumSuccessors();++k) ss.push_back(c.bbs[br->getSuccessor(k)]); o["succ"] = std::move(ss);
      } else if (auto* sw = dyn_cast<SwitchInst>(&i)) {
        ops.push_back(Opnd(sw->getCondition(), &c)); o["def"] = c.bbs[sw->getDefaultDest()];
        json::Array cs; for (auto& k : sw->cases()) cs.push_back(json::Array{HexInt(k.getCaseValue()->getValue()), c.bbs[k.getCaseSuccessor()]}); o["cases"] = std::move(cs);
      } else {
        for (auto& op : i.operands()) ops.push_back(Opnd(op.get(), &c));
        if (auto* ev = dyn_cast<ExtractValueInst>(&i)) { json::Array ix; for (auto k : ev->indices()) ix.push_back((int64_t)k); o["idx"] = std::move(ix); o["aty"] = TypeStr(ev->getAggregateOperand()->getType()); }
        if (auto* iv = dyn_cast<InsertValueInst>(&i)) { json::Array ix; for (auto k : iv->indices()) ix.push_back((int64_t)k); o["idx"] = std::move(ix); }
        if (auto* sv = dyn_cast<ShuffleVectorInst>(&i)) { json::Array ix; for (auto k : sv->getShuffleMask()) ix.push_back((int64_t)k); o["mask"] = std::move(ix); }
        if (i.getNumOperands() > 0) o["oty"] = TypeStr(i.getOperand(0)->getType());
        if (auto* ob = dyn_cast<OverflowingBinaryOperator>(&i)) { if (ob->hasNoSignedWrap()) o["nsw"] = true; if (ob->hasNoUnsignedWrap()) o["nuw"] = true; }
        if (auto* pe = dyn_cast<PossiblyExactOperator>(&i)) { if (pe->isExact()) o["exact"] = true; }
      }
      o["ops"] = std::move(ops);
      if (auto& dl = i.getDebugLoc()) { o["line"] = (int64_t)dl.getLine(); }
      ins.push_back(std::move(o));
    }
    json::Object bo{{"ins", std::move(ins)}};
    if (auto* l = li.getLoopFor(&b)) {
      if (l->getHeader() == &b) { json::Array bl; for (auto* x : l->blocks()) bl.push_back(c.bbs[x]); bo["loop"] = std::move(bl); bo["depth"] = (int64_t)l->getLoopDepth(); }
    }
    blocks.push_back(std::move(bo));
  }
  json::Object fo{{"name", f.getName().str()}, {"dem", demangle(f.getName().str())}, {"ret", TypeStr(f.getReturnType())}, {"params", std::move(params)}, {"blocks", std::move(blocks)}, {"nvals", c.next}};
  return fo;
}

static void GlobalBytes(const Constant* k, uint64_t off, std::string& bytes, json::Array& relocs) {
  Type* t = k->getType();
  if (k->isNullValue() || isa<UndefValue>(k)) return;
  if (auto* ci = dyn_cast<ConstantInt>(k)) { APInt v = ci->getValue(); unsigned n = DL->getTypeStoreSize(t); v = v.zextOrTrunc(n*8); for (unsigned i=0;i<n;++i) bytes[off+i] = (char)v.extractBitsAsZExtValue(8, i*8); return; }
  if (auto* cf = dyn_cast<ConstantFP>(k)) { APInt v = cf->getValueAPF().bitcastToAPInt(); unsigned n = v.getBitWidth()/8; for (unsigned i=0;i<n;++i) bytes[off+i] = (char)v.extractBitsAsZExtValue(8, i*8); return; }
  if (auto* cd = dyn_cast<ConstantDataSequential>(k)) { uint64_t es = DL->getTypeAllocSize(cd->getElementType()); for (unsigned i=0;i<cd->getNumElements();++i) GlobalBytes(cd->getElementAsConstant(i), off+i*es, bytes, relocs); return; }
  if (auto* ca = dyn_cast<ConstantArray>(k)) { uint64_t es = DL->getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i=0;i<ca->getNumOperands();++i) GlobalBytes(ca->getOperand(i), off+i*es, bytes, relocs); return; }
  if (auto* cs = dyn_cast<ConstantStruct>(k)) { auto* sl = DL->getStructLayout(cs->getType()); for (unsigned i=0;i<cs->getNumOperands();++i) GlobalBytes(cs->getOperand(i), off+sl->getElementOffset(i), bytes, relocs); return; }
  if (t->isPointerTy()) { relocs.push_back(json::Array{(int64_t)off, ConstV(k, nullptr)}); return; }
  relocs.push_back(json::Array{(int64_t)off, json::Array{"unsupported"}});
}

int main(int argc, char** argv) {
  // irdump in.ll out.json roots-regex keep-regex
  if (argc < 5) { errs() << "usage: irdump in.ll out.json roots-regex keep-regex [pipeline]\n"; return 2; }
  LLVMContext ctx; SMDiagnostic err;
  auto m = parseIRFile(argv[1], err, ctx);
  if (!m) { err.print("irdump", errs()); return 2; }
  DL = &m->getDataLayout();
  Regex roots(argv[3]), keep(argv[4]);
  for (auto& f : *m) {
    if (f.isDeclaration()) continue;
    std::string d = demangle(f.getName().str());
    bool k = (argv[4][0] && keep.match(d)) || roots.match(f.getName());
    f.removeFnAttr(Attribute::OptimizeNone);
    f.setLinkage(k ? GlobalValue::ExternalLinkage : GlobalValue::InternalLinkage);
    f.setComdat(nullptr);
    if (k) { f.removeFnAttr(Attribute::AlwaysInline); f.addFnAttr(Attribute::NoInline); }
    else { f.removeFnAttr(Attribute::NoInline); f.addFnAttr(Attribute::AlwaysInline); }
  }
  for (auto& f : *m) for (auto& i : instructions(f)) if (auto* cb = dyn_cast<CallBase>(&i)) { cb->removeFnAttr(Attribute::NoInline); cb->removeFnAttr(Attribute::AlwaysInline); }
  LoopAnalysisManager lam; FunctionAnalysisManager fam; CGSCCAnalysisManager cgam; ModuleAnalysisManager mam;
  PassBuilder pb;
  pb.registerModuleAnalyses(mam); pb.registerCGSCCAnalyses(cgam); pb.registerFunctionAnalyses(fam); pb.registerLoopAnalyses(lam);
  pb.crossRegisterProxies(lam, fam, cgam, mam);
  ModulePassManager mpm;
  std::string pipe = argc > 5 ? argv[5] : "always-inline,globaldce,function(sroa,early-cse,simplifycfg,sroa,early-cse,simplifycfg,instsimplify,adce,loop-simplify)";
  if (auto e = pb.parsePassPipeline(mpm, pipe)) { errs() << toString(std::move(e)) << "\n"; return 2; }
  mpm.run(*m, mam);
  json::Array fns; json::Object globs; json::Array decls;
  for (auto& f : *m) { if (f.isDeclaration()) { decls.push_back(json::Array{f.getName().str(), demangle(f.getName().str())}); } else fns.push_back(DumpFn(f)); }
  for (auto& g : m->globals()) {
    json::Object o; uint64_t sz = DL->getTypeAllocSize(g.getValueType());
    o["size"] = (int64_t)sz; o["const"] = g.isConstant(); o["dem"] = demangle(g.getName().str());
    if (g.hasInitializer()) { std::string b(sz, 0); json::Array rel; GlobalBytes(g.getInitializer(), 0, b, rel); o["bytes"] = toHex(b); o["rel"] = std::move(rel); }
    globs[g.getName().str()] = std::move(o);
  }
  std::error_code ec; raw_fd_ostream os(argv[2], ec);
  os << json::Value(json::Object{{"functions", std::move(fns)}, {"globals", std::move(globs)}, {"decls", std::move(decls)}});
  return 0;
}

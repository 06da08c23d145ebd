// irdump: dump an LLVM module (the linked library under analysis) as JSON for
// the Python analyses in /verif/lib.  No decision is taken here.
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
using namespace llvm;

static const DataLayout *DL;
static std::map<const Value *, int> ids;

static std::string tyName(Type *t) {
  if (t->isPointerTy()) return "ptr";
  if (auto *s = dyn_cast<StructType>(t)) {
    if (s->hasName()) return s->getName().str();
    return "anon";
  }
  std::string r; raw_string_ostream os(r); t->print(os); return os.str();
}

static json::Value opnd(const Value *v, int depth = 0);

static json::Value constant(const Constant *c, int depth) {
  json::Object o;
  if (auto *ci = dyn_cast<ConstantInt>(c)) {
    o["k"] = "c"; o["v"] = ci->getBitWidth() <= 64 ? ci->getSExtValue() : 0; o["w"] = (int64_t)ci->getBitWidth();
  } else if (isa<ConstantPointerNull>(c)) { o["k"] = "c"; o["v"] = 0; o["w"] = 64; o["ptr"] = true; }
  else if (auto *f = dyn_cast<ConstantFP>(c)) {
    o["k"] = "fp"; SmallString<32> s; f->getValueAPF().toString(s); o["v"] = s.str().str();
  } else if (isa<UndefValue>(c)) { o["k"] = "undef"; }
  else if (auto *fn = dyn_cast<Function>(c)) { o["k"] = "f"; o["n"] = fn->getName().str(); }
  else if (auto *g = dyn_cast<GlobalVariable>(c)) { o["k"] = "g"; o["n"] = g->getName().str(); }
  else if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    if (auto *gep = dyn_cast<GEPOperator>(ce)) {
      o["k"] = "gep"; o["base"] = opnd(gep->getPointerOperand(), depth + 1);
      APInt off(64, 0); gep->accumulateConstantOffset(*DL, off);
      o["off"] = (int64_t)off.getSExtValue(); o["src"] = tyName(gep->getSourceElementType());
    } else { o["k"] = "ce"; o["op"] = ce->getOpcodeName(); json::Array a;
      for (auto &u : ce->operands()) a.push_back(opnd(u, depth + 1)); o["ops"] = std::move(a); }
  } else if (auto *cda = dyn_cast<ConstantDataSequential>(c)) {
    o["k"] = "data";
    if (cda->isString()) { std::string s = cda->getAsString().str();
      o["isstr"] = true; json::Array b; for (unsigned char ch : s) b.push_back((int64_t)ch); o["bytes"] = std::move(b); }
    else { json::Array a; for (unsigned i = 0; i < cda->getNumElements(); ++i) a.push_back(opnd(cda->getElementAsConstant(i), depth + 1)); o["elems"] = std::move(a);} 
  } else if (isa<ConstantAggregateZero>(c)) { o["k"] = "zero"; o["ty"] = tyName(c->getType()); }
  else if (auto *ag = dyn_cast<ConstantAggregate>(c)) {
    o["k"] = "agg"; o["ty"] = tyName(c->getType()); json::Array a; for (auto &u : ag->operands()) a.push_back(opnd(u, depth + 1)); o["elems"] = std::move(a);
    if (auto *st = dyn_cast<StructType>(c->getType())) { json::Array offs; auto *sl = DL->getStructLayout(st);
      for (unsigned i = 0; i < st->getNumElements(); ++i) offs.push_back((int64_t)sl->getElementOffset(i)); o["offs"] = std::move(offs);} 
    else if (auto *at = dyn_cast<ArrayType>(c->getType())) { json::Array offs; int64_t es = DL->getTypeAllocSize(at->getElementType());
      for (unsigned i = 0; i < at->getNumElements(); ++i) offs.push_back(es * (int64_t)i); o["offs"] = std::move(offs);} 
  } else { o["k"] = "unk"; }
  return json::Value(std::move(o));
}

static json::Value opnd(const Value *v, int depth) {
  if (auto *c = dyn_cast<Constant>(v)) return constant(c, depth);
  json::Object o;
  if (auto *a = dyn_cast<Argument>(v)) { o["k"] = "a"; o["n"] = (int64_t)a->getArgNo(); }
  else if (isa<BasicBlock>(v)) { o["k"] = "b"; o["n"] = ids[v]; }
  else if (isa<MetadataAsValue>(v)) { o["k"] = "md"; }
  else if (isa<InlineAsm>(v)) { o["k"] = "asm"; }
  else { o["k"] = "v"; o["n"] = ids[v]; }
  return json::Value(std::move(o));
}

static void diType(const DIType *t, std::string &out, int d = 0) {
  if (!t) { out += "void"; return; }
  if (d > 6) { out += "..."; return; }
  if (auto *b = dyn_cast<DIBasicType>(t)) { out += b->getName().str(); return; }
  if (auto *dt = dyn_cast<DIDerivedType>(t)) {
    switch (dt->getTag()) {
      case dwarf::DW_TAG_pointer_type: diType(dt->getBaseType(), out, d + 1); out += "*"; return;
      case dwarf::DW_TAG_const_type: out += "const "; diType(dt->getBaseType(), out, d + 1); return;
      case dwarf::DW_TAG_typedef: out += dt->getName().str(); return;
      default: diType(dt->getBaseType(), out, d + 1); return;
    }
  }
  if (auto *ct = dyn_cast<DICompositeType>(t)) {
    if (ct->getTag() == dwarf::DW_TAG_array_type) { diType(ct->getBaseType(), out, d + 1); out += "[]"; return; }
    if (ct->getTag() == dwarf::DW_TAG_enumeration_type) out += "enum ";
    else if (ct->getTag() == dwarf::DW_TAG_union_type) out += "union ";
    else out += "struct ";
    out += ct->getName().str(); return;
  }
  out += "fn";
}

int main(int argc, char **argv) {
  LLVMContext ctx; SMDiagnostic err;
  auto m = parseIRFile(argv[1], err, ctx);
  if (!m) { err.print("irdump", errs()); return 2; }
  DL = &m->getDataLayout();
  json::Object root;
  // struct layouts by LLVM name
  json::Object structs;
  for (auto *st : m->getIdentifiedStructTypes()) {
    if (st->isOpaque()) continue;
    json::Object so; json::Array fs; auto *sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); ++i) {
      json::Object f; f["off"] = (int64_t)sl->getElementOffset(i); f["ty"] = tyName(st->getElementType(i));
      f["size"] = (int64_t)DL->getTypeAllocSize(st->getElementType(i)); fs.push_back(std::move(f)); }
    so["fields"] = std::move(fs); so["size"] = (int64_t)sl->getSizeInBytes();
    structs[st->getName()] = std::move(so);
  }
  root["structs"] = std::move(structs);
  DebugInfoFinder dif; dif.processModule(*m);
  json::Array dis; json::Object enums;
  std::map<std::string, const DICompositeType *> typedefOf;
  for (auto *t : dif.types()) {
    if (auto *dt = dyn_cast<DIDerivedType>(t)) if (dt->getTag() == dwarf::DW_TAG_typedef)
      if (auto *c = dyn_cast_or_null<DICompositeType>(dt->getBaseType())) typedefOf[dt->getName().str()] = c;
  }
  auto dumpDI = [&](const DICompositeType *ct, std::string nm) {
    if (ct->getTag() == dwarf::DW_TAG_enumeration_type) {
      json::Array e; for (auto *el : ct->getElements()) if (auto *en = dyn_cast<DIEnumerator>(el)) {
        json::Object x; x["n"] = en->getName().str(); x["v"] = en->getValue().getSExtValue(); e.push_back(std::move(x)); }
      enums[nm] = std::move(e);
    } else if (ct->getTag() == dwarf::DW_TAG_structure_type || ct->getTag() == dwarf::DW_TAG_union_type) {
      json::Object so; so["name"] = nm; so["union"] = ct->getTag() == dwarf::DW_TAG_union_type; json::Array fs;
      for (auto *el : ct->getElements()) if (auto *mt = dyn_cast<DIDerivedType>(el)) {
        json::Object f; f["n"] = mt->getName().str(); f["off"] = (int64_t)mt->getOffsetInBits() / 8; f["size"] = (int64_t)mt->getSizeInBits() / 8;
        std::string s; diType(mt->getBaseType(), s); f["ty"] = s; fs.push_back(std::move(f)); }
      so["fields"] = std::move(fs); so["size"] = (int64_t)ct->getSizeInBits() / 8; dis.push_back(std::move(so));
    }
  };
  for (auto *t : dif.types()) if (auto *ct = dyn_cast<DICompositeType>(t)) if (!ct->getName().empty()) dumpDI(ct, ct->getName().str());
  for (auto &p : typedefOf) if (p.second->getName().empty()) dumpDI(p.second, p.first);
  root["ditypes"] = std::move(dis); root["enums"] = std::move(enums);

  json::Array globals;
  for (auto &g : m->globals()) {
    json::Object o; o["n"] = g.getName().str(); o["const"] = g.isConstant(); o["internal"] = g.hasLocalLinkage();
    o["ty"] = tyName(g.getValueType()); o["size"] = (int64_t)(g.getValueType()->isSized() ? DL->getTypeAllocSize(g.getValueType()) : 0);
    o["tls"] = g.isThreadLocal();
    SmallVector<DIGlobalVariableExpression *, 2> ges; g.getDebugInfo(ges);
    for (auto *e : ges) { auto *gv = e->getVariable(); o["src"] = gv->getName().str(); o["line"] = (int64_t)gv->getLine(); o["file"] = gv->getFilename().str();
      if (auto *sp = dyn_cast_or_null<DISubprogram>(gv->getScope())) o["fn"] = sp->getName().str(); }
    if (g.hasInitializer()) o["init"] = constant(g.getInitializer(), 0);
    globals.push_back(std::move(o));
  }
  root["globals"] = std::move(globals);

  json::Array funcs;
  for (auto &f : *m) {
    json::Object fo; fo["n"] = f.getName().str(); fo["decl"] = f.isDeclaration(); fo["internal"] = f.hasLocalLinkage();
    fo["ret"] = tyName(f.getReturnType()); fo["vararg"] = f.isVarArg(); fo["noreturn"] = f.doesNotReturn();
    json::Array ps;
    for (auto &a : f.args()) { json::Object p; p["n"] = a.getName().str(); p["ty"] = tyName(a.getType());
      if (a.hasByValAttr()) { p["byval"] = tyName(a.getParamByValType()); p["bvsize"] = (int64_t)DL->getTypeAllocSize(a.getParamByValType()); }
      if (a.hasStructRetAttr()) p["sret"] = tyName(a.getParamStructRetType()); ps.push_back(std::move(p)); }
    fo["params"] = std::move(ps);
    if (auto *sp = f.getSubprogram()) { fo["src"] = sp->getName().str(); fo["file"] = sp->getFilename().str(); fo["line"] = (int64_t)sp->getLine();
      json::Array ts; for (auto *t : sp->getType()->getTypeArray()) { std::string s; diType(t, s); ts.push_back(s);} fo["sig"] = std::move(ts); }
    if (!f.isDeclaration()) {
      ids.clear(); int n = 0, bn = 0;
      for (auto &b : f) { ids[&b] = bn++; for (auto &i : b) ids[&i] = n++; }
      json::Array bs;
      for (auto &b : f) {
        json::Array is;
        for (auto &i : b) {
          json::Object o; o["id"] = ids[&i]; o["op"] = i.getOpcodeName(); o["ty"] = tyName(i.getType());
          if (auto &dl = i.getDebugLoc()) { o["ln"] = (int64_t)dl.getLine(); o["file"] = dl->getFilename().str(); 
             }
          json::Array ops;
          if (auto *ph = dyn_cast<PHINode>(&i)) {
            for (unsigned k = 0; k < ph->getNumIncomingValues(); ++k) { json::Array p; p.push_back(ids[ph->getIncomingBlock(k)]); p.push_back(opnd(ph->getIncomingValue(k))); ops.push_back(std::move(p)); }
          } else if (auto *br = dyn_cast<BranchInst>(&i)) {
            json::Array ss; for (unsigned k = 0; k < br->getNumSuccessors(); ++k) ss.push_back(ids[br->getSuccessor(k)]); o["succ"] = std::move(ss);
            if (br->isConditional()) ops.push_back(opnd(br->getCondition()));
          } else if (auto *sw = dyn_cast<SwitchInst>(&i)) {
            ops.push_back(opnd(sw->getCondition())); json::Array cs;
            for (auto &c : sw->cases()) { json::Array p; p.push_back(c.getCaseValue()->getSExtValue()); p.push_back(ids[c.getCaseSuccessor()]); cs.push_back(std::move(p)); }
            o["cases"] = std::move(cs); o["default"] = ids[sw->getDefaultDest()];
          } else if (auto *cb = dyn_cast<CallBase>(&i)) {
            if (isa<DbgInfoIntrinsic>(cb)) {
              if (auto *dv = dyn_cast<DbgVariableIntrinsic>(cb)) {
                o["op"] = "dbg"; o["var"] = dv->getVariable()->getName().str(); std::string s; diType(dv->getVariable()->getType(), s); o["vty"] = s;
                if (dv->getNumVariableLocationOps() == 1 && dv->getVariableLocationOp(0)) ops.push_back(opnd(dv->getVariableLocationOp(0)));
              } else continue;
            } else {
            o["callee"] = opnd(cb->getCalledOperand());
            json::Array bv; for (unsigned k = 0; k < cb->arg_size(); ++k) { ops.push_back(opnd(cb->getArgOperand(k)));
              if (cb->isByValArgument(k)) { json::Array p; p.push_back((int64_t)k); p.push_back((int64_t)DL->getTypeAllocSize(cb->getParamByValType(k))); bv.push_back(std::move(p)); } }
            o["byval"] = std::move(bv);
            }
          } else if (auto *gep = dyn_cast<GetElementPtrInst>(&i)) {
            ops.push_back(opnd(gep->getPointerOperand())); json::Array st;
            for (auto gti = gep_type_begin(gep), e = gep_type_end(gep); gti != e; ++gti) {
              json::Object s;
              if (StructType *sty = gti.getStructTypeOrNull()) { unsigned idx = cast<ConstantInt>(gti.getOperand())->getZExtValue();
                s["f"] = tyName(sty); s["idx"] = (int64_t)idx; s["off"] = (int64_t)DL->getStructLayout(sty)->getElementOffset(idx);
              } else { s["i"] = opnd(gti.getOperand()); s["sz"] = (int64_t)DL->getTypeAllocSize(gti.getIndexedType()); s["el"] = tyName(gti.getIndexedType()); }
              st.push_back(std::move(s));
            }
            o["steps"] = std::move(st);
          } else {
            for (auto &u : i.operands()) ops.push_back(opnd(u));
            if (auto *c = dyn_cast<CmpInst>(&i)) { o["pred"] = CmpInst::getPredicateName(c->getPredicate()).str(); }
            if (auto *al = dyn_cast<AllocaInst>(&i)) { o["aty"] = tyName(al->getAllocatedType()); o["size"] = (int64_t)DL->getTypeAllocSize(al->getAllocatedType()); }
            if (auto *ld = dyn_cast<LoadInst>(&i)) { o["size"] = (int64_t)DL->getTypeStoreSize(ld->getType()); }
            if (auto *stt = dyn_cast<StoreInst>(&i)) { o["vty"] = tyName(stt->getValueOperand()->getType()); o["size"] = (int64_t)DL->getTypeStoreSize(stt->getValueOperand()->getType()); }
            if (auto *cs = dyn_cast<CastInst>(&i)) { o["from"] = tyName(cs->getSrcTy()); }
            if (i.getOpcode() == Instruction::ExtractValue) { json::Array a; for (auto x : cast<ExtractValueInst>(&i)->getIndices()) a.push_back((int64_t)x); o["ix"] = std::move(a);} 
            if (i.getOpcode() == Instruction::InsertValue) { json::Array a; for (auto x : cast<InsertValueInst>(&i)->getIndices()) a.push_back((int64_t)x); o["ix"] = std::move(a);} 
          }
          o["ops"] = std::move(ops);
          is.push_back(std::move(o));
        }
        bs.push_back(std::move(is));
      }
      fo["blocks"] = std::move(bs);
    }
    funcs.push_back(std::move(fo));
  }
  root["functions"] = std::move(funcs);
  outs() << json::Value(std::move(root));
  return 0;
}

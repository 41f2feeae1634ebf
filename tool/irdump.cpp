// irdump: normalise one LLVM bitcode module and dump it as JSON for the analyses.
//   irdump IN.bc KEEP_NAME...     (KEEP_NAME: functions never inlined; "-" prefix list end)
// Normalisation: every defined function that is not kept is inlined into its callers (so extracting a
// helper does not change what the analyses see), then promoted to SSA (SROA) and trivially simplified.
#include <llvm/Bitcode/BitcodeReader.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/PassManager.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Transforms/IPO/AlwaysInliner.h>
#include <llvm/Transforms/Scalar/SROA.h>
#include <llvm/Transforms/Scalar/SimplifyCFG.h>
#include <llvm/Transforms/Scalar/EarlyCSE.h>
#include <llvm/Transforms/InstCombine/InstCombine.h>
#include <llvm/Transforms/Scalar/InstSimplifyPass.h>
#include <llvm/Transforms/Utils/Local.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/ADT/MapVector.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <map>
#include <set>
using namespace llvm;
static const DataLayout *DL;
static std::map<const Value*,int> ids;
static std::string tyname(Type*t){std::string s;raw_string_ostream o(s);t->print(o,false,true);return o.str();}
static json::Value opnd(const Value*v);
static json::Value constant(const Constant*c){
  json::Object o;
  if(auto*ci=dyn_cast<ConstantInt>(c)){o["k"]="int";
    if(ci->getBitWidth()<=64)o["v"]=(int64_t)ci->getZExtValue(); else o["v"]=0;
    o["w"]=(int)ci->getBitWidth();return o;}
  if(isa<ConstantPointerNull>(c)){o["k"]="null";return o;}
  if(isa<UndefValue>(c)){o["k"]="undef";return o;}
  if(auto*f=dyn_cast<Function>(c)){o["k"]="func";o["n"]=f->getName().str();return o;}
  if(auto*g=dyn_cast<GlobalValue>(c)){o["k"]="glob";o["n"]=g->getName().str();o["off"]=0;return o;}
  if(auto*ce=dyn_cast<ConstantExpr>(c)){
    if(auto*gep=dyn_cast<GEPOperator>(ce)){
      APInt off(64,0);
      if(gep->accumulateConstantOffset(*DL,off)){
        json::Value b=opnd(gep->getPointerOperand());
        if(auto*bo=b.getAsObject()) if(bo->getString("k")==StringRef("glob")){
          (*bo)["off"]=*bo->getInteger("off")+off.getSExtValue();return b;}
      }
    }
    if(ce->getOpcode()==Instruction::IntToPtr){
      json::Value b=opnd(ce->getOperand(0));
      return b;
    }
    if(ce->getOpcode()==Instruction::BitCast||ce->getOpcode()==Instruction::AddrSpaceCast) return opnd(ce->getOperand(0));
    o["k"]="cexpr";std::string s;raw_string_ostream os(s);ce->print(os);o["s"]=os.str();return o;}
  if(c->isNullValue()){o["k"]="zero";return o;}
  o["k"]="cother";return o;
}
static json::Value opnd(const Value*v){
  if(auto*c=dyn_cast<Constant>(v))return constant(c);
  json::Object o;
  if(isa<Argument>(v)){o["k"]="arg";o["n"]=(int)cast<Argument>(v)->getArgNo();return o;}
  if(isa<BasicBlock>(v)){o["k"]="bb";o["n"]=ids[v];return o;}
  if(isa<Instruction>(v)){o["k"]="i";o["n"]=ids[v];return o;}
  o["k"]="other";return o;
}
static json::Value initval(const Constant*c,int depth=0){
  if(auto*ci=dyn_cast<ConstantInt>(c)){ if(ci->getBitWidth()<=64)return (int64_t)ci->getZExtValue(); return 0;}
  if(auto*cd=dyn_cast<ConstantDataSequential>(c)){json::Array a;
    for(unsigned i=0;i<cd->getNumElements();++i)a.push_back(initval(cd->getElementAsConstant(i),depth+1));return a;}
  if(isa<ConstantAggregateZero>(c)){json::Object o;o["zero"]=(int64_t)DL->getTypeAllocSize(c->getType());
    return o;}
  if(auto*ca=dyn_cast<ConstantAggregate>(c)){json::Array a;for(auto&u:ca->operands())a.push_back(initval(cast<Constant>(u.get()),depth+1));return a;}
  return opnd(c);
}
static json::Value ditype(const DIType*t,int depth=0){
  json::Object o;
  if(!t){o["k"]="void";return o;}
  if(auto*d=dyn_cast<DIDerivedType>(t)){
    unsigned tag=d->getTag();
    if(tag==dwarf::DW_TAG_pointer_type){o["k"]="ptr";
      const DIType*b=d->getBaseType();
      while(b&&isa<DIDerivedType>(b)&&b->getTag()!=dwarf::DW_TAG_pointer_type) {b=cast<DIDerivedType>(b)->getBaseType();}
      if(auto*cc=dyn_cast_or_null<DICompositeType>(b)){o["to"]=("struct "+cc->getName()).str();}
      else if(auto*bb=dyn_cast_or_null<DIBasicType>(b))o["to"]=bb->getName().str();
      else if(b&&isa<DIDerivedType>(b))o["to"]="ptr";
      else if(b&&isa<DISubroutineType>(b))o["to"]="fn";
      return o;}
    return ditype(d->getBaseType(),depth);
  }
  if(auto*b=dyn_cast<DIBasicType>(t)){o["k"]="basic";o["n"]=b->getName().str();o["s"]=(int)(b->getSizeInBits()/8);return o;}
  if(auto*c=dyn_cast<DICompositeType>(t)){
    if(c->getTag()==dwarf::DW_TAG_array_type){o["k"]="array";o["s"]=(int64_t)(c->getSizeInBits()/8);o["of"]=ditype(c->getBaseType(),depth+1);return o;}
    if(c->getTag()==dwarf::DW_TAG_enumeration_type){o["k"]="enum";o["s"]=(int)(c->getSizeInBits()/8);return o;}
    o["k"]=c->getTag()==dwarf::DW_TAG_union_type?"union":"struct";o["n"]=c->getName().str();o["s"]=(int64_t)(c->getSizeInBits()/8);
    if(c->getName().empty()&&depth<6){json::Array m;
      for(auto*e:c->getElements())if(auto*d=dyn_cast<DIDerivedType>(e)){json::Object f;f["name"]=d->getName().str();f["off"]=(int64_t)(d->getOffsetInBits()/8);f["size"]=(int64_t)(d->getSizeInBits()/8);f["type"]=ditype(d->getBaseType(),depth+1);m.push_back(std::move(f));}
      o["members"]=std::move(m);}
    return o;}
  if(isa<DISubroutineType>(t)){o["k"]="fn";return o;}
  o["k"]="?";return o;
}
int main(int argc,char**argv){
  LLVMContext ctx;SMDiagnostic err;
  auto M=parseIRFile(argv[1],err,ctx);
  if(!M){err.print("irdump",errs());return 2;}
  std::set<std::string> keep;
  bool typed=false;   // --typed: the IR as the front end wrote it (field accesses keep their record type)
  for(int i=2;i<argc;++i){if(std::string(argv[i])=="--typed")typed=true;else keep.insert(argv[i]);}
  DL=&M->getDataLayout();
  json::Object root;
  json::Array localvars;
  // signatures & pre-inline info
  {
    json::Object sigs;
    for(auto&F:*M){ if(F.isDeclaration())continue;
      json::Object s;s["ret"]=tyname(F.getReturnType());json::Array ps;
      for(auto&a:F.args())ps.push_back(tyname(a.getType()));
      s["params"]=std::move(ps);s["internal"]=F.hasLocalLinkage();
      json::Array dts;
      if(auto*sp=F.getSubprogram()){s["line"]=(int)sp->getLine();s["file"]=sp->getFilename().str();
        if(auto*st=sp->getType()) for(auto*t:st->getTypeArray())dts.push_back(ditype(t));}
      s["ditypes"]=std::move(dts);
      // callees before inlining
      json::Array cs;std::set<std::string> seen;
      for(auto&B:F)for(auto&I:B)if(auto*cb=dyn_cast<CallBase>(&I)){
        auto*v=cb->getCalledOperand()->stripPointerCasts();
        if(auto*f=dyn_cast<Function>(v)){ if(!f->isIntrinsic()&&seen.insert(f->getName().str()).second)cs.push_back(f->getName().str());}}
      s["callees"]=std::move(cs);
      sigs[F.getName().str()]=std::move(s);
    }
    root["sigs"]=std::move(sigs);
  }
  for(auto&F:*M){
    if(F.isDeclaration())continue;
    F.removeFnAttr(Attribute::OptimizeNone);F.removeFnAttr(Attribute::NoInline);
    if(!keep.count(F.getName().str())) F.addFnAttr(Attribute::AlwaysInline);
  }
  if(!typed){
    LoopAnalysisManager LAM;FunctionAnalysisManager FAM;CGSCCAnalysisManager CGAM;ModuleAnalysisManager MAM;
    PassBuilder PB;PB.registerModuleAnalyses(MAM);PB.registerCGSCCAnalyses(CGAM);PB.registerFunctionAnalyses(FAM);PB.registerLoopAnalyses(LAM);PB.crossRegisterProxies(LAM,FAM,CGAM,MAM);
    ModulePassManager MPM;
    MPM.addPass(AlwaysInlinerPass(false));
    FunctionPassManager FPM;
    FPM.addPass(SROAPass(SROAOptions::ModifyCFG));
    FPM.addPass(EarlyCSEPass(false));
    FPM.addPass(InstSimplifyPass());
    MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM)));
    MPM.run(*M,MAM);
  }
  for(auto&F:*M)for(auto&B:F)(void)B;
  // remove unreachable blocks
  for(auto&F:*M)if(!F.isDeclaration())removeUnreachableBlocks(F);
  json::Object globs;
  for(auto&G:M->globals()){
    json::Object g;g["const"]=G.isConstant();g["internal"]=G.hasLocalLinkage();g["decl"]=G.isDeclaration();g["tls"]=G.isThreadLocal();
    g["type"]=tyname(G.getValueType());g["size"]=(int64_t)DL->getTypeAllocSize(G.getValueType());
    if(G.hasInitializer())g["init"]=initval(G.getInitializer());
    SmallVector<DIGlobalVariableExpression*,2> gv;G.getDebugInfo(gv);
    if(!gv.empty()){g["line"]=(int)gv[0]->getVariable()->getLine();g["file"]=gv[0]->getVariable()->getFilename().str();g["src"]=gv[0]->getVariable()->getName().str();
      g["ditype"]=ditype(gv[0]->getVariable()->getType());}
    globs[G.getName().str()]=std::move(g);
  }
  root["globals"]=std::move(globs);
  // struct layouts
  {
    DebugInfoFinder fnd;fnd.processModule(*M);
    json::Object st;
    for(auto*t:fnd.types())if(auto*c=dyn_cast<DICompositeType>(t)){
      if(c->getTag()!=dwarf::DW_TAG_structure_type&&c->getTag()!=dwarf::DW_TAG_union_type)continue;
      if(c->getName().empty()||c->isForwardDecl())continue;
      json::Array m;
      for(auto*e:c->getElements())if(auto*d=dyn_cast<DIDerivedType>(e)){json::Object f;f["name"]=d->getName().str();f["off"]=(int64_t)(d->getOffsetInBits()/8);f["size"]=(int64_t)(d->getSizeInBits()/8);f["type"]=ditype(d->getBaseType());m.push_back(std::move(f));}
      json::Object o;o["size"]=(int64_t)(c->getSizeInBits()/8);o["members"]=std::move(m);
      o["file"]=c->getFilename().str();
      st[c->getName().str()]=std::move(o);
    }
    root["structs"]=std::move(st);
    json::Object en;
    for(auto*t:fnd.types())if(auto*c=dyn_cast<DICompositeType>(t)){
      if(c->getTag()!=dwarf::DW_TAG_enumeration_type)continue;
      for(auto*e:c->getElements())if(auto*d=dyn_cast<DIEnumerator>(e))en[d->getName().str()]=(int64_t)d->getValue().getSExtValue();
    }
    for(auto*cu:M->debug_compile_units())for(auto*c:cu->getEnumTypes()){
      for(auto*e:c->getElements())if(auto*d=dyn_cast<DIEnumerator>(e))en[d->getName().str()]=(int64_t)d->getValue().getSExtValue();
    }
    root["enums"]=std::move(en);
  }
  json::Object fns;
  json::Array decls;
  for(auto&F:*M){
    if(F.isDeclaration()){ if(!F.isIntrinsic())decls.push_back(F.getName().str());continue;}
    ids.clear();int n=0,nb=0;
    for(auto&B:F){ids[&B]=nb++;for(auto&I:B)ids[&I]=n++;}
    json::Object f;json::Array bbs;
    f["nparams"]=(int)F.arg_size();
    json::Array pn;for(auto&a:F.args()){json::Object p;p["name"]=a.getName().str();p["type"]=tyname(a.getType());pn.push_back(std::move(p));}
    f["params"]=std::move(pn);
    f["ret"]=tyname(F.getReturnType());
    for(auto&B:F){
      json::Array ins;
      for(auto&I:B){
        if(isa<DbgInfoIntrinsic>(&I))continue;
        json::Object o;o["id"]=ids[&I];o["op"]=I.getOpcodeName();o["ty"]=tyname(I.getType());
        if(auto&dl=I.getDebugLoc()){o["line"]=(int)dl.getLine();auto*sc=cast<DIScope>(dl.getScope());o["file"]=sc->getFilename().str();
          if(auto*ia=dl.getInlinedAt()){o["inl"]=(int)ia->getLine();}
          if(auto*ls=dyn_cast<DILocalScope>(sc))o["fn"]=ls->getSubprogram()->getName().str();}
        if(auto*g=dyn_cast<GetElementPtrInst>(&I)){
          unsigned bw=64;MapVector<Value*,APInt> var;APInt off(bw,0);
          bool ok=cast<GEPOperator>(g)->collectOffset(*DL,bw,var,off);
          o["base"]=opnd(g->getPointerOperand());o["off"]=(int64_t)off.getSExtValue();o["ok"]=ok;
          json::Array vs;for(auto&p:var){json::Array a;a.push_back(opnd(p.first));a.push_back((int64_t)p.second.getSExtValue());vs.push_back(std::move(a));}
          o["var"]=std::move(vs);o["sty"]=tyname(g->getSourceElementType());
        }else if(auto*p=dyn_cast<PHINode>(&I)){
          json::Array a;for(unsigned i=0;i<p->getNumIncomingValues();++i){json::Array e;e.push_back(ids[p->getIncomingBlock(i)]);e.push_back(opnd(p->getIncomingValue(i)));a.push_back(std::move(e));}
          o["inc"]=std::move(a);
        }else if(auto*cb=dyn_cast<CallBase>(&I)){
          json::Array a;for(auto&x:cb->args())a.push_back(opnd(x.get()));
          o["args"]=std::move(a);
          auto*v=cb->getCalledOperand()->stripPointerCasts();
          if(auto*ff=dyn_cast<Function>(v)){o["callee"]=ff->getName().str();}
          else o["fp"]=opnd(v);
          json::Array pt;for(auto&x:cb->args())pt.push_back(tyname(x->getType()));
          o["aty"]=std::move(pt);
        }else if(auto*sw=dyn_cast<SwitchInst>(&I)){
          o["cond"]=opnd(sw->getCondition());o["def"]=ids[sw->getDefaultDest()];
          json::Array a;for(auto&c:sw->cases()){json::Array e;e.push_back((int64_t)c.getCaseValue()->getZExtValue());e.push_back(ids[c.getCaseSuccessor()]);a.push_back(std::move(e));}
          o["cases"]=std::move(a);
        }else if(auto*br=dyn_cast<BranchInst>(&I)){
          if(br->isConditional()){o["cond"]=opnd(br->getCondition());o["t"]=ids[br->getSuccessor(0)];o["f"]=ids[br->getSuccessor(1)];}
          else o["t"]=ids[br->getSuccessor(0)];
        }else if(auto*al=dyn_cast<AllocaInst>(&I)){
          o["aty"]=tyname(al->getAllocatedType());
          auto sz=al->getAllocationSize(*DL);
          if(sz&&!sz->isScalable())o["size"]=(int64_t)sz->getFixedValue();else {o["size"]=-1;o["es"]=(int64_t)DL->getTypeAllocSize(al->getAllocatedType()).getFixedValue();}
          o["n"]=opnd(al->getArraySize());
          for(auto*u:findDbgDeclares(al)){o["var"]=u->getVariable()->getName().str();}
        }else{
          json::Array a;for(auto&u:I.operands())a.push_back(opnd(u.get()));
          o["a"]=std::move(a);
          if(auto*c=dyn_cast<CmpInst>(&I)){o["pred"]=CmpInst::getPredicateName(c->getPredicate()).str();o["cty"]=tyname(c->getOperand(0)->getType());}
          if(auto*s=dyn_cast<StoreInst>(&I)){o["sty"]=tyname(s->getValueOperand()->getType());o["sz"]=(int64_t)DL->getTypeStoreSize(s->getValueOperand()->getType()).getFixedValue();}
          if(auto*l=dyn_cast<LoadInst>(&I)){o["sz"]=(int64_t)DL->getTypeStoreSize(l->getType()).getFixedValue();}
          if(auto*c=dyn_cast<CastInst>(&I)){o["from"]=tyname(c->getSrcTy());}
          if(auto*ev=dyn_cast<ExtractValueInst>(&I)){json::Array ix;for(auto i:ev->indices())ix.push_back((int)i);o["ix"]=std::move(ix);}
          if(auto*ev=dyn_cast<InsertValueInst>(&I)){json::Array ix;for(auto i:ev->indices())ix.push_back((int)i);o["ix"]=std::move(ix);}
        }
        ins.push_back(std::move(o));
      }
      json::Object b;b["ins"]=std::move(ins);bbs.push_back(std::move(b));
    }
    f["bbs"]=std::move(bbs);
    if(auto*sp=F.getSubprogram()){f["line"]=(int)sp->getLine();f["file"]=sp->getFilename().str();}
    fns[F.getName().str()]=std::move(f);
  }
  root["fns"]=std::move(fns);root["decls"]=std::move(decls);
  outs()<<json::Value(std::move(root))<<"\n";
  return 0;
}

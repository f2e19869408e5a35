// symx instrumentation pass (LLVM 18, new pass manager plugin).
//
// Rewrites a module so that, next to every concrete machine computation, a
// symbolic shadow expression is computed by the runtime (libsxrt.so).  A null
// shadow means "concrete".  See rt.cpp for the runtime side and DESIGN.md for
// the calling conventions.
#include "llvm/IR/Module.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Transforms/Scalar/Scalarizer.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/ModuleUtils.h"
#include "llvm/Transforms/Utils/Local.h"
#include <map>
#include <set>
#include <string>
using namespace llvm;

namespace {

// calls from instrumented code that are sent to the runtime / model library
static const char* const REDIRECT[] = {
  "malloc","free","calloc","realloc","strdup",
  "memcpy","memmove","memset","memcmp","bcmp","memchr","memrchr","strlen","strnlen","strcmp","strncmp",
  "strcpy","strncpy","strcat","strncat","strchr","strrchr","strstr","strcasecmp","strncasecmp",
  "strpbrk","strspn","strcspn","strcoll","stpcpy","fread","fwrite","getenv","setenv","unsetenv","putenv",
  "strtol","strtoul","strtoll","strtoull","atoi","atol","atoll",
  "toupper","tolower","isalpha","isdigit","isalnum","isspace","isupper","islower","ispunct","isxdigit","iscntrl","isprint","isgraph",
  nullptr };

struct Symx {
  Module& M; const DataLayout& DL; LLVMContext& C;
  Type *VoidTy, *I1, *I8, *I32, *I64; PointerType* P;
  GlobalVariable *gCallee, *gArgs, *gRet, *gSlots;
  Constant* Null;
  std::map<std::string,std::string> redirect;
  unsigned siteCtr = 0; uint64_t modHash = 0;

  Symx(Module& m): M(m), DL(m.getDataLayout()), C(m.getContext()) {
    VoidTy=Type::getVoidTy(C); I1=Type::getInt1Ty(C); I8=Type::getInt8Ty(C); I32=Type::getInt32Ty(C); I64=Type::getInt64Ty(C);
    P=PointerType::getUnqual(C);
    Null=ConstantPointerNull::get(P);
    auto mk=[&](const char* n, Type* t){ return new GlobalVariable(M,t,false,GlobalValue::ExternalLinkage,nullptr,n); };
    gCallee=mk("__sx_callee",P); gSlots=mk("__sx_slots",I32); gArgs=mk("__sx_args",ArrayType::get(P,256)); gRet=mk("__sx_ret",ArrayType::get(P,64));
    for(auto p=REDIRECT;*p;++p) redirect[*p]=std::string("__sx_")+*p;
    redirect["_Znwm"]="__sx_malloc"; redirect["_Znam"]="__sx_malloc";
    redirect["_ZdlPv"]="__sx_free"; redirect["_ZdaPv"]="__sx_free"; redirect["_ZdlPvm"]="__sx_free"; redirect["_ZdaPvm"]="__sx_free";
    redirect["_ZnwmRKSt9nothrow_t"]="__sx_malloc"; redirect["_ZnamRKSt9nothrow_t"]="__sx_malloc";
    redirect["_ZdlPvRKSt9nothrow_t"]="__sx_free"; redirect["_ZdaPvRKSt9nothrow_t"]="__sx_free";
    redirect["__isoc23_strtol"]="__sx_strtol"; redirect["__isoc23_strtoul"]="__sx_strtoul";
    redirect["__isoc23_strtoll"]="__sx_strtoll"; redirect["__isoc23_strtoull"]="__sx_strtoull";
    redirect["_ZNSt12__basic_fileIcE6xsgetnEPcl"]="__sx_bf_xsgetn";
    redirect["_ZNSt12__basic_fileIcE6xsputnEPKcl"]="__sx_bf_xsputn";
    redirect["_ZNSt12__basic_fileIcE8xsputn_2EPKclS2_l"]="__sx_bf_xsputn_2";
    redirect["_ZSt14__convert_to_vIdEvPKcRT_RSt12_Ios_IostateRKP15__locale_struct"]="__sx_convert_to_d";
    redirect["_ZSt14__convert_to_vIfEvPKcRT_RSt12_Ios_IostateRKP15__locale_struct"]="__sx_convert_to_f";
    redirect["_ZSt16__convert_from_vRKP15__locale_structPciPKcz"]="__sx_convert_from_v";
    redirect["_ZSt11_Hash_bytesPKvmm"]="__sx_hash_bytes";
    for(char c: M.getSourceFileName()) modHash=modHash*1099511628211ull+ (unsigned char)c+7;
  }
  FunctionCallee rt(StringRef n, Type* r, ArrayRef<Type*> a){
    auto fc=M.getOrInsertFunction(n, FunctionType::get(r,a,false));
    if(auto*f=dyn_cast<Function>(fc.getCallee())) f->addFnAttr(Attribute::NoUnwind);
    return fc;
  }
  // ---- leaves
  void leaves(Type* t, SmallVectorImpl<std::pair<Type*,uint64_t>>& out, uint64_t off=0){
    if(t->isVoidTy()||t->isTokenTy()||t->isMetadataTy()||t->isLabelTy()) return;
    if(auto*s=dyn_cast<StructType>(t)){ if(s->isOpaque())return; auto*sl=DL.getStructLayout(s);
      for(unsigned i=0;i<s->getNumElements();++i) leaves(s->getElementType(i),out,off+sl->getElementOffset(i)); return; }
    if(auto*a=dyn_cast<ArrayType>(t)){ uint64_t es=DL.getTypeAllocSize(a->getElementType());
      for(uint64_t i=0;i<a->getNumElements();++i) leaves(a->getElementType(),out,off+i*es); return; }
    if(auto*v=dyn_cast<FixedVectorType>(t)){ uint64_t es=DL.getTypeStoreSize(v->getElementType());
      for(unsigned i=0;i<v->getNumElements();++i) leaves(v->getElementType(),out,off+i*es); return; }
    out.push_back({t,off});
  }
  unsigned nLeaves(Type*t){ SmallVector<std::pair<Type*,uint64_t>,4> l; leaves(t,l); return l.size(); }
  unsigned width(Type* t){ if(t->isPointerTy()) return 64; return t->getPrimitiveSizeInBits(); }
  bool okScalar(Type* t){ if(t->isPointerTy()||t->isFloatTy()||t->isDoubleTy()) return true; if(t->isIntegerTy()) return t->getIntegerBitWidth()<=64; return false; }

  // ---- per function state
  Function* F=nullptr;
  typedef SmallVector<Value*,1> Sh;
  DenseMap<Value*,Sh> sh;
  DenseMap<Value*,Value*> dummy;

  Sh get(Value* v){
    if(isa<Constant>(v)||isa<InlineAsm>(v)||isa<MetadataAsValue>(v)) return Sh(nLeaves(v->getType()),Null);
    auto it=sh.find(v); if(it!=sh.end()) return it->second;
    return Sh(nLeaves(v->getType()),Null);
  }
  Value* get1(Value* v){ Sh s=get(v); return s.empty()?Null:s[0]; }
  static bool isN(Value* v){ return isa<ConstantPointerNull>(v); }
  static bool allN(const Sh& s){ for(Value*v:s) if(!isN(v)) return false; return true; }

  Value* bits(IRBuilder<>& B, Value* v){ // scalar value as i64
    Type*t=v->getType();
    if(t->isPointerTy()) return B.CreatePtrToInt(v,I64);
    if(t->isDoubleTy()) return B.CreateBitCast(v,I64);
    if(t->isFloatTy()) return B.CreateZExt(B.CreateBitCast(v,I32),I64);
    if(t->isIntegerTy()){ unsigned w=t->getIntegerBitWidth(); if(w==64) return v; if(w<64) return B.CreateZExt(v,I64); return B.CreateTrunc(v,I64); }
    return ConstantInt::get(I64,0);
  }
  Value* leafVal(IRBuilder<>& B, Value* v, unsigned idx){ // concrete value (i64) of leaf idx
    Type* t=v->getType();
    if(!t->isAggregateType()&&!t->isVectorTy()) return bits(B,v);
    if(auto*vt=dyn_cast<FixedVectorType>(t)) return bits(B,B.CreateExtractElement(v,idx));
    // aggregate: descend
    if(auto*s=dyn_cast<StructType>(t)){ for(unsigned i=0;i<s->getNumElements();++i){ unsigned n=nLeaves(s->getElementType(i)); if(idx<n) return leafVal(B,B.CreateExtractValue(v,i),idx); idx-=n; } }
    if(auto*a=dyn_cast<ArrayType>(t)){ unsigned n=nLeaves(a->getElementType()); return leafVal(B,B.CreateExtractValue(v,idx/n),idx%n); }
    return ConstantInt::get(I64,0);
  }
  Value* c32(uint64_t v){ return ConstantInt::get(I32,v); }
  Value* c64(uint64_t v){ return ConstantInt::get(I64,v); }
  Value* site(){ return c64((modHash<<20) ^ (++siteCtr)); }

  Value* bin(IRBuilder<>& B, unsigned op, unsigned w, Value* sa, Value* va, Value* sb, Value* vb){
    if(isN(sa)&&isN(sb)) return Null;
    return B.CreateCall(rt("__sx_bin",P,{I32,I32,P,I64,P,I64}),{c32(op),c32(w),sa,va,sb,vb});
  }
  void unsup(IRBuilder<>& B, const char* what, ArrayRef<Value*> shs){
    for(Value*s:shs) if(!isN(s)) B.CreateCall(rt("__sx_unsup",VoidTy,{P,P}),{s,B.CreateGlobalStringPtr(what)});
  }
  Value* pin(IRBuilder<>& B, Value* s, Value* v){ // concretise by exhaustive enumeration
    if(!isN(s)) B.CreateCall(rt("__sx_pin",VoidTy,{P,I64,I64}),{s,v,site()});
    return Null;
  }

  void handleLoadStoreLeaves(IRBuilder<>& B, Value* addr, Type* t, Sh* valSh /*null=>load*/, Sh& out, Value* addrSh){
    SmallVector<std::pair<Type*,uint64_t>,4> l; leaves(t,l);
    for(unsigned i=0;i<l.size();++i){
      Value* a=addr; Value* as=addrSh;
      if(l[i].second){ a=B.CreateConstGEP1_64(I8,addr,l[i].second); if(!isN(as)) as=bin(B,0,64,as,bits(B,addr),Null,c64(l[i].second)); }
      uint64_t nb=DL.getTypeStoreSize(l[i].first);
      unsigned w= okScalar(l[i].first)? width(l[i].first):0;
      if(!valSh) out.push_back(B.CreateCall(rt("__sx_load",P,{P,I32,I32,P,I64}),{a,c32(nb),c32(w),as,site()}));
      else B.CreateCall(rt("__sx_store",VoidTy,{P,I32,I32,P,P,I64}),{a,c32(nb),c32(w),as,(*valSh)[i],site()});
    }
  }

  void run(Function& f){
    F=&f; sh.clear();
    // calls that must be redirected
    for(auto&I:instructions(f)) if(auto*cb=dyn_cast<CallBase>(&I)) if(Function*cf=cb->getCalledFunction()){
      auto it=redirect.find(cf->getName().str());
      if(it!=redirect.end()){ // only redirect when the callee isn't the model itself
        auto nf=M.getOrInsertFunction(it->second,cf->getFunctionType());
        cb->setCalledFunction(nf.getFunctionType(),nf.getCallee());
        AttributeList al=cb->getAttributes(); cb->setAttributes(al.removeFnAttribute(C,Attribute::Builtin).removeFnAttribute(C,Attribute::Memory));
      }
    }
    SmallVector<BasicBlock*,32> order; { ReversePostOrderTraversal<Function*> rpo(&f); for(BasicBlock*b:rpo) order.push_back(b); }
    std::vector<Instruction*> work; for(BasicBlock*b:order) for(Instruction&I:*b) work.push_back(&I);
    std::vector<PHINode*> phis;
    // entry
    {
      Instruction* ip=&*f.getEntryBlock().getFirstInsertionPt();
      while(isa<AllocaInst>(ip)) ip=ip->getNextNode();
      IRBuilder<> B(ip); B.SetCurrentDebugLocation(DebugLoc());
      if(auto*sp=f.getSubprogram()) B.SetCurrentDebugLocation(DILocation::get(C,sp->getLine(),0,sp));
      Value* valid=B.CreateCall(rt("__sx_enter",I1,{P,P}),{&f,funcRec(f)});
      bool any=false; for(auto&A:f.args()) if(nLeaves(A.getType())) any=true;
      if(any){
        unsigned slot=0;
        for(auto&A:f.args()){
          Sh s; unsigned n=nLeaves(A.getType());
          for(unsigned i=0;i<n;++i,++slot){ if(slot>=256){ s.push_back(Null); continue; }
            Value* l=B.CreateLoad(P,B.CreateConstGEP2_64(gArgs->getValueType(),gArgs,0,slot));
            s.push_back(B.CreateSelect(valid,l,Null)); }
          if(A.hasByValAttr()){ B.CreateCall(rt("__sx_byval",VoidTy,{P,P,I64}),{&A,s[0],c64(DL.getTypeAllocSize(A.getParamByValType()))}); s[0]=Null; }
          sh[&A]=s;
        }
      }
      bool hasAlloca=false; for(auto&I:f.getEntryBlock()) if(isa<AllocaInst>(I)) hasAlloca=true;
      if(hasAlloca){
        Value* fa=B.CreateCall(Intrinsic::getDeclaration(&M,Intrinsic::frameaddress,{P}),{c32(0)});
        B.CreateCall(rt("__sx_frame",VoidTy,{P}),{fa});
        SmallVector<AllocaInst*,8> als; for(auto&I:f.getEntryBlock()) if(auto*ai=dyn_cast<AllocaInst>(&I)) als.push_back(ai);
        for(auto*ai:als) if(auto sz=ai->getAllocationSize(DL)){
          if(ai->comesBefore(ip)) B.CreateCall(rt("__sx_alloca",VoidTy,{P,I64}),{ai,c64(sz->getFixedValue())});
          else { IRBuilder<> B2(ai->getNextNode()); B2.SetCurrentDebugLocation(B.getCurrentDebugLocation()); B2.CreateCall(rt("__sx_alloca",VoidTy,{P,I64}),{ai,c64(sz->getFixedValue())}); } }
      }
    }
    for(Instruction* I:work) visit(*I,phis);
    // fill phis
    for(PHINode* ph:phis){
      Sh& s=sh[ph];
      for(unsigned i=0;i<ph->getNumIncomingValues();++i){ Sh in=get(ph->getIncomingValue(i));
        for(unsigned k=0;k<s.size();++k) cast<PHINode>(s[k])->addIncoming(in[k],ph->getIncomingBlock(i)); }
    }
    // edges may have been split after phi handling: fix shadow phi blocks to mirror the real phi
    for(PHINode* ph:phis){ Sh& s=sh[ph]; for(Value* v:s){ auto*sp=cast<PHINode>(v); for(unsigned i=0;i<ph->getNumIncomingValues();++i) sp->setIncomingBlock(i,ph->getIncomingBlock(i)); } }
  }

  Constant* funcRec(Function& f){
    std::string file; unsigned line=0; if(auto*sp=f.getSubprogram()){ file=(sp->getDirectory()+"/"+sp->getFilename()).str(); if(sp->getFilename().starts_with("/")) file=sp->getFilename().str(); line=sp->getLine(); }
    auto str=[&](StringRef s){ Constant*c=ConstantDataArray::getString(C,s); auto*g=new GlobalVariable(M,c->getType(),true,GlobalValue::PrivateLinkage,c,"__sxs"); g->setUnnamedAddr(GlobalValue::UnnamedAddr::Global); return g; };
    StructType* st=StructType::get(C,{P,P,I32,I32,P});
    // functions inlined into this one, listed with their files
    std::set<std::string> inl; auto fileOf=[](DISubprogram*sp){ return sp->getFilename().starts_with("/")?sp->getFilename().str():(sp->getDirectory()+"/"+sp->getFilename()).str(); };
    for(auto&bb:f) for(auto&i:bb) for(DILocation*l=i.getDebugLoc().get();l;l=l->getInlinedAt()) if(auto*sp=l->getScope()->getSubprogram()) if(sp!=f.getSubprogram()){ std::string fl=fileOf(sp); if(fl.compare(0,5,"/usr/")) inl.insert((sp->getLinkageName().empty()?sp->getName():sp->getLinkageName()).str()+" "+fl); }
    std::string nm=f.getName().str(); for(auto&x:inl) nm+="\n"+x;
    Constant* init=ConstantStruct::get(st,{str(nm),str(file),ConstantInt::get(I32,line),ConstantInt::get(I32,0),Null});
    return new GlobalVariable(M,st,false,GlobalValue::PrivateLinkage,init,"__sxf");
  }

  void visit(Instruction& I, std::vector<PHINode*>& phis){
    if(auto*ph=dyn_cast<PHINode>(&I)){
      unsigned n=nLeaves(ph->getType()); if(!n) return;
      // all-constant phis still may need shadows only when some incoming could be symbolic
      bool any=false; for(Value*v:ph->incoming_values()) if(!isa<Constant>(v)) any=true;
      if(!any) return;
      Sh s; for(unsigned i=0;i<n;++i){ s.push_back(PHINode::Create(P,ph->getNumIncomingValues(),"",ph)); }
      sh[ph]=s; phis.push_back(ph); return;
    }
    if(isa<AllocaInst>(I)){
      auto&ai=cast<AllocaInst>(I);
      if(!ai.isStaticAlloca()){ IRBuilder<> B(&I); Value* n=ai.getArraySize(); pin(B,get1(n),bits(B,n)); B.SetInsertPoint(I.getNextNode());
        Value* bytes=B.CreateMul(bits(B,n),c64(DL.getTypeAllocSize(ai.getAllocatedType())));
        B.CreateCall(rt("__sx_alloca",VoidTy,{P,I64}),{&ai,bytes}); }
      return;
    }
    if(auto*l=dyn_cast<LoadInst>(&I)){ IRBuilder<> B(&I); Sh out; handleLoadStoreLeaves(B,l->getPointerOperand(),l->getType(),nullptr,out,get1(l->getPointerOperand())); sh[&I]=out; return; }
    if(auto*s=dyn_cast<StoreInst>(&I)){ IRBuilder<> B(&I); Sh v=get(s->getValueOperand()),out; handleLoadStoreLeaves(B,s->getPointerOperand(),s->getValueOperand()->getType(),&v,out,get1(s->getPointerOperand())); return; }
    if(auto*b=dyn_cast<BinaryOperator>(&I)){
      Value*sa=get1(b->getOperand(0)),*sb=get1(b->getOperand(1)); IRBuilder<> B(&I);
      Type*t=b->getType();
      if(t->isVectorTy()){ Sh x=get(b->getOperand(0)),y=get(b->getOperand(1)); Sh r; bool all=true; for(auto*v:x) if(!isN(v)) all=false; for(auto*v:y) if(!isN(v)) all=false; if(all) return;
        Type*et=cast<FixedVectorType>(t)->getElementType(); if(!okScalar(et)){ unsup(B,"vector op",x); unsup(B,"vector op",y); return; }
        for(unsigned i=0;i<x.size();++i) r.push_back(bin(B,opcode(b->getOpcode()),width(et),x[i],leafVal(B,b->getOperand(0),i),y[i],leafVal(B,b->getOperand(1),i))); sh[&I]=r; return; }
      if(isN(sa)&&isN(sb)) return;
      if(!okScalar(t)){ unsup(B,"wide arithmetic",{sa,sb}); return; }
      sh[&I]={bin(B,opcode(b->getOpcode()),width(t),sa,bits(B,b->getOperand(0)),sb,bits(B,b->getOperand(1)))}; return;
    }
    if(auto*u=dyn_cast<UnaryOperator>(&I)){ // fneg
      Value*sa=get1(u->getOperand(0)); IRBuilder<> B(&I);
      if(u->getType()->isVectorTy()||!okScalar(u->getType())){ Sh x=get(u->getOperand(0)); unsup(B,"fneg",x); return; }
      if(isN(sa)) return; sh[&I]={B.CreateCall(rt("__sx_fneg",P,{I32,P}),{c32(width(u->getType())),sa})}; return;
    }
    if(auto*c=dyn_cast<CmpInst>(&I)){
      Value*a=c->getOperand(0),*b2=c->getOperand(1); IRBuilder<> B(&I);
      if(c->getType()->isVectorTy()||!okScalar(a->getType())){ Sh x=get(a),y=get(b2); unsup(B,"vector/wide compare",x); unsup(B,"vector/wide compare",y); return; }
      Value*sa=get1(a),*sb=get1(b2); if(isN(sa)&&isN(sb)) return;
      bool fp=isa<FCmpInst>(c);
      sh[&I]={B.CreateCall(rt("__sx_cmp",P,{I32,I32,P,I64,P,I64}),{c32((fp?0:100)+ (unsigned)c->getPredicate() - (fp?0:(unsigned)CmpInst::FIRST_ICMP_PREDICATE)),c32(width(a->getType())),sa,bits(B,a),sb,bits(B,b2)})}; return;
    }
    if(auto*c=dyn_cast<CastInst>(&I)){
      Value*a=c->getOperand(0); Sh x=get(a); if(allN(x)) return; IRBuilder<> B(&I);
      Type*st=a->getType(),*dt=c->getType();
      if(isa<BitCastInst>(c)&&(st->isVectorTy()||dt->isVectorTy())){
        // re-slice leaves
        Type*se=st->isVectorTy()?cast<FixedVectorType>(st)->getElementType():st; Type*de=dt->isVectorTy()?cast<FixedVectorType>(dt)->getElementType():dt;
        unsigned sw=width(se),dw=width(de); if(!okScalar(se)||!okScalar(de)){ unsup(B,"bitcast",x); return; }
        if(sw==dw){ sh[&I]=x; return; }
        Sh r; unsigned nd=nLeaves(dt);
        for(unsigned i=0;i<nd;++i){
          if(dw>sw){ unsigned k=dw/sw; Value*acc=x[i*k]; Value*av=leafVal(B,a,i*k);
            for(unsigned j=1;j<k;++j){ Value*hv=leafVal(B,a,i*k+j);
              acc=B.CreateCall(rt("__sx_concat",P,{P,I64,I32,P,I64,I32}),{x[i*k+j],hv,c32(sw),acc,av,c32(sw*j)}); av=B.CreateOr(av,B.CreateShl(hv,c64(sw*j))); }
            r.push_back(acc);
          } else { unsigned k=sw/dw; r.push_back(B.CreateCall(rt("__sx_extract",P,{P,I32,I32}),{x[i/k],c32((i%k)*dw),c32(dw)})); }
        }
        sh[&I]=r; return;
      }
      if(st->isVectorTy()){ unsup(B,"vector cast",x); return; }
      if(!okScalar(st)||!okScalar(dt)){
        if(isa<ZExtInst>(c)||isa<TruncInst>(c)||true){ unsup(B,"wide cast",x); return; }
      }
      unsigned op;
      switch(c->getOpcode()){ case Instruction::ZExt: op=0;break; case Instruction::SExt: op=1;break; case Instruction::Trunc: op=2;break;
        case Instruction::PtrToInt: case Instruction::IntToPtr: op= width(st)==width(dt)?3:(width(st)>width(dt)?2:0);break;
        case Instruction::BitCast: case Instruction::AddrSpaceCast: op=3;break;
        case Instruction::FPToSI: op=4;break; case Instruction::FPToUI: op=5;break; case Instruction::SIToFP: op=6;break; case Instruction::UIToFP: op=7;break;
        case Instruction::FPExt: op=8;break; case Instruction::FPTrunc: op=9;break; default: op=99; }
      if(op==3){ sh[&I]={x[0]}; return; }
      sh[&I]={B.CreateCall(rt("__sx_cast",P,{I32,P,I32,I32}),{c32(op),x[0],c32(width(st)),c32(width(dt))})}; return;
    }
    if(auto*g=dyn_cast<GetElementPtrInst>(&I)){
      IRBuilder<> B(&I); if(g->getType()->isVectorTy()) return;
      bool any=!isN(get1(g->getPointerOperand())); for(auto it=g->idx_begin();it!=g->idx_end();++it) if(!isN(get1(*it))) any=true;
      if(!any) return;
      Value* acc=get1(g->getPointerOperand()); Value* accv=bits(B,g->getPointerOperand());
      for(gep_type_iterator gi=gep_type_begin(g),ge=gep_type_end(g);gi!=ge;++gi){
        Value* idx=gi.getOperand();
        if(StructType* st=gi.getStructTypeOrNull()){ uint64_t off=DL.getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
          acc=bin(B,0,64,acc,accv,Null,c64(off)); accv=B.CreateAdd(accv,c64(off)); continue; }
        uint64_t sz=DL.getTypeAllocSize(gi.getIndexedType());
        Value* si=get1(idx); Value* iv=B.CreateSExtOrTrunc(idx,I64);
        if(!isN(acc)||!isN(si)) acc=B.CreateCall(rt("__sx_gep",P,{P,I64,P,I64,I32,I64}),{acc,accv,si,iv,c32(idx->getType()->getIntegerBitWidth()),c64(sz)});
        accv=B.CreateAdd(accv,B.CreateMul(iv,c64(sz)));
      }
      sh[&I]={acc}; return;
    }
    if(auto*s=dyn_cast<SelectInst>(&I)){
      Value*c=s->getCondition(),*a=s->getTrueValue(),*b=s->getFalseValue(); IRBuilder<> B(&I);
      Sh sc=get(c),x=get(a),y=get(b); if(allN(sc)&&allN(x)&&allN(y)) return;
      if(c->getType()->isVectorTy()){ unsup(B,"vector select",sc); unsup(B,"vector select",x); unsup(B,"vector select",y); return; }
      SmallVector<std::pair<Type*,uint64_t>,4> l; leaves(s->getType(),l); Sh r;
      if(s->getType()->isPointerTy()&&!isN(sc[0])){ // a choice between objects is a control decision
        B.CreateCall(rt("__sx_branch",VoidTy,{P,I1,I64}),{sc[0],c,site()}); sh[&I]={B.CreateSelect(c,x[0],y[0])}; return; }
      for(unsigned i=0;i<x.size();++i){
        if(isN(sc[0])){ r.push_back(B.CreateSelect(c,x[i],y[i])); continue; }
        if(!okScalar(l[i].first)){ unsup(B,"wide select",{sc[0]}); r.push_back(Null); continue; }
        r.push_back(B.CreateCall(rt("__sx_ite",P,{P,I1,P,I64,P,I64,I32}),{sc[0],c,x[i],leafVal(B,a,i),y[i],leafVal(B,b,i),c32(width(l[i].first))}));
      }
      sh[&I]=r; return;
    }
    if(isa<FreezeInst>(I)){ sh[&I]=get(I.getOperand(0)); return; }
    if(auto*e=dyn_cast<ExtractValueInst>(&I)){ Sh x=get(e->getAggregateOperand()); if(allN(x)) return; unsigned off=leafOffset(e->getAggregateOperand()->getType(),e->getIndices()); unsigned n=nLeaves(e->getType()); sh[&I]=Sh(x.begin()+off,x.begin()+off+n); return; }
    if(auto*e=dyn_cast<InsertValueInst>(&I)){ Sh x=get(e->getAggregateOperand()),y=get(e->getInsertedValueOperand()); unsigned off=leafOffset(e->getType(),e->getIndices()); for(unsigned i=0;i<y.size();++i) x[off+i]=y[i]; sh[&I]=x; return; }
    if(auto*e=dyn_cast<ExtractElementInst>(&I)){ Sh x=get(e->getVectorOperand()); IRBuilder<> B(&I); if(auto*ci=dyn_cast<ConstantInt>(e->getIndexOperand())){ sh[&I]={x[ci->getZExtValue()]}; } else unsup(B,"variable extractelement",x); return; }
    if(auto*e=dyn_cast<InsertElementInst>(&I)){ Sh x=get(e->getOperand(0)); IRBuilder<> B(&I); if(auto*ci=dyn_cast<ConstantInt>(e->getOperand(2))){ x[ci->getZExtValue()]=get1(e->getOperand(1)); sh[&I]=x; } else { unsup(B,"variable insertelement",x); unsup(B,"variable insertelement",get(e->getOperand(1))); } return; }
    if(auto*e=dyn_cast<ShuffleVectorInst>(&I)){ Sh x=get(e->getOperand(0)),y=get(e->getOperand(1)); Sh r; for(int m:e->getShuffleMask()) r.push_back(m<0?Null:(m<(int)x.size()?x[m]:y[m-x.size()])); sh[&I]=r; return; }
    if(auto*b=dyn_cast<BranchInst>(&I)){ if(b->isConditional()){ Value*s=get1(b->getCondition()); IRBuilder<> B(&I); if(!isN(s)) B.CreateCall(rt("__sx_branch",VoidTy,{P,I1,I64}),{s,b->getCondition(),site()}); } 
      return; }
    if(auto*sw=dyn_cast<SwitchInst>(&I)){
      Value*s=get1(sw->getCondition()); if(isN(s)) return; IRBuilder<> B(&I);
      std::map<BasicBlock*,unsigned> ids; std::vector<uint64_t> vals; 
      for(auto&cs:sw->cases()){ unsigned id=ids.emplace(cs.getCaseSuccessor(),ids.size()).first->second; vals.push_back(cs.getCaseValue()->getZExtValue()); vals.push_back(id); }
      Constant*arr=ConstantDataArray::get(C,vals); auto*g=new GlobalVariable(M,arr->getType(),true,GlobalValue::PrivateLinkage,arr,"__sxsw");
      unsigned dflt= ids.count(sw->getDefaultDest())? ids[sw->getDefaultDest()] : ~0u;
      B.CreateCall(rt("__sx_switch",VoidTy,{P,I64,I32,P,I32,I32,I64}),{s,bits(B,sw->getCondition()),c32(width(sw->getCondition()->getType())),g,c32(vals.size()/2),c32(dflt),site()});
      return;
    }
    if(auto*r=dyn_cast<ReturnInst>(&I)){
      if(!r->getReturnValue()) return; 
      if(auto*ci=dyn_cast_or_null<CallInst>(I.getPrevNode())) if(ci->isMustTailCall()) return;
      IRBuilder<> B(&I); Sh x=get(r->getReturnValue()); for(unsigned i=0;i<x.size()&&i<64;++i) B.CreateStore(x[i],B.CreateConstGEP2_64(gRet->getValueType(),gRet,0,i));
      return;
    }
    if(auto*a=dyn_cast<AtomicRMWInst>(&I)){ IRBuilder<> B(&I); Sh out; Value*as=get1(a->getPointerOperand());
      handleLoadStoreLeaves(B,a->getPointerOperand(),a->getType(),nullptr,out,as); unsup(B,"atomic on symbolic",out); unsup(B,"atomic on symbolic",{get1(a->getValOperand())});
      return; }
    if(auto*a=dyn_cast<AtomicCmpXchgInst>(&I)){ IRBuilder<> B(&I); Sh out; handleLoadStoreLeaves(B,a->getPointerOperand(),a->getNewValOperand()->getType(),nullptr,out,get1(a->getPointerOperand())); unsup(B,"cmpxchg on symbolic",out); unsup(B,"cmpxchg",{get1(a->getCompareOperand()),get1(a->getNewValOperand())}); return; }
    if(auto*cb=dyn_cast<CallBase>(&I)){ visitCall(*cb); return; }
    if(isa<VAArgInst>(I)){ return; }
  }
  unsigned leafOffset(Type* t, ArrayRef<unsigned> idx){
    unsigned off=0; for(unsigned k:idx){ if(auto*s=dyn_cast<StructType>(t)){ for(unsigned i=0;i<k;++i) off+=nLeaves(s->getElementType(i)); t=s->getElementType(k);} else { auto*a=cast<ArrayType>(t); off+=k*nLeaves(a->getElementType()); t=a->getElementType(); } } return off; }
  unsigned opcode(unsigned o){
    switch(o){ case Instruction::Add:return 0; case Instruction::Sub:return 1; case Instruction::Mul:return 2; case Instruction::UDiv:return 3; case Instruction::SDiv:return 4; case Instruction::URem:return 5; case Instruction::SRem:return 6;
      case Instruction::And:return 7; case Instruction::Or:return 8; case Instruction::Xor:return 9; case Instruction::Shl:return 10; case Instruction::LShr:return 11; case Instruction::AShr:return 12;
      case Instruction::FAdd:return 20; case Instruction::FSub:return 21; case Instruction::FMul:return 22; case Instruction::FDiv:return 23; case Instruction::FRem:return 24; } return 99; }

  void visitIntrinsic(IntrinsicInst& I){
    IRBuilder<> B(&I);
    auto id=I.getIntrinsicID();
    auto A=[&](unsigned i){ return I.getArgOperand(i); };
    switch(id){
      case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline:
        pin(B,get1(A(0)),bits(B,A(0))); pin(B,get1(A(1)),bits(B,A(1))); pin(B,get1(A(2)),bits(B,A(2)));
        B.CreateCall(rt("__sx_copyshadow",VoidTy,{P,P,I64}),{A(0),A(1),bits(B,A(2))}); return;
      case Intrinsic::memset: case Intrinsic::memset_inline:
        pin(B,get1(A(0)),bits(B,A(0))); pin(B,get1(A(2)),bits(B,A(2)));
        B.CreateCall(rt("__sx_setshadow",VoidTy,{P,P,I64}),{A(0),get1(A(1)),bits(B,A(2))}); return;
      case Intrinsic::lifetime_start: B.CreateCall(rt("__sx_clear",VoidTy,{P,I64}),{A(1),c64(DL.getTypeAllocSize(isa<AllocaInst>(A(1))?cast<AllocaInst>(A(1))->getAllocatedType():I8))}); return;
      case Intrinsic::lifetime_end: case Intrinsic::dbg_value: case Intrinsic::dbg_declare: case Intrinsic::dbg_label: case Intrinsic::dbg_assign: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl:
      case Intrinsic::stacksave: case Intrinsic::stackrestore: case Intrinsic::eh_typeid_for: case Intrinsic::frameaddress: case Intrinsic::returnaddress: case Intrinsic::prefetch: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::donothing: case Intrinsic::var_annotation: case Intrinsic::threadlocal_address: case Intrinsic::vastart: case Intrinsic::vaend: case Intrinsic::vacopy:
        return;
      case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ptr_annotation: case Intrinsic::ssa_copy:
        sh[&I]=get(A(0)); return;
      case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: B.CreateCall(rt("__sx_trap",VoidTy,{I32}),{c32(id==Intrinsic::ubsantrap? (unsigned)cast<ConstantInt>(A(0))->getZExtValue():255)}); return;
      default: break;
    }
    bool any=false; for(auto&a:I.args()) if(!allN(get(a))) any=true;
    if(!any) return;
    Type*t=I.getType();
    unsigned mop=0; 
    switch(id){
      case Intrinsic::smax: mop=1;break; case Intrinsic::smin: mop=2;break; case Intrinsic::umax: mop=3;break; case Intrinsic::umin: mop=4;break; case Intrinsic::abs: mop=5;break;
      case Intrinsic::bswap: mop=6;break; case Intrinsic::ctpop: mop=7;break; case Intrinsic::ctlz: mop=8;break; case Intrinsic::cttz: mop=9;break; case Intrinsic::fshl: mop=10;break; case Intrinsic::fshr: mop=11;break;
      case Intrinsic::usub_sat: mop=12;break; case Intrinsic::uadd_sat: mop=13;break;
      case Intrinsic::fabs: mop=20;break; case Intrinsic::sqrt: mop=21;break; case Intrinsic::floor: mop=22;break; case Intrinsic::ceil: mop=23;break; case Intrinsic::trunc: mop=24;break; case Intrinsic::rint: case Intrinsic::nearbyint: mop=25;break; case Intrinsic::round: mop=26;break; case Intrinsic::copysign: mop=27;break; case Intrinsic::minnum: mop=28;break; case Intrinsic::maxnum: mop=29;break;
      case Intrinsic::fmuladd: mop=30;break;
      case Intrinsic::sadd_with_overflow: mop=40;break; case Intrinsic::uadd_with_overflow: mop=41;break; case Intrinsic::ssub_with_overflow: mop=42;break; case Intrinsic::usub_with_overflow: mop=43;break; case Intrinsic::smul_with_overflow: mop=44;break; case Intrinsic::umul_with_overflow: mop=45;break;
      case Intrinsic::is_constant: case Intrinsic::objectsize: return;
      case Intrinsic::is_fpclass: mop=50; break;
      default: break;
    }
    Type* at=I.arg_size()?A(0)->getType():t;
    if(mop && okScalar(at)){
      Value* z=c64(0);
      auto sv=[&](unsigned i){ return i<I.arg_size()&&okScalar(A(i)->getType())?get1(A(i)):(Value*)Null; };
      auto vv=[&](unsigned i)->Value*{ return i<I.arg_size()&&okScalar(A(i)->getType())?bits(B,A(i)):z; };
      if(mop>=40&&mop<=45){
        Value* r0=B.CreateCall(rt("__sx_intr",P,{I32,I32,P,I64,P,I64,P,I64}),{c32(mop),c32(width(at)),sv(0),vv(0),sv(1),vv(1),Null,z});
        Value* r1=B.CreateCall(rt("__sx_intr",P,{I32,I32,P,I64,P,I64,P,I64}),{c32(mop+100),c32(width(at)),sv(0),vv(0),sv(1),vv(1),Null,z});
        sh[&I]={r0,r1}; return;
      }
      sh[&I]={B.CreateCall(rt("__sx_intr",P,{I32,I32,P,I64,P,I64,P,I64}),{c32(mop),c32(width(at)),sv(0),vv(0),sv(1),vv(1),sv(2),vv(2)})}; return;
    }
    // libm-like intrinsic on a symbolic value: uninterpreted
    if(t->isDoubleTy()||t->isFloatTy()){
      std::string nm=Intrinsic::getBaseName(id).str();
      Value*s0=get1(A(0)); Value*s1=I.arg_size()>1&&okScalar(A(1)->getType())?get1(A(1)):(Value*)Null;
      (void)s0;(void)s1;
    }
    SmallVector<Value*,8> all; for(auto&a:I.args()) for(Value*v:get(a)) all.push_back(v);
    unsup(B,strdup(("intrinsic "+Intrinsic::getBaseName(id).str()).c_str()),all);
  }

  void visitCall(CallBase& cb){
    if(auto*ii=dyn_cast<IntrinsicInst>(&cb)){ visitIntrinsic(*ii); return; }
    if(cb.isInlineAsm()){ IRBuilder<> B(&cb); for(auto&a:cb.args()) unsup(B,"inline asm",get(a)); return; }
    if(Function*cf=cb.getCalledFunction()){ StringRef n=cf->getName(); if(n.starts_with("__sx_rt_")) return;
      // libm: model as uninterpreted / exact in the runtime
      static const std::set<std::string> libm1={"sin","cos","tan","asin","acos","atan","exp","log","log10","log2","cbrt","sinh","cosh","tanh","sqrt","fabs","floor","ceil","trunc","round","rint","nearbyint","sinf","cosf","sqrtf","fabsf","floorf","ceilf","tanf","expf","logf"};
      static const std::set<std::string> libm2={"atan2","pow","fmod","hypot","atan2f","powf","fmin","fmax"};
      if(cf->isDeclaration()&&(libm1.count(n.str())||libm2.count(n.str()))){
        IRBuilder<> B(&cb); Value*s0=get1(cb.getArgOperand(0)); bool two=libm2.count(n.str()); Value*s1=two?get1(cb.getArgOperand(1)):(Value*)Null;
        if(isN(s0)&&isN(s1)) return;
        sh[&cb]={B.CreateCall(rt("__sx_libm",P,{P,I32,P,I64,P,I64}),{B.CreateGlobalStringPtr(n),c32(width(cb.getType())),s0,bits(B,cb.getArgOperand(0)),s1,two?bits(B,cb.getArgOperand(1)):c64(0)})};
        return;
      }
    }
    IRBuilder<> B(&cb);
    // a symbolic callee is enumerated
    Value* callee=cb.getCalledOperand(); if(!isN(get1(callee))&&!isa<Constant>(callee)) pin(B,get1(callee),bits(B,callee));
    Function* cf=dyn_cast<Function>(callee->stripPointerCasts());
    bool maybeNative=!cf||cf->isDeclaration()||cf->isInterposable();
    // the variadic arguments of an instrumented function reach it through va_arg, without their expressions: enumerate them
    if(cb.getFunctionType()->isVarArg()&&(!cf||!cf->isDeclaration())&&!(cf&&(cf->getName().starts_with("__sx_")||cf->getName().starts_with("sx_"))))
      for(unsigned i=cb.getFunctionType()->getNumParams();i<cb.arg_size();++i){ Value*a=cb.getArgOperand(i); Sh s=get(a); for(unsigned k=0;k<s.size();++k) if(!isN(s[k])){ pin(B,s[k],leafVal(B,a,k)); } }
    // args
    unsigned slot=0; bool any=false; SmallVector<std::pair<unsigned,Value*>,8> st;
    for(unsigned i=0;i<cb.arg_size();++i){
      Value*a=cb.getArgOperand(i);
      if(cb.isByValArgument(i)){ if(slot<256) st.push_back({slot,a}); slot++; any=true; continue; }
      Sh s=get(a); for(Value*v:s){ if(slot<256) st.push_back({slot,v}); if(!isN(v)) any=true; slot++; }
    }
    bool hasPtr=false; for(auto&a:cb.args()) if(a->getType()->isPointerTy()) hasPtr=true;
    bool needAfter=maybeNative&&(any||hasPtr)&&!(cf&&cf->getName().starts_with("__sx_"));
    if(cf&&cf->getName().starts_with("sx_")) needAfter=false;
    if(any||needAfter){
      for(auto&p:st) B.CreateStore(p.second,B.CreateConstGEP2_64(gArgs->getValueType(),gArgs,0,p.first));
      B.CreateStore(callee,gCallee); B.CreateStore(c32(slot<256?slot:256),gSlots);
    } else B.CreateStore(Null,gCallee);
    unsigned nr=nLeaves(cb.getType()); if(nr>64) nr=64;
    bool must=isa<CallInst>(cb)&&cast<CallInst>(cb).isMustTailCall();
    for(unsigned i=0;i<nr;++i) B.CreateStore(Null,B.CreateConstGEP2_64(gRet->getValueType(),gRet,0,i));
    if(must) return;
    if(!nr&&!needAfter) return;
    if(auto*inv=dyn_cast<InvokeInst>(&cb)){
      BasicBlock* nb=inv->getNormalDest(); 
      BasicBlock* mid=BasicBlock::Create(C,"sxinv",F,nb);
      BranchInst::Create(nb,mid)->setDebugLoc(inv->getDebugLoc()); inv->setNormalDest(mid); nb->replacePhiUsesWith(inv->getParent(),mid);
      // caution: unwind dest could equal? (never: landing pads are distinct)
      B.SetInsertPoint(mid->getTerminator());
    } else { if(!cb.getNextNode()) return; B.SetInsertPoint(cb.getNextNode()); B.SetCurrentDebugLocation(cb.getDebugLoc()); }
    if(needAfter){
      SmallVector<Value*,6> ptrs; for(auto&a:cb.args()) if(a->getType()->isPointerTy()&&ptrs.size()<6) ptrs.push_back(a);
      Value* arr[6]; for(unsigned i=0;i<6;++i) arr[i]=i<ptrs.size()?ptrs[i]:Null;
      B.CreateCall(rt("__sx_after",VoidTy,{P,I32,P,P,P,P,P,P,P}),{callee,c32(slot),cf?(Value*)B.CreateGlobalStringPtr(cf->getName()):(Value*)Null,arr[0],arr[1],arr[2],arr[3],arr[4],arr[5]});
    }
    Sh r; for(unsigned i=0;i<nr;++i) r.push_back(B.CreateLoad(P,B.CreateConstGEP2_64(gRet->getValueType(),gRet,0,i)));
    for(unsigned i=nr;i<nLeaves(cb.getType());++i) r.push_back(Null);
    if(nr) sh[&cb]=r;
  }

  // Values the optimiser left open (undef, poison) are machine garbage that differs from run to run:
  // give them a fixed, conspicuous value, which is one of the values they may have.
  Constant* fixedValue(Type*t){
    if(t->isIntegerTy()){ unsigned w=t->getIntegerBitWidth(); return ConstantInt::get(t,APInt::getSplat(((w+7)/8)*8,APInt(8,0xA5)).trunc(w)); }
    if(t->isPointerTy()) return ConstantExpr::getIntToPtr(ConstantInt::get(I64,0xA5A5A5A5A5A5A5A5ull),t);
    if(t->isFloatTy()||t->isDoubleTy()) return ConstantFP::get(t,-1.25e-16);
    return nullptr; }
  void fixUndef(Function&f){
    for(auto&I:instructions(f)) for(Use&u:I.operands()) if(isa<UndefValue>(u.get())) if(Constant*c=fixedValue(u->getType())) u.set(c); }
  void module(){
    // locale facet ids must be the ones of libstdc++.so
    for(auto&g:M.globals()) if(!g.isDeclaration()&&g.getName().starts_with("_ZNSt")&&g.getName().ends_with("2idE")&&!g.hasLocalLinkage()){ g.setInitializer(nullptr); g.setLinkage(GlobalValue::ExternalLinkage); g.setComdat(nullptr); g.setDSOLocal(false); }
    std::vector<Function*> fs; std::vector<GlobalVariable*> gs;
    for(Function&f:M) if(!f.isDeclaration()&&!f.getName().starts_with("__sx_rt_")&&!f.hasAvailableExternallyLinkage()) fs.push_back(&f);
    for(Function&f:M) if(f.hasAvailableExternallyLinkage()) { }
    for(auto&g:M.globals()) if(!g.isDeclaration()&&!g.isThreadLocal()&&!g.getName().starts_with("llvm.")&&!g.getName().starts_with("__sx")&&!g.hasAvailableExternallyLinkage()) gs.push_back(&g);
    for(Function*f:fs){ f->removeFnAttr(Attribute::Memory); f->removeFnAttr(Attribute::NoSync); f->removeFnAttr(Attribute::WillReturn); fixUndef(*f); run(*f); }
    // strip memory attributes on declarations that turned out to be instrumented elsewhere
    for(Function&f:M){ if(!f.isIntrinsic()) { f.removeFnAttr(Attribute::Memory); for(auto&A:f.args()){ A.removeAttr(Attribute::ReadOnly); A.removeAttr(Attribute::ReadNone); A.removeAttr(Attribute::WriteOnly);} } 
      for(auto&I:instructions(f)) if(auto*cb=dyn_cast<CallBase>(&I)) if(!isa<IntrinsicInst>(cb)){ cb->removeFnAttr(Attribute::Memory); cb->removeFnAttr(Attribute::WillReturn); if(auto*ci=dyn_cast<CallInst>(cb)) if(ci->getTailCallKind()==CallInst::TCK_Tail) ci->setTailCallKind(CallInst::TCK_None);} }
    // register globals
    if(!gs.empty()){
      Function* ctor=Function::Create(FunctionType::get(VoidTy,false),GlobalValue::InternalLinkage,"__sx_rt_reg",&M);
      IRBuilder<> B(BasicBlock::Create(C,"",ctor));
      auto fc=rt("__sx_global",VoidTy,{P,I64,I32});
      for(auto*g:gs) if(g->getValueType()->isSized()) B.CreateCall(fc,{g,c64(DL.getTypeAllocSize(g->getValueType())),c32(g->isConstant())});
      B.CreateRetVoid(); appendToGlobalCtors(M,ctor,0);
    }
    // keep everything the executable defines out of the dynamic symbol table, so that
    // native libraries never bind to instrumented code
    for(Function&f:M) if(!f.isDeclaration()&&!f.hasLocalLinkage()&&!f.hasAvailableExternallyLinkage()&&f.getName()!="main") { f.setVisibility(GlobalValue::HiddenVisibility); f.setDSOLocal(true);} 
    for(auto&g:M.globals()) if(!g.isDeclaration()&&!g.hasLocalLinkage()&&!g.hasAvailableExternallyLinkage()&&!g.getName().starts_with("llvm.")) { g.setVisibility(GlobalValue::HiddenVisibility); g.setDSOLocal(true);} 
  }
};

struct SymxPass : PassInfoMixin<SymxPass> {
  PreservedAnalyses run(Module& M, ModuleAnalysisManager&){ Symx s(M); s.module(); return PreservedAnalyses::none(); }
  static bool isRequired(){ return true; }
};
}

extern "C" LLVM_ATTRIBUTE_WEAK ::llvm::PassPluginLibraryInfo llvmGetPassPluginInfo(){
  return {LLVM_PLUGIN_API_VERSION,"symx","1",[](PassBuilder& PB){
    PB.registerOptimizerLastEPCallback([](ModulePassManager& MPM, OptimizationLevel){
      ScalarizerPassOptions o; o.ScalarizeLoadStore=true; o.ScalarizeVariableInsertExtract=true;
      MPM.addPass(createModuleToFunctionPassAdaptor(ScalarizerPass(o)));
      MPM.addPass(SymxPass());
    });
    PB.registerPipelineParsingCallback([](StringRef n, ModulePassManager& MPM, ArrayRef<PassBuilder::PipelineElement>){ if(n=="symx"){ MPM.addPass(SymxPass()); return true; } return false; });
  }};
}

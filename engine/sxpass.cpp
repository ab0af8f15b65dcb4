// LLVM pass: turns every tracked (double / integer) SSA value and memory cell of a module into a
// (concrete, symbolic-handle) pair.  Handles are 32-bit ids of symbolic expressions owned by the
// runtime (sx_rt.cpp); 0 means "concrete".  Comparisons involving a handle are decided by the
// runtime (SMT), so control flow forks on them.
#include "llvm/IR/PassManager.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Module.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace llvm;

namespace {
static const unsigned MAXARGS = 64;

struct SX {
  Module &M; LLVMContext &C;
  Type *I1,*I8,*I32,*I64,*D,*V; PointerType *P;
  GlobalVariable *H,*ARGS,*RET;
  FunctionCallee fbin,fneg,ibin,icmp,fcmp,fptoi,itofp,icast,load,store,access,loadagg,conc,gepconc,memcpyF,memsetF,fun1,fun2,lost,ext,enter,ostd,istd;
  std::vector<std::string> fnames, locs; std::map<std::string,unsigned> locid;
  SX(Module &M):M(M),C(M.getContext()){
    I1=Type::getInt1Ty(C);I8=Type::getInt8Ty(C);I32=Type::getInt32Ty(C);I64=Type::getInt64Ty(C);D=Type::getDoubleTy(C);V=Type::getVoidTy(C);P=PointerType::getUnqual(C);
    auto gv=[&](const char*n,Type*t){auto*g=M.getGlobalVariable(n);if(g)return g;return new GlobalVariable(M,t,false,GlobalValue::ExternalLinkage,nullptr,n);};
    H=gv("__sx_h",I32);RET=gv("__sx_ret",I32);ARGS=gv("__sx_args",ArrayType::get(I32,MAXARGS));
    fbin=M.getOrInsertFunction("__sx_fbin",D,I32,D,D,I32,I32);
    fneg=M.getOrInsertFunction("__sx_fneg",D,D,I32);
    ibin=M.getOrInsertFunction("__sx_ibin",I64,I32,I32,I64,I64,I32,I32);
    icmp=M.getOrInsertFunction("__sx_icmp",I32,I32,I32,I64,I64,I32,I32,I32);
    fcmp=M.getOrInsertFunction("__sx_fcmp",I32,I32,D,D,I32,I32,I32);
    fptoi=M.getOrInsertFunction("__sx_fptoi",I64,I32,I32,D,I32);
    itofp=M.getOrInsertFunction("__sx_itofp",D,I32,I32,I64,I32);
    icast=M.getOrInsertFunction("__sx_icast",I64,I32,I32,I32,I64,I32);
    load=M.getOrInsertFunction("__sx_load",I32,P,I64,I32);
    store=M.getOrInsertFunction("__sx_store",V,P,I64,I32,I32);
    access=M.getOrInsertFunction("__sx_access",V,P,I64,I32,I32);
    loadagg=M.getOrInsertFunction("__sx_loadagg",V,P,I64,I32);
    conc=M.getOrInsertFunction("__sx_conc",I64,I32,I64,I32,I32);
    memcpyF=M.getOrInsertFunction("__sx_memcpy",V,P,P,I64,I32);
    memsetF=M.getOrInsertFunction("__sx_memset",V,P,I64,I32);
    fun1=M.getOrInsertFunction("__sx_fun1",D,I32,D,I32);
    fun2=M.getOrInsertFunction("__sx_fun2",D,I32,D,D,I32,I32);
    lost=M.getOrInsertFunction("__sx_lost",V,I32,I32,P);
    enter=M.getOrInsertFunction("__sx_enter",V,I32);
    ostd=M.getOrInsertFunction("__sx_ostream_double",P,P,D,I32); istd=M.getOrInsertFunction("__sx_istream_double",P,P,P,I32);
  }
  unsigned loc(Instruction*I){
    std::string s="?";
    if(auto &dl=I->getDebugLoc()){ auto*sc=dl->getScope(); std::string f=sc?dl->getFilename().str():""; auto p=f.rfind('/'); if(p!=std::string::npos)f=f.substr(p+1); s=f+":"+std::to_string(dl.getLine()); }
    auto it=locid.find(s); if(it!=locid.end())return it->second; unsigned id=locs.size(); locs.push_back(s); locid[s]=id; return id;
  }
  static bool tracked(Type*t){ if(t->isDoubleTy())return true; if(auto*i=dyn_cast<IntegerType>(t)){unsigned w=i->getBitWidth();return w==8||w==16||w==32||w==64;} return false; }
  std::map<Value*,Value*> sh; // shadows within the current function
  Value* shadow(Value*v){ auto it=sh.find(v); if(it!=sh.end())return it->second; return ConstantInt::get(I32,0); }
  static bool isZero(Value*v){ auto*c=dyn_cast<ConstantInt>(v); return c&&c->isZero(); }
  Value* toI64(IRBuilder<>&B,Value*v){ return B.CreateZExt(v,I64); }
  void setres(Instruction*I,Value*nv,Value*hs){ nv->takeName(I); I->replaceAllUsesWith(nv); sh[nv]=hs; dead.push_back(I); }
  std::vector<Instruction*> dead;
  std::map<std::string,int> f1{{"sqrt",1},{"fabs",2},{"floor",3},{"ceil",4},{"log",5},{"exp",6},{"sin",7},{"cos",8},{"tan",9},{"acos",10},{"asin",11},{"atan",12},{"log2",13},{"log10",14},{"round",15},{"trunc",16},{"cbrt",17}};
  std::map<std::string,int> f2{{"fmin",1},{"fmax",2},{"pow",3},{"atan2",4},{"fmod",5},{"hypot",6},{"copysign",7}};

  Value* concOperand(Instruction*I,Value*v,Value*hs){
    if(isZero(hs)||!v->getType()->isIntegerTy())return v;
    IRBuilder<>B(I); unsigned w=v->getType()->getIntegerBitWidth();
    Value*r=B.CreateCall(conc,{ConstantInt::get(I32,w),toI64(B,v),hs,ConstantInt::get(I32,loc(I))});
    return B.CreateTrunc(r,v->getType());
  }
  void handleCall(CallBase*CB){
    IRBuilder<>B(CB);
    if(isa<DbgInfoIntrinsic>(CB)||CB->isLifetimeStartOrEnd())return;
    Function*F=CB->getCalledFunction();
    if(auto*MC=dyn_cast<MemTransferInst>(CB)){
      Value*n=concOperand(CB,MC->getLength(),shadow(MC->getLength())); MC->setLength(n);
      IRBuilder<>B2(CB);B2.CreateCall(memcpyF,{MC->getRawDest(),MC->getRawSource(),B2.CreateZExtOrTrunc(n,I64),ConstantInt::get(I32,loc(CB))});return;
    }
    if(auto*MS=dyn_cast<MemSetInst>(CB)){
      Value*n=concOperand(CB,MS->getLength(),shadow(MS->getLength())); MS->setLength(n);
      IRBuilder<>B2(CB);B2.CreateCall(memsetF,{MS->getRawDest(),B2.CreateZExtOrTrunc(n,I64),ConstantInt::get(I32,loc(CB))});return;
    }
    std::string nm=F?F->getName().str():"";
    if(F&&F->isIntrinsic()){
      std::string base=nm; if(base.rfind("llvm.",0)==0)base=base.substr(5); auto p=base.find('.'); if(p!=std::string::npos)base=base.substr(0,p);
      if(base=="minnum"||base=="minimum")base="fmin"; if(base=="maxnum"||base=="maximum")base="fmax";
      if(CB->getType()->isDoubleTy()){
        if(base=="rint"||base=="nearbyint")base="round";
        if(f1.count(base)&&CB->arg_size()==1){ Value*r=B.CreateCall(fun1,{ConstantInt::get(I32,f1[base]),CB->getArgOperand(0),shadow(CB->getArgOperand(0))}); Value*h=B.CreateLoad(I32,H); setres(CB,r,h); return; }
        if(f2.count(base)&&CB->arg_size()==2&&CB->getArgOperand(1)->getType()->isDoubleTy()){ Value*r=B.CreateCall(fun2,{ConstantInt::get(I32,f2[base]),CB->getArgOperand(0),CB->getArgOperand(1),shadow(CB->getArgOperand(0)),shadow(CB->getArgOperand(1))}); Value*h=B.CreateLoad(I32,H); setres(CB,r,h); return; }
        if(base=="fmuladd"||base=="fma"){ Value*a=CB->getArgOperand(0),*b=CB->getArgOperand(1),*c=CB->getArgOperand(2);
          Value*m=B.CreateCall(fbin,{ConstantInt::get(I32,(int)Instruction::FMul),a,b,shadow(a),shadow(b)}); Value*hm=B.CreateLoad(I32,H);
          Value*r=B.CreateCall(fbin,{ConstantInt::get(I32,(int)Instruction::FAdd),m,c,hm,shadow(c)}); Value*h=B.CreateLoad(I32,H); setres(CB,r,h); return; }
      }
      if(CB->getType()->isIntegerTy()&&(base=="umax"||base=="umin"||base=="smax"||base=="smin")&&tracked(CB->getType())){
        Value*a=CB->getArgOperand(0),*b=CB->getArgOperand(1); unsigned w=CB->getType()->getIntegerBitWidth();
        int pr= base=="umax"?ICmpInst::ICMP_UGT: base=="umin"?ICmpInst::ICMP_ULT: base=="smax"?ICmpInst::ICMP_SGT:ICmpInst::ICMP_SLT;
        Value*c=B.CreateCall(icmp,{ConstantInt::get(I32,pr),ConstantInt::get(I32,w),toI64(B,a),toI64(B,b),shadow(a),shadow(b),ConstantInt::get(I32,loc(CB))});
        Value*cc=B.CreateTrunc(c,I1); Value*r=B.CreateSelect(cc,a,b); Value*h=B.CreateSelect(cc,shadow(a),shadow(b)); setres(CB,r,h); return; }
    }
    if(F&&!F->isIntrinsic()&&F->isDeclaration()&&CB->getType()->isDoubleTy()){
      if(f1.count(nm)&&CB->arg_size()==1){ Value*r=B.CreateCall(fun1,{ConstantInt::get(I32,f1[nm]),CB->getArgOperand(0),shadow(CB->getArgOperand(0))}); Value*h=B.CreateLoad(I32,H); setres(CB,r,h); return; }
      if(f2.count(nm)&&CB->arg_size()==2){ Value*r=B.CreateCall(fun2,{ConstantInt::get(I32,f2[nm]),CB->getArgOperand(0),CB->getArgOperand(1),shadow(CB->getArgOperand(0)),shadow(CB->getArgOperand(1))}); Value*h=B.CreateLoad(I32,H); setres(CB,r,h); return; }
    }
    // "external with sx semantics": sx_* runtime functions receive handles through __sx_args and return via __sx_ret
    bool isrt = F && (nm.rfind("sx_",0)==0 || nm.find("sx_h_")!=std::string::npos);
    if(F&&F->isDeclaration()&&!isrt){
      if(nm=="_ZNSolsEd"||nm=="_ZNSo9_M_insertIdEERSoT_"){ Value*r=B.CreateCall(ostd,{CB->getArgOperand(0),CB->getArgOperand(1),shadow(CB->getArgOperand(1))}); CB->replaceAllUsesWith(r); dead.push_back(CB); return; }
      if(nm=="_ZNSirsERd"||nm=="_ZNSi10_M_extractIdEERSiRT_"){ Value*r=B.CreateCall(istd,{CB->getArgOperand(0),CB->getArgOperand(1),ConstantInt::get(I32,loc(CB))}); CB->replaceAllUsesWith(r); dead.push_back(CB); return; }
      if((nm.rfind("_ZNSirsER",0)==0||nm.rfind("_ZNSi10_M_extract",0)==0)&&!CB->isTerminator()){ IRBuilder<>A(CB->getNextNode()); unsigned w=nm.find("ERs")!=std::string::npos||nm.find("ERt")!=std::string::npos?2:nm.find("ERi")!=std::string::npos||nm.find("ERj")!=std::string::npos?4:8; A.CreateCall(M.getOrInsertFunction("__sx_clear",Type::getVoidTy(M.getContext()),PointerType::get(M.getContext(),0),I32),{CB->getArgOperand(1),ConstantInt::get(I32,w)}); return; }
      bool os = nm.find("_ZNSo")==0||nm.find("_ZStls")==0;
      Value*nmv=nullptr;
      for(unsigned i=0;i<CB->arg_size();i++){
        Value*a=CB->getArgOperand(i); Value*hs=shadow(a); if(isZero(hs))continue;
        if(a->getType()->isIntegerTy()&&!os){ if(isa<Constant>(a))continue; bool imm=F->isIntrinsic()&&CB->paramHasAttr(i,Attribute::ImmArg); if(!imm)CB->setArgOperand(i,concOperand(CB,a,hs)); }
        else if(!os){ IRBuilder<>B2(CB); if(!nmv)nmv=B2.CreateGlobalStringPtr(nm); B2.CreateCall(lost,{hs,ConstantInt::get(I32,loc(CB)),nmv}); }
      }
      return;
    }
    // instrumented / indirect / runtime callee
    for(unsigned i=0;i<CB->arg_size()&&i<MAXARGS;i++){
      Value*a=CB->getArgOperand(i); if(!tracked(a->getType()))continue;
      B.CreateStore(shadow(a),B.CreateConstInBoundsGEP2_32(ARGS->getValueType(),ARGS,0,i));
    }
    B.CreateStore(ConstantInt::get(I32,0),RET);
    if(tracked(CB->getType())&&!CB->isTerminator()){ IRBuilder<>A(CB->getNextNode()); sh[CB]=A.CreateLoad(I32,RET); }
  }
  void run(Function&F){
    sh.clear(); dead.clear();
    std::vector<Instruction*> insts; std::vector<PHINode*> phis;
    // RPO order so that operands are visited before uses (phis handled separately)
    std::vector<BasicBlock*> order; {
      std::set<BasicBlock*> seen; std::vector<std::pair<BasicBlock*,unsigned>> st; st.push_back({&F.getEntryBlock(),0}); seen.insert(&F.getEntryBlock());
      std::vector<BasicBlock*> post;
      while(!st.empty()){ auto &t=st.back(); auto*term=t.first->getTerminator(); if(t.second<term->getNumSuccessors()){ BasicBlock*s=term->getSuccessor(t.second++); if(seen.insert(s).second)st.push_back({s,0}); } else { post.push_back(t.first); st.pop_back(); } }
      order.assign(post.rbegin(),post.rend()); }
    for(auto*BB:order)for(auto&I:*BB){ insts.push_back(&I); }
    for(auto*I:insts)if(auto*Ph=dyn_cast<PHINode>(I))if(tracked(Ph->getType())){ IRBuilder<>B(Ph); sh[Ph]=B.CreatePHI(I32,Ph->getNumIncomingValues()); phis.push_back(Ph);}    
    { IRBuilder<>B(&*F.getEntryBlock().getFirstInsertionPt()); unsigned i=0;
      unsigned id=fnames.size(); fnames.push_back(F.getName().str());
      B.CreateCall(enter,{ConstantInt::get(I32,id)});
      for(auto&A:F.args()){ if(tracked(A.getType())&&i<MAXARGS){ sh[&A]=B.CreateLoad(I32,B.CreateConstInBoundsGEP2_32(ARGS->getValueType(),ARGS,0,i)); } i++; } 
      if(F.getName()=="main"){ for(auto&A:F.args())sh.erase(&A);} }
    const DataLayout&DL=M.getDataLayout();
    for(auto*I:insts){
      if(isa<PHINode>(I))continue;
      IRBuilder<>B(I);
      if(auto*BO=dyn_cast<BinaryOperator>(I)){
        Value*a=BO->getOperand(0),*b=BO->getOperand(1);Value*ha=shadow(a),*hb=shadow(b);
        if(isZero(ha)&&isZero(hb))continue;
        if(BO->getType()->isDoubleTy()){ Value*r=B.CreateCall(fbin,{ConstantInt::get(I32,BO->getOpcode()),a,b,ha,hb}); Value*h=B.CreateLoad(I32,H); setres(BO,r,h);}        
        else if(tracked(BO->getType())){ unsigned w=BO->getType()->getIntegerBitWidth(); Value*r=B.CreateCall(ibin,{ConstantInt::get(I32,BO->getOpcode()),ConstantInt::get(I32,w),toI64(B,a),toI64(B,b),ha,hb}); Value*h=B.CreateLoad(I32,H); Value*t=B.CreateTrunc(r,BO->getType()); setres(BO,t,h);}        
      } else if(auto*U=dyn_cast<UnaryOperator>(I)){
        Value*a=U->getOperand(0); if(isZero(shadow(a))||!U->getType()->isDoubleTy())continue; Value*r=B.CreateCall(fneg,{a,shadow(a)});Value*h=B.CreateLoad(I32,H);setres(U,r,h);
      } else if(auto*IC=dyn_cast<ICmpInst>(I)){
        Value*a=IC->getOperand(0),*b=IC->getOperand(1); if(!tracked(a->getType()))continue; Value*ha=shadow(a),*hb=shadow(b); if(isZero(ha)&&isZero(hb))continue;
        unsigned w=a->getType()->getIntegerBitWidth(); Value*r=B.CreateCall(icmp,{ConstantInt::get(I32,IC->getPredicate()),ConstantInt::get(I32,w),toI64(B,a),toI64(B,b),ha,hb,ConstantInt::get(I32,loc(I))}); Value*t=B.CreateTrunc(r,I1); t->takeName(I); I->replaceAllUsesWith(t); dead.push_back(I);
      } else if(auto*FC=dyn_cast<FCmpInst>(I)){
        Value*a=FC->getOperand(0),*b=FC->getOperand(1); if(!a->getType()->isDoubleTy())continue; Value*ha=shadow(a),*hb=shadow(b); if(isZero(ha)&&isZero(hb))continue;
        Value*r=B.CreateCall(fcmp,{ConstantInt::get(I32,FC->getPredicate()),a,b,ha,hb,ConstantInt::get(I32,loc(I))}); Value*t=B.CreateTrunc(r,I1); t->takeName(I); I->replaceAllUsesWith(t); dead.push_back(I);
      } else if(auto*CI=dyn_cast<CastInst>(I)){
        Value*a=CI->getOperand(0);Value*ha=shadow(a); if(isZero(ha))continue; auto op=CI->getOpcode();
        switch(op){
          case Instruction::FPToSI: case Instruction::FPToUI: if(tracked(CI->getType())&&a->getType()->isDoubleTy()){ Value*r=B.CreateCall(fptoi,{ConstantInt::get(I32,op==Instruction::FPToSI),ConstantInt::get(I32,CI->getType()->getIntegerBitWidth()),a,ha}); Value*h=B.CreateLoad(I32,H); Value*t=B.CreateTrunc(r,CI->getType()); setres(CI,t,h);} else B.CreateCall(lost,{ha,ConstantInt::get(I32,loc(I)),B.CreateGlobalStringPtr("fptoi")}); break;
          case Instruction::SIToFP: case Instruction::UIToFP: if(CI->getType()->isDoubleTy()){ Value*x= toI64(B,a); Value*r=B.CreateCall(itofp,{ConstantInt::get(I32,op==Instruction::SIToFP),ConstantInt::get(I32,a->getType()->getIntegerBitWidth()),x,ha}); Value*h=B.CreateLoad(I32,H); setres(CI,r,h);} else B.CreateCall(lost,{ha,ConstantInt::get(I32,loc(I)),B.CreateGlobalStringPtr("itof")}); break;
          case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: 
            if(tracked(CI->getType())){ Value*r=B.CreateCall(icast,{ConstantInt::get(I32,op==Instruction::SExt?1:op==Instruction::ZExt?0:2),ConstantInt::get(I32,a->getType()->getIntegerBitWidth()),ConstantInt::get(I32,CI->getType()->getIntegerBitWidth()),toI64(B,a),ha}); Value*h=B.CreateLoad(I32,H); Value*t=B.CreateTrunc(r,CI->getType()); setres(CI,t,h); }
            else { CI->setOperand(0,concOperand(CI,a,ha)); } break;
          case Instruction::IntToPtr: CI->setOperand(0,concOperand(CI,a,ha)); break;
          default: B.CreateCall(lost,{ha,ConstantInt::get(I32,loc(I)),B.CreateGlobalStringPtr("cast")});
        }
      } else if(auto*L=dyn_cast<LoadInst>(I)){
        uint64_t sz=DL.getTypeStoreSize(L->getType()); Value*szv=ConstantInt::get(I64,sz);
        if(tracked(L->getType())){ Value*h=B.CreateCall(load,{L->getPointerOperand(),szv,ConstantInt::get(I32,loc(I))}); sh[L]=h; }
        else { B.CreateCall(access,{L->getPointerOperand(),szv,ConstantInt::get(I32,0),ConstantInt::get(I32,loc(I))}); if(!L->getType()->isPointerTy()) B.CreateCall(loadagg,{L->getPointerOperand(),szv,ConstantInt::get(I32,loc(I))}); }
      } else if(auto*S=dyn_cast<StoreInst>(I)){
        Value*v=S->getValueOperand(); uint64_t sz=DL.getTypeStoreSize(v->getType());
        B.CreateCall(store,{S->getPointerOperand(),ConstantInt::get(I64,sz),shadow(v),ConstantInt::get(I32,loc(I))});
      } else if(auto*Se=dyn_cast<SelectInst>(I)){
        if(!tracked(Se->getType()))continue; Value*ha=shadow(Se->getTrueValue()),*hb=shadow(Se->getFalseValue()); if(isZero(ha)&&isZero(hb))continue; if(!Se->getCondition()->getType()->isIntegerTy(1))continue;
        IRBuilder<>A(Se->getNextNode()); sh[Se]=A.CreateSelect(Se->getCondition(),ha,hb);
      } else if(auto*G=dyn_cast<GetElementPtrInst>(I)){
        for(auto it=G->idx_begin();it!=G->idx_end();++it){ Value*v=*it; Value*hs=shadow(v); if(!isZero(hs))it->set(concOperand(G,v,hs)); }
      } else if(auto*Sw=dyn_cast<SwitchInst>(I)){
        Value*hs=shadow(Sw->getCondition()); if(!isZero(hs))Sw->setCondition(concOperand(Sw,Sw->getCondition(),hs));
      } else if(auto*AI=dyn_cast<AllocaInst>(I)){
        Value*hs=shadow(AI->getArraySize()); if(!isZero(hs))AI->setOperand(0,concOperand(AI,AI->getArraySize(),hs));
      } else if(auto*IV=dyn_cast<InsertValueInst>(I)){
        Value*hs=shadow(IV->getInsertedValueOperand()); if(!isZero(hs))B.CreateCall(lost,{hs,ConstantInt::get(I32,loc(I)),B.CreateGlobalStringPtr("insertvalue")});
      } else if(auto*CB=dyn_cast<CallBase>(I)){ handleCall(CB);
      } else if(auto*R=dyn_cast<ReturnInst>(I)){
        if(R->getReturnValue()){ if(tracked(R->getReturnValue()->getType()))B.CreateStore(shadow(R->getReturnValue()),RET); }
      } else if(auto*AR=dyn_cast<AtomicRMWInst>(I)){ B.CreateCall(access,{AR->getPointerOperand(),ConstantInt::get(I64,DL.getTypeStoreSize(AR->getType())),ConstantInt::get(I32,2),ConstantInt::get(I32,loc(I))});
      } else if(auto*FZ=dyn_cast<FreezeInst>(I)){ if(tracked(FZ->getType()))sh[FZ]=shadow(FZ->getOperand(0)); }
    }
    // phi operands: values may have been replaced (RAUW) - the phi itself was updated by RAUW
    for(auto*Ph:phis){ auto*SP=cast<PHINode>(sh[Ph]); for(unsigned i=0;i<Ph->getNumIncomingValues();i++)SP->addIncoming(shadow(Ph->getIncomingValue(i)),Ph->getIncomingBlock(i)); }
    for(auto*I:dead)I->eraseFromParent();
  }
  void tables(){
    auto mk=[&](const char*name,std::vector<std::string>&v){ std::vector<Constant*> cs; for(auto&s:v){ auto*d=ConstantDataArray::getString(C,s); auto*g=new GlobalVariable(M,d->getType(),true,GlobalValue::PrivateLinkage,d); cs.push_back(g);} auto*AT=ArrayType::get(P,cs.size()); new GlobalVariable(M,AT,true,GlobalValue::ExternalLinkage,ConstantArray::get(AT,cs),name); new GlobalVariable(M,I32,true,GlobalValue::ExternalLinkage,ConstantInt::get(I32,cs.size()),std::string(name)+"_n"); };
    mk("__sx_fnames",fnames); mk("__sx_locs",locs);
  }
};
struct SxPass:PassInfoMixin<SxPass>{
  PreservedAnalyses run(Module&M,ModuleAnalysisManager&){
    static const char* ren[][2]={{"_Znwm","__sx_new"},{"_Znam","__sx_new"},{"_ZdlPv","__sx_delete"},{"_ZdaPv","__sx_delete"},{"_ZdlPvm","__sx_delete"},{"_ZdaPvm","__sx_delete"},{"malloc","__sx_malloc"},{"free","__sx_free"},{"_ZnwmRKSt9nothrow_t","__sx_new"},{"_ZnamRKSt9nothrow_t","__sx_new"},{"memchr","__sx_memchr"},{"memcmp","__sx_memcmp"},{"strlen","__sx_strlen"}};
    for(auto&r:ren)if(auto*F=M.getFunction(r[0]))if(F->isDeclaration()){ auto*G=M.getFunction(r[1]); if(!G)G=Function::Create(F->getFunctionType(),GlobalValue::ExternalLinkage,r[1],M); F->replaceAllUsesWith(G); }
    SX s(M); std::vector<Function*> fs; for(auto&F:M)if(!F.isDeclaration()&&!F.getName().starts_with("__sx_"))fs.push_back(&F);
    for(auto*F:fs)s.run(*F);
    s.tables(); return PreservedAnalyses::none(); }
  static bool isRequired(){return true;}
};
}
extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo(){
  return {LLVM_PLUGIN_API_VERSION,"sx","1",[](PassBuilder&PB){ PB.registerPipelineParsingCallback([](StringRef N,ModulePassManager&MPM,ArrayRef<PassBuilder::PipelineElement>){ if(N=="sx"){MPM.addPass(SxPass());return true;} return false; }); }};
}

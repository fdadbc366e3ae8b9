// LLVM-18 pass plugin: rewrites a module so that every scalar value carries a symbolic "shadow" expression.
// The concrete program keeps running natively; branches, indices, sizes and divisors whose shadow is
// symbolic are decided by the runtime (engine/rt.cpp), which asks the solver which outcomes are feasible.
#include "llvm/IR/Module.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/PassManager.h"
#include "llvm/IR/CFG.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/ADT/StringSwitch.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/ModuleUtils.h"
#include <set>
#include <map>
#include <vector>
using namespace llvm;

namespace {

struct SX {
  Module &M; LLVMContext &C; const DataLayout &DL;
  Type *P, *I64, *I32, *I1, *V, *DBL;
  FunctionCallee fLoad,fStore,fBin,fIcmp,fFcmp,fFbin,fBranch,fConc,fSelCond,fSelSh,fCast,fMemcpy,fMemset,
    fClear,fRetGet,fSafeDiv,fIntr,fUnsup,fCopyByval,fChk,fEnter;
  GlobalVariable *gArgp,*gArgs,*gCallee,*gRet,*gRetTag;
  std::map<std::string,Constant*> strs;
  SX(Module&m):M(m),C(m.getContext()),DL(m.getDataLayout()){
    P=PointerType::getUnqual(C); I64=Type::getInt64Ty(C); I32=Type::getInt32Ty(C); I1=Type::getInt1Ty(C); V=Type::getVoidTy(C); DBL=Type::getDoubleTy(C);
    fLoad=M.getOrInsertFunction("__sx_load",P,P,I32);
    fStore=M.getOrInsertFunction("__sx_store",V,P,I32,P);
    fBin=M.getOrInsertFunction("__sx_bin",P,I32,I32,I32,P,I64,P,I64);
    fIcmp=M.getOrInsertFunction("__sx_icmp",P,I32,I32,P,I64,P,I64);
    fFcmp=M.getOrInsertFunction("__sx_fcmp",P,I32,P,DBL,P,DBL);
    fFbin=M.getOrInsertFunction("__sx_fbin",P,I32,P,DBL,P,DBL);
    fBranch=M.getOrInsertFunction("__sx_branch",I1,P,I1,P);
    fConc=M.getOrInsertFunction("__sx_conc",I64,P,I64,I32,P);
    fSelCond=M.getOrInsertFunction("__sx_selcond",I1,P,I1,I32,P);
    fSelSh=M.getOrInsertFunction("__sx_selsh",P,P,I1,P,I64,P,I64,I32,I32);
    fCast=M.getOrInsertFunction("__sx_cast",P,I32,P,I32,I32);
    fMemcpy=M.getOrInsertFunction("__sx_memcpy",V,P,P,I64);
    fMemset=M.getOrInsertFunction("__sx_memset",V,P,P,I64);
    fClear=M.getOrInsertFunction("__sx_clear",V,P,I64);
    fRetGet=M.getOrInsertFunction("__sx_ret_get",V,P,I32,P,I32);
    fSafeDiv=M.getOrInsertFunction("__sx_safediv",I64,P,I64);
    fIntr=M.getOrInsertFunction("__sx_intr",P,P,I32,P,I64,P,I64,P,I64);
    fUnsup=M.getOrInsertFunction("__sx_unsup",V,P,P);
    fCopyByval=M.getOrInsertFunction("__sx_byval",V,P,P,I64);
    fChk=M.getOrInsertFunction("__sx_chk",V,P,I64,P);
    fEnter=M.getOrInsertFunction("__sx_enter",V,P);
    auto gv=[&](const char*n,Type*t){ auto*g=M.getNamedGlobal(n); if(!g) g=new GlobalVariable(M,t,false,GlobalValue::ExternalLinkage,nullptr,n); return g;};
    gArgp=gv("__sx_argp",ArrayType::get(P,64)); gArgs=gv("__sx_args",ArrayType::get(P,64)); gCallee=gv("__sx_callee",P); gRet=gv("__sx_ret",ArrayType::get(P,64)); gRetTag=gv("__sx_rettag",P);
  }
  Constant* str(StringRef s){ auto&r=strs[s.str()]; if(!r){ IRBuilder<> b(C); auto*init=ConstantDataArray::getString(C,s); auto*g=new GlobalVariable(M,init->getType(),true,GlobalValue::PrivateLinkage,init,"sxs"); r=g;} return r; }
  Type* shTy(Type*t){
    if(auto*s=dyn_cast<StructType>(t)){ std::vector<Type*> e; for(auto*x:s->elements()) e.push_back(shTy(x)); return StructType::get(C,e); }
    if(auto*a=dyn_cast<ArrayType>(t)) return ArrayType::get(shTy(a->getElementType()),a->getNumElements());
    if(auto*v=dyn_cast<FixedVectorType>(t)) return ArrayType::get(P,v->getNumElements());
    return P;
  }
  static bool isAgg(Type*t){ return t->isStructTy()||t->isArrayTy()||t->isVectorTy(); }
  bool okScalar(Type*t){ if(t->isDoubleTy()||t->isFloatTy()) return true; if(auto*i=dyn_cast<IntegerType>(t)) return i->getBitWidth()<=64; return false; }
  unsigned slots(Type*t){ if(auto*s=dyn_cast<StructType>(t)){unsigned n=0;for(auto*x:s->elements())n+=slots(x);return n;} if(auto*a=dyn_cast<ArrayType>(t)) return slots(a->getElementType())*a->getNumElements(); if(auto*v=dyn_cast<FixedVectorType>(t)) return v->getNumElements(); return 1; }

  // per function
  DenseMap<Value*,Value*> S;
  Function*F=nullptr;
  std::map<Value*,Value*> PS;
  Value* sh(Value*v){ auto it=S.find(v); if(it!=S.end()) return it->second; return Constant::getNullValue(shTy(v->getType())); }
  bool nul(Value*s){ auto*c=dyn_cast<Constant>(s); return c&&c->isNullValue(); }
  Value* asI64(IRBuilder<>&b,Value*v){
    Type*t=v->getType();
    if(t->isDoubleTy()) return b.CreateBitCast(v,I64);
    if(t->isFloatTy()) return b.CreateBitCast(b.CreateFPExt(v,DBL),I64);
    if(t->isPointerTy()) return b.CreatePtrToInt(v,I64);
    if(auto*i=dyn_cast<IntegerType>(t)){ if(i->getBitWidth()<64) return b.CreateZExt(v,I64); if(i->getBitWidth()==64) return v; return b.CreateTrunc(v,I64);}
    return ConstantInt::get(I64,0);
  }
  Value* asD(IRBuilder<>&b,Value*v){ if(v->getType()->isDoubleTy()) return v; if(v->getType()->isFloatTy()) return b.CreateFPExt(v,DBL); return b.CreateFPTrunc(v,DBL); }
  Constant* one(){ return ConstantExpr::getIntToPtr(ConstantInt::get(I64,1),P); }
  Value* c32(int x){ return ConstantInt::get(I32,x); }
  Value* c64(uint64_t x){ return ConstantInt::get(I64,x); }
  // kind code: 0 int, 1 double, 2 float, 3 other
  int castCode(unsigned op){ switch(op){ case Instruction::Trunc:return 1; case Instruction::ZExt:return 2; case Instruction::SExt:return 3; case Instruction::FPToUI:return 4; case Instruction::FPToSI:return 5; case Instruction::UIToFP:return 6; case Instruction::SIToFP:return 7; case Instruction::FPTrunc:return 8; case Instruction::FPExt:return 9; case Instruction::BitCast:return 10; default:return 99; } }
  int opCode(unsigned op){ switch(op){ case Instruction::Add: case Instruction::FAdd: return 1; case Instruction::Sub: case Instruction::FSub: return 2; case Instruction::Mul: case Instruction::FMul: return 3; case Instruction::UDiv:return 4; case Instruction::SDiv: case Instruction::FDiv: return 5; case Instruction::URem:return 6; case Instruction::SRem: case Instruction::FRem:return 7; case Instruction::Shl:return 8; case Instruction::LShr:return 9; case Instruction::AShr:return 10; case Instruction::And:return 11; case Instruction::Or:return 12; case Instruction::Xor:return 13; default:return 99; } }
  int kind(Type*t){ if(t->isIntegerTy()&&t->getIntegerBitWidth()<=64) return 0; if(t->isDoubleTy()) return 1; if(t->isFloatTy()) return 2; return 3; }
  int width(Type*t){ if(t->isIntegerTy()) return t->getIntegerBitWidth(); return DL.getTypeSizeInBits(t); }
  std::string where(Instruction*I){ return (F->getName()).str(); }

  Value* loadSh(IRBuilder<>&b,Type*t,Value*addr){
    if(auto*s=dyn_cast<StructType>(t)){ Value*r=Constant::getNullValue(shTy(t)); auto*L=DL.getStructLayout(s); for(unsigned i=0;i<s->getNumElements();i++){ r=b.CreateInsertValue(r,loadSh(b,s->getElementType(i),b.CreatePtrAdd(addr,c64(L->getElementOffset(i)))),i);} return r; }
    if(auto*a=dyn_cast<ArrayType>(t)){ Value*r=Constant::getNullValue(shTy(t)); uint64_t sz=DL.getTypeAllocSize(a->getElementType()); for(unsigned i=0;i<a->getNumElements();i++) r=b.CreateInsertValue(r,loadSh(b,a->getElementType(),b.CreatePtrAdd(addr,c64(i*sz))),i); return r; }
    if(auto*v=dyn_cast<FixedVectorType>(t)){ Value*r=Constant::getNullValue(shTy(t)); if(v->getScalarSizeInBits()%8){ b.CreateCall(fChk,{addr,c64(DL.getTypeStoreSize(t)),str("vec load")}); return r;} uint64_t sz=DL.getTypeStoreSize(v->getElementType()); for(unsigned i=0;i<v->getNumElements();i++) r=b.CreateInsertValue(r,loadSh(b,v->getElementType(),b.CreatePtrAdd(addr,c64(i*sz))),i); return r; }
    if(okScalar(t)) return b.CreateCall(fLoad,{addr,c32(DL.getTypeStoreSize(t))});
    if(t->isPointerTy()) return Constant::getNullValue(P);
    b.CreateCall(fChk,{addr,c64(DL.getTypeStoreSize(t)),str("odd-typed load")});
    return Constant::getNullValue(P);
  }
  void storeSh(IRBuilder<>&b,Type*t,Value*addr,Value*s){
    if(nul(s)){ b.CreateCall(fClear,{addr,c64(DL.getTypeStoreSize(t))}); return; }
    if(auto*st=dyn_cast<StructType>(t)){ auto*L=DL.getStructLayout(st); for(unsigned i=0;i<st->getNumElements();i++) storeSh(b,st->getElementType(i),b.CreatePtrAdd(addr,c64(L->getElementOffset(i))),b.CreateExtractValue(s,i)); return; }
    if(auto*a=dyn_cast<ArrayType>(t)){ uint64_t sz=DL.getTypeAllocSize(a->getElementType()); for(unsigned i=0;i<a->getNumElements();i++) storeSh(b,a->getElementType(),b.CreatePtrAdd(addr,c64(i*sz)),b.CreateExtractValue(s,i)); return; }
    if(auto*v=dyn_cast<FixedVectorType>(t)){ uint64_t sz=DL.getTypeStoreSize(v->getElementType()); for(unsigned i=0;i<v->getNumElements();i++) storeSh(b,v->getElementType(),b.CreatePtrAdd(addr,c64(i*sz)),b.CreateExtractValue(s,i)); return; }
    b.CreateCall(fStore,{addr,c32(DL.getTypeStoreSize(t)),s});
  }
  Value* concInt(IRBuilder<>&b,Value*v){ // replace possibly symbolic int by a decided concrete one
    Value*s=sh(v); if(nul(s)||!v->getType()->isIntegerTy()||v->getType()->getIntegerBitWidth()>64) return v;
    Value*r=b.CreateCall(fConc,{s,asI64(b,v),c32(width(v->getType())),str(F->getName())});
    return b.CreateZExtOrTrunc(r,v->getType());
  }
  void unsup(IRBuilder<>&b,Value*s,StringRef what){ if(isAgg(s->getType())||nul(s)) return; b.CreateCall(fUnsup,{s,str(what)}); }

  Value* scalarOp(IRBuilder<>&b,Instruction&I,Value*a,Value*sa,Value*c,Value*sc,unsigned op){
    if(nul(sa)&&nul(sc)) return Constant::getNullValue(P);
    Type*t=a->getType();
    if(t->isFloatingPointTy()) return b.CreateCall(fFbin,{c32(opCode(op)),sa,asD(b,a),sc,asD(b,c)});
    if(t->isIntegerTy()&&t->getIntegerBitWidth()<=64){
      unsigned fl=0; if(auto*o=dyn_cast<OverflowingBinaryOperator>(&I)){ if(o->hasNoSignedWrap()) fl|=1; if(o->hasNoUnsignedWrap()) fl|=2; }
      return b.CreateCall(fBin,{c32(opCode(op)),c32(width(t)),c32(fl),sa,asI64(b,a),sc,asI64(b,c)});
    }
    unsup(b,sa,"wide int op"); unsup(b,sc,"wide int op"); return Constant::getNullValue(P);
  }

  void callSite(CallBase*cb){
    Function*callee=cb->getCalledFunction();
    IRBuilder<> b(cb);
    if(callee&&callee->isIntrinsic()){ intrinsic(cb,callee); return; }
    if(cb->isInlineAsm()){ for(auto&a:cb->args()) unsup(b,sh(a),"inline asm"); return; }
    if(callee&&callee->getName().starts_with("__sx_")) return;
    if(auto*ci=dyn_cast<CallInst>(cb)) if(!ci->isMustTailCall()) ci->setTailCallKind(CallInst::TCK_None);
    if(callee&&callee->isDeclaration()){ static const char*conc[]={"_ZSt29_Rb_tree","_Znwm","_Znam","_ZdlPvm","_ZdaPvm","_ZNKSt8__detail20_Prime_rehash_policy","__cxa_allocate_exception"};
      for(auto*c:conc) if(callee->getName().starts_with(c)) for(unsigned i=0;i<cb->arg_size();i++){ Value*o=cb->getArgOperand(i); Value*n=concInt(b,o); if(n!=o){ cb->setArgOperand(i,n); } } }
    bool ext=!callee||callee->isDeclaration();
    // argument shadows
    unsigned n=cb->arg_size(), slot=0; bool any=false;
    for(unsigned i=0;i<n;i++){
      Value*a=cb->getArgOperand(i); Value*s;
      if(cb->isByValArgument(i)) s=a; else s=sh(a);
      unsigned k=slots(a->getType()); if(slot+k>64) break;
      Value*addr=b.CreateConstInBoundsGEP1_64(P,gArgs,slot);
      b.CreateStore(s,addr);
      if(ext&&k==1) b.CreateStore(a->getType()->isPointerTy()?a:(Value*)Constant::getNullValue(P),b.CreateConstInBoundsGEP1_64(P,gArgp,slot));
      if(!nul(s)&&!cb->isByValArgument(i)) any=true;
      slot+=k;
    }
    Value*target=cb->getCalledOperand();
    b.CreateStore(target,gCallee); b.CreateStore(Constant::getNullValue(P),gRetTag);
    // after the call
    Instruction*ip=nullptr;
    if(auto*inv=dyn_cast<InvokeInst>(cb)){
      BasicBlock*nd=inv->getNormalDest();
      // always split so that the code runs only on this edge
      BasicBlock*nb=BasicBlock::Create(C,"sx.cont",F,nd);
      BranchInst::Create(nd,nb); inv->setNormalDest(nb);
      for(PHINode&p:nd->phis()){ int ix=p.getBasicBlockIndex(inv->getParent()); if(ix>=0) p.setIncomingBlock(ix,nb); }
      fixPhi[{inv->getParent(),nd}]=nb;
      ip=nb->getTerminator();
    } else if(auto*ci=dyn_cast<CallInst>(cb)){ if(ci->isMustTailCall()) return; ip=cb->getNextNode(); }
    else return;
    IRBuilder<> r(ip);
    Type*rt=cb->getType();
    StringRef nm=callee?callee->getName():"<indirect>";
    if(cb->doesNotReturn()) return;
    r.CreateCall(fRetGet,{target,c32(ext?slot:0),str(nm),c32(any)});
    if(rt->isVoidTy()) return;
    if(rt->isPointerTy()) return;
    unsigned k=slots(rt); if(k>64) return;
    S[cb]=r.CreateLoad(shTy(rt),gRet);
  }
  std::map<std::pair<BasicBlock*,BasicBlock*>,BasicBlock*> fixPhi;

  void intrinsic(CallBase*cb,Function*f){
    IRBuilder<> b(cb); IRBuilder<> a(cb->getNextNode()?cb->getNextNode():cb);
    switch(f->getIntrinsicID()){
      case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline:{
        Value*n=concInt(b,cb->getArgOperand(2)); cb->setArgOperand(2,n);
        b.CreateCall(fMemcpy,{cb->getArgOperand(0),cb->getArgOperand(1),b.CreateZExtOrTrunc(n,I64)}); return; }
      case Intrinsic::memset: case Intrinsic::memset_inline:{
        Value*n=concInt(b,cb->getArgOperand(2)); cb->setArgOperand(2,n);
        b.CreateCall(fMemset,{cb->getArgOperand(0),sh(cb->getArgOperand(1)),b.CreateZExtOrTrunc(n,I64)}); return; }
      case Intrinsic::lifetime_start: { // fresh stack object
        int64_t n=cast<ConstantInt>(cb->getArgOperand(0))->getSExtValue(); if(n>0) b.CreateCall(fClear,{cb->getArgOperand(1),c64(n)}); return; }
      case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::assume: case Intrinsic::invariant_start: case Intrinsic::invariant_end:
      case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::stacksave: case Intrinsic::stackrestore: case Intrinsic::trap: case Intrinsic::eh_typeid_for: case Intrinsic::vastart: case Intrinsic::vaend: case Intrinsic::prefetch: case Intrinsic::donothing: return;
      case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: return;
      default: break;
    }
    bool any=false; for(auto&x:cb->args()){ Value*s=sh(x); if(!nul(s)) any=true; }
    if(!any) return;
    if(f->getIntrinsicID()==Intrinsic::expect||f->getIntrinsicID()==Intrinsic::ssa_copy){ S[cb]=sh(cb->getArgOperand(0)); return; }
    Type*rt=cb->getType();
    unsigned n=cb->arg_size(); if(n>3) n=3;
    bool scal=true; for(unsigned i=0;i<n;i++) if(isAgg(cb->getArgOperand(i)->getType())) scal=false;
    if(!scal||cb->arg_size()>3){ for(auto&x:cb->args()) unsup(b,sh(x),("intrinsic "+f->getName()).str()); if(!scal) b.CreateCall(fUnsup,{one(),str(("vector intrinsic "+f->getName()).str())}); return; }
    Value*ss[3],*vv[3]; for(int i=0;i<3;i++){ if(i<(int)n){ ss[i]=sh(cb->getArgOperand(i)); vv[i]=asI64(b,cb->getArgOperand(i)); } else { ss[i]=Constant::getNullValue(P); vv[i]=c64(0);} }
    std::string base=f->getName().str();
    Type*t0=cb->getArgOperand(0)->getType();
    Value*r=b.CreateCall(fIntr,{str(base),c32(width(t0)),ss[0],vv[0],ss[1],vv[1],ss[2],vv[2]});
    if(rt->isVoidTy()) return;
    if(rt->isStructTy()){ // with.overflow: {T,i1}; the runtime rules out (or forks away) overflow
      Value*agg=Constant::getNullValue(shTy(rt)); agg=b.CreateInsertValue(agg,r,0); S[cb]=agg;
      IRBuilder<> c2(cb->getNextNode());
      Value*flag=c2.CreateExtractValue(cb,1); Value*isn=c2.CreateIsNull(r);
      Value*nf=c2.CreateAnd(flag,isn); Value*upd=c2.CreateInsertValue(cb,nf,1);
      cb->replaceUsesWithIf(upd,[&](Use&u){ return u.getUser()!=flag&&u.getUser()!=upd; });
      S[upd]=agg; return; }
    S[cb]=r;
  }

  void run(Function&fn){
    F=&fn; S.clear(); PS.clear(); fixPhi.clear();
    // no memory-effect promises survive instrumentation
    std::vector<BasicBlock*> order; { llvm::ReversePostOrderTraversal<Function*> rpo(F); for(auto*b:rpo) order.push_back(b); }
    std::vector<PHINode*> phis; std::vector<Instruction*> ins;
    for(auto*bb:order) for(auto&I:*bb){ if(auto*p=dyn_cast<PHINode>(&I)) phis.push_back(p); else ins.push_back(&I); }
    // entry
    { IRBuilder<> b(&*F->getEntryBlock().getFirstInsertionPt());
      // static allocas first
      Instruction*ip=&*F->getEntryBlock().getFirstInsertionPt();
      while(isa<AllocaInst>(ip)) ip=ip->getNextNode();
      b.SetInsertPoint(ip);
      bool need=false; unsigned slot=0;
      for(auto&a:F->args()) (void)a,need=true;
      if(need){
        b.CreateCall(fEnter,{F});   // zeroes the argument shadows unless the caller was instrumented
        for(auto&a:F->args()){ unsigned k=slots(a.getType()); if(slot+k>64) break;
          Value*addr=b.CreateConstInBoundsGEP1_64(P,gArgs,slot);
          if(a.hasByValAttr()){ Value*src=b.CreateLoad(P,addr); b.CreateCall(fCopyByval,{&a,src,c64(DL.getTypeAllocSize(a.getParamByValType()))}); }
          else if(!a.getType()->isPointerTy()) S[&a]=b.CreateLoad(shTy(a.getType()),addr);
          slot+=k; }
      } else b.CreateCall(fEnter,{F});
    }
    for(auto*p:phis){ if(p->getType()->isPointerTy()) continue; S[p]=PHINode::Create(shTy(p->getType()),p->getNumIncomingValues(),"",p); }
    for(auto*I:ins) visit(I);
    for(auto*p:phis){ if(p->getType()->isPointerTy()) continue; auto*sp=cast<PHINode>(S[p]); for(unsigned i=0;i<p->getNumIncomingValues();i++) sp->addIncoming(sh(p->getIncomingValue(i)),p->getIncomingBlock(i)); }
    // shadow phis must be grouped with phis: they were created right before their phi, fine.
  }

  void visit(Instruction*I){
    IRBuilder<> b(I);
    if(auto*ai=dyn_cast<AllocaInst>(I)){
      IRBuilder<> a(I->getNextNode());
      // place clear after the run of allocas
      Instruction*ip=I->getNextNode(); while(isa<AllocaInst>(ip)) ip=ip->getNextNode(); a.SetInsertPoint(ip);
      Value*n=c64(DL.getTypeAllocSize(ai->getAllocatedType()));
      if(ai->isArrayAllocation()){ Value*cnt=concInt(b,ai->getArraySize()); ai->setOperand(0,cnt); n=a.CreateMul(n,a.CreateZExtOrTrunc(cnt,I64)); }
      a.CreateCall(fClear,{ai,n}); return; }
    if(auto*li=dyn_cast<LoadInst>(I)){ IRBuilder<> a(I); if(li->getType()->isPointerTy()){ bool stored=false; for(User*u:li->users()) if(auto*si=dyn_cast<StoreInst>(u)) if(si->getValueOperand()==li) stored=true; for(User*u:li->users()) if(isa<PtrToIntInst>(u)&&u->getType()->isIntegerTy(64)) stored=true; if(stored) PS[li]=a.CreateCall(fLoad,{li->getPointerOperand(),c32(8)}); return; } /* unions move numbers as pointers */ S[I]=loadSh(a,li->getType(),li->getPointerOperand()); if(nul(S[I])) S.erase(I); return; }
    if(auto*pi=dyn_cast<PtrToIntInst>(I)){ auto q=PS.find(pi->getPointerOperand()); if(q!=PS.end()&&pi->getType()->isIntegerTy(64)){ S[I]=q->second; return; } }
    if(auto*ii=dyn_cast<IntToPtrInst>(I)){ Value*s=sh(ii->getOperand(0)); if(!nul(s)&&ii->getOperand(0)->getType()->isIntegerTy(64)){ PS[I]=s; } }
    if(auto*si=dyn_cast<StoreInst>(I)){ auto ps=PS.find(si->getValueOperand()); if(ps!=PS.end()){ b.CreateCall(fStore,{si->getPointerOperand(),c32(8),ps->second}); return; } storeSh(b,si->getValueOperand()->getType(),si->getPointerOperand(),sh(si->getValueOperand())); return; }
    if(auto*g=dyn_cast<GetElementPtrInst>(I)){ for(unsigned i=1;i<g->getNumOperands();i++){ Value*o=g->getOperand(i); if(isAgg(o->getType())) continue; Value*n=concInt(b,o); if(n!=o) g->setOperand(i,n); } return; }
    if(auto*bo=dyn_cast<BinaryOperator>(I)){
      Value*x=bo->getOperand(0),*y=bo->getOperand(1); Value*sx=sh(x),*sy=sh(y); unsigned op=bo->getOpcode();
      if(nul(sx)&&nul(sy)) return;
      if(auto*vt=dyn_cast<FixedVectorType>(x->getType())){
        Value*r=Constant::getNullValue(shTy(vt));
        for(unsigned i=0;i<vt->getNumElements();i++){ Value*e=scalarOp(b,*I,b.CreateExtractElement(x,i),b.CreateExtractValue(sx,i),b.CreateExtractElement(y,i),b.CreateExtractValue(sy,i),op); r=b.CreateInsertValue(r,e,i);} S[I]=r; return; }
      S[I]=scalarOp(b,*I,x,sx,y,sy,op);
      if((op==Instruction::SDiv||op==Instruction::UDiv||op==Instruction::SRem||op==Instruction::URem)&&x->getType()->getIntegerBitWidth()<=64&&!nul(S[I])){
        // the concrete operands may be stale: never let the hardware trap on them
        Value*d=b.CreateCall(fSafeDiv,{S[I],asI64(b,y)}); Value*d2=b.CreateZExtOrTrunc(d,y->getType()); bo->setOperand(1,d2); }
      return; }
    if(auto*u=dyn_cast<UnaryOperator>(I)){ // fneg
      Value*s=sh(u->getOperand(0)); if(nul(s)) return;
      if(isAgg(u->getType())){ auto*vt=cast<FixedVectorType>(u->getType()); Value*r=Constant::getNullValue(shTy(vt)); for(unsigned i=0;i<vt->getNumElements();i++){ Value*e=b.CreateCall(fFbin,{c32(2),Constant::getNullValue(P),ConstantFP::get(DBL,0.0),b.CreateExtractValue(s,i),asD(b,b.CreateExtractElement(u->getOperand(0),i))}); r=b.CreateInsertValue(r,e,i);} S[I]=r; return; }
      S[I]=b.CreateCall(fFbin,{c32(2),Constant::getNullValue(P),ConstantFP::get(DBL,0.0),s,asD(b,u->getOperand(0))}); return; }
    if(auto*ic=dyn_cast<ICmpInst>(I)){ Value*x=ic->getOperand(0),*y=ic->getOperand(1); Value*sx=sh(x),*sy=sh(y); if(nul(sx)&&nul(sy)) return;
      if(isAgg(x->getType())){ b.CreateCall(fUnsup,{one(),str("vector icmp")}); return; }
      if(x->getType()->isIntegerTy()&&x->getType()->getIntegerBitWidth()>64){ unsup(b,sx,"wide icmp"); unsup(b,sy,"wide icmp"); return; }
      S[I]=b.CreateCall(fIcmp,{c32(ic->getPredicate()),c32(width(x->getType())),sx,asI64(b,x),sy,asI64(b,y)}); return; }
    if(auto*fc=dyn_cast<FCmpInst>(I)){ Value*x=fc->getOperand(0),*y=fc->getOperand(1); Value*sx=sh(x),*sy=sh(y); if(nul(sx)&&nul(sy)) return;
      if(isAgg(x->getType())){ auto*vt=cast<FixedVectorType>(x->getType()); Value*r=Constant::getNullValue(shTy(fc->getType())); for(unsigned i=0;i<vt->getNumElements();i++){ Value*e=b.CreateCall(fFcmp,{c32(fc->getPredicate()),b.CreateExtractValue(sx,i),asD(b,b.CreateExtractElement(x,i)),b.CreateExtractValue(sy,i),asD(b,b.CreateExtractElement(y,i))}); r=b.CreateInsertValue(r,e,i);} S[I]=r; return; }
      S[I]=b.CreateCall(fFcmp,{c32(fc->getPredicate()),sx,asD(b,x),sy,asD(b,y)}); return; }
    if(auto*se=dyn_cast<SelectInst>(I)){
      Value*c=se->getCondition(),*t=se->getTrueValue(),*f=se->getFalseValue(); Value*sc=sh(c),*st=sh(t),*sf=sh(f);
      if(isAgg(c->getType())){ if(!nul(sc)||!nul(st)||!nul(sf)) b.CreateCall(fUnsup,{one(),str("vector select")}); return; }
      Type*ty=se->getType(); bool scal=okScalar(ty);
      if(nul(sc)){ if(nul(st)&&nul(sf)) return; S[I]=b.CreateSelect(c,st,sf); return; }
      int k=kind(ty);
      Value*d=b.CreateCall(fSelCond,{sc,c,c32(scal?(k==0&&width(ty)==1?2:1):0),str(F->getName())});
      se->setCondition(d);
      if(scal) S[I]=b.CreateCall(fSelSh,{sc,d,st,asI64(b,t),sf,asI64(b,f),c32(k),c32(width(ty))});
      else if(!nul(st)||!nul(sf)) S[I]=b.CreateSelect(d,st,sf);
      return; }
    if(auto*ca=dyn_cast<CastInst>(I)){
      Value*x=ca->getOperand(0); Value*s=sh(x); if(nul(s)) return;
      unsigned op=ca->getOpcode();
      if(isAgg(x->getType())||isAgg(ca->getType())){
        if(isAgg(x->getType())&&isAgg(ca->getType())&&slots(x->getType())==slots(ca->getType())){ auto*vt=cast<FixedVectorType>(x->getType()); Value*r=Constant::getNullValue(shTy(ca->getType())); Type*de=cast<FixedVectorType>(ca->getType())->getElementType(); for(unsigned i=0;i<vt->getNumElements();i++) r=b.CreateInsertValue(r,b.CreateCall(fCast,{c32(castCode(op)),b.CreateExtractValue(s,i),c32(width(vt->getElementType())),c32(width(de))}),i); S[I]=r; return; }
        b.CreateCall(fUnsup,{one(),str("vector cast")}); return; }
      if(op==Instruction::IntToPtr){ Value*n=concInt(b,x); ca->setOperand(0,n); return; }
      if(op==Instruction::PtrToInt||op==Instruction::AddrSpaceCast) return;
      if(!okScalar(x->getType())||!okScalar(ca->getType())){ unsup(b,s,"odd cast"); return; }
      S[I]=b.CreateCall(fCast,{c32(castCode(op)),s,c32(width(x->getType())),c32(width(ca->getType()))}); return; }
    if(auto*fr=dyn_cast<FreezeInst>(I)){ if(!nul(sh(fr->getOperand(0)))) S[I]=sh(fr->getOperand(0)); return; }
    if(auto*ev=dyn_cast<ExtractValueInst>(I)){ Value*s=sh(ev->getAggregateOperand()); if(nul(s)||I->getType()->isPointerTy()) return; S[I]=b.CreateExtractValue(s,ev->getIndices()); return; }
    if(auto*iv=dyn_cast<InsertValueInst>(I)){ Value*sa=sh(iv->getAggregateOperand()),*sv=sh(iv->getInsertedValueOperand()); if(nul(sa)&&nul(sv)) return; S[I]=b.CreateInsertValue(sa,sv,iv->getIndices()); return; }
    if(auto*ee=dyn_cast<ExtractElementInst>(I)){ Value*s=sh(ee->getVectorOperand()); if(nul(s)) return; if(auto*ci=dyn_cast<ConstantInt>(ee->getIndexOperand())) S[I]=b.CreateExtractValue(s,ci->getZExtValue()); else b.CreateCall(fUnsup,{one(),str("var extractelement")}); return; }
    if(auto*ie=dyn_cast<InsertElementInst>(I)){ Value*sv=sh(ie->getOperand(0)),*se=sh(ie->getOperand(1)); if(nul(sv)&&nul(se)) return; if(auto*ci=dyn_cast<ConstantInt>(ie->getOperand(2))) S[I]=b.CreateInsertValue(sv,se,ci->getZExtValue()); else b.CreateCall(fUnsup,{one(),str("var insertelement")}); return; }
    if(auto*sv=dyn_cast<ShuffleVectorInst>(I)){ Value*a=sh(sv->getOperand(0)),*c=sh(sv->getOperand(1)); if(nul(a)&&nul(c)) return; unsigned n0=cast<FixedVectorType>(sv->getOperand(0)->getType())->getNumElements(); Value*r=Constant::getNullValue(shTy(sv->getType())); auto m=sv->getShuffleMask(); for(unsigned i=0;i<m.size();i++){ if(m[i]<0) continue; Value*e=(unsigned)m[i]<n0?b.CreateExtractValue(a,m[i]):b.CreateExtractValue(c,m[i]-n0); r=b.CreateInsertValue(r,e,i);} S[I]=r; return; }
    if(auto*br=dyn_cast<BranchInst>(I)){ if(!br->isConditional()) return; Value*s=sh(br->getCondition()); if(nul(s)) return; br->setCondition(b.CreateCall(fBranch,{s,br->getCondition(),str(F->getName())})); return; }
    if(auto*sw=dyn_cast<SwitchInst>(I)){ Value*n=concInt(b,sw->getCondition()); if(n!=sw->getCondition()) sw->setCondition(n); return; }
    if(auto*ri=dyn_cast<ReturnInst>(I)){
      Value*v=ri->getReturnValue();
      // musttail calls must stay adjacent to ret
      if(auto*pc=dyn_cast_or_null<CallInst>(I->getPrevNode())) if(pc->isMustTailCall()) return;
      if(v&&!v->getType()->isPointerTy()&&slots(v->getType())<=64){ b.CreateStore(sh(v),gRet); b.CreateStore(F,gRetTag); }
      else b.CreateStore(Constant::getNullValue(P),gRetTag);
      return; }
    if(auto*cb=dyn_cast<CallBase>(I)){ callSite(cb); return; }
    if(auto*rm=dyn_cast<AtomicRMWInst>(I)){ unsup(b,sh(rm->getValOperand()),"atomicrmw"); b.CreateCall(fChk,{rm->getPointerOperand(),c64(DL.getTypeStoreSize(rm->getValOperand()->getType())),str("atomicrmw")}); return; }
    if(auto*cx=dyn_cast<AtomicCmpXchgInst>(I)){ b.CreateCall(fChk,{cx->getPointerOperand(),c64(8),str("cmpxchg")}); return; }
  }
};

struct SXPass : PassInfoMixin<SXPass> {
  PreservedAnalyses run(Module&M,ModuleAnalysisManager&){
    // rename calls to modelled libc/libm functions
    static const std::set<std::string> redirect={"sin","cos","tan","asin","acos","atan","atan2","sqrt","fabs","floor","ceil","round","trunc","fmod","pow","exp","log","hypot","fmin","fmax","lround","llround","rint","nearbyint","remainder","copysign","sincos",
      "memcmp","bcmp","strlen","memchr","memcpy","memmove","memset","malloc","free","calloc","realloc","isdigit","isspace","toupper","tolower","isalpha","strcmp","strncmp","strtol","__isoc23_strtol","strtod","__isoc23_strtod","abort","exit"};
    // drop fortified / noreturn special cases none
    std::vector<std::pair<Function*,std::string>> ren;
    for(auto&F:M) if(F.isDeclaration()&&redirect.count(F.getName().str())) ren.push_back({&F,"sxm_"+F.getName().str()});
    for(auto&x:ren){ FunctionType*t=x.first->getFunctionType(); auto nf=M.getOrInsertFunction(x.second,t); x.first->replaceAllUsesWith(nf.getCallee()); }
    for(auto&F:M){
      F.removeFnAttr(Attribute::Memory); F.removeFnAttr(Attribute::WillReturn); F.removeFnAttr(Attribute::NoSync); F.removeFnAttr(Attribute::NoFree); F.removeFnAttr(Attribute::MustProgress); F.removeFnAttr(Attribute::Speculatable); F.removeFnAttr(Attribute::NoCallback);
      for(auto&A:F.args()){ A.removeAttr(Attribute::ReadNone); A.removeAttr(Attribute::ReadOnly); A.removeAttr(Attribute::WriteOnly); }
      for(auto&B:F) for(auto&I:B) if(auto*c=dyn_cast<CallBase>(&I)){ c->removeFnAttr(Attribute::Memory); c->removeFnAttr(Attribute::WillReturn); c->removeFnAttr(Attribute::NoSync); }
    }
    SX sx(M);
    std::vector<Function*> fs; for(auto&F:M) if(!F.isDeclaration()&&!F.hasAvailableExternallyLinkage()&&!F.getName().starts_with("__sx_")&&!F.hasFnAttribute("sx_native")) fs.push_back(&F);
    // available_externally bodies would hide from us: turn them into declarations
    for(auto&F:M) if(F.hasAvailableExternallyLinkage()) F.deleteBody();
    for(auto*F:fs) sx.run(*F);
    // instrumented instances of library templates must not be used by the (native) runtime or libstdc++.so
    for(auto&F:M) if(!F.isDeclaration()&&(F.hasLinkOnceLinkage()||F.hasWeakLinkage())&&F.hasDefaultVisibility()) F.setVisibility(GlobalValue::HiddenVisibility);
    for(auto&G:M.globals()) if(!G.isDeclaration()&&(G.hasLinkOnceLinkage()||G.hasWeakLinkage())&&G.hasDefaultVisibility()&&!G.getName().starts_with("_ZTI")&&!G.getName().starts_with("_ZTS")) G.setVisibility(GlobalValue::HiddenVisibility);
    return PreservedAnalyses::none();
  }
  static bool isRequired(){return true;}
};
}
extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo(){
  return {LLVM_PLUGIN_API_VERSION,"sx","1",[](PassBuilder&PB){
    PB.registerOptimizerLastEPCallback([](ModulePassManager&MPM,OptimizationLevel){ MPM.addPass(SXPass()); });
    PB.registerPipelineParsingCallback([](StringRef n,ModulePassManager&MPM,ArrayRef<PassBuilder::PipelineElement>){ if(n=="sx"){MPM.addPass(SXPass());return true;} return false; });
  }};
}

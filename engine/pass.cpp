// LLVM-18 pass plugin: compiles a translation unit into a concolic executor of
// itself.  Every SSA value gets a shadow expression id (0 = concrete), carried
// through memory, calls, aggregates and the C math library; every branch that
// depends on a symbolic value is reported to the run-time as a path condition.
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstVisitor.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/MDBuilder.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/CFG.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/PromoteMemToReg.h"
#include "llvm/Transforms/Utils/ModuleUtils.h"
#include "llvm/Transforms/Utils/Local.h"
#include <map>
#include <set>
#include <string>
#include "symop.h"
using namespace llvm;

namespace {
constexpr unsigned kMaxArgs = 512;

const std::map<std::string, std::pair<SymOp,int>> &mathTable() {
  static const std::map<std::string, std::pair<SymOp,int>> t = {
    {"sqrt",{OP_SQRT,1}},{"sin",{OP_SIN,1}},{"cos",{OP_COS,1}},{"tan",{OP_TAN,1}},
    {"asin",{OP_ASIN,1}},{"acos",{OP_ACOS,1}},{"atan",{OP_ATAN,1}},{"atan2",{OP_ATAN2,2}},
    {"exp",{OP_EXP,1}},{"log",{OP_LOG,1}},{"pow",{OP_POW,2}},{"fabs",{OP_FABS,1}},
    {"fmax",{OP_FMAX,2}},{"fmin",{OP_FMIN,2}},{"floor",{OP_FLOOR,1}},{"ceil",{OP_CEIL,1}},
    {"round",{OP_ROUND,1}},{"copysign",{OP_COPYSIGN,2}},{"fmod",{OP_FREM,2}}};
  return t;
}

struct Inst {
  Module &M; LLVMContext &C; const DataLayout &DL;
  Type *I32,*I64,*I8,*I1,*Void,*Ptr;
  FunctionCallee fBin,fCmp,fCast,fSel,fLoad,fStore,fStoreC,fMemcpy,fMemset,fBranch,fConcr,fMath,fExt,fUn,fCExp,fByval;
  GlobalVariable *gArgs,*gTag,*gRet,*gRetTag,*gByval;
  std::map<std::pair<const Function*,unsigned>, Constant*> siteCache;
  std::map<std::string, Constant*> strCache;
  StructType *SiteTy;

  GlobalVariable *ext(const char*n, Type*t){ auto*g=M.getNamedGlobal(n); if(g) return g; return new GlobalVariable(M,t,false,GlobalValue::ExternalLinkage,nullptr,n);}    
  Inst(Module&m):M(m),C(m.getContext()),DL(m.getDataLayout()){
    I32=Type::getInt32Ty(C);I64=Type::getInt64Ty(C);I8=Type::getInt8Ty(C);I1=Type::getInt1Ty(C);Void=Type::getVoidTy(C);Ptr=PointerType::get(C,0);
    fBin=M.getOrInsertFunction("__sym_bin",I32,I32,I32,I32,I32,I64,I64,I64,Ptr);
    fUn=M.getOrInsertFunction("__sym_un",I32,I32,I32,I32,I64,I64,Ptr);
    fCmp=M.getOrInsertFunction("__sym_cmp",I32,I32,I32,I32,I32,I64,I64,I32,Ptr);
    fCast=M.getOrInsertFunction("__sym_cast",I32,I32,I32,I32,I32,I64,I64,Ptr);
    fSel=M.getOrInsertFunction("__sym_select",I32,I32,I32,I32,I32,I32,I64,I64,Ptr);
    fLoad=M.getOrInsertFunction("__sym_load",I32,Ptr,I32);
    fStore=M.getOrInsertFunction("__sym_store",Void,Ptr,I32,I32);
    fStoreC=M.getOrInsertFunction("__sym_clear",Void,Ptr,I64);
    fMemcpy=M.getOrInsertFunction("__sym_memcpy",Void,Ptr,Ptr,I64);
    fMemset=M.getOrInsertFunction("__sym_clear",Void,Ptr,I64);
    fBranch=M.getOrInsertFunction("__sym_branch",Void,I32,I32,Ptr);
    fConcr=M.getOrInsertFunction("__sym_concretize",Void,I32,I32,I64,Ptr);
    fMath=M.getOrInsertFunction("__sym_math",I32,I32,I32,I32,I64,I64,I64,Ptr);
    fCExp=M.getOrInsertFunction("__sym_cexp",Void,I32,I32,I64,I64,I64,I64,Ptr,Ptr);
    fExt=M.getOrInsertFunction("__sym_ext",Void,Ptr,Ptr,I32);
    gArgs=ext("__sym_args",ArrayType::get(I32,kMaxArgs));
    gTag=ext("__sym_tag",Ptr);
    gRet=ext("__sym_ret",ArrayType::get(I32,kMaxArgs));
    gRetTag=ext("__sym_rettag",Ptr);
    gByval=ext("__sym_byval",ArrayType::get(Ptr,64));
    SiteTy=StructType::get(C,{Ptr,Ptr,I32,I32});
  }
  Constant *str(const std::string&s){ auto&r=strCache[s]; if(!r){ auto*d=ConstantDataArray::getString(C,s); auto*g=new GlobalVariable(M,d->getType(),true,GlobalValue::PrivateLinkage,d,"symstr"); r=g;} return r; }
  Constant *site(Instruction*I){
    Function*F=I->getFunction(); unsigned line=0; std::string file;
    const DebugLoc &L=I->getDebugLoc();
    if(L){ line=L.getLine(); if(auto*S=dyn_cast_or_null<DIScope>(L.getScope())) file=S->getFilename().str(); }
    auto &r=siteCache[{F,line}];
    if(!r){ auto*init=ConstantStruct::get(SiteTy,{str(F->getName().str()),str(file),ConstantInt::get(I32,line),ConstantInt::get(I32,0)});
      r=new GlobalVariable(M,SiteTy,false,GlobalValue::PrivateLinkage,init,"symsite"); }
    return r;
  }
  void enter(Function&F){ // records which functions of the repository were executed in the encoding
    auto*SP=F.getSubprogram(); if(!SP||F.isDeclaration()) return; std::string file=SP->getFilename().str(); if(file.compare(0,5,"/usr/")==0||file.find("/engine/")!=std::string::npos||file.find("/harness/")!=std::string::npos) return;
    auto*init=ConstantStruct::get(SiteTy,{str(F.getName().str()),str(file),ConstantInt::get(I32,SP->getLine()),ConstantInt::get(I32,0)});
    auto*g=new GlobalVariable(M,SiteTy,false,GlobalValue::PrivateLinkage,init,"symenter");
    IRBuilder<> B(&*F.getEntryBlock().getFirstInsertionPt()); DebugLoc L=DILocation::get(C,SP->getLine(),0,SP); B.SetCurrentDebugLocation(L); B.CreateCall(M.getOrInsertFunction("__sym_enter",Void,Ptr),{g}); }
  // --- shadow types
  Type *sty(Type*T){
    if(auto*V=dyn_cast<FixedVectorType>(T)) return ArrayType::get(I32,V->getNumElements());
    if(auto*A=dyn_cast<ArrayType>(T)) return ArrayType::get(sty(A->getElementType()),A->getNumElements());
    if(auto*S=dyn_cast<StructType>(T)){ SmallVector<Type*,8> e; for(auto*t:S->elements()) e.push_back(sty(t)); return StructType::get(C,e); }
    return I32;
  }
  Constant *zero(Type*T){ return Constant::getNullValue(sty(T)); }
  static bool scalarOK(Type*T){ return T->isDoubleTy()||T->isFloatTy()||(T->isIntegerTy()&&T->getIntegerBitWidth()<=64); }
  static uint32_t width(Type*T){ if(T->isDoubleTy())return 64|256; if(T->isFloatTy())return 32|256; if(T->isIntegerTy()) return T->getIntegerBitWidth(); return 0; }
  Value *bits(IRBuilder<>&B,Value*v){ Type*T=v->getType();
    if(T->isDoubleTy()) return B.CreateBitCast(v,I64);
    if(T->isFloatTy()) return B.CreateZExt(B.CreateBitCast(v,I32),I64);
    if(T->isIntegerTy()) return B.CreateZExtOrTrunc(v,I64);
    return ConstantInt::get(I64,0); }
  bool hasShadow(Type*T){ // could this type hold symbolic scalars
    if(scalarOK(T)) return true;
    if(auto*V=dyn_cast<FixedVectorType>(T)) return scalarOK(V->getElementType());
    if(auto*A=dyn_cast<ArrayType>(T)) return A->getNumElements()<=64&&hasShadow(A->getElementType());
    if(auto*S=dyn_cast<StructType>(T)){ for(auto*t:S->elements()) if(hasShadow(t)) return true; }
    return false; }

  struct FnState { DenseMap<Value*,Value*> sh; SmallVector<std::pair<PHINode*,PHINode*>,16> phis; };
  Value *S(FnState&st,Value*v){ auto it=st.sh.find(v); if(it!=st.sh.end()) return it->second; return zero(v->getType()); }
  static bool isZ(Value*s){ auto*c=dyn_cast<Constant>(s); return c&&c->isNullValue(); }

  // guarded call: executes mk only if any of the shadows is non-zero; result phi
  Value *guarded(Instruction*after,ArrayRef<Value*> shs,std::function<Value*(IRBuilder<>&)> mk){
    SmallVector<Value*,4> nz; for(auto*s:shs) if(!isZ(s)) nz.push_back(s);
    if(nz.empty()) return ConstantInt::get(I32,0);
    Instruction*ip=after->getNextNode();
    IRBuilder<> B(ip); B.SetCurrentDebugLocation(after->getDebugLoc());
    Value*any=nz[0]; for(size_t i=1;i<nz.size();++i) any=B.CreateOr(any,nz[i]);
    Value*c=B.CreateICmpNE(any,ConstantInt::get(I32,0));
    BasicBlock*head=ip->getParent();
    Instruction*th=SplitBlockAndInsertIfThen(c,ip,false,MDBuilder(C).createBranchWeights(1,1000));
    IRBuilder<> T(th); T.SetCurrentDebugLocation(after->getDebugLoc());
    Value*r=mk(T);
    if(!r||r->getType()->isVoidTy()) return nullptr;
    IRBuilder<> P(&*ip->getParent()->begin());
    PHINode*p=P.CreatePHI(I32,2); p->addIncoming(ConstantInt::get(I32,0),head); p->addIncoming(r,th->getParent());
    return p;
  }
  // guarded void call placed BEFORE an instruction
  void guardedBefore(Instruction*ip,Value*s,std::function<void(IRBuilder<>&)> mk){
    if(isZ(s)) return;
    IRBuilder<> B(ip); Value*c=B.CreateICmpNE(s,ConstantInt::get(I32,0));
    Instruction*th=SplitBlockAndInsertIfThen(c,ip,false,MDBuilder(C).createBranchWeights(1,1000));
    IRBuilder<> T(th); T.SetCurrentDebugLocation(ip->getDebugLoc()); mk(T);
  }
  Value*c32(uint32_t v){return ConstantInt::get(I32,v);} 

  // leaves of a shadow value
  void flatten(IRBuilder<>&B,Value*s,SmallVectorImpl<Value*>&out){
    Type*T=s->getType();
    if(T==I32){out.push_back(s);return;}
    unsigned n=T->isArrayTy()?T->getArrayNumElements():T->getStructNumElements();
    for(unsigned i=0;i<n;++i) flatten(B,isZ(s)?Constant::getNullValue(T->isArrayTy()?T->getArrayElementType():T->getStructElementType(i)):B.CreateExtractValue(s,i),out);
  }
  Value*rebuild(IRBuilder<>&B,Type*T,std::function<Value*()> next){
    if(T==I32) return next();
    Value*r=PoisonValue::get(T);
    unsigned n=T->isArrayTy()?T->getArrayNumElements():T->getStructNumElements();
    for(unsigned i=0;i<n;++i) r=B.CreateInsertValue(r,rebuild(B,T->isArrayTy()?T->getArrayElementType():T->getStructElementType(i),next),i);
    return r;
  }
  unsigned leaves(Type*T){ if(T==I32) return 1; if(T->isArrayTy()) return T->getArrayNumElements()*leaves(T->getArrayElementType()); unsigned n=0; for(unsigned i=0;i<T->getStructNumElements();++i) n+=leaves(T->getStructElementType(i)); return n; }

  // typed memory access, recursing over aggregates
  Value*loadSh(IRBuilder<>&B,Value*p,Type*T){
    if(scalarOK(T)) return B.CreateCall(fLoad,{p,c32((DL.getTypeStoreSize(T)).getFixedValue())});
    if(auto*V=dyn_cast<FixedVectorType>(T)){ if(!scalarOK(V->getElementType())) return zero(T); Value*r=Constant::getNullValue(sty(T)); unsigned es=DL.getTypeStoreSize(V->getElementType());
      for(unsigned i=0;i<V->getNumElements();++i) r=B.CreateInsertValue(r,B.CreateCall(fLoad,{B.CreateConstGEP1_64(I8,p,i*es),c32(es)}),i); return r; }
    if(auto*A=dyn_cast<ArrayType>(T)){ if(!hasShadow(T)) return zero(T); Value*r=Constant::getNullValue(sty(T)); uint64_t es=DL.getTypeAllocSize(A->getElementType()); for(unsigned i=0;i<A->getNumElements();++i) r=B.CreateInsertValue(r,loadSh(B,B.CreateConstGEP1_64(I8,p,i*es),A->getElementType()),i); return r; }
    if(auto*St=dyn_cast<StructType>(T)){ Value*r=Constant::getNullValue(sty(T)); auto*L=DL.getStructLayout(St); for(unsigned i=0;i<St->getNumElements();++i) r=B.CreateInsertValue(r,loadSh(B,B.CreateConstGEP1_64(I8,p,L->getElementOffset(i)),St->getElementType(i)),i); return r; }
    return zero(T);
  }
  void storeSh(IRBuilder<>&B,Value*p,Type*T,Value*s){
    if(isZ(s)||!hasShadow(T)){ B.CreateCall(fStoreC,{p,ConstantInt::get(I64,DL.getTypeStoreSize(T).getFixedValue())}); return; }
    if(scalarOK(T)){ B.CreateCall(fStore,{p,c32(DL.getTypeStoreSize(T).getFixedValue()),s}); return; }
    if(auto*V=dyn_cast<FixedVectorType>(T)){ unsigned es=DL.getTypeStoreSize(V->getElementType()); for(unsigned i=0;i<V->getNumElements();++i) B.CreateCall(fStore,{B.CreateConstGEP1_64(I8,p,i*es),c32(es),B.CreateExtractValue(s,i)}); return; }
    if(auto*A=dyn_cast<ArrayType>(T)){ uint64_t es=DL.getTypeAllocSize(A->getElementType()); for(unsigned i=0;i<A->getNumElements();++i) storeSh(B,B.CreateConstGEP1_64(I8,p,i*es),A->getElementType(),B.CreateExtractValue(s,i)); return; }
    if(auto*St=dyn_cast<StructType>(T)){ auto*L=DL.getStructLayout(St); for(unsigned i=0;i<St->getNumElements();++i) storeSh(B,B.CreateConstGEP1_64(I8,p,L->getElementOffset(i)),St->getElementType(i),B.CreateExtractValue(s,i)); return; }
  }

  SymOp binop(unsigned o){ switch(o){
    case Instruction::FAdd:return OP_FADD;case Instruction::FSub:return OP_FSUB;case Instruction::FMul:return OP_FMUL;case Instruction::FDiv:return OP_FDIV;case Instruction::FRem:return OP_FREM;
    case Instruction::Add:return OP_ADD;case Instruction::Sub:return OP_SUB;case Instruction::Mul:return OP_MUL;case Instruction::UDiv:return OP_UDIV;case Instruction::SDiv:return OP_SDIV;case Instruction::URem:return OP_UREM;case Instruction::SRem:return OP_SREM;
    case Instruction::Shl:return OP_SHL;case Instruction::LShr:return OP_LSHR;case Instruction::AShr:return OP_ASHR;case Instruction::And:return OP_AND;case Instruction::Or:return OP_OR;case Instruction::Xor:return OP_XOR; } return OP_LAST; }
  // returns (op, swap, negate) for comparisons; OP_LAST = treat as concrete
  SymOp cmpop(CmpInst::Predicate p,bool&neg){ neg=false; switch(p){
    case CmpInst::ICMP_EQ:return OP_ICMP_EQ;case CmpInst::ICMP_NE:return OP_ICMP_NE;case CmpInst::ICMP_UGT:return OP_ICMP_UGT;case CmpInst::ICMP_UGE:return OP_ICMP_UGE;case CmpInst::ICMP_ULT:return OP_ICMP_ULT;case CmpInst::ICMP_ULE:return OP_ICMP_ULE;
    case CmpInst::ICMP_SGT:return OP_ICMP_SGT;case CmpInst::ICMP_SGE:return OP_ICMP_SGE;case CmpInst::ICMP_SLT:return OP_ICMP_SLT;case CmpInst::ICMP_SLE:return OP_ICMP_SLE;
    case CmpInst::FCMP_OEQ:case CmpInst::FCMP_UEQ:return OP_FCMP_EQ;case CmpInst::FCMP_ONE:case CmpInst::FCMP_UNE:return OP_FCMP_NE;
    case CmpInst::FCMP_OGT:case CmpInst::FCMP_UGT:return OP_FCMP_GT;case CmpInst::FCMP_OGE:case CmpInst::FCMP_UGE:return OP_FCMP_GE;case CmpInst::FCMP_OLT:case CmpInst::FCMP_ULT:return OP_FCMP_LT;case CmpInst::FCMP_OLE:case CmpInst::FCMP_ULE:return OP_FCMP_LE;
    default:return OP_LAST; } }
  SymOp castop(unsigned o){ switch(o){ case Instruction::Trunc:return OP_TRUNC;case Instruction::ZExt:return OP_ZEXT;case Instruction::SExt:return OP_SEXT;case Instruction::FPToUI:return OP_FPTOUI;case Instruction::FPToSI:return OP_FPTOSI;case Instruction::UIToFP:return OP_UITOFP;case Instruction::SIToFP:return OP_SITOFP;case Instruction::FPTrunc:return OP_FPTRUNC;case Instruction::FPExt:return OP_FPEXT;case Instruction::BitCast:return OP_BITCAST;} return OP_LAST; }

  // apply an elementwise scalar op on possibly-vector instruction
  Value* elementwise(FnState&st,Instruction*I,ArrayRef<Value*> ops,std::function<Value*(IRBuilder<>&,ArrayRef<Value*> vals,ArrayRef<Value*> shs,Value*res)> mk){
    Type*T=I->getType();
    if(auto*V=dyn_cast<FixedVectorType>(T)){
      bool any=false; for(auto*o:ops) if(!isZ(S(st,o))) any=true; if(!any) return zero(T);
      Value*r=Constant::getNullValue(sty(T)); Instruction*pos=I;
      for(unsigned i=0;i<V->getNumElements();++i){
        IRBuilder<> B(pos->getNextNode()); SmallVector<Value*,3> vals,shs;
        for(auto*o:ops){ vals.push_back(B.CreateExtractElement(o,i)); auto*s=S(st,o); shs.push_back(isZ(s)?(Value*)c32(0):B.CreateExtractValue(s,i)); }
        Value*res=B.CreateExtractElement(I,i);
        Value*c=mk(B,vals,shs,res); r=B.CreateInsertValue(r,c,i);
        pos=cast<Instruction>(r);
      }
      return r;
    }
    SmallVector<Value*,3> shs; for(auto*o:ops) shs.push_back(S(st,o));
    return guarded(I,shs,[&](IRBuilder<>&B){ SmallVector<Value*,3> vals(ops.begin(),ops.end()); return mk(B,vals,shs,I); });
  }

  Value *argSlot(IRBuilder<>&B,GlobalVariable*g,unsigned i){ return B.CreateConstInBoundsGEP2_64(g->getValueType(),g,0,i); }

  void doCall(FnState&st,CallBase*CB){
    Function*F=CB->getCalledFunction();
    if(CB->isInlineAsm()) return;
    if(F&&F->isIntrinsic()){
      switch(F->getIntrinsicID()){
        case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline:{ IRBuilder<> B(CB); B.CreateCall(fMemcpy,{CB->getArgOperand(0),CB->getArgOperand(1),B.CreateZExtOrTrunc(CB->getArgOperand(2),I64)}); return; }
        case Intrinsic::memset:{ IRBuilder<> B(CB); B.CreateCall(fMemset,{CB->getArgOperand(0),B.CreateZExtOrTrunc(CB->getArgOperand(2),I64)}); return; }
        case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::ssa_copy: st.sh[CB]=S(st,CB->getArgOperand(0)); return;
        default: break; }
      SymOp op=OP_LAST; int n=1;
      switch(F->getIntrinsicID()){
        case Intrinsic::sqrt:op=OP_SQRT;break;case Intrinsic::sin:op=OP_SIN;break;case Intrinsic::cos:op=OP_COS;break;case Intrinsic::exp:op=OP_EXP;break;case Intrinsic::log:op=OP_LOG;break;case Intrinsic::fabs:op=OP_FABS;break;case Intrinsic::floor:op=OP_FLOOR;break;case Intrinsic::ceil:op=OP_CEIL;break;case Intrinsic::round:op=OP_ROUND;break;
        case Intrinsic::pow:op=OP_POW;n=2;break;case Intrinsic::maxnum:op=OP_FMAX;n=2;break;case Intrinsic::minnum:op=OP_FMIN;n=2;break;case Intrinsic::copysign:op=OP_COPYSIGN;n=2;break; default:break; }
      if(op!=OP_LAST&&CB->getType()->isDoubleTy()) mathCall(st,CB,op,n);
      return;
    }
    if(F&&F->getName().starts_with("__sym_")) return;
    // harness intrinsics: sym_expr_of(double) -> shadow id of the argument
    if(F&&F->getName().starts_with("sym_expr_")){ IRBuilder<> B(CB); Value*s=S(st,CB->getArgOperand(0)); CB->replaceAllUsesWith(isZ(s)?(Value*)c32(0):s); if(auto*II=dyn_cast<InvokeInst>(CB)){ II->getUnwindDest()->removePredecessor(II->getParent()); BranchInst::Create(II->getNormalDest(),II); } CB->eraseFromParent(); return; }
    if(F&&F->isDeclaration()){
      auto it=mathTable().find(F->getName().str());
      if(it!=mathTable().end()&&CB->getType()->isDoubleTy()){ mathCall(st,CB,it->second.first,it->second.second); return; }
      if(F->getName()=="cexp"&&CB->arg_size()==2&&CB->getType()->isStructTy()){ cexpCall(st,CB); return; }
      if((F->getName()=="memcpy"||F->getName()=="memmove")&&CB->arg_size()==3){ IRBuilder<> B(CB); B.CreateCall(fMemcpy,{CB->getArgOperand(0),CB->getArgOperand(1),CB->getArgOperand(2)}); return; }
      if(F->getName().starts_with("llvm.")) return;
    }
    // generic call
    IRBuilder<> B(CB);
    Value*callee=CB->getCalledOperand();
    unsigned idx=0, bv=0; Value*any=nullptr; bool skip=false;
    SmallVector<Value*,16> ls;
    for(unsigned i=0;i<CB->arg_size();++i){ Value*a=CB->getArgOperand(i);
      if(CB->isByValArgument(i)&&bv<64){ B.CreateStore(a,argSlot(B,gByval,bv++)); }
      if(a->getType()->isMetadataTy()||a->getType()->isTokenTy()){continue;}
      flatten(B,S(st,a),ls); }
    if(ls.size()>kMaxArgs) skip=true;
    if(!skip) for(auto*l:ls){ B.CreateStore(l,argSlot(B,gArgs,idx++)); if(!isZ(l)) any=any?B.CreateOr(any,l):l; }
    // tag: only when something may be symbolic or byval
    if(!skip) B.CreateStore(callee,gTag); else B.CreateStore(ConstantPointerNull::get(cast<PointerType>(Ptr)),gTag);
    B.CreateStore(ConstantPointerNull::get(cast<PointerType>(Ptr)),gRetTag);
    if(isa<CallInst>(CB)&&cast<CallInst>(CB)->isMustTailCall()) return;
    Instruction*after=nullptr;
    if(auto*II=dyn_cast<InvokeInst>(CB)){
      after=&*II->getNormalDest()->getFirstInsertionPt();
    } else { if(CB->isTerminator()) return; after=CB->getNextNode(); }
    if(any&&!skip&&(!F||(F->isDeclaration()&&!F->getName().starts_with("sym_")))){ // were the symbolic arguments consumed?
      IRBuilder<> A(after);
      A.CreateCall(fExt,{callee,str(F?F->getName().str():std::string("(indirect)")),c32(idx)});
    }
    Type*T=CB->getType();
    if(!T->isVoidTy()&&hasShadow(T)){
      unsigned n=leaves(sty(T)); if(n<=kMaxArgs){
        IRBuilder<> A(after);
        Value*ok=A.CreateICmpEQ(A.CreateLoad(Ptr,gRetTag),callee);
        unsigned k=0;
        st.sh[CB]=rebuild(A,sty(T),[&]()->Value*{ return A.CreateSelect(ok,A.CreateLoad(I32,argSlot(A,gRet,k++)),c32(0)); });
      }
    }
  }
  void mathCall(FnState&st,CallBase*CB,SymOp op,int n){
    Value*a=CB->getArgOperand(0),*b=n==2?CB->getArgOperand(1):nullptr; Value*sa=S(st,a),*sb=b?S(st,b):c32(0);
    if(isZ(sa)&&isZ(sb)) return;
    if(auto*II=dyn_cast<InvokeInst>(CB)){ BasicBlock*nb=II->getNormalDest(); IRBuilder<> B(&*nb->getFirstInsertionPt()); auto*dummy=B.CreateAlloca(I8); (void)dummy; 
      IRBuilder<> B2(dummy->getNextNode()); st.sh[CB]=B2.CreateCall(fMath,{c32(op),sa,sb,bits(B2,a),b?bits(B2,b):ConstantInt::get(I64,0),bits(B2,CB),site(CB)}); dummy->eraseFromParent(); return; }
    Constant*si=site(CB);
    st.sh[CB]=guarded(CB,{sa,sb},[&](IRBuilder<>&B){ return B.CreateCall(fMath,{c32(op),sa,sb,bits(B,a),b?bits(B,b):ConstantInt::get(I64,0),bits(B,CB),si}); });
  }
  void cexpCall(FnState&st,CallBase*CB){
    Value*a=CB->getArgOperand(0),*b=CB->getArgOperand(1);
    if(isZ(S(st,a))&&isZ(S(st,b))) return;
    Instruction*after; if(auto*II=dyn_cast<InvokeInst>(CB)){ auto*nb=II->getNormalDest(); after=&*nb->getFirstInsertionPt(); } else after=CB->getNextNode();
    IRBuilder<> B(after);
    Value*r0=B.CreateExtractValue(CB,0),*r1=B.CreateExtractValue(CB,1);
    B.CreateCall(fCExp,{S(st,a),S(st,b),bits(B,a),bits(B,b),bits(B,r0),bits(B,r1),gRet,site(CB)});
    Value*s=Constant::getNullValue(sty(CB->getType()));
    s=B.CreateInsertValue(s,B.CreateLoad(I32,argSlot(B,gRet,0)),0); s=B.CreateInsertValue(s,B.CreateLoad(I32,argSlot(B,gRet,1)),1);
    st.sh[CB]=s;
  }

  bool skipFn(Function&F){ StringRef n=F.getName(); return F.isDeclaration()||n.starts_with("__sym_")||n.starts_with("llvm.")||F.hasFnAttribute(Attribute::Naked)||F.hasFnAttribute("sym-skip")||n=="__clang_call_terminate"||n.starts_with("_GLOBAL__sub")||n.starts_with("__cxx_global"); }

  void run(Function&F){
    // promote allocas
    { DominatorTree DT(F); SmallVector<AllocaInst*,32> as; for(auto&I:F.getEntryBlock()) if(auto*A=dyn_cast<AllocaInst>(&I)) if(isAllocaPromotable(A)) as.push_back(A); if(!as.empty()) PromoteMemToReg(as,DT); }
    removeUnreachableBlocks(F);
    // give every invoke its own landing block on the normal edge
    { SmallVector<InvokeInst*,16> inv; for(auto&BB:F) if(auto*II=dyn_cast<InvokeInst>(BB.getTerminator())) inv.push_back(II);
      for(auto*II:inv){ BasicBlock*nd=II->getNormalDest(),*bb=II->getParent(); BasicBlock*nb=BasicBlock::Create(C,"sym.inv",&F,nd); BranchInst::Create(nd,nb);
        nd->replacePhiUsesWith(bb,nb); II->setNormalDest(nb); } }
    FnState st;
    SmallVector<Instruction*,256> work;
    { ReversePostOrderTraversal<Function*> R(&F); for(auto*BB:R) for(auto&I:*BB) work.push_back(&I); }
    // function entry: argument shadows
    { Instruction*ip=&*F.getEntryBlock().getFirstNonPHIOrDbgOrAlloca(); IRBuilder<> B(ip);
      bool need=false; for(auto&A:F.args()) if(hasShadow(A.getType())||A.hasByValAttr()) need=true;
      if(need){ Value*ok=B.CreateICmpEQ(B.CreateLoad(Ptr,gTag),&F); unsigned idx=0,bv=0;
        for(auto&A:F.args()){ unsigned n=leaves(sty(A.getType()));
          if(A.hasByValAttr()&&bv<64){ Value*src=B.CreateLoad(Ptr,argSlot(B,gByval,bv++)); Value*sz=ConstantInt::get(I64,DL.getTypeAllocSize(A.getParamByValType()).getFixedValue());
             B.CreateCall(M.getOrInsertFunction("__sym_byvalcopy",Void,Ptr,Ptr,I64,I1),{&A,src,sz,ok}); }
          if(idx+n>kMaxArgs) break;
          if(hasShadow(A.getType())){ unsigned k=idx; st.sh[&A]=rebuild(B,sty(A.getType()),[&]()->Value*{ return B.CreateSelect(ok,B.CreateLoad(I32,argSlot(B,gArgs,k++)),c32(0)); }); }
          idx+=n; } }
      B.CreateStore(ConstantPointerNull::get(cast<PointerType>(Ptr)),gTag);
    }
    for(auto*I:work) visit(st,I);
    for(auto&pr:st.phis){ auto*P=pr.first;auto*Q=pr.second; for(unsigned i=0;i<P->getNumIncomingValues();++i) Q->addIncoming(S(st,P->getIncomingValue(i)),P->getIncomingBlock(i)); }
  }
  void visit(FnState&st,Instruction*I){
    if(auto*P=dyn_cast<PHINode>(I)){ if(!hasShadow(P->getType())) return; IRBuilder<> B(P); auto*Q=B.CreatePHI(sty(P->getType()),P->getNumIncomingValues()); st.sh[P]=Q; st.phis.push_back({P,Q}); return; }
    if(auto*BO=dyn_cast<BinaryOperator>(I)){ Type*T=BO->getType()->getScalarType(); if(!scalarOK(T)) return; SymOp op=binop(BO->getOpcode()); Constant*si=site(I);
      st.sh[I]=elementwise(st,I,{BO->getOperand(0),BO->getOperand(1)},[&](IRBuilder<>&B,ArrayRef<Value*>v,ArrayRef<Value*>s,Value*res)->Value*{ return B.CreateCall(fBin,{c32(op),c32(width(T)),s[0],s[1],bits(B,v[0]),bits(B,v[1]),bits(B,res),si}); }); return; }
    if(auto*UO=dyn_cast<UnaryOperator>(I)){ Type*T=UO->getType()->getScalarType(); if(!scalarOK(T)||UO->getOpcode()!=Instruction::FNeg) return; Constant*si=site(I);
      st.sh[I]=elementwise(st,I,{UO->getOperand(0)},[&](IRBuilder<>&B,ArrayRef<Value*>v,ArrayRef<Value*>s,Value*res)->Value*{ return B.CreateCall(fUn,{c32(OP_FNEG),c32(width(T)),s[0],bits(B,v[0]),bits(B,res),si}); }); return; }
    if(auto*CI=dyn_cast<CmpInst>(I)){ Type*T=CI->getOperand(0)->getType(); if(!scalarOK(T)) return; bool neg; SymOp op=cmpop(CI->getPredicate(),neg); if(op==OP_LAST) return; Constant*si=site(I);
      Value*a=CI->getOperand(0),*b=CI->getOperand(1); st.sh[I]=guarded(I,{S(st,a),S(st,b)},[&](IRBuilder<>&B){ return B.CreateCall(fCmp,{c32(op),c32(width(T)),S(st,a),S(st,b),bits(B,a),bits(B,b),B.CreateZExt(CI,I32),si}); }); return; }
    if(auto*CA=dyn_cast<CastInst>(I)){ Type*A=CA->getSrcTy(),*T=CA->getDestTy(); if(!scalarOK(A)||!scalarOK(T)) return; SymOp op=castop(CA->getOpcode()); if(op==OP_LAST) return; Constant*si=site(I); Value*a=CA->getOperand(0);
      st.sh[I]=guarded(I,{S(st,a)},[&](IRBuilder<>&B){ return B.CreateCall(fCast,{c32(op),c32(width(A)),c32(width(T)),S(st,a),bits(B,a),bits(B,CA),si}); }); return; }
    if(auto*FI=dyn_cast<FreezeInst>(I)){ st.sh[I]=S(st,FI->getOperand(0)); return; }
    if(auto*SI=dyn_cast<SelectInst>(I)){ Value*c=SI->getCondition(); Value*sc=c->getType()->isIntegerTy(1)?S(st,c):c32(0); Constant*si=site(I);
      if(!scalarOK(I->getType())||SI->getType()->isVectorTy()){ if(!isZ(sc)) guardedBefore(I,sc,[&](IRBuilder<>&B){ B.CreateCall(fBranch,{sc,B.CreateZExt(c,I32),si}); });
        if(hasShadow(I->getType())&&c->getType()->isIntegerTy(1)){ IRBuilder<> B(I->getNextNode()); st.sh[I]=B.CreateSelect(c,S(st,SI->getTrueValue()),S(st,SI->getFalseValue())); } return; }
      Value*t=S(st,SI->getTrueValue()),*f=S(st,SI->getFalseValue());
      IRBuilder<> B(I->getNextNode()); Value*base=(isZ(t)&&isZ(f))?(Value*)c32(0):B.CreateSelect(c,t,f);
      if(isZ(sc)){ st.sh[I]=base; return; }
      Instruction*at=isa<Instruction>(base)&&!isZ(base)&&cast<Instruction>(base)->getParent()==I->getParent()?cast<Instruction>(base):I;
      Value*g=guarded(at,{sc},[&](IRBuilder<>&B2){ return B2.CreateCall(fSel,{c32(width(I->getType())),sc,B2.CreateZExt(c,I32),t,f,bits(B2,SI->getTrueValue()),bits(B2,SI->getFalseValue()),si}); });
      // result: g if sc!=0 else base
      Instruction*gi=cast<Instruction>(g); IRBuilder<> B3(&*gi->getParent()->getFirstInsertionPt()); Value*nz=B3.CreateICmpNE(sc,c32(0)); st.sh[I]=B3.CreateSelect(nz,g,base); return; }
    if(auto*LI=dyn_cast<LoadInst>(I)){ if(!hasShadow(LI->getType())) return; IRBuilder<> B(I->getNextNode()); st.sh[I]=loadSh(B,LI->getPointerOperand(),LI->getType()); return; }
    if(auto*SI=dyn_cast<StoreInst>(I)){ IRBuilder<> B(I->getNextNode()); storeSh(B,SI->getPointerOperand(),SI->getValueOperand()->getType(),S(st,SI->getValueOperand())); return; }
    if(isa<AtomicRMWInst>(I)||isa<AtomicCmpXchgInst>(I)){ return; }
    if(auto*G=dyn_cast<GetElementPtrInst>(I)){ for(auto&ix:G->indices()){ Value*v=ix; if(isa<Constant>(v)||!v->getType()->isIntegerTy()) continue; Value*s=S(st,v); Constant*si=site(I); guardedBefore(I,s,[&](IRBuilder<>&B){ B.CreateCall(fConcr,{s,c32(width(v->getType())),bits(B,v),si}); }); } return; }
    if(auto*E=dyn_cast<ExtractValueInst>(I)){ Value*s=S(st,E->getAggregateOperand()); if(isZ(s)) return; IRBuilder<> B(I->getNextNode()); st.sh[I]=B.CreateExtractValue(s,E->getIndices()); return; }
    if(auto*E=dyn_cast<InsertValueInst>(I)){ Value*s=S(st,E->getAggregateOperand()),*v=S(st,E->getInsertedValueOperand()); if(isZ(s)&&isZ(v)) return; IRBuilder<> B(I->getNextNode()); st.sh[I]=B.CreateInsertValue(s,v,E->getIndices()); return; }
    if(auto*E=dyn_cast<ExtractElementInst>(I)){ auto*ci=dyn_cast<ConstantInt>(E->getIndexOperand()); Value*s=S(st,E->getVectorOperand()); if(!ci||isZ(s)) return; IRBuilder<> B(I->getNextNode()); st.sh[I]=B.CreateExtractValue(s,(unsigned)ci->getZExtValue()); return; }
    if(auto*E=dyn_cast<InsertElementInst>(I)){ auto*ci=dyn_cast<ConstantInt>(E->getOperand(2)); Value*s=S(st,E->getOperand(0)),*v=S(st,E->getOperand(1)); if(!ci||(isZ(s)&&isZ(v))) return; IRBuilder<> B(I->getNextNode()); st.sh[I]=B.CreateInsertValue(s,v,(unsigned)ci->getZExtValue()); return; }
    if(auto*E=dyn_cast<ShuffleVectorInst>(I)){ Value*a=S(st,E->getOperand(0)),*b=S(st,E->getOperand(1)); if(isZ(a)&&isZ(b)) return; IRBuilder<> B(I->getNextNode()); unsigned n=cast<FixedVectorType>(E->getOperand(0)->getType())->getNumElements(); Value*r=Constant::getNullValue(sty(E->getType())); auto m=E->getShuffleMask(); for(unsigned i=0;i<m.size();++i){ if(m[i]<0) continue; r=B.CreateInsertValue(r,(unsigned)m[i]<n?B.CreateExtractValue(a,(unsigned)m[i]):B.CreateExtractValue(b,(unsigned)m[i]-n),i);} st.sh[I]=r; return; }
    if(auto*BI=dyn_cast<BranchInst>(I)){ if(BI->isConditional()){ Value*c=BI->getCondition(); Value*s=S(st,c); Constant*si=site(I); guardedBefore(I,s,[&](IRBuilder<>&B){ B.CreateCall(fBranch,{s,B.CreateZExt(c,I32),si}); }); } return; }
    if(auto*SW=dyn_cast<SwitchInst>(I)){ Value*c=SW->getCondition(); Value*s=S(st,c); Constant*si=site(I); guardedBefore(I,s,[&](IRBuilder<>&B){ B.CreateCall(fConcr,{s,c32(width(c->getType())),bits(B,c),si}); }); return; }
    if(auto*RI=dyn_cast<ReturnInst>(I)){ if(RI->getReturnValue()&&!(RI->getPrevNode()&&isa<CallInst>(RI->getPrevNode())&&cast<CallInst>(RI->getPrevNode())->isMustTailCall())){ Value*v=RI->getReturnValue(); IRBuilder<> B(I); if(hasShadow(v->getType())&&leaves(sty(v->getType()))<=kMaxArgs){ SmallVector<Value*,4> ls; flatten(B,S(st,v),ls); unsigned k=0; for(auto*l:ls) B.CreateStore(l,argSlot(B,gRet,k++)); B.CreateStore(I->getFunction(),gRetTag);} else B.CreateStore(ConstantPointerNull::get(cast<PointerType>(Ptr)),gRetTag);} return; }
    if(auto*CB=dyn_cast<CallBase>(I)){ doCall(st,CB); return; }
  }
};

struct SymPass : PassInfoMixin<SymPass> {
  PreservedAnalyses run(Module&M,ModuleAnalysisManager&){
    if(M.getNamedMetadata("sym.done")) return PreservedAnalyses::all();
    M.getOrInsertNamedMetadata("sym.done");
    SmallVector<Function*,256> fs; for(auto&F:M) fs.push_back(&F);
    auto strip=[](auto*x){ x->removeFnAttr(Attribute::Memory); x->removeFnAttr(Attribute::Speculatable); x->removeFnAttr(Attribute::WillReturn); x->removeFnAttr(Attribute::NoSync);} ;
    Inst in(M);
    for(auto*F:fs){ if(F->isIntrinsic()) continue; strip(F); }
    for(auto*F:fs) for(auto&I:instructions(F)) if(auto*CB=dyn_cast<CallBase>(&I)) if(!isa<IntrinsicInst>(CB)) { CB->removeFnAttr(Attribute::Memory); CB->removeFnAttr(Attribute::Speculatable);}    
    bool dbg=getenv("SYM_VERIFY"); for(auto*F:fs) if(!in.skipFn(*F)) { in.run(*F); in.enter(*F); if(dbg&&verifyFunction(*F,&errs())){ errs()<<"BROKEN "<<F->getName()<<"\n"; F->print(errs()); abort(); } }
    return PreservedAnalyses::none();
  }
  static bool isRequired(){return true;}
};
}
extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo(){
  return {LLVM_PLUGIN_API_VERSION,"sym","1",[](PassBuilder&PB){ PB.registerPipelineStartEPCallback([](ModulePassManager&MPM,OptimizationLevel){ MPM.addPass(SymPass()); }); }};
}

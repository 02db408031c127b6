// LLVM 18 pass plugin: turns every operation on `double` of the compiled translation unit into a call to the
// symbolic-real runtime (rt/rt.cpp). Data movement, integers, pointers, virtual calls and exceptions stay native.
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/PassManager.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Support/raw_ostream.h"
#include <set>
#include <map>
#include <string>
#include <cstdlib>

using namespace llvm;

namespace {

const std::map<std::string,std::string>& mathTable() {
  static const std::map<std::string,std::string> t = [] {
    std::map<std::string,std::string> m;
    for (const char* n : {"sqrt","exp","log","sin","cos","tan","fabs","floor","ceil","pow","hypot","atan2","fmin","fmax","fmod",
                          "log10","log2","exp2","sinh","cosh","tanh","atan","asin","acos","cbrt","expm1","log1p","round","trunc","rint","nearbyint",
                          "copysign","ldexp","frexp","modf","lgamma","tgamma","erf","fma",
                          "cabs","carg","cexp","clog","csqrt","cpow","csin","ccos","cproj","conj",
                          "sincos","fdim"})
      m[n]=std::string("__sr_")+n;
    m["__divdc3"]="__sr_divdc3"; m["__muldc3"]="__sr_muldc3";
    m["llvm.sqrt.f64"]="__sr_sqrt"; m["llvm.exp.f64"]="__sr_exp"; m["llvm.log.f64"]="__sr_log"; m["llvm.sin.f64"]="__sr_sin";
    m["llvm.cos.f64"]="__sr_cos"; m["llvm.fabs.f64"]="__sr_fabs"; m["llvm.floor.f64"]="__sr_floor"; m["llvm.ceil.f64"]="__sr_ceil";
    m["llvm.pow.f64"]="__sr_pow"; m["llvm.fma.f64"]="__sr_fma"; m["llvm.fmuladd.f64"]="__sr_fma"; m["llvm.minnum.f64"]="__sr_fmin";
    m["llvm.maxnum.f64"]="__sr_fmax"; m["llvm.copysign.f64"]="__sr_copysign"; m["llvm.round.f64"]="__sr_round"; m["llvm.trunc.f64"]="__sr_trunc";
    m["llvm.rint.f64"]="__sr_rint"; m["llvm.nearbyint.f64"]="__sr_nearbyint"; m["llvm.exp2.f64"]="__sr_exp2"; m["llvm.log10.f64"]="__sr_log10"; m["llvm.log2.f64"]="__sr_log2";
    m["llvm.powi.f64.i32"]="__sr_powi";
    return m;
  }();
  return t;
}

bool allowlisted(StringRef n) {
  // formatted output of doubles: rendering only, never fed back into a computation that is claimed
  return n=="_ZNSolsEd" || n.starts_with("_ZNSo9_M_insertId") || n.starts_with("__sr_") || n.starts_with("sr_") || n.starts_with("gsl_");
}

struct SymReal : PassInfoMixin<SymReal> {
  static bool isRequired() {return true;}

  PreservedAnalyses run(Module& M, ModuleAnalysisManager&) {
    LLVMContext& C=M.getContext();
    Type *D=Type::getDoubleTy(C), *I1=Type::getInt1Ty(C), *I32=Type::getInt32Ty(C), *I64=Type::getInt64Ty(C), *V=Type::getVoidTy(C), *P=PointerType::get(C,0);
    auto fn=[&](const char* n, Type* r, ArrayRef<Type*> a) {return M.getOrInsertFunction(n,FunctionType::get(r,a,false));};

    const char* prefix=std::getenv("SR_TRACE_PREFIX"); // functions whose source lies here are recorded when executed

    std::vector<Function*> fs;
    for (Function& F : M) if (!F.isDeclaration() && !F.getName().starts_with("__sr_")) fs.push_back(&F);

    for (Function* F : fs) {
      std::vector<Instruction*> insts;
      for (Instruction& I : instructions(*F)) insts.push_back(&I);
      for (Instruction* I : insts) {
        IRBuilder<> B(I);
        if (auto* BO=dyn_cast<BinaryOperator>(I)) {
          Type* T=BO->getType();
          if (auto* VT=dyn_cast<VectorType>(T)) if (VT->getElementType()==D) report_fatal_error(Twine("SymReal: vector FP operation in ")+F->getName());
          if (T!=D) continue;
          const char* n=nullptr;
          switch (BO->getOpcode()) {
            case Instruction::FAdd: n="__sr_fadd"; break;
            case Instruction::FSub: n="__sr_fsub"; break;
            case Instruction::FMul: n="__sr_fmul"; break;
            case Instruction::FDiv: n="__sr_fdiv"; break;
            case Instruction::FRem: n="__sr_fmod"; break;
            default: break;
          }
          if (!n) continue;
          auto* c=B.CreateCall(fn(n,D,{D,D}),{BO->getOperand(0),BO->getOperand(1)});
          I->replaceAllUsesWith(c); I->eraseFromParent();
        }
        else if (auto* UO=dyn_cast<UnaryOperator>(I)) {
          if (UO->getType()!=D) continue;
          auto* c=B.CreateCall(fn("__sr_fneg",D,{D}),{UO->getOperand(0)});
          I->replaceAllUsesWith(c); I->eraseFromParent();
        }
        else if (auto* FC=dyn_cast<FCmpInst>(I)) {
          if (FC->getOperand(0)->getType()!=D) continue;
          auto* c=B.CreateCall(fn("__sr_fcmp",I32,{I32,D,D}),{ConstantInt::get(I32,FC->getPredicate()),FC->getOperand(0),FC->getOperand(1)});
          auto* t=B.CreateTrunc(c,I1);
          I->replaceAllUsesWith(t); I->eraseFromParent();
        }
        else if (auto* CI=dyn_cast<CastInst>(I)) {
          Type *S=CI->getSrcTy(), *T=CI->getDestTy();
          if ((isa<FPToSIInst>(I)||isa<FPToUIInst>(I)) && S==D && T->isIntegerTy()) {
            bool u=isa<FPToUIInst>(I);
            auto* c=B.CreateCall(fn(u ? "__sr_fptoui":"__sr_fptosi",I64,{D}),{CI->getOperand(0)});
            auto* t=B.CreateZExtOrTrunc(c,T);
            I->replaceAllUsesWith(t); I->eraseFromParent();
          }
          else if ((isa<FPExtInst>(I)||isa<FPTruncInst>(I)) && S==D) {
            auto* c=B.CreateCall(fn("__sr_guard",D,{D,P}),{CI->getOperand(0),B.CreateGlobalStringPtr("fpext/fptrunc")});
            CI->setOperand(0,c);
          }
        }
        else if (auto* CB=dyn_cast<CallBase>(I)) {
          Function* callee=CB->getCalledFunction();
          if (!callee) continue;
          StringRef n=callee->getName();
          if (n.starts_with("llvm.is.fpclass.f64")) {
            auto* c=B.CreateCall(fn("__sr_fpclass",I32,{D,I32}),{CB->getArgOperand(0),CB->getArgOperand(1)});
            auto* t=B.CreateTrunc(c,I1);
            I->replaceAllUsesWith(t); I->eraseFromParent();
            continue;
          }
          auto it=mathTable().find(n.str());
          if (it!=mathTable().end()) {
            auto nf=M.getOrInsertFunction(it->second,CB->getFunctionType());
            CB->setCalledFunction(nf);
            CB->setAttributes(AttributeList());
            continue;
          }
          if (!callee->isDeclaration()) continue;
          if (n.starts_with("llvm.") && callee->getReturnType()==D) report_fatal_error(Twine("SymReal: unhandled FP intrinsic ")+n);
          bool ext = !n.starts_with("_Z") || n.starts_with("_ZNSt") || n.starts_with("_ZSt") || n.starts_with("_ZNKSt") || n.starts_with("_ZNSo") || n.starts_with("_ZNSi");
          if (!ext || allowlisted(n) || n.starts_with("llvm.")) continue;
          for (unsigned i=0; i<CB->arg_size(); ++i) if (CB->getArgOperand(i)->getType()==D) {
            auto* c=B.CreateCall(fn("__sr_guard",D,{D,P}),{CB->getArgOperand(i),B.CreateGlobalStringPtr(n)});
            CB->setArgOperand(i,c);
          }
        }
      }
      // execution record
      if (prefix) if (auto* SP=F->getSubprogram()) {
        std::string file=SP->getFile() ? (SP->getFile()->getDirectory()+"/"+SP->getFile()->getFilename()).str() : "";
        std::string fname=SP->getFile() ? SP->getFile()->getFilename().str() : "";
        if (fname.rfind(prefix,0)==0 || file.rfind(prefix,0)==0) {
          auto* flag=new GlobalVariable(M,Type::getInt8Ty(C),false,GlobalValue::InternalLinkage,ConstantInt::get(Type::getInt8Ty(C),0),"__sr_flag");
          BasicBlock& E=F->getEntryBlock();
          IRBuilder<> B(&*E.getFirstInsertionPt());
          std::string nm=(F->getName()+"|"+fname).str();
          B.CreateCall(fn("__sr_enter",V,{P,P}),{flag,B.CreateGlobalStringPtr(nm)});
        }
      }
    }
    return PreservedAnalyses::none();
  }
};

} // namespace

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo() {
  return {LLVM_PLUGIN_API_VERSION,"SymReal","1",[](PassBuilder& PB) {
    PB.registerPipelineStartEPCallback([](ModulePassManager& MPM, OptimizationLevel) {MPM.addPass(SymReal());});
  }};
}

// LLVM pass plugin (clang 18): turns every floating-point operation of a translation unit into a call of the
// symbolic runtime (sym_rt.cpp).  Everything else (integers, pointers, control flow, exceptions, virtual calls, the
// standard library) stays native code; symbolic doubles travel through it as NaN-boxed handles.
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/PassManager.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Support/raw_ostream.h"
#include <cstdlib>
#include <map>
#include <set>
#include <string>
using namespace llvm;

namespace {
struct SymFP : PassInfoMixin<SymFP>
{
  LLVMContext *C;
  Module *M;
  Type *D, *F, *I32, *I64;

  FunctionCallee fn(StringRef n, Type *r, ArrayRef<Type *> a)
  {
    return M->getOrInsertFunction(n, FunctionType::get(r, a, false));
  }

  // scalar helpers ------------------------------------------------------------------------------------------------
  Value *toD(IRBuilder<> &B, Value *v) // float -> double, moving boxes
  {
    if (v->getType() == D) return v;
    return B.CreateCall(fn("__sym_f2d", D, { F }), { v });
  }
  Value *fromD(IRBuilder<> &B, Value *v, Type *t)
  {
    if (t == D) return v;
    return B.CreateCall(fn("__sym_d2f", F, { D }), { v });
  }
  static bool fp(Type *t) { return t->isDoubleTy() || t->isFloatTy(); }

  Value *bin(IRBuilder<> &B, const char *name, Value *a, Value *b)
  {
    Type *t = a->getType();
    Value *r = B.CreateCall(fn(name, D, { D, D }), { toD(B, a), toD(B, b) });
    return fromD(B, r, t);
  }
  Value *un(IRBuilder<> &B, const char *name, Value *a)
  {
    Type *t = a->getType();
    return fromD(B, B.CreateCall(fn(name, D, { D }), { toD(B, a) }), t);
  }
  // element-wise over fixed vectors
  template <typename Fn>
  Value *each(IRBuilder<> &B, Type *resTy, ArrayRef<Value *> ops, Fn f)
  {
    auto *vt = dyn_cast<FixedVectorType>(resTy);
    if (!vt) return f(ops);
    Value *r = PoisonValue::get(resTy);
    for (unsigned i = 0; i < vt->getNumElements(); i++) {
      SmallVector<Value *, 3> e;
      for (auto *o : ops) e.push_back(o->getType()->isVectorTy() ? B.CreateExtractElement(o, i) : o);
      r = B.CreateInsertElement(r, f(e), i);
    }
    return r;
  }

  bool run1(Function &Fn)
  {
    SmallVector<Instruction *, 64> work;
    for (auto &I : instructions(Fn)) work.push_back(&I);
    bool ch = false;
    for (Instruction *I : work) {
      IRBuilder<> B(I);
      Value *rep = nullptr;
      Type *st = I->getType()->getScalarType();
      switch (I->getOpcode()) {
      case Instruction::FAdd:
      case Instruction::FSub:
      case Instruction::FMul:
      case Instruction::FDiv:
      case Instruction::FRem: {
        if (!fp(st)) break;
        const char *n = I->getOpcode() == Instruction::FAdd ? "__sym_add" : I->getOpcode() == Instruction::FSub ? "__sym_sub"
                                                                         : I->getOpcode() == Instruction::FMul   ? "__sym_mul"
                                                                         : I->getOpcode() == Instruction::FDiv   ? "__sym_div"
                                                                                                                 : "__sym_rem";
        rep = each(B, I->getType(), { I->getOperand(0), I->getOperand(1) }, [&](ArrayRef<Value *> o) { return bin(B, n, o[0], o[1]); });
        break;
      }
      case Instruction::FNeg:
        if (fp(st)) rep = each(B, I->getType(), { I->getOperand(0) }, [&](ArrayRef<Value *> o) { return un(B, "__sym_neg", o[0]); });
        break;
      case Instruction::FCmp: {
        auto *c = cast<FCmpInst>(I);
        Type *ot = c->getOperand(0)->getType()->getScalarType();
        if (!fp(ot)) break;
        int pred = c->getPredicate();
        rep = each(B, I->getType(), { c->getOperand(0), c->getOperand(1) }, [&](ArrayRef<Value *> o) -> Value * {
          Value *r = B.CreateCall(fn("__sym_fcmp", I32, { I32, D, D }), { ConstantInt::get(I32, pred), toD(B, o[0]), toD(B, o[1]) });
          return B.CreateICmpNE(r, ConstantInt::get(I32, 0));
        });
        break;
      }
      case Instruction::FPToSI:
      case Instruction::FPToUI: {
        Type *ot = I->getOperand(0)->getType()->getScalarType();
        if (!fp(ot) || st->getIntegerBitWidth() > 64) break;
        bool s = I->getOpcode() == Instruction::FPToSI;
        int bw = st->getIntegerBitWidth();
        rep = each(B, I->getType(), { I->getOperand(0) }, [&](ArrayRef<Value *> o) -> Value * {
          Value *r = B.CreateCall(fn(s ? "__sym_toint" : "__sym_touint", I64, { D, I32 }), { toD(B, o[0]), ConstantInt::get(I32, bw) });
          return B.CreateTruncOrBitCast(r, st);
        });
        break;
      }
      case Instruction::FPTrunc:
        if (st->isFloatTy() && I->getOperand(0)->getType()->getScalarType()->isDoubleTy())
          rep = each(B, I->getType(), { I->getOperand(0) }, [&](ArrayRef<Value *> o) -> Value * { return fromD(B, o[0], F); });
        break;
      case Instruction::FPExt:
        if (st->isDoubleTy() && I->getOperand(0)->getType()->getScalarType()->isFloatTy())
          rep = each(B, I->getType(), { I->getOperand(0) }, [&](ArrayRef<Value *> o) -> Value * { return toD(B, o[0]); });
        break;
      case Instruction::Call:
      case Instruction::Invoke: {
        auto *c = cast<CallBase>(I);
        Function *f = c->getCalledFunction();
        if (!f) break;
        StringRef nm = f->getName();
        if (f->isIntrinsic()) {
          const char *u = nullptr, *b2 = nullptr;
          switch (f->getIntrinsicID()) {
          case Intrinsic::sqrt: u = "__sym_sqrt"; break;
          case Intrinsic::fabs: u = "__sym_fabs"; break;
          case Intrinsic::floor: u = "__sym_floor"; break;
          case Intrinsic::ceil: u = "__sym_ceil"; break;
          case Intrinsic::trunc: u = "__sym_trunc"; break;
          case Intrinsic::round: u = "__sym_round"; break;
          case Intrinsic::exp: u = "__sym_exp"; break;
          case Intrinsic::log: u = "__sym_log"; break;
          case Intrinsic::sin: u = "__sym_sin"; break;
          case Intrinsic::cos: u = "__sym_cos"; break;
          case Intrinsic::pow: b2 = "__sym_pow"; break;
          case Intrinsic::minnum: b2 = "__sym_fmin"; break;
          case Intrinsic::maxnum: b2 = "__sym_fmax"; break;
          case Intrinsic::copysign: b2 = "__sym_copysign"; break;
          case Intrinsic::fmuladd:
          case Intrinsic::fma:
            if (fp(st))
              rep = each(B, I->getType(), { c->getArgOperand(0), c->getArgOperand(1), c->getArgOperand(2) }, [&](ArrayRef<Value *> o) { return bin(B, "__sym_add", bin(B, "__sym_mul", o[0], o[1]), o[2]); });
            break;
          case Intrinsic::powi:
            if (fp(st)) {
              Value *e = B.CreateSIToFP(c->getArgOperand(1), D);
              rep = each(B, I->getType(), { c->getArgOperand(0) }, [&](ArrayRef<Value *> o) { return fromD(B, bin(B, "__sym_pow", toD(B, o[0]), e), st); });
            }
            break;
          case Intrinsic::is_fpclass:
            if (fp(c->getArgOperand(0)->getType())) {
              Value *r = B.CreateCall(fn("__sym_fpclass", I32, { D, I32 }), { toD(B, c->getArgOperand(0)), B.CreateZExtOrTrunc(c->getArgOperand(1), I32) });
              rep = B.CreateICmpNE(r, ConstantInt::get(I32, 0));
            }
            break;
          case Intrinsic::vector_reduce_fadd: {
            auto *vt = cast<FixedVectorType>(c->getArgOperand(1)->getType());
            Value *acc = c->getArgOperand(0);
            for (unsigned i = 0; i < vt->getNumElements(); i++) acc = bin(B, "__sym_add", acc, B.CreateExtractElement(c->getArgOperand(1), i));
            rep = acc;
            break;
          }
          default: break;
          }
          if (u && fp(st)) rep = each(B, I->getType(), { c->getArgOperand(0) }, [&](ArrayRef<Value *> o) { return un(B, u, o[0]); });
          if (b2 && fp(st)) rep = each(B, I->getType(), { c->getArgOperand(0), c->getArgOperand(1) }, [&](ArrayRef<Value *> o) { return bin(B, b2, o[0], o[1]); });
        } else if (f->isDeclaration() && nm == "_ZNSo9_M_insertIdEERSoT_") { // printing: a symbolic value is printed as its handle
          c->setCalledFunction(fn("__sym_print", f->getReturnType(), { f->getArg(0)->getType(), D }));
          c->setAttributes({});
          ch = true;
        } else if (f->isDeclaration() && nm == "_ZNSi10_M_extractIdEERSiRT_") { // ... and read back
          c->setCalledFunction(fn("__sym_scan", f->getReturnType(), { f->getArg(0)->getType(), f->getArg(1)->getType() }));
          c->setAttributes({});
          ch = true;
        } else if (f->isDeclaration() && fp(I->getType())) {
          static const std::map<std::string, std::pair<const char *, int>> lib = {
            { "sqrt", { "__sym_sqrt", 1 } }, { "exp", { "__sym_exp", 1 } }, { "log", { "__sym_log", 1 } }, { "sin", { "__sym_sin", 1 } }, { "cos", { "__sym_cos", 1 } }, { "sinh", { "__sym_sinh", 1 } }, { "asinh", { "__sym_asinh", 1 } }, { "tanh", { "__sym_tanh", 1 } }, { "fabs", { "__sym_fabs", 1 } }, { "floor", { "__sym_floor", 1 } }, { "ceil", { "__sym_ceil", 1 } }, { "trunc", { "__sym_trunc", 1 } }, { "round", { "__sym_round", 1 } }, { "pow", { "__sym_pow", 2 } }, { "fmin", { "__sym_fmin", 2 } }, { "fmax", { "__sym_fmax", 2 } }, { "fmod", { "__sym_rem", 2 } }, { "copysign", { "__sym_copysign", 2 } }, { "cbrt", { "__sym_cbrt", 1 } }, { "expm1", { "__sym_expm1", 1 } }, { "log1p", { "__sym_log1p", 1 } }, { "hypot", { "__sym_hypot", 2 } },
          };
          auto it = lib.find(nm.str());
          if (it != lib.end() && (int)c->arg_size() == it->second.second && I->getType()->isDoubleTy()) {
            if (it->second.second == 1)
              rep = un(B, it->second.first, c->getArgOperand(0));
            else
              rep = bin(B, it->second.first, c->getArgOperand(0), c->getArgOperand(1));
            if (auto *inv = dyn_cast<InvokeInst>(I)) {
              BranchInst::Create(inv->getNormalDest(), inv->getParent()); // appended after the invoke, which is erased below
              inv->getUnwindDest()->removePredecessor(inv->getParent());
            }
          }
        }
        break;
      }
      default: break;
      }
      if (rep) {
        I->replaceAllUsesWith(rep);
        I->eraseFromParent();
        ch = true;
      }
    }
    Fn.removeFnAttr(Attribute::Memory);
    return ch;
  }

  PreservedAnalyses run(Module &Mod, ModuleAnalysisManager &)
  {
    M = &Mod;
    C = &Mod.getContext();
    D = Type::getDoubleTy(*C);
    F = Type::getFloatTy(*C);
    I32 = Type::getInt32Ty(*C);
    I64 = Type::getInt64Ty(*C);
    std::set<std::string> ext;
    long nf = 0, ni = 0;
    for (auto &Fn : Mod) {
      if (Fn.isDeclaration()) continue;
      nf++;
      for (auto &I : instructions(Fn)) ni += 1;
      run1(Fn);
    }
    for (auto &Fn : Mod)
      for (auto &I : instructions(Fn))
        if (auto *c = dyn_cast<CallBase>(&I))
          if (auto *f = c->getCalledFunction())
            if (f->isDeclaration() && !f->isIntrinsic() && !f->getName().starts_with("__sym_")) {
              bool usesD = fp(f->getReturnType());
              for (auto &a : c->args()) usesD |= fp(a->getType());
              if (usesD) ext.insert(f->getName().str());
            }
    if (const char *p = getenv("SYMPASS_LOG")) {
      std::error_code ec;
      raw_fd_ostream os(p, ec);
      os << "functions " << nf << "\ninstructions " << ni << "\n";
      for (auto &Fn : Mod)
        if (!Fn.isDeclaration() && Fn.getName().contains("5slide")) os << "fn " << Fn.getName() << "\n";
      for (auto &e : ext) os << "ext " << e << "\n";
    }
    return PreservedAnalyses::none();
  }
  static bool isRequired() { return true; }
};
} // namespace

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo()
{
  return { LLVM_PLUGIN_API_VERSION, "SymFP", "1", [](PassBuilder &PB) {
            PB.registerOptimizerLastEPCallback([](ModulePassManager &MPM, OptimizationLevel) { MPM.addPass(SymFP()); });
          } };
}

// irdump: print an LLVM module as JSON lines for the static analyser (engine/absint.py).
// Only the shape of the program is printed; nothing is executed.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/ADT/MapVector.h"
#include "llvm/ADT/SmallString.h"
#include <map>
using namespace llvm;
static const DataLayout *DL;
static std::map<const Value *, int> Ids;

static std::string tyStr(Type *T) {
    std::string s; raw_string_ostream o(s); T->print(o, false, true); return s;
}
static json::Value constAgg(const Constant *C);
static json::Value val(const Value *V);

static json::Value tyJ(Type *T) {
    if (T->isIntegerTy()) return json::Array{"i", (int64_t)T->getIntegerBitWidth()};
    if (T->isPointerTy()) return json::Array{"p"};
    if (T->isFloatingPointTy()) return json::Array{"f", (int64_t)T->getPrimitiveSizeInBits()};
    if (T->isVoidTy()) return json::Array{"void"};
    if (auto *S = dyn_cast<StructType>(T)) {
        json::Array a; a.push_back("s");
        const StructLayout *L = S->isSized() ? DL->getStructLayout(S) : nullptr;
        json::Array el;
        for (unsigned i = 0; i < S->getNumElements(); ++i)
            el.push_back(json::Array{L ? (int64_t)(uint64_t)L->getElementOffset(i) : -1, tyJ(S->getElementType(i))});
        a.push_back(std::move(el)); return a;
    }
    if (auto *A = dyn_cast<ArrayType>(T)) {
        return json::Array{"a", (int64_t)A->getNumElements(), (int64_t)DL->getTypeAllocSize(A->getElementType()).getFixedValue(), tyJ(A->getElementType())};
    }
    if (auto *A = dyn_cast<FixedVectorType>(T)) {
        return json::Array{"v", (int64_t)A->getNumElements(), tyJ(A->getElementType())};
    }
    return json::Array{"?", tyStr(T)};
}
static json::Value apintJ(const APInt &A) {
    SmallString<64> s; A.toStringUnsigned(s, 10); return std::string(s);
}
static json::Value gepJ(const GEPOperator *G) {
    MapVector<Value *, APInt> Var;
    APInt Off(64, 0);
    json::Array vars;
    if (!G->collectOffset(*DL, 64, Var, Off)) return json::Array{"bad", "gep"};
    for (auto &kv : Var) vars.push_back(json::Array{val(kv.first), kv.second.getSExtValue()});
    return json::Array{"gep", val(G->getPointerOperand()), Off.getSExtValue(), std::move(vars)};
}
static json::Value val(const Value *V) {
    if (auto *C = dyn_cast<ConstantInt>(V)) return json::Array{"i", (int64_t)C->getBitWidth(), apintJ(C->getValue())};
    if (auto *C = dyn_cast<ConstantFP>(V)) {
        SmallString<64> s; 
        APFloat f = C->getValueAPF();
        return json::Array{"f", (int64_t)C->getType()->getPrimitiveSizeInBits(), apintJ(f.bitcastToAPInt())};
    }
    if (isa<ConstantPointerNull>(V)) return json::Array{"null"};
    if (isa<PoisonValue>(V)) return json::Array{"undef", tyJ(V->getType())};
    if (isa<UndefValue>(V)) return json::Array{"undef", tyJ(V->getType())};
    if (auto *F = dyn_cast<Function>(V)) return json::Array{"fn", F->getName().str()};
    if (auto *G = dyn_cast<GlobalAlias>(V)) return val(G->getAliasee());
    if (auto *G = dyn_cast<GlobalVariable>(V)) return json::Array{"g", G->getName().str()};
    if (auto *C = dyn_cast<ConstantExpr>(V)) {
        if (auto *G = dyn_cast<GEPOperator>(C)) return gepJ(G);
        json::Array ops; for (auto &O : C->operands()) ops.push_back(val(O.get()));
        return json::Array{"ce", C->getOpcodeName(), tyJ(C->getType()), std::move(ops)};
    }
    if (auto *C = dyn_cast<Constant>(V)) {
        if (isa<ConstantAggregateZero>(C)) return json::Array{"zeroagg", tyJ(C->getType())};
        if (isa<ConstantAggregate>(C) || isa<ConstantDataSequential>(C)) {
            json::Array el;
            if (auto *D = dyn_cast<ConstantDataSequential>(C)) for (unsigned i = 0; i < D->getNumElements(); ++i) el.push_back(val(D->getElementAsConstant(i)));
            else for (auto &O : C->operands()) el.push_back(val(O.get()));
            return json::Array{"agg", tyJ(C->getType()), std::move(el)};
        }
        return json::Array{"bad", tyStr(C->getType())};
    }
    if (isa<MetadataAsValue>(V)) return json::Array{"md"};
    if (isa<InlineAsm>(V)) return json::Array{"bad", "asm"};
    auto it = Ids.find(V);
    if (it == Ids.end()) return json::Array{"bad", "unknown"};
    return json::Array{"r", it->second};
}
// flatten a constant initializer into (offset, size, value)
static void flat(const Constant *C, int64_t off, json::Array &out) {
    Type *T = C->getType();
    if (isa<ConstantAggregateZero>(C)) { out.push_back(json::Array{off, (int64_t)DL->getTypeAllocSize(T).getFixedValue(), json::Array{"zero"}}); return; }
    if (auto *D = dyn_cast<ConstantDataSequential>(C)) {
        int64_t es = DL->getTypeAllocSize(D->getElementType()).getFixedValue();
        for (unsigned i = 0; i < D->getNumElements(); ++i) out.push_back(json::Array{off + es * i, es, val(D->getElementAsConstant(i))});
        return;
    }
    if (auto *S = dyn_cast<ConstantStruct>(C)) {
        auto *L = DL->getStructLayout(S->getType());
        for (unsigned i = 0; i < S->getNumOperands(); ++i) flat(S->getOperand(i), off + (int64_t)(uint64_t)L->getElementOffset(i), out);
        return;
    }
    if (auto *A = dyn_cast<ConstantArray>(C)) {
        int64_t es = DL->getTypeAllocSize(A->getType()->getElementType()).getFixedValue();
        for (unsigned i = 0; i < A->getNumOperands(); ++i) flat(A->getOperand(i), off + es * i, out);
        return;
    }
    out.push_back(json::Array{off, (int64_t)DL->getTypeStoreSize(T).getFixedValue(), val(C)});
}
int main(int argc, char **argv) {
    LLVMContext Ctx; SMDiagnostic Err;
    auto M = parseIRFile(argv[1], Err, Ctx);
    if (!M) { Err.print(argv[0], errs()); return 2; }
    DL = &M->getDataLayout();
    for (auto &G : M->globals()) {
        json::Object o; o["k"] = "global"; o["name"] = G.getName().str();
        o["size"] = (int64_t)(G.getValueType()->isSized() ? DL->getTypeAllocSize(G.getValueType()).getFixedValue() : 0);
        o["const"] = G.isConstant();
        if (G.hasInitializer()) { json::Array a; flat(G.getInitializer(), 0, a); o["init"] = std::move(a); }
        outs() << json::Value(std::move(o)) << "\n";
    }
    for (auto &F : *M) {
        json::Object o; o["k"] = "fn"; o["name"] = F.getName().str(); o["ret"] = tyJ(F.getReturnType());
        if (auto *SP = F.getSubprogram()) { o["file"] = SP->getFilename().str(); o["line"] = (int64_t)SP->getLine(); }
        json::Array args; Ids.clear(); int n = 0;
        for (auto &A : F.args()) { Ids[&A] = n++;
            json::Object ao; ao["ty"] = tyJ(A.getType());
            if (A.hasByValAttr()) ao["byval"] = (int64_t)DL->getTypeAllocSize(A.getParamByValType()).getFixedValue();
            if (A.hasStructRetAttr()) ao["sret"] = true;
            args.push_back(std::move(ao)); }
        o["args"] = std::move(args);
        o["decl"] = F.isDeclaration();
        if (!F.isDeclaration()) {
            std::map<const BasicBlock *, int> B; int bn = 0;
            for (auto &BB : F) { B[&BB] = bn++; for (auto &I : BB) Ids[&I] = n++; }
            json::Array blocks;
            for (auto &BB : F) {
                json::Array insts;
                for (auto &I : BB) {
                    if (isa<DbgInfoIntrinsic>(I)) continue;
                    json::Object i; i["op"] = I.getOpcodeName(); i["id"] = Ids[&I]; i["ty"] = tyJ(I.getType());
                    if (auto &D = I.getDebugLoc()) {
                        json::Array loc;
                        for (const DILocation *L = D.get(); L; L = L->getInlinedAt()) {
                            loc.push_back(json::Array{L->getFilename().str(), (int64_t)L->getLine(), L->getScope()->getSubprogram() ? L->getScope()->getSubprogram()->getName().str() : ""});
                        }
                        i["loc"] = std::move(loc);
                    }
                    if (auto *P = dyn_cast<PHINode>(&I)) {
                        json::Array a; for (unsigned k = 0; k < P->getNumIncomingValues(); ++k) a.push_back(json::Array{val(P->getIncomingValue(k)), B[P->getIncomingBlock(k)]});
                        i["in"] = std::move(a);
                    } else if (auto *Br = dyn_cast<BranchInst>(&I)) {
                        json::Array t; for (unsigned k = 0; k < Br->getNumSuccessors(); ++k) t.push_back(B[Br->getSuccessor(k)]);
                        i["tgt"] = std::move(t); if (Br->isConditional()) i["cond"] = val(Br->getCondition());
                    } else if (auto *Sw = dyn_cast<SwitchInst>(&I)) {
                        i["cond"] = val(Sw->getCondition()); i["def"] = B[Sw->getDefaultDest()];
                        json::Array a; for (auto &c : Sw->cases()) a.push_back(json::Array{val(c.getCaseValue()), B[c.getCaseSuccessor()]});
                        i["cases"] = std::move(a);
                    } else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
                        i["gep"] = gepJ(cast<GEPOperator>(G));
                    } else if (auto *A = dyn_cast<AllocaInst>(&I)) {
                        i["size"] = (int64_t)DL->getTypeAllocSize(A->getAllocatedType()).getFixedValue(); i["n"] = val(A->getArraySize());
                    } else if (auto *L = dyn_cast<LoadInst>(&I)) {
                        i["ptr"] = val(L->getPointerOperand()); i["size"] = (int64_t)DL->getTypeStoreSize(L->getType()).getFixedValue();
                    } else if (auto *S = dyn_cast<StoreInst>(&I)) {
                        i["ptr"] = val(S->getPointerOperand()); i["v"] = val(S->getValueOperand()); i["vty"] = tyJ(S->getValueOperand()->getType());
                        i["size"] = (int64_t)DL->getTypeStoreSize(S->getValueOperand()->getType()).getFixedValue();
                    } else if (auto *C = dyn_cast<CallBase>(&I)) {
                        i["callee"] = val(C->getCalledOperand());
                        json::Array a; for (auto &O : C->args()) a.push_back(val(O.get()));
                        i["args"] = std::move(a);
                        json::Array bv; for (unsigned k = 0; k < C->arg_size(); ++k) bv.push_back(C->isByValArgument(k) ? (int64_t)DL->getTypeAllocSize(C->getParamByValType(k)).getFixedValue() : 0);
                        i["byval"] = std::move(bv);
                        if (auto *Iv = dyn_cast<InvokeInst>(&I)) { i["normal"] = B[Iv->getNormalDest()]; i["unwind"] = B[Iv->getUnwindDest()]; }
                    } else if (auto *E = dyn_cast<ExtractValueInst>(&I)) {
                        i["a"] = json::Array{val(E->getAggregateOperand())}; json::Array x; for (auto k : E->indices()) x.push_back((int64_t)k); i["idx"] = std::move(x);
                    } else if (auto *E = dyn_cast<InsertValueInst>(&I)) {
                        i["a"] = json::Array{val(E->getAggregateOperand()), val(E->getInsertedValueOperand())}; json::Array x; for (auto k : E->indices()) x.push_back((int64_t)k); i["idx"] = std::move(x);
                    } else {
                        if (auto *Cm = dyn_cast<CmpInst>(&I)) i["pred"] = CmpInst::getPredicateName(Cm->getPredicate()).str();
                        json::Array a; for (auto &O : I.operands()) if (!isa<BasicBlock>(O.get())) a.push_back(val(O.get()));
                        i["a"] = std::move(a);
                        if (I.getNumOperands() && !isa<BasicBlock>(I.getOperand(0))) i["aty"] = tyJ(I.getOperand(0)->getType());
                    }
                    insts.push_back(std::move(i));
                }
                blocks.push_back(std::move(insts));
            }
            o["blocks"] = std::move(blocks);
        }
        outs() << json::Value(std::move(o)) << "\n";
    }
}

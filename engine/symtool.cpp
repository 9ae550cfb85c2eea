// symtool: instruments LLVM bitcode for symbolic execution.
//
//   symtool in.bc out.bc fns.txt
//
// Every first-class SSA value gets a *shadow*: a pointer to an expression (null = the value is concrete).
// Where an operation has a symbolic operand, a call into the runtime (symrt.cpp) builds the expression for the result;
// where control flow, an address, an allocation size or a call into code that is not in the bitcode depends on a
// symbolic value, the runtime asks the solver which values are possible and forks one process per possibility.
// Memory has a byte-granular shadow in the runtime.
#include "llvm/IR/Module.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/LegacyPassManager.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/CFG.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Bitcode/BitcodeWriter.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/FileSystem.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/Local.h"
#include "llvm/Transforms/Utils.h"
#include "llvm/Transforms/Scalar.h"
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace llvm;

static LLVMContext Ctx;
static Module* M;
static const DataLayout* DL;
static PointerType* PtrTy;
static IntegerType *I1, *I8, *I32, *I64;
static Type* VoidTy;
static Constant* NullSh;

static GlobalVariable *GArgs, *GArgFn, *GRet, *GFuel, *GFnHit;
static const int MAXARGS = 64;

// Opcodes shared with symrt.cpp
enum { OP_ADD=2, OP_SUB, OP_MUL, OP_UDIV, OP_SDIV, OP_UREM, OP_SREM, OP_AND, OP_OR, OP_XOR, OP_SHL, OP_LSHR, OP_ASHR,
       OP_EQ, OP_ULT, OP_ULE, OP_SLT, OP_SLE, OP_ITE, OP_CONCAT, OP_EXTRACT, OP_ZEXT, OP_SEXT,
       OP_NE=64, OP_UGT, OP_UGE, OP_SGT, OP_SGE };

static FunctionCallee rt(const char* name, Type* ret, ArrayRef<Type*> args) {
    return M->getOrInsertFunction(name, FunctionType::get(ret, args, false));
}

static Type* shadowTy(Type* t) {
    if (auto st = dyn_cast<StructType>(t)) {
        std::vector<Type*> el;
        for (Type* e : st->elements()) el.push_back(shadowTy(e));
        return StructType::get(Ctx, el);
    }
    if (auto at = dyn_cast<ArrayType>(t)) return ArrayType::get(shadowTy(at->getElementType()), at->getNumElements());
    return PtrTy;
}
static bool isScalar(Type* t) { return (t->isIntegerTy() && t->getIntegerBitWidth() <= 64) || t->isPointerTy(); }
static bool isAgg(Type* t) { return t->isStructTy() || t->isArrayTy(); }
static unsigned bitsOf(Type* t) { return t->isPointerTy() ? 64 : t->getIntegerBitWidth(); }

static bool endsOrIs(StringRef n, std::initializer_list<const char*> l) { for (auto s : l) if (n == s) return true; return false; }

static std::set<std::string> extSeen;

struct FnInstr {
    Function& F;
    DenseMap<Value*, Value*> sh;
    std::vector<std::pair<PHINode*, PHINode*>> phis;
    FnInstr(Function& f) : F(f) {}

    Value* shadow(Value* v) {
        if (isa<Constant>(v) || isa<InlineAsm>(v) || isa<MetadataAsValue>(v) || isa<BasicBlock>(v)) return Constant::getNullValue(shadowTy(v->getType()));
        auto it = sh.find(v);
        if (it != sh.end()) return it->second;
        return Constant::getNullValue(shadowTy(v->getType()));
    }
    static bool isNull(Value* s) { return isa<Constant>(s) && cast<Constant>(s)->isNullValue(); }
    bool conc(Value* v) { return isNull(shadow(v)); }

    Value* to64(IRBuilder<>& B, Value* v) {
        if (v->getType()->isPointerTy()) return B.CreatePtrToInt(v, I64);
        if (v->getType()->getIntegerBitWidth() == 64) return v;
        return B.CreateZExt(v, I64);
    }
    Value* from64(IRBuilder<>& B, Value* v, Type* t) {
        if (t->isPointerTy()) return B.CreateIntToPtr(v, t);
        if (t->getIntegerBitWidth() == 64) return v;
        return B.CreateTrunc(v, t);
    }
    // i1: any of these shadows is non null (nullptr if statically none can be)
    Value* anySym(IRBuilder<>& B, ArrayRef<Value*> ss) {
        Value* acc = nullptr;
        for (Value* s : ss) {
            if (isNull(s)) continue;
            Value* i = B.CreatePtrToInt(s, I64);
            acc = acc ? B.CreateOr(acc, i) : i;
        }
        if (!acc) return nullptr;
        return B.CreateICmpNE(acc, ConstantInt::get(I64, 0));
    }
    // Emits  r = cond ? slow() : fast   before instruction "before"
    template<class SLOW> Value* guarded(Instruction* before, Value* cond, Value* fast, SLOW slow) {
        BasicBlock* head = before->getParent();
        Instruction* term = SplitBlockAndInsertIfThen(cond, before, false);
        IRBuilder<> B(term);
        Value* sv = slow(B);
        BasicBlock* slowEnd = term->getParent();
        if (!fast) return nullptr;
        PHINode* p = PHINode::Create(fast->getType(), 2, "", before->getParent()->getFirstNonPHI());
        p->addIncoming(fast, head);
        p->addIncoming(sv, slowEnd);
        return p;
    }
    Value* widthC(unsigned w) { return ConstantInt::get(I32, w); }

    // Concretise a scalar operand in front of an instruction; returns the concrete value to use
    Value* concretize(Instruction* before, Value* v) {
        if (isAgg(v->getType())) return v;
        if (!isScalar(v->getType())) return v;
        Value* s = shadow(v);
        if (isNull(s)) return v;
        IRBuilder<> B(before);
        Value* c = anySym(B, {s});
        return guarded(before, c, v, [&](IRBuilder<>& SB) {
            Value* r = SB.CreateCall(rt("__sym_concretize", I64, {PtrTy, I32}), {s, widthC(bitsOf(v->getType()))});
            return from64(SB, r, v->getType());
        });
    }
    void flatten(IRBuilder<>& B, Value* s, Type* t, std::vector<Value*>& out) {
        if (isAgg(t)) {
            unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
            for (unsigned i = 0; i < n; ++i) {
                Type* et = t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType();
                Value* e = isNull(s) ? (Value*) Constant::getNullValue(shadowTy(et)) : B.CreateExtractValue(s, i);
                flatten(B, e, et, out);
            }
        } else out.push_back(s);
    }
    Value* unflatten(IRBuilder<>& B, Type* t, std::vector<Value*>& in, size_t& pos) {
        if (isAgg(t)) {
            unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
            Value* r = Constant::getNullValue(shadowTy(t));
            for (unsigned i = 0; i < n; ++i) {
                Type* et = t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType();
                r = B.CreateInsertValue(r, unflatten(B, et, in, pos), i);
            }
            return r;
        }
        return in[pos++];
    }
    static unsigned leaves(Type* t) {
        if (t->isStructTy()) { unsigned n = 0; for (Type* e : cast<StructType>(t)->elements()) n += leaves(e); return n; }
        if (t->isArrayTy()) return t->getArrayNumElements() * leaves(t->getArrayElementType());
        return 1;
    }
    Value* slot(IRBuilder<>& B, GlobalVariable* g, unsigned i) { return B.CreateConstInBoundsGEP2_64(g->getValueType(), g, 0, i); }

    void run(unsigned fnId) {
        removeUnreachableBlocks(F);
        // Collect the work first
        std::vector<Instruction*> work;
        std::set<BasicBlock*> headers;
        {
            SmallVector<std::pair<const BasicBlock*, const BasicBlock*>, 8> edges;
            FindFunctionBackedges(F, edges);
            for (auto& e : edges) headers.insert(const_cast<BasicBlock*>(e.second));
            ReversePostOrderTraversal<Function*> rpo(&F);
            for (BasicBlock* bb : rpo) for (Instruction& i : *bb) work.push_back(&i);
        }
        // Entry: argument shadows
        Instruction* entryPt = &*F.getEntryBlock().getFirstInsertionPt();
        while (isa<AllocaInst>(entryPt)) entryPt = entryPt->getNextNode();
        {
            IRBuilder<> B(entryPt);
            B.CreateStore(ConstantInt::get(I8, 1), slot(B, GFnHit, fnId));
            bool need = false; unsigned n = 0;
            for (Argument& a : F.args()) { n += leaves(a.getType()); need = true; }
            if (need && n <= MAXARGS) {
                Value* tok = B.CreateLoad(PtrTy, GArgFn);
                Value* has = B.CreateICmpEQ(tok, &F);
                B.CreateStore(Constant::getNullValue(PtrTy), GArgFn);
                unsigned pos = 0;
                for (Argument& a : F.args()) {
                    std::vector<Value*> ls;
                    for (unsigned k = 0; k < leaves(a.getType()); ++k) {
                        Value* l = B.CreateLoad(PtrTy, slot(B, GArgs, pos++));
                        ls.push_back(B.CreateSelect(has, l, Constant::getNullValue(PtrTy)));
                    }
                    size_t p = 0;
                    sh[&a] = unflatten(B, a.getType(), ls, p);
                }
            }
            fuel(entryPt);
        }
        for (BasicBlock* h : headers) {
            // Shadow phis are inserted later in front of this point, that is fine
            Instruction* pt = &*h->getFirstInsertionPt();
            if (h == &F.getEntryBlock()) continue;
            fuelHdr.push_back(pt);
        }
        for (Instruction* i : work) visit(i);
        for (auto& pr : phis) {
            PHINode *o = pr.first, *s = pr.second;
            for (unsigned k = 0; k < o->getNumIncomingValues(); ++k) s->addIncoming(shadow(o->getIncomingValue(k)), o->getIncomingBlock(k));
        }
        for (Instruction* pt : fuelHdr) fuel(pt);
        for (Instruction* d : dead) d->eraseFromParent();
    }
    std::vector<Instruction*> fuelHdr, dead;
    void fuel(Instruction* pt) {
        if (!pt->getParent()) return;
        IRBuilder<> B(pt);
        Value* f = B.CreateSub(B.CreateLoad(I64, GFuel), ConstantInt::get(I64, 1));
        B.CreateStore(f, GFuel);
        Value* c = B.CreateICmpSLT(f, ConstantInt::get(I64, 0));
        Instruction* t = SplitBlockAndInsertIfThen(c, pt, false);
        IRBuilder<> SB(t);
        SB.CreateCall(rt("__sym_out_of_fuel", VoidTy, {}), {});
    }

    void visit(Instruction* I) {
        switch (I->getOpcode()) {
        case Instruction::PHI: {
            if (!isScalar(I->getType()) && !isAgg(I->getType())) return;
            PHINode* p = PHINode::Create(shadowTy(I->getType()), 2, "", I);
            phis.push_back({cast<PHINode>(I), p});
            sh[I] = p;
            return;
        }
        case Instruction::Alloca: {
            auto a = cast<AllocaInst>(I);
            if (!isa<Constant>(a->getArraySize())) a->setOperand(0, concretize(a, a->getArraySize()));
            return;
        }
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or:
        case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
        case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
            binop(cast<BinaryOperator>(I)); return;
        case Instruction::ICmp: icmp(cast<ICmpInst>(I)); return;
        case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr:
        case Instruction::BitCast: cast_(cast<CastInst>(I)); return;
        case Instruction::UIToFP: case Instruction::SIToFP:
            I->setOperand(0, concretize(I, I->getOperand(0))); return;
        case Instruction::GetElementPtr: gep(cast<GetElementPtrInst>(I)); return;
        case Instruction::Load: load(cast<LoadInst>(I)); return;
        case Instruction::Store: store(cast<StoreInst>(I)); return;
        case Instruction::Select: select(cast<SelectInst>(I)); return;
        case Instruction::Br: {
            auto b = cast<BranchInst>(I);
            if (!b->isConditional()) return;
            Value* c = b->getCondition(); Value* s = shadow(c);
            if (isNull(s)) return;
            IRBuilder<> B(b);
            Value* any = anySym(B, {s});
            Value* r = guarded(b, any, c, [&](IRBuilder<>& SB) { return SB.CreateTrunc(SB.CreateCall(rt("__sym_branch", I32, {PtrTy}), {s}), I1); });
            b->setCondition(r);
            return;
        }
        case Instruction::Switch: { errs() << "switch left over\n"; abort(); }
        case Instruction::Ret: {
            auto r = cast<ReturnInst>(I);
            if (!r->getReturnValue()) return;
            Type* t = r->getReturnValue()->getType();
            if (!isScalar(t) && !isAgg(t)) return;
            IRBuilder<> B(r);
            std::vector<Value*> ls; flatten(B, shadow(r->getReturnValue()), t, ls);
            if (ls.size() > 16) return;
            for (unsigned k = 0; k < ls.size(); ++k) B.CreateStore(ls[k], slot(B, GRet, k));
            return;
        }
        case Instruction::ExtractValue: {
            auto e = cast<ExtractValueInst>(I);
            Value* s = shadow(e->getAggregateOperand());
            if (isNull(s)) return;
            IRBuilder<> B(I->getNextNode());
            sh[I] = B.CreateExtractValue(s, e->getIndices());
            return;
        }
        case Instruction::InsertValue: {
            auto e = cast<InsertValueInst>(I);
            Value* s = shadow(e->getAggregateOperand()); Value* v = shadow(e->getInsertedValueOperand());
            if (isNull(s) && isNull(v)) return;
            IRBuilder<> B(I->getNextNode());
            sh[I] = B.CreateInsertValue(s, v, e->getIndices());
            return;
        }
        case Instruction::Freeze: { sh[I] = shadow(I->getOperand(0)); return; }
        case Instruction::Call: case Instruction::Invoke: call(cast<CallBase>(I)); return;
        case Instruction::AtomicRMW: case Instruction::AtomicCmpXchg: {
            for (unsigned k = 0; k < I->getNumOperands(); ++k) I->setOperand(k, concretize(I, I->getOperand(k)));
            IRBuilder<> B(I);
            Type* t = I->getOpcode() == Instruction::AtomicRMW ? cast<AtomicRMWInst>(I)->getValOperand()->getType() : cast<AtomicCmpXchgInst>(I)->getNewValOperand()->getType();
            B.CreateCall(rt("__sym_concretize_mem", VoidTy, {PtrTy, I64}), {I->getOperand(0), ConstantInt::get(I64, DL->getTypeStoreSize(t))});
            return;
        }
        default: {
            // Floating point, vectors, landingpads...: concretise any scalar operand
            if (I->isTerminator()) return;
            for (unsigned k = 0; k < I->getNumOperands(); ++k)
                if (isScalar(I->getOperand(k)->getType()) && !isa<Constant>(I->getOperand(k))) I->setOperand(k, concretize(I, I->getOperand(k)));
            return;
        }
        }
    }

    void binop(BinaryOperator* I) {
        if (!isScalar(I->getType())) {
            if (I->getType()->isIntegerTy()) {
                I->setOperand(0, I->getOperand(0)); // wide integers never carry a shadow
            }
            return;
        }
        Value *a = I->getOperand(0), *b = I->getOperand(1), *sa = shadow(a), *sb = shadow(b);
        if (isNull(sa) && isNull(sb)) return;
        int op = 0; bool div = false;
        switch (I->getOpcode()) {
        case Instruction::Add: op = OP_ADD; break; case Instruction::Sub: op = OP_SUB; break; case Instruction::Mul: op = OP_MUL; break;
        case Instruction::And: op = OP_AND; break; case Instruction::Or: op = OP_OR; break; case Instruction::Xor: op = OP_XOR; break;
        case Instruction::Shl: op = OP_SHL; break; case Instruction::LShr: op = OP_LSHR; break; case Instruction::AShr: op = OP_ASHR; break;
        case Instruction::UDiv: op = OP_UDIV; div = true; break; case Instruction::SDiv: op = OP_SDIV; div = true; break;
        case Instruction::URem: op = OP_UREM; div = true; break; case Instruction::SRem: op = OP_SREM; div = true; break;
        default: abort();
        }
        unsigned w = bitsOf(I->getType());
        Instruction* pt = div ? (Instruction*) I : I->getNextNode();
        IRBuilder<> B(pt);
        Value* any = anySym(B, {sa, sb});
        if (div) {
            // The concrete operands are meaningless when symbolic: keep the machine from trapping on them
            Value* nb = B.CreateSelect(any, ConstantInt::get(I->getType(), 1), b);
            I->setOperand(1, nb);
        }
        Value* r = guarded(pt, any, NullSh, [&](IRBuilder<>& SB) {
            return SB.CreateCall(rt("__sym_bin", PtrTy, {I32, I32, PtrTy, PtrTy, I64, I64}), {widthC(op), widthC(w), sa, sb, to64(SB, a), to64(SB, b)});
        });
        sh[I] = r;
    }
    void icmp(ICmpInst* I) {
        Value *a = I->getOperand(0), *b = I->getOperand(1);
        if (!isScalar(a->getType())) return;
        Value *sa = shadow(a), *sb = shadow(b);
        if (isNull(sa) && isNull(sb)) return;
        int op = 0;
        switch (I->getPredicate()) {
        case CmpInst::ICMP_EQ: op = OP_EQ; break; case CmpInst::ICMP_NE: op = OP_NE; break;
        case CmpInst::ICMP_ULT: op = OP_ULT; break; case CmpInst::ICMP_ULE: op = OP_ULE; break;
        case CmpInst::ICMP_UGT: op = OP_UGT; break; case CmpInst::ICMP_UGE: op = OP_UGE; break;
        case CmpInst::ICMP_SLT: op = OP_SLT; break; case CmpInst::ICMP_SLE: op = OP_SLE; break;
        case CmpInst::ICMP_SGT: op = OP_SGT; break; case CmpInst::ICMP_SGE: op = OP_SGE; break;
        default: abort();
        }
        Instruction* pt = I->getNextNode();
        IRBuilder<> B(pt);
        Value* any = anySym(B, {sa, sb});
        sh[I] = guarded(pt, any, NullSh, [&](IRBuilder<>& SB) {
            return SB.CreateCall(rt("__sym_bin", PtrTy, {I32, I32, PtrTy, PtrTy, I64, I64}), {widthC(op), widthC(bitsOf(a->getType())), sa, sb, to64(SB, a), to64(SB, b)});
        });
    }
    void cast_(CastInst* I) {
        Value* a = I->getOperand(0); Value* s = shadow(a);
        if (!isScalar(a->getType()) || !isScalar(I->getType())) {
            if (isScalar(a->getType()) && !isNull(s)) I->setOperand(0, concretize(I, a));
            return;
        }
        if (isNull(s)) return;
        unsigned w1 = bitsOf(a->getType()), w2 = bitsOf(I->getType());
        if (w1 == w2) { sh[I] = s; return; }
        Instruction* pt = I->getNextNode();
        IRBuilder<> B(pt);
        Value* any = anySym(B, {s});
        int op = w2 < w1 ? OP_EXTRACT : (I->getOpcode() == Instruction::SExt ? OP_SEXT : OP_ZEXT);
        sh[I] = guarded(pt, any, NullSh, [&](IRBuilder<>& SB) { return SB.CreateCall(rt("__sym_cast", PtrTy, {I32, I32, PtrTy}), {widthC(op), widthC(w2), s}); });
    }
    void gep(GetElementPtrInst* I) {
        if (I->getType()->isVectorTy()) return;
        std::vector<Value*> ss;
        for (Value* o : I->operands()) if (isScalar(o->getType())) ss.push_back(shadow(o));
        bool all = true; for (Value* s : ss) if (!isNull(s)) all = false;
        if (all) return;
        Instruction* pt = I->getNextNode();
        IRBuilder<> B(pt);
        Value* any = anySym(B, ss);
        sh[I] = guarded(pt, any, NullSh, [&](IRBuilder<>& SB) -> Value* {
            Value* base = SB.CreateCall(rt("__sym_lift", PtrTy, {PtrTy, I64, I32}), {shadow(I->getPointerOperand()), to64(SB, I->getPointerOperand()), widthC(64)});
            for (gep_type_iterator gti = gep_type_begin(I), e = gep_type_end(I); gti != e; ++gti) {
                Value* idx = gti.getOperand();
                if (StructType* st = gti.getStructTypeOrNull()) {
                    uint64_t off = DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
                    base = SB.CreateCall(rt("__sym_gep", PtrTy, {PtrTy, PtrTy, I64, I32, I64}), {base, NullSh, ConstantInt::get(I64, 1), widthC(64), ConstantInt::get(I64, off)});
                } else {
                    uint64_t sz = DL->getTypeAllocSize(gti.getIndexedType());
                    Value* ci = SB.CreateSExtOrTrunc(idx, I64);
                    base = SB.CreateCall(rt("__sym_gep", PtrTy, {PtrTy, PtrTy, I64, I32, I64}), {base, shadow(idx), ci, widthC(bitsOf(idx->getType())), ConstantInt::get(I64, sz)});
                }
            }
            return base;
        });
    }
    void load(LoadInst* I) {
        Value* p = I->getPointerOperand(); Value* sp = shadow(p);
        Type* t = I->getType();
        uint64_t sz = DL->getTypeStoreSize(t);
        I->setMetadata(LLVMContext::MD_range, nullptr); I->setMetadata(LLVMContext::MD_nonnull, nullptr);
        I->setMetadata(LLVMContext::MD_noundef, nullptr);
        if (!isScalar(t) || t->getPrimitiveSizeInBits() == 1 ? false : false) {}
        Value* symres = nullptr;
        if (!isNull(sp)) {
            if (isScalar(t)) {
                // Symbolic address: the runtime either concretises the address or returns an ITE over the possible cells
                IRBuilder<> B(I);
                Value* any = anySym(B, {sp});
                AllocaInst* tmp = new AllocaInst(PtrTy, 0, "", &*F.getEntryBlock().begin());
                B.SetInsertPoint(I);
                B.CreateStore(NullSh, tmp);
                Value* np = guarded(I, any, p, [&](IRBuilder<>& SB) {
                    return SB.CreateCall(rt("__sym_load_addr", PtrTy, {PtrTy, I64, PtrTy}), {sp, ConstantInt::get(I64, sz), tmp});
                });
                I->setOperand(0, np); p = np;
                IRBuilder<> B2(I);
                symres = B2.CreateLoad(PtrTy, tmp);
            } else {
                p = concretize(I, p); I->setOperand(0, p);
            }
        }
        IRBuilder<> B(I->getNextNode());
        if (isScalar(t)) {
            // Skip loads of globals known constant
            if (auto g = dyn_cast<GlobalVariable>(p->stripInBoundsConstantOffsets())) if (g->isConstant() && !symres) return;
            Value* s = B.CreateCall(rt("__sym_load", PtrTy, {PtrTy, I32, I32}), {p, widthC(sz), widthC(bitsOf(t))});
            if (symres) s = B.CreateSelect(B.CreateICmpNE(symres, NullSh), symres, s);
            sh[I] = s;
        } else if (isAgg(t)) {
            // first class aggregate load: not produced by clang for C++ except rarely; concretise the memory
            IRBuilder<> B0(I);
            B0.CreateCall(rt("__sym_concretize_mem", VoidTy, {PtrTy, I64}), {p, ConstantInt::get(I64, sz)});
        } else {
            IRBuilder<> B0(I);
            B0.CreateCall(rt("__sym_concretize_mem", VoidTy, {PtrTy, I64}), {p, ConstantInt::get(I64, sz)});
        }
    }
    void store(StoreInst* I) {
        Value* p = I->getPointerOperand();
        if (!conc(p)) { p = concretize(I, p); I->setOperand(1, p); }
        Value* v = I->getValueOperand(); Type* t = v->getType();
        uint64_t sz = DL->getTypeStoreSize(t);
        IRBuilder<> B(I->getNextNode());
        if (isScalar(t)) {
            Value* s = shadow(v);
            if (isNull(s)) B.CreateCall(rt("__sym_clear", VoidTy, {PtrTy, I64}), {p, ConstantInt::get(I64, sz)});
            else B.CreateCall(rt("__sym_store", VoidTy, {PtrTy, I32, PtrTy, I32}), {p, widthC(sz), s, widthC(bitsOf(t))});
        } else if (isAgg(t) && !isNull(shadow(v))) {
            std::vector<Value*> ls; flatten(B, shadow(v), t, ls);
            B.CreateCall(rt("__sym_clear", VoidTy, {PtrTy, I64}), {p, ConstantInt::get(I64, sz)});
            // store leaf shadows at their offsets
            size_t pos = 0; storeLeaves(B, p, t, 0, ls, pos);
        } else {
            B.CreateCall(rt("__sym_clear", VoidTy, {PtrTy, I64}), {p, ConstantInt::get(I64, sz)});
        }
    }
    void storeLeaves(IRBuilder<>& B, Value* p, Type* t, uint64_t off, std::vector<Value*>& ls, size_t& pos) {
        if (auto st = dyn_cast<StructType>(t)) {
            for (unsigned i = 0; i < st->getNumElements(); ++i) storeLeaves(B, p, st->getElementType(i), off + DL->getStructLayout(st)->getElementOffset(i), ls, pos);
        } else if (auto at = dyn_cast<ArrayType>(t)) {
            for (unsigned i = 0; i < at->getNumElements(); ++i) storeLeaves(B, p, at->getElementType(), off + i * DL->getTypeAllocSize(at->getElementType()), ls, pos);
        } else {
            Value* s = ls[pos++];
            if (isScalar(t) && !isNull(s)) B.CreateCall(rt("__sym_store", VoidTy, {PtrTy, I32, PtrTy, I32}), {B.CreateConstGEP1_64(I8, p, off), widthC(DL->getTypeStoreSize(t)), s, widthC(bitsOf(t))});
        }
    }
    void select(SelectInst* I) {
        Value* c = I->getCondition(); Type* t = I->getType();
        if (c->getType()->isVectorTy()) return;
        Value *sc = shadow(c), *sa = shadow(I->getTrueValue()), *sb = shadow(I->getFalseValue());
        if (isNull(sc) && isNull(sa) && isNull(sb)) return;
        if (!isScalar(t)) {
            Value* nc = concretize(I, c); I->setOperand(0, nc);
            if (isAgg(t)) { IRBuilder<> B(I->getNextNode()); sh[I] = B.CreateSelect(nc, sa, sb); }
            return;
        }
        Instruction* pt = I->getNextNode();
        IRBuilder<> B(pt);
        Value* plain = (isNull(sa) && isNull(sb)) ? (Value*) NullSh : B.CreateSelect(c, sa, sb);
        if (isNull(sc)) { sh[I] = plain; return; }
        Value* any = anySym(B, {sc});
        sh[I] = guarded(pt, any, plain, [&](IRBuilder<>& SB) {
            return SB.CreateCall(rt("__sym_ite", PtrTy, {I32, PtrTy, PtrTy, PtrTy, I64, I64}), {widthC(bitsOf(t)), sc, sa, sb, to64(SB, I->getTrueValue()), to64(SB, I->getFalseValue())});
        });
    }

    Instruction* after(CallBase* c) {
        if (auto inv = dyn_cast<InvokeInst>(c)) {
            BasicBlock* n = inv->getNormalDest();
            if (!n->getSinglePredecessor()) n = SplitEdge(inv->getParent(), n);
            return &*n->getFirstInsertionPt();
        }
        return c->getNextNode();
    }
    void concArgs(CallBase* c) {
        for (unsigned k = 0; k < c->arg_size(); ++k) if (isScalar(c->getArgOperand(k)->getType()) && !conc(c->getArgOperand(k))) c->setArgOperand(k, concretize(c, c->getArgOperand(k)));
    }

    void intrinsic(IntrinsicInst* I) {
        auto bin = [&](int cmpop) { // min/max
            Value *a = I->getArgOperand(0), *b = I->getArgOperand(1), *sa = shadow(a), *sb = shadow(b);
            if (!isScalar(I->getType())) return;
            Value* any; Instruction* pt = I->getNextNode(); IRBuilder<> B(pt);
            if (!(any = anySym(B, {sa, sb}))) return;
            sh[I] = guarded(pt, any, NullSh, [&](IRBuilder<>& SB) {
                Value* c = SB.CreateCall(rt("__sym_bin", PtrTy, {I32, I32, PtrTy, PtrTy, I64, I64}), {widthC(cmpop), widthC(bitsOf(a->getType())), sa, sb, to64(SB, a), to64(SB, b)});
                return SB.CreateCall(rt("__sym_ite", PtrTy, {I32, PtrTy, PtrTy, PtrTy, I64, I64}), {widthC(bitsOf(a->getType())), c, sa, sb, to64(SB, a), to64(SB, b)});
            });
        };
        switch (I->getIntrinsicID()) {
        case Intrinsic::smin: bin(OP_SLE); return;
        case Intrinsic::smax: bin(OP_SGE); return;
        case Intrinsic::umin: bin(OP_ULE); return;
        case Intrinsic::umax: bin(OP_UGE); return;
        case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
            concArgs(I);
            IRBuilder<> B(I);
            B.CreateCall(rt("__sym_memmove", VoidTy, {PtrTy, PtrTy, I64}), {I->getArgOperand(0), I->getArgOperand(1), to64(B, I->getArgOperand(2))});
            return;
        }
        case Intrinsic::memset: case Intrinsic::memset_inline: {
            I->setArgOperand(0, concretize(I, I->getArgOperand(0))); I->setArgOperand(2, concretize(I, I->getArgOperand(2)));
            IRBuilder<> B(I);
            B.CreateCall(rt("__sym_memset", VoidTy, {PtrTy, PtrTy, I64}), {I->getArgOperand(0), shadow(I->getArgOperand(1)), to64(B, I->getArgOperand(2))});
            return;
        }
        case Intrinsic::assume: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::experimental_noalias_scope_decl:
        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end:
            dead.push_back(I); return;
        case Intrinsic::expect: { sh[I] = shadow(I->getArgOperand(0)); return; }
        case Intrinsic::eh_typeid_for: case Intrinsic::trap: case Intrinsic::stacksave: case Intrinsic::stackrestore: return;
        case Intrinsic::usub_sat: {
            Value *a = I->getArgOperand(0), *b = I->getArgOperand(1), *sa = shadow(a), *sb = shadow(b);
            Value* any; Instruction* pt = I->getNextNode(); IRBuilder<> B(pt);
            if (!(any = anySym(B, {sa, sb}))) return;
            unsigned w = bitsOf(a->getType());
            sh[I] = guarded(pt, any, NullSh, [&](IRBuilder<>& SB) {
                auto bf = rt("__sym_bin", PtrTy, {I32, I32, PtrTy, PtrTy, I64, I64});
                Value* c = SB.CreateCall(bf, {widthC(OP_UGE), widthC(w), sa, sb, to64(SB, a), to64(SB, b)});
                Value* d = SB.CreateCall(bf, {widthC(OP_SUB), widthC(w), sa, sb, to64(SB, a), to64(SB, b)});
                return SB.CreateCall(rt("__sym_ite", PtrTy, {I32, PtrTy, PtrTy, PtrTy, I64, I64}), {widthC(w), c, d, NullSh, ConstantInt::get(I64, 0), ConstantInt::get(I64, 0)});
            });
            return;
        }
        case Intrinsic::abs: {
            Value *a = I->getArgOperand(0), *sa = shadow(a);
            Value* any; Instruction* pt = I->getNextNode(); IRBuilder<> B(pt);
            if (!isScalar(I->getType()) || !(any = anySym(B, {sa}))) return;
            unsigned w = bitsOf(a->getType());
            sh[I] = guarded(pt, any, NullSh, [&](IRBuilder<>& SB) {
                auto bf = rt("__sym_bin", PtrTy, {I32, I32, PtrTy, PtrTy, I64, I64});
                Value* z = ConstantInt::get(I64, 0);
                Value* c = SB.CreateCall(bf, {widthC(OP_SLT), widthC(w), sa, NullSh, z, z});
                Value* d = SB.CreateCall(bf, {widthC(OP_SUB), widthC(w), NullSh, sa, z, z});
                return SB.CreateCall(rt("__sym_ite", PtrTy, {I32, PtrTy, PtrTy, PtrTy, I64, I64}), {widthC(w), c, d, sa, z, z});
            });
            return;
        }
        case Intrinsic::fshl: case Intrinsic::fshr: {
            Value *a = I->getArgOperand(0), *b = I->getArgOperand(1), *sa = shadow(a), *sb = shadow(b);
            auto amt = dyn_cast<ConstantInt>(I->getArgOperand(2));
            unsigned w = bitsOf(a->getType());
            if (!amt || amt->getZExtValue() % w == 0) break;
            uint64_t k = amt->getZExtValue() % w; if (I->getIntrinsicID() == Intrinsic::fshr) k = w - k;
            Value* any; Instruction* pt = I->getNextNode(); IRBuilder<> B(pt);
            if (!(any = anySym(B, {sa, sb}))) return;
            sh[I] = guarded(pt, any, NullSh, [&](IRBuilder<>& SB) {
                auto bf = rt("__sym_bin", PtrTy, {I32, I32, PtrTy, PtrTy, I64, I64});
                Value* h = SB.CreateCall(bf, {widthC(OP_SHL), widthC(w), SB.CreateCall(rt("__sym_lift", PtrTy, {PtrTy, I64, I32}), {sa, to64(SB, a), widthC(w)}), NullSh, ConstantInt::get(I64, 0), ConstantInt::get(I64, k)});
                Value* l = SB.CreateCall(bf, {widthC(OP_LSHR), widthC(w), SB.CreateCall(rt("__sym_lift", PtrTy, {PtrTy, I64, I32}), {sb, to64(SB, b), widthC(w)}), NullSh, ConstantInt::get(I64, 0), ConstantInt::get(I64, w - k)});
                return SB.CreateCall(bf, {widthC(OP_OR), widthC(w), h, l, ConstantInt::get(I64, 0), ConstantInt::get(I64, 0)});
            });
            return;
        }
        default: break;
        }
        concArgs(I);
    }

    void call(CallBase* C) {
        if (auto ii = dyn_cast<IntrinsicInst>(C)) { intrinsic(ii); return; }
        if (auto ci = dyn_cast<CallInst>(C)) ci->setTailCallKind(CallInst::TCK_None);
        Function* callee = dyn_cast<Function>(C->getCalledOperand()->stripPointerCasts());
        if (C->isInlineAsm()) { concArgs(C); return; }
        StringRef name = callee ? callee->getName() : "";
        // Primitives of the harness API
        if (name == "__sym_input") {
            Instruction* pt = after(C); IRBuilder<> B(pt);
            Value* s = B.CreateCall(rt("__sym_input_expr", PtrTy, {PtrTy, I32, I64, I64}), {C->getArgOperand(0), C->getArgOperand(1), C->getArgOperand(2), C->getArgOperand(3)});
            sh[C] = s; return;
        }
        if (name == "__sym_assume") {
            IRBuilder<> B(C);
            B.CreateCall(rt("__sym_assume_rt", VoidTy, {PtrTy, I64}), {shadow(C->getArgOperand(0)), to64(B, C->getArgOperand(0))}); return;
        }
        if (name == "__sym_assert") {
            IRBuilder<> B(C);
            B.CreateCall(rt("__sym_assert_rt", VoidTy, {PtrTy, I64, PtrTy}), {shadow(C->getArgOperand(0)), to64(B, C->getArgOperand(0)), C->getArgOperand(1)}); return;
        }
        if (name == "__sym_is_symbolic") {
            Instruction* pt = after(C); IRBuilder<> B(pt);
            Value* s = shadow(C->getArgOperand(0));
            Value* r = B.CreateZExt(B.CreateICmpNE(B.CreatePtrToInt(s, I64), ConstantInt::get(I64, 0)), I32);
            C->replaceUsesWithIf(r, [&](Use& u) { return true; }); return;
        }
        bool external = callee && (callee->isDeclaration() || callee->getName().starts_with("__sym_"));
        if (external) {
            if (!callee->getName().starts_with("__sym_")) extSeen.insert(name.str());
            concArgs(C);
            if (endsOrIs(name, {"_Znwm", "_Znam", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t"})) { IRBuilder<> B(after(C)); B.CreateCall(rt("__sym_count", VoidTy, {PtrTy, I64}), {C, ConstantInt::get(I64, 1)}); }
            if (endsOrIs(name, {"_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm"})) { IRBuilder<> B(C); B.CreateCall(rt("__sym_count", VoidTy, {PtrTy, I64}), {C->getArgOperand(0), ConstantInt::get(I64, (uint64_t) -1)}); }
            if (endsOrIs(name, {"_Znwm", "_Znam", "malloc", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t"})) {
                Instruction* pt = after(C); IRBuilder<> B(pt);
                B.CreateCall(rt("__sym_clear", VoidTy, {PtrTy, I64}), {C, to64(B, C->getArgOperand(0))});
            } else if (name == "calloc") {
                Instruction* pt = after(C); IRBuilder<> B(pt);
                B.CreateCall(rt("__sym_clear", VoidTy, {PtrTy, I64}), {C, B.CreateMul(to64(B, C->getArgOperand(0)), to64(B, C->getArgOperand(1)))});
            } else if (name == "realloc") {
                C->setCalledFunction(rt("__sym_realloc", PtrTy, {PtrTy, I64}));
            } else if (endsOrIs(name, {"free", "_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm"})) {
            } else {
                IRBuilder<> B(C);
                Value* nm = nullptr;
                for (unsigned k = 0; k < C->arg_size(); ++k) if (C->getArgOperand(k)->getType()->isPointerTy() && !isa<Constant>(C->getArgOperand(k))) {
                    if (name.starts_with("_ZSt18_Rb_tree") || name.starts_with("_ZSt29_Rb_tree") || name.starts_with("_ZSt28_Rb_tree") || name.starts_with("__cxa") || name.starts_with("__sym_") || name.contains("_List_node_base")) continue;
                    if (!nm) nm = B.CreateGlobalStringPtr(name);
                    B.CreateCall(rt("__sym_ext_ptr", VoidTy, {PtrTy, PtrTy}), {C->getArgOperand(k), nm});
                }
            }
            return;
        }
        // An instrumented (or indirect) callee
        if (!conc(C->getCalledOperand())) C->setCalledOperand(concretize(C, C->getCalledOperand()));
        unsigned n = 0; bool any = false;
        for (Value* a : C->args()) { n += leaves(a->getType()); if (!isNull(shadow(a))) any = true; }
        bool vararg = C->getFunctionType()->isVarArg();
        if (n > MAXARGS || vararg) { concArgs(C); any = false; }
        IRBuilder<> B(C);
        if (any) {
            unsigned pos = 0;
            for (Value* a : C->args()) {
                std::vector<Value*> ls; flatten(B, shadow(a), a->getType(), ls);
                for (Value* l : ls) B.CreateStore(l, slot(B, GArgs, pos++));
            }
            B.CreateStore(C->getCalledOperand(), GArgFn);
        }
        Type* rtT = C->getType();
        if (rtT->isVoidTy() || (!isScalar(rtT) && !isAgg(rtT))) return;
        unsigned rl = leaves(rtT);
        if (rl > 16) return;
        if (!callee) for (unsigned k = 0; k < rl; ++k) B.CreateStore(NullSh, slot(B, GRet, k));
        Instruction* pt = after(C);
        IRBuilder<> A(pt);
        std::vector<Value*> ls;
        for (unsigned k = 0; k < rl; ++k) ls.push_back(A.CreateLoad(PtrTy, slot(A, GRet, k)));
        size_t p = 0;
        sh[C] = unflatten(A, rtT, ls, p);
    }
};

int main(int argc, char** argv) {
    SMDiagnostic err;
    auto mod = parseIRFile(argv[1], err, Ctx);
    if (!mod) { err.print("symtool", errs()); return 2; }
    M = mod.get(); DL = &M->getDataLayout();
    PtrTy = PointerType::getUnqual(Ctx); I1 = Type::getInt1Ty(Ctx); I8 = Type::getInt8Ty(Ctx); I32 = Type::getInt32Ty(Ctx); I64 = Type::getInt64Ty(Ctx);
    VoidTy = Type::getVoidTy(Ctx); NullSh = Constant::getNullValue(PtrTy);

    // Redirect string functions to the symbolically executed ones
    {
        std::vector<std::pair<Function*, Function*>> repl;
        for (Function& f : *M) if (f.isDeclaration()) if (Function* r = M->getFunction(("symc_" + f.getName()).str())) repl.push_back({&f, r});
        for (auto& p : repl) p.first->replaceAllUsesWith(p.second);
    }
    // Remove switches
    {
        legacy::PassManager pm;
        pm.add(createLowerSwitchPass());
        pm.run(*M);
    }
    std::vector<Function*> fns;
    for (Function& f : *M) if (!f.isDeclaration() && !f.getName().starts_with("__sym_")) fns.push_back(&f);

    auto gv = [&](const char* n, Type* t) { return new GlobalVariable(*M, t, false, GlobalValue::ExternalLinkage, nullptr, n); };
    GArgs = gv("__sym_args", ArrayType::get(PtrTy, MAXARGS));
    GArgFn = gv("__sym_arg_fn", PtrTy);
    GRet = gv("__sym_ret", ArrayType::get(PtrTy, 16));
    GFuel = gv("__sym_fuel", I64);
    GFnHit = new GlobalVariable(*M, ArrayType::get(I8, fns.size() + 1), false, GlobalValue::ExternalLinkage, Constant::getNullValue(ArrayType::get(I8, fns.size() + 1)), "__sym_fnhit");
    new GlobalVariable(*M, I32, true, GlobalValue::ExternalLinkage, ConstantInt::get(I32, fns.size()), "__sym_nfns");

    std::error_code ec;
    raw_fd_ostream names(argv[3], ec);
    unsigned id = 0;
    for (Function* f : fns) {
        names << f->getName() << "\n";
        // Attributes that instrumentation invalidates
        f->removeFnAttr(Attribute::Memory); f->removeFnAttr(Attribute::Speculatable); f->removeFnAttr(Attribute::WillReturn); f->removeFnAttr(Attribute::NoSync); f->removeFnAttr(Attribute::NoFree); f->removeFnAttr(Attribute::NoRecurse); f->removeFnAttr(Attribute::MustProgress);
        for (unsigned k = 0; k < f->arg_size(); ++k) { f->removeParamAttr(k, Attribute::NoUndef); f->removeParamAttr(k, Attribute::NonNull); f->removeParamAttr(k, Attribute::ReadOnly); f->removeParamAttr(k, Attribute::ReadNone); f->removeParamAttr(k, Attribute::WriteOnly); f->removeParamAttr(k, Attribute::Returned);}
        for (BasicBlock& bb : *f) for (Instruction& i : bb) if (auto c = dyn_cast<CallBase>(&i)) {
            c->removeFnAttr(Attribute::Memory); c->removeFnAttr(Attribute::WillReturn); c->removeFnAttr(Attribute::NoSync); c->removeFnAttr(Attribute::NoFree);
            for (unsigned k = 0; k < c->arg_size(); ++k) { c->removeParamAttr(k, Attribute::NoUndef); c->removeParamAttr(k, Attribute::NonNull); c->removeParamAttr(k, Attribute::Returned); }
        }
        FnInstr fi(*f);
        fi.run(id++);
        if (verifyFunction(*f, &errs())) { errs() << "broken: " << f->getName() << "\n"; return 3; }
    }
    for (auto& e : extSeen) errs() << "ext " << e << "\n";
    raw_fd_ostream out(argv[2], ec);
    WriteBitcodeToFile(*M, out);
    return 0;
}

// irdump: reads an LLVM bitcode/assembly module and prints it as JSON for the VC generator.
// It drops nothing that has run-time meaning: every function body, global initialiser and instruction is
// emitted; instruction kinds it does not know are emitted with op "unsupported:<name>" (the verifier then
// fails with a tool limit if one is reached).
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
using namespace llvm;
using json::Array;
using json::Object;
using JV = llvm::json::Value;

static const DataLayout* DL;
static Module* M;

static JV ty(Type* t)
{
    if (t->isVoidTy()) return Array{"v"};
    if (t->isIntegerTy()) return Array{"i", (int64_t)t->getIntegerBitWidth()};
    if (t->isPointerTy()) return Array{"p"};
    if (t->isFloatTy()) return Array{"f", 32};
    if (t->isDoubleTy()) return Array{"f", 64};
    if (t->isX86_FP80Ty()) return Array{"f", 80};
    if (auto st = dyn_cast<StructType>(t)) {
        if (st->isOpaque()) return Array{"opaque"};
        Array e, o;
        auto sl = DL->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); ++i) {
            e.push_back(ty(st->getElementType(i)));
            o.push_back((int64_t)sl->getElementOffset(i));
        }
        return Array{"s", std::move(e), std::move(o), (int64_t)DL->getTypeAllocSize(st)};
    }
    if (auto at = dyn_cast<ArrayType>(t))
        return Array{"a", (int64_t)at->getNumElements(), ty(at->getElementType()),
                     (int64_t)DL->getTypeAllocSize(at->getElementType())};
    if (auto vt = dyn_cast<FixedVectorType>(t))
        return Array{"vec", (int64_t)vt->getNumElements(), ty(vt->getElementType()),
                     (int64_t)DL->getTypeAllocSize(vt->getElementType())};
    if (t->isMetadataTy()) return Array{"md"};
    return Array{"unknown"};
}

static std::string apstr(const APInt& v)
{
    SmallString<40> s;
    v.toString(s, 10, false);
    return std::string(s.str());
}

static DenseMap<const llvm::Value*, int64_t> ids;

static JV val(const llvm::Value* v);

static JV cst(const Constant* c)
{
    if (auto ci = dyn_cast<ConstantInt>(c))
        return Array{"i", (int64_t)ci->getBitWidth(), apstr(ci->getValue())};
    if (isa<ConstantPointerNull>(c)) return Array{"null"};
    if (isa<UndefValue>(c)) return Array{"undef", ty(c->getType())};
    if (auto cf = dyn_cast<ConstantFP>(c)) {
        auto ap = cf->getValueAPF().bitcastToAPInt();
        return Array{"fp", (int64_t)ap.getBitWidth(), apstr(ap)};
    }
    if (isa<ConstantAggregateZero>(c)) return Array{"zero", ty(c->getType())};
    if (auto f = dyn_cast<GlobalValue>(c)) {
        if (auto a = dyn_cast<GlobalAlias>(c)) return cst(a->getAliasee());
        return Array{"g", f->getName().str(), 0};
    }
    if (auto ce = dyn_cast<ConstantExpr>(c)) {
        if (ce->getType()->isPointerTy()) {
            APInt off(64, 0);
            auto base = ce->stripAndAccumulateConstantOffsets(*DL, off, true);
            if (auto gv = dyn_cast<GlobalValue>(base)) {
                if (auto a = dyn_cast<GlobalAlias>(gv)) gv = a->getAliaseeObject();
                return Array{"g", gv->getName().str(), (int64_t)off.getSExtValue()};
            }
            if (isa<ConstantPointerNull>(base)) return Array{"i", 64, apstr(off)};
        }
        Array ops;
        for (auto& o: ce->operands()) ops.push_back(cst(cast<Constant>(o)));
        return Array{"ce", ce->getOpcodeName(), ty(ce->getType()), std::move(ops)};
    }
    if (auto cds = dyn_cast<ConstantDataSequential>(c)) {
        Array e;
        for (unsigned i = 0; i < cds->getNumElements(); ++i) e.push_back(cst(cds->getElementAsConstant(i)));
        return Array{"agg", ty(c->getType()), std::move(e)};
    }
    if (auto ca = dyn_cast<ConstantAggregate>(c)) {
        Array e;
        for (auto& o: ca->operands()) e.push_back(cst(cast<Constant>(o)));
        return Array{"agg", ty(c->getType()), std::move(e)};
    }
    if (auto be = dyn_cast<BlockAddress>(c)) (void)be;
    return Array{"unknownconst"};
}

static JV val(const llvm::Value* v)
{
    if (auto c = dyn_cast<Constant>(v)) return cst(c);
    if (isa<InlineAsm>(v)) return Array{"asm"};
    if (isa<MetadataAsValue>(v)) return Array{"md"};
    auto it = ids.find(v);
    if (it == ids.end()) return Array{"unknown"};
    return Array{"l", it->second};
}

static JV bb(const BasicBlock* b)
{
    return ids[b];
}

static JV inst(Instruction& I)
{
    Object o;
    o["id"] = ids[&I];
    std::string op = I.getOpcodeName();
    o["op"] = op;
    o["ty"] = ty(I.getType());
    if (auto dl = I.getDebugLoc()) {
        auto* sc = dl->getScope();
        o["ln"] = (int64_t)dl.getLine();
        if (sc) o["file"] = sc->getFilename().str();
    }
    auto ops = [&](bool all = true) {
        Array a;
        for (auto& x: I.operands()) a.push_back(val(x.get()));
        o["a"] = std::move(a);
    };
    if (auto p = dyn_cast<PHINode>(&I)) {
        Array in;
        for (unsigned i = 0; i < p->getNumIncomingValues(); ++i)
            in.push_back(Array{bb(p->getIncomingBlock(i)), val(p->getIncomingValue(i))});
        o["in"] = std::move(in);
    } else if (auto b = dyn_cast<BranchInst>(&I)) {
        if (b->isConditional()) {
            o["c"] = val(b->getCondition());
            o["t"] = bb(b->getSuccessor(0));
            o["f"] = bb(b->getSuccessor(1));
        } else
            o["t"] = bb(b->getSuccessor(0));
    } else if (auto s = dyn_cast<SwitchInst>(&I)) {
        o["c"] = val(s->getCondition());
        o["d"] = bb(s->getDefaultDest());
        Array cs;
        for (auto& c: s->cases()) cs.push_back(Array{cst(c.getCaseValue()), bb(c.getCaseSuccessor())});
        o["cases"] = std::move(cs);
    } else if (auto g = dyn_cast<GetElementPtrInst>(&I)) {
        o["op"] = "gep";
        o["b"] = val(g->getPointerOperand());
        unsigned bw = 64;
        MapVector<llvm::Value*, APInt> var;
        APInt off(bw, 0);
        if (g->getType()->isVectorTy() || !g->collectOffset(*DL, bw, var, off))
            o["op"] = "unsupported:gep";
        else {
            o["off"] = (int64_t)off.getSExtValue();
            Array vs;
            for (auto& kv: var)
                vs.push_back(Array{val(kv.first), ty(kv.first->getType()), (int64_t)kv.second.getSExtValue()});
            o["v"] = std::move(vs);
        }
    } else if (auto a = dyn_cast<AllocaInst>(&I)) {
        o["sz"] = (int64_t)DL->getTypeAllocSize(a->getAllocatedType());
        o["n"] = val(a->getArraySize());
    } else if (auto l = dyn_cast<LoadInst>(&I)) {
        o["p"] = val(l->getPointerOperand());
        o["vol"] = l->isVolatile();
    } else if (auto s = dyn_cast<StoreInst>(&I)) {
        o["p"] = val(s->getPointerOperand());
        o["x"] = val(s->getValueOperand());
        o["xt"] = ty(s->getValueOperand()->getType());
    } else if (auto c = dyn_cast<CmpInst>(&I)) {
        o["pr"] = CmpInst::getPredicateName(c->getPredicate()).str();
        o["ot"] = ty(c->getOperand(0)->getType());
        ops();
    } else if (auto c = dyn_cast<CallBase>(&I)) {
        o["op"] = isa<InvokeInst>(&I) ? "invoke" : isa<CallInst>(&I) ? "call" : "unsupported:callbr";
        o["fn"] = val(c->getCalledOperand());
        if (auto f = c->getCalledFunction()) o["callee"] = f->getName().str();
        Array args, at;
        for (auto& x: c->args()) {
            args.push_back(val(x.get()));
            at.push_back(ty(x->getType()));
        }
        o["args"] = std::move(args);
        o["at"] = std::move(at);
        Array byv;
        for (unsigned i = 0; i < c->arg_size(); ++i)
            if (c->isByValArgument(i)) byv.push_back(Array{(int64_t)i, (int64_t)DL->getTypeAllocSize(c->getParamByValType(i))});
        if (!byv.empty()) o["byval"] = std::move(byv);
        if (auto iv = dyn_cast<InvokeInst>(&I)) {
            o["n"] = bb(iv->getNormalDest());
            o["u"] = bb(iv->getUnwindDest());
        }
    } else if (auto lp = dyn_cast<LandingPadInst>(&I)) {
        o["cleanup"] = lp->isCleanup();
        Array cl;
        for (unsigned i = 0; i < lp->getNumClauses(); ++i)
            cl.push_back(Array{lp->isCatch(i) ? "catch" : "filter", cst(lp->getClause(i))});
        o["cl"] = std::move(cl);
    } else if (auto e = dyn_cast<ExtractValueInst>(&I)) {
        ops();
        Array ix;
        for (auto i: e->indices()) ix.push_back((int64_t)i);
        o["ix"] = std::move(ix);
    } else if (auto e = dyn_cast<InsertValueInst>(&I)) {
        ops();
        Array ix;
        for (auto i: e->indices()) ix.push_back((int64_t)i);
        o["ix"] = std::move(ix);
        o["at0"] = ty(e->getAggregateOperand()->getType());
    } else if (auto s = dyn_cast<ShuffleVectorInst>(&I)) {
        ops();
        Array m;
        for (auto i: s->getShuffleMask()) m.push_back((int64_t)i);
        o["mask"] = std::move(m);
        o["ot"] = ty(s->getOperand(0)->getType());
    } else if (auto rm = dyn_cast<AtomicRMWInst>(&I)) {
        ops();
        o["rop"] = AtomicRMWInst::getOperationName(rm->getOperation()).str();
    } else {
        ops();
        if (I.getNumOperands()) o["ot"] = ty(I.getOperand(0)->getType());
        if (isa<BinaryOperator>(I) && isa<PossiblyExactOperator>(I) ) o["exact"] = cast<PossiblyExactOperator>(I).isExact();
        if (auto ob = dyn_cast<OverflowingBinaryOperator>(&I)) {
            if (ob->hasNoSignedWrap()) o["nsw"] = true;
            if (ob->hasNoUnsignedWrap()) o["nuw"] = true;
        }
    }
    return o;
}

int main(int argc, char** argv)
{
    LLVMContext ctx;
    SMDiagnostic err;
    auto m = parseIRFile(argv[1], err, ctx);
    if (!m) {
        err.print(argv[0], errs());
        return 2;
    }
    M = m.get();
    DL = &m->getDataLayout();
    Object root;
    Array globals, funcs;
    for (auto& g: m->globals()) {
        Object o;
        o["name"] = g.getName().str();
        o["dem"] = demangle(g.getName().str());
        o["const"] = g.isConstant();
        o["ext"] = g.isDeclaration();
        if (g.getValueType()->isSized()) o["size"] = (int64_t)DL->getTypeAllocSize(g.getValueType());
        o["ty"] = ty(g.getValueType());
        if (g.hasInitializer()) o["init"] = cst(g.getInitializer());
        globals.push_back(std::move(o));
    }
    for (auto& f: *m) {
        Object o;
        o["name"] = f.getName().str();
        o["dem"] = demangle(f.getName().str());
        o["ret"] = ty(f.getReturnType());
        o["va"] = f.isVarArg();
        Array args;
        ids.clear();
        int64_t n = 0;
        for (auto& a: f.args()) {
            ids[&a] = n++;
            args.push_back(Array{ids[&a], ty(a.getType()), a.hasByValAttr() ? (int64_t)DL->getTypeAllocSize(a.getParamByValType()) : 0});
        }
        o["args"] = std::move(args);
        if (auto sp = f.getSubprogram()) {
            o["file"] = sp->getFilename().str();
            o["line"] = (int64_t)sp->getLine();
        }
        if (!f.isDeclaration()) {
            int64_t b = 0;
            for (auto& B: f) {
                ids[&B] = b++;
                for (auto& I: B) ids[&I] = n++;
            }
            Array blocks;
            for (auto& B: f) {
                Array is;
                for (auto& I: B) {
                    if (isa<DbgInfoIntrinsic>(&I)) continue;
                    is.push_back(inst(I));
                }
                blocks.push_back(std::move(is));
            }
            o["blocks"] = std::move(blocks);
            DominatorTree dt(f);
            LoopInfo li(dt);
            Array loops;
            for (auto* L: li.getLoopsInPreorder()) {
                Array bs;
                for (auto* x: L->blocks()) bs.push_back(bb(x));
                Object lo;
                lo["h"] = bb(L->getHeader());
                lo["b"] = std::move(bs);
                lo["depth"] = (int64_t)L->getLoopDepth();
                if (auto dl = L->getStartLoc()) lo["ln"] = (int64_t)dl.getLine();
                loops.push_back(std::move(lo));
            }
            o["loops"] = std::move(loops);
        }
        funcs.push_back(std::move(o));
    }
    root["globals"] = std::move(globals);
    root["funcs"] = std::move(funcs);
    outs() << JV(std::move(root)) << "\n";
    return 0;
}

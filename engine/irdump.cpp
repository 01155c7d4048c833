// Lowers one LLVM bitcode module to a resolved JSON form for the analyses in this directory.
// Types are reduced to sizes, getelementptr to linear offsets, constants are folded to (symbol, offset) pairs and the
// natural loops of every function are listed, so that the analyses need no knowledge of LLVM's textual syntax.
#include <llvm/ADT/MapVector.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/GlobalAlias.h>
#include <llvm/IR/GlobalVariable.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>

using namespace llvm;
namespace js = llvm::json;

static const DataLayout* DL;
static DenseMap<const Value*, int64_t> Ids;

static int64_t storeSize(Type* t)
{
    return t->isSized() ? static_cast<int64_t>(DL->getTypeStoreSize(t).getFixedValue()) : 0;
}
static int64_t allocSize(Type* t)
{
    return t->isSized() ? static_cast<int64_t>(DL->getTypeAllocSize(t).getFixedValue()) : 0;
}

// ["i",bits] ["p"] ["s",[[offset,type]...],size] ["f",bytes] ["v"] ["o"]
static js::Value typeJ(Type* t)
{
    if (t->isIntegerTy())
        return js::Array{"i", static_cast<int64_t>(t->getIntegerBitWidth())};
    if (t->isPointerTy())
        return js::Array{"p"};
    if (t->isVoidTy())
        return js::Array{"v"};
    if (auto* st = dyn_cast<StructType>(t))
    {
        js::Array el;
        if (!st->isOpaque())
        {
            const auto* sl = DL->getStructLayout(st);
            for (unsigned i = 0; i < st->getNumElements(); ++i)
                el.push_back(js::Array{static_cast<int64_t>(sl->getElementOffset(i)), typeJ(st->getElementType(i))});
        }
        return js::Array{"s", std::move(el), allocSize(t)};
    }
    if (auto* at = dyn_cast<ArrayType>(t))
    {
        js::Array el;
        const auto es = allocSize(at->getElementType());
        if (at->getNumElements() <= 64)
            for (uint64_t i = 0; i < at->getNumElements(); ++i)
                el.push_back(js::Array{static_cast<int64_t>(i) * es, typeJ(at->getElementType())});
        return js::Array{"s", std::move(el), allocSize(t)};
    }
    if (t->isFloatingPointTy())
        return js::Array{"f", storeSize(t)};
    return js::Array{"o", storeSize(t)};
}

static js::Value opJ(const Value* v);

static js::Value constJ(const Constant* c)
{
    if (auto* ci = dyn_cast<ConstantInt>(c))
    {
        if (ci->getBitWidth() <= 64)
            return js::Array{"i", ci->getSExtValue(), static_cast<int64_t>(ci->getBitWidth())};
        return js::Array{"u"};
    }
    if (isa<ConstantPointerNull>(c))
        return js::Array{"i", 0, 64};
    if (isa<UndefValue>(c))
        return js::Array{"u"};
    if (auto* f = dyn_cast<Function>(c))
        return js::Array{"f", f->getName().str()};
    if (auto* g = dyn_cast<GlobalVariable>(c))
        return js::Array{"g", g->getName().str(), 0};
    if (auto* a = dyn_cast<GlobalAlias>(c))
        return constJ(a->getAliasee());
    if (isa<ConstantAggregateZero>(c))
        return js::Array{"z"};
    if (auto* ca = dyn_cast<ConstantAggregate>(c))
    {
        js::Array el;
        for (unsigned i = 0; i < ca->getNumOperands(); ++i)
            el.push_back(constJ(cast<Constant>(ca->getOperand(i))));
        return js::Array{"a", std::move(el)};
    }
    if (auto* cd = dyn_cast<ConstantDataSequential>(c))
    {
        js::Array el;
        for (unsigned i = 0; i < cd->getNumElements(); ++i)
            el.push_back(constJ(cd->getElementAsConstant(i)));
        return js::Array{"a", std::move(el)};
    }
    if (isa<ConstantFP>(c))
        return js::Array{"x"};
    if (auto* ce = dyn_cast<ConstantExpr>(c))
    {
        if (ce->getType()->isPointerTy())
        {
            APInt       off(DL->getIndexTypeSizeInBits(ce->getType()), 0);
            const auto* base = ce->stripAndAccumulateConstantOffsets(*DL, off, true);
            if (auto* g = dyn_cast<GlobalVariable>(base))
                return js::Array{"g", g->getName().str(), off.getSExtValue()};
            if (auto* f = dyn_cast<Function>(base))
                return js::Array{"f", f->getName().str()};
            if (auto* ie = dyn_cast<ConstantExpr>(base))
                if (ie->getOpcode() == Instruction::IntToPtr)
                    return constJ(ie->getOperand(0));
        }
        if (ce->getOpcode() == Instruction::PtrToInt)
            return constJ(ce->getOperand(0));
    }
    return js::Array{"x"};
}

static js::Value opJ(const Value* v)
{
    if (auto* c = dyn_cast<Constant>(v))
        return constJ(c);
    if (auto* bb = dyn_cast<BasicBlock>(v))
        return js::Array{"b", Ids.lookup(bb)};
    auto it = Ids.find(v);
    if (it != Ids.end())
        return js::Array{"r", it->second};
    if (isa<MetadataAsValue>(v))
        return js::Array{"m"};
    return js::Array{"x"};
}

static void flatten(js::Array& out, const Constant* c, int64_t off)
{
    Type* t = c->getType();
    if (isa<ConstantAggregateZero>(c))
    {
        out.push_back(js::Array{off, allocSize(t), js::Array{"z"}});
        return;
    }
    if (auto* st = dyn_cast<StructType>(t))
    {
        if (isa<UndefValue>(c))
            return;
        const auto* sl = DL->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); ++i)
            flatten(out, c->getAggregateElement(i), off + static_cast<int64_t>(sl->getElementOffset(i)));
        return;
    }
    if (auto* at = dyn_cast<ArrayType>(t))
    {
        const auto es = allocSize(at->getElementType());
        for (uint64_t i = 0; i < at->getNumElements() && i < 4096; ++i)
            if (auto* e = c->getAggregateElement(static_cast<unsigned>(i)))
                flatten(out, e, off + static_cast<int64_t>(i) * es);
        return;
    }
    out.push_back(js::Array{off, storeSize(t), constJ(c)});
}

static js::Value locJ(const Instruction& in)
{
    js::Array out;
    const DILocation* l = in.getDebugLoc().get();
    for (; l != nullptr; l = l->getInlinedAt())
        out.push_back(js::Array{(l->getDirectory().empty() || (!l->getFilename().empty() && l->getFilename()[0] == '/'))
                                    ? l->getFilename().str()
                                    : (l->getDirectory() + "/" + l->getFilename()).str(),
                                static_cast<int64_t>(l->getLine())});
    if (out.empty())
        return nullptr;
    return std::move(out);
}

static js::Value instJ(Instruction& in)
{
    js::Object o;
    o["op"] = in.getOpcodeName();
    auto it = Ids.find(&in);
    if (it != Ids.end() && !in.getType()->isVoidTy())
    {
        o["id"] = it->second;
        o["t"]  = typeJ(in.getType());
    }
    if (auto l = locJ(in); l.kind() != js::Value::Null)
        o["loc"] = std::move(l);
    js::Array ops;
    if (auto* phi = dyn_cast<PHINode>(&in))
    {
        for (unsigned i = 0; i < phi->getNumIncomingValues(); ++i)
            ops.push_back(js::Array{Ids.lookup(phi->getIncomingBlock(i)), opJ(phi->getIncomingValue(i))});
        o["ops"] = std::move(ops);
        return std::move(o);
    }
    if (auto* gep = dyn_cast<GetElementPtrInst>(&in))
    {
        MapVector<Value*, APInt> vars;
        APInt                    cst(DL->getIndexTypeSizeInBits(gep->getType()), 0);
        if (cast<GEPOperator>(gep)->collectOffset(*DL, 64, vars, cst))
        {
            o["base"] = opJ(gep->getPointerOperand());
            o["c"]    = cst.getSExtValue();
            js::Array vs;
            for (auto& kv : vars)
                vs.push_back(js::Array{opJ(kv.first), kv.second.getSExtValue(),
                                       static_cast<int64_t>(kv.first->getType()->getIntegerBitWidth())});
            o["vars"] = std::move(vs);
            return std::move(o);
        }
        o["op"] = "unknown";
        return std::move(o);
    }
    if (auto* cb = dyn_cast<CallBase>(&in))
    {
        js::Array args;
        for (auto& a : cb->args())
            args.push_back(opJ(a.get()));
        o["args"]     = std::move(args);
        js::Array bv;
        for (unsigned i = 0; i < cb->arg_size(); ++i)
            if (cb->isByValArgument(i))
                bv.push_back(js::Array{static_cast<int64_t>(i), allocSize(cb->getParamByValType(i))});
        if (!bv.empty())
            o["byval"] = std::move(bv);
        o["callee"]   = opJ(cb->getCalledOperand());
        o["nounwind"] = cb->doesNotThrow();
        o["noreturn"] = cb->doesNotReturn();
        if (auto* iv = dyn_cast<InvokeInst>(&in))
        {
            o["normal"] = Ids.lookup(iv->getNormalDest());
            o["unwind"] = Ids.lookup(iv->getUnwindDest());
        }
        if (in.getType()->isVoidTy())
            o["t"] = js::Array{"v"};
        return std::move(o);
    }
    if (auto* al = dyn_cast<AllocaInst>(&in))
    {
        o["sz"]  = allocSize(al->getAllocatedType());
        o["n"]   = opJ(al->getArraySize());
        o["al"]  = static_cast<int64_t>(al->getAlign().value());
        o["nm"]  = al->getName().str();
        return std::move(o);
    }
    if (auto* lp = dyn_cast<LandingPadInst>(&in))
    {
        js::Array cl;
        for (unsigned i = 0; i < lp->getNumClauses(); ++i)
            cl.push_back(js::Array{lp->isCatch(i) ? "catch" : "filter", opJ(lp->getClause(i))});
        o["clauses"] = std::move(cl);
        o["cleanup"] = lp->isCleanup();
        return std::move(o);
    }
    if (auto* ic = dyn_cast<CmpInst>(&in))
        o["pred"] = CmpInst::getPredicateName(ic->getPredicate()).str();
    if (auto* ld = dyn_cast<LoadInst>(&in))
    {
        o["sz"] = storeSize(ld->getType());
        o["al"] = static_cast<int64_t>(ld->getAlign().value());
        if (ld->isAtomic())
            o["atomic"] = toIRString(ld->getOrdering());
    }
    if (auto* st = dyn_cast<StoreInst>(&in))
    {
        o["sz"] = storeSize(st->getValueOperand()->getType());
        o["vt"] = typeJ(st->getValueOperand()->getType());
        o["al"] = static_cast<int64_t>(st->getAlign().value());
        if (st->isAtomic())
            o["atomic"] = toIRString(st->getOrdering());
    }
    if (auto* rmw = dyn_cast<AtomicRMWInst>(&in))
    {
        o["rmw"] = AtomicRMWInst::getOperationName(rmw->getOperation()).str();
        o["sz"]  = storeSize(rmw->getType());
        o["atomic"] = toIRString(rmw->getOrdering());
    }
    if (auto* cx = dyn_cast<AtomicCmpXchgInst>(&in))
    {
        o["sz"] = storeSize(cx->getCompareOperand()->getType());
        o["atomic"] = toIRString(cx->getSuccessOrdering());
        o["vt"] = typeJ(cx->getCompareOperand()->getType());
    }
    if (auto* ev = dyn_cast<ExtractValueInst>(&in))
    {
        js::Array ix;
        for (auto i : ev->indices())
            ix.push_back(static_cast<int64_t>(i));
        o["ix"] = std::move(ix);
        o["at"] = typeJ(ev->getAggregateOperand()->getType());
    }
    if (auto* iv = dyn_cast<InsertValueInst>(&in))
    {
        js::Array ix;
        for (auto i : iv->indices())
            ix.push_back(static_cast<int64_t>(i));
        o["ix"] = std::move(ix);
        o["at"] = typeJ(iv->getType());
    }
    if (auto* ob = dyn_cast<OverflowingBinaryOperator>(&in))
    {
        o["nuw"] = ob->hasNoUnsignedWrap();
        o["nsw"] = ob->hasNoSignedWrap();
    }
    if (auto* br = dyn_cast<BranchInst>(&in))
    {
        js::Array s;
        for (unsigned i = 0; i < br->getNumSuccessors(); ++i)
            s.push_back(Ids.lookup(br->getSuccessor(i)));
        o["succ"] = std::move(s);
        if (br->isConditional())
            o["cond"] = opJ(br->getCondition());
        return std::move(o);
    }
    if (auto* sw = dyn_cast<SwitchInst>(&in))
    {
        o["cond"] = opJ(sw->getCondition());
        o["w"]    = static_cast<int64_t>(sw->getCondition()->getType()->getIntegerBitWidth());
        o["def"]  = Ids.lookup(sw->getDefaultDest());
        js::Array cs;
        for (auto& c : sw->cases())
            cs.push_back(js::Array{c.getCaseValue()->getSExtValue(), Ids.lookup(c.getCaseSuccessor())});
        o["cases"] = std::move(cs);
        return std::move(o);
    }
    if (in.getNumOperands() > 0)
        o["st"] = typeJ(in.getOperand(0)->getType());
    for (auto& u : in.operands())
        ops.push_back(opJ(u.get()));
    o["ops"] = std::move(ops);
    return std::move(o);
}

int main(int argc, char** argv)
{
    if (argc < 3)
        return 2;
    LLVMContext  ctx;
    SMDiagnostic err;
    auto         m = parseIRFile(argv[1], err, ctx);
    if (!m)
    {
        err.print(argv[0], errs());
        return 2;
    }
    DL = &m->getDataLayout();
    {
        LoopAnalysisManager     lam;
        FunctionAnalysisManager fam;
        CGSCCAnalysisManager    cam;
        ModuleAnalysisManager   mam;
        PassBuilder             pb;
        pb.registerModuleAnalyses(mam);
        pb.registerCGSCCAnalyses(cam);
        pb.registerFunctionAnalyses(fam);
        pb.registerLoopAnalyses(lam);
        pb.crossRegisterProxies(lam, fam, cam, mam);
        ModulePassManager mpm;
        if (auto e = pb.parsePassPipeline(mpm, argc > 3 ? argv[3] : "function(sroa,adce,loop-simplify)"))
        {
            errs() << toString(std::move(e)) << "\n";
            return 2;
        }
        mpm.run(*m, mam);
    }
    std::error_code ec;
    raw_fd_ostream  os(argv[2], ec);
    js::Object      root;
    js::Array       globals;
    for (auto& g : m->globals())
    {
        js::Object o;
        o["name"]  = g.getName().str();
        o["const"] = g.isConstant();
        o["size"]  = allocSize(g.getValueType());
        o["linkage_internal"] = g.hasLocalLinkage();
        o["tls"]   = g.isThreadLocal();
        if (g.hasInitializer())
        {
            js::Array fl;
            flatten(fl, g.getInitializer(), 0);
            o["init"] = std::move(fl);
        }
        globals.push_back(std::move(o));
    }
    root["globals"] = std::move(globals);
    js::Array aliases;
    for (auto& a : m->aliases())
        aliases.push_back(js::Array{a.getName().str(), constJ(a.getAliasee())});
    root["aliases"] = std::move(aliases);
    js::Array fns;
    for (auto& f : *m)
    {
        Ids.clear();
        js::Object o;
        o["name"]     = f.getName().str();
        o["dem"]      = llvm::demangle(f.getName().str());
        o["nounwind"] = f.doesNotThrow();
        o["noreturn"] = f.doesNotReturn();
        o["rt"]       = typeJ(f.getReturnType());
        o["vararg"]   = f.isVarArg();
        int64_t   n   = 0;
        js::Array args;
        for (auto& a : f.args())
        {
            Ids[&a] = n;
            js::Object ao;
            ao["id"] = n++;
            ao["t"]  = typeJ(a.getType());
            if (a.hasStructRetAttr())
                ao["sret"] = allocSize(a.getParamStructRetType());
            if (a.hasByValAttr())
                ao["byval"] = allocSize(a.getParamByValType());
            args.push_back(std::move(ao));
        }
        o["args"] = std::move(args);
        if (auto* sp = f.getSubprogram())
        {
            o["file"] = sp->getFilename().str();
            o["line"] = static_cast<int64_t>(sp->getLine());
        }
        if (!f.isDeclaration())
        {
            int64_t b = 0;
            for (auto& bb : f)
            {
                Ids[&bb] = b++;
                for (auto& in : bb)
                    Ids[&in] = n++;
            }
            js::Array bbs;
            for (auto& bb : f)
            {
                js::Array ins;
                for (auto& in : bb)
                {
                    if (isa<DbgInfoIntrinsic>(&in))
                        continue;
                    ins.push_back(instJ(in));
                }
                bbs.push_back(std::move(ins));
            }
            o["blocks"] = std::move(bbs);
            DominatorTree dt(f);
            LoopInfo      li(dt);
            js::Array     loops;
            for (auto* l : li.getLoopsInPreorder())
            {
                js::Array bl;
                for (auto* bb : l->blocks())
                    bl.push_back(Ids.lookup(bb));
                loops.push_back(js::Array{Ids.lookup(l->getHeader()), std::move(bl)});
            }
            o["loops"] = std::move(loops);
        }
        fns.push_back(std::move(o));
    }
    root["functions"] = std::move(fns);
    os << js::Value(std::move(root));
    return 0;
}

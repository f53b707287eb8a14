// Translates an LLVM bitcode file into the flat format of sxe.h.
#include "sxe.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <cstdio>
#include <cstring>
using namespace llvm;

namespace {
struct Loader {
    ::Module &m;
    llvm::Module *lm;
    const DataLayout *dl;
    std::unordered_map<const GlobalValue*, uint64_t> gaddr;

    Loader(::Module &mm, llvm::Module *l) : m(mm), lm(l), dl(&l->getDataLayout()) {}

    void unsup(const std::string &s) { m.unsupported.push_back(s); }

    unsigned width(Type *t) {
        if (t->isIntegerTy()) return t->getIntegerBitWidth();
        if (t->isPointerTy()) return 64;
        if (t->isFloatTy()) return 32;
        if (t->isDoubleTy()) return 64;
        return 0;
    }

    ConstVal cval(const Constant *c) {
        ConstVal r;
        if (auto *ci = dyn_cast<ConstantInt>(c)) {
            if (ci->getBitWidth() > 64) { unsup("wide const"); return r; }
            r.c = ci->getZExtValue(); return r;
        }
        if (isa<ConstantPointerNull>(c)) return r;
        if (isa<UndefValue>(c)) {   // includes poison
            r.undef = true;
            if (c->getType()->isAggregateType()) {
                r.agg = new std::vector<ConstVal>();
                unsigned n = c->getType()->isStructTy() ? c->getType()->getStructNumElements() : c->getType()->getArrayNumElements();
                for (unsigned i = 0; i < n; ++i) r.agg->push_back(cval(cast<UndefValue>(c)->getElementValue(i)));
            }
            return r;
        }
        if (auto *cf = dyn_cast<ConstantFP>(c)) {
            if (c->getType()->isFloatTy() || c->getType()->isDoubleTy()) r.c = cf->getValueAPF().bitcastToAPInt().getZExtValue();
            else unsup("fp const");
            return r;
        }
        if (auto *gv = dyn_cast<GlobalValue>(c)) {
            if (auto *ga = dyn_cast<GlobalAlias>(gv)) return cval(ga->getAliasee());
            auto it = gaddr.find(gv);
            if (it == gaddr.end()) { unsup("global without address " + gv->getName().str()); return r; }
            r.c = it->second; return r;
        }
        if (c->getType()->isAggregateType()) {
            r.agg = new std::vector<ConstVal>();
            unsigned n = c->getType()->isStructTy() ? c->getType()->getStructNumElements() : c->getType()->getArrayNumElements();
            for (unsigned i = 0; i < n; ++i) r.agg->push_back(cval(c->getAggregateElement(i)));
            return r;
        }
        if (auto *ce = dyn_cast<ConstantExpr>(c)) {
            unsigned w = width(ce->getType());
            uint64_t mask = w >= 64 ? ~0ull : ((1ull << w) - 1);
            switch (ce->getOpcode()) {
            case Instruction::GetElementPtr: {
                APInt off(64, 0);
                auto *g = cast<GEPOperator>(ce);
                if (!g->accumulateConstantOffset(*dl, off)) { unsup("gep constexpr"); return r; }
                r.c = cval(cast<Constant>(g->getPointerOperand())).c + off.getSExtValue();
                return r;
            }
            case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
            case Instruction::Trunc:
                r.c = cval(ce->getOperand(0)).c & mask; return r;
            case Instruction::Add: r.c = (cval(ce->getOperand(0)).c + cval(ce->getOperand(1)).c) & mask; return r;
            case Instruction::Sub: r.c = (cval(ce->getOperand(0)).c - cval(ce->getOperand(1)).c) & mask; return r;
            default: break;
            }
            unsup(std::string("constexpr ") + ce->getOpcodeName());
            return r;
        }
        unsup("constant kind");
        return r;
    }

    void init(const Constant *c, uint64_t off) {
        Type *t = c->getType();
        if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
        if (auto *cds = dyn_cast<ConstantDataSequential>(c)) {
            StringRef raw = cds->getRawDataValues();
            memcpy(&m.image[off - GLOBAL_BASE], raw.data(), raw.size());
            return;
        }
        if (auto *ca = dyn_cast<ConstantArray>(c)) {
            uint64_t sz = dl->getTypeAllocSize(ca->getType()->getElementType());
            for (unsigned i = 0; i < ca->getNumOperands(); ++i) init(ca->getOperand(i), off + i * sz);
            return;
        }
        if (auto *cs = dyn_cast<ConstantStruct>(c)) {
            const StructLayout *sl = dl->getStructLayout(cs->getType());
            for (unsigned i = 0; i < cs->getNumOperands(); ++i) init(cs->getOperand(i), off + sl->getElementOffset(i));
            return;
        }
        ConstVal v = cval(c);
        uint64_t sz = dl->getTypeStoreSize(t);
        memcpy(&m.image[off - GLOBAL_BASE], &v.c, sz > 8 ? 8 : sz);
    }

    void run() {
        uint64_t fa = FUNC_BASE;
        for (auto &f : *lm) {
            ::Function fn;
            fn.name = f.getName().str();
            fn.defined = !f.isDeclaration();
            fn.vararg = f.isVarArg();
            fn.nparams = f.arg_size();
            fn.addr = fa; fa += 16;
            if (auto *sp = f.getSubprogram()) fn.file = sp->getFilename().str();
            gaddr[&f] = fn.addr;
            m.fidx[fn.name] = m.funcs.size();
            m.faddr[fn.addr] = m.funcs.size();
            m.funcs.push_back(std::move(fn));
        }
        uint64_t ga = GLOBAL_BASE + 64;
        for (auto &g : lm->globals()) {
            uint64_t sz = dl->getTypeAllocSize(g.getValueType());
            uint64_t al = 16;
            if (g.getAlign() && g.getAlign()->value() > al) al = g.getAlign()->value();
            ga = (ga + al - 1) / al * al;
            gaddr[&g] = ga;
            m.globals.push_back({g.getName().str(), ga, sz, g.isConstant(), g.isDeclaration()});
            ga += sz + 64;
        }
        ga = (ga + 8191) / 4096 * 4096;
        m.image.assign(ga - GLOBAL_BASE, 0);
        for (auto &g : lm->globals()) if (g.hasInitializer()) init(g.getInitializer(), gaddr[&g]);
        size_t i = 0;
        for (auto &f : *lm) { if (!f.isDeclaration()) func(f, m.funcs[i]); i++; }
    }

    // per function
    ::Function *cf;
    std::unordered_map<const Value*, int> reg;
    std::unordered_map<const Value*, int> cidx;
    std::unordered_map<const BasicBlock*, int> bpc;

    Opnd opnd(const Value *v) {
        if (auto *c = dyn_cast<Constant>(v)) {
            auto it = cidx.find(v);
            if (it != cidx.end()) return ~it->second;
            int k = cf->consts.size();
            cf->consts.push_back(cval(c));
            cidx[v] = k;
            return ~k;
        }
        auto it = reg.find(v);
        if (it == reg.end()) { if (!isa<MetadataAsValue>(v) && !isa<InlineAsm>(v)) unsup("operand"); return ~0; }
        return it->second;
    }

    Edge edge(const BasicBlock *from, const BasicBlock *to) {
        Edge e; e.target = bpc[to];
        for (auto &phi : to->phis()) e.copies.push_back({reg[&phi], opnd(phi.getIncomingValueForBlock(from))});
        return e;
    }

    void func(llvm::Function &f, ::Function &o) {
        cf = &o; reg.clear(); cidx.clear(); bpc.clear();
        cf->consts.push_back(ConstVal());
        int n = 0;
        for (auto &a : f.args()) { reg[&a] = n++; o.paramw.push_back(width(a.getType())); }
        int pc = 0;
        for (auto &b : f) {
            bpc[&b] = pc;
            for (auto &i : b) {
                if (!i.getType()->isVoidTy()) reg[&i] = n++;
                if (isa<PHINode>(i)) continue;
                if (isa<DbgInfoIntrinsic>(i)) continue;
                pc++;
            }
        }
        o.nregs = n;
        for (auto &b : f) for (auto &i : b) {
            if (isa<PHINode>(i) || isa<DbgInfoIntrinsic>(i)) continue;
            Instr x;
            if (i.getDebugLoc()) x.line = i.getDebugLoc().getLine();
            if (!i.getType()->isVoidTy()) { x.dst = reg[&i]; x.w = width(i.getType()); }
            emit(i, x, b);
            o.code.push_back(x);
        }
    }

    void emit(Instruction &i, Instr &x, BasicBlock &bb) {
        ::Function &o = *cf;
        auto bad = [&](const char *why) { x.op = O_UNSUPPORTED; x.ext = 0; (void)why; if (getenv("SXE_LOADDBG")) fprintf(stderr, "unsupported in %s: %s\n", o.name.c_str(), why); };
        unsigned ow = i.getNumOperands() ? width(i.getOperand(0)->getType()) : 0;
        auto scalar = [&](Type *t) { return (t->isIntegerTy() && t->getIntegerBitWidth() <= 64) || t->isPointerTy() || t->isFloatTy() || t->isDoubleTy(); };
        for (auto &op : i.operands()) if (op->getType()->isVectorTy() || (op->getType()->isIntegerTy() && op->getType()->getIntegerBitWidth() > 64)) return bad("vector/wide operand");
        if (i.getType()->isVectorTy() || (i.getType()->isIntegerTy() && i.getType()->getIntegerBitWidth() > 64)) return bad("vector/wide result");
        switch (i.getOpcode()) {
#define BIN(L, O) case Instruction::L: x.op = O; x.a = opnd(i.getOperand(0)); x.b = opnd(i.getOperand(1)); return;
        BIN(Add, O_ADD) BIN(Sub, O_SUB) BIN(Mul, O_MUL) BIN(UDiv, O_UDIV) BIN(SDiv, O_SDIV) BIN(URem, O_UREM) BIN(SRem, O_SREM)
        BIN(Shl, O_SHL) BIN(LShr, O_LSHR) BIN(AShr, O_ASHR) BIN(And, O_AND) BIN(Or, O_OR) BIN(Xor, O_XOR)
        BIN(FAdd, O_FADD) BIN(FSub, O_FSUB) BIN(FMul, O_FMUL) BIN(FDiv, O_FDIV)
#undef BIN
#define UN(L, O) case Instruction::L: x.op = O; x.a = opnd(i.getOperand(0)); x.w2 = ow; return;
        UN(ZExt, O_ZEXT) UN(SExt, O_SEXT) UN(Trunc, O_TRUNC) UN(BitCast, O_MOVE) UN(PtrToInt, O_MOVE) UN(IntToPtr, O_MOVE)
        UN(Freeze, O_FREEZE) UN(FNeg, O_FNEG) UN(FPExt, O_FPEXT) UN(FPTrunc, O_FPTRUNC) UN(FPToUI, O_FPTOUI) UN(FPToSI, O_FPTOSI)
        UN(UIToFP, O_UITOFP) UN(SIToFP, O_SITOFP)
#undef UN
        case Instruction::ICmp: {
            auto &c = cast<ICmpInst>(i);
            x.op = O_ICMP; x.a = opnd(c.getOperand(0)); x.b = opnd(c.getOperand(1)); x.w2 = ow;
            switch (c.getPredicate()) {
            case ICmpInst::ICMP_EQ: x.pred = P_EQ; break; case ICmpInst::ICMP_NE: x.pred = P_NE; break;
            case ICmpInst::ICMP_UGT: x.pred = P_UGT; break; case ICmpInst::ICMP_UGE: x.pred = P_UGE; break;
            case ICmpInst::ICMP_ULT: x.pred = P_ULT; break; case ICmpInst::ICMP_ULE: x.pred = P_ULE; break;
            case ICmpInst::ICMP_SGT: x.pred = P_SGT; break; case ICmpInst::ICMP_SGE: x.pred = P_SGE; break;
            case ICmpInst::ICMP_SLT: x.pred = P_SLT; break; default: x.pred = P_SLE; break;
            }
            return;
        }
        case Instruction::FCmp:
            x.op = O_FCMP; x.pred = cast<FCmpInst>(i).getPredicate(); x.a = opnd(i.getOperand(0)); x.b = opnd(i.getOperand(1)); x.w2 = ow; return;
        case Instruction::Select:
            x.op = O_SELECT; x.a = opnd(i.getOperand(0)); x.b = opnd(i.getOperand(1)); x.c = opnd(i.getOperand(2)); return;
        case Instruction::Load:
            if (!scalar(i.getType())) return bad("aggregate load");
            x.op = O_LOAD; x.a = opnd(i.getOperand(0)); return;
        case Instruction::Store:
            if (!scalar(i.getOperand(0)->getType())) return bad("aggregate store");
            x.op = O_STORE; x.a = opnd(i.getOperand(0)); x.b = opnd(i.getOperand(1)); x.w = ow; return;
        case Instruction::Alloca: {
            auto &a = cast<AllocaInst>(i);
            x.op = O_ALLOCA; x.a = opnd(a.getArraySize()); x.w2 = width(a.getArraySize()->getType());
            x.ext = (int32_t)(uint64_t)dl->getTypeAllocSize(a.getAllocatedType()); return;
        }
        case Instruction::GetElementPtr: {
            GepInfo g;
            x.op = O_GEP; x.a = opnd(i.getOperand(0));
            for (auto it = gep_type_begin(&i), e = gep_type_end(&i); it != e; ++it) {
                Value *idx = it.getOperand();
                if (StructType *st = it.getStructTypeOrNull()) {
                    g.off += dl->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
                } else {
                    int64_t sz = dl->getTypeAllocSize(it.getIndexedType());
                    if (auto *ci = dyn_cast<ConstantInt>(idx)) g.off += ci->getSExtValue() * sz;
                    else g.terms.push_back({opnd(idx), (uint8_t)width(idx->getType()), sz});
                }
            }
            x.ext = o.geps.size(); o.geps.push_back(g); return;
        }
        case Instruction::Br: {
            auto &b = cast<BranchInst>(i);
            BrInfo bi; bi.t = edge(&bb, b.getSuccessor(0));
            if (b.isConditional()) { bi.f = edge(&bb, b.getSuccessor(1)); x.op = O_CONDBR; x.a = opnd(b.getCondition()); }
            else x.op = O_BR;
            x.ext = o.brs.size(); o.brs.push_back(bi); return;
        }
        case Instruction::Switch: {
            auto &s = cast<SwitchInst>(i);
            SwitchInfo si; si.def = edge(&bb, s.getDefaultDest());
            std::map<const BasicBlock*, int> em;
            for (auto &c : s.cases()) {
                const BasicBlock *d = c.getCaseSuccessor();
                int k;
                if (d == s.getDefaultDest()) k = -1;
                else if (em.count(d)) k = em[d];
                else { k = si.edges.size(); em[d] = k; si.edges.push_back(edge(&bb, d)); }
                si.cases.push_back({c.getCaseValue()->getZExtValue(), k});
            }
            x.op = O_SWITCH; x.a = opnd(s.getCondition()); x.w2 = width(s.getCondition()->getType());
            x.ext = o.switches.size(); o.switches.push_back(si); return;
        }
        case Instruction::Ret:
            x.op = O_RET; if (i.getNumOperands()) { x.a = opnd(i.getOperand(0)); x.w = 1; } else x.w = 0; return;
        case Instruction::Unreachable: x.op = O_UNREACHABLE; return;
        case Instruction::ExtractValue: {
            AggInfo a; for (unsigned k : cast<ExtractValueInst>(i).indices()) a.idx.push_back(k);
            x.op = O_EXTRACTVALUE; x.a = opnd(i.getOperand(0)); x.ext = o.aggs.size(); o.aggs.push_back(a); return;
        }
        case Instruction::InsertValue: {
            AggInfo a; for (unsigned k : cast<InsertValueInst>(i).indices()) a.idx.push_back(k);
            x.op = O_INSERTVALUE; x.a = opnd(i.getOperand(0)); x.b = opnd(i.getOperand(1)); x.ext = o.aggs.size(); o.aggs.push_back(a); return;
        }
        case Instruction::Call: {
            auto &c = cast<CallInst>(i);
            if (c.isInlineAsm()) { x.op = O_NOP; return; }
            CallInfo ci;
            Value *cv = c.getCalledOperand()->stripPointerCasts();
            if (auto *f = dyn_cast<llvm::Function>(cv)) ci.callee = m.fidx[f->getName().str()];
            else ci.fptr = opnd(c.getCalledOperand());
            for (unsigned k = 0; k < c.arg_size(); ++k) {
                Value *a = c.getArgOperand(k);
                ci.args.push_back(opnd(a));
                ci.widths.push_back(width(a->getType()));
                ci.byval.push_back(c.isByValArgument(k) ? (int64_t)(uint64_t)dl->getTypeAllocSize(c.getParamByValType(k)) : 0);
            }
            x.op = O_CALL; x.ext = o.calls.size(); o.calls.push_back(ci); return;
        }
        default: return bad(i.getOpcodeName());
        }
    }
};
}

bool load_module(const char *path, ::Module &m, std::string &err) {
    static LLVMContext ctx;
    SMDiagnostic d;
    static std::unique_ptr<llvm::Module> lm;
    lm = parseIRFile(path, d, ctx);
    if (!lm) { err = d.getMessage().str(); return false; }
    Loader l(m, lm.get());
    l.run();
    return true;
}

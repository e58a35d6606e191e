// vfx: value-flow / effect analysis over LLVM IR.
//
// For every pair of functions p_<name> (a use of the library) and r_<name> (the
// specification of that use, written as plain code) the analyser computes an
// effect summary -- bytes written to caller-visible memory, ordered events, exits,
// return value -- as canonical abstract values, and compares the two summaries.
// No code is executed and no solver is involved.
#include "domain.hpp"
#include <llvm/Analysis/AssumptionCache.h>
#include <llvm/Analysis/ConstantFolding.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/Analysis/ScalarEvolution.h>
#include <llvm/Analysis/ScalarEvolutionExpressions.h>
#include <llvm/Analysis/TargetLibraryInfo.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/IntrinsicsX86.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/CommandLine.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Transforms/Utils/Local.h>
#include <iostream>
#include <sstream>
#include <deque>

using namespace llvm;
using namespace vfx;

static Dom D;

struct Loc { const DILocation* l = nullptr; };

static std::string locStr(const DILocation* l) {
    // innermost frame inside the library, plus the outermost frame
    std::string out; int n = 0;
    for (const DILocation* p = l; p; p = p->getInlinedAt()) {
        std::string f = p->getFilename().str();
        size_t q = f.find("libflatarray/"); std::string sh = q == std::string::npos ? f.substr(f.rfind('/') == std::string::npos ? 0 : f.rfind('/') + 1) : f.substr(q);
        bool lib = f.find("/repo/") != std::string::npos || q != std::string::npos;
        if (!lib) continue;
        std::string fn; if (auto* sp = p->getScope()->getSubprogram()) fn = sp->getName().str();
        if (n++ < 3) out += (out.empty() ? "" : " <- ") + sh + ":" + std::to_string(p->getLine()) + " (" + fn + ")";
    }
    if (out.empty() && l) { std::string f = l->getFilename().str(); out = f.substr(f.rfind('/') == std::string::npos ? 0 : f.rfind('/') + 1) + ":" + std::to_string(l->getLine()); }
    return out;
}

typedef std::pair<Val, int64_t> MKey;
struct MEnt { Val v; const DILocation* loc; };
typedef std::map<MKey, MEnt> MMap;

struct Event {
    std::string name; std::vector<Val> args; Node cond; const DILocation* loc = nullptr;
    // loop effect
    bool isLoop = false; Val k = -1, trip = -1; std::vector<Event> body;
    int fam = 0; // 0 ordinary, 1 store in loop
};

struct State { Node cond = 0; std::shared_ptr<MMap> mem; Val exc = -1; /* type of the exception in flight */ int dev = 0; /* 1: device code, 2: transfer */ };

struct ExitRec { std::string kind; Node cond; Val ret; const DILocation* loc; };

struct AlignReq { uint64_t a; const DILocation* loc; };

struct Summary {
    std::vector<Event> events; std::vector<ExitRec> exits; MMap mem; Node retCond = 0; Val ret = -1;
    std::map<TermId, AlignReq> maxAlign;  // base -> strictest access alignment
    std::map<int, const DILocation*> narrow; // run-time trip counts counted in a narrow type
    Node assume = 1; size_t insts = 0, loops = 0; std::set<std::string> files;
    std::map<std::string, int> feat;
};

struct Analyzer {
    Function& F; const DataLayout& DL; FunctionAnalysisManager& FAM; LoopInfo& LI; ScalarEvolution& SE;
    Summary S; std::map<const Value*, Val> env; std::vector<Event>* trace;
    struct EdgeRec { State st; std::vector<std::pair<const PHINode*, Val>> phi; };
    std::map<std::pair<const BasicBlock*, const BasicBlock*>, std::vector<EdgeRec>> edge;
    typedef std::vector<EdgeRec*> Incoming;
    int allocaCnt = 0, unkCnt = 0, loopCnt = 0; std::map<TermId, uint64_t> objSize; std::map<TermId, const GlobalVariable*> globals;
    std::set<TermId> localObj;
    std::map<std::string, int> occ;
    std::map<const Loop*, Val> loopIdx;
    int callDepth = 0;

    Analyzer(Function& f, FunctionAnalysisManager& fam) : F(f), DL(f.getParent()->getDataLayout()), FAM(fam), LI(fam.getResult<LoopAnalysis>(f)), SE(fam.getResult<ScalarEvolutionAnalysis>(f)) { trace = &S.events; }

    [[noreturn]] void und(const std::string& s, const Instruction* I = nullptr) {
        std::string m = s; if (I) { std::string t; raw_string_ostream os(t); I->print(os); m += ": " + t; if (I->getDebugLoc()) m += " @ " + locStr(I->getDebugLoc().get()); }
        throw Undecided(m);
    }
    int width(Type* t) {
        if (t->isIntegerTy()) return t->getIntegerBitWidth();
        if (t->isFloatTy()) return 32; if (t->isDoubleTy()) return 64; if (t->isPointerTy()) return 64;
        if (t->isX86_FP80Ty()) return 80; if (t->isFP128Ty()) return 128;
        if (auto* v = dyn_cast<FixedVectorType>(t)) return width(v->getElementType()) * v->getNumElements();
        if (auto* s = dyn_cast<StructType>(t)) { int w = 0; for (auto* e : s->elements()) w += width(e); return w; }
        if (auto* a = dyn_cast<ArrayType>(t)) return width(a->getElementType()) * a->getNumElements();
        if (t->isVoidTy()) return 0;
        und("type width");
    }
    Val global(const GlobalVariable* g) {
        TermId t;
        if (g->isConstant() && g->hasInitializer() && g->hasGlobalUnnamedAddr() && isa<ConstantDataSequential>(g->getInitializer())) {
            t = D.term("STR", 64, {}, {}, cast<ConstantDataSequential>(g->getInitializer())->getRawDataValues().str());
        } else t = D.term("GLOBAL", 64, {}, {}, g->getName().str());
        D.nonnull.insert(t); D.objectBase.insert(t); globals[t] = g; objSize[t] = DL.getTypeAllocSize(g->getValueType());
        if (g->getName().contains("vf_cu_")) { localObj.insert(t); }   // state of the model of a CUDA device
        return D.termVal(t);
    }
    Val constant(const Constant* c) {
        Type* ty = c->getType();
        if (auto* ci = dyn_cast<ConstantInt>(c)) {
            const APInt& a = ci->getValue(); std::vector<Node> x(a.getBitWidth()); for (unsigned i = 0; i < x.size(); ++i) x[i] = a[i]; return D.mk(x);
        }
        if (auto* cf = dyn_cast<ConstantFP>(c)) { APInt a = cf->getValueAPF().bitcastToAPInt(); std::vector<Node> x(a.getBitWidth()); for (unsigned i = 0; i < x.size(); ++i) x[i] = a[i]; return D.mk(x); }
        if (isa<ConstantPointerNull>(c) || isa<ConstantAggregateZero>(c)) return D.mk(std::vector<Node>(width(ty), 0));
        if (isa<UndefValue>(c)) return D.termVal(D.term("UNDEF", width(ty), {}, {}, isa<PoisonValue>(c) ? "" : ""));
        if (auto* g = dyn_cast<GlobalVariable>(c)) return global(g);
        if (auto* f = dyn_cast<Function>(c)) { TermId t = D.term("FUNC", 64, {}, {}, f->getName().str()); D.nonnull.insert(t); return D.termVal(t); }
        if (auto* ga = dyn_cast<GlobalAlias>(c)) { TermId t = D.term("FUNC", 64, {}, {}, ga->getName().str()); D.nonnull.insert(t); return D.termVal(t); }
        if (auto* cds = dyn_cast<ConstantDataSequential>(c)) { std::vector<Val> v; for (unsigned i = 0; i < cds->getNumElements(); ++i) v.push_back(constant(cds->getElementAsConstant(i))); return D.concat(v); }
        if (auto* ca = dyn_cast<ConstantAggregate>(c)) { std::vector<Val> v; for (unsigned i = 0; i < ca->getNumOperands(); ++i) v.push_back(constant(ca->getOperand(i))); return D.concat(v); }
        if (auto* ce = dyn_cast<ConstantExpr>(c)) {
            if (ce->getOpcode() == Instruction::GetElementPtr) {
                APInt off(64, 0); auto* go = cast<GEPOperator>(ce);
                if (go->accumulateConstantOffset(DL, off)) return D.add(constant(cast<Constant>(go->getPointerOperand())), D.cst(off.getZExtValue(), 64));
            }
            if (ce->getOpcode() == Instruction::BitCast || ce->getOpcode() == Instruction::PtrToInt || ce->getOpcode() == Instruction::IntToPtr) return constant(ce->getOperand(0));
        }
        std::string t; raw_string_ostream os(t); c->print(os); und("constant " + t);
    }
    Val get(const Value* v) {
        if (auto* c = dyn_cast<Constant>(v)) return constant(c);
        auto it = env.find(v); if (it == env.end()) { std::string t; raw_string_ostream os(t); v->print(os); und("value not available " + t); }
        return it->second;
    }
    // ------------------------------------------------------------- lanewise helpers
    Val lanes(int n, const std::function<Val(int)>& f) { std::vector<Val> v; for (int i = 0; i < n; ++i) v.push_back(f(i)); return n == 1 ? v[0] : D.concat(v); }
    static int nl(Type* t) { if (auto* v = dyn_cast<FixedVectorType>(t)) return v->getNumElements(); return 1; }
    int ew(Type* t) { return width(t->getScalarType()); }
    Val lane(Val v, int i, int w) { if (D.width(v) == w) return v; return D.slice(v, i * w, w); }

    // ------------------------------------------------------------- floating point
    static double asD(uint64_t b, int w) { if (w == 32) { uint32_t u = (uint32_t)b; float f; memcpy(&f, &u, 4); return f; } double d; memcpy(&d, &b, 8); return d; }
    static uint64_t fromD(double d, int w) { if (w == 32) { float f = (float)d; uint32_t u; memcpy(&u, &f, 4); return u; } uint64_t u; memcpy(&u, &d, 8); return u; }
    Val fneg(Val a) { int w = D.width(a); std::vector<Node> x = D.bits(a); x[w - 1] = D.b.NOT(x[w - 1]); return D.mk(x); }
    Val fop(const std::string& o, Val a, Val b) {
        return D.lift({a, b}, [&](const std::vector<Val>& x) { return fop0(o, x[0], x[1]); });
    }
    Val fop0(const std::string& o, Val a, Val b) {
        int w = D.width(a);
        if (w != 32 && w != 64) return D.op(o, w, {a, b});
        bool ca = D.isConst(a), cb = D.isConst(b);
        if (ca && cb) {
            double x = asD(D.constVal(a), w), y = asD(D.constVal(b), w); 
            if (w == 32) { float p = (float)x, q = (float)y, r = o == "FADD" ? p + q : o == "FSUB" ? p - q : o == "FMUL" ? p * q : p / q; return D.cst(fromD(r, w), w); }
            double r = o == "FADD" ? x + y : o == "FSUB" ? x - y : o == "FMUL" ? x * y : x / y; return D.cst(fromD(r, w), w);
        }
        if (o == "FSUB") { if (cb && D.constVal(b) == 0) return a; return fop0("FADD", a, fneg(b)); }
        if (o == "FADD") { if (cb && asD(D.constVal(b), w) == 0 && std::signbit(asD(D.constVal(b), w))) return a; if (ca && asD(D.constVal(a), w) == 0 && std::signbit(asD(D.constVal(a), w))) return b; }
        if (o == "FMUL") { if (cb && asD(D.constVal(b), w) == 1) return a; if (ca && asD(D.constVal(a), w) == 1) return b; }
        if (o == "FDIV") { if (cb && asD(D.constVal(b), w) == 1) return a; }
        if (o == "FADD" || o == "FMUL") if (a > b) std::swap(a, b);
        return D.op(o, w, {a, b});
    }
    Node fcmp(CmpInst::Predicate p, Val a, Val b) {
        if (p == CmpInst::FCMP_FALSE) return 0; if (p == CmpInst::FCMP_TRUE) return 1;
        Val r = D.lift({a, b}, [&](const std::vector<Val>& x) { return D.bit(fcmp0(p, x[0], x[1])); });
        return D.bits(r)[0];
    }
    Node fat(const std::string& o, Val a, Val b) {
        int w = D.width(a);
        if (D.isConst(a) && D.isConst(b)) { double x = asD(D.constVal(a), w), y = asD(D.constVal(b), w); return o == "FOLT" ? x < y : o == "FOLE" ? x <= y : o == "FOEQ" ? x == y : (x != x || y != y); }
        { // both operands are functions of a single boolean: decide both cases
            Node n = 0; bool one = true;
            for (Val v : {a, b}) for (Node x : D.bits(v)) if (x > 1 && one) { if (!n) n = x; else if (x != n && x != D.b.NOT(n)) one = false; }
            if (n && one) {
                auto at = [&](Val v, bool k) { std::vector<Node> y = D.bits(v); for (auto& x : y) if (x > 1) x = (x == n) == k ? 1 : 0; return D.mk(y); };
                return D.b.ite(n, fat(o, at(a, true), at(b, true)), fat(o, at(a, false), at(b, false)));
            }
        }
        if ((o == "FOEQ" || o == "FUNO") && a > b) std::swap(a, b);
        return D.predAtom(o, {a, b});
    }
    Node fcmp0(CmpInst::Predicate p, Val a, Val b) {
        switch (p) {
        case CmpInst::FCMP_OEQ: return fat("FOEQ", a, b); case CmpInst::FCMP_UNE: return D.b.NOT(fat("FOEQ", a, b));
        case CmpInst::FCMP_OLT: return fat("FOLT", a, b); case CmpInst::FCMP_OLE: return fat("FOLE", a, b);
        case CmpInst::FCMP_OGT: return fat("FOLT", b, a); case CmpInst::FCMP_OGE: return fat("FOLE", b, a);
        case CmpInst::FCMP_UGE: return D.b.NOT(fat("FOLT", a, b)); case CmpInst::FCMP_UGT: return D.b.NOT(fat("FOLE", a, b));
        case CmpInst::FCMP_ULE: return D.b.NOT(fat("FOLT", b, a)); case CmpInst::FCMP_ULT: return D.b.NOT(fat("FOLE", b, a));
        case CmpInst::FCMP_UNO: return fat("FUNO", a, b); case CmpInst::FCMP_ORD: return D.b.NOT(fat("FUNO", a, b));
        case CmpInst::FCMP_UEQ: return D.b.OR(fat("FUNO", a, b), fat("FOEQ", a, b));
        case CmpInst::FCMP_ONE: return D.b.AND(D.b.NOT(fat("FUNO", a, b)), D.b.NOT(fat("FOEQ", a, b)));
        default: und("fcmp");
        }
    }
    Node icmp(CmpInst::Predicate p, Val a, Val b) {
        switch (p) {
        case CmpInst::ICMP_EQ: return D.eq(a, b); case CmpInst::ICMP_NE: return D.b.NOT(D.eq(a, b));
        case CmpInst::ICMP_ULT: return D.ult(a, b); case CmpInst::ICMP_UGT: return D.ult(b, a);
        case CmpInst::ICMP_ULE: return D.b.NOT(D.ult(b, a)); case CmpInst::ICMP_UGE: return D.b.NOT(D.ult(a, b));
        case CmpInst::ICMP_SLT: return D.slt(a, b); case CmpInst::ICMP_SGT: return D.slt(b, a);
        case CmpInst::ICMP_SLE: return D.b.NOT(D.slt(b, a)); case CmpInst::ICMP_SGE: return D.b.NOT(D.slt(a, b));
        default: und("icmp");
        }
    }
    Val un(const std::string& o, int w, Val a) { return D.lift({a}, [&](const std::vector<Val>& x) { return un0(o, w, x[0]); }); }
    Val un0(const std::string& o, int w, Val a) {
        if ((o == "UITOFP" || o == "SITOFP") && D.width(a) > 1 && D.zextBool(a)) { int iw = D.width(a); return D.ite(D.bits(a)[0], un0(o, w, D.cst(1, iw)), un0(o, w, D.cst(0, iw))); }
        if (D.isConst(a)) {
            int iw = D.width(a); uint64_t c = D.constVal(a); int64_t s = (int64_t)(c << (64 - iw)) >> (64 - iw);
            if (o == "SITOFP") return D.cst(w == 32 ? fromD((float)s, 32) : fromD((double)s, 64), w);
            if (o == "UITOFP") return D.cst(w == 32 ? fromD((float)c, 32) : fromD((double)c, 64), w);
            if (o == "FPTOUI" && (iw == 32 || iw == 64) && asD(c, iw) >= 0) return D.cst((uint64_t)asD(c, iw), w);
            if (o == "FPTOSI" && (iw == 32 || iw == 64)) return D.cst((uint64_t)(int64_t)asD(c, iw), w);
            if (o == "FPEXT" || o == "FPTRUNC") if ((iw == 32 || iw == 64) && (w == 32 || w == 64)) return D.cst(fromD(asD(c, iw), w), w);
            if (o == "SQRT" && (iw == 32 || iw == 64)) return D.cst(iw == 32 ? fromD(std::sqrt((float)asD(c, 32)), 32) : fromD(std::sqrt(asD(c, 64)), 64), w);
        }
        if (o == "FPTOSI" && w == 32) { // truncated quotient of two converted integers: exact for |operands| <= 2^24 (float) resp. always (double)
            TermId q = D.asTerm(a);
            if (q >= 0 && D.terms[q].op == "FDIV") { TermId x = D.asTerm(D.terms[q].a[0]), y = D.asTerm(D.terms[q].a[1]);
                if (x >= 0 && y >= 0 && D.terms[x].op == "SITOFP" && D.terms[y].op == "SITOFP" && D.width(D.terms[x].a[0]) == 32 && D.width(D.terms[y].a[0]) == 32) { Val p = D.terms[x].a[0], r = D.terms[y].a[0]; if (D.width(a) == 32) S.feat["assume:int division operands within 2^24"]++; return D.op("SDIV", 32, {p, r}); } }
        }
        return D.op(o, w, {a});
    }
    // ------------------------------------------------------------------- memory
    struct Addr { Val key; int64_t off; TermId base; Val idx; };
    // addresses already taken apart; the cache is dropped when a new object appears
    std::unordered_map<Val, Addr> addrMemo; size_t addrObjs = 0;
    Addr addr(Val p) {
        size_t objs = localObj.size() + globals.size() + D.objectBase.size();
        if (objs != addrObjs) { addrMemo.clear(); addrObjs = objs; }
        auto hit = addrMemo.find(p); if (hit != addrMemo.end()) return hit->second;
        return addrMemo[p] = addr0(p);
    }
    Addr addr0(Val p) {
        auto po = D.toPoly(p); Poly q = *po; int64_t off = 0;
        auto it = q.find({}); if (it != q.end()) { off = (int64_t)it->second; q.erase(it); }
        Val key = D.fromPoly(q, 64);
        TermId base = -1;
        for (auto& m : q) if (m.first.size() == 1 && m.second == 1) { TermId t = D.asTerm(m.first[0]); if (t >= 0 && (localObj.count(t) || globals.count(t) || D.objectBase.count(t))) { base = t; } }
        Val idx = -1;
        if (base >= 0) { Poly i = q; i.erase({D.termVal(base)}); if (!i.empty()) idx = D.fromPoly(i, 64); }
        return {key, off, base, idx};
    }
    Val initByte(const Addr& a, int64_t off) {
        if (a.base >= 0 && a.idx < 0 && globals.count(a.base)) {
            const GlobalVariable* g = globals[a.base];
            if (g->isConstant() && g->hasInitializer()) {
                if (off < 0 || (uint64_t)off >= objSize[a.base]) return D.termVal(D.term("OOB", 8, {}, {off}, g->getName().str()));
                APInt o(64, (uint64_t)off);
                Constant* c = ConstantFoldLoadFromConst(const_cast<Constant*>(g->getInitializer()), Type::getInt8Ty(F.getContext()), o, DL);
                if (c && isa<ConstantInt>(c)) return constant(c);
                // pointer-valued initialisers
                int64_t al = off & ~7ll; APInt o2(64, (uint64_t)al);
                c = ConstantFoldLoadFromConst(const_cast<Constant*>(g->getInitializer()), PointerType::getUnqual(F.getContext()), o2, DL);
                if (c) return D.slice(constant(c), (int)(off - al) * 8, 8);
            }
        }
        if (a.base >= 0 && localObj.count(a.base)) {
            if (a.idx < 0 && (off < 0 || (uint64_t)off >= objSize[a.base])) return D.termVal(D.term("OOBLOCAL", 8, {}, {off}));
            return D.termVal(D.term("UNDEF", 8));
        }
        return D.slice(D.termVal(initTerm(a.key, off)), initShift(a.key, off), 8);
    }
    // registered initial-content words: (key, off) -> (start, size)
    static std::map<Val, std::map<int64_t, int>> initReg;
    void registerInit(Val key, int64_t off, int bytes) {
        auto& m = initReg[key];
        auto it = m.upper_bound(off); if (it != m.begin()) { --it; if (it->first + it->second > off) return; ++it; }
        if (it != m.end() && it->first < off + bytes) return;
        m[off] = bytes;
    }
    int initShift(Val key, int64_t off) { auto& m = initReg[key]; auto it = m.upper_bound(off); if (it != m.begin()) { --it; if (it->first + it->second > off) return (int)(off - it->first) * 8; } return 0; }
    TermId initTerm(Val key, int64_t off) {
        auto& m = initReg[key]; auto it = m.upper_bound(off);
        if (it != m.begin()) { --it; if (it->first + it->second > off) return D.term("MEM", it->second * 8, {key}, {it->first}); }
        registerInit(key, off, 1);
        return D.term("MEM", 8, {key}, {off});
    }
    void noteAlign(const Addr& a, uint64_t al, const Instruction* I) {
        TermId root = a.base;
        if (root < 0) { auto q = D.toPoly(a.key); for (auto& m : *q) if (m.first.size() == 1 && m.second == 1) { TermId t = D.asTerm(m.first[0]); if (t >= 0 && (D.terms[t].op == "PARAM" || D.terms[t].op == "RET" )) root = t; } }
        if (root < 0 || localObj.count(root)) return;
        auto& x = S.maxAlign[root]; if (al > x.a) x = {al, I ? I->getDebugLoc().get() : nullptr};
    }
    std::vector<Val> loadBytes(State& st, Val ptr, int n, const Instruction* I, uint64_t align = 1, int elem = 0) {
        // lift over muxed pointers
        Val r = D.lift({ptr}, [&](const std::vector<Val>& x) {
            Addr a = addr(x[0]); if (align > 1) noteAlign(a, align, I);
            return loadAddr(st, a, n, I, elem);
        });
        std::vector<Val> v; for (int i = 0; i < n; ++i) v.push_back(D.slice(r, i * 8, 8)); return v;
    }
    // host code only touches host memory, device code only device memory; transfers name the direction they go
    bool cuda = F.getParent()->getFunction("vf_device_mode") != nullptr; std::set<std::pair<const Instruction*, int>> touched;
    bool isDevice(TermId b) { return b >= 0 && D.terms[b].op == "RET" && D.terms[b].s == "ev_alloc"; }
    // threads of one launch run in any order: what one of them writes no other reads or writes
    int thread = -1; std::map<std::pair<TermId, int64_t>, std::pair<int, int>> accesses;   // byte -> writing, reading thread (-1: none, -2: several)
    void share(State& st, const Addr& a, const Instruction* I, int n, bool w) {
        if (thread < 0 || a.idx >= 0) return;
        for (int64_t o = a.off; o < a.off + n; ++o) {
            auto& e = accesses.insert({{a.base, o}, {-1, -1}}).first->second;
            bool clash = (e.first != -1 && e.first != thread) || (w && e.second != -1 && e.second != thread);
            if (w) e.first = thread; else e.second = e.second == -1 || e.second == thread ? thread : -2;
            if (clash) { if (touched.insert({I, 3}).second) event(st, "seq:threads of one launch access the same memory", {}, 0, I); return; }
        }
    }
    void touch(State& st, const Addr& a, const Instruction* I, int n, bool w) {
        if (!cuda || st.dev == 2 || st.cond == 0) return;
        bool dev = isDevice(a.base), local = a.base >= 0 && (localObj.count(a.base) || (globals.count(a.base) && globals[a.base]->isConstant()));
        if (st.dev == 1 && dev) share(st, a, I, n, w);
        if (st.dev ? dev || local : !dev) return;
        if (touched.insert({I, st.dev}).second) event(st, st.dev ? "seq:device code accesses host memory" : "seq:host code accesses device memory", {}, 0, I);
    }
    Val loadAddr(State& st, const Addr& a, int n, const Instruction* I, int elem) {
        touch(st, a, I, n, false);
        if (a.base >= 0 && a.idx >= 0 && (localObj.count(a.base) || (globals.count(a.base) && globals[a.base]->isConstant()))) {
            // symbolic index into a local object: enumerate the candidate offsets
            uint64_t sz = objSize[a.base]; if (sz > 4096) und("symbolic index into large local object", I);
            uint64_t step = 1; { auto p = D.toPoly(a.idx); uint64_t g = 0; for (auto& m : *p) g = g ? std::min<uint64_t>(g, m.second & -m.second) : (m.second & -m.second); step = g ? g : 1; if (step > 4096) step = 1; }
            Val res = D.termVal(D.term("OOBIDX", n * 8)); Val b = D.termVal(a.base);
            int64_t start = ((a.off % (int64_t)step) + step) % step;
            for (int64_t o = start; o + n <= (int64_t)sz; o += step) {
                Addr c{b, o, a.base, -1}; Val v = loadAddr(st, c, n, I, elem);
                res = D.ite(D.eq(a.idx, D.cst((uint64_t)(o - a.off), 64)), v, res);
            }
            return res;
        }
        bool ext = !(a.base >= 0 && localObj.count(a.base));
        if (ext && elem > 0) for (int i = 0; i + elem <= n; i += elem) registerInit(a.key, a.off + i, elem);
        std::vector<Val> v;
        for (int i = 0; i < n; ++i) {
            auto it = st.mem->find({a.key, a.off + i});
            v.push_back(it != st.mem->end() ? it->second.v : initByte(a, a.off + i));
        }
        return D.concat(v);
    }
    void storeBytes(State& st, Val ptr, const std::vector<Val>& bytes, const Instruction* I, uint64_t align = 1) {
        storeLift(st, ptr, D.concat(bytes), (int)bytes.size(), 1, I, align);
    }
    void storeLift(State& st, Val ptr, Val val, int n, Node c, const Instruction* I, uint64_t align) {
        int t = D.topPred(ptr);
        if (t >= 0) {
            std::vector<Node> h = D.bits(ptr), l = h; for (auto& x : h) x = D.b.cof(x, t, true); for (auto& x : l) x = D.b.cof(x, t, false);
            Node v = D.b.var(t);
            storeLift(st, D.mk(h), val, n, D.b.AND(c, v), I, align); storeLift(st, D.mk(l), val, n, D.b.AND(c, D.b.NOT(v)), I, align); return;
        }
        if (c == 0) return;
        Addr a = addr(ptr); if (align > 1) noteAlign(a, align, I);
        if (a.base >= 0 && a.idx >= 0 && localObj.count(a.base)) {
            uint64_t sz = objSize[a.base]; if (sz > 4096) und("symbolic store into large local object", I);
            uint64_t step = 1; { auto p = D.toPoly(a.idx); uint64_t g = 0; for (auto& m : *p) g = g ? std::min<uint64_t>(g, m.second & -m.second) : (m.second & -m.second); step = g ? g : 1; if (step > 4096) step = 1; }
            int64_t start = ((a.off % (int64_t)step) + step) % step; Val b = D.termVal(a.base);
            for (int64_t o = start; o + n <= (int64_t)sz; o += step)
                storeConst(st, {b, o, a.base, -1}, val, n, D.b.AND(c, D.eq(a.idx, D.cst((uint64_t)(o - a.off), 64))), I);
            return;
        }
        storeConst(st, a, val, n, c, I);
    }
    void storeConst(State& st, const Addr& a, Val val, int n, Node c, const Instruction* I) {
        if (c == 0) return;
        touch(st, a, I, n, true);
        if (st.mem.use_count() > 1) st.mem = std::make_shared<MMap>(*st.mem);
        const DILocation* l = I && I->getDebugLoc() ? I->getDebugLoc().get() : nullptr;
        for (int i = 0; i < n; ++i) {
            Val nv = D.slice(val, i * 8, 8);
            auto it = st.mem->find({a.key, a.off + i});
            if (c != 1) { Val old = it != st.mem->end() ? it->second.v : initByte(a, a.off + i); nv = D.ite(c, nv, old); }
            if (it != st.mem->end()) { it->second.v = nv; it->second.loc = l; } else (*st.mem)[{a.key, a.off + i}] = {nv, l};
        }
    }
    std::vector<Val> toBytes(Val v) { int w = D.width(v); int n = (w + 7) / 8; if (w % 8) v = D.zext(v, n * 8); std::vector<Val> r; for (int i = 0; i < n; ++i) r.push_back(D.slice(v, i * 8, 8)); return r; }
    Val loadTy(State& st, Val ptr, Type* ty, const Instruction* I, uint64_t al) {
        if (ty->isStructTy() || ty->isArrayTy()) { // aggregate: field-wise
            std::vector<Val> v; unsigned n = ty->isStructTy() ? ty->getStructNumElements() : ty->getArrayNumElements();
            for (unsigned i = 0; i < n; ++i) { Type* et; uint64_t o; if (auto* s = dyn_cast<StructType>(ty)) { et = s->getElementType(i); o = DL.getStructLayout(s)->getElementOffset(i); } else { et = ty->getArrayElementType(); o = i * DL.getTypeAllocSize(et); }
                v.push_back(loadTy(st, D.add(ptr, D.cst(o, 64)), et, I, 1)); }
            return D.concat(v);
        }
        int w = width(ty); int n = (w + 7) / 8; int el = ty->isVectorTy() ? std::max(1, ew(ty) / 8) : n;
        Val v = D.concat(loadBytes(st, ptr, n, I, al, el));
        if (w % 8) v = D.slice(v, 0, w);
        return v;
    }
    void storeTy(State& st, Val ptr, Val v, Type* ty, const Instruction* I, uint64_t al) {
        if (ty->isStructTy() || ty->isArrayTy()) {
            unsigned n = ty->isStructTy() ? ty->getStructNumElements() : ty->getArrayNumElements(); int p = 0;
            for (unsigned i = 0; i < n; ++i) { Type* et; uint64_t o; if (auto* s = dyn_cast<StructType>(ty)) { et = s->getElementType(i); o = DL.getStructLayout(s)->getElementOffset(i); } else { et = ty->getArrayElementType(); o = i * DL.getTypeAllocSize(et); }
                int w = width(et); storeTy(st, D.add(ptr, D.cst(o, 64)), D.slice(v, p, w), et, I, 1); p += w; }
            return;
        }
        storeBytes(st, ptr, toBytes(v), I, al);
    }
    // ------------------------------------------------------------------- events
    Val event(State& st, const std::string& name, const std::vector<Val>& args, int retw, const Instruction* I, bool object = false) {
        Event e; e.name = name; e.args = args; e.cond = st.cond; e.loc = I && I->getDebugLoc() ? I->getDebugLoc().get() : nullptr;
        trace->push_back(e);
        if (retw == 0) return -1;
        auto one = [&](const std::vector<Val>& x) {
            std::string k = name; for (Val a : x) k += "," + std::to_string(a);
            TermId t = D.term("RET", retw, x, {occ[k]++}, name);
            if (object) { D.nonnull.insert(t); D.objectBase.insert(t); }
            return D.termVal(t);
        };
        // fresh objects are named per case of the requested size
        return object ? D.lift(args, one) : one(args);
    }
    // contents of a local object reachable through an argument pointer
    void snapshotArg(State& st, Val p, std::vector<Val>& args) {
        Addr a{-1, 0, -1, -1};
        if (D.topPred(p) < 0) a = addr(p);
        if (a.base >= 0 && localObj.count(a.base) && a.idx < 0) {
            uint64_t sz = objSize[a.base]; if (sz > 4096) und("large local object escapes");
            std::vector<Val> v; Val b = D.termVal(a.base);
            for (uint64_t i = (uint64_t)a.off; i < sz; ++i) { Addr c{b, (int64_t)i, a.base, -1}; v.push_back(loadAddr(st, c, 1, nullptr, 0)); }
            args.push_back(D.term("LOCALREF", 64) >= 0 ? D.concat(v.empty() ? std::vector<Val>{D.cst(0, 8)} : v) : -1);
        } else args.push_back(p);
    }
    void exitPath(const std::string& kind, State& st, Val ret, const Instruction* I) { if (st.cond) S.exits.push_back({kind, st.cond, ret, I && I->getDebugLoc() ? I->getDebugLoc().get() : nullptr}); }
    // -------------------------------------------------------------------- calls
    // returns false if control does not continue
    bool call(const CallBase& CB, State& st, Node& throwCond) {
        throwCond = 0;
        const Function* callee = CB.getCalledFunction();
        Type* rt = CB.getType();
        if (CB.isInlineAsm()) { inlineAsm(CB, st); return true; }
        if (!callee) {
            // indirect call: an ordered event
            std::vector<Val> a{get(CB.getCalledOperand())}; for (auto& x : CB.args()) a.push_back(get(x));
            Val r = event(st, "seq:indirect", a, width(rt), &CB); if (r >= 0) env[&CB] = r; return true;
        }
        StringRef nm = callee->getName();
        if (callee->isIntrinsic()) return intrinsic(CB, callee, st);
        auto A = [&](unsigned i) { return get(CB.getArgOperand(i)); };
        auto setr = [&](Val v) { env[&CB] = v; };
        if (nm == "_Znwm" || nm == "_Znam" || nm == "malloc") { Val r = event(st, "heap.alloc", {A(0)}, 64, &CB, true); setr(r); return true; }
        if (nm == "_ZnwmSt11align_val_t" || nm == "_ZnamSt11align_val_t" || nm == "aligned_alloc") { Val r = event(st, "heap.aligned_alloc", {A(0), A(1)}, 64, &CB, true); setr(r); return true; }
        if (nm == "_ZdlPv" || nm == "_ZdaPv" || nm == "_ZdlPvm" || nm == "_ZdaPvm" || nm == "free" || nm.starts_with("_ZdlPvSt11align")) { event(st, "heap.free", {A(0)}, 0, &CB); return true; }
        if (nm == "__cxa_allocate_exception") { TermId t = D.term("EXCOBJ", 64, {}, {(int64_t)unkCnt++}); D.nonnull.insert(t); D.objectBase.insert(t); localObj.insert(t); objSize[t] = 4096; setr(D.termVal(t)); return true; }
        if (nm == "__cxa_free_exception" || nm == "__cxa_end_catch") return true;
        if (nm == "__cxa_begin_catch") { setr(A(0)); return true; }
        if (nm == "__cxa_rethrow") { throwCond = st.cond; throwKind[&CB] = "rethrow"; return false; }
        if (nm == "__cxa_throw") { std::string k = "throw"; if (auto* g = dyn_cast<GlobalVariable>(CB.getArgOperand(1)->stripPointerCasts())) k += ":" + g->getName().str(); throwCond = st.cond; throwKind[&CB] = k; return false; }
        if (nm.starts_with("_ZNSt") && (nm.contains("out_of_range") || nm.contains("logic_error") || nm.contains("invalid_argument") || nm.contains("runtime_error") || nm.contains("length_error") || nm.contains("bad_alloc"))) { if (width(rt)) setr(D.termVal(D.term("EXCAUX", width(rt)))); return true; }
        if (nm.starts_with("_ZSt") && nm.contains("__throw_")) { std::string k = "throw:"; if (nm.contains("out_of_range")) k += "_ZTISt12out_of_range"; else if (nm.contains("logic_error")) k += "_ZTISt11logic_error"; else if (nm.contains("length_error")) k += "_ZTISt12length_error"; else k += nm.str(); throwCond = st.cond; throwKind[&CB] = k; return false; }
        if (nm == "__assert_fail") { exitPath("assert", st, -1, &CB); st.cond = 0; return false; }
        if (nm == "vfx_rcp8f" || nm == "vfx_rsqrt8f" || nm == "vfx_rcp22f" || nm == "vfx_rsqrt22f" || nm == "vfx_rsqrt14d") {
            const char *op = nm == "vfx_rcp8f" ? "RCP8" : nm == "vfx_rsqrt8f" ? "RSQRT8" : nm == "vfx_rcp22f" ? "RCP22" : nm == "vfx_rsqrt22f" ? "RSQRT22" : "RSQRT14";
            // the estimate for an inverse square root is infinite for zero, and for nothing else
            bool isq = nm == "vfx_rsqrt8f";
            if (isq && D.isConst(A(0)) && !(D.constVal(A(0)) & 0x7fffffff)) { setr(D.cst(0x7f800000, 32)); return true; }
            Val v = un(op, width(CB.getType()), A(0)); setr(v);
            if (isq) S.assume = D.b.AND(S.assume, D.b.NOT(D.eq(v, D.cst(0x7f800000, 32))));
            return true;
        }
        if (nm == "vf_thread") { thread = (int)D.constVal(A(0)); if (thread < 0) accesses.clear(); return true; }
        if (nm == "vf_device_mode") { st.dev = (int)D.constVal(A(0)); return true; }
        if (nm == "vf_is_device") { setr(D.lift({A(0)}, [&](const std::vector<Val>& x) { return D.cst(isDevice(addr(x[0]).base), 32); })); return true; }
        if (nm == "__vf_undefined") { exitPath("undefined behaviour (end of a non-void function, or __builtin_unreachable)", st, -1, &CB); st.cond = 0; return false; }
        if (nm == "abort" || nm == "_ZSt9terminatev" || nm == "__clang_call_terminate") { exitPath("terminate", st, -1, &CB); st.cond = 0; return false; }
        if (nm == "sqrt" || nm == "sqrtf") { setr(un("SQRT", width(rt), A(0))); return true; }
        if (nm == "memcpy" || nm == "memmove") { blockCopy(st, A(0), A(1), A(2), &CB); setr(A(0)); return true; }
        if (nm == "memset") { blockSet(st, A(0), D.slice(A(1), 0, 8), A(2), &CB); setr(A(0)); return true; }
        // any other external function: an event.  ev_* are the observation points of the
        // probes; everything else is totally ordered ("seq:").
        std::vector<Val> args; bool ev = nm.starts_with("ev_");
        std::vector<std::pair<Val, TermId>> clob;
        for (unsigned i = 0; i < CB.arg_size(); ++i) {
            Val v = A(i);
            if (CB.getArgOperand(i)->getType()->isPointerTy()) {
                Addr a{-1, 0, -1, -1}; if (D.topPred(v) < 0) a = addr(v);
                if (a.base >= 0 && localObj.count(a.base) && !(ev && !nm.starts_with("ev_content"))) {
                    snapshotArg(st, v, args);
                    if (!ev && !callee->onlyReadsMemory() && !CB.paramHasAttr(i, Attribute::ReadOnly) && !constRefArg(CB, i)) clob.push_back({v, a.base});
                    continue;
                }
            }
            args.push_back(v);
        }
        std::string en = (ev ? "" : "seq:") + nm.str();
        Val r = event(st, en, args, width(rt), &CB, nm.starts_with("ev_alloc"));
        // stream insertions return the stream they were given
        if (r >= 0 && CB.arg_size() && rt->isPointerTy() && (nm.starts_with("_ZNSolsE") || nm.starts_with("_ZNSo9_M_insert") || nm.starts_with("_ZStlsI") || nm.starts_with("_ZSt16__ostream_insert") || nm.starts_with("_ZNSo3putE") || nm.starts_with("_ZNSo5writeE") || nm.starts_with("_ZNSo5flushE"))) r = A(0);
        if (r >= 0) setr(r);
        for (auto& c : clob) { uint64_t sz = objSize[c.second]; Val b = D.termVal(c.second); for (uint64_t i = 0; i < sz; ++i) storeConst(st, {b, (int64_t)i, c.second, -1}, D.op("CLOB", 8, args, {(int64_t)i}, en), 1, 1, &CB); }
        if (!CB.doesNotThrow() && (nm.starts_with("ev_throw") )) {
            Node t = D.predAtom("THROWS", args, {occ["T" + en]++});
            throwCond = D.b.AND(st.cond, t); st.cond = D.b.AND(st.cond, D.b.NOT(t)); throwKind[&CB] = "throw:callee";
        }
        return true;
    }
    bool constRefArg(const CallBase&, unsigned) { return false; }
    std::map<const Instruction*, std::string> throwKind;

    void inlineAsm(const CallBase& CB, State& st) {
        auto* ia = cast<InlineAsm>(CB.getCalledOperand()); std::string s = ia->getAsmString();
        if (s.empty() ) { if (!CB.getType()->isVoidTy()) und("inline asm with result", &CB); return; }
        size_t p = s.find("insertps");
        if (p != std::string::npos && (s.find("($") != std::string::npos || s.find("(${") != std::string::npos)) {
            // operands: outputs "=x"(0), imm, base, offset, tied input
            std::string cs = ia->getConstraintString();
            Val imm = get(CB.getArgOperand(0)), base = get(CB.getArgOperand(1)), off = get(CB.getArgOperand(2)), src = get(CB.getArgOperand(3));
            if (!D.isConst(imm)) und("asm immediate", &CB);
            if (D.width(off) == 32) off = D.zext(off, 64);
            int scale = 1; size_t q = s.find(", ", s.find("(")); { size_t r = s.find(")"); std::string in = s.substr(s.find("("), r - s.find("(")); size_t c = in.rfind(','); if (c != std::string::npos) scale = atoi(in.substr(c + 1).c_str()); (void)q; }
            Val a = D.add(base, D.mul(off, D.cst(scale, 64)));
            Val f = D.concat(loadBytes(st, a, 4, &CB, 1, 4));
            uint64_t im = D.constVal(imm); int d = (im >> 4) & 3;
            Val r = lanes(4, [&](int i) { if ((im >> i) & 1) return D.cst(0, 32); if (i == d) return f; return D.slice(src, i * 32, 32); });
            env[&CB] = r; return;
        }
        und("inline asm", &CB);
    }
    void blockCopy(State& st, Val d, Val s, Val n, const Instruction* I) {
        int el = 0;
        if (auto* mi = dyn_cast<MemTransferInst>(I)) { uint64_t a = mi->getDestAlign().valueOrOne().value(); el = (int)std::min<uint64_t>(a, 8); }
        if (D.isConst(n)) { uint64_t c = D.constVal(n); if (!c) return; if (c > 65536) und("huge memcpy", I);
            // choose load granularity from the destination/source element structure
            auto v = loadBytes(st, s, (int)c, I, 1, el >= 4 && c % el == 0 ? el : 0); storeBytes(st, d, v, I); return; }
        // symbolic length: bounded expansion (the bound has to follow from the path condition)
        { // length = c * x: c-byte records
          auto p = D.toPoly(n); if (p->size() == 1 && p->begin()->second > 1 && p->begin()->second <= 256 && !p->begin()->first.empty()) {
            uint64_t c = p->begin()->second; Poly q; q[p->begin()->first] = 1; Val x = D.fromPoly(q, 64); uint64_t bx = lenBound(st, x, I);
            int g = 8; while (c % g || (el && el % g && g > el)) g /= 2;
            std::vector<Val> v; for (uint64_t k = 0; k < bx * c; k += g) v.push_back(D.concat(loadBytes(st, D.add(s, D.cst(k, 64)), g, I, 1, g)));
            for (uint64_t k = 0; k < bx * c; k += g) storeLift(st, D.add(d, D.cst(k, 64)), v[k / g], g, D.ult(D.cst(k / c, 64), x), I, 1);
            return; } }
        uint64_t bound = lenBound(st, n, I); int g = 1; while (g < 8 && bound % (g * 2) == 0 && lowZero(n, g * 2)) g *= 2;
        std::vector<Val> v; for (uint64_t k = 0; k < bound; k += g) v.push_back(D.concat(loadBytes(st, D.add(s, D.cst(k, 64)), g, I, 1, g)));
        for (uint64_t k = 0; k < bound; k += g) storeLift(st, D.add(d, D.cst(k, 64)), v[k / g], g, D.ult(D.cst(k, 64), n), I, 1);
    }
    bool lowZero(Val n, int g) { for (int i = 0; (1 << i) < g; ++i) if (D.bits(n)[i] != 0) return false; return true; }
    uint64_t lenBound(State& st, Val n, const Instruction* I) {
        Node care = D.b.AND(st.cond, S.assume);
        for (uint64_t k = 0; k <= 8192; k = k ? k * 2 : 16) if (D.valid0(D.b.AND(care, D.b.NOT(D.ult(n, D.cst(k + 1, 64)))))) {
            uint64_t lo = k / 2, hi = k; while (lo < hi) { uint64_t m = (lo + hi) / 2; if (D.valid0(D.b.AND(care, D.b.NOT(D.ult(n, D.cst(m + 1, 64)))))) hi = m; else lo = m + 1; } return hi; }
        und("block operation of unbounded length", I);
    }
    void blockSet(State& st, Val d, Val b, Val n, const Instruction* I) {
        if (D.isConst(n)) { uint64_t c = D.constVal(n); if (c > 65536) und("huge memset", I); storeBytes(st, d, std::vector<Val>(c, b), I); return; }
        uint64_t bound = lenBound(st, n, I);
        for (uint64_t k = 0; k < bound; ++k) storeLift(st, D.add(d, D.cst(k, 64)), b, 1, D.ult(D.cst(k, 64), n), I, 1);
    }
    bool intrinsic(const CallBase& CB, const Function* callee, State& st) {
        Type* rt = CB.getType(); StringRef nm = callee->getName();
        auto A = [&](unsigned i) { return get(CB.getArgOperand(i)); };
        auto setr = [&](Val v) { env[&CB] = v; };
        int n = rt->isVoidTy() ? 0 : nl(rt), w = rt->isVoidTy() || rt->isStructTy() ? 0 : ew(rt);
        auto lane1 = [&](const std::string& o) { int aw = ew(CB.getArgOperand(0)->getType()); Val a = A(0); setr(lanes(n, [&](int i) { return un(o, w, lane(a, i, aw)); })); return true; };
        switch (callee->getIntrinsicID()) {
        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::donothing: case Intrinsic::sideeffect: case Intrinsic::x86_avx_vzeroupper: return true;
        case Intrinsic::stacksave: setr(D.termVal(D.term("STACK", 64))); return true;
        case Intrinsic::stackrestore: return true;
        case Intrinsic::assume: { Node c = D.bits(A(0))[0]; S.assume = D.b.AND(S.assume, D.b.OR(D.b.NOT(st.cond), c)); return true; }
        case Intrinsic::expect: setr(A(0)); return true;
        case Intrinsic::trap: exitPath("trap", st, -1, &CB); st.cond = 0; return false;
        case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: setr(A(0)); return true;
        case Intrinsic::sqrt: return lane1("SQRT");
        case Intrinsic::fabs: { Val a = A(0); setr(lanes(n, [&](int i) { std::vector<Node> x = D.bits(lane(a, i, w)); x[w - 1] = 0; return D.mk(x); })); return true; }
        case Intrinsic::floor: return lane1("FLOOR"); case Intrinsic::ceil: return lane1("CEIL"); case Intrinsic::trunc: return lane1("FTRUNC"); case Intrinsic::rint: case Intrinsic::nearbyint: return lane1("RINT"); case Intrinsic::round: return lane1("FROUND");
        case Intrinsic::fmuladd: case Intrinsic::fma: { Val a = A(0), b = A(1), c = A(2); setr(lanes(n, [&](int i) { return D.op("FMA", w, {std::min(lane(a, i, w), lane(b, i, w)), std::max(lane(a, i, w), lane(b, i, w)), lane(c, i, w)}); })); return true; }
        case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: blockCopy(st, A(0), A(1), A(2), &CB); return true;
        case Intrinsic::memset: blockSet(st, A(0), A(1), A(2), &CB); return true;
        case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin: {
            Val a = A(0), b = A(1); auto id = callee->getIntrinsicID();
            setr(lanes(n, [&](int i) { Val x = lane(a, i, w), y = lane(b, i, w); Node lt = (id == Intrinsic::umax || id == Intrinsic::umin) ? D.ult(x, y) : D.slt(x, y); return (id == Intrinsic::umax || id == Intrinsic::smax) ? D.ite(lt, y, x) : D.ite(lt, x, y); })); return true; }
        case Intrinsic::abs: { Val a = A(0); setr(lanes(n, [&](int i) { Val x = lane(a, i, w); return D.ite(D.slt(x, D.cst(0, w)), D.sub(D.cst(0, w), x), x); })); return true; }
        case Intrinsic::ctpop: { Val a = A(0); setr(lanes(n, [&](int i) { Val s = D.cst(0, w); Val x = lane(a, i, w); Poly p; for (int j = 0; j < w; ++j) p = D.padd(p, *D.toPoly(D.zext(D.slice(x, j, 1), w)), 1, w); (void)s; return D.fromPoly(p, w); })); return true; }
        case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_add: {
            auto* vt = cast<FixedVectorType>(CB.getArgOperand(0)->getType()); Val a = A(0); int k = vt->getNumElements(); Val r = lane(a, 0, w);
            for (int i = 1; i < k; ++i) { Val x = lane(a, i, w); r = callee->getIntrinsicID() == Intrinsic::vector_reduce_or ? D.OR(r, x) : callee->getIntrinsicID() == Intrinsic::vector_reduce_and ? D.AND(r, x) : D.add(r, x); } setr(r); return true; }
        case Intrinsic::masked_gather: { // (ptrs, align, mask, passthru)
            Val p = A(0), m = A(2), pt = A(3); setr(lanes(n, [&](int i) { Node c = D.bits(m)[i]; Val d = lane(pt, i, w); if (c == 0) return d; Val v = D.concat(loadBytes(st, D.slice(p, i * 64, 64), w / 8, &CB, 1, w / 8)); return D.ite(c, v, d); })); return true; }
        case Intrinsic::masked_scatter: { Val v = A(0), p = A(1), m = A(3); int k = nl(CB.getArgOperand(0)->getType()), vw = ew(CB.getArgOperand(0)->getType());
            for (int i = 0; i < k; ++i) condStore(st, D.slice(p, i * 64, 64), lane(v, i, vw), D.bits(m)[i], &CB); return true; }
        case Intrinsic::masked_load: { Val p = A(0), m = A(2), pt = A(3); uint64_t al = cast<ConstantInt>(CB.getArgOperand(1))->getZExtValue(); setr(lanes(n, [&](int i) { Node c = D.bits(m)[i]; Val d = lane(pt, i, w); if (c == 0) return d; Val v = D.concat(loadBytes(st, D.add(p, D.cst(i * w / 8, 64)), w / 8, &CB, al, w / 8)); return D.ite(c, v, d); })); return true; }
        case Intrinsic::masked_store: { Val v = A(0), p = A(1), m = A(3); uint64_t al = cast<ConstantInt>(CB.getArgOperand(2))->getZExtValue(); int k = nl(CB.getArgOperand(0)->getType()), vw = ew(CB.getArgOperand(0)->getType()); if (D.topPred(p) < 0) noteAlign(addr(p), al, &CB);
            for (int i = 0; i < k; ++i) condStore(st, D.add(p, D.cst(i * vw / 8, 64)), lane(v, i, vw), D.bits(m)[i], &CB); return true; }
        case Intrinsic::eh_typeid_for: setr(D.cst(typeNum(CB.getArgOperand(0)->stripPointerCasts()->getName().str()), 32)); return true;
        case Intrinsic::usub_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
            Val a = A(0), b = A(1); auto id = callee->getIntrinsicID(); Val r; Node o;
            if (id == Intrinsic::usub_with_overflow) { r = D.sub(a, b); o = D.ult(a, b); } else if (id == Intrinsic::uadd_with_overflow) { r = D.add(a, b); o = D.ult(r, a); }
            else { r = (id == Intrinsic::umul_with_overflow || id == Intrinsic::smul_with_overflow) ? D.mul(a, b) : id == Intrinsic::sadd_with_overflow ? D.add(a, b) : D.sub(a, b); o = D.predAtom("OVF", {a, b}, {(int64_t)id}); if (id == Intrinsic::umul_with_overflow && D.isConst(b) && D.constVal(b) <= 1) o = 0; }
            setr(D.concat({r, D.bit(o)})); return true; }
        case Intrinsic::fptosi_sat: return lane1("FPTOSI");
        default: break;
        }
        // x86 target intrinsics
        auto apx = [&](const std::string& o, int masked) { Val a = A(0); int aw = ew(CB.getArgOperand(0)->getType());
            setr(lanes(n, [&](int i) { Val v = un(o, w, lane(a, i, aw)); if (masked) { Node m = D.bits(A(2))[i]; v = D.ite(m, v, lane(A(1), i, w)); } return v; })); return true; };
        StringRef x = nm;
        if (x.consume_front("llvm.x86.")) {
            if (x == "sse.rcp.ps" || x == "avx.rcp.ps.256") return apx("RCP12", 0);
            if (x == "sse.rsqrt.ps" || x == "avx.rsqrt.ps.256") return apx("RSQRT12", 0);
            if (x == "sse.rcp.ss" || x == "sse.rsqrt.ss") { Val a = A(0); setr(D.concat({un(x == "sse.rcp.ss" ? "RCP12" : "RSQRT12", 32, D.slice(a, 0, 32)), D.slice(a, 32, 96)})); return true; }
            if (x.starts_with("avx512.rcp14.p")) return apx("RCP14", 1);
            if (x.starts_with("avx512.rsqrt14.p")) return apx("RSQRT14", 1);
            if (x == "sse2.cvtps2dq" || x == "avx.cvt.ps2dq.256") return apx("FTOIRND", 0);
            if (x == "sse2.cvttps2dq" || x == "avx.cvtt.ps2dq.256" || x == "avx.cvtt.pd2dq.256") return apx("FPTOSI", 0);
            if (x == "avx512.mask.cvtps2dq.512") return apx("FTOIRND", 1);
            if (x == "avx512.mask.cvttps2dq.512") return apx("FPTOSI", 1);
            if (x == "sse.cvtss2si" || x == "sse2.cvtsd2si" || x == "sse.cvttss2si" || x == "sse2.cvttsd2si" || x == "sse2.cvttsd2si64" || x == "sse.cvttss2si64") { bool ss = x.contains("ss2"); Val a = D.slice(A(0), 0, ss ? 32 : 64); setr(un(x.contains("cvtt") ? "FPTOSI" : "FTOIRND", w, a)); return true; }
            if (x == "sse2.cvtpd2dq" || x == "sse2.cvttpd2dq") { Val a = A(0); std::string o = x == "sse2.cvtpd2dq" ? "FTOIRND" : "FPTOSI"; setr(D.concat({un(o, 32, D.slice(a, 0, 64)), un(o, 32, D.slice(a, 64, 64)), D.cst(0, 64)})); return true; }
            if (x == "avx.cvt.pd2dq.256") { Val a = A(0); setr(lanes(4, [&](int i) { return un("FTOIRND", 32, D.slice(a, i * 64, 64)); })); return true; }
            if (x == "avx512.mask.cvtpd2dq.512" || x == "avx512.mask.cvttpd2dq.512") { Val a = A(0); std::string o = x.contains("cvtt") ? "FPTOSI" : "FTOIRND"; setr(lanes(8, [&](int i) { return D.ite(D.bits(A(2))[i], un(o, 32, D.slice(a, i * 64, 64)), lane(A(1), i, 32)); })); return true; }
            if (x == "sse.movmsk.ps" || x == "sse2.movmsk.pd" || x == "avx.movmsk.ps.256" || x == "avx.movmsk.pd.256" || x == "sse2.pmovmskb.128" || x == "avx2.pmovmskb") {
                Type* at = CB.getArgOperand(0)->getType(); int k = nl(at), aw = ew(at); std::vector<Node> r(32, 0); for (int i = 0; i < k; ++i) r[i] = D.bits(A(0))[i * aw + aw - 1]; setr(D.mk(r)); return true; }
            if (x == "sse41.ptestz" || x == "avx.ptestz.256" || x == "sse41.ptestc" || x == "avx.ptestc.256" || x == "sse41.ptestnzc" || x == "avx.ptestnzc.256") {
                auto p = D.bits(A(0)), q = D.bits(A(1)); Node z = 1, c = 1; for (size_t i = 0; i < p.size(); ++i) { z = D.b.AND(z, D.b.NOT(D.b.AND(p[i], q[i]))); c = D.b.AND(c, D.b.NOT(D.b.AND(D.b.NOT(p[i]), q[i]))); }
                Node r = x.contains("ptestz") ? z : x.contains("ptestc") ? c : D.b.AND(D.b.NOT(z), D.b.NOT(c)); setr(D.zext(D.bit(r), 32)); return true; }
            if (x == "avx.vtestz.ps.256" || x == "avx.vtestz.ps" || x == "avx.vtestz.pd.256" || x == "avx.vtestz.pd" || x == "avx.vtestc.ps.256" || x == "avx.vtestnzc.ps.256" || x == "avx.vtestc.pd.256" || x == "avx.vtestc.ps" || x == "avx.vtestc.pd") {
                Type* at = CB.getArgOperand(0)->getType(); int k = nl(at), aw = ew(at); Node z = 1, c = 1; for (int i = 0; i < k; ++i) { Node p = D.bits(A(0))[i * aw + aw - 1], q = D.bits(A(1))[i * aw + aw - 1]; z = D.b.AND(z, D.b.NOT(D.b.AND(p, q))); c = D.b.AND(c, D.b.NOT(D.b.AND(D.b.NOT(p), q))); }
                Node r = x.contains("vtestz") ? z : x.contains("vtestc") ? c : D.b.AND(D.b.NOT(z), D.b.NOT(c)); setr(D.zext(D.bit(r), 32)); return true; }
            if (x == "sse41.blendvps" || x == "sse41.blendvpd" || x == "avx.blendv.ps.256" || x == "avx.blendv.pd.256" || x == "sse41.pblendvb" || x == "avx2.pblendvb") {
                Val a = A(0), b = A(1), m = A(2); setr(lanes(n, [&](int i) { return D.ite(D.bits(m)[i * w + w - 1], lane(b, i, w), lane(a, i, w)); })); return true; }
            if (x == "sse41.insertps") { Val a = A(0), b = A(1); uint64_t im = D.constVal(A(2)); Val f = D.slice(b, ((im >> 6) & 3) * 32, 32); int d = (im >> 4) & 3; setr(lanes(4, [&](int i) { if ((im >> i) & 1) return D.cst(0, 32); return i == d ? f : D.slice(a, i * 32, 32); })); return true; }
            if (x.starts_with("avx2.gather.")) { // (src, base, idx, mask, scale)
                Val src = A(0), base = A(1), idx = A(2), m = A(3); uint64_t sc = D.constVal(A(4)); int iw = ew(CB.getArgOperand(2)->getType());
                setr(lanes(n, [&](int i) { Node c = D.bits(m)[i * w + w - 1]; Val d = lane(src, i, w); if (c == 0) return d; Val a = D.add(base, D.mul(D.sext(D.slice(idx, i * iw, iw), 64), D.cst(sc, 64))); Val v = D.concat(loadBytes(st, a, w / 8, &CB, 1, w / 8)); return D.ite(c, v, d); })); return true; }
            if (x.starts_with("avx512.mask.gather.")) { // (src, base, idx, <n x i1> mask, scale)
                Val src = A(0), base = A(1), idx = A(2), m = A(3); uint64_t sc = D.constVal(A(4)); int iw = ew(CB.getArgOperand(2)->getType());
                setr(lanes(n, [&](int i) { Node c = D.bits(m)[i]; Val d = lane(src, i, w); if (c == 0) return d; Val a = D.add(base, D.mul(D.sext(D.slice(idx, i * iw, iw), 64), D.cst(sc, 64))); Val v = D.concat(loadBytes(st, a, w / 8, &CB, 1, w / 8)); return D.ite(c, v, d); })); return true; }
            if (x.starts_with("avx512.mask.scatter.")) { // (base, mask, idx, val, scale)
                Val base = A(0), m = A(1), idx = A(2), v = A(3); uint64_t sc = D.constVal(A(4)); int iw = ew(CB.getArgOperand(2)->getType()); Type* vt = CB.getArgOperand(3)->getType(); int vw = ew(vt), k = std::min(nl(vt), nl(CB.getArgOperand(2)->getType()));
                for (int i = 0; i < k; ++i) condStore(st, D.add(base, D.mul(D.sext(D.slice(idx, i * iw, iw), 64), D.cst(sc, 64))), lane(v, i, vw), D.bits(m)[i], &CB); return true; }
            if (x == "avx512.sqrt.ps.512" || x == "avx512.sqrt.pd.512") { Val a = A(0); setr(lanes(n, [&](int i) { return un("SQRT", w, lane(a, i, w)); })); return true; }
            for (auto& pr : {std::pair<const char*, const char*>{"avx512.add.p", "FADD"}, {"avx512.sub.p", "FSUB"}, {"avx512.mul.p", "FMUL"}, {"avx512.div.p", "FDIV"}}) if (x.starts_with(pr.first)) { Val a = A(0), b = A(1); std::string o = pr.second; setr(lanes(n, [&](int i) { return fop(o, lane(a, i, w), lane(b, i, w)); })); return true; }
            if (x == "sse2.pmulu.dq" || x == "avx2.pmulu.dq" || x == "avx512.pmulu.dq.512") { Val a = A(0), b = A(1); setr(lanes(n, [&](int i) { return D.mul(D.zext(D.slice(a, i * 64, 32), 64), D.zext(D.slice(b, i * 64, 32), 64)); })); return true; }
        }
        if (nm.starts_with("llvm.x86.")) {
            StringRef y = nm.substr(9); std::string f = y.str(); size_t dot = f.find('.'); std::string g = f.substr(dot + 1);
            auto shift = [&](char dir, Val v, uint64_t k) { int lw = D.width(v); if (dir == 'a') return D.ashrC(v, (int)std::min<uint64_t>(k, lw - 1)); if (k >= (uint64_t)lw) return D.cst(0, lw); return dir == 'l' ? D.shlC(v, (int)k) : D.lshrC(v, (int)k); };
            if (g.compare(0, 2, "ps") == 0 && (g.compare(2, 2, "ll") == 0 || g.compare(2, 2, "rl") == 0 || g.compare(2, 2, "ra") == 0) && g.find(".dq") == std::string::npos) {
                char dir = g[2] == 'l' ? 'l' : g[3] == 'a' ? 'a' : 'r'; bool imm = g[4] == 'i', var = g[4] == 'v'; Val a = A(0), b = A(1);
                if (var && D.isConst(b)) { setr(lanes(n, [&](int i) { return shift(dir, lane(a, i, w), D.constVal(lane(b, i, w))); })); return true; }
                if (!var) { Val c = imm ? b : D.slice(b, 0, 64); if (D.isConst(c)) { uint64_t k = D.constVal(c); setr(lanes(n, [&](int i) { return shift(dir, lane(a, i, w), k); })); return true; } }
            }
            if (g == "pmul.dq" || g == "pmuldq" || g == "pmul.dq.512") { Val a = A(0), b = A(1); setr(lanes(n, [&](int i) { return D.mul(D.sext(D.slice(a, i * 64, 32), 64), D.sext(D.slice(b, i * 64, 32), 64)); })); return true; }
            if (g == "pshuf.b.128" || g == "pshuf.b" || g == "pshuf.b.512") { Val m = A(1); if (D.isConst(m)) { Val a = A(0); setr(lanes(n, [&](int i) { uint64_t k = D.constVal(lane(m, i, 8)); return k & 128 ? D.cst(0, 8) : lane(a, (i & ~15) + (int)(k & 15), 8); })); return true; } }
            if (g == "permd" || g == "permps" || g == "permvar.sf.512" || g == "permvar.si.512" || g == "permvar.df.512" || g == "permvar.di.512" || g == "permvar.df.256" || g == "permvar.di.256") { Val m = A(1); if (D.isConst(m)) { Val a = A(0); setr(lanes(n, [&](int i) { return lane(a, (int)(D.constVal(lane(m, i, w)) & (uint64_t)(n - 1)), w); })); return true; } }
            if (g.compare(0, 12, "vpermilvar.p") == 0) { Val m = A(1); if (D.isConst(m)) { Val a = A(0); int per = 128 / w; setr(lanes(n, [&](int i) { uint64_t k = D.constVal(lane(m, i, w)); if (w == 64) k >>= 1; return lane(a, i / per * per + (int)(k & (uint64_t)(per - 1)), w); })); return true; } }
            if (g == "hadd.ps" || g == "hadd.pd" || g == "hadd.ps.256" || g == "hadd.pd.256" || g == "hsub.ps" || g == "hsub.pd" || g == "hsub.ps.256" || g == "hsub.pd.256") { std::string o = g[1] == 'a' ? "FADD" : "FSUB"; Val a = A(0), b = A(1); int per = 128 / w, h = per / 2;
                setr(lanes(n, [&](int i) { int blk = i / per * per, j = i % per; Val s = j < h ? a : b; int q = blk + 2 * (j % h); return fop(o, lane(s, q, w), lane(s, q + 1, w)); })); return true; }
            if (g == "movnt.dq" || g == "maskload.ps" || g == "maskload.pd" || g == "maskload.d" || g == "maskload.ps.256" || g == "maskload.pd.256" || g == "maskload.d.256") {
                Val p = A(0), m = A(1); setr(lanes(n, [&](int i) { Node c = D.bits(m)[i * w + w - 1]; if (c == 0) return D.cst(0, w); Val v = D.concat(loadBytes(st, D.add(p, D.cst(i * w / 8, 64)), w / 8, &CB, 1, w / 8)); return D.ite(c, v, D.cst(0, w)); })); return true; }
            if (g == "maskstore.ps" || g == "maskstore.pd" || g == "maskstore.d" || g == "maskstore.ps.256" || g == "maskstore.pd.256" || g == "maskstore.d.256") {
                Val p = A(0), m = A(1), v = A(2); int k = nl(CB.getArgOperand(2)->getType()), vw = ew(CB.getArgOperand(2)->getType()); for (int i = 0; i < k; ++i) condStore(st, D.add(p, D.cst(i * vw / 8, 64)), lane(v, i, vw), D.bits(m)[i * vw + vw - 1], &CB); return true; }
        }
        // unmodelled pure intrinsic: uninterpreted operator over its whole operands; differences that involve it are not conclusive
        if (callee->doesNotAccessMemory() && !rt->isVoidTy()) {
            std::vector<Val> a; for (auto& q : CB.args()) a.push_back(get(q)); S.feat["uninterpreted:" + nm.str()]++;
            setr(D.lift(a, [&](const std::vector<Val>& v) { return D.op("I:" + nm.str(), width(rt), v); })); return true;
        }
        und("intrinsic " + nm.str(), &CB);
    }
    void condStore(State& st, Val p, Val v, Node c, const Instruction* I) { storeLift(st, p, v, D.width(v) / 8, c, I, 1); }

    // ------------------------------------------------------------- instructions
    Val shiftVar(unsigned opc, Val a, Val s, const Instruction* I) {
        int w = D.width(a);
        auto one = [&](int k) { return opc == Instruction::Shl ? D.shlC(a, k) : opc == Instruction::LShr ? D.lshrC(a, k) : D.ashrC(a, k); };
        if (D.isConst(s)) { uint64_t k = D.constVal(s); return k >= (uint64_t)w ? D.termVal(D.term("UNDEF", w)) : one((int)k); }
        if (w > 64) und("variable wide shift", I);
        Val r = D.cst(0, w);
        for (int k = w - 1; k >= 0; --k) r = D.ite(D.eq(s, D.cst(k, w)), one(k), r);
        return r;
    }
    Val binop(unsigned opc, Val a, Val b, const Instruction* I) {
        int w = D.width(a);
        switch (opc) {
        case Instruction::Add: return D.add(a, b); case Instruction::Sub: return D.sub(a, b); case Instruction::Mul: return D.mul(a, b);
        case Instruction::And: return D.AND(a, b); case Instruction::Or: return D.OR(a, b); case Instruction::Xor: return D.XOR(a, b);
        case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: return shiftVar(opc, a, b, I);
        case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem:
            return D.lift({a, b}, [&](const std::vector<Val>& x) { return divrem(opc, x[0], x[1], w); });
        case Instruction::FAdd: return fop("FADD", a, b); case Instruction::FSub: return fop("FSUB", a, b); case Instruction::FMul: return fop("FMUL", a, b); case Instruction::FDiv: return fop("FDIV", a, b);
        case Instruction::FRem: return D.op("FREM", w, {a, b});
        }
        und("binop", I);
    }
    Val divrem(unsigned opc, Val a, Val b, int w) {
        if (D.isConst(b) && w <= 64) {
            uint64_t c = D.constVal(b); bool sg = opc == Instruction::SDiv || opc == Instruction::SRem;
            bool nonneg = D.bits(a)[w - 1] == 0 || D.rangeU(a).second <= (Dom::mask(w) >> 1);
            if (D.isConst(a) && c) {
                if (!sg || (nonneg && !(c >> (w - 1)))) return D.cst(opc == Instruction::UDiv || opc == Instruction::SDiv ? D.constVal(a) / c : D.constVal(a) % c, w);
                int64_t x = (int64_t)(D.constVal(a) << (64 - w)) >> (64 - w), y = (int64_t)(c << (64 - w)) >> (64 - w);
                return D.cst((uint64_t)(opc == Instruction::SDiv ? x / y : x % y), w);
            }
            if (c == 1) return (opc == Instruction::UDiv || opc == Instruction::SDiv) ? a : D.cst(0, w);
            // exact polynomial division (index arithmetic does not overflow)
            { auto p = D.toPoly(a); bool all = true; for (auto& m : *p) { int64_t s = (int64_t)(m.second << (64 - w)) >> (64 - w); if (s % (int64_t)c) all = false; }
              if (all && !p->empty() && (int64_t)c > 0) { if (opc == Instruction::URem || opc == Instruction::SRem) return D.cst(0, w); Poly q; for (auto& m : *p) { int64_t s = (int64_t)(m.second << (64 - w)) >> (64 - w); q[m.first] = (uint64_t)(s / (int64_t)c) & Dom::mask(w); } return D.fromPoly(q, w); } }
            if ((!sg || nonneg) && c && c <= (Dom::mask(w) >> 1)) { Poly q; uint64_t r; if (D.splitDiv(a, c, q, r)) return opc == Instruction::UDiv || opc == Instruction::SDiv ? D.fromPoly(q, w) : D.cst(r, w); }
            if ((!sg || nonneg) && c && (c & (c - 1)) == 0) { int k = __builtin_ctzll(c); if (opc == Instruction::UDiv || opc == Instruction::SDiv) return D.lshrC(a, k); return D.AND(a, D.cst(c - 1, w)); }
        }
        const char* nmx = opc == Instruction::UDiv ? "UDIV" : opc == Instruction::URem ? "UREM" : opc == Instruction::SDiv ? "SDIV" : "SREM";
        return D.op(nmx, w, {a, b});
    }
    Val gep(const GEPOperator* g) {
        Val p = get(g->getPointerOperand());
        if (g->getType()->isVectorTy()) { // vector of pointers (gather/scatter)
            int n = nl(g->getType()); bool bv = g->getPointerOperand()->getType()->isVectorTy();
            return lanes(n, [&](int i) {
                Val q = bv ? D.slice(p, i * 64, 64) : p;
                for (gep_type_iterator it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
                    if (it.getStructTypeOrNull()) und("vector gep struct");
                    Val ix = get(it.getOperand()); int iw = ew(it.getOperand()->getType()); if (it.getOperand()->getType()->isVectorTy()) ix = D.slice(ix, i * iw, iw);
                    if (iw < 64) ix = D.sext(ix, 64);
                    q = D.add(q, D.mul(ix, D.cst(DL.getTypeAllocSize(it.getIndexedType()), 64)));
                }
                return q; });
        }
        for (gep_type_iterator it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
            if (StructType* s = it.getStructTypeOrNull()) { unsigned f = cast<ConstantInt>(it.getOperand())->getZExtValue(); p = D.add(p, D.cst(DL.getStructLayout(s)->getElementOffset(f), 64)); }
            else { Val ix = get(it.getOperand()); if (D.width(ix) < 64) ix = sextDist(it.getOperand(), ix); else if (D.width(ix) > 64) ix = D.slice(ix, 0, 64); p = D.add(p, D.mul(ix, D.cst(DL.getTypeAllocSize(it.getIndexedType()), 64))); }
        }
        return p;
    }
    // sign extension distributed over no-signed-wrap arithmetic
    Val sextDist(const Value* v, Val x, int w = 64) {
        if (auto* bo = dyn_cast<BinaryOperator>(v)) if (bo->hasNoSignedWrap() && bo->getType()->isIntegerTy()) {
            if (bo->getOpcode() == Instruction::Add) return D.add(sextDist(bo->getOperand(0), get(bo->getOperand(0)), w), sextDist(bo->getOperand(1), get(bo->getOperand(1)), w));
            if (bo->getOpcode() == Instruction::Sub) return D.sub(sextDist(bo->getOperand(0), get(bo->getOperand(0)), w), sextDist(bo->getOperand(1), get(bo->getOperand(1)), w));
            if (bo->getOpcode() == Instruction::Mul) return D.mul(sextDist(bo->getOperand(0), get(bo->getOperand(0)), w), sextDist(bo->getOperand(1), get(bo->getOperand(1)), w));
        }
        if (auto* ph = dyn_cast<PHINode>(v)) { auto it = ivWide.find(ph); if (it != ivWide.end() && w == 64) return it->second; }
        return D.sext(x, w);
    }
    std::map<const PHINode*, Val> ivWide;

    void inst(Instruction& I, State& st) {
        ++S.insts;
        if (I.getDebugLoc()) { std::string f = I.getDebugLoc()->getFilename().str(); size_t q = f.find("libflatarray/"); if (q != std::string::npos && f.find("config.h") == std::string::npos) S.files.insert(f.substr(q)); }
        Type* ty = I.getType(); 
        if (auto* bo = dyn_cast<BinaryOperator>(&I)) { Val a = get(bo->getOperand(0)), b = get(bo->getOperand(1)); int w = ew(ty), n = nl(ty);
            // word-level fast path for purely bitwise operators
            unsigned oc = bo->getOpcode();
            if (oc == Instruction::And) { env[&I] = D.AND(a, b); return; } if (oc == Instruction::Or) { env[&I] = D.OR(a, b); return; } if (oc == Instruction::Xor) { env[&I] = D.XOR(a, b); return; }
            env[&I] = lanes(n, [&](int i) { return binop(oc, lane(a, i, w), lane(b, i, w), &I); }); return; }
        if (auto* u = dyn_cast<UnaryOperator>(&I)) { if (u->getOpcode() != Instruction::FNeg) und("unary", &I); Val a = get(u->getOperand(0)); int w = ew(ty), n = nl(ty); env[&I] = lanes(n, [&](int i) { return fneg(lane(a, i, w)); }); return; }
        if (auto* c = dyn_cast<ICmpInst>(&I)) { Val a = get(c->getOperand(0)), b = get(c->getOperand(1)); int n = nl(c->getOperand(0)->getType()), w = ew(c->getOperand(0)->getType()); env[&I] = lanes(n, [&](int i) { return D.bit(icmp(c->getPredicate(), lane(a, i, w), lane(b, i, w))); }); return; }
        if (auto* c = dyn_cast<FCmpInst>(&I)) { Val a = get(c->getOperand(0)), b = get(c->getOperand(1)); int n = nl(c->getOperand(0)->getType()), w = ew(c->getOperand(0)->getType()); env[&I] = lanes(n, [&](int i) { return D.bit(fcmp(c->getPredicate(), lane(a, i, w), lane(b, i, w))); }); return; }
        if (auto* s = dyn_cast<SelectInst>(&I)) { Val c = get(s->getCondition()), a = get(s->getTrueValue()), b = get(s->getFalseValue()); if (D.width(c) == 1) env[&I] = D.ite(D.bits(c)[0], a, b); else { int w = ew(ty), n = nl(ty); env[&I] = lanes(n, [&](int i) { return D.ite(D.bits(c)[i], lane(a, i, w), lane(b, i, w)); }); } return; }
        if (auto* c = dyn_cast<CastInst>(&I)) {
            Val a = get(c->getOperand(0)); Type* st0 = c->getSrcTy(); int n = nl(ty), w = ew(ty), sw = ew(st0);
            switch (c->getOpcode()) {
            case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: env[&I] = w * n < D.width(a) ? D.slice(a, 0, w * n) : D.zext(a, w * n); return;
            case Instruction::Trunc: env[&I] = lanes(n, [&](int i) { return D.slice(lane(a, i, sw), 0, w); }); return;
            case Instruction::ZExt: env[&I] = lanes(n, [&](int i) { return D.zext(lane(a, i, sw), w); }); return;
            case Instruction::SExt: if (n == 1 && !st0->isVectorTy()) { env[&I] = sextDist(c->getOperand(0), a, w); return; } env[&I] = lanes(n, [&](int i) { return D.sext(lane(a, i, sw), w); }); return;
            case Instruction::SIToFP: env[&I] = lanes(n, [&](int i) { return un("SITOFP", w, lane(a, i, sw)); }); return;
            case Instruction::UIToFP: env[&I] = lanes(n, [&](int i) { return un("UITOFP", w, lane(a, i, sw)); }); return;
            case Instruction::FPToSI: env[&I] = lanes(n, [&](int i) { return un("FPTOSI", w, lane(a, i, sw)); }); return;
            case Instruction::FPToUI: env[&I] = lanes(n, [&](int i) { return un("FPTOUI", w, lane(a, i, sw)); }); return;
            case Instruction::FPExt: env[&I] = lanes(n, [&](int i) { return un("FPEXT", w, lane(a, i, sw)); }); return;
            case Instruction::FPTrunc: env[&I] = lanes(n, [&](int i) { return un("FPTRUNC", w, lane(a, i, sw)); }); return;
            default: und("cast", &I);
            }
        }
        if (isa<FreezeInst>(&I)) { env[&I] = get(I.getOperand(0)); return; }
        if (isa<GetElementPtrInst>(&I)) { env[&I] = gep(cast<GEPOperator>(&I)); return; }
        if (auto* a = dyn_cast<AllocaInst>(&I)) {
            TermId t = D.term("ALLOCA", 64, {}, {allocaCnt++}); D.nonnull.insert(t); D.objectBase.insert(t); localObj.insert(t);
            uint64_t sz = DL.getTypeAllocSize(a->getAllocatedType()); if (a->isArrayAllocation()) { Val n = get(a->getArraySize()); if (!D.isConst(n)) und("dynamic alloca", &I); sz *= D.constVal(n); }
            objSize[t] = sz; env[&I] = D.termVal(t); return;
        }
        if (auto* l = dyn_cast<LoadInst>(&I)) { env[&I] = loadTy(st, get(l->getPointerOperand()), ty, &I, l->getAlign().value()); return; }
        if (auto* s = dyn_cast<StoreInst>(&I)) { storeTy(st, get(s->getPointerOperand()), get(s->getValueOperand()), s->getValueOperand()->getType(), &I, s->getAlign().value()); return; }
        if (auto* e = dyn_cast<ExtractElementInst>(&I)) {
            Val v = get(e->getVectorOperand()), ix = get(e->getIndexOperand()); int n = nl(e->getVectorOperand()->getType()), w = ew(ty);
            if (D.isConst(ix)) { uint64_t k = D.constVal(ix); env[&I] = k < (uint64_t)n ? D.slice(v, (int)k * w, w) : D.termVal(D.term("UNDEF", w)); return; }
            Val r = D.termVal(D.term("OOBIDX", w)); for (int k = n - 1; k >= 0; --k) r = D.ite(D.eq(ix, D.cst(k, D.width(ix))), D.slice(v, k * w, w), r); env[&I] = r; return;
        }
        if (auto* e = dyn_cast<InsertElementInst>(&I)) {
            Val v = get(e->getOperand(0)), x = get(e->getOperand(1)), ix = get(e->getOperand(2)); int n = nl(ty), w = ew(ty);
            env[&I] = lanes(n, [&](int i) { return D.ite(D.eq(ix, D.cst(i, D.width(ix))), x, lane(v, i, w)); }); if (n == 1) env[&I] = x; return;
        }
        if (auto* s = dyn_cast<ShuffleVectorInst>(&I)) {
            Val a = get(s->getOperand(0)), b = get(s->getOperand(1)); int w = ew(ty), n = nl(ty), m = nl(s->getOperand(0)->getType());
            env[&I] = lanes(n, [&](int i) { int k = s->getMaskValue(i); if (k < 0) return D.termVal(D.term("UNDEF", w)); return k < m ? D.slice(a, k * w, w) : D.slice(b, (k - m) * w, w); }); return;
        }
        if (auto* e = dyn_cast<ExtractValueInst>(&I)) { int o = 0; Type* t = e->getAggregateOperand()->getType(); for (unsigned ix : e->indices()) { if (auto* s = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < ix; ++j) o += width(s->getElementType(j)); t = s->getElementType(ix); } else { t = t->getArrayElementType(); o += ix * width(t); } } env[&I] = D.slice(get(e->getAggregateOperand()), o, width(ty)); return; }
        if (auto* e = dyn_cast<InsertValueInst>(&I)) { int o = 0; Type* t = ty; for (unsigned ix : e->indices()) { if (auto* s = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < ix; ++j) o += width(s->getElementType(j)); t = s->getElementType(ix); } else { t = t->getArrayElementType(); o += ix * width(t); } } Val a = get(e->getAggregateOperand()), v = get(e->getInsertedValueOperand()); int vw = D.width(v), aw = D.width(a); std::vector<Val> p; if (o) p.push_back(D.slice(a, 0, o)); p.push_back(v); if (o + vw < aw) p.push_back(D.slice(a, o + vw, aw - o - vw)); env[&I] = D.concat(p); return; }
        if (auto* lp = dyn_cast<LandingPadInst>(&I)) { env[&I] = landing(lp, st); return; }
        if (isa<FenceInst>(&I)) { event(st, "seq:fence", {}, 0, &I); return; }
        und("instruction", &I);
    }
    // ------------------------------------------------------------- control flow
    State merge(const std::vector<State*>& in) {
        State r; r.cond = 0; for (auto* s : in) r.cond = D.b.OR(r.cond, s->cond);
        std::vector<State*> live; for (auto* s : in) if (s->cond) live.push_back(s);
        if (!live.empty()) r.dev = live[0]->dev;
        if (live.empty()) { r.mem = std::make_shared<MMap>(); return r; }
        if (live.size() == 1) { r.mem = live[0]->mem; r.exc = live[0]->exc; return r; }
        { Node acc = 0; for (auto* s : live) if (s->exc >= 0) { if (r.exc < 0) { r.exc = s->exc; acc = s->cond; } else { acc = D.b.OR(acc, s->cond); if (s->exc != r.exc) r.exc = D.ite(D.b.restrict_(s->cond, acc), s->exc, r.exc); } } }
        bool same = true; for (auto* s : live) if (s->mem != live[0]->mem) same = false;
        if (same) { r.mem = live[0]->mem; return r; }
        auto m = std::make_shared<MMap>(*live.back()->mem);
        // union of keys
        for (size_t q = 0; q + 1 < live.size(); ++q) for (auto& e : *live[q]->mem) if (!m->count(e.first)) { (*m)[e.first] = {initKey(e.first), e.second.loc}; }
        for (auto& e : *m) {
            Val v = e.second.v;
            Node acc = live.back()->cond;
            for (size_t q = live.size() - 1; q-- > 0;) {
                auto it = live[q]->mem->find(e.first); Val x = it != live[q]->mem->end() ? it->second.v : initKey(e.first);
                acc = D.b.OR(acc, live[q]->cond);
                if (x != v) { Node c = D.b.restrict_(live[q]->cond, acc); v = D.ite(c, x, v); if (it != live[q]->mem->end() && it->second.loc) e.second.loc = it->second.loc; }
            }
            e.second.v = v;
        }
        r.mem = m; return r;
    }
    Val initKey(const MKey& k) { // initial byte for a memory key
        Addr a = addr(k.first); a.off = k.second; a.key = k.first; return initByte(a, k.second);
    }
    std::shared_ptr<MMap> noMem = std::make_shared<MMap>();
    void setEdge(const BasicBlock* a, const BasicBlock* b, const State& s) {
        auto& v = edge[{a, b}];
        EdgeRec r; r.st = s; if (!s.cond) r.st.mem = noMem;
        if (s.cond) for (auto& ph : b->phis()) r.phi.push_back({&ph, get(ph.getIncomingValueForBlock(a))});
        if (!s.cond && !v.empty()) return;
        if (v.size() == 1 && v[0].st.cond == 0) { v[0] = r; return; }
        for (auto& q : v) if (q.st.mem == r.st.mem && q.st.exc == r.st.exc && q.phi == r.phi) { q.st.cond = D.b.OR(q.st.cond, s.cond); return; }
        v.push_back(r);
    }
    void phis(const BasicBlock& B, const Incoming& in) {
        std::vector<std::pair<const PHINode*, Val>> res; size_t idx = 0;
        for (auto& ph : B.phis()) {
            Val v = -1; Node acc = 0;
            for (auto* e : in) {
                if (!e->st.cond) continue;
                Val x = e->phi[idx].second; if (e->phi[idx].first != &ph) und("phi order");
                if (v < 0) { v = x; acc = e->st.cond; continue; }
                acc = D.b.OR(acc, e->st.cond);
                if (x != v) { Node c = D.b.restrict_(e->st.cond, acc); v = D.ite(c, x, v); }
            }
            if (v < 0) v = D.termVal(D.term("UNDEF", width(ph.getType())));
            res.push_back({&ph, v}); ++idx;
        }
        for (auto& r : res) env[r.first] = r.second;
    }
    void terminator(Instruction& I, State& st) {
        BasicBlock* B = I.getParent();
        if (auto* br = dyn_cast<BranchInst>(&I)) {
            if (br->isUnconditional()) { setEdge(B, br->getSuccessor(0), st); return; }
            Node c = D.bits(get(br->getCondition()))[0];
            State t = st, f = st; t.cond = D.b.AND(st.cond, c); f.cond = D.b.AND(st.cond, D.b.NOT(c));
            setEdge(B, br->getSuccessor(0), t); setEdge(B, br->getSuccessor(1), f); return;
        }
        if (auto* sw = dyn_cast<SwitchInst>(&I)) {
            Val v = get(sw->getCondition()); Node rest = st.cond;
            for (auto& c : sw->cases()) { Node e = D.eq(v, constant(c.getCaseValue())); State t = st; t.cond = D.b.AND(rest, e); rest = D.b.AND(rest, D.b.NOT(e)); setEdge(B, c.getCaseSuccessor(), t); }
            State t = st; t.cond = rest; setEdge(B, sw->getDefaultDest(), t); return;
        }
        if (auto* r = dyn_cast<ReturnInst>(&I)) { Val v = r->getReturnValue() ? get(r->getReturnValue()) : -1; finalStates.push_back({v, st}); return; }
        if (isa<UnreachableInst>(&I)) { exitPath("unreachable", st, -1, &I); return; }
        if (isa<ResumeInst>(&I)) { excExit(st, &I); exMem(st); return; }
        if (auto* inv = dyn_cast<InvokeInst>(&I)) {
            Node tc = 0; bool cont = call(*inv, st, tc);
            if (tc) { State u = st; u.cond = tc; if (throwKind[inv] != "rethrow") u.exc = D.cst(typeNum(kindName(throwKind[inv])), 32); setEdge(B, inv->getUnwindDest(), u); }
            else { State u = st; u.cond = 0; setEdge(B, inv->getUnwindDest(), u); }
            if (!cont) st.cond = 0;
            setEdge(B, inv->getNormalDest(), st); return;
        }
        und("terminator", &I);
    }
    // exception types are numbered; the in-flight type is part of the state
    std::vector<std::string> typeName;
    uint64_t typeNum(const std::string& n) { for (size_t i = 0; i < typeName.size(); ++i) if (typeName[i] == n) return i + 1; typeName.push_back(n); return typeName.size(); }
    static bool catches(const std::string& handler, const std::string& t) {
        if (handler == t) return true;
        static const std::map<std::string, std::string> base = {{"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"}};
        auto it = base.find(t); return it != base.end() && catches(handler, it->second);
    }
    std::string kindName(const std::string& k) { return k.compare(0, 6, "throw:") == 0 ? k.substr(6) : k; }
    void leavesOf(Val v, Node c, std::vector<std::pair<Val, Node>>& out) {
        if (c == 0) return; int t = -1; uint64_t bk = ~0ull; for (Node x : D.bits(v)) if (x > 1) { uint64_t k = D.b.varKey[D.b.n[x].v]; if (k < bk) { bk = k; t = D.b.n[x].v; } }
        if (t < 0) { out.push_back({v, c}); return; }
        for (int q = 0; q < 2; ++q) { std::vector<Node> b = D.bits(v); for (auto& x : b) x = D.b.cof(x, t, q); leavesOf(D.mk(b), D.b.AND(c, q ? D.b.var(t) : D.b.NOT(D.b.var(t))), out); }
    }
    Val landing(const LandingPadInst* lp, const State& st) {
        Val ptr = D.termVal(D.term("LPAD", 64));
        if (st.exc < 0) return D.concat({ptr, D.termVal(D.term("LPADSEL", 32))});
        Val sel = D.lift({st.exc}, [&](const std::vector<Val>& x) { return x[0]; });
        std::vector<std::pair<Val, Node>> lv; leavesOf(st.exc, 1, lv); Val r = D.cst(0, 32);
        for (auto& l : lv) {
            Val s = D.cst(0, 32); std::string t = D.isConst(l.first) && D.constVal(l.first) ? typeName[D.constVal(l.first) - 1] : "?";
            for (unsigned i = 0; i < lp->getNumClauses(); ++i) { if (!lp->isCatch(i)) continue; auto* c = lp->getClause(i)->stripPointerCasts(); if (isa<ConstantPointerNull>(c)) { s = D.cst(0xffffff, 32); break; } if (catches(c->getName().str(), t)) { s = D.cst(typeNum(c->getName().str()), 32); break; } }
            r = D.ite(l.second, s, r);
        }
        (void)sel; return D.concat({ptr, r});
    }
    std::vector<std::pair<Val, State>> finalStates; // -1 void, -2 exception
    std::vector<BasicBlock*> rpo;
    void block(BasicBlock& B, State st) {
        for (auto& I : B) {
            if (isa<PHINode>(I)) continue;
            if (I.isTerminator()) { terminator(I, st); return; }
            if (auto* cb = dyn_cast<CallInst>(&I)) {
                ++S.insts;
                Node tc = 0; bool cont = call(*cb, st, tc);
                if (tc) { State u = st; u.cond = tc; if (throwKind[cb] == "rethrow") excExit(u, cb); else S.exits.push_back({throwKind[cb], tc, -1, cb->getDebugLoc().get()}); exMem(u); }
                if (!cont) { st.cond = 0; // remaining instructions unreachable
                    for (auto* s : successors(&B)) setEdge(&B, s, st); return; }
                continue;
            }
            inst(I, st);
        }
    }
    void excExit(State& u, const Instruction* I) {
        if (u.exc < 0) { exitPath("throw:unwind", u, -1, I); return; }
        std::vector<std::pair<Val, Node>> lv; leavesOf(u.exc, u.cond, lv);
        for (auto& l : lv) { State w = u; w.cond = l.second; exitPath("throw:" + (D.constVal(l.first) ? typeName[D.constVal(l.first) - 1] : std::string("?")), w, -1, I); }
    }
    void exMem(State& u) { finalStates.push_back({-3, u}); }

    void region(Loop* L, BasicBlock* header, State entry, bool first) {
        // process blocks of region in RPO; inner loops are contracted
        std::set<BasicBlock*> done;
        for (BasicBlock* B : rpo) {
            if (L ? !L->contains(B) : false) continue;
            if (done.count(B)) continue;
            Loop* in = LI.getLoopFor(B);
            // outermost loop strictly inside L containing B
            Loop* inner = nullptr; for (Loop* q = in; q && q != L; q = q->getParentLoop()) inner = q;
            State st; Incoming inc;
            if (B == header) { st = std::move(entry); entry.mem = noMem; }
            else {
                std::vector<State*> v; std::set<BasicBlock*> seenP;
                for (BasicBlock* P : predecessors(B)) {
                    if (inner && inner->contains(P)) continue;
                    if (!seenP.insert(P).second) continue;
                    auto it = edge.find({P, B}); if (it == edge.end()) { und("irreducible control flow in " + F.getName().str()); }
                    for (auto& r : it->second) { inc.push_back(&r); v.push_back(&r.st); }
                }
                st = merge(v);
                for (auto* q : v) q->mem = noMem; // consumed
            }
            if (st.cond == 0) { // unreachable: propagate dead edges
                if (inner) { for (BasicBlock* X : inner->blocks()) { done.insert(X); State z; z.cond = 0; z.mem = st.mem; for (BasicBlock* s2 : successors(X)) if (!inner->contains(s2)) setEdge(X, s2, z); } continue; }
                done.insert(B); State z; z.cond = 0; z.mem = st.mem; for (BasicBlock* s2 : successors(B)) setEdge(B, s2, z); 
                for (auto& I : *B) if (!I.getType()->isVoidTy() && !env.count(&I)) env[&I] = D.termVal(D.term("UNDEF", safeWidth(I.getType())));
                continue;
            }
            if (inner) {
                if (inner->getHeader() != B) und("irreducible loop");
                loop(inner, std::move(st), inc); for (BasicBlock* X : inner->blocks()) done.insert(X); continue;
            }
            if (B != header || !L) { if (!inc.empty()) phis(*B, inc); }
            done.insert(B);
            block(*B, std::move(st));
        }
        (void)first;
    }
    int safeWidth(Type* t) { try { return std::max(1, width(t)); } catch (Undecided&) { return 1; } }
    // ---------------------------------------------------------------------- loops
    #include "loops.inc"

    void run() {
        for (BasicBlock& B : F) (void)B;
        // RPO
        { std::vector<BasicBlock*> post; std::set<BasicBlock*> seen; std::vector<std::pair<BasicBlock*, unsigned>> stk; BasicBlock* e = &F.getEntryBlock(); stk.push_back({e, 0}); seen.insert(e);
          while (!stk.empty()) { auto& t = stk.back(); Instruction* T = t.first->getTerminator(); if (t.second < T->getNumSuccessors()) { BasicBlock* s = T->getSuccessor(t.second++); if (seen.insert(s).second) stk.push_back({s, 0}); } else { post.push_back(t.first); stk.pop_back(); } }
          rpo.assign(post.rbegin(), post.rend()); }
        int i = 0; for (auto& a : F.args()) { TermId t = D.term("PARAM", width(a.getType()), {}, {i++}); if (a.getType()->isPointerTy()) { D.objectBase.insert(t); if (a.hasNonNullAttr() || a.getDereferenceableBytes()) D.nonnull.insert(t); } env[&a] = D.termVal(t); }
        State e; e.cond = 1; e.mem = std::make_shared<MMap>();
        region(nullptr, &F.getEntryBlock(), e, true);
        // combine final states
        std::vector<State*> v; Val ret = -1; Node rc = 0; Node exc = 0;
        for (auto& f : finalStates) {
            v.push_back(&f.second);
            if (f.first >= 0 || f.first == -1) { if (f.first >= 0) { if (ret < 0) ret = f.first; else ret = D.ite(D.b.restrict_(f.second.cond, D.b.OR(rc, f.second.cond)), f.first, ret); } rc = D.b.OR(rc, f.second.cond); }
            if (f.first == -2) exc = D.b.OR(exc, f.second.cond);
        }
        State fin = merge(v);
        S.retCond = rc; S.ret = ret;
        if (exc) S.exits.push_back({"throw:unwind", exc, -1, nullptr});
        for (auto& en : *fin.mem) { Addr a = addr(en.first.first); if (a.base >= 0 && localObj.count(a.base)) continue; S.mem[en.first] = en.second; }
    }
};
std::map<Val, std::map<int64_t, int>> Analyzer::initReg;

#include "compare.inc"

static cl::opt<int> Shards("shards", cl::init(1)); static cl::opt<int> Shard("shard", cl::init(0));
static cl::opt<std::string> In(cl::Positional, cl::desc("<bitcode>"), cl::Required);
static cl::opt<std::string> Only("only", cl::desc("analyse only this pair"));
static cl::opt<bool> Verbose("v", cl::desc("verbose"));
static cl::opt<bool> DumpIR("dump-ir", cl::desc("dump prepared IR"));

// Undefined behaviour that the clean-up passes would silently exploit is made explicit first: falling off the end of a
// non-void function (a bare 'unreachable') becomes a marker call, and a local scalar starts out as a frozen unknown.
static bool ownCode(const Function& f) { // code of the library or of a probe, as opposed to the C++ standard library's
    if (f.getName().starts_with("p_") || f.getName().starts_with("r_")) return true;
    const DISubprogram* sp = f.getSubprogram(); if (!sp) return false;
    StringRef fn = sp->getFilename(); std::string full = (fn.starts_with("/") ? fn.str() : (sp->getDirectory() + "/" + fn).str());
    return full.find("/include/c++/") == std::string::npos && full.find("/lib/clang/") == std::string::npos && full.find("/usr/") != 0;
}
static void markUndefined(Module& M) {
    FunctionCallee ub = M.getOrInsertFunction("__vf_undefined", Type::getVoidTy(M.getContext()));
    cast<Function>(ub.getCallee())->setDoesNotReturn();
    const DataLayout& DL = M.getDataLayout();
    for (Function& f : M) {
        if (f.isDeclaration() || !ownCode(f)) continue;
        for (BasicBlock& B : f) {
            auto* U = dyn_cast<UnreachableInst>(B.getTerminator()); if (!U) continue;
            bool afterNoreturn = false;
            if (Instruction* pv = U->getPrevNonDebugInstruction()) { if (auto* cb = dyn_cast<CallBase>(pv)) afterNoreturn = cb->doesNotReturn(); }
            else { afterNoreturn = !pred_empty(&B); for (BasicBlock* q : predecessors(&B)) { auto* iv = dyn_cast<InvokeInst>(q->getTerminator()); if (!iv || !iv->doesNotReturn() || iv->getNormalDest() != &B) afterNoreturn = false; } }
            if (afterNoreturn) continue;
            bool reach = &B == &f.getEntryBlock() || !pred_empty(&B); if (!reach) continue;
            auto* c = CallInst::Create(ub, "", U); c->setDoesNotReturn();
            DebugLoc dl = U->getDebugLoc(); if (!dl && f.getSubprogram()) dl = DILocation::get(M.getContext(), f.getSubprogram()->getLine(), 0, f.getSubprogram());
            c->setDebugLoc(dl);
        }
        std::vector<AllocaInst*> as; for (Instruction& I : f.getEntryBlock()) if (auto* a = dyn_cast<AllocaInst>(&I)) as.push_back(a);
        for (AllocaInst* a : as) {
            Type* t = a->getAllocatedType(); if (a->isArrayAllocation() || !t->isSingleValueType() || DL.getTypeStoreSize(t).isScalable()) continue;
            auto* fz = new FreezeInst(UndefValue::get(t), "", a->getNextNode()); new StoreInst(fz, a, fz->getNextNode());
        }
    }
}
static void prepare(Module& M) {
    markUndefined(M);
    for (Function& f : M) {
        if (f.isDeclaration()) continue;
        f.removeFnAttr(Attribute::NoInline); f.removeFnAttr(Attribute::OptimizeNone);
        f.setComdat(nullptr);
        StringRef fn = f.getName(); bool probe = fn.starts_with("p_") || fn.starts_with("r_") || (fn.size() > 3 && fn[0] == 'r' && isdigit(fn[1]) && fn[2] == '_');
        if (!probe) { f.setLinkage(GlobalValue::InternalLinkage); f.addFnAttr(Attribute::AlwaysInline); }
        else { f.setLinkage(GlobalValue::ExternalLinkage); if (!Only.empty() && fn.substr(fn.find('_') + 1) != Only) { f.deleteBody(); } }
    }
}
// Before anything is inlined (and bounds become constants of the pair at hand): functions of the
// library that count up to a bound they are given with a counter of 16 bits or less.
static std::map<const DISubprogram*, std::pair<int, const DILocation*>> NarrowFns;
static void findNarrow(Module& M, FunctionAnalysisManager& FAM) {
    for (Function& f : M) {
        if (f.isDeclaration() || !f.getSubprogram() || !f.getSubprogram()->getFile() || !f.getSubprogram()->getFile()->getFilename().contains("libflatarray")) continue;
        for (Loop* L : FAM.getResult<LoopAnalysis>(f).getLoopsInPreorder()) for (PHINode& ph : L->getHeader()->phis()) {
            auto* it = dyn_cast<IntegerType>(ph.getType()); if (!it || it->getBitWidth() < 8 || it->getBitWidth() > 16) continue;
            bool steps = false, wide = false;
            for (BasicBlock* P : predecessors(L->getHeader())) if (L->contains(P)) {
                Value* v = ph.getIncomingValueForBlock(P); if (auto* t = dyn_cast<TruncInst>(v)) v = t->getOperand(0);
                auto* bo = dyn_cast<BinaryOperator>(v); if (!bo || (bo->getOpcode() != Instruction::Add && bo->getOpcode() != Instruction::Sub)) continue;
                Value* x = bo->getOperand(0); if (auto* c = dyn_cast<CastInst>(x)) x = c->getOperand(0);
                if (x == &ph) steps = true; }
            auto bound = [&](Value* o) { // a value of more bits than the counter has, unknown in this function
                for (bool ext = false;;) {
                    if (isa<Constant>(o)) return false;
                    if (isa<ZExtInst>(o) || isa<SExtInst>(o)) { ext = true; o = cast<CastInst>(o)->getOperand(0); continue; }
                    if (isa<TruncInst>(o)) { o = cast<CastInst>(o)->getOperand(0); ext = false; if (!isa<Constant>(o) && o->getType()->getIntegerBitWidth() > it->getBitWidth()) return true; continue; }
                    if (auto* c = dyn_cast<CallBase>(o)) { Function* g = c->getCalledFunction(); if (g && g->size() == 1) if (auto* r = dyn_cast<ReturnInst>(g->front().getTerminator())) if (isa_and_nonnull<Constant>(r->getReturnValue())) return false; }
                    return o->getType()->isIntegerTy() && o->getType()->getIntegerBitWidth() > it->getBitWidth() && (isa<Argument>(o) || isa<LoadInst>(o) || isa<CallBase>(o)); } };
            for (User* u : ph.users()) if (isa<ZExtInst>(u) || isa<SExtInst>(u) || isa<ICmpInst>(u)) { std::vector<User*> cs; if (isa<ICmpInst>(u)) cs.push_back(u); else for (User* c : u->users()) cs.push_back(c);
                for (User* c : cs) if (auto* ic = dyn_cast<ICmpInst>(c)) { Value* o = ic->getOperand(0) == u || ic->getOperand(0) == &ph ? ic->getOperand(1) : ic->getOperand(0); if (bound(o)) wide = true; } }
            if (steps && wide) NarrowFns[f.getSubprogram()] = {(int)it->getBitWidth(), L->getStartLoc() ? L->getStartLoc().get() : nullptr};
        }
    }
}
int main(int argc, char** argv) {
    std::vector<const char*> av(argv, argv + argc);
    for (const char* x : {"-unroll-threshold=4000000", "-unroll-full-max-count=4096", "-unroll-max-iteration-count-to-analyze=0", "-unroll-runtime=false", "-unroll-allow-partial=false", "-unroll-allow-peeling=false", "-pragma-unroll-threshold=4000000", "-unroll-allow-remainder=false"}) av.push_back(x);
    cl::ParseCommandLineOptions((int)av.size(), av.data());
    LLVMContext C; SMDiagnostic err; auto M = parseIRFile(In, err, C);
    if (!M) { err.print("vfx", errs()); return 3; }
    if (Shards > 1) { // keep only this shard's pairs
        int k = 0; std::vector<Function*> drop; for (Function& f : *M) if (!f.isDeclaration() && f.getName().starts_with("p_")) if (k++ % Shards != Shard) {
            std::string nm = f.getName().substr(2).str(); drop.push_back(&f); for (std::string pre : {"r_", "r2_", "r3_", "r4_", "r5_", "r6_", "r7_", "r8_"}) if (Function* r = M->getFunction(pre + nm)) if (!r->isDeclaration()) drop.push_back(r); }
        for (Function* f : drop) { f->deleteBody(); f->setComdat(nullptr); }
    }
    prepare(*M);
    PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    { ModulePassManager pre; if (auto e = PB.parsePassPipeline(pre, "function(sroa<modify-cfg>)")) { errs() << toString(std::move(e)) << "\n"; return 3; } pre.run(*M, MAM); findNarrow(*M, FAM); }
    ModulePassManager MPM;
    const char* pipe = "always-inline,globaldce,function(sroa<modify-cfg>,early-cse,instsimplify,simplifycfg<no-switch-to-lookup>,sroa<modify-cfg>,sroa<modify-cfg>,early-cse,instsimplify,simplifycfg<no-switch-to-lookup>,adce,loop-simplify,lcssa)";
    if (auto e = PB.parsePassPipeline(MPM, pipe)) { errs() << toString(std::move(e)) << "\n"; return 3; }
    MPM.run(*M, MAM);
    if (DumpIR) M->print(outs(), nullptr);
    int rc = 0; std::vector<Function*> ps; for (Function& f : *M) if (!f.isDeclaration() && f.getName().starts_with("p_")) ps.push_back(&f);
    for (Function* p : ps) {
        std::string nm = p->getName().substr(2).str(); if (!Only.empty() && nm != Only) continue;
        Function* r = M->getFunction("r_" + nm);
        std::map<std::string, std::string> opt = pairOptions(*M, nm);
        Report R; R.name = nm;
        comparePair(p, r, FAM, opt, R, Verbose);
        for (int alt = 2; R.status != "EQUAL" && alt < 9; ++alt) { // permitted alternative behaviours
            Function* r2 = M->getFunction("r" + std::to_string(alt) + "_" + nm); if (!r2 || r2->isDeclaration()) break;
            Report Q; Q.name = nm; comparePair(p, r2, FAM, opt, Q, Verbose); if (Q.status == "EQUAL") R = Q;
        }
        if (R.status == "EQUAL" && !NarrowFns.empty()) for (Instruction& I : instructions(*p)) for (const DILocation* l = I.getDebugLoc().get(); l; l = l->getInlinedAt()) { auto q = NarrowFns.find(l->getScope()->getSubprogram()); if (q == NarrowFns.end() || R.status == "DIFF") continue;
            R.status = "DIFF"; R.detail = "loop up to a bound given at run time is driven by a " + std::to_string(q->second.first) + "-bit counter; it wraps around for counts the interface admits"; R.where = locStr(q->second.second ? q->second.second : I.getDebugLoc().get()); }
        std::cout << R.json() << std::endl; if (R.status != "EQUAL") rc = 1;
    }
    return rc;
}

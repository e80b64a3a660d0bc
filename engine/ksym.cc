// ksym: bounded symbolic execution of LLVM IR with Z3.
#include <cxxabi.h>
#include <sys/resource.h>
#include <cmath>
#include <fstream>
#include <functional>
#include <random>
#include <set>
#include <sstream>
#include "llvm/ADT/DenseMap.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/GlobalAlias.h"
#include "llvm/IR/GlobalVariable.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "expr.h"
#include "mem.h"
#include "solver.h"

using namespace llvm;
using namespace ks;

static double now() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
static std::string demangle(const std::string& s) {
    int st;
    char* d = abi::__cxa_demangle(s.c_str(), nullptr, nullptr, &st);
    if (!d) return s;
    std::string r = d;
    free(d);
    return r;
}
static std::string jstr(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}

struct Val {
    E e = nullptr;
    u64 c = 0;
};
struct Opd {
    int slot = -1;
    u32 n = 1;
    Val cv;
    const std::vector<Val>* cvs = nullptr;
};
struct Fn;
struct PInst;
struct State;
struct Exec;
using Handler = bool (*)(Exec&, State&, PInst&, std::vector<Val>&);

struct PhiCopy { int dst; u32 n; Opd src; };
struct Edge { int target; std::vector<PhiCopy> copies; };

struct PInst {
    Instruction* I;
    unsigned op;
    int dst = -1;
    u32 n = 0;          // result leaves
    u16 w = 0;          // result (or memory) scalar width
    u16 sw = 0;         // source scalar width
    std::vector<Opd> a;
    std::vector<Edge> edges;
    // loads/stores: leaf offsets, widths, bytes
    std::vector<std::pair<u32, u32>> leaves;  // offset, width
    u32 align = 1;
    u64 off = 0;                        // gep constant / alloca size
    std::vector<std::pair<Opd, i64>> idx;  // gep
    std::vector<u16> idxw;
    std::vector<std::pair<u64, int>> cases;  // switch
    Fn* callee = nullptr;
    Handler h = nullptr;
    std::string hname;
    std::vector<int> argw;  // widths of flattened args (aligned with operands)
    unsigned aux = 0;
    bool seen = false;
};
struct Fn {
    Function* F;
    std::string name;
    bool decl = false;
    bool ready = false;
    Handler h = nullptr;
    std::vector<PInst> code;
    std::vector<int> blockStart;
    u32 nslots = 0;
    std::vector<int> argSlot;
    std::vector<u32> argN;
    u64 addr = 0;
    u64 calls = 0;
    bool inRepo = false;
    std::string file;
};

struct Frame {
    Fn* f;
    u32 pc = 0;
    std::vector<Val> r;
    std::vector<u64> allocas;
    std::vector<Val> varargs;
    std::vector<u64> stacksaves;
};

struct Input { std::string name; E e; u16 w; };

struct Subst {
    std::unordered_map<u32, u64> m;
    std::unordered_map<E, u64> x;   // compound expressions known to be constant
    u64 bloom = 0;
    std::unordered_map<E, E> memo;
};

struct State {
    u64 id = 0;
    Mem mem;
    std::vector<Frame> st;
    std::vector<E> pc;
    Ctx::Model model;
    std::shared_ptr<Subst> sub;
    std::vector<Input> inputs;
    std::vector<std::pair<E, u64>> obs;  // observed values (expr or const)
    u32 seq = 0;
    u32 uninitSeq = 0;
    u64 steps = 0;
    u64 heapNext = 0, stackNext = 0;
    u64 heapLive = 0, heapBytes = 0;
    i64 allocFailBudget = 0;   // number of failures still allowed
    u32 concDepth = 0;
    u8 tid = 0;                  // thread the harness is acting as
    bool expectAbort = false;    // the path is complete when the program aborts
    u64 maxAlloc = 1 << 20;      // larger requests fail
    bool pendingAllocOk = false; // the allocation about to be re-executed succeeds
    E clock = nullptr;
    struct Exc { u64 obj, ti, dtor; int handlers; };
    std::vector<Exc> exc;        // all live exception objects
    std::vector<u64> caught;     // stack of caught exception objects
    std::set<u32> covers;
    u32 depth = 0;
};

struct Violation { std::string kind, msg, stack, json; };

struct Exec {
    LLVMContext LC;
    std::unique_ptr<Module> M;
    const DataLayout* DL;
    Ctx C;
    Solver* S;
    std::map<std::string, Fn*> fns;
    DenseMap<Function*, Fn*> fnOf;
    std::unordered_map<u64, Fn*> fnAt;
    DenseMap<const GlobalValue*, u64> gaddr;
    std::map<std::string, u64> extObj;
    std::unordered_map<u64, std::string> tiName;
    std::unordered_map<u64, std::vector<u64>> tiBases;
    std::map<u64, u32> typeId;
    std::map<std::string, Handler> handlers;
    Mem initMem;
    u64 gNext = 0x100000000ULL, cNext = 0x1000000ULL;
    std::vector<State*> work;
    // limits and options
    u64 maxSteps = 30000000, maxPaths = 100000000, maxConc = 4000;
    double deadline = 600;
    bool wordSlack = false;
    bool cont = false;
    std::string repoPrefix = "/repo/";
    std::map<std::string, u64> params;
    // stats
    u64 nStates = 0, paths = 0, killed = 0, forks = 0, instrs = 0, asserts = 0, assertsSym = 0, memChecks = 0;
    std::map<std::string, u64> coverHits;
    std::vector<std::string> coverNames;
    std::map<std::string, u32> coverIds;
    std::set<std::string> allCovers;
    std::vector<Violation> viol;
    std::map<std::string, u64> incomplete;
    std::vector<std::string> samples;
    u64 sampleMax = 6;
    std::mt19937_64 rng{1};
    double t0;
    std::set<std::string> usedExternals;
    int traceLevel = 0;

    // ---------- types ----------
    void leavesOf(Type* T, u64 base, std::vector<std::pair<u32, u32>>& out) {
        if (auto* ST = dyn_cast<StructType>(T)) {
            const StructLayout* SL = DL->getStructLayout(ST);
            for (unsigned i = 0; i < ST->getNumElements(); i++) leavesOf(ST->getElementType(i), base + SL->getElementOffset(i), out);
        } else if (auto* AT = dyn_cast<ArrayType>(T)) {
            u64 sz = DL->getTypeAllocSize(AT->getElementType());
            for (u64 i = 0; i < AT->getNumElements(); i++) leavesOf(AT->getElementType(), base + i * sz, out);
        } else if (auto* VT = dyn_cast<FixedVectorType>(T)) {
            u64 bits = DL->getTypeSizeInBits(VT->getElementType());
            for (u64 i = 0; i < VT->getNumElements(); i++) out.push_back({(u32)(base + i * bits / 8), (u32)bits});
        } else if (T->isVoidTy() || T->isLabelTy() || T->isMetadataTy() || T->isTokenTy()) {
        } else out.push_back({(u32)base, (u32)DL->getTypeSizeInBits(T)});
    }
    u32 nLeaves(Type* T) {
        if (T->isIntegerTy() || T->isPointerTy() || T->isFloatingPointTy()) return 1;
        std::vector<std::pair<u32, u32>> l;
        leavesOf(T, 0, l);
        return l.size();
    }
    unsigned widthOf(Type* T) {
        if (T->isVectorTy()) T = T->getScalarType();
        if (T->isVoidTy() || T->isAggregateType() || T->isLabelTy() || T->isMetadataTy() || T->isTokenTy()) return 0;
        return DL->getTypeSizeInBits(T);
    }

    // ---------- constants ----------
    [[noreturn]] void fatal(const std::string& s) { fprintf(stderr, "ksym: fatal: %s\n", s.c_str()); exit(3); }
    Val bigVal(const APInt& v) {
        Val r;
        if (v.getBitWidth() <= 64) r.c = v.getZExtValue();
        else r.e = C.cstBig(v);
        return r;
    }
    void evalConst(Constant* K, std::vector<Val>& out) {
        Type* T = K->getType();
        if (auto* CI = dyn_cast<ConstantInt>(K)) { out.push_back(bigVal(CI->getValue())); return; }
        if (auto* CF = dyn_cast<ConstantFP>(K)) { out.push_back(bigVal(CF->getValueAPF().bitcastToAPInt())); return; }
        if (isa<ConstantPointerNull>(K)) { out.push_back(Val()); return; }
        if (isa<UndefValue>(K) || isa<ConstantAggregateZero>(K)) {
            std::vector<std::pair<u32, u32>> l;
            leavesOf(T, 0, l);
            for (auto& p : l) out.push_back(bigVal(APInt(p.second, 0)));
            return;
        }
        if (auto* GV = dyn_cast<GlobalValue>(K)) { Val v; v.c = addrOfGlobal(GV); out.push_back(v); return; }
        if (auto* CD = dyn_cast<ConstantDataSequential>(K)) {
            for (unsigned i = 0; i < CD->getNumElements(); i++) evalConst(CD->getElementAsConstant(i), out);
            return;
        }
        if (isa<ConstantAggregate>(K)) {
            for (unsigned i = 0; i < K->getNumOperands(); i++) evalConst(cast<Constant>(K->getOperand(i)), out);
            return;
        }
        if (auto* CE = dyn_cast<ConstantExpr>(K)) {
            unsigned w = widthOf(T);
            auto op = [&](unsigned i) { std::vector<Val> v; evalConst(CE->getOperand(i), v); return v; };
            switch (CE->getOpcode()) {
                case Instruction::GetElementPtr: {
                    APInt off(64, 0);
                    if (!cast<GEPOperator>(CE)->accumulateConstantOffset(*DL, off)) fatal("constexpr gep");
                    Val b = op(0)[0];
                    b.c += off.getZExtValue();
                    out.push_back(b);
                    return; }
                case Instruction::BitCast: case Instruction::AddrSpaceCast: { auto v = op(0); out.insert(out.end(), v.begin(), v.end()); return; }
                case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: case Instruction::ZExt: {
                    Val v = op(0)[0]; v.c &= maskw(w); out.push_back(v); return; }
                case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: {
                    Val a = op(0)[0], b = op(1)[0], r;
                    ks::Op o = CE->getOpcode() == Instruction::Add ? ADD : CE->getOpcode() == Instruction::Sub ? SUB : CE->getOpcode() == Instruction::Mul ? MUL
                           : CE->getOpcode() == Instruction::And ? AND : CE->getOpcode() == Instruction::Or ? OR : CE->getOpcode() == Instruction::Xor ? XOR : SHL;
                    r.c = Ctx::fold(o, a.c, b.c, w);
                    out.push_back(r);
                    return; }
                case Instruction::ICmp: {
                    Val a = op(0)[0], b = op(1)[0], r;
                    switch (CE->getPredicate()) {
                        case CmpInst::ICMP_EQ: r.c = a.c == b.c; break;
                        case CmpInst::ICMP_NE: r.c = a.c != b.c; break;
                        case CmpInst::ICMP_ULT: r.c = a.c < b.c; break;
                        case CmpInst::ICMP_UGT: r.c = a.c > b.c; break;
                        default: fatal("constexpr icmp");
                    }
                    out.push_back(r);
                    return; }
                default: fatal(std::string("constexpr ") + CE->getOpcodeName());
            }
        }
        if (isa<ConstantTokenNone>(K)) return;
        if (auto* BA = dyn_cast<BlockAddress>(K)) { (void)BA; fatal("blockaddress"); }
        if (auto* DS = dyn_cast<DSOLocalEquivalent>(K)) { evalConst(DS->getGlobalValue(), out); return; }
        fatal("constant kind");
    }
    u64 addrOfGlobal(const GlobalValue* G) {
        if (auto* A = dyn_cast<GlobalAlias>(G)) {
            std::vector<Val> v;
            evalConst(const_cast<Constant*>(A->getAliasee()), v);
            return v[0].c;
        }
        auto it = gaddr.find(G);
        if (it == gaddr.end()) fatal("address of global " + G->getName().str());
        return it->second;
    }
    u64 newGlobalAddr(u64 size, u64 align) {
        u64 a = (gNext + align - 1) / align * align;
        gNext = a + size + 64;
        return a;
    }
    u64 externalObject(const std::string& name, u64 size = 512) {
        auto it = extObj.find(name);
        if (it != extObj.end()) return it->second;
        u64 a = newGlobalAddr(size, 16);
        Obj* o = new Obj(K_EXT, a, size);
        o->zero = true;
        initMem.add(o);
        extObj[name] = a;
        if (name.rfind("_ZTI", 0) == 0) {
            tiName[a] = name;
            u64 s = newGlobalAddr(name.size(), 16);
            Obj* so = new Obj(K_GLOBAL, s, name.size());
            so->ro = true;
            initMem.add(so);
            for (size_t i = 4; i <= name.size(); i++) so->put(i - 4, i < name.size() ? name[i] : 0, nullptr);
            pokeInit(a + 8, s, 8);
        }
        return a;
    }
    void pokeInit(u64 addr, u64 v, unsigned bytes) {
        int i = initMem.find(addr);
        Obj* o = initMem.v[i].o;
        for (unsigned k = 0; k < bytes; k++) o->put(addr - o->base + k, (u8)(v >> (8 * k)), nullptr);
    }
    void writeConst(Obj* o, u64 off, Constant* K) {
        Type* T = K->getType();
        if (isa<ConstantAggregateZero>(K)) {
            return;  // object is zero initialised
        }
        if (isa<UndefValue>(K)) return;
        if (auto* ST = dyn_cast<StructType>(T)) {
            const StructLayout* SL = DL->getStructLayout(ST);
            for (unsigned i = 0; i < ST->getNumElements(); i++) writeConst(o, off + SL->getElementOffset(i), K->getAggregateElement(i));
            return;
        }
        if (auto* CD = dyn_cast<ConstantDataSequential>(K)) {
            u64 es = CD->getElementByteSize();
            for (unsigned i = 0; i < CD->getNumElements(); i++) {
                u64 v;
                if (CD->getElementType()->isIntegerTy()) v = CD->getElementAsInteger(i);
                else v = CD->getElementAsAPFloat(i).bitcastToAPInt().getZExtValue();
                for (u64 k = 0; k < es; k++) o->put(off + i * es + k, (u8)(v >> (8 * k)), nullptr);
            }
            return;
        }
        if (auto* AT = dyn_cast<ArrayType>(T)) {
            u64 sz = DL->getTypeAllocSize(AT->getElementType());
            for (u64 i = 0; i < AT->getNumElements(); i++) writeConst(o, off + i * sz, K->getAggregateElement(i));
            return;
        }
        std::vector<Val> v;
        evalConst(K, v);
        std::vector<std::pair<u32, u32>> l;
        leavesOf(T, 0, l);
        for (size_t i = 0; i < l.size(); i++) {
            APInt x = v[i].e ? Ctx::cval(v[i].e) : APInt(l[i].second <= 64 ? l[i].second : 64, v[i].c);
            unsigned bytes = (l[i].second + 7) / 8;
            APInt y = x.zext(std::max(bytes * 8, x.getBitWidth()));
            for (unsigned k = 0; k < bytes; k++) o->put(off + l[i].first + k, (u8)y.extractBits(8, 8 * k).getZExtValue(), nullptr);
        }
    }

    // ---------- loading ----------
    void load(const std::string& file) {
        SMDiagnostic err;
        M = parseIRFile(file, err, LC);
        if (!M) { err.print("ksym", errs()); exit(3); }
        DL = &M->getDataLayout();
        for (Function& F : *M) {
            Fn* f = new Fn();
            f->F = &F;
            f->name = F.getName().str();
            f->decl = F.isDeclaration();
            if (!(F.hasExternalWeakLinkage() && F.isDeclaration())) { f->addr = cNext; cNext += 16; }
            fns[f->name] = f;
            fnOf[&F] = f;
            if (f->addr) fnAt[f->addr] = f;
            gaddr[&F] = f->addr;
            auto h = handlers.find(f->name);
            if (h != handlers.end() && (f->decl || f->name.rfind("sym_", 0) == 0)) f->h = h->second;
            if (DISubprogram* SP = F.getSubprogram()) {
                std::string p = SP->getFilename().str();
                if (!p.empty() && p[0] != '/') p = SP->getDirectory().str() + "/" + p;
                f->file = p;
                f->inRepo = p.rfind(repoPrefix, 0) == 0;
            }
        }
        for (GlobalVariable& G : M->globals()) {
            if (G.getName().starts_with("llvm.")) continue;
            if (G.isDeclaration()) {
                if (G.hasExternalWeakLinkage()) { gaddr[&G] = 0; continue; }
                gaddr[&G] = externalObject(G.getName().str());
            } else {
                u64 sz = DL->getTypeAllocSize(G.getValueType());
                u64 al = std::max<u64>(G.getAlign().valueOrOne().value(), 8);
                u64 a = newGlobalAddr(std::max<u64>(sz, 1), std::max<u64>(al, 16));
                gaddr[&G] = a;
                Obj* o = new Obj(K_GLOBAL, a, sz);
                o->zero = true;
                initMem.add(o);
                if (G.getName().starts_with("_ZTI")) tiName[a] = G.getName().str();
            }
        }
        for (GlobalVariable& G : M->globals()) {
            if (G.getName().starts_with("llvm.") || G.isDeclaration()) continue;
            int i = initMem.findBase(gaddr[&G]);
            Obj* o = initMem.v[i].o;
            if (G.hasInitializer()) writeConst(o, 0, G.getInitializer());
            o->ro = G.isConstant();
        }
        // type info hierarchy
        for (GlobalVariable& G : M->globals()) {
            if (!G.getName().starts_with("_ZTI") || G.isDeclaration()) continue;
            auto* K = dyn_cast<ConstantStruct>(G.getInitializer());
            if (!K) continue;
            u64 a = gaddr[&G];
            for (unsigned i = 2; i < K->getNumOperands(); i++) {
                Constant* op = K->getOperand(i);
                if (op->getType()->isPointerTy()) {
                    std::vector<Val> v;
                    evalConst(op, v);
                    if (v[0].c) tiBases[a].push_back(v[0].c);
                }
            }
        }
    }
    u64 typeinfoOf(const std::string& n) {
        if (GlobalVariable* G = M->getGlobalVariable(n, true)) { auto it = gaddr.find(G); if (it != gaddr.end()) return it->second; }
        return externalObject(n);
    }
    bool tiDerives(u64 t, u64 base) {
        if (t == base) return true;
        for (u64 b : tiBases[t]) if (tiDerives(b, base)) return true;
        auto it = tiName.find(t);
        auto jt = tiName.find(base);
        if (it != tiName.end() && jt != tiName.end()) {
            if (it->second == jt->second) return true;
            static const std::map<std::string, std::string> up = {
                {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"},
                {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"},
                {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt13runtime_error", "_ZTISt9exception"},
                {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"},
                {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"},
                {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt10bad_typeid", "_ZTISt9exception"},
                {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt18bad_variant_access", "_ZTISt9exception"},
                {"_ZTISt19bad_optional_access", "_ZTISt9exception"}};
            auto u = up.find(it->second);
            if (u != up.end()) return tiDerives(typeinfoOf(u->second), base);
        }
        return false;
    }

    // ---------- function preparation ----------
    void prepare(Fn* f) {
        f->ready = true;
        Function& F = *f->F;
        DenseMap<const Value*, int> slot;
        u32 ns = 0;
        for (Argument& A : F.args()) { slot[&A] = ns; f->argSlot.push_back(ns); u32 n = nLeaves(A.getType()); f->argN.push_back(n); ns += n; }
        for (Instruction& I : instructions(F)) {
            u32 n = nLeaves(I.getType());
            if (n) { slot[&I] = ns; ns += n; }
        }
        f->nslots = ns;
        DenseMap<const BasicBlock*, int> bi;
        int k = 0;
        for (BasicBlock& B : F) bi[&B] = k++;
        auto opd = [&](Value* V) {
            Opd o;
            if (isa<MetadataAsValue>(V) || isa<BasicBlock>(V) || isa<InlineAsm>(V)) { o.n = 0; return o; }
            o.n = nLeaves(V->getType());
            if (auto* K = dyn_cast<Constant>(V)) {
                std::vector<Val> v;
                evalConst(K, v);
                if (o.n == 1) o.cv = v[0];
                else o.cvs = new std::vector<Val>(v);
            } else {
                auto it = slot.find(V);
                if (it == slot.end()) { if (o.n == 0) return o; fatal("operand without slot"); }
                o.slot = it->second;
            }
            return o;
        };
        auto edge = [&](BasicBlock* from, BasicBlock* to) {
            Edge e;
            e.target = bi[to];
            for (PHINode& P : to->phis()) {
                PhiCopy c;
                c.n = nLeaves(P.getType());
                if (!c.n) continue;
                c.dst = slot[&P];
                c.src = opd(P.getIncomingValueForBlock(from));
                e.copies.push_back(c);
            }
            return e;
        };
        f->blockStart.resize(k);
        for (BasicBlock& B : F) {
            f->blockStart[bi[&B]] = f->code.size();
            for (Instruction& I : B) {
                if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue;
                PInst p;
                p.I = &I;
                p.op = I.getOpcode();
                p.n = nLeaves(I.getType());
                if (p.n) p.dst = slot[&I];
                p.w = widthOf(I.getType());
                switch (p.op) {
                    case Instruction::Br: {
                        auto* BI = cast<BranchInst>(&I);
                        if (BI->isConditional()) p.a.push_back(opd(BI->getCondition()));
                        for (unsigned i = 0; i < BI->getNumSuccessors(); i++) p.edges.push_back(edge(&B, BI->getSuccessor(i)));
                        break; }
                    case Instruction::Switch: {
                        auto* SI = cast<SwitchInst>(&I);
                        p.a.push_back(opd(SI->getCondition()));
                        p.sw = widthOf(SI->getCondition()->getType());
                        p.edges.push_back(edge(&B, SI->getDefaultDest()));
                        for (auto& c : SI->cases()) {
                            p.cases.push_back({c.getCaseValue()->getZExtValue(), (int)p.edges.size()});
                            p.edges.push_back(edge(&B, c.getCaseSuccessor()));
                        }
                        break; }
                    case Instruction::GetElementPtr: {
                        auto* G = cast<GetElementPtrInst>(&I);
                        if (G->getType()->isVectorTy()) fatal("vector gep");
                        p.a.push_back(opd(G->getPointerOperand()));
                        for (auto gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi) {
                            Value* V = gi.getOperand();
                            if (StructType* ST = gi.getStructTypeOrNull()) {
                                p.off += DL->getStructLayout(ST)->getElementOffset(cast<ConstantInt>(V)->getZExtValue());
                            } else {
                                i64 sz = DL->getTypeAllocSize(gi.getIndexedType());
                                if (auto* CI = dyn_cast<ConstantInt>(V)) p.off += CI->getSExtValue() * sz;
                                else { p.idx.push_back({opd(V), sz}); p.idxw.push_back(widthOf(V->getType())); }
                            }
                        }
                        break; }
                    case Instruction::Load: {
                        auto* L = cast<LoadInst>(&I);
                        p.a.push_back(opd(L->getPointerOperand()));
                        leavesOf(L->getType(), 0, p.leaves);
                        p.align = L->getAlign().value();
                        break; }
                    case Instruction::Store: {
                        auto* L = cast<StoreInst>(&I);
                        p.a.push_back(opd(L->getPointerOperand()));
                        p.a.push_back(opd(L->getValueOperand()));
                        leavesOf(L->getValueOperand()->getType(), 0, p.leaves);
                        p.align = L->getAlign().value();
                        break; }
                    case Instruction::Alloca: {
                        auto* A = cast<AllocaInst>(&I);
                        p.a.push_back(opd(A->getArraySize()));
                        p.off = DL->getTypeAllocSize(A->getAllocatedType());
                        p.align = A->getAlign().value();
                        break; }
                    case Instruction::Call: case Instruction::Invoke: {
                        auto* CB = cast<CallBase>(&I);
                        for (unsigned i = 0; i < CB->arg_size(); i++) {
                            p.a.push_back(opd(CB->getArgOperand(i)));
                            p.argw.push_back(widthOf(CB->getArgOperand(i)->getType()));
                        }
                        Value* cv = CB->getCalledOperand()->stripPointerCasts();
                        if (auto* GA = dyn_cast<GlobalAlias>(cv)) cv = GA->getAliaseeObject();
                        if (auto* CF = dyn_cast<Function>(cv)) p.callee = fnOf[CF];
                        else if (isa<InlineAsm>(cv)) p.aux = 1;
                        else { p.a.push_back(opd(CB->getCalledOperand())); p.aux = 2; }
                        if (auto* IV = dyn_cast<InvokeInst>(&I)) {
                            p.edges.push_back(edge(&B, IV->getNormalDest()));
                            p.edges.push_back(edge(&B, IV->getUnwindDest()));
                        }
                        break; }
                    case Instruction::ExtractValue: case Instruction::InsertValue: {
                        ArrayRef<unsigned> ix = isa<ExtractValueInst>(I) ? cast<ExtractValueInst>(I).getIndices() : cast<InsertValueInst>(I).getIndices();
                        Type* T = I.getOperand(0)->getType();
                        u32 o = 0;
                        for (unsigned x : ix) {
                            if (auto* ST = dyn_cast<StructType>(T)) { for (unsigned j = 0; j < x; j++) o += nLeaves(ST->getElementType(j)); T = ST->getElementType(x); }
                            else { T = T->getArrayElementType(); o += x * nLeaves(T); }
                        }
                        p.aux = o;
                        p.a.push_back(opd(I.getOperand(0)));
                        if (isa<InsertValueInst>(I)) p.a.push_back(opd(I.getOperand(1)));
                        break; }
                    default:
                        for (Value* V : I.operands()) p.a.push_back(opd(V));
                        if (I.getNumOperands()) p.sw = widthOf(I.getOperand(0)->getType());
                }
                f->code.push_back(std::move(p));
            }
        }
    }

    // ---------- values ----------
    E ex(const Val& v, unsigned w) { return v.e ? v.e : C.cst(v.c, w); }
    Val mk(E e) {
        Val v;
        if (e->isConst() && e->w <= 64) v.c = e->v;
        else v.e = e;
        return v;
    }
    static Val k(u64 c) { Val v; v.c = c; return v; }
    Val get(Frame& fr, const Opd& o, u32 i = 0) {
        if (o.slot >= 0) return fr.r[o.slot + i];
        return o.cvs ? (*o.cvs)[i] : o.cv;
    }
    E simp(State& s, E e) {
        if (!s.sub || !(e->bloom & s.sub->bloom)) return e;
        return C.subst(e, s.sub->m, s.sub->x, s.sub->bloom, s.sub->memo);
    }
    Val simp(State& s, Val v) {
        if (!v.e) return v;
        return mk(simp(s, v.e));
    }
    // v = c learned from constraint e
    void learn(State& s, E e) {
        if (e->op == AND && e->w == 1) { learn(s, e->a[0]); learn(s, e->a[1]); return; }
        u32 var = 0; u64 val = 0;
        E x, comp = nullptr;
        if (e->op == VAR) { var = e->v; val = 1; }
        else if (Ctx::isNot(e, x) && x->op == VAR) { var = x->v; val = 0; }
        else if (e->op == EQ && (e->a[1]->isConst() || e->a[0]->isConst())) {
            E a = e->a[0], b = e->a[1];
            if (a->isConst()) std::swap(a, b);
            if (a->w > 64) return;
            u64 c = b->v;
            for (;;) {
                if (a->op == VAR) { var = a->v; val = c; break; }
                if (a->op == ADD && a->a[1]->isConst()) { c = (c - a->a[1]->v) & maskw(a->w); a = a->a[0]; continue; }
                if (a->op == SUB && a->a[0]->isConst()) { c = (a->a[0]->v - c) & maskw(a->w); a = a->a[1]; continue; }
                if (a->op == XOR && a->a[1]->isConst()) { c ^= a->a[1]->v; a = a->a[0]; continue; }
                if (a->op == ZEXT || a->op == SEXT) { a = a->a[0]; c &= maskw(a->w); continue; }
                if (a->op == CONCAT) {
                    unsigned lw = a->a[1]->w;
                    learn(s, C.cmpE(EQ, a->a[1], C.cst(c, lw)));
                    learn(s, C.cmpE(EQ, a->a[0], C.cst(c >> lw, a->a[0]->w)));
                    return;
                }
                if (a->isConst() || a->w == 1) return;
                comp = a;
                val = c;
                break;
            }
        } else return;
        auto n = std::make_shared<Subst>();
        if (s.sub) { n->m = s.sub->m; n->x = s.sub->x; n->bloom = s.sub->bloom; }
        if (comp) { n->x[comp] = val; n->bloom |= comp->bloom; }
        else { n->m[var] = val; n->bloom |= 1ULL << (var % 64); }
        s.sub = n;
    }
    void addPC(State& s, E e) {
        if (e->isConst()) return;
        if (e->op == AND && e->w == 1) { addPC(s, e->a[0]); addPC(s, e->a[1]); return; }
        s.pc.push_back(e);
        learn(s, e);
    }

    // ---------- state management ----------
    State* cloneState(State& s) {
        State* n = new State(s);
        n->id = ++nStates;
        forks++;
        return n;
    }
    void kill(State& s) { s.st.clear(); }
    std::string where(State& s) {
        std::string r;
        for (size_t i = s.st.size(); i-- > 0;) {
            Frame& fr = s.st[i];
            if (fr.pc >= fr.f->code.size()) continue;
            Instruction* I = fr.f->code[fr.pc].I;
            r += demangle(fr.f->name);
            const DILocation* loc = I->getDebugLoc();
            if (loc) {
                for (const DILocation* l = loc; l; l = l->getInlinedAt())
                    r += " @" + l->getFilename().str() + ":" + std::to_string(l->getLine());
            }
            r += "\n";
            if (s.st.size() - i > 14) break;
        }
        return r;
    }
    std::string inputsJson(State& s, const Ctx::Model& m) {
        std::string j = "[";
        C.newEval();
        bool first = true;
        for (auto& in : s.inputs) {
            if (!first) j += ",";
            first = false;
            j += "[" + jstr(in.name) + "," + std::to_string(in.w) + ",\"" + std::to_string(C.eval(in.e, m)) + "\"]";
        }
        return j + "]";
    }
    std::string obsJson(State& s, const Ctx::Model& m) {
        std::string j = "[";
        C.newEval();
        for (size_t i = 0; i < s.obs.size(); i++) {
            if (i) j += ",";
            u64 v = s.obs[i].first ? C.eval(s.obs[i].first, m) : s.obs[i].second;
            j += "\"" + std::to_string(v) + "\"";
        }
        return j + "]";
    }
    bool usesUninit(E e) {
        for (u32 v : C.varsOf(e)) if (C.vars[v].uninit) return true;
        return false;
    }
    void violation(State& s, const std::string& kind, const std::string& msg, const Ctx::Model* m = nullptr) {
        Violation v;
        v.kind = kind;
        v.msg = msg;
        v.stack = where(s);
        const Ctx::Model& mm = m ? *m : s.model;
        v.json = "{\"kind\":" + jstr(kind) + ",\"msg\":" + jstr(msg) + ",\"stack\":" + jstr(v.stack) + ",\"inputs\":" + inputsJson(s, mm) + ",\"obs\":" + obsJson(s, mm) + "}";
        viol.push_back(v);
        kill(s);
    }
    void inc(State& s, const std::string& why) {
        std::string w = why;
        if (!s.st.empty()) { std::string x = where(s); w += " at " + x.substr(0, x.find('\n')); }
        incomplete[w]++;
        kill(s);
    }

    // Decide a condition: returns 1/0 when only one side is feasible or after forking (clone gets the other side).
    // 'clone' receives the state for the false side when both are feasible (caller continues as true side).
    // Returns: 0 false only, 1 true only, 2 both (s is constrained true, *other false), 3 dead/unknown.
    int fork(State& s, E c, State** other) {
        c = simp(s, c);
        if (c->isConst()) return c->v ? 1 : 0;
        C.newEval();
        bool mv = C.eval(c, s.model);
        Ctx::Model om;
        E opp = mv ? C.notb(c) : c;
        ks::Res r = S->check(s.pc, opp, s.model, &om);
        if (r == UNKNOWN) { inc(s, "solver unknown"); return 3; }
        if (r == UNSAT) return mv ? 1 : 0;
        State* n = cloneState(s);
        *other = n;
        if (mv) n->model = om; else s.model = om;
        addPC(s, c);
        addPC(*n, C.notb(c));
        return 2;
    }
    // restrict to c; returns false when infeasible (state killed by caller's wish)
    bool restrictTo(State& s, E c) {
        c = simp(s, c);
        if (c->isConst()) return c->v;
        Ctx::Model m;
        ks::Res r = S->check(s.pc, c, s.model, &m);
        if (r == UNKNOWN) { inc(s, "solver unknown"); return false; }
        if (r == UNSAT) return false;
        s.model = m;
        addPC(s, c);
        return true;
    }
    // Can c be true?  -1 unknown
    int may(State& s, E c, Ctx::Model* m = nullptr) {
        c = simp(s, c);
        if (c->isConst()) { if (m) *m = s.model; return c->v; }
        Ctx::Model mm;
        ks::Res r = S->check(s.pc, c, s.model, m ? m : &mm);
        return r == SAT ? 1 : r == UNSAT ? 0 : -1;
    }
    // Make v concrete in s, forking off the other values (they re-execute the instruction).
    bool conc(State& s, Val v, u64& out) {
        v = simp(s, v);
        if (!v.e) { out = v.c; return true; }
        C.newEval();
        u64 x = C.eval(v.e, s.model);
        State* o = nullptr;
        E c = C.cmpE(EQ, v.e, C.cst(x, v.e->w));
        int r = fork(s, c, &o);
        if (r == 3) return false;
        if (r == 2) {
            o->concDepth++;
            if (o->concDepth > maxConc) { inc(*o, "too many values to concretise"); delete o; }
            else work.push_back(o);
        }
        s.concDepth = 0;
        out = x;
        return true;
    }

    // ---------- memory ----------
    Val loadBytes(State& s, int oi, u64 off, unsigned bits) {
        Obj* o = s.mem.v[oi].o;
        unsigned n = (bits + 7) / 8;
        if (n <= 8) {
            // fast concrete path
            u64 r = 0;
            bool sym = false;
            if (off / CH == (off + n - 1) / CH && off + n <= o->size) {
                Chunk* c = o->ch[off / CH];
                if (!c) { if (!o->zero) sym = true; }
                else if (!c->sym) { memcpy(&r, c->d + off % CH, n); }
                else {
                    for (unsigned i = 0; i < n; i++) if (c->sym[off % CH + i]) { sym = true; break; }
                    if (!sym) memcpy(&r, c->d + off % CH, n);
                }
            } else sym = true;
            if (!sym) return k(r & maskw(bits));
        }
        E e = nullptr;
        E run = nullptr; unsigned rlo = 0, rlen = 0;   // consecutive bytes of one stored value
        auto flush = [&] {
            if (!run) return;
            E x = C.extract(run, rlo, rlen);
            e = e ? C.concat(x, e) : x;
            run = nullptr;
        };
        for (unsigned i = 0; i < n; i++) {
            u8 d = 0; E se = nullptr;
            if (off + i < o->size) o->get(off + i, d, se);
            else se = UNINIT;  // slack read
            if (se == UNINIT) {
                se = C.var("uninit#" + std::to_string(s.uninitSeq++), 8, true);
                if (off + i < o->size && !o->ro) { Obj* wo = s.mem.wr(oi); wo->put(off + i, 0, se); o = wo; }
            }
            if (se && se->op == EXTRACT) {
                if (run == se->a[0] && rlo + rlen == se->lo) { rlen += 8; continue; }
                flush();
                run = se->a[0]; rlo = se->lo; rlen = 8;
                continue;
            }
            flush();
            E b = se ? se : C.cst(d, 8);
            e = e ? C.concat(b, e) : b;
        }
        flush();
        if (e->w > bits) e = C.extract(e, 0, bits);
        return mk(simp(s, e));
    }
    void storeBytes(State& s, int oi, u64 off, unsigned bits, Val v) {
        Obj* o = s.mem.wr(oi);
        unsigned n = (bits + 7) / 8;
        if (!v.e) {
            if (off / CH == (off + n - 1) / CH) {
                Chunk* c = o->wr(off / CH);
                memcpy(c->d + off % CH, &v.c, n);
                if (c->sym && c->nsym) for (unsigned i = 0; i < n; i++) c->setSym(off % CH + i, nullptr);
            } else for (unsigned i = 0; i < n; i++) o->put(off + i, (u8)(v.c >> (8 * i)), nullptr);
            return;
        }
        E e = v.e;
        if (e->w < n * 8) e = C.zext(e, n * 8);
        for (unsigned i = 0; i < n; i++) {
            E b = C.extract(e, 8 * i, 8);
            if (b->isConst()) o->put(off + i, (u8)b->v, nullptr);
            else o->put(off + i, 0, e->w > 8 ? C.rawByte(e, 8 * i) : b);
        }
    }
    std::string descr(State& s, u64 a, u64 n) {
        char b[256];
        if (a < 4096) { snprintf(b, sizeof b, "null pointer dereference (address 0x%llx, %llu bytes)", (unsigned long long)a, (unsigned long long)n); return b; }
        size_t i = s.mem.upper(a);
        std::string near;
        if (i > 0) {
            Obj* o = s.mem.v[i - 1].o;
            if (a - o->base < o->size + 4096) {
                static const char* kn[] = {"stack", "malloc", "new", "new[]", "global", "exception", "external"};
                snprintf(b, sizeof b, "; nearest object below: %s object of %llu bytes, offset %llu", kn[o->kind], (unsigned long long)o->size, (unsigned long long)(a - o->base));
                near = b;
            }
        }
        snprintf(b, sizeof b, "access of %llu bytes outside any live object (out of bounds or freed memory)", (unsigned long long)n);
        return b + near;
    }
    // Resolve [addr, addr+n) to an object for access. Returns object index, or -1 (state killed / re-executing).
    static unsigned lowZeros(E e) {   // how many low bits are known to be 0
        switch (e->op) {
            case CONST: return e->w > 64 ? 0 : e->v ? __builtin_ctzll(e->v) : e->w;
            case SHL: return e->a[1]->isConst() ? std::min<u64>(e->w, lowZeros(e->a[0]) + e->a[1]->v) : 0;
            case MUL: return std::min<unsigned>(e->w, lowZeros(e->a[0]) + lowZeros(e->a[1]));
            case ADD: case SUB: return std::min(lowZeros(e->a[0]), lowZeros(e->a[1]));
            case CONCAT: { unsigned z = lowZeros(e->a[1]); return z < e->a[1]->w ? z : z + lowZeros(e->a[0]); }
            case ZEXT: case SEXT: { unsigned z = lowZeros(e->a[0]); return z < e->a[0]->w ? z : e->w; }
            default: return 0;
        }
    }
    // memory allocated (or taken over) by one thread of the harness may not be touched by another
    bool foreign(State& s, int i) {
        Obj* o = s.mem.v[i].o;
        if (!s.tid || !o->owner || o->owner == s.tid) return false;
        violation(s, "thread", "thread " + std::to_string(s.tid) + " uses memory that belongs to thread " + std::to_string(o->owner));
        return true;
    }
    int resolve(State& s, Val& addr, u64 n, bool write, bool allowSym = false) {
        int i = resolve0(s, addr, n, write, allowSym);
        return i >= 0 && foreign(s, i) ? -1 : i;
    }
    int resolve0(State& s, Val& addr, u64 n, bool write, bool allowSym) {
        memChecks++;
        addr = simp(s, addr);
        if (!addr.e) {
            int i = s.mem.find(addr.c);
            if (i >= 0) {
                Obj* o = s.mem.v[i].o;
                u64 off = addr.c - o->base;
                if (off + n <= o->size && off + n >= off) {
                    if (write && o->ro) { violation(s, "memory", "write to read-only object"); return -1; }
                    return i;
                }
                if (!write && wordSlack && (o->kind == K_MALLOC || o->kind == K_STACK || o->kind == K_NEW || o->kind == K_NEWARR || o->kind == K_GLOBAL) && n <= 8 && addr.c % 8 == 0 && off + n <= ((o->size + 7) & ~7ULL)) return i;
            }
            violation(s, "memory", std::string(write ? "write: " : "read: ") + descr(s, addr.c, n));
            return -1;
        }
        C.newEval();
        u64 a0 = C.eval(addr.e, s.model);
        int i = s.mem.find(a0);
        if (i < 0) {  // the model's address is invalid: report it
            violation(s, "memory", std::string(write ? "write: " : "read: ") + descr(s, a0, n));
            return -1;
        }
        Obj* o = s.mem.v[i].o;
        E off = C.bin(SUB, addr.e, C.cst(o->base, 64));
        if (o->size < n) { violation(s, "memory", "access larger than object"); return -1; }
        E inb = C.cmpE(ULE, off, C.cst(o->size - n, 64));
        State* other = nullptr;
        int r = fork(s, inb, &other);
        if (r == 3) return -1;
        if (r == 2) work.push_back(other);
        if (r == 0) { violation(s, "memory", std::string(write ? "write: " : "read: ") + descr(s, a0, n)); return -1; }
        addr = simp(s, addr);
        if (allowSym && addr.e) return i;
        u64 c;
        if (!conc(s, addr, c)) return -1;
        addr = k(c);
        if (write && o->ro) { violation(s, "memory", "write to read-only object"); return -1; }
        return s.mem.find(c);
    }
    Val readMem(State& s, u64 addr, unsigned bits, bool& ok) {
        Val a = k(addr);
        int i = resolve(s, a, (bits + 7) / 8, false);
        ok = i >= 0;
        if (!ok) return Val();
        return loadBytes(s, i, a.c - s.mem.v[i].o->base, bits);
    }
    void writeMem(State& s, u64 addr, unsigned bits, Val v) {
        int i = s.mem.find(addr);
        if (i >= 0) storeBytes(s, i, addr - s.mem.v[i].o->base, bits, v);
    }
    u64 allocObj(State& s, Kind kd, u64 size, u64 align) {
        u64 a;
        if (kd == K_STACK) {
            a = (s.stackNext + align - 1) / align * align;
            s.stackNext = a + size + 64;
        } else {
            // like glibc: 16 byte alignment, deliberately not more
            a = (s.heapNext + 64 + 31) / 32 * 32 + 16;
            if (align > 16) a = (a + align - 1) / align * align;
            s.heapNext = a + size + 64;
            if (size > 4096) s.heapNext += size / 4;
        }
        Obj* o = new Obj(kd, a, size);
        s.mem.add(o);
        if (kd == K_MALLOC || kd == K_NEW || kd == K_NEWARR) { o->owner = s.tid; s.heapLive++; s.heapBytes += size; }
        return a;
    }
    bool freeObj(State& s, u64 a, Kind kd, const char* what) {
        int i = s.mem.findBase(a);
        if (i < 0) {
            int j = s.mem.find(a);
            violation(s, "memory", std::string(what) + (j >= 0 ? " of a pointer inside an object" : " of memory that is not allocated (double free or wild pointer)"));
            return false;
        }
        Obj* o = s.mem.v[i].o;
        if (o->kind != kd) {
            violation(s, "memory", std::string(what) + " of an object not allocated that way");
            return false;
        }
        if (foreign(s, i)) return false;
        s.heapLive--;
        s.heapBytes -= o->size;
        s.mem.erase(i);
        return true;
    }

    // ---------- control ----------
    Frame& top(State& s) { return s.st.back(); }
    void doEdge(State& s, const Edge& e) {
        Frame& fr = top(s);
        if (!e.copies.empty()) {
            Val tmp[64];
            std::vector<Val> big;
            u32 tot = 0;
            for (auto& c : e.copies) tot += c.n;
            Val* t = tmp;
            if (tot > 64) { big.resize(tot); t = big.data(); }
            u32 x = 0;
            for (auto& c : e.copies) for (u32 i = 0; i < c.n; i++) t[x++] = get(fr, c.src, i);
            x = 0;
            for (auto& c : e.copies) for (u32 i = 0; i < c.n; i++) fr.r[c.dst + i] = t[x++];
        }
        fr.pc = fr.f->blockStart[e.target];
    }
    bool pushCall(State& s, Fn* f, std::vector<Val>& flat, size_t nfixed) {
        if (!f->ready) prepare(f);
        if (s.st.size() > 400) { violation(s, "nontermination", "call depth exceeds 400"); return false; }
        f->calls++;
        s.st.emplace_back();
        Frame& fr = s.st.back();
        fr.f = f;
        fr.r.resize(f->nslots);
        u32 need = 0;
        for (u32 n : f->argN) need += n;
        for (u32 i = 0; i < need && i < flat.size(); i++) fr.r[i] = flat[i];
        (void)nfixed;
        if (f->F->isVarArg()) for (size_t i = need; i < flat.size(); i++) fr.varargs.push_back(flat[i]);
        fr.pc = f->blockStart[0];
        return true;
    }
    void popFrame(State& s) {
        Frame& fr = top(s);
        for (u64 a : fr.allocas) { int i = s.mem.findBase(a); if (i >= 0) s.mem.erase(i); }
        s.st.pop_back();
    }
    // finish the call instruction in the top frame (result already stored)
    void finishCall(State& s) {
        Frame& fr = top(s);
        PInst& p = fr.f->code[fr.pc];
        if (p.op == Instruction::Invoke) doEdge(s, p.edges[0]);
        else fr.pc++;
    }
    State::Exc* findExc(State& s, u64 obj) {
        for (auto& e : s.exc) if (e.obj == obj) return &e;
        return nullptr;
    }
    // propagate exception 'obj': top frame's current instruction is the raising call
    void unwind(State& s, u64 obj) {
        State::Exc* x = findExc(s, obj);
        u64 ti = x ? x->ti : 0;
        while (!s.st.empty()) {
            Frame& fr = top(s);
            PInst& p = fr.f->code[fr.pc];
            if (p.op == Instruction::Invoke) {
                auto* IV = cast<InvokeInst>(p.I);
                LandingPadInst* LP = IV->getUnwindDest()->getLandingPadInst();
                int sel = -1;
                bool take = LP->isCleanup();
                for (unsigned i = 0; i < LP->getNumClauses() && sel < 0; i++) {
                    if (LP->isCatch(i)) {
                        std::vector<Val> v;
                        evalConst(LP->getClause(i), v);
                        u64 ct = v[0].c;
                        if (ct == 0) { sel = idOf(0); take = true; }
                        else if (ti && tiDerives(ti, ct)) { sel = idOf(ct); take = true; }
                    } else {
                        // filter: matches when the exception is not in the list
                        bool in = false;
                        std::vector<Val> v;
                        evalConst(LP->getClause(i), v);
                        for (auto& q : v) if (q.c == 0 || tiDerives(ti, q.c)) in = true;
                        if (!in) { sel = 100000; take = true; }
                    }
                }
                if (take) {
                    doEdge(s, p.edges[1]);
                    Frame& f2 = top(s);
                    // the landingpad is the first non-phi instruction
                    PInst& lp = f2.f->code[f2.pc];
                    if (lp.op != Instruction::LandingPad) fatal("landing pad expected");
                    f2.r[lp.dst] = k(obj);
                    f2.r[lp.dst + 1] = k(sel < 0 ? 0 : sel == 100000 ? (u64)(u32)-1 : sel);
                    f2.pc++;
                    return;
                }
            }
            if (s.st.size() == 1) break;
            popFrame(s);
        }
        violation(s, "terminate", "uncaught exception " + demangle(tiName.count(ti) ? tiName[ti].substr(0) : "?"));
    }
    u32 idOf(u64 ti) {
        auto it = typeId.find(ti);
        if (it != typeId.end()) return it->second;
        u32 n = typeId.size() + 1;
        typeId[ti] = n;
        return n;
    }
    bool raise(State& s, const char* tiSym) {
        u64 o = allocObj(s, K_EXC, 32, 16);
        s.mem.v[s.mem.findBase(o)].o->zero = true;
        s.exc.push_back({o, typeinfoOf(tiSym), 0, 0});
        unwind(s, o);
        return false;
    }
    void setRes(State& s, PInst& p, Val v, u32 i = 0) { if (p.dst >= 0) top(s).r[p.dst + i] = v; }

    bool branchOn(State& s, PInst& p, E c) {
        State* o = nullptr;
        int r = fork(s, c, &o);
        if (r == 3) return false;
        if (r == 2) {
            doEdge(*o, p.edges[1]);
            work.push_back(o);
            doEdge(s, p.edges[0]);
        } else doEdge(s, p.edges[r == 1 ? 0 : 1]);
        return true;
    }

    Val cmpV(unsigned pred, Val a, Val b, unsigned w) {
        bool neg = false;
        ks::Op op;
        bool sw = false;
        switch (pred) {
            case CmpInst::ICMP_EQ: op = EQ; break;
            case CmpInst::ICMP_NE: op = EQ; neg = true; break;
            case CmpInst::ICMP_ULT: op = ULT; break;
            case CmpInst::ICMP_ULE: op = ULE; break;
            case CmpInst::ICMP_UGT: op = ULT; sw = true; break;
            case CmpInst::ICMP_UGE: op = ULE; sw = true; break;
            case CmpInst::ICMP_SLT: op = SLT; break;
            case CmpInst::ICMP_SLE: op = SLE; break;
            case CmpInst::ICMP_SGT: op = SLT; sw = true; break;
            case CmpInst::ICMP_SGE: op = SLE; sw = true; break;
            default: fatal("icmp pred");
        }
        if (sw) std::swap(a, b);
        if (!a.e && !b.e) return k(Ctx::cmp(op, a.c, b.c, w) != neg);
        E e = C.cmpE(op, ex(a, w), ex(b, w));
        if (neg) e = C.notb(e);
        return mk(e);
    }
    Val binV(ks::Op op, Val a, Val b, unsigned w) {
        if (!a.e && !b.e) return k(Ctx::fold(op, a.c, b.c, w));
        return mk(C.bin(op, ex(a, w), ex(b, w)));
    }
    Val castV(unsigned op, Val a, unsigned sw, unsigned w) {
        switch (op) {
            case Instruction::Trunc: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::ZExt:
                if (!a.e && w <= 64) return k(a.c & maskw(w) & maskw(sw));
                if (w < sw) return mk(C.extract(ex(a, sw), 0, w));
                return mk(C.zext(ex(a, sw), w));
            case Instruction::SExt:
                if (!a.e && w <= 64) return k((u64)sextw(a.c, sw) & maskw(w));
                return mk(C.sext(ex(a, sw), w));
            default: fatal("cast");
        }
    }
    static double toD(u64 c, unsigned w) {
        if (w == 32) { float f; u32 x = (u32)c; memcpy(&f, &x, 4); return f; }
        double d; memcpy(&d, &c, 8); return d;
    }
    static u64 fromD(double d, unsigned w) {
        if (w == 32) { float f = (float)d; u32 x; memcpy(&x, &f, 4); return x; }
        u64 c; memcpy(&c, &d, 8); return c;
    }

    // one instruction; returns false when s is dead or control was transferred elsewhere (s re-examined by the loop)
    void step(State& s) {
        Frame& fr = top(s);
        PInst& p = fr.f->code[fr.pc];
        instrs++;
        s.steps++;
        p.seen = true;
        switch (p.op) {
            case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor:
            case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
                static const std::map<unsigned, ks::Op> mp = {};
                ks::Op o;
                switch (p.op) {
                    case Instruction::Add: o = ADD; break;
                    case Instruction::Sub: o = SUB; break;
                    case Instruction::Mul: o = MUL; break;
                    case Instruction::And: o = AND; break;
                    case Instruction::Or: o = OR; break;
                    case Instruction::Xor: o = XOR; break;
                    case Instruction::Shl: o = SHL; break;
                    case Instruction::LShr: o = LSHR; break;
                    default: o = ASHR; break;
                }
                for (u32 i = 0; i < p.n; i++) fr.r[p.dst + i] = binV(o, get(fr, p.a[0], i), get(fr, p.a[1], i), p.w);
                fr.pc++;
                return; }
            case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
                ks::Op o = p.op == Instruction::UDiv ? UDIV : p.op == Instruction::SDiv ? SDIV : p.op == Instruction::URem ? UREM : SREM;
                for (u32 i = 0; i < p.n; i++) {
                    Val b = simp(s, get(fr, p.a[1], i));
                    if (!b.e) { if (b.c == 0) { violation(s, "arith", "division by zero"); return; } }
                    else {
                        E z = C.cmpE(EQ, b.e, C.cst(0, p.w));
                        Ctx::Model m;
                        int r = may(s, z, &m);
                        if (r < 0) { inc(s, "solver unknown"); return; }
                        if (r == 1) {
                            State* o2 = nullptr;
                            int q = fork(s, z, &o2);
                            if (q == 2) work.push_back(o2);
                            if (q != 3) violation(s, "arith", "division by zero");
                            return;
                        }
                    }
                    Frame& f2 = top(s);
                    f2.r[p.dst + i] = binV(o, simp(s, get(f2, p.a[0], i)), b, p.w);
                }
                top(s).pc++;
                return; }
            case Instruction::ICmp: {
                unsigned pred = cast<ICmpInst>(p.I)->getPredicate();
                for (u32 i = 0; i < p.n; i++) fr.r[p.dst + i] = cmpV(pred, get(fr, p.a[0], i), get(fr, p.a[1], i), p.sw);
                fr.pc++;
                return; }
            case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: case Instruction::PtrToInt: case Instruction::IntToPtr:
                for (u32 i = 0; i < p.n; i++) fr.r[p.dst + i] = castV(p.op, get(fr, p.a[0], i), p.sw, p.w);
                fr.pc++;
                return;
            case Instruction::Freeze: case Instruction::AddrSpaceCast:
                for (u32 i = 0; i < p.n; i++) fr.r[p.dst + i] = get(fr, p.a[0], i);
                fr.pc++;
                return;
            case Instruction::BitCast: {
                u32 n0 = p.a[0].n;
                if (n0 == p.n) for (u32 i = 0; i < p.n; i++) fr.r[p.dst + i] = get(fr, p.a[0], i);
                else {
                    E e = nullptr;
                    for (u32 i = 0; i < n0; i++) { E x = ex(get(fr, p.a[0], i), p.sw); e = e ? C.concat(x, e) : x; }
                    for (u32 i = 0; i < p.n; i++) fr.r[p.dst + i] = mk(C.extract(e, i * p.w, p.w));
                }
                fr.pc++;
                return; }
            case Instruction::Select: {
                bool vec = p.a[0].n > 1;
                for (u32 i = 0; i < p.n; i++) {
                    Val c = get(fr, p.a[0], vec ? i : 0);
                    Val t = get(fr, p.a[1], i), f = get(fr, p.a[2], i);
                    if (c.e) c = simp(s, c);
                    if (!c.e) fr.r[p.dst + i] = c.c & 1 ? t : f;
                    else {
                        unsigned w = p.w;
                        if (!w) { std::vector<std::pair<u32, u32>> l; leavesOf(p.I->getType(), 0, l); w = l[i].second; }
                        fr.r[p.dst + i] = mk(C.ite(c.e, ex(t, w), ex(f, w)));
                    }
                }
                fr.pc++;
                return; }
            case Instruction::GetElementPtr: {
                Val b = get(fr, p.a[0]);
                u64 off = p.off;
                E acc = nullptr;
                for (size_t i = 0; i < p.idx.size(); i++) {
                    Val x = get(fr, p.idx[i].first);
                    if (!x.e) off += (u64)(sextw(x.c, p.idxw[i]) * p.idx[i].second);
                    else {
                        E e = C.bin(MUL, C.sext(x.e, 64), C.cst((u64)p.idx[i].second, 64));
                        acc = acc ? C.bin(ADD, acc, e) : e;
                    }
                }
                if (!acc && !b.e) fr.r[p.dst] = k(b.c + off);
                else {
                    E e = ex(b, 64);
                    if (acc) e = C.bin(ADD, e, acc);
                    fr.r[p.dst] = mk(C.bin(ADD, e, C.cst(off, 64)));
                }
                fr.pc++;
                return; }
            case Instruction::Load: {
                Val a = get(fr, p.a[0]);
                u64 n = p.leaves.empty() ? 0 : p.leaves.back().first + (p.leaves.back().second + 7) / 8;
                bool scalar = p.leaves.size() == 1 && p.leaves[0].second <= 64;
                int oi = resolve(s, a, n, false, scalar);
                if (oi < 0) return;
                Frame& f2 = top(s);
                if (a.e) {  // symbolic offset inside object oi
                    Obj* o = s.mem.v[oi].o;
                    E off = C.bin(SUB, a.e, C.cst(o->base, 64));
                    u64 lo = off->umin, hi = std::min(off->umax, o->size - n);
                    u64 step = 1ULL << std::min(lowZeros(off), 6u);
                    lo = (lo + step - 1) / step * step;
                    if (hi < lo || (hi - lo) / step > 300) {
                        u64 c;
                        if (!conc(s, a, c)) return;
                        a = k(c);
                        oi = s.mem.find(c);
                    } else {
                    unsigned bits = p.leaves[0].second;
                    std::vector<E> vs;   // one value per place, the most frequent one is the default
                    std::map<E, unsigned> count;
                    for (u64 q = lo; q <= hi; q += step) { vs.push_back(ex(loadBytes(s, oi, q, bits), bits)); count[vs.back()]++; }
                    E r = vs[0];
                    for (E v : vs) if (count[v] > count[r]) r = v;
                    E base = r;
                    for (size_t i = vs.size(); i-- > 0;)
                        if (vs[i] != base) r = C.ite(C.cmpE(EQ, off, C.cst(lo + i * step, 64)), vs[i], r);
                    top(s).r[p.dst] = mk(r);
                    top(s).pc++;
                    return;
                    }
                }
                if (a.c % p.align) { violation(s, "alignment", "load of type requiring alignment " + std::to_string(p.align) + " from misaligned address"); return; }
                u64 base = s.mem.v[oi].o->base;
                for (size_t i = 0; i < p.leaves.size(); i++) f2.r[p.dst + i] = loadBytes(s, oi, a.c - base + p.leaves[i].first, p.leaves[i].second);
                f2.pc++;
                return; }
            case Instruction::Store: {
                Val a = get(fr, p.a[0]);
                u64 n = p.leaves.empty() ? 0 : p.leaves.back().first + (p.leaves.back().second + 7) / 8;
                int oi = resolve(s, a, n, true);
                if (oi < 0) return;
                if (a.c % p.align) { violation(s, "alignment", "store of type requiring alignment " + std::to_string(p.align) + " to misaligned address"); return; }
                Frame& f2 = top(s);
                u64 base = s.mem.v[oi].o->base;
                for (size_t i = 0; i < p.leaves.size(); i++) storeBytes(s, oi, a.c - base + p.leaves[i].first, p.leaves[i].second, get(f2, p.a[1], i));
                f2.pc++;
                return; }
            case Instruction::Alloca: {
                u64 cnt;
                if (!conc(s, get(fr, p.a[0]), cnt)) return;
                u64 a = allocObj(s, K_STACK, p.off * cnt, std::max<u64>(p.align, 16));
                Frame& f2 = top(s);
                f2.allocas.push_back(a);
                f2.r[p.dst] = k(a);
                f2.pc++;
                return; }
            case Instruction::Br: {
                if (p.a.empty()) { doEdge(s, p.edges[0]); return; }
                Val c = get(fr, p.a[0]);
                if (!c.e) { doEdge(s, p.edges[c.c & 1 ? 0 : 1]); return; }
                branchOn(s, p, c.e);
                return; }
            case Instruction::Switch: {
                Val v = simp(s, get(fr, p.a[0]));
                if (!v.e) {
                    for (auto& c : p.cases) if (c.first == v.c) { doEdge(s, p.edges[c.second]); return; }
                    doEdge(s, p.edges[0]);
                    return;
                }
                // fork on each distinct case
                E rest = C.tru();
                for (auto& c : p.cases) {
                    E eq = C.cmpE(EQ, v.e, C.cst(c.first, p.sw));
                    State* o = nullptr;
                    int r = fork(s, eq, &o);
                    if (r == 3) return;
                    if (r == 1) { doEdge(s, p.edges[c.second]); return; }
                    if (r == 2) {
                        // s is constrained to this case; continue the rest in o
                        doEdge(s, p.edges[c.second]);
                        work.push_back(o);  // o re-executes the switch with this case excluded
                        return;
                    }
                }
                (void)rest;
                doEdge(s, p.edges[0]);
                return; }
            case Instruction::Ret: {
                std::vector<Val> rv;
                if (!p.a.empty()) for (u32 i = 0; i < p.a[0].n; i++) rv.push_back(get(fr, p.a[0], i));
                popFrame(s);
                if (s.st.empty()) return;
                Frame& c = top(s);
                PInst& ci = c.f->code[c.pc];
                if (ci.op != Instruction::Call && ci.op != Instruction::Invoke) { return; }
                if (ci.dst >= 0) for (u32 i = 0; i < ci.n && i < rv.size(); i++) c.r[ci.dst + i] = rv[i];
                finishCall(s);
                return; }
            case Instruction::Unreachable: violation(s, "unreachable", "control reached code the compiler was told is unreachable"); return;
            case Instruction::ExtractValue:
                for (u32 i = 0; i < p.n; i++) fr.r[p.dst + i] = get(fr, p.a[0], p.aux + i);
                fr.pc++;
                return;
            case Instruction::InsertValue: {
                std::vector<Val> t;
                for (u32 i = 0; i < p.n; i++) t.push_back(get(fr, p.a[0], i));
                for (u32 i = 0; i < p.a[1].n; i++) t[p.aux + i] = get(fr, p.a[1], i);
                for (u32 i = 0; i < p.n; i++) fr.r[p.dst + i] = t[i];
                fr.pc++;
                return; }
            case Instruction::ExtractElement: {
                u64 ix;
                if (!conc(s, get(fr, p.a[1]), ix)) return;
                Frame& f2 = top(s);
                f2.r[p.dst] = ix < p.a[0].n ? get(f2, p.a[0], ix) : Val();
                f2.pc++;
                return; }
            case Instruction::InsertElement: {
                u64 ix;
                if (!conc(s, get(fr, p.a[2]), ix)) return;
                Frame& f2 = top(s);
                std::vector<Val> t;
                for (u32 i = 0; i < p.n; i++) t.push_back(get(f2, p.a[0], i));
                if (ix < p.n) t[ix] = get(f2, p.a[1]);
                for (u32 i = 0; i < p.n; i++) f2.r[p.dst + i] = t[i];
                f2.pc++;
                return; }
            case Instruction::ShuffleVector: {
                auto* SV = cast<ShuffleVectorInst>(p.I);
                u32 n0 = p.a[0].n;
                std::vector<Val> t;
                for (u32 i = 0; i < p.n; i++) {
                    int m = SV->getMaskValue(i);
                    t.push_back(m < 0 ? Val() : (u32)m < n0 ? get(fr, p.a[0], m) : get(fr, p.a[1], m - n0));
                }
                for (u32 i = 0; i < p.n; i++) fr.r[p.dst + i] = t[i];
                fr.pc++;
                return; }
            case Instruction::LandingPad: fatal("landingpad executed");
            case Instruction::Resume: {
                u64 obj;
                if (!conc(s, get(fr, p.a[0], 0), obj)) return;
                if (s.st.size() == 1) { violation(s, "terminate", "uncaught exception"); return; }
                popFrame(s);
                unwind(s, obj);
                return; }
            case Instruction::Fence: fr.pc++; return;
            case Instruction::AtomicRMW: {
                auto* A = cast<AtomicRMWInst>(p.I);
                unsigned bits = p.w;
                Val a = get(fr, p.a[0]);
                int oi = resolve(s, a, bits / 8, true);
                if (oi < 0) return;
                Frame& f2 = top(s);
                u64 off = a.c - s.mem.v[oi].o->base;
                Val old = loadBytes(s, oi, off, bits), v = get(f2, p.a[1]), nv;
                switch (A->getOperation()) {
                    case AtomicRMWInst::Add: nv = binV(ADD, old, v, bits); break;
                    case AtomicRMWInst::Sub: nv = binV(SUB, old, v, bits); break;
                    case AtomicRMWInst::Xchg: nv = v; break;
                    case AtomicRMWInst::And: nv = binV(AND, old, v, bits); break;
                    case AtomicRMWInst::Or: nv = binV(OR, old, v, bits); break;
                    case AtomicRMWInst::Xor: nv = binV(XOR, old, v, bits); break;
                    default: inc(s, "atomicrmw op"); return;
                }
                storeBytes(s, oi, off, bits, nv);
                f2.r[p.dst] = old;
                f2.pc++;
                return; }
            case Instruction::AtomicCmpXchg: {
                auto* A = cast<AtomicCmpXchgInst>(p.I);
                unsigned bits = widthOf(A->getNewValOperand()->getType());
                Val a = get(fr, p.a[0]);
                int oi = resolve(s, a, bits / 8, true);
                if (oi < 0) return;
                Frame& f2 = top(s);
                u64 off = a.c - s.mem.v[oi].o->base;
                Val old = loadBytes(s, oi, off, bits);
                Val eq = cmpV(CmpInst::ICMP_EQ, old, get(f2, p.a[1]), bits);
                Val nv = get(f2, p.a[2]);
                if (!eq.e) { if (eq.c) storeBytes(s, oi, off, bits, nv); }
                else storeBytes(s, oi, off, bits, mk(C.ite(eq.e, ex(nv, bits), ex(old, bits))));
                f2.r[p.dst] = old;
                f2.r[p.dst + 1] = eq;
                f2.pc++;
                return; }
            case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: case Instruction::FNeg:
            case Instruction::FCmp: case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::FPToUI: case Instruction::FPToSI:
            case Instruction::UIToFP: case Instruction::SIToFP: floatOp(s, p); return;
            case Instruction::Call: case Instruction::Invoke: call(s, p); return;
            case Instruction::VAArg: inc(s, "va_arg"); return;
            default: inc(s, std::string("unsupported instruction ") + p.I->getOpcodeName()); return;
        }
    }
    void floatOp(State& s, PInst& p) {
        for (u32 i = 0; i < p.n; i++) {
            u64 x[2] = {0, 0};
            for (unsigned q = 0; q < p.a.size() && q < 2; q++) if (!conc(s, get(top(s), p.a[q], i), x[q])) return;
            unsigned sw = p.sw, w = p.w;
            u64 r = 0;
            if (sw > 64 || w > 64) { inc(s, "wide float"); return; }
            switch (p.op) {
                case Instruction::FAdd: r = w == 32 ? fromD((float)toD(x[0], w) + (float)toD(x[1], w), w) : fromD(toD(x[0], w) + toD(x[1], w), w); break;
                case Instruction::FSub: r = w == 32 ? fromD((float)toD(x[0], w) - (float)toD(x[1], w), w) : fromD(toD(x[0], w) - toD(x[1], w), w); break;
                case Instruction::FMul: r = w == 32 ? fromD((float)toD(x[0], w) * (float)toD(x[1], w), w) : fromD(toD(x[0], w) * toD(x[1], w), w); break;
                case Instruction::FDiv: r = w == 32 ? fromD((float)toD(x[0], w) / (float)toD(x[1], w), w) : fromD(toD(x[0], w) / toD(x[1], w), w); break;
                case Instruction::FNeg: r = fromD(-toD(x[0], w), w); break;
                case Instruction::FRem: r = fromD(std::fmod(toD(x[0], w), toD(x[1], w)), w); break;
                case Instruction::FPExt: case Instruction::FPTrunc: r = fromD(toD(x[0], sw), w); break;
                case Instruction::FPToUI: { double d = toD(x[0], sw); r = (u64)d & maskw(w); break; }
                case Instruction::FPToSI: { double d = toD(x[0], sw); r = (u64)(i64)d & maskw(w); break; }
                case Instruction::UIToFP: r = w == 32 ? fromD((float)x[0], 32) : fromD((double)x[0], 64); break;
                case Instruction::SIToFP: r = w == 32 ? fromD((float)sextw(x[0], sw), 32) : fromD((double)sextw(x[0], sw), 64); break;
                case Instruction::FCmp: {
                    double a = toD(x[0], sw), b = toD(x[1], sw);
                    bool un = std::isnan(a) || std::isnan(b);
                    unsigned pr = cast<FCmpInst>(p.I)->getPredicate();
                    r = un ? (pr & 8) != 0 : ((pr & 1) && a == b) || ((pr & 2) && a > b) || ((pr & 4) && a < b);
                    break; }
            }
            top(s).r[p.dst + i] = k(r);
        }
        top(s).pc++;
    }

    void call(State& s, PInst& p) {
        Frame& fr = top(s);
        Fn* f = p.callee;
        size_t nargs = p.argw.size();
        if (p.aux == 1) {  // inline asm: only empty barriers
            auto* IA = cast<InlineAsm>(cast<CallBase>(p.I)->getCalledOperand());
            if (!IA->getAsmString().empty()) { inc(s, "inline asm " + IA->getAsmString()); return; }
            for (u32 i = 0; i < p.n; i++) fr.r[p.dst + i] = nargs ? get(fr, p.a[0], i) : Val();
            finishCall(s);
            return;
        }
        if (!f) {
            u64 a;
            if (!conc(s, get(fr, p.a[nargs]), a)) return;
            auto it = fnAt.find(a);
            if (it == fnAt.end()) { violation(s, "memory", a < 4096 ? "call through a null function pointer" : "call through an invalid function pointer"); return; }
            f = it->second;
        }
        Frame& f2 = top(s);
        std::vector<Val> flat;
        for (size_t i = 0; i < nargs; i++) for (u32 q = 0; q < p.a[i].n; q++) flat.push_back(get(f2, p.a[i], q));
        if (f->h) {
            if (f->h(*this, s, p, flat)) finishCall(s);
            return;
        }
        if (f->decl) {
            if (f->F->isIntrinsic()) { intrinsic(s, p, f, flat); return; }
            external(s, p, f, flat);
            return;
        }
        // byval arguments: copy
        auto* CB = cast<CallBase>(p.I);
        bool byv = false;
        for (unsigned i = 0; i < nargs; i++) if (CB->isByValArgument(i)) byv = true;
        if (byv) {
            size_t q = 0;
            std::vector<u64> made;
            for (unsigned i = 0; i < nargs; i++) {
                if (CB->isByValArgument(i)) {
                    u64 sz = DL->getTypeAllocSize(CB->getParamByValType(i));
                    u64 src;
                    if (!conc(s, flat[q], src)) return;
                    u64 d = allocObj(s, K_STACK, sz, 16);
                    made.push_back(d);
                    if (!copyBytes(s, d, src, sz)) return;
                    flat[q] = k(d);
                }
                q += p.a[i].n;
            }
            if (!pushCall(s, f, flat, nargs)) return;
            for (u64 d : made) top(s).allocas.push_back(d);
            return;
        }
        pushCall(s, f, flat, nargs);
    }

    bool copyBytes(State& s, u64 dst, u64 src, u64 n) {
        if (n == 0) return true;
        Val d = k(dst), r = k(src);
        int ri = resolve(s, r, n, false);
        if (ri < 0) return false;
        int di = resolve(s, d, n, true);
        if (di < 0) return false;
        ri = s.mem.find(src);
        Obj* ro = s.mem.v[ri].o;
        u64 rb = src - ro->base, db = dst - s.mem.v[di].o->base;
        std::vector<u8> b(n);
        std::vector<E> e(n);
        bool anySym = false;
        for (u64 i = 0; i < n; i++) { ro->get(rb + i, b[i], e[i]); if (e[i]) anySym = true; }
        Obj* o = s.mem.wr(di);
        if (!anySym) {
            u64 i = 0;
            while (i < n) {
                u64 off = db + i, c = off / CH, in = off % CH, len = std::min<u64>(CH - in, n - i);
                Chunk* ck = o->wr(c);
                memcpy(ck->d + in, &b[i], len);
                if (ck->nsym) for (u64 q = 0; q < len; q++) ck->setSym(in + q, nullptr);
                i += len;
            }
        } else for (u64 i = 0; i < n; i++) o->put(db + i, b[i], e[i]);
        return true;
    }
    bool fillBytes(State& s, u64 dst, Val v, u64 n) {
        if (n == 0) return true;
        Val d = k(dst);
        int di = resolve(s, d, n, true);
        if (di < 0) return false;
        Obj* o = s.mem.wr(di);
        u64 db = dst - o->base;
        E e = nullptr;
        if (v.e) { e = C.extract(v.e, 0, 8); if (e->isConst()) { v = k(e->v); e = nullptr; } }
        for (u64 i = 0; i < n; i++) o->put(db + i, (u8)v.c, e);
        return true;
    }

    void intrinsic(State& s, PInst& p, Fn* f, std::vector<Val>& a);
    void external(State& s, PInst& p, Fn* f, std::vector<Val>& a);
    void installHandlers();
    void runState(State* s, bool init);
    void explore(const std::string& entry);
    void finishPath(State& s);
    bool overlap(State& s, u64 a, u64 b, u64 n) { return n && a < b + n && b < a + n && a != b; }
};

#include "handlers.inc"

void Exec::finishPath(State& s) {
    paths++;
    for (u32 c : s.covers) coverHits[coverNames[c]]++;
    // reservoir of sample paths for native validation
    std::string j = "{\"inputs\":" + inputsJson(s, s.model) + ",\"obs\":" + obsJson(s, s.model) + ",\"steps\":" + std::to_string(s.steps) + "}";
    if (samples.size() < sampleMax) samples.push_back(j);
    else { u64 r = rng() % paths; if (r < sampleMax) samples[r] = j; }
}

void Exec::runState(State* s, bool init) {
    while (!s->st.empty()) {
        step(*s);
        if (s->steps > maxSteps && !s->st.empty()) {
            violation(*s, "nontermination", "path exceeds " + std::to_string(maxSteps) + " instructions");
            break;
        }
        if ((instrs & 0x3ff) == 0 && now() - t0 > deadline) {
            incomplete["time budget"]++;
            kill(*s);
            s->id = ~0ULL;
            return;
        }
        if (!init && s->st.empty()) break;
    }
}

void Exec::explore(const std::string& entry) {
    auto it = fns.find(entry);
    if (it == fns.end() || it->second->decl) fatal("no entry function " + entry);
    State* s = new State();
    s->mem = initMem;
    s->heapNext = 0x1000000000ULL;
    s->stackNext = 0x7f0000000000ULL;
    // global constructors
    if (GlobalVariable* G = M->getGlobalVariable("llvm.global_ctors")) {
        std::vector<std::pair<u64, Fn*>> cs;
        if (auto* CA = dyn_cast<ConstantArray>(G->getInitializer()))
            for (unsigned i = 0; i < CA->getNumOperands(); i++) {
                auto* K = cast<ConstantStruct>(CA->getOperand(i));
                if (auto* F = dyn_cast<Function>(K->getOperand(1)->stripPointerCasts())) cs.push_back({cast<ConstantInt>(K->getOperand(0))->getZExtValue(), fnOf[F]});
            }
        std::stable_sort(cs.begin(), cs.end(), [](auto& a, auto& b) { return a.first < b.first; });
        for (auto& c : cs) {
            std::vector<Val> none;
            pushCall(*s, c.second, none, 0);
            while (!s->st.empty()) step(*s);
            if (!viol.empty() || !work.empty()) fatal("static initialisation failed: " + (viol.empty() ? "fork" : viol[0].msg + "\n" + viol[0].stack));
        }
    }
    s->heapLive = s->heapBytes = 0;
    s->steps = 0;
    std::vector<Val> none;
    pushCall(*s, it->second, none, 0);
    work.push_back(s);
    nStates = 1;
    while (!work.empty()) {
        if (now() - t0 > deadline) { incomplete["time budget"] += work.size(); break; }
        if (paths > maxPaths) { incomplete["path budget"] += work.size(); break; }
        if (!cont && !viol.empty()) break;
        if (viol.size() > 20) break;
        State* x = work.back();
        work.pop_back();
        size_t nv = viol.size();
        u64 ni = 0;
        for (auto& q : incomplete) ni += q.second;
        u64 kd = killed;
        runState(x, false);
        u64 ni2 = 0;
        for (auto& q : incomplete) ni2 += q.second;
        if (viol.size() == nv && ni == ni2 && killed == kd) finishPath(*x);
        delete x;
    }
}

int main(int argc, char** argv) {
    std::string file, entry, out;
    Exec X;
    unsigned tmo = 60000;
    u64 memLimit = 3500;
    std::string dumpDir;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&] { return std::string(argv[++i]); };
        if (a == "--entry") entry = val();
        else if (a == "--out") out = val();
        else if (a == "--time") X.deadline = atof(val().c_str());
        else if (a == "--steps") X.maxSteps = strtoull(val().c_str(), 0, 10);
        else if (a == "--solver-timeout") tmo = atoi(val().c_str());
        else if (a == "--word-slack") X.wordSlack = true;
        else if (a == "--continue") X.cont = true;
        else if (a == "--samples") X.sampleMax = atoi(val().c_str());
        else if (a == "--seed") X.rng.seed(strtoull(val().c_str(), 0, 10));
        else if (a == "--repo") X.repoPrefix = val();
        else if (a == "--dump") dumpDir = val();
        else if (a == "--mem") memLimit = strtoull(val().c_str(), 0, 10);
        else if (a == "--param") { std::string v = val(); size_t q = v.find('='); X.params[v.substr(0, q)] = strtoull(v.c_str() + q + 1, 0, 10); }
        else if (a == "--trace") X.traceLevel = 1;
        else file = a;
    }
    struct rlimit rl{memLimit << 20, memLimit << 20};
    setrlimit(RLIMIT_AS, &rl);
    X.t0 = now();
    X.installHandlers();
    X.load(file);
    X.S = new Solver(X.C, tmo);
    if (!dumpDir.empty()) { X.S->dumpDir = dumpDir; X.S->dumpEvery = 37; }
    double tl = now();
    try { X.explore(entry); }
    catch (std::bad_alloc&) { X.incomplete["memory limit"]++; }
    double t1 = now();
    auto& st = X.S->st;
    std::ostringstream o;
    o << "{\"entry\":" << jstr(entry) << ",\"paths\":" << X.paths << ",\"killed\":" << X.killed << ",\"forks\":" << X.forks << ",\"instructions\":" << X.instrs
      << ",\"asserts\":" << X.asserts << ",\"asserts_symbolic\":" << X.assertsSym << ",\"memory_checks\":" << X.memChecks << ",\"queries\":" << st.queries << ",\"sat\":" << st.sat
      << ",\"unsat\":" << st.unsat << ",\"unknown\":" << st.unknown << ",\"cache_hits\":" << st.cacheHits << ",\"model_hits\":" << st.modelHits << ",\"solver_s\":" << st.secs
      << ",\"max_query_s\":" << st.maxSecs << ",\"load_s\":" << (tl - X.t0) << ",\"wall_s\":" << (t1 - X.t0) << ",\"exprs\":" << X.C.nExprs;
    o << ",\"covers\":{";
    bool f = true;
    for (auto& c : X.allCovers) { o << (f ? "" : ",") << jstr(c) << ":" << X.coverHits[c]; f = false; }
    o << "},\"incomplete\":{";
    f = true;
    for (auto& c : X.incomplete) { o << (f ? "" : ",") << jstr(c.first) << ":" << c.second; f = false; }
    o << "},\"violations\":[";
    f = true;
    for (auto& v : X.viol) { o << (f ? "" : ",") << v.json; f = false; }
    o << "],\"samples\":[";
    f = true;
    for (auto& v : X.samples) { o << (f ? "" : ",") << v; f = false; }
    o << "],\"functions\":[";
    f = true;
    for (auto& kv : X.fns) {
        Fn* fn = kv.second;
        if (!fn->ready || !fn->inRepo) continue;
        u64 seen = 0;
        for (auto& p : fn->code) seen += p.seen;
        o << (f ? "" : ",") << "[" << jstr(demangle(fn->name)) << "," << seen << "," << fn->code.size() << "," << fn->calls << "]";
        f = false;
    }
    o << "],\"externals\":[";
    f = true;
    for (auto& e : X.usedExternals) { o << (f ? "" : ",") << jstr(e); f = false; }
    o << "]}";
    if (out.empty()) puts(o.str().c_str());
    else { std::ofstream q(out); q << o.str() << "\n"; }
    return !X.viol.empty() ? 1 : !X.incomplete.empty() ? 2 : 0;
}

#include <array>
// symx: symbolic executor for LLVM bitcode (LLVM 18), bit-precise, path-forking, with Z3 deciding every branch,
// memory access and assertion.
#include "solver.h"

#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/GlobalVariable.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>

#include <algorithm>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <functional>
#include <map>
#include <random>
#include <set>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace llvm;

struct Val
{
    uint64_t c;
    E e; // null: concrete c
};
static inline Val cv(uint64_t c)
{
    return Val{c, nullptr};
}

static inline Val fromE(E e)
{
    if (e->op == O_CONST && e->w <= 64)
        return cv((uint64_t)e->val);
    return Val{0, e};
}
static inline E toE(Val v, unsigned w)
{
    return v.e ? v.e : mkConst(v.c, w);
}
static inline uint64_t m64(unsigned w)
{
    return w >= 64 ? ~0ull : ((1ull << w) - 1);
}

// ------------------------------------------------------------------ memory

static const uint64_t SLOT_BITS = 20;
static const uint64_t SLOT_SIZE = 1ull << SLOT_BITS;
static const uint64_t SLOT_OFF = 0x40000;
static const uint64_t MEM_BASE = 0x100000000000ull;
static const uint64_t STACK_BASE = 0x200000000000ull;
static const uint64_t FN_BASE = 0x10000;
static E UNINIT;

struct Obj
{
    int refs = 1;
    uint64_t addr;
    uint64_t size;
    bool readonly = false;
    uint8_t kind = 0; // 0 global 1 heap 2 stack 3: heap new[] ...
    const char* name = "";
    std::unique_ptr<uint8_t[]> data;
    std::unique_ptr<E[]> sym;
    uint32_t nsym = 0;

    Obj(uint64_t a, uint64_t s, uint8_t k): addr(a), size(s), kind(k), data(new uint8_t[s ? s : 1])
    {
        memset(data.get(), 0, s ? s : 1);
    }
    Obj(const Obj& o)
        : addr(o.addr),
          size(o.size),
          readonly(o.readonly),
          kind(o.kind),
          name(o.name),
          data(new uint8_t[o.size ? o.size : 1]),
          nsym(o.nsym)
    {
        memcpy(data.get(), o.data.get(), size);
        if (o.nsym) {
            sym.reset(new E[size]);
            memcpy(sym.get(), o.sym.get(), size * sizeof(E));
        }
    }
    void markUninit()
    {
        if (!size)
            return;
        sym.reset(new E[size]);
        for (uint64_t i = 0; i < size; ++i)
            sym[i] = UNINIT;
        nsym = (uint32_t)size;
    }
    void setC(uint64_t i, uint8_t v)
    {
        data[i] = v;
        if (sym && sym[i]) {
            sym[i] = nullptr;
            if (--nsym == 0)
                sym.reset();
        }
    }
    void setE(uint64_t i, E e)
    {
        if (e->op == O_CONST) {
            setC(i, (uint8_t)e->val);
            return;
        }
        if (!sym) {
            sym.reset(new E[size]());
            nsym = 0;
        }
        if (!sym[i])
            nsym++;
        sym[i] = e;
    }
    E getE(uint64_t i)
    {
        if (sym && sym[i])
            return sym[i];
        return mkConst(data[i], 8);
    }
};

struct Chunk
{
    static const int N = 64;
    int refs = 1;
    Obj* o[N];
    Chunk()
    {
        memset(o, 0, sizeof o);
    }
};

struct Memory
{
    std::vector<Chunk*> ch;
    uint64_t next = 0;
    uint64_t base;
    explicit Memory(uint64_t b): base(b)
    {}
    Memory(const Memory& m): ch(m.ch), next(m.next), base(m.base)
    {
        for (auto c: ch)
            if (c)
                c->refs++;
    }
    Memory& operator=(const Memory&) = delete;
    ~Memory()
    {
        for (auto c: ch)
            drop(c);
    }
    static void dropObj(Obj* o)
    {
        if (o && --o->refs == 0)
            delete o;
    }
    static void drop(Chunk* c)
    {
        if (c && --c->refs == 0) {
            Obj* last = nullptr;
            for (auto o: c->o) {
                if (o && o != last)
                    dropObj(o);
                last = o;
            }
            delete c;
        }
    }
    Chunk* wchunk(size_t ci)
    {
        if (ci >= ch.size())
            ch.resize(ci + 1, nullptr);
        Chunk*& c = ch[ci];
        if (!c) {
            c = new Chunk;
            return c;
        }
        if (c->refs > 1) {
            Chunk* n = new Chunk;
            Obj* last = nullptr;
            for (int i = 0; i < Chunk::N; ++i) {
                n->o[i] = c->o[i];
                if (n->o[i] && n->o[i] != last)
                    n->o[i]->refs++;
                last = n->o[i];
            }
            c->refs--;
            c = n;
        }
        return c;
    }
    Obj* find(uint64_t addr) const
    {
        uint64_t s = (addr - base) >> SLOT_BITS;
        if (s >= next)
            return nullptr;
        Chunk* c = ch[s / Chunk::N];
        return c ? c->o[s % Chunk::N] : nullptr;
    }
    Obj* findW(uint64_t addr)
    {
        uint64_t s = (addr - base) >> SLOT_BITS;
        Chunk* c = wchunk(s / Chunk::N);
        Obj* o = c->o[s % Chunk::N];
        if (o->refs > 1) {
            Obj* n = new Obj(*o);
            o->refs--;
            uint64_t cnt = slotsFor(o->size);
            uint64_t s0 = (o->addr - base) >> SLOT_BITS;
            if (cnt == 1)
                c->o[s % Chunk::N] = n;
            else
                for (uint64_t i = 0; i < cnt; ++i)
                    wchunk((s0 + i) / Chunk::N)->o[(s0 + i) % Chunk::N] = n;
            o = n;
        }
        return o;
    }
    static uint64_t slotsFor(uint64_t size)
    {
        return (size + SLOT_OFF * 2 + SLOT_SIZE - 1) >> SLOT_BITS;
    }
    Obj* alloc(uint64_t size, uint8_t kind)
    {
        uint64_t cnt = slotsFor(size);
        // multi-slot objects must not straddle chunks (refcounts are per chunk)
        if (cnt > 1) {
            if (cnt > Chunk::N) {
                fprintf(stderr, "object too large: %llu\n", (unsigned long long)size);
                _exit(71);
            }
            if (next % Chunk::N + cnt > Chunk::N)
                next = (next / Chunk::N + 1) * Chunk::N;
        }
        uint64_t s = next;
        next += cnt;
        Obj* o = new Obj(base + (s << SLOT_BITS) + SLOT_OFF, size, kind);
        for (uint64_t i = 0; i < cnt; ++i)
            wchunk((s + i) / Chunk::N)->o[(s + i) % Chunk::N] = o;
        if (ch.size() < (next + Chunk::N - 1) / Chunk::N)
            ch.resize((next + Chunk::N - 1) / Chunk::N, nullptr);
        return o;
    }
    void free(uint64_t addr)
    {
        uint64_t s = (addr - base) >> SLOT_BITS;
        Chunk* c = wchunk(s / Chunk::N);
        Obj* o = c->o[s % Chunk::N];
        if (!o)
            return;
        uint64_t s0 = (o->addr - base) >> SLOT_BITS;
        uint64_t cnt = slotsFor(o->size);
        for (uint64_t i = 0; i < cnt; ++i)
            wchunk((s0 + i) / Chunk::N)->o[(s0 + i) % Chunk::N] = nullptr;
        dropObj(o);
    }
    void popTo(uint64_t mark)
    {
        while (next > mark) {
            --next;
            Chunk* c = ch[next / Chunk::N];
            if (c && c->o[next % Chunk::N])
                free(base + (next << SLOT_BITS) + SLOT_OFF);
        }
    }
};

// ------------------------------------------------------------------ code

struct Opnd
{
    int slot = -1; // >=0 register
    const Val* cval = nullptr;
};

enum IK : uint8_t
{
    K_BIN,
    K_ICMP,
    K_FCMP,
    K_FBIN,
    K_FNEG,
    K_CAST,
    K_SELECT,
    K_LOAD,
    K_STORE,
    K_ALLOCA,
    K_GEP,
    K_BR,
    K_CONDBR,
    K_SWITCH,
    K_CALL,
    K_RET,
    K_UNREACH,
    K_COPY,  // extract/insert value etc. : list of copies
    K_RESUME,
    K_LANDING,
    K_RMW,
    K_CMPXCHG,
    K_NOP,
    K_VAARG,
    K_INSELT,
    K_EXTELT,
};

struct FlatElt
{
    uint64_t off;
    uint16_t w;
    uint16_t bytes;
};

struct FnInfo;
struct Inst
{
    IK k;
    uint16_t w = 0;   // result/element width
    uint16_t w2 = 0;  // source width
    uint32_t sub = 0; // opcode / predicate
    int dst = -1;
    uint32_t n = 1; // number of slots
    std::vector<Opnd> ops;
    std::vector<FlatElt> flat;
    std::vector<std::pair<Opnd, uint64_t>> gep; // operand (64 bit after sext from w), scale
    std::vector<uint16_t> gepw;
    uint64_t imm = 0;
    int t0 = -1, t1 = -1; // block targets
    std::vector<std::pair<uint64_t, int>> cases;
    std::vector<unsigned> argN;            // slots of each call argument
    std::vector<unsigned> argW;            // width (first slot)
    std::vector<uint64_t> byval;           // size or 0 per argument
    const llvm::Instruction* ll = nullptr;
    FnInfo* callee = nullptr;
    std::vector<std::pair<int, int>> copies; // op index slot -> dst
};

struct Phi
{
    int dst;
    unsigned n;
    std::vector<std::pair<int, Opnd>> in; // pred block, operand
};
struct Block
{
    uint32_t start;
    std::vector<Phi> phis;
};

struct State;
typedef bool (*Handler)(struct Exec&, State&, const Inst&, std::vector<std::vector<Val>>& args, std::vector<Val>& ret);

struct FnInfo
{
    const Function* f = nullptr;
    std::string name;
    uint64_t addr = 0;
    bool prepared = false;
    unsigned nregs = 0;
    std::vector<Inst> code;
    std::vector<Block> blocks;
    std::vector<std::pair<int, unsigned>> params; // slot, n
    int handler = -1;
    bool entered = false;
    std::string file;
};

struct Frame
{
    FnInfo* fn;
    std::vector<Val> regs;
    uint32_t pc = 0;
    int curBlock = 0;
    uint64_t stackMark;
    std::vector<Val> varargs;
    bool isCtorCall = false;
};

struct ExcInfo
{
    uint64_t obj;
    uint64_t tinfo;
    uint64_t adjusted;
};

struct InputRec
{
    std::string name;
    unsigned w;
    E e;
};

struct State
{
    Memory mem, stk;
    std::vector<Frame> fr;
    std::vector<E> pc;
    std::shared_ptr<const Model> model;
    std::vector<ExcInfo> excs;      // all exceptions thrown, by object address
    std::vector<uint64_t> caught;   // stack of caught exception objects
    uint64_t unwinding = 0;         // exception object in flight
    std::vector<InputRec> inputs;
    std::vector<InputRec> observed;
    std::set<std::string> reached;
    uint64_t steps = 0;
    unsigned depth = 0;
    std::map<std::string, int> varNo;
    State(): mem(MEM_BASE), stk(STACK_BASE), model(std::make_shared<Model>())
    {}
    State(const State&) = default;
};

struct PathEnd
{
    std::string kind;
};

struct ErrorRec
{
    std::string kind, msg, where;
    std::vector<std::pair<std::string, u128>> inputs;
    std::vector<unsigned> widths;
};

static std::string jstr(const std::string& s)
{
    std::string r = "\"";
    for (unsigned char ch: s) {
        if (ch == '"' || ch == '\\') {
            r += '\\';
            r += (char)ch;
        } else if (ch < 0x20 || ch >= 0x7f) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", ch);
            r += b;
        } else
            r += (char)ch;
    }
    return r + "\"";
}
static std::string u128s(u128 v)
{
    char b[64];
    if (v >> 64)
        snprintf(b, sizeof b, "\"0x%llx%016llx\"", (unsigned long long)(v >> 64), (unsigned long long)v);
    else
        snprintf(b, sizeof b, "%llu", (unsigned long long)v);
    return b;
}

struct Options
{
    std::string bc, entry, out;
    double timeLimit = 100;
    uint64_t maxSteps = 50000000;
    uint64_t maxPaths = 10000000;
    int jobs = 1;
    int maxErrors = 3;
    int samples = 10;
    unsigned seed = 1;
    bool trace = false;
    bool uninitCheck = true;
    bool shiftCheck = true;
    std::map<std::string, long long> params;
};

struct Exec
{
    Options opt;
    LLVMContext ctx;
    std::unique_ptr<Module> M;
    const DataLayout* DL = nullptr;
    std::unordered_map<const Function*, FnInfo*> fns;
    std::vector<FnInfo*> fnByIdx;
    std::unordered_map<const GlobalVariable*, uint64_t> gaddr;
    std::map<std::string, Handler> handlers;
    std::vector<Handler> handlerTab;
    std::deque<std::unique_ptr<State>> work;
    std::vector<ErrorRec> errors;
    std::map<std::string, uint64_t> reach;
    std::map<std::string, uint64_t> incomplete;
    uint64_t paths = 0, killed = 0, totalSteps = 0, forks = 0, asserts = 0, assertQueries = 0, memQueries = 0;
    uint64_t loopMax = 0;
    std::vector<std::string> samples;
    uint64_t sampleSeen = 0;
    std::set<std::string> errKeys;
    std::chrono::steady_clock::time_point t0;
    std::mt19937 rng;
    uint64_t vtSI = 0, vtVMI = 0, vtC = 0;
    std::vector<uint64_t> typeIds;
    bool bfs = false;
    size_t bfsTarget = 0;
    E curUninit = nullptr;
    unsigned long uninitNo = 0;

    std::deque<std::unique_ptr<Val[]>> constPool;

    // ---------------------------------------------------------- types
    void flatten(Type* t, uint64_t off, std::vector<FlatElt>& out)
    {
        if (auto* st = dyn_cast<StructType>(t)) {
            auto* sl = DL->getStructLayout(st);
            for (unsigned i = 0; i < st->getNumElements(); ++i)
                flatten(st->getElementType(i), off + sl->getElementOffset(i), out);
            return;
        }
        if (auto* at = dyn_cast<ArrayType>(t)) {
            uint64_t es = DL->getTypeAllocSize(at->getElementType());
            for (uint64_t i = 0; i < at->getNumElements(); ++i)
                flatten(at->getElementType(), off + i * es, out);
            return;
        }
        if (auto* vt = dyn_cast<FixedVectorType>(t)) {
            uint64_t ebits = DL->getTypeSizeInBits(vt->getElementType());
            for (uint64_t i = 0; i < vt->getNumElements(); ++i) {
                FlatElt fe;
                fe.off = off + i * ebits / 8;
                fe.w = (uint16_t)ebits;
                fe.bytes = (uint16_t)((ebits + 7) / 8);
                out.push_back(fe);
            }
            return;
        }
        FlatElt fe;
        fe.off = off;
        fe.w = (uint16_t)scalarW(t);
        fe.bytes = (uint16_t)DL->getTypeStoreSize(t);
        if (t->isX86_FP80Ty())
            fe.bytes = 8;
        out.push_back(fe);
    }
    unsigned scalarW(Type* t)
    {
        if (t->isPointerTy())
            return 64;
        if (t->isX86_FP80Ty())
            return 64;
        if (t->isIntegerTy() || t->isFloatTy() || t->isDoubleTy())
            return (unsigned)t->getPrimitiveSizeInBits();
        if (t->isVoidTy())
            return 0;
        if (auto* vt = dyn_cast<FixedVectorType>(t))
            return scalarW(vt->getElementType());
        return 64;
    }
    unsigned nslots(Type* t)
    {
        if (t->isVoidTy() || t->isMetadataTy() || t->isTokenTy() || t->isLabelTy())
            return 0;
        if (!t->isAggregateType() && !t->isVectorTy())
            return 1;
        std::vector<FlatElt> f;
        flatten(t, 0, f);
        return (unsigned)f.size();
    }

    // ---------------------------------------------------------- constants
    uint64_t fnAddr(const Function* f)
    {
        auto it = fns.find(f);
        if (it != fns.end())
            return it->second->addr;
        auto* fi = new FnInfo;
        fi->f = f;
        fi->name = f->getName().str();
        fi->addr = FN_BASE + 16 * fnByIdx.size();
        fnByIdx.push_back(fi);
        fns[f] = fi;
        if (f->isDeclaration() && f->hasExternalWeakLinkage() && !handlers.count(fi->name))
            fi->addr = 0;
        return fi->addr;
    }
    FnInfo* fnInfo(const Function* f)
    {
        fnAddr(f);
        return fns[f];
    }

    void constVals(const Constant* c, std::vector<Val>& out)
    {
        Type* t = c->getType();
        if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c)) {
            unsigned n = nslots(t);
            std::vector<FlatElt> f;
            flatten(t, 0, f);
            for (unsigned i = 0; i < n; ++i)
                out.push_back(f[i].w > 64 ? Val{0, mkConst(0, f[i].w)} : cv(0));
            return;
        }
        if (auto* ci = dyn_cast<ConstantInt>(c)) {
            if (ci->getBitWidth() > 64) {
                u128 v = ci->getValue().getRawData()[0];
                if (ci->getValue().getNumWords() > 1)
                    v |= (u128)ci->getValue().getRawData()[1] << 64;
                out.push_back(Val{0, mkConst(v, ci->getBitWidth())});
            } else
                out.push_back(cv(ci->getZExtValue()));
            return;
        }
        if (auto* cf = dyn_cast<ConstantFP>(c)) {
            if (t->isX86_FP80Ty()) {
                bool li;
                APFloat a = cf->getValueAPF();
                a.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
                out.push_back(cv(a.bitcastToAPInt().getZExtValue()));
                return;
            }
            out.push_back(cv(cf->getValueAPF().bitcastToAPInt().getZExtValue()));
            return;
        }
        if (auto* gv = dyn_cast<GlobalVariable>(c)) {
            out.push_back(cv(gaddr.at(gv)));
            return;
        }
        if (auto* f = dyn_cast<Function>(c)) {
            out.push_back(cv(fnAddr(f)));
            return;
        }
        if (auto* ga = dyn_cast<GlobalAlias>(c)) {
            constVals(ga->getAliasee(), out);
            return;
        }
        if (auto* ca = dyn_cast<ConstantAggregate>(c)) {
            for (unsigned i = 0; i < ca->getNumOperands(); ++i)
                constVals(cast<Constant>(ca->getOperand(i)), out);
            return;
        }
        if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
            for (unsigned i = 0; i < cd->getNumElements(); ++i)
                constVals(cd->getElementAsConstant(i), out);
            return;
        }
        if (auto* ce = dyn_cast<ConstantExpr>(c)) {
            std::vector<Val> a;
            switch (ce->getOpcode()) {
                case Instruction::GetElementPtr: {
                    constVals(cast<Constant>(ce->getOperand(0)), a);
                    APInt off(64, 0);
                    if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off))
                        break;
                    out.push_back(cv(a[0].c + off.getZExtValue()));
                    return;
                }
                case Instruction::BitCast:
                case Instruction::PtrToInt:
                case Instruction::IntToPtr:
                case Instruction::AddrSpaceCast:
                case Instruction::Trunc: {
                    constVals(cast<Constant>(ce->getOperand(0)), a);
                    a[0].c &= m64(scalarW(t));
                    out.push_back(a[0]);
                    return;
                }
                case Instruction::Add:
                case Instruction::Sub:
                case Instruction::Xor: {
                    constVals(cast<Constant>(ce->getOperand(0)), a);
                    constVals(cast<Constant>(ce->getOperand(1)), a);
                    uint64_t r = ce->getOpcode() == Instruction::Add   ? a[0].c + a[1].c
                                 : ce->getOpcode() == Instruction::Sub ? a[0].c - a[1].c
                                                                       : a[0].c ^ a[1].c;
                    out.push_back(cv(r & m64(scalarW(t))));
                    return;
                }
                case Instruction::ICmp: {
                    constVals(cast<Constant>(ce->getOperand(0)), a);
                    constVals(cast<Constant>(ce->getOperand(1)), a);
                    bool r = false;
                    switch (ce->getPredicate()) {
                        case CmpInst::ICMP_EQ:
                            r = a[0].c == a[1].c;
                            break;
                        case CmpInst::ICMP_NE:
                            r = a[0].c != a[1].c;
                            break;
                        case CmpInst::ICMP_ULT:
                            r = a[0].c < a[1].c;
                            break;
                        case CmpInst::ICMP_UGT:
                            r = a[0].c > a[1].c;
                            break;
                        default:
                            break;
                    }
                    out.push_back(cv(r));
                    return;
                }
                default:
                    break;
            }
        }
        if (isa<BlockAddress>(c)) {
            out.push_back(cv(0));
            return;
        }
        std::string s;
        raw_string_ostream os(s);
        c->print(os);
        fprintf(stderr, "unsupported constant: %s\n", s.c_str());
        _exit(72);
    }
    void initGlobal(Obj* o, const Constant* c, uint64_t off)
    {
        if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c))
            return;
        if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
            uint64_t es = DL->getTypeAllocSize(cd->getElementType());
            if (es == 1) {
                memcpy(&o->data[off], cd->getRawDataValues().data(), cd->getNumElements());
                return;
            }
        }
        std::vector<FlatElt> f;
        flatten(c->getType(), 0, f);
        std::vector<Val> v;
        constVals(c, v);
        for (size_t i = 0; i < f.size(); ++i) {
            u128 x = v[i].e ? v[i].e->val : v[i].c;
            for (unsigned b = 0; b < f[i].bytes; ++b)
                o->data[off + f[i].off + b] = (uint8_t)(b < 16 ? x >> (8 * b) : 0);
        }
    }

    // ---------------------------------------------------------- function preparation
    Opnd opnd(const Value* v, std::unordered_map<const Value*, int>& slots)
    {
        Opnd o;
        if (auto* c = dyn_cast<Constant>(v)) {
            std::vector<Val> a;
            constVals(c, a);
            std::unique_ptr<Val[]> p(new Val[a.size() + 1]);
            for (size_t i = 0; i < a.size(); ++i)
                p[i] = a[i];
            o.cval = p.get();
            constPool.push_back(std::move(p));
            return o;
        }
        auto it = slots.find(v);
        if (it == slots.end()) {
            o.cval = nullptr;
            o.slot = 0;
            return o;
        }
        o.slot = it->second;
        return o;
    }

    void prepare(FnInfo& fi)
    {
        if (fi.prepared)
            return;
        fi.prepared = true;
        const Function* f = fi.f;
        if (auto* sp = f->getSubprogram()) {
            fi.file = sp->getFilename().str();
            if (!fi.file.empty() && fi.file[0] != '/')
                fi.file = sp->getDirectory().str() + "/" + fi.file;
        }
        std::unordered_map<const Value*, int> slots;
        std::unordered_map<const BasicBlock*, int> bidx;
        unsigned n = 0;
        for (auto& a: f->args()) {
            unsigned k = nslots(a.getType());
            slots[&a] = n;
            fi.params.push_back({(int)n, k});
            n += k;
        }
        int bi = 0;
        for (auto& bb: *f) {
            bidx[&bb] = bi++;
            for (auto& in: bb) {
                unsigned k = nslots(in.getType());
                if (k) {
                    slots[&in] = n;
                    n += k;
                }
            }
        }
        fi.nregs = n;
        fi.blocks.resize(bidx.size());
        for (auto& bb: *f) {
            Block& B = fi.blocks[bidx[&bb]];
            for (auto& in: bb) {
                if (auto* ph = dyn_cast<PHINode>(&in)) {
                    Phi p;
                    p.dst = slots[&in];
                    p.n = nslots(in.getType());
                    for (unsigned i = 0; i < ph->getNumIncomingValues(); ++i)
                        p.in.push_back({bidx[ph->getIncomingBlock(i)], opnd(ph->getIncomingValue(i), slots)});
                    B.phis.push_back(std::move(p));
                }
            }
            B.start = (uint32_t)fi.code.size();
            for (auto& in: bb) {
                if (isa<PHINode>(&in))
                    continue;
                Inst I;
                I.ll = &in;
                if (slots.count(&in))
                    I.dst = slots[&in];
                Type* ty = in.getType();
                I.n = nslots(ty);
                I.w = (uint16_t)(ty->isVoidTy() ? 0 : scalarW(ty));
                auto O = [&](unsigned i) { return opnd(in.getOperand(i), slots); };
                if (in.isBinaryOp()) {
                    I.ops = {O(0), O(1)};
                    unsigned op = in.getOpcode();
                    I.sub = op;
                    I.k = (op == Instruction::FAdd || op == Instruction::FSub || op == Instruction::FMul ||
                           op == Instruction::FDiv || op == Instruction::FRem)
                              ? K_FBIN
                              : K_BIN;
                } else if (auto* c = dyn_cast<ICmpInst>(&in)) {
                    I.k = K_ICMP;
                    I.sub = c->getPredicate();
                    I.w2 = (uint16_t)scalarW(c->getOperand(0)->getType());
                    I.ops = {O(0), O(1)};
                } else if (auto* c = dyn_cast<FCmpInst>(&in)) {
                    I.k = K_FCMP;
                    I.sub = c->getPredicate();
                    I.w2 = (uint16_t)scalarW(c->getOperand(0)->getType());
                    I.ops = {O(0), O(1)};
                } else if (isa<UnaryOperator>(&in)) {
                    I.k = K_FNEG;
                    I.ops = {O(0)};
                } else if (auto* c = dyn_cast<CastInst>(&in)) {
                    I.k = K_CAST;
                    I.sub = c->getOpcode();
                    I.w2 = (uint16_t)scalarW(c->getSrcTy());
                    I.ops = {O(0)};
                    if (I.sub == Instruction::BitCast && nslots(c->getSrcTy()) != I.n) {
                        I.imm = nslots(c->getSrcTy()); // repack
                    }
                    if (c->getSrcTy()->isX86_FP80Ty() || ty->isX86_FP80Ty())
                        I.imm = ~0ull;
                } else if (auto* s = dyn_cast<SelectInst>(&in)) {
                    I.k = K_SELECT;
                    I.ops = {O(0), O(1), O(2)};
                    I.imm = s->getCondition()->getType()->isVectorTy();
                    flatten(ty, 0, I.flat);
                } else if (isa<LoadInst>(&in)) {
                    I.k = K_LOAD;
                    I.ops = {O(0)};
                    flatten(ty, 0, I.flat);
                } else if (isa<StoreInst>(&in)) {
                    I.k = K_STORE;
                    I.ops = {O(1), O(0)};
                    flatten(in.getOperand(0)->getType(), 0, I.flat);
                    I.n = (uint32_t)I.flat.size();
                } else if (auto* a = dyn_cast<AllocaInst>(&in)) {
                    I.k = K_ALLOCA;
                    I.imm = DL->getTypeAllocSize(a->getAllocatedType());
                    I.ops = {O(0)};
                } else if (auto* g = dyn_cast<GetElementPtrInst>(&in)) {
                    I.k = K_GEP;
                    I.ops = {O(0)};
                    uint64_t off = 0;
                    for (gep_type_iterator it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
                        Value* idx = it.getOperand();
                        if (StructType* st = it.getStructTypeOrNull()) {
                            off += DL->getStructLayout(st)->getElementOffset(
                                (unsigned)cast<ConstantInt>(idx)->getZExtValue());
                        } else {
                            uint64_t sc = DL->getTypeAllocSize(it.getIndexedType());
                            if (auto* ci = dyn_cast<ConstantInt>(idx))
                                off += (uint64_t)ci->getSExtValue() * sc;
                            else {
                                I.gep.push_back({opnd(idx, slots), sc});
                                I.gepw.push_back((uint16_t)scalarW(idx->getType()));
                            }
                        }
                    }
                    I.imm = off;
                } else if (auto* b = dyn_cast<BranchInst>(&in)) {
                    if (b->isUnconditional()) {
                        I.k = K_BR;
                        I.t0 = bidx[b->getSuccessor(0)];
                    } else {
                        I.k = K_CONDBR;
                        I.ops = {opnd(b->getCondition(), slots)};
                        I.t0 = bidx[b->getSuccessor(0)];
                        I.t1 = bidx[b->getSuccessor(1)];
                    }
                } else if (auto* sw = dyn_cast<SwitchInst>(&in)) {
                    I.k = K_SWITCH;
                    I.ops = {opnd(sw->getCondition(), slots)};
                    I.w2 = (uint16_t)scalarW(sw->getCondition()->getType());
                    I.t0 = bidx[sw->getDefaultDest()];
                    for (auto& cs: sw->cases())
                        I.cases.push_back({cs.getCaseValue()->getZExtValue(), bidx[cs.getCaseSuccessor()]});
                } else if (auto* cb = dyn_cast<CallBase>(&in)) {
                    I.k = K_CALL;
                    if (auto* ii = dyn_cast<InvokeInst>(cb)) {
                        I.t0 = bidx[ii->getNormalDest()];
                        I.t1 = bidx[ii->getUnwindDest()];
                    }
                    const Function* cf = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
                    if (!cf)
                        if (auto* ga = dyn_cast<GlobalAlias>(cb->getCalledOperand()->stripPointerCasts()))
                            cf = dyn_cast<Function>(ga->getAliasee()->stripPointerCasts());
                    if (cf) {
                        I.callee = fnInfo(cf);
                        I.sub = cf->getIntrinsicID();
                        if (I.sub == Intrinsic::dbg_declare || I.sub == Intrinsic::dbg_value ||
                            I.sub == Intrinsic::dbg_label || I.sub == Intrinsic::lifetime_start ||
                            I.sub == Intrinsic::lifetime_end || I.sub == Intrinsic::assume ||
                            I.sub == Intrinsic::experimental_noalias_scope_decl || I.sub == Intrinsic::donothing ||
                            I.sub == Intrinsic::prefetch || I.sub == Intrinsic::invariant_end ||
                            I.sub == Intrinsic::stackrestore || I.sub == Intrinsic::var_annotation)
                        {
                            if (I.t0 < 0) {
                                I.k = K_NOP;
                                fi.code.push_back(std::move(I));
                                continue;
                            }
                        }
                    } else if (isa<InlineAsm>(cb->getCalledOperand())) {
                        I.k = K_NOP; // only memory clobbers are expected
                        fi.code.push_back(std::move(I));
                        continue;
                    }
                    I.ops.push_back(opnd(cb->getCalledOperand(), slots));
                    for (unsigned i = 0; i < cb->arg_size(); ++i) {
                        Value* a = cb->getArgOperand(i);
                        if (a->getType()->isMetadataTy()) {
                            I.ops.push_back(Opnd());
                            I.argN.push_back(0);
                            I.argW.push_back(0);
                            I.byval.push_back(0);
                            continue;
                        }
                        I.ops.push_back(opnd(a, slots));
                        I.argN.push_back(nslots(a->getType()));
                        I.argW.push_back(scalarW(a->getType()));
                        uint64_t bs = 0;
                        if (cb->isByValArgument(i))
                            bs = DL->getTypeAllocSize(cb->getParamByValType(i));
                        I.byval.push_back(bs);
                    }
                    flatten(ty->isVoidTy() ? Type::getInt8Ty(ctx) : ty, 0, I.flat);
                } else if (isa<ReturnInst>(&in)) {
                    I.k = K_RET;
                    if (in.getNumOperands()) {
                        I.ops = {O(0)};
                        I.n = nslots(in.getOperand(0)->getType());
                    } else
                        I.n = 0;
                } else if (isa<UnreachableInst>(&in)) {
                    I.k = K_UNREACH;
                } else if (auto* ev = dyn_cast<ExtractValueInst>(&in)) {
                    I.k = K_COPY;
                    Opnd src = O(0);
                    unsigned idx = aggIndex(ev->getAggregateOperand()->getType(), ev->getIndices());
                    I.ops = {src};
                    for (unsigned i = 0; i < I.n; ++i)
                        I.copies.push_back({(int)(idx + i), (int)i});
                } else if (auto* iv = dyn_cast<InsertValueInst>(&in)) {
                    I.k = K_COPY;
                    Opnd agg = O(0), el = O(1);
                    unsigned idx = aggIndex(ty, iv->getIndices());
                    unsigned k = nslots(iv->getInsertedValueOperand()->getType());
                    I.ops = {agg, el};
                    I.sub = 1;
                    for (unsigned i = 0; i < I.n; ++i) {
                        if (i >= idx && i < idx + k)
                            I.copies.push_back({-(int)(i - idx) - 1, (int)i});
                        else
                            I.copies.push_back({(int)i, (int)i});
                    }
                } else if (auto* sv = dyn_cast<ShuffleVectorInst>(&in)) {
                    I.k = K_COPY;
                    I.ops = {O(0), O(1)};
                    I.sub = 1;
                    int n0 = (int)nslots(sv->getOperand(0)->getType());
                    for (unsigned i = 0; i < I.n; ++i) {
                        int m = sv->getMaskValue(i);
                        if (m < 0)
                            m = 0;
                        I.copies.push_back({m < n0 ? m : -(m - n0) - 1, (int)i});
                    }
                } else if (isa<InsertElementInst>(&in)) {
                    I.k = K_INSELT;
                    I.ops = {O(0), O(1), O(2)};
                } else if (isa<ExtractElementInst>(&in)) {
                    I.k = K_EXTELT;
                    I.ops = {O(0), O(1)};
                    I.n = nslots(in.getOperand(0)->getType());
                } else if (isa<FreezeInst>(&in)) {
                    I.k = K_COPY;
                    I.ops = {O(0)};
                    for (unsigned i = 0; i < I.n; ++i)
                        I.copies.push_back({(int)i, (int)i});
                } else if (isa<ResumeInst>(&in)) {
                    I.k = K_RESUME;
                    I.ops = {O(0)};
                } else if (isa<LandingPadInst>(&in)) {
                    I.k = K_LANDING;
                } else if (auto* rmw = dyn_cast<AtomicRMWInst>(&in)) {
                    I.k = K_RMW;
                    I.sub = rmw->getOperation();
                    I.ops = {O(0), O(1)};
                    flatten(ty, 0, I.flat);
                } else if (isa<AtomicCmpXchgInst>(&in)) {
                    I.k = K_CMPXCHG;
                    I.ops = {O(0), O(1), O(2)};
                    flatten(in.getOperand(1)->getType(), 0, I.flat);
                    I.w2 = (uint16_t)scalarW(in.getOperand(1)->getType());
                } else if (isa<FenceInst>(&in)) {
                    I.k = K_NOP;
                } else {
                    std::string s;
                    raw_string_ostream os(s);
                    in.print(os);
                    fprintf(stderr, "unsupported instruction: %s\n", s.c_str());
                    _exit(73);
                }
                fi.code.push_back(std::move(I));
            }
        }
    }
    unsigned aggIndex(Type* t, ArrayRef<unsigned> idx)
    {
        unsigned r = 0;
        for (unsigned i: idx) {
            if (auto* st = dyn_cast<StructType>(t)) {
                for (unsigned j = 0; j < i; ++j)
                    r += nslots(st->getElementType(j));
                t = st->getElementType(i);
            } else {
                auto* at = cast<ArrayType>(t);
                r += i * nslots(at->getElementType());
                t = at->getElementType();
            }
        }
        return r;
    }

    // ---------------------------------------------------------- state helpers
    static Val get(const Frame& f, const Opnd& o, unsigned i = 0)
    {
        return o.slot >= 0 ? f.regs[o.slot + i] : o.cval[i];
    }
    std::string where(State& s)
    {
        std::string r;
        int cnt = 0;
        for (size_t i = s.fr.size(); i-- > 0 && cnt < 12;) {
            Frame& f = s.fr[i];
            uint32_t pc = f.pc;
            if (pc >= f.fn->code.size())
                pc = (uint32_t)f.fn->code.size() - 1;
            const Instruction* in = f.fn->code[pc].ll;
            std::string loc;
            if (in)
                if (auto& d = in->getDebugLoc())
                    loc = std::string(cast<DIScope>(d->getScope())->getFilename()) + ":" + std::to_string(d.getLine());
            r += (cnt ? " < " : "") + f.fn->name + (loc.empty() ? "" : "(" + loc + ")");
            cnt++;
        }
        return r;
    }
    void addPc(State& s, E c)
    {
        if (isC(c))
            return;
        if (c->op == O_AND && c->w == 1) {
            addPc(s, c->k[0]);
            addPc(s, c->k[1]);
            return;
        }
        for (size_t i = s.pc.size(); i-- > 0;)
            if (s.pc[i] == c)
                return;
        s.pc.push_back(c);
    }
    Res sat(State& s, E c, std::shared_ptr<const Model>& m)
    {
        Res r = solveSat(s.pc, c, *s.model, m);
        if (r == Res::Unknown)
            incomplete["solver-unknown"]++;
        return r;
    }

    void report(State& s, const std::string& kind, const std::string& msg, const Model& m)
    {
        std::string w = where(s);
        std::string key = kind + "|" + msg + "|" + (kind == "assert" ? "" : w.substr(0, w.find(" < ")));
        if (!errKeys.insert(key).second)
            return;
        ErrorRec e;
        e.kind = kind;
        e.msg = msg;
        e.where = w;
        for (auto& i: s.inputs) {
            e.inputs.push_back({i.name, evalE(i.e, m)});
            e.widths.push_back(i.w);
        }
        errors.push_back(std::move(e));
        if (opt.trace)
            fprintf(stderr, "ERROR %s: %s at %s\n", kind.c_str(), msg.c_str(), w.c_str());
    }
    [[noreturn]] void fail(State& s, const std::string& kind, const std::string& msg)
    {
        report(s, kind, msg, *s.model);
        throw PathEnd{"error"};
    }
    [[noreturn]] void unsupported(State& s, const std::string& msg)
    {
        incomplete["unsupported: " + msg + " at " + where(s)]++;
        throw PathEnd{"unsupported"};
    }
    void pushFork(State& s, E c, std::shared_ptr<const Model> m)
    {
        forks++;
        auto n = std::make_unique<State>(s);
        addPc(*n, c);
        n->model = std::move(m);
        n->depth++;
        work.push_back(std::move(n));
    }

    bool uninitDependent(State& s, E c)
    {
        // with the ordinary inputs fixed as in the model, can the uninitialised bytes flip the outcome?
        E q = mkTrue();
        for (uint32_t v: varsOf(c)) {
            if (gVars[v].uninit)
                continue;
            E var = nullptr;
            for (auto& i: s.inputs)
                if (i.e->op == O_VAR && i.e->aux == v)
                    var = i.e;
            if (!var)
                continue;
            q = mkBin(O_AND, q, mkEq(var, mkConst(evalE(var, *s.model), var->w)));
        }
        bool cur = evalE(c, *s.model) != 0;
        q = mkBin(O_AND, q, cur ? mkNot(c) : c);
        std::shared_ptr<const Model> m;
        return solveSat(s.pc, q, *s.model, m) == Res::Sat;
    }

    // Decide a symbolic condition: forks; returns the side the current state takes.
    bool decide(State& s, Val v)
    {
        if (!v.e)
            return v.c & 1;
        E c = v.e;
        E nc = mkNot(c);
        for (size_t i = s.pc.size(); i-- > 0;) {
            if (s.pc[i] == c)
                return true;
            if (s.pc[i] == nc)
                return false;
        }
        bool cur = evalE(c, *s.model) != 0;
        E mine = cur ? c : nc, other = cur ? nc : c;
        std::shared_ptr<const Model> m;
        if (sat(s, other, m) == Res::Sat) {
            if (c->uninit && opt.uninitCheck && uninitDependent(s, c))
                report(s, "uninit", "control flow depends on uninitialised memory", *s.model);
            pushFork(s, other, m);
            addPc(s, mine);
        }
        return cur;
    }
    // Returns a concrete value for v; other values are explored by forked states that re-execute.
    uint64_t concretize(State& s, Val v, unsigned w)
    {
        if (!v.e)
            return v.c;
        uint64_t x = (uint64_t)evalE(v.e, *s.model);
        E eq = mkEq(v.e, mkConst(x, w));
        E ne = mkNot(eq);
        std::shared_ptr<const Model> m;
        if (sat(s, ne, m) == Res::Sat)
            pushFork(s, ne, m);
        addPc(s, eq);
        return x;
    }

    // Check that cond holds always; otherwise report and continue with cond assumed.
    void require(State& s, E ok, const std::string& kind, const std::string& msg)
    {
        if (isC(ok)) {
            if (!ok->val)
                fail(s, kind, msg);
            return;
        }
        if (!evalE(ok, *s.model)) {
            report(s, kind, msg, *s.model);
            std::shared_ptr<const Model> m;
            if (sat(s, ok, m) != Res::Sat)
                throw PathEnd{"error"};
            s.model = m;
            addPc(s, ok);
            return;
        }
        std::shared_ptr<const Model> m;
        if (sat(s, mkNot(ok), m) == Res::Sat) {
            report(s, kind, msg, *m);
            addPc(s, ok);
        }
    }

    Memory& memFor(State& s, uint64_t a)
    {
        return a >= STACK_BASE ? s.stk : s.mem;
    }
    Obj* findObj(State& s, uint64_t a)
    {
        if (a >= STACK_BASE)
            return s.stk.find(a);
        if (a >= MEM_BASE)
            return s.mem.find(a);
        return nullptr;
    }
    static bool inside(Obj* o, uint64_t a, uint64_t n)
    {
        return o && a >= o->addr && n <= o->size && a - o->addr <= o->size - n;
    }
    std::string describe(State& s, uint64_t a, uint64_t n)
    {
        if (a < 4096)
            return "access through null pointer";
        Obj* o = findObj(s, a);
        if (!o)
            return "access to freed or unmapped memory";
        char b[200];
        snprintf(b,
                 sizeof b,
                 "out-of-bounds access: %llu byte(s) at offset %lld of %s object of %llu bytes",
                 (unsigned long long)n,
                 (long long)(a - o->addr),
                 o->kind == 0 ? "global" : o->kind == 2 ? "stack" : "heap",
                 (unsigned long long)o->size);
        return b;
    }

    // An address that is a choice between constants (a loaded pointer): the choice tree restricted to object o.
    // Returns false when the address has another form or too many leaves; r is null when no leaf lies in the object.
    bool pruneAddr(E e, u128 add, unsigned hiShift, u128 hi, Obj* o, uint64_t n, E& r, int& budget)
    {
        if (--budget < 0)
            return false;
        if (isC(e)) {
            uint64_t v = (uint64_t)(((hi << hiShift) | e->val) + add);
            r = inside(o, v, n) ? mkConst(v - o->addr, 64) : nullptr;
            return true;
        }
        if (e->op == O_ITE) {
            E x, y;
            if (!pruneAddr(e->k[1], add, hiShift, hi, o, n, x, budget) ||
                !pruneAddr(e->k[2], add, hiShift, hi, o, n, y, budget))
                return false;
            r = !x ? y : !y ? x : mkIte(e->k[0], x, y);
            return true;
        }
        if (e->op == O_ADD && isC(e->k[0]) && e->w == 64)
            return pruneAddr(e->k[1], add + e->k[0]->val, 0, 0, o, n, r, budget);
        if (e->op == O_CONCAT && isC(e->k[0]) && hiShift == 0 && e->w == 64)
            return pruneAddr(e->k[1], add, e->k[1]->w, e->k[0]->val, o, n, r, budget);
        return false;
    }
    // Resolve an address to one object. Returns object; off symbolic or concrete.
    Obj* resolve(State& s, Val addr, uint64_t n, Val& off, bool write)
    {
        if (!addr.e) {
            Obj* o = findObj(s, addr.c);
            if (!inside(o, addr.c, n)) {
                if (n == 0) {
                    off = cv(0);
                    return o;
                }
                fail(s, "memory", describe(s, addr.c, n) + (write ? " (write)" : " (read)"));
            }
            off = cv(addr.c - o->addr);
            return o;
        }
        E a = addr.e;
        if (a->uninit && opt.uninitCheck) {
            E base = mkEq(a, mkConst(evalE(a, *s.model), 64));
            if (!isC(base) && uninitDependent(s, base))
                fail(s, "uninit", "address depends on uninitialised memory");
        }
        memQueries++;
        while (true) {
            uint64_t av = (uint64_t)evalE(a, *s.model);
            Obj* o = findObj(s, av);
            if (!inside(o, av, n)) {
                report(s, "memory", describe(s, av, n) + (write ? " (write)" : " (read)"), *s.model);
                // continue with a valid value when the object is known
                if (o && o->size >= n) {
                    E ok = mkBin(O_ULE, mkSub(a, mkConst(o->addr, 64)), mkConst(o->size - n, 64));
                    std::shared_ptr<const Model> m;
                    if (sat(s, ok, m) == Res::Sat) {
                        s.model = m;
                        addPc(s, ok);
                        continue;
                    }
                }
                throw PathEnd{"error"};
            }
            E rel = mkSub(a, mkConst(o->addr, 64));
            E ok = mkBin(O_ULE, rel, mkConst(o->size - n, 64));
            if (!isC(ok)) {
                int budget = 200;
                E pr = nullptr;
                if (pruneAddr(a, 0, 0, 0, o, n, pr, budget) && pr) {
                    rel = pr;
                    if (isC(pr))
                        ok = mkEq(a, mkConst(o->addr + pr->val, 64));
                }
                std::shared_ptr<const Model> m;
                if (sat(s, mkNot(ok), m) == Res::Sat) {
                    uint64_t av2 = (uint64_t)evalE(a, *m);
                    Obj* o2 = findObj(s, av2);
                    if (inside(o2, av2, n)) {
                        pushFork(s, mkNot(ok), m);
                    } else {
                        report(s, "memory", describe(s, av2, n) + (write ? " (write)" : " (read)"), *m);
                        // other objects may still be possible; explore only this one
                    }
                    addPc(s, ok);
                }
            }
            off = fromE(rel);
            return o;
        }
    }
    static unsigned lowZeros(E e, int d = 10)
    {
        if (isC(e)) {
            if (!e->val)
                return e->w;
            unsigned n = 0;
            while (!((e->val >> n) & 1))
                n++;
            return n;
        }
        if (d <= 0)
            return 0;
        switch (e->op) {
            case O_CONCAT: {
                unsigned l = lowZeros(e->k[1], d - 1);
                return l == e->k[1]->w ? l + lowZeros(e->k[0], d - 1) : l;
            }
            case O_ADD:
            case O_OR:
            case O_XOR:
                return std::min(lowZeros(e->k[0], d - 1), lowZeros(e->k[1], d - 1));
            case O_MUL:
                return std::min((unsigned)e->w, lowZeros(e->k[0], d - 1) + lowZeros(e->k[1], d - 1));
            case O_ITE:
                return std::min(lowZeros(e->k[1], d - 1), lowZeros(e->k[2], d - 1));
            case O_SEXT:
                return std::min(lowZeros(e->k[0], d - 1), (unsigned)e->k[0]->w);
            default:
                return 0;
        }
    }

    E byteOf(State& s, Obj*& o, uint64_t i)
    {
        if (o->sym && o->sym[i]) {
            if (o->sym[i] == UNINIT) {
                E v = mkVar("uninit" + std::to_string(uninitNo++), 8, true);
                Obj* wo = memFor(s, o->addr).findW(o->addr);
                wo->sym[i] = v;
                o = wo;
                return v;
            }
            return o->sym[i];
        }
        return mkConst(o->data[i], 8);
    }
    // Values of arithmetic remembered by their bytes: the bytes of a sum lose its structure.
    struct SplitHash
    {
        size_t operator()(const std::array<uint32_t, 8>& a) const
        {
            uint64_t h = 1469598103934665603ull;
            for (uint32_t x: a)
                h = (h ^ x) * 1099511628211ull;
            return h ^ h >> 29;
        }
    };
    std::unordered_map<std::array<uint32_t, 8>, E, SplitHash> splits;
    static bool arithDeep(E e, int d = 4)
    {
        if (e->op == O_ADD || (e->op >= O_MUL && e->op <= O_SREM))
            return true;
        if (d > 0 && (e->op == O_ITE || e->op == O_CONCAT || e->op == O_SEXT || e->op == O_EXTRACT || e->op == O_SHL))
            for (int i = e->op == O_ITE ? 1 : 0; i < 3; ++i)
                if (e->k[i] && arithDeep(e->k[i], d - 1))
                    return true;
        return false;
    }
    static std::array<uint32_t, 8> splitKey(E* bs, unsigned bytes)
    {
        std::array<uint32_t, 8> k;
        for (unsigned i = 0; i < 8; ++i)
            k[i] = i < bytes ? bs[i]->id : ~0u;
        return k;
    }
    void splitNote(E* bs, unsigned bytes, E e)
    {
        if ((bytes == 4 || bytes == 8) && arithDeep(e))
            splits.emplace(splitKey(bs, bytes), e);
    }
    E splitWhole(E* bs, unsigned bytes)
    {
        if ((bytes != 4 && bytes != 8) || splits.empty())
            return nullptr;
        auto it = splits.find(splitKey(bs, bytes));
        return it == splits.end() ? nullptr : it->second;
    }
    Val loadAt(State& s, Obj* o, uint64_t off, unsigned bytes, unsigned w)
    {
        if (!o->sym) {
            if (bytes <= 8) {
                uint64_t v = 0;
                memcpy(&v, &o->data[off], bytes);
                return cv(v & m64(w));
            }
            u128 v = 0;
            memcpy(&v, &o->data[off], bytes);
            return Val{0, mkConst(v, w)};
        }
        bool any = false;
        for (unsigned i = 0; i < bytes; ++i)
            if (o->sym[off + i]) {
                any = true;
                break;
            }
        if (!any && bytes <= 8) {
            uint64_t v = 0;
            memcpy(&v, &o->data[off], bytes);
            return cv(v & m64(w));
        }
        E bs[16];
        for (unsigned i = 0; i < bytes && i < 16; ++i)
            bs[i] = byteOf(s, o, off + i);
        E r = splitWhole(bs, bytes);
        if (!r) {
            r = bs[0];
            for (unsigned i = 1; i < bytes; ++i)
                r = mkConcat(i < 16 ? bs[i] : byteOf(s, o, off + i), r);
        }
        if (r->w != w)
            r = mkExtract(r, 0, w);
        if (w > 64)
            return Val{0, r};
        return fromE(r);
    }
    Val load(State& s, Val addr, unsigned bytes, unsigned w)
    {
        Val off;
        Obj* o = resolve(s, addr, bytes, off, false);
        if (!off.e)
            return loadAt(s, o, off.c, bytes, w);
        unsigned lz = lowZeros(off.e);
        if (lz > 12)
            lz = 12;
        uint64_t stride = 1ull << lz;
        uint64_t cnt = (o->size - bytes) / stride + 1;
        if (cnt > 8192) {
            uint64_t a = concretize(s, off, 64);
            return loadAt(s, o, a, bytes, w);
        }
        std::vector<E> el;
        for (uint64_t i = 0; i < cnt; ++i)
            el.push_back(toE(loadAt(s, findObj(s, o->addr), i * stride, bytes, w), w));
        E idx = mkExtract(off.e, lz, 64 - lz);
        E r = mkTable(el, idx);
        if (w > 64)
            return Val{0, r};
        return fromE(r);
    }
    void storeAt(State& s, Obj* o, uint64_t off, unsigned bytes, Val v, unsigned w)
    {
        if (!v.e) {
            for (unsigned i = 0; i < bytes; ++i)
                o->setC(off + i, i < 8 ? (uint8_t)(v.c >> (8 * i)) : 0);
            return;
        }
        E e = v.e;
        if (w < bytes * 8)
            e = mkZExt(e, bytes * 8);
        E bs[16];
        for (unsigned i = 0; i < bytes; ++i) {
            E b = mkExtract(e, 8 * i, 8);
            if (i < 16)
                bs[i] = b;
            o->setE(off + i, b);
        }
        splitNote(bs, bytes, e);
    }
    Obj* writable(State& s, Obj* o)
    {
        if (o->readonly)
            fail(s, "memory", "write to read-only object");
        return memFor(s, o->addr).findW(o->addr);
    }
    void store(State& s, Val addr, unsigned bytes, Val v, unsigned w)
    {
        Val off;
        Obj* o = resolve(s, addr, bytes, off, true);
        o = writable(s, o);
        if (!off.e) {
            storeAt(s, o, off.c, bytes, v, w);
            return;
        }
        unsigned lz = lowZeros(off.e);
        if (lz > 12)
            lz = 12;
        uint64_t stride = 1ull << lz;
        uint64_t cnt = (o->size - bytes) / stride + 1;
        if (cnt > 1024) {
            uint64_t a = concretize(s, off, 64);
            storeAt(s, writable(s, findObj(s, o->addr)), a, bytes, v, w);
            return;
        }
        E e = toE(v, w);
        if (w < bytes * 8)
            e = mkZExt(e, bytes * 8);
        std::vector<E> old;
        for (uint64_t i = 0; i < o->size; ++i)
            old.push_back(nullptr);
        for (uint64_t i = 0; i < cnt; ++i) {
            E c = mkEq(mkConst(i * stride, 64), off.e);
            if (isC(c) && !c->val)
                continue;
            for (unsigned b = 0; b < bytes; ++b) {
                uint64_t p = i * stride + b;
                E cur = byteOf(s, o, p);
                o->setE(p, mkIte(c, mkExtract(e, 8 * b, 8), cur));
            }
        }
    }

    // ---------------------------------------------------------- operators
    Val bin(State& s, unsigned op, unsigned w, Val a, Val b)
    {
        if (!a.e && !b.e) {
            uint64_t x = a.c, y = b.c, m = m64(w);
            switch (op) {
                case Instruction::Add:
                    return cv((x + y) & m);
                case Instruction::Sub:
                    return cv((x - y) & m);
                case Instruction::Mul:
                    return cv((x * y) & m);
                case Instruction::And:
                    return cv(x & y);
                case Instruction::Or:
                    return cv(x | y);
                case Instruction::Xor:
                    return cv(x ^ y);
                case Instruction::Shl:
                    return cv(y >= w ? 0 : (x << y) & m);
                case Instruction::LShr:
                    return cv(y >= w ? 0 : x >> y);
                case Instruction::AShr: {
                    int64_t sx = (int64_t)sextW(x, w);
                    return cv((uint64_t)(sx >> (y >= w ? w - 1 : y)) & m);
                }
                case Instruction::UDiv:
                case Instruction::URem:
                    if (!y)
                        fail(s, "divzero", "division by zero");
                    return cv(op == Instruction::UDiv ? x / y : x % y);
                case Instruction::SDiv:
                case Instruction::SRem: {
                    if (!y)
                        fail(s, "divzero", "division by zero");
                    u128 k[2] = {x, y};
                    unsigned kw[2] = {w, w};
                    return cv((uint64_t)evalOp(op == Instruction::SDiv ? O_SDIV : O_SREM, w, 0, k, kw, 2));
                }
                default:
                    break;
            }
        }
        E x = toE(a, w), y = toE(b, w);
        E r;
        switch (op) {
            case Instruction::Add:
                r = mkAdd(x, y);
                break;
            case Instruction::Sub:
                r = mkSub(x, y);
                break;
            case Instruction::Mul:
                r = mkBin(O_MUL, x, y);
                break;
            case Instruction::And:
                r = mkBin(O_AND, x, y);
                break;
            case Instruction::Or:
                r = mkBin(O_OR, x, y);
                break;
            case Instruction::Xor:
                r = mkBin(O_XOR, x, y);
                break;
            case Instruction::Shl:
            case Instruction::LShr:
            case Instruction::AShr:
                r = mkBin(op == Instruction::Shl ? O_SHL : op == Instruction::LShr ? O_LSHR : O_ASHR, x, y);
                break;
            case Instruction::UDiv:
            case Instruction::URem:
            case Instruction::SDiv:
            case Instruction::SRem:
                require(s, mkNot(mkEq(y, mkConst(0, w))), "divzero", "division by zero");
                r = mkBin(op == Instruction::UDiv   ? O_UDIV
                          : op == Instruction::URem ? O_UREM
                          : op == Instruction::SDiv ? O_SDIV
                                                    : O_SREM,
                          x,
                          y);
                break;
            default:
                unsupported(s, "binop");
        }
        return w > 64 ? Val{0, r} : fromE(r);
    }
    Val icmp(unsigned p, unsigned w, Val a, Val b)
    {
        if (!a.e && !b.e) {
            uint64_t x = a.c, y = b.c;
            int64_t sx = (int64_t)sextW(x, w), sy = (int64_t)sextW(y, w);
            switch (p) {
                case CmpInst::ICMP_EQ:
                    return cv(x == y);
                case CmpInst::ICMP_NE:
                    return cv(x != y);
                case CmpInst::ICMP_UGT:
                    return cv(x > y);
                case CmpInst::ICMP_UGE:
                    return cv(x >= y);
                case CmpInst::ICMP_ULT:
                    return cv(x < y);
                case CmpInst::ICMP_ULE:
                    return cv(x <= y);
                case CmpInst::ICMP_SGT:
                    return cv(sx > sy);
                case CmpInst::ICMP_SGE:
                    return cv(sx >= sy);
                case CmpInst::ICMP_SLT:
                    return cv(sx < sy);
                case CmpInst::ICMP_SLE:
                    return cv(sx <= sy);
            }
        }
        E x = toE(a, w), y = toE(b, w);
        switch (p) {
            case CmpInst::ICMP_EQ:
                return fromE(mkEq(x, y));
            case CmpInst::ICMP_NE:
                return fromE(mkNot(mkEq(x, y)));
            case CmpInst::ICMP_UGT:
                return fromE(mkBin(O_ULT, y, x));
            case CmpInst::ICMP_UGE:
                return fromE(mkBin(O_ULE, y, x));
            case CmpInst::ICMP_ULT:
                return fromE(mkBin(O_ULT, x, y));
            case CmpInst::ICMP_ULE:
                return fromE(mkBin(O_ULE, x, y));
            case CmpInst::ICMP_SGT:
                return fromE(mkBin(O_SLT, y, x));
            case CmpInst::ICMP_SGE:
                return fromE(mkBin(O_SLE, y, x));
            case CmpInst::ICMP_SLT:
                return fromE(mkBin(O_SLT, x, y));
            case CmpInst::ICMP_SLE:
                return fromE(mkBin(O_SLE, x, y));
        }
        abort();
    }
    Val fcmp(unsigned p, unsigned w, Val a, Val b)
    {
        E x = toE(a, w), y = toE(b, w);
        E uno = mkFp(O_FUNO, 1, x, y);
        E r;
        bool unord = p >= CmpInst::FCMP_UEQ && p <= CmpInst::FCMP_UNE;
        switch (p) {
            case CmpInst::FCMP_FALSE:
                return cv(0);
            case CmpInst::FCMP_TRUE:
                return cv(1);
            case CmpInst::FCMP_ORD:
                return fromE(mkNot(uno));
            case CmpInst::FCMP_UNO:
                return fromE(uno);
            case CmpInst::FCMP_OEQ:
            case CmpInst::FCMP_UEQ:
                r = mkFp(O_FOEQ, 1, x, y);
                break;
            case CmpInst::FCMP_ONE:
                return fromE(mkBin(O_AND, mkNot(uno), mkNot(mkFp(O_FOEQ, 1, x, y))));
            case CmpInst::FCMP_UNE:
                return fromE(mkNot(mkFp(O_FOEQ, 1, x, y)));
            case CmpInst::FCMP_OGT:
            case CmpInst::FCMP_UGT:
                r = mkFp(O_FOLT, 1, y, x);
                break;
            case CmpInst::FCMP_OGE:
            case CmpInst::FCMP_UGE:
                r = mkFp(O_FOLE, 1, y, x);
                break;
            case CmpInst::FCMP_OLT:
            case CmpInst::FCMP_ULT:
                r = mkFp(O_FOLT, 1, x, y);
                break;
            default:
                r = mkFp(O_FOLE, 1, x, y);
                break;
        }
        if (unord)
            r = mkBin(O_OR, uno, r);
        return fromE(r);
    }
    Val castOp(State& s, unsigned op, unsigned sw, unsigned dw, Val a)
    {
        switch (op) {
            case Instruction::Trunc:
                if (!a.e)
                    return cv(a.c & m64(dw));
                return dw > 64 ? Val{0, mkExtract(a.e, 0, dw)} : fromE(mkExtract(a.e, 0, dw));
            case Instruction::ZExt:
            case Instruction::PtrToInt:
            case Instruction::IntToPtr:
                if (dw <= sw)
                    return castOp(s, Instruction::Trunc, sw, dw, a);
                if (!a.e && dw <= 64)
                    return a;
                {
                    E r = mkZExt(toE(a, sw), dw);
                    return dw > 64 ? Val{0, r} : fromE(r);
                }
            case Instruction::SExt:
                if (!a.e && dw <= 64)
                    return cv((uint64_t)sextW(a.c, sw) & m64(dw));
                {
                    E r = mkSExt(toE(a, sw), dw);
                    return dw > 64 ? Val{0, r} : fromE(r);
                }
            case Instruction::BitCast:
                return a;
            case Instruction::FPToSI:
                return fromE(mkFp(O_FP2SI, dw, toE(a, sw)));
            case Instruction::FPToUI:
                return fromE(mkFp(O_FP2UI, dw, toE(a, sw)));
            case Instruction::SIToFP:
                return fromE(mkFp(O_SI2FP, dw, toE(a, sw)));
            case Instruction::UIToFP:
                return fromE(mkFp(O_UI2FP, dw, toE(a, sw)));
            case Instruction::FPExt:
                if (sw == dw)
                    return a;
                return fromE(mkFp(O_FPEXT, dw, toE(a, sw)));
            case Instruction::FPTrunc:
                if (sw == dw)
                    return a;
                return fromE(mkFp(O_FPTRUNC, dw, toE(a, sw)));
        }
        unsupported(s, "cast");
    }
    Val ite(Val c, Val a, Val b, unsigned w)
    {
        if (!c.e)
            return (c.c & 1) ? a : b;
        E r = mkIte(c.e, toE(a, w), toE(b, w));
        return w > 64 ? Val{0, r} : fromE(r);
    }

    // ---------------------------------------------------------- control
    void enterBlock(State& s, Frame& f, int target)
    {
        int prev = f.curBlock;
        Block& B = f.fn->blocks[target];
        if (!B.phis.empty()) {
            static std::vector<Val> tmp;
            tmp.clear();
            for (auto& p: B.phis) {
                for (auto& in: p.in)
                    if (in.first == prev) {
                        for (unsigned i = 0; i < p.n; ++i)
                            tmp.push_back(get(f, in.second, i));
                        break;
                    }
            }
            size_t k = 0;
            for (auto& p: B.phis)
                for (unsigned i = 0; i < p.n; ++i)
                    f.regs[p.dst + i] = tmp[k++];
        }
        f.curBlock = target;
        f.pc = B.start;
        (void)s;
    }

    void pushCall(State& s, FnInfo* fi, std::vector<std::vector<Val>>& args, const Inst* ci)
    {
        prepare(*fi);
        if (!fi->entered)
            fi->entered = true;
        if (s.fr.size() > 4000)
            fail(s, "recursion", "call depth exceeds 4000");
        s.fr.emplace_back();
        Frame& f = s.fr.back();
        f.fn = fi;
        f.regs.assign(fi->nregs, cv(0));
        f.stackMark = s.stk.next;
        for (size_t i = 0; i < args.size(); ++i) {
            if (i < fi->params.size()) {
                auto& p = fi->params[i];
                std::vector<Val>& a = args[i];
                if (ci && i < ci->byval.size() && ci->byval[i]) {
                    Obj* o = s.stk.alloc(ci->byval[i], 2);
                    uint64_t na = o->addr;
                    o->markUninit();
                    copyMem(s, cv(na), a[0], ci->byval[i]);
                    f.regs[p.first] = cv(na);
                    continue;
                }
                for (unsigned k = 0; k < p.second && k < a.size(); ++k)
                    f.regs[p.first + k] = a[k];
            } else {
                for (auto& v: args[i])
                    f.varargs.push_back(v);
            }
        }
        f.curBlock = 0;
        f.pc = fi->blocks[0].start;
    }
    void copyMem(State& s, Val dst, Val src, uint64_t n)
    {
        if (!n)
            return;
        if (src.e)
            src = cv(concretize(s, src, 64));
        if (dst.e)
            dst = cv(concretize(s, dst, 64));
        Val so, d0;
        Obj* o = resolve(s, src, n, so, false);
        Obj* d = resolve(s, dst, n, d0, true);
        d = writable(s, d);
        o = findObj(s, src.c);
        if (!o->sym && !d->sym) {
            memmove(&d->data[d0.c], &o->data[so.c], n);
            return;
        }
        std::vector<uint8_t> cb(&o->data[so.c], &o->data[so.c] + n);
        std::vector<E> eb(n, nullptr);
        if (o->sym)
            for (uint64_t i = 0; i < n; ++i)
                eb[i] = o->sym[so.c + i];
        for (uint64_t i = 0; i < n; ++i) {
            if (eb[i])
                d->setE(d0.c + i, eb[i]);
            else
                d->setC(d0.c + i, cb[i]);
        }
    }

    // ---------------------------------------------------------- exceptions / RTTI
    uint64_t ld64(State& s, uint64_t a)
    {
        Val v = load(s, cv(a), 8, 64);
        if (v.e)
            return concretize(s, v, 64);
        return v.c;
    }
    uint32_t ld32(State& s, uint64_t a)
    {
        Val v = load(s, cv(a), 4, 32);
        return (uint32_t)(v.e ? concretize(s, v, 32) : v.c);
    }
    // is `t` == target or derived from it? off: adjustment of the base subobject. objAddr used for virtual bases.
    bool isBase(State& s, uint64_t t, uint64_t target, uint64_t obj, int64_t off, int64_t& res)
    {
        if (t == target) {
            res = off;
            return true;
        }
        uint64_t vt = ld64(s, t);
        if (vt == vtSI) {
            return isBase(s, ld64(s, t + 16), target, obj, off, res);
        }
        if (vt == vtVMI) {
            uint32_t n = ld32(s, t + 20);
            for (uint32_t i = 0; i < n; ++i) {
                uint64_t b = ld64(s, t + 24 + 16 * i);
                int64_t fl = (int64_t)ld64(s, t + 24 + 16 * i + 8);
                int64_t bo = fl >> 8;
                if (fl & 1) { // virtual
                    if (!obj)
                        continue;
                    uint64_t vptr = ld64(s, obj + off);
                    bo = (int64_t)ld64(s, vptr + bo);
                }
                if (isBase(s, b, target, obj, off + bo, res))
                    return true;
            }
        }
        return false;
    }
    ExcInfo* exc(State& s, uint64_t obj)
    {
        for (size_t i = s.excs.size(); i-- > 0;)
            if (s.excs[i].obj == obj)
                return &s.excs[i];
        return nullptr;
    }
    int typeId(uint64_t t)
    {
        if (!t)
            return 1; // catch-all
        for (size_t i = 0; i < typeIds.size(); ++i)
            if (typeIds[i] == t)
                return (int)i + 2;
        typeIds.push_back(t);
        return (int)typeIds.size() + 1;
    }
    std::string typeName(State& s, uint64_t t)
    {
        try {
            return cstr(s, ld64(s, t + 8));
        } catch (...) {
            return "?";
        }
    }
    std::string cstr(State& s, uint64_t a, unsigned max = 300)
    {
        std::string r;
        for (unsigned i = 0; i < max; ++i) {
            Obj* o = findObj(s, a + i);
            if (!inside(o, a + i, 1))
                break;
            uint64_t off = a + i - o->addr;
            if (o->sym && o->sym[off]) {
                E e = o->sym[off];
                if (e == UNINIT) {
                    r += '?';
                    continue;
                }
                char ch = (char)evalE(e, *s.model);
                if (!ch)
                    break;
                r += ch;
                continue;
            }
            if (!o->data[off])
                break;
            r += (char)o->data[off];
        }
        return r;
    }
    void unwind(State& s, uint64_t obj)
    {
        ExcInfo* ei = exc(s, obj);
        if (!ei)
            fail(s, "internal", "unknown exception object");
        // frame 0 is the entry; current frame's call instruction is the one at pc
        while (true) {
            if (s.fr.empty())
                throw PathEnd{"uncaught"};
            Frame& f = s.fr.back();
            const Inst& ci = f.fn->code[f.pc];
            if (ci.k == K_CALL && ci.t1 >= 0) {
                int tgt = ci.t1;
                // examine landing pad
                Block& B = f.fn->blocks[tgt];
                const Inst& lp = f.fn->code[B.start];
                auto* L = cast<LandingPadInst>(lp.ll);
                int sel = -1;
                int64_t adj = 0;
                for (unsigned i = 0; i < L->getNumClauses(); ++i) {
                    if (L->isCatch(i)) {
                        std::vector<Val> cvs;
                        constVals(L->getClause(i), cvs);
                        uint64_t t = cvs[0].c;
                        if (!t) {
                            sel = 1;
                            adj = 0;
                            break;
                        }
                        if (isBase(s, ei->tinfo, t, obj, 0, adj)) {
                            sel = typeId(t);
                            break;
                        }
                    } else {
                        sel = 1 << 20; // filter: treat as matching (terminate/unexpected)
                        break;
                    }
                }
                if (sel < 0 && L->isCleanup())
                    sel = 0;
                if (sel >= 0) {
                    if (sel > 0)
                        ei->adjusted = obj + adj;
                    int dst = lp.dst;
                    enterBlock(s, f, tgt);
                    f.regs[dst] = cv(obj);
                    f.regs[dst + 1] = cv((uint32_t)sel);
                    f.pc = B.start + 1;
                    return;
                }
            }
            if (s.fr.size() == 1) {
                std::string tn = typeName(s, ei->tinfo);
                fail(s, "uncaught", "uncaught exception of type " + tn);
            }
            s.stk.popTo(f.stackMark);
            s.fr.pop_back();
        }
    }

    // ---------------------------------------------------------- calls
    void setRet(Frame& f, const Inst& I, const std::vector<Val>& ret)
    {
        if (I.dst >= 0)
            for (unsigned i = 0; i < I.n; ++i)
                f.regs[I.dst + i] = i < ret.size() ? ret[i] : cv(0);
    }
    void afterCall(State& s, Frame& f, const Inst& I)
    {
        if (I.t0 >= 0)
            enterBlock(s, f, I.t0);
        else
            f.pc++;
    }

    bool intrinsic(State& s, const Inst& I, std::vector<std::vector<Val>>& a, std::vector<Val>& ret);

    void doCall(State& s, const Inst& I)
    {
        Frame& f = s.fr.back();
        FnInfo* fi = I.callee;
        if (!fi) {
            Val t = get(f, I.ops[0]);
            uint64_t ta = concretize(s, t, 64);
            if (ta < FN_BASE || (ta - FN_BASE) / 16 >= fnByIdx.size() || (ta & 15))
                fail(s, "memory", ta == 0 ? "call through null function pointer" : "call through invalid pointer");
            fi = fnByIdx[(ta - FN_BASE) / 16];
        }
        std::vector<std::vector<Val>> args(I.argN.size());
        for (size_t i = 0; i < I.argN.size(); ++i) {
            args[i].resize(I.argN[i]);
            for (unsigned k = 0; k < I.argN[i]; ++k)
                args[i][k] = get(f, I.ops[i + 1], k);
        }
        std::vector<Val> ret;
        if (fi->f->isIntrinsic()) {
            Inst tmp;
            const Inst* ip = &I;
            if (!I.callee) {
                tmp = I;
                tmp.sub = fi->f->getIntrinsicID();
                ip = &tmp;
            }
            if (!intrinsic(s, *ip, args, ret))
                return;
            Frame& g = s.fr.back();
            setRet(g, I, ret);
            afterCall(s, g, I);
            return;
        }
        if (fi->handler == -1) {
            auto it = handlers.find(fi->name);
            fi->handler = -2;
            if (it != handlers.end()) {
                handlerTab.push_back(it->second);
                fi->handler = (int)handlerTab.size() - 1;
            }
        }
        if (fi->handler >= 0) {
            if (!handlerTab[fi->handler](*this, s, I, args, ret))
                return; // control transferred
            Frame& g = s.fr.back();
            setRet(g, I, ret);
            afterCall(s, g, I);
            return;
        }
        if (fi->f->isDeclaration())
            unsupported(s, "external function " + fi->name);
        pushCall(s, fi, args, &I);
    }
    void doRet(State& s, const Inst& I)
    {
        Frame& f = s.fr.back();
        static std::vector<Val> ret;
        ret.clear();
        for (unsigned i = 0; i < I.n; ++i)
            ret.push_back(get(f, I.ops[0], i));
        bool ctor = f.isCtorCall;
        s.stk.popTo(f.stackMark);
        s.fr.pop_back();
        if (s.fr.empty())
            throw PathEnd{"exit"};
        if (ctor)
            return;
        Frame& g = s.fr.back();
        const Inst& ci = g.fn->code[g.pc];
        setRet(g, ci, ret);
        afterCall(s, g, ci);
    }

    void step(State& s)
    {
        Frame& f = s.fr.back();
        const Inst& I = f.fn->code[f.pc];
        switch (I.k) {
            case K_NOP:
                f.pc++;
                return;
            case K_BIN:
                if (I.n == 1) {
                    Val r = bin(s, I.sub, I.w, get(f, I.ops[0]), get(f, I.ops[1]));
                    f.regs[I.dst] = r;
                } else
                    for (unsigned i = 0; i < I.n; ++i)
                        f.regs[I.dst + i] = bin(s, I.sub, I.w, get(f, I.ops[0], i), get(f, I.ops[1], i));
                f.pc++;
                return;
            case K_ICMP:
                for (unsigned i = 0; i < I.n; ++i)
                    f.regs[I.dst + i] = icmp(I.sub, I.w2, get(f, I.ops[0], i), get(f, I.ops[1], i));
                f.pc++;
                return;
            case K_FCMP:
                for (unsigned i = 0; i < I.n; ++i)
                    f.regs[I.dst + i] = fcmp(I.sub, I.w2, get(f, I.ops[0], i), get(f, I.ops[1], i));
                f.pc++;
                return;
            case K_FBIN:
                for (unsigned i = 0; i < I.n; ++i) {
                    E a = toE(get(f, I.ops[0], i), I.w), b = toE(get(f, I.ops[1], i), I.w);
                    if (I.sub == Instruction::FRem) {
                        if (!isC(a) || !isC(b))
                            unsupported(s, "symbolic frem");
                        double x, y;
                        uint64_t xa = (uint64_t)a->val, ya = (uint64_t)b->val;
                        memcpy(&x, &xa, 8);
                        memcpy(&y, &ya, 8);
                        double r = fmod(x, y);
                        uint64_t ra;
                        memcpy(&ra, &r, 8);
                        f.regs[I.dst + i] = cv(ra);
                        continue;
                    }
                    Op o = I.sub == Instruction::FAdd   ? O_FADD
                           : I.sub == Instruction::FSub ? O_FSUB
                           : I.sub == Instruction::FMul ? O_FMUL
                                                        : O_FDIV;
                    f.regs[I.dst + i] = fromE(mkFp(o, I.w, a, b));
                }
                f.pc++;
                return;
            case K_FNEG:
                for (unsigned i = 0; i < I.n; ++i)
                    f.regs[I.dst + i] =
                        fromE(mkBin(O_XOR, toE(get(f, I.ops[0], i), I.w), mkConst((u128)1 << (I.w - 1), I.w)));
                f.pc++;
                return;
            case K_CAST: {
                if (I.imm && I.imm != ~0ull) {
                    // vector <-> scalar bitcast
                    unsigned sn = (unsigned)I.imm;
                    E all = toE(get(f, I.ops[0], 0), I.w2);
                    for (unsigned i = 1; i < sn; ++i)
                        all = mkConcat(toE(get(f, I.ops[0], i), I.w2), all);
                    for (unsigned i = 0; i < I.n; ++i) {
                        E r = mkExtract(all, i * I.w, I.w);
                        f.regs[I.dst + i] = I.w > 64 ? Val{0, r} : fromE(r);
                    }
                } else
                    for (unsigned i = 0; i < I.n; ++i)
                        f.regs[I.dst + i] = castOp(s, I.sub, I.w2, I.w, get(f, I.ops[0], i));
                f.pc++;
                return;
            }
            case K_SELECT:
                for (unsigned i = 0; i < I.n; ++i)
                    f.regs[I.dst + i] = ite(get(f, I.ops[0], I.imm ? i : 0),
                                            get(f, I.ops[1], i),
                                            get(f, I.ops[2], i),
                                            I.flat[i].w);
                f.pc++;
                return;
            case K_LOAD: {
                Val a = get(f, I.ops[0]);
                for (unsigned i = 0; i < I.n; ++i) {
                    Val p = I.flat[i].off ? bin(s, Instruction::Add, 64, a, cv(I.flat[i].off)) : a;
                    Val r = load(s, p, I.flat[i].bytes, I.flat[i].w);
                    s.fr.back().regs[I.dst + i] = r;
                }
                s.fr.back().pc++;
                return;
            }
            case K_STORE: {
                Val a = get(f, I.ops[0]);
                for (unsigned i = 0; i < I.n; ++i) {
                    Val p = I.flat[i].off ? bin(s, Instruction::Add, 64, a, cv(I.flat[i].off)) : a;
                    store(s, p, I.flat[i].bytes, get(f, I.ops[1], i), I.flat[i].w);
                }
                f.pc++;
                return;
            }
            case K_ALLOCA: {
                uint64_t n = concretize(s, get(f, I.ops[0]), 64);
                Obj* o = s.stk.alloc(I.imm * n, 2);
                o->markUninit();
                s.fr.back().regs[I.dst] = cv(o->addr);
                s.fr.back().pc++;
                return;
            }
            case K_GEP: {
                Val r = get(f, I.ops[0]);
                if (I.imm)
                    r = bin(s, Instruction::Add, 64, r, cv(I.imm));
                for (size_t i = 0; i < I.gep.size(); ++i) {
                    Val x = get(f, I.gep[i].first);
                    if (I.gepw[i] < 64)
                        x = castOp(s, Instruction::SExt, I.gepw[i], 64, x);
                    if (I.gep[i].second != 1)
                        x = bin(s, Instruction::Mul, 64, x, cv(I.gep[i].second));
                    r = bin(s, Instruction::Add, 64, r, x);
                }
                f.regs[I.dst] = r;
                f.pc++;
                return;
            }
            case K_BR:
                enterBlock(s, f, I.t0);
                return;
            case K_CONDBR: {
                bool t = decide(s, get(f, I.ops[0]));
                enterBlock(s, f, t ? I.t0 : I.t1);
                return;
            }
            case K_SWITCH: {
                Val v = get(f, I.ops[0]);
                if (!v.e) {
                    int t = I.t0;
                    for (auto& c: I.cases)
                        if (c.first == v.c) {
                            t = c.second;
                            break;
                        }
                    enterBlock(s, f, t);
                    return;
                }
                uint64_t x = (uint64_t)evalE(v.e, *s.model);
                int t = I.t0;
                bool found = false;
                for (auto& c: I.cases)
                    if (c.first == x) {
                        t = c.second;
                        found = true;
                        break;
                    }
                E cond;
                if (found && t != I.t0) {
                    cond = mkFalse();
                    for (auto& c: I.cases)
                        if (c.second == t)
                            cond = mkBin(O_OR, cond, mkEq(mkConst(c.first, I.w2), v.e));
                } else {
                    cond = mkTrue();
                    for (auto& c: I.cases)
                        if (c.second != I.t0)
                            cond = mkBin(O_AND, cond, mkNot(mkEq(mkConst(c.first, I.w2), v.e)));
                    t = I.t0;
                }
                bool r = decide(s, fromE(cond));
                if (!r)
                    fail(s, "internal", "switch");
                enterBlock(s, s.fr.back(), t);
                return;
            }
            case K_CALL:
                doCall(s, I);
                return;
            case K_RET:
                doRet(s, I);
                return;
            case K_UNREACH:
                fail(s, "unreachable", "executed code the compiler proved unreachable (undefined behaviour)");
            case K_COPY: {
                static std::vector<Val> tmp;
                tmp.clear();
                for (auto& c: I.copies)
                    tmp.push_back(c.first >= 0 ? get(f, I.ops[0], c.first) : get(f, I.ops[1], -c.first - 1));
                for (size_t i = 0; i < I.copies.size(); ++i)
                    f.regs[I.dst + I.copies[i].second] = tmp[i];
                f.pc++;
                return;
            }
            case K_INSELT: {
                uint64_t ix = concretize(s, get(f, I.ops[2]), 64);
                for (unsigned i = 0; i < I.n; ++i)
                    s.fr.back().regs[I.dst + i] = i == ix ? get(f, I.ops[1]) : get(f, I.ops[0], i);
                f.pc++;
                return;
            }
            case K_EXTELT: {
                uint64_t ix = concretize(s, get(f, I.ops[1]), 64);
                f.regs[I.dst] = get(f, I.ops[0], (unsigned)ix);
                f.pc++;
                return;
            }
            case K_RESUME: {
                Val v = get(f, I.ops[0]);
                uint64_t obj = v.c;
                // continue unwinding in callers
                if (s.fr.size() == 1)
                    fail(s, "uncaught", "uncaught exception of type " + typeName(s, exc(s, obj)->tinfo));
                s.stk.popTo(f.stackMark);
                s.fr.pop_back();
                unwind(s, obj);
                return;
            }
            case K_LANDING:
                fail(s, "internal", "landing pad reached normally");
            case K_RMW: {
                Val p = get(f, I.ops[0]);
                Val old = load(s, p, I.flat[0].bytes, I.flat[0].w);
                Val y = get(s.fr.back(), I.ops[1]);
                unsigned w = I.flat[0].w;
                Val n;
                switch (I.sub) {
                    case AtomicRMWInst::Xchg:
                        n = y;
                        break;
                    case AtomicRMWInst::Add:
                        n = bin(s, Instruction::Add, w, old, y);
                        break;
                    case AtomicRMWInst::Sub:
                        n = bin(s, Instruction::Sub, w, old, y);
                        break;
                    case AtomicRMWInst::And:
                        n = bin(s, Instruction::And, w, old, y);
                        break;
                    case AtomicRMWInst::Or:
                        n = bin(s, Instruction::Or, w, old, y);
                        break;
                    case AtomicRMWInst::Xor:
                        n = bin(s, Instruction::Xor, w, old, y);
                        break;
                    default:
                        unsupported(s, "atomicrmw");
                }
                store(s, p, I.flat[0].bytes, n, w);
                s.fr.back().regs[I.dst] = old;
                s.fr.back().pc++;
                return;
            }
            case K_CMPXCHG: {
                Val p = get(f, I.ops[0]);
                unsigned w = I.flat[0].w;
                Val old = load(s, p, I.flat[0].bytes, w);
                Val eq = icmp(CmpInst::ICMP_EQ, w, old, get(f, I.ops[1]));
                Val nv = ite(eq, get(f, I.ops[2]), old, w);
                store(s, p, I.flat[0].bytes, nv, w);
                f.regs[I.dst] = old;
                f.regs[I.dst + 1] = eq;
                f.pc++;
                return;
            }
            default:
                unsupported(s, "instruction kind");
        }
    }

    // ---------------------------------------------------------- running
    double elapsed()
    {
        return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    }
    void finishPath(State& s)
    {
        paths++;
        for (auto& r: s.reached)
            reach[r]++;
        // reservoir sample
        sampleSeen++;
        std::string js = "{\"inputs\":[";
        bool un = false;
        size_t pos;
        if ((int)samples.size() < opt.samples)
            pos = samples.size();
        else {
            pos = rng() % sampleSeen;
            if (pos >= samples.size())
                return;
        }
        for (size_t i = 0; i < s.inputs.size(); ++i) {
            js += (i ? "," : "") + std::string("[") + jstr(s.inputs[i].name) + "," + std::to_string(s.inputs[i].w) + "," +
                  u128s(evalE(s.inputs[i].e, *s.model)) + "]";
        }
        js += "],\"observed\":[";
        for (size_t i = 0; i < s.observed.size(); ++i) {
            if (s.observed[i].e->uninit)
                un = true;
            js += (i ? "," : "") + std::string("[") + jstr(s.observed[i].name) + "," +
                  u128s(evalE(s.observed[i].e, *s.model)) + "]";
        }
        js += "]}";
        if (un)
            return;
        if (pos == samples.size())
            samples.push_back(js);
        else
            samples[pos] = js;
    }
    void runState(std::unique_ptr<State> sp)
    {
        State& s = *sp;
        uint64_t seenCalls = gSolverStats.z3calls;
        try {
            while (true) {
                ++s.steps;
                ++totalSteps;
                // a single path can spend all the time in solver calls
                if ((totalSteps & 0xfff) == 0 || gSolverStats.z3calls != seenCalls) {
                    seenCalls = gSolverStats.z3calls;
                    if (elapsed() > opt.timeLimit) {
                        incomplete["time-limit"]++;
                        throw PathEnd{"time"};
                    }
                    if (s.steps > opt.maxSteps) {
                        incomplete["step-limit at " + where(s)]++;
                        throw PathEnd{"steps"};
                    }
                }
                step(s);
            }
        } catch (PathEnd& pe) {
            if (pe.kind == "exit")
                finishPath(s);
            else
                killed++;
        }
    }
    void explore()
    {
        while (!work.empty()) {
            if (errors.size() >= (size_t)opt.maxErrors) {
                incomplete["stopped after errors"]++;
                break;
            }
            if (elapsed() > opt.timeLimit) {
                incomplete["time-limit"] += work.size();
                break;
            }
            if (paths >= opt.maxPaths) {
                incomplete["path-limit"]++;
                break;
            }
            if (bfs && work.size() >= bfsTarget)
                break;
            std::unique_ptr<State> s;
            if (bfs) {
                s = std::move(work.front());
                work.pop_front();
            } else {
                s = std::move(work.back());
                work.pop_back();
            }
            runState(std::move(s));
        }
    }
    static std::string s_calleeName(const Inst& I) { return I.callee ? I.callee->name : std::string("indirect call"); }
    std::string fnList();
    std::string result(bool withFns);
    int main();
    void registerHandlers();
    std::unique_ptr<State> initState();
};

// ------------------------------------------------------------------ intrinsics

bool Exec::intrinsic(State& s, const Inst& I, std::vector<std::vector<Val>>& a, std::vector<Val>& ret)
{
    unsigned id = I.sub;
    unsigned w = I.w;
    auto vec = [&](auto fn) {
        for (unsigned i = 0; i < I.n; ++i)
            ret.push_back(fn(i));
        return true;
    };
    auto wrap = [&](E e) { return e->w > 64 ? Val{0, e} : fromE(e); };
    switch (id) {
        case Intrinsic::memcpy:
        case Intrinsic::memmove:
        case Intrinsic::memcpy_inline: {
            uint64_t n = concretize(s, a[2][0], I.argW[2]);
            copyMem(s, a[0][0], a[1][0], n);
            return true;
        }
        case Intrinsic::memset: {
            uint64_t n = concretize(s, a[2][0], I.argW[2]);
            if (!n)
                return true;
            Val d = cv(concretize(s, a[0][0], 64)), off;
            Obj* o = resolve(s, d, n, off, true);
            o = writable(s, o);
            if (!a[1][0].e && !o->sym) {
                memset(&o->data[off.c], (int)a[1][0].c, n);
                return true;
            }
            for (uint64_t i = 0; i < n; ++i) {
                if (a[1][0].e)
                    o->setE(off.c + i, a[1][0].e);
                else
                    o->setC(off.c + i, (uint8_t)a[1][0].c);
            }
            return true;
        }
        case Intrinsic::umax:
            return vec([&](unsigned i) { return ite(icmp(CmpInst::ICMP_UGT, w, a[0][i], a[1][i]), a[0][i], a[1][i], w); });
        case Intrinsic::umin:
            return vec([&](unsigned i) { return ite(icmp(CmpInst::ICMP_ULT, w, a[0][i], a[1][i]), a[0][i], a[1][i], w); });
        case Intrinsic::smax:
            return vec([&](unsigned i) { return ite(icmp(CmpInst::ICMP_SGT, w, a[0][i], a[1][i]), a[0][i], a[1][i], w); });
        case Intrinsic::smin:
            return vec([&](unsigned i) { return ite(icmp(CmpInst::ICMP_SLT, w, a[0][i], a[1][i]), a[0][i], a[1][i], w); });
        case Intrinsic::abs:
            return vec([&](unsigned i) {
                return ite(icmp(CmpInst::ICMP_SLT, w, a[0][i], w > 64 ? Val{0, mkConst(0, w)} : cv(0)),
                           bin(s, Instruction::Sub, w, cv(0), a[0][i]),
                           a[0][i],
                           w);
            });
        case Intrinsic::bswap:
            return vec([&](unsigned i) {
                E e = toE(a[0][i], w);
                E r = mkExtract(e, 0, 8);
                for (unsigned b = 1; b < w / 8; ++b)
                    r = mkConcat(r, mkExtract(e, 8 * b, 8));
                return wrap(r);
            });
        case Intrinsic::bitreverse:
            return vec([&](unsigned i) {
                E e = toE(a[0][i], w);
                E r = mkExtract(e, 0, 1);
                for (unsigned b = 1; b < w; ++b)
                    r = mkConcat(r, mkExtract(e, b, 1));
                return wrap(r);
            });
        case Intrinsic::ctpop:
            return vec([&](unsigned i) {
                E e = toE(a[0][i], w);
                if (w == 1)
                    return wrap(e);
                E r = mkConst(0, w);
                for (unsigned b = 0; b < w; ++b)
                    r = mkAdd(r, mkZExt(mkExtract(e, b, 1), w));
                return wrap(r);
            });
        case Intrinsic::ctlz:
        case Intrinsic::cttz:
            return vec([&](unsigned i) {
                E e = toE(a[0][i], w);
                E r = mkConst(w, w);
                for (unsigned b = 0; b < w; ++b) {
                    unsigned bit = id == Intrinsic::ctlz ? b : w - 1 - b;
                    unsigned val = id == Intrinsic::ctlz ? w - 1 - bit : bit;
                    r = mkIte(mkExtract(e, bit, 1), mkConst(val, w), r);
                }
                return wrap(r);
            });
        case Intrinsic::fshl:
        case Intrinsic::fshr:
            return vec([&](unsigned i) {
                E x = toE(a[0][i], w), y = toE(a[1][i], w), z = toE(a[2][i], w);
                if (isC(z)) {
                    unsigned k = (unsigned)(z->val % w);
                    if (id == Intrinsic::fshr)
                        k = (w - k) % w, k = k;
                    if (id == Intrinsic::fshr && z->val % w == 0)
                        return wrap(y);
                    if (k == 0)
                        return wrap(x);
                    return wrap(mkConcat(mkExtract(x, 0, w - k), mkExtract(y, w - k, k)));
                }
                // w is a power of two in practice
                E zm = mkBin(O_UREM, z, mkConst(w, w));
                E inv = mkSub(mkConst(w, w), zm);
                if (id == Intrinsic::fshl)
                    return wrap(mkBin(O_OR, mkBin(O_SHL, x, zm), mkBin(O_LSHR, y, inv)));
                return wrap(mkBin(O_OR, mkBin(O_SHL, x, inv), mkBin(O_LSHR, y, zm)));
            });
        case Intrinsic::uadd_with_overflow:
        case Intrinsic::sadd_with_overflow:
        case Intrinsic::usub_with_overflow:
        case Intrinsic::ssub_with_overflow:
        case Intrinsic::umul_with_overflow:
        case Intrinsic::smul_with_overflow: {
            unsigned aw = I.argW[0];
            E x = toE(a[0][0], aw), y = toE(a[1][0], aw);
            bool mul = id == Intrinsic::umul_with_overflow || id == Intrinsic::smul_with_overflow;
            bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow ||
                      id == Intrinsic::smul_with_overflow;
            unsigned ww = mul ? aw * 2 : aw + 1;
            if (ww > 128)
                unsupported(s, "wide overflow op");
            E X = sg ? mkSExt(x, ww) : mkZExt(x, ww), Y = sg ? mkSExt(y, ww) : mkZExt(y, ww);
            E r;
            if (mul)
                r = mkBin(O_MUL, X, Y);
            else if (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow)
                r = mkAdd(X, Y);
            else
                r = mkSub(X, Y);
            E lo = mkExtract(r, 0, aw);
            E back = sg ? mkSExt(lo, ww) : mkZExt(lo, ww);
            ret.push_back(wrap(lo));
            ret.push_back(fromE(mkNot(mkEq(back, r))));
            return true;
        }
        case Intrinsic::uadd_sat:
        case Intrinsic::usub_sat:
        case Intrinsic::sadd_sat:
        case Intrinsic::ssub_sat:
            return vec([&](unsigned i) {
                unsigned ww = w + 2;
                E x = toE(a[0][i], w), y = toE(a[1][i], w);
                bool sg = id == Intrinsic::sadd_sat || id == Intrinsic::ssub_sat;
                bool add = id == Intrinsic::uadd_sat || id == Intrinsic::sadd_sat;
                E X = sg ? mkSExt(x, ww) : mkZExt(x, ww), Y = sg ? mkSExt(y, ww) : mkZExt(y, ww);
                E r = add ? mkAdd(X, Y) : mkSub(X, Y);
                u128 mx = sg ? maskW(w - 1) : maskW(w);
                E hi = mkConst(mx, ww), lo = sg ? mkConst(~(u128)mx, ww) : mkConst(0, ww);
                E t = mkIte(mkBin(O_SLT, hi, r), hi, mkIte(mkBin(O_SLT, r, lo), lo, r));
                return wrap(mkExtract(t, 0, w));
            });
        case Intrinsic::expect:
        case Intrinsic::launder_invariant_group:
        case Intrinsic::strip_invariant_group:
        case Intrinsic::threadlocal_address:
        case Intrinsic::ptr_annotation:
        case Intrinsic::ssa_copy:
            ret = a[0];
            return true;
        case Intrinsic::assume:
        case Intrinsic::lifetime_start:
        case Intrinsic::lifetime_end:
        case Intrinsic::donothing:
            return true;
        case Intrinsic::objectsize:
            ret.push_back(cv(a[1][0].c ? 0 : ~0ull));
            return true;
        case Intrinsic::is_constant:
            ret.push_back(cv(0));
            return true;
        case Intrinsic::eh_typeid_for:
            ret.push_back(cv((uint32_t)typeId(a[0][0].c)));
            return true;
        case Intrinsic::stacksave:
            ret.push_back(cv(0));
            return true;
        case Intrinsic::trap:
        case Intrinsic::ubsantrap:
            fail(s, "trap", "undefined shift, array index or missing return");
        case Intrinsic::vastart: {
            Frame& f = s.fr.back();
            Obj* o = s.stk.alloc(8 * f.varargs.size() + 8, 2);
            uint64_t oa = o->addr;
            for (size_t i = 0; i < f.varargs.size(); ++i) {
                Val v = f.varargs[i];
                E e = v.e ? v.e : mkConst(v.c, 64);
                if (e->w < 64)
                    e = mkZExt(e, 64);
                Val t = fromE(e);
                storeAt(s, o, 8 * i, 8, t, 64);
            }
            uint64_t va = a[0][0].c;
            store(s, cv(va), 4, cv(48), 32);
            store(s, cv(va + 4), 4, cv(176), 32);
            store(s, cv(va + 8), 8, cv(oa), 64);
            store(s, cv(va + 16), 8, cv(oa), 64);
            return true;
        }
        case Intrinsic::vaend:
            return true;
        case Intrinsic::vacopy:
            copyMem(s, a[0][0], a[1][0], 24);
            return true;
        case Intrinsic::fabs:
            return vec([&](unsigned i) {
                return fromE(mkBin(O_AND, toE(a[0][i], w), mkConst(maskW(w - 1), w)));
            });
        case Intrinsic::floor:
        case Intrinsic::ceil:
        case Intrinsic::trunc:
        case Intrinsic::round:
        case Intrinsic::rint:
        case Intrinsic::nearbyint:
        case Intrinsic::roundeven: {
            unsigned k = id == Intrinsic::floor   ? 0
                         : id == Intrinsic::ceil  ? 1
                         : id == Intrinsic::trunc ? 2
                         : id == Intrinsic::round ? 3
                                                  : 4;
            return vec([&](unsigned i) { return fromE(mkFp(O_FROUND, w, toE(a[0][i], w), nullptr, k)); });
        }
        case Intrinsic::is_fpclass:
        {
            unsigned fw = I.argW[0];
            unsigned mask = (unsigned)a[1][0].c;
            unsigned ew = fw == 64 ? 11 : 8, mw = fw == 64 ? 52 : 23;
            E x = toE(a[0][0], fw);
            E neg = mkExtract(x, fw - 1, 1), ex = mkExtract(x, mw, ew), man = mkExtract(x, 0, mw);
            E exMax = mkEq(ex, mkConst(maskW(ew), ew)), ex0 = mkEq(ex, mkConst(0, ew)), man0 = mkEq(man, mkConst(0, mw));
            E q = mkExtract(x, mw - 1, 1);
            E r = mkConst(0, 1);
            auto NOT = [&](E e) { return mkBin(O_XOR, e, mkConst(1, 1)); };
            auto AND = [&](E p, E q2) { return mkBin(O_AND, p, q2); };
            auto add = [&](unsigned bit, E e) {
                if (mask & bit)
                    r = mkBin(O_OR, r, e);
            };
            E nan = AND(exMax, NOT(man0)), inf = AND(exMax, man0), norm = AND(NOT(exMax), NOT(ex0)), sub = AND(ex0, NOT(man0)), zero = AND(ex0, man0);
            add(1, AND(nan, NOT(q)));
            add(2, AND(nan, q));
            add(4, AND(inf, neg));
            add(8, AND(norm, neg));
            add(16, AND(sub, neg));
            add(32, AND(zero, neg));
            add(64, AND(zero, NOT(neg)));
            add(128, AND(sub, NOT(neg)));
            add(256, AND(norm, NOT(neg)));
            add(512, AND(inf, NOT(neg)));
            ret.push_back(fromE(r));
            return true;
        }
        case Intrinsic::sqrt:
            return vec([&](unsigned i) { return fromE(mkFp(O_FSQRT, w, toE(a[0][i], w))); });
        case Intrinsic::fmuladd:
            return vec([&](unsigned i) {
                return fromE(mkFp(O_FADD, w, mkFp(O_FMUL, w, toE(a[0][i], w), toE(a[1][i], w)), toE(a[2][i], w)));
            });
        case Intrinsic::copysign:
            return vec([&](unsigned i) {
                E x = toE(a[0][i], w), y = toE(a[1][i], w);
                return fromE(mkConcat(mkExtract(y, w - 1, 1), mkExtract(x, 0, w - 1)));
            });
        case Intrinsic::minnum:
        case Intrinsic::maxnum:
            return vec([&](unsigned i) {
                Val c = fcmp(id == Intrinsic::minnum ? CmpInst::FCMP_OLT : CmpInst::FCMP_OGT, w, a[0][i], a[1][i]);
                return ite(c, a[0][i], a[1][i], w);
            });
        case Intrinsic::vector_reduce_add:
        case Intrinsic::vector_reduce_or:
        case Intrinsic::vector_reduce_and:
        case Intrinsic::vector_reduce_xor: {
            Val r = a[0][0];
            unsigned op = id == Intrinsic::vector_reduce_add   ? Instruction::Add
                          : id == Intrinsic::vector_reduce_or  ? Instruction::Or
                          : id == Intrinsic::vector_reduce_and ? Instruction::And
                                                               : Instruction::Xor;
            for (size_t i = 1; i < a[0].size(); ++i)
                r = bin(s, op, w, r, a[0][i]);
            ret.push_back(r);
            return true;
        }
        case Intrinsic::fptosi_sat:
        case Intrinsic::fptoui_sat:
            ret.push_back(fromE(mkFp(id == Intrinsic::fptosi_sat ? O_FP2SI : O_FP2UI, w, toE(a[0][0], I.argW[0]))));
            return true;
        case Intrinsic::returnaddress:
        case Intrinsic::frameaddress:
            ret.push_back(cv(0));
            return true;
        case Intrinsic::pow:
        case Intrinsic::exp:
        case Intrinsic::log:
        case Intrinsic::log10:
        case Intrinsic::powi: {
            if (a[0][0].e || (a.size() > 1 && a[1][0].e))
                unsupported(s, "symbolic pow");
            double x, y = 0;
            memcpy(&x, &a[0][0].c, 8);
            if (a.size() > 1)
                memcpy(&y, &a[1][0].c, 8);
            double r = id == Intrinsic::pow     ? pow(x, y)
                       : id == Intrinsic::exp   ? exp(x)
                       : id == Intrinsic::log   ? log(x)
                       : id == Intrinsic::log10 ? log10(x)
                                                : pow(x, (double)(int32_t)a[1][0].c);
            uint64_t b;
            memcpy(&b, &r, 8);
            ret.push_back(cv(b));
            return true;
        }
        default: {
            std::string n = I.callee ? I.callee->name : "?";
            unsupported(s, "intrinsic " + n);
        }
    }
}

// ------------------------------------------------------------------ external handlers
typedef std::vector<std::vector<Val>> Args;

static Obj* heapAlloc(Exec& x, State& s, uint64_t n, uint8_t kind)
{
    (void)x;
    Obj* o = s.mem.alloc(n, kind);
    o->markUninit();
    return o;
}

void Exec::registerHandlers()
{
#define H(nm) handlers[nm] = [](Exec & x, State & s, const Inst& I, Args& a, std::vector<Val>& ret) -> bool
#define UNUSED (void)x, (void)s, (void)I, (void)a, (void)ret
    static const uint64_t MAX_ALLOC = 16u << 20;
    auto allocH = [](Exec& x, State& s, const Inst& I, Args& a, std::vector<Val>& ret) -> bool {
        (void)I;
        uint64_t n = x.concretize(s, a[0][0], 64);
        if (n > MAX_ALLOC)
            x.fail(s, "alloc", "allocation of " + std::to_string(n) + " bytes requested");
        ret.push_back(cv(heapAlloc(x, s, n, 1)->addr));
        return true;
    };
    for (auto n: {"malloc", "_Znwm", "_Znam", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t", "_ZnwmSt11align_val_t",
                  "_ZnamSt11align_val_t"})
        handlers[n] = allocH;
    H("calloc")
    {
        (void)I;
        uint64_t n = x.concretize(s, a[0][0], 64) * x.concretize(s, a[1][0], 64);
        ret.push_back(cv(s.mem.alloc(n, 1)->addr));
        return true;
    };
    auto freeH = [](Exec& x, State& s, const Inst& I, Args& a, std::vector<Val>& ret) -> bool {
        (void)I;
        (void)ret;
        uint64_t p = x.concretize(s, a[0][0], 64);
        if (!p)
            return true;
        Obj* o = x.findObj(s, p);
        if (!o || o->addr != p || o->kind != 1)
            x.fail(s, "memory", "invalid or double free");
        s.mem.free(p);
        return true;
    };
    for (auto n: {"free", "_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t",
                  "_ZdaPvSt11align_val_t", "_ZdaPvmSt11align_val_t"})
        handlers[n] = freeH;
    H("memcpy")
    {
        (void)I;
        uint64_t n = x.concretize(s, a[2][0], 64);
        x.copyMem(s, a[0][0], a[1][0], n);
        ret.push_back(a[0][0]);
        return true;
    };
    handlers["memmove"] = handlers["memcpy"];
    H("memset")
    {
        (void)I;
        uint64_t n = x.concretize(s, a[2][0], 64);
        Val b = a[1][0];
        if (b.e)
            b = fromE(mkExtract(b.e, 0, 8));
        else
            b.c &= 0xff;
        if (n) {
            Val d = cv(x.concretize(s, a[0][0], 64)), off;
            Obj* o = x.writable(s, x.resolve(s, d, n, off, true));
            for (uint64_t i = 0; i < n; ++i) {
                if (b.e)
                    o->setE(off.c + i, b.e);
                else
                    o->setC(off.c + i, (uint8_t)b.c);
            }
        }
        ret.push_back(a[0][0]);
        return true;
    };
    auto cmpH = [](Exec& x, State& s, const Inst& I, Args& a, std::vector<Val>& ret) -> bool {
        (void)I;
        uint64_t n = x.concretize(s, a[2][0], 64);
        if (!n) {
            ret.push_back(cv(0));
            return true;
        }
        Val p = cv(x.concretize(s, a[0][0], 64)), q = cv(x.concretize(s, a[1][0], 64)), o1, o2;
        // C semantics allow reading n bytes of both
        x.resolve(s, p, n, o1, false);
        x.resolve(s, q, n, o2, false);
        E r = mkConst(0, 32);
        for (uint64_t i = n; i-- > 0;) {
            Obj* A = x.findObj(s, p.c);
            E ea = x.byteOf(s, A, o1.c + i);
            Obj* B = x.findObj(s, q.c);
            E eb = x.byteOf(s, B, o2.c + i);
            r = mkIte(mkEq(ea, eb), r, mkIte(mkBin(O_ULT, ea, eb), mkConst(0xffffffffu, 32), mkConst(1, 32)));
        }
        ret.push_back(fromE(r));
        return true;
    };
    handlers["memcmp"] = cmpH;
    H("bcmp")
    {
        (void)I;
        uint64_t n = x.concretize(s, a[2][0], 64);
        if (!n) {
            ret.push_back(cv(0));
            return true;
        }
        Val p = cv(x.concretize(s, a[0][0], 64)), q = cv(x.concretize(s, a[1][0], 64)), o1, o2;
        x.resolve(s, p, n, o1, false);
        x.resolve(s, q, n, o2, false);
        E eq = mkTrue();
        for (uint64_t i = 0; i < n; ++i) {
            Obj* A = x.findObj(s, p.c);
            E ea = x.byteOf(s, A, o1.c + i);
            Obj* B = x.findObj(s, q.c);
            E eb = x.byteOf(s, B, o2.c + i);
            eq = mkBin(O_AND, eq, mkEq(ea, eb));
        }
        ret.push_back(fromE(mkZExt(mkNot(eq), 32)));
        return true;
    };
    // ---- symbolic inputs
    H("symx_var") // u64 symx_var(const char* name, unsigned bits)
    {
        (void)I;
        std::string nm = x.cstr(s, x.concretize(s, a[0][0], 64));
        unsigned w = (unsigned)a[1][0].c;
        int k = s.varNo[nm]++;
        std::string full = k ? nm + "#" + std::to_string(k) : nm;
        static std::map<std::pair<std::string, unsigned>, E> known;
        E& v = known[{full, w}];
        if (!v)
            v = mkVar(full, w);
        s.inputs.push_back({full, w, v});
        ret.push_back(fromE(mkZExt(v, 64)));
        return true;
    };
    H("symx_assume")
    {
        UNUSED;
        Val c = a[0][0];
        E e = toE(c, I.argW[0]);
        if (e->w != 1)
            e = mkNot(mkEq(e, mkConst(0, e->w)));
        if (isC(e)) {
            if (!e->val)
                throw PathEnd{"assume"};
            return true;
        }
        if (!evalE(e, *s.model)) {
            std::shared_ptr<const Model> m;
            if (x.sat(s, e, m) != Res::Sat)
                throw PathEnd{"assume"};
            s.model = m;
        }
        x.addPc(s, e);
        return true;
    };
    H("symx_assert")
    {
        UNUSED;
        E e = toE(a[0][0], I.argW[0]);
        if (e->w != 1)
            e = mkNot(mkEq(e, mkConst(0, e->w)));
        x.asserts++;
        if (!isC(e))
            x.assertQueries++;
        x.require(s, e, "assert", x.cstr(s, x.concretize(s, a[1][0], 64)));
        return true;
    };
    H("symx_reach")
    {
        UNUSED;
        s.reached.insert(x.cstr(s, x.concretize(s, a[0][0], 64)));
        return true;
    };
    H("symx_observe")
    {
        UNUSED;
        s.observed.push_back({x.cstr(s, x.concretize(s, a[0][0], 64)), I.argW[1], toE(a[1][0], I.argW[1])});
        return true;
    };
    H("symx_choose") // fork over all feasible values
    {
        (void)I;
        ret.push_back(cv(x.concretize(s, a[0][0], 64)));
        return true;
    };
    H("symx_is_symbolic")
    {
        UNUSED;
        ret.push_back(cv(a[0][0].e != nullptr));
        return true;
    };
    H("symx_prune")
    {
        UNUSED;
        throw PathEnd{"assume"};
    };
    H("symx_param")
    {
        UNUSED;
        std::string n = x.cstr(s, x.concretize(s, a[0][0], 64));
        auto it = x.opt.params.find(n);
        if (it != x.opt.params.end())
            ret.push_back(cv((uint64_t)it->second));
        else
            ret.push_back(a[1][0]);
        return true;
    };
    H("symx_print")
    {
        UNUSED;
        fprintf(stderr, "PRINT %s = %s\n", x.cstr(s, x.concretize(s, a[0][0], 64)).c_str(), toStr(toE(a[1][0], 64), 12).c_str());
        return true;
    };
    H("symx_no_uninit_check")
    {
        UNUSED;
        x.opt.uninitCheck = a[0][0].c == 0;
        return true;
    };
    H("symx_known_eq") // is a==b implied? returns 1/0 without forking
    {
        UNUSED;
        E e = mkEq(toE(a[0][0], 64), toE(a[1][0], 64));
        std::shared_ptr<const Model> m;
        ret.push_back(cv(x.sat(s, mkNot(e), m) == Res::Unsat));
        return true;
    };
    H("symx_ite") // branch-free selection: symx_ite(c, a, b)
    {
        UNUSED;
        E c = mkNot(mkEq(toE(a[0][0], 64), mkConst(0, 64)));
        ret.push_back(fromE(mkIte(c, toE(a[1][0], 64), toE(a[2][0], 64))));
        return true;
    };
    H("symx_fmt_double") // int symx_fmt_double(char* buf, size_t n, const char* fmt, double v)
    {
        (void)I;
        uint64_t dv = x.concretize(s, a[3][0], 64);
        double d;
        memcpy(&d, &dv, 8);
        char b[512];
        int r = snprintf(b, sizeof b, x.cstr(s, x.concretize(s, a[2][0], 64)).c_str(), d);
        uint64_t n = a[1][0].c;
        Val off;
        if (n) {
            uint64_t len = std::min<uint64_t>((uint64_t)r + 1, n);
            Obj* o = x.writable(s, x.resolve(s, a[0][0], len, off, true));
            for (uint64_t i = 0; i < len; ++i)
                o->setC(off.c + i, i + 1 == len ? 0 : (uint8_t)b[i]);
        }
        ret.push_back(cv((uint32_t)r));
        return true;
    };
    H("symx_strtod") // double symx_strtod(const char* concrete text)
    {
        (void)I;
        std::string t;
        uint64_t p = a[0][0].c;
        for (int i = 0; i < 400; ++i) {
            Val b = x.load(s, cv(p + i), 1, 8);
            char c = (char)x.concretize(s, b, 8);
            if (!c)
                break;
            t += c;
        }
        double d = strtod(t.c_str(), nullptr);
        uint64_t u;
        memcpy(&u, &d, 8);
        ret.push_back(cv(u));
        return true;
    };
    H("symx_fail")
    {
        UNUSED;
        x.fail(s, "assert", x.cstr(s, x.concretize(s, a[0][0], 64)));
    };
    // ---- math (concrete unless round-like)
    auto round1 = [](unsigned k) {
        return k;
    };
    (void)round1;
#define MATHR(nm, kk)                                                                                                \
    H(nm)                                                                                                            \
    {                                                                                                                \
        UNUSED;                                                                                                      \
        ret.push_back(fromE(mkFp(O_FROUND, I.w, toE(a[0][0], I.w), nullptr, kk)));                                   \
        return true;                                                                                                 \
    };
    MATHR("floor", 0)
    MATHR("ceil", 1)
    MATHR("trunc", 2)
    MATHR("round", 3)
    MATHR("rint", 4)
    MATHR("floorf", 0)
    MATHR("ceilf", 1)
    MATHR("truncf", 2)
    MATHR("roundf", 3)
    // as on x86-64: nan and numbers beyond 64 bits become INT64_MIN
    static auto toInt64 = [](E r) {
        E lo = mkConst(0xc3e0000000000000ull, 64), hi = mkConst(0x43e0000000000000ull, 64);
        E ok = mkBin(O_AND, mkFp(O_FOLE, 1, lo, r), mkFp(O_FOLT, 1, r, hi));
        return mkIte(ok, mkFp(O_FP2SI, 64, r), mkConst((u128)1 << 63, 64));
    };
    H("llround")
    {
        UNUSED;
        E r = mkFp(O_FROUND, 64, toE(a[0][0], 64), nullptr, 3);
        ret.push_back(fromE(toInt64(r)));
        return true;
    };
    handlers["lround"] = handlers["llround"];
    H("llrint")
    {
        UNUSED;
        E r = mkFp(O_FROUND, 64, toE(a[0][0], 64), nullptr, 4);
        ret.push_back(fromE(toInt64(r)));
        return true;
    };
    handlers["lrint"] = handlers["llrint"];
    H("sqrt")
    {
        UNUSED;
        ret.push_back(fromE(mkFp(O_FSQRT, 64, toE(a[0][0], 64))));
        return true;
    };
    H("fabs")
    {
        UNUSED;
        ret.push_back(fromE(mkBin(O_AND, toE(a[0][0], 64), mkConst(maskW(63), 64))));
        return true;
    };
#define MATHC(nm, expr)                                                                                              \
    H(nm)                                                                                                            \
    {                                                                                                                \
        UNUSED;                                                                                                      \
        double p = 0, q = 0;                                                                                         \
        uint64_t pb = x.concretize(s, a[0][0], 64);                                                                  \
        memcpy(&p, &pb, 8);                                                                                          \
        if (a.size() > 1) {                                                                                          \
            uint64_t qb = x.concretize(s, a[1][0], 64);                                                              \
            memcpy(&q, &qb, 8);                                                                                      \
        }                                                                                                            \
        double r = expr;                                                                                             \
        uint64_t rb;                                                                                                 \
        memcpy(&rb, &r, 8);                                                                                          \
        ret.push_back(cv(rb));                                                                                       \
        return true;                                                                                                 \
    };
    MATHC("pow", pow(p, q))
    MATHC("log", log(p))
    MATHC("log2", log2(p))
    MATHC("log10", log10(p))
    MATHC("exp", exp(p))
    MATHC("fmod", fmod(p, q))
    MATHC("cos", cos(p))
    MATHC("sin", sin(p))
    // ---- exceptions
    H("__cxa_allocate_exception")
    {
        (void)I;
        uint64_t n = x.concretize(s, a[0][0], 64);
        ret.push_back(cv(heapAlloc(x, s, n, 1)->addr));
        return true;
    };
    H("__cxa_free_exception")
    {
        UNUSED;
        return true;
    };
    H("__cxa_throw")
    {
        UNUSED;
        uint64_t o = a[0][0].c;
        s.excs.push_back({o, a[1][0].c, o});
        x.unwind(s, o);
        return false;
    };
    H("__cxa_begin_catch")
    {
        UNUSED;
        uint64_t o = a[0][0].c;
        s.caught.push_back(o);
        ret.push_back(cv(x.exc(s, o)->adjusted));
        return true;
    };
    H("__cxa_get_exception_ptr")
    {
        UNUSED;
        ret.push_back(cv(x.exc(s, a[0][0].c)->adjusted));
        return true;
    };
    H("__cxa_end_catch")
    {
        UNUSED;
        if (!s.caught.empty())
            s.caught.pop_back();
        return true;
    };
    H("__cxa_rethrow")
    {
        UNUSED;
        if (s.caught.empty())
            x.fail(s, "terminate", "rethrow without exception");
        uint64_t o = s.caught.back();
        s.caught.push_back(o); // balanced by the __cxa_end_catch in the cleanup of the rethrowing handler
        s.caught.pop_back();
        x.unwind(s, o);
        return false;
    };
    H("symx_current_exception")
    {
        UNUSED;
        ret.push_back(cv(s.caught.empty() ? 0 : s.caught.back()));
        return true;
    };
    H("symx_rethrow_exception")
    {
        UNUSED;
        uint64_t o = a[0][0].c;
        if (!o)
            x.fail(s, "terminate", "rethrow of null exception_ptr");
        x.unwind(s, o);
        return false;
    };
    H("_Unwind_Resume")
    {
        UNUSED;
        uint64_t o = a[0][0].c;
        Frame& f = s.fr.back();
        s.stk.popTo(f.stackMark);
        s.fr.pop_back();
        x.unwind(s, o);
        return false;
    };
    H("__dynamic_cast") // (src, srcType, dstType, hint)
    {
        UNUSED;
        uint64_t src = x.concretize(s, a[0][0], 64);
        if (!src) {
            ret.push_back(cv(0));
            return true;
        }
        uint64_t dst = a[2][0].c;
        uint64_t vptr = x.ld64(s, src);
        int64_t top = (int64_t)x.ld64(s, vptr - 16);
        uint64_t ti = x.ld64(s, vptr - 8);
        uint64_t full = src + top;
        int64_t off = 0;
        ret.push_back(cv(x.isBase(s, ti, dst, full, 0, off) ? full + off : 0));
        return true;
    };
    for (auto n: {"abort", "_ZSt9terminatev", "__cxa_pure_virtual", "__clang_call_terminate", "__assert_fail", "_exit",
                  "__cxa_bad_cast", "__cxa_bad_typeid", "__stack_chk_fail", "__cxa_throw_bad_array_new_length"})
        H(n)
        {
            UNUSED;
            x.fail(s, "terminate", "program terminates via " + x.s_calleeName(I));
        };
    H("__cxa_call_unexpected")
    {
        UNUSED;
        x.fail(s, "terminate", "unexpected exception");
    };
    H("exit")
    {
        UNUSED;
        throw PathEnd{"exit"};
    };
    for (auto n: {"__cxa_atexit", "atexit", "__cxa_thread_atexit"})
        H(n)
        {
            UNUSED;
            ret.push_back(cv(0));
            return true;
        };
    H("__cxa_guard_acquire")
    {
        UNUSED;
        Val g = x.load(s, a[0][0], 1, 8);
        ret.push_back(cv(g.c == 0));
        return true;
    };
    H("__cxa_guard_release")
    {
        UNUSED;
        x.store(s, a[0][0], 1, cv(1), 8);
        return true;
    };
    H("__cxa_guard_abort")
    {
        UNUSED;
        return true;
    };
}

// ------------------------------------------------------------------ startup

std::unique_ptr<State> Exec::initState()
{
    auto s = std::make_unique<State>();
    // allocate globals
    for (auto& g: M->globals()) {
        uint64_t sz = g.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(g.getValueType()) : 64;
        if (g.isDeclaration()) {
            if (g.hasExternalWeakLinkage()) {
                gaddr[&g] = 0;
                continue;
            }
            if (sz < 64)
                sz = 64;
        }
        Obj* o = s->mem.alloc(sz, 0);
        o->name = strdup(g.getName().str().c_str());
        gaddr[&g] = o->addr;
    }
    for (auto& f: M->functions())
        fnAddr(&f);
    auto addrOf = [&](const char* n) -> uint64_t {
        auto* g = M->getNamedGlobal(n);
        return g ? gaddr[g] + 16 : 0;
    };
    vtC = addrOf("_ZTVN10__cxxabiv117__class_type_infoE");
    vtSI = addrOf("_ZTVN10__cxxabiv120__si_class_type_infoE");
    vtVMI = addrOf("_ZTVN10__cxxabiv121__vmi_class_type_infoE");
    for (auto& g: M->globals()) {
        if (g.hasInitializer()) {
            Obj* o = s->mem.findW(gaddr[&g]);
            initGlobal(o, g.getInitializer(), 0);
            if (g.isConstant())
                o->readonly = true;
        }
    }
    return s;
}

std::string Exec::fnList()
{
    std::string r;
    std::set<std::string> names;
    for (auto* f: fnByIdx)
        if (f->entered && !f->file.empty() && f->file.compare(0, 5, "/usr/") != 0)
            names.insert(f->file + ":" + f->name);
    bool first = true;
    for (auto& n: names) {
        r += (first ? "" : ",") + jstr(n);
        first = false;
    }
    return r;
}

std::string Exec::result(bool withFns)
{
    std::string o = "{";
    auto num = [&](const char* k, double v) {
        char b[64];
        snprintf(b, sizeof b, "\"%s\":%.6g,", k, v);
        o += b;
    };
    auto integer = [&](const char* k, uint64_t v) { o += std::string("\"") + k + "\":" + std::to_string(v) + ","; };
    integer("paths", paths);
    integer("killed", killed);
    integer("forks", forks);
    integer("instructions", totalSteps);
    integer("asserts", asserts);
    integer("assert_queries", assertQueries);
    integer("mem_queries", memQueries);
    integer("queries", gSolverStats.queries);
    integer("z3_calls", gSolverStats.z3calls);
    integer("fd_calls", gSolverStats.fdcalls);
    integer("fm_calls", gSolverStats.fmcalls);
    integer("gf_calls", gSolverStats.gfcalls);
    integer("lia_calls", gSolverStats.liacalls);
    integer("z3_sat", gSolverStats.sat);
    integer("z3_unsat", gSolverStats.unsat);
    integer("z3_unknown", gSolverStats.unknowns);
    num("z3_time", gSolverStats.z3time);
    integer("exprs", gExprCount);
    num("time", elapsed());
    o += "\"reach\":{";
    bool f = true;
    for (auto& p: reach) {
        o += (f ? "" : ",") + jstr(p.first) + ":" + std::to_string(p.second);
        f = false;
    }
    o += "},\"incomplete\":{";
    f = true;
    for (auto& p: incomplete) {
        o += (f ? "" : ",") + jstr(p.first) + ":" + std::to_string(p.second);
        f = false;
    }
    o += "},\"errors\":[";
    f = true;
    for (auto& e: errors) {
        o += (f ? "" : ",");
        f = false;
        o += "{\"kind\":" + jstr(e.kind) + ",\"msg\":" + jstr(e.msg) + ",\"where\":" + jstr(e.where) + ",\"inputs\":[";
        for (size_t i = 0; i < e.inputs.size(); ++i)
            o += (i ? "," : "") + std::string("[") + jstr(e.inputs[i].first) + "," + std::to_string(e.widths[i]) + "," +
                 u128s(e.inputs[i].second) + "]";
        o += "]}";
    }
    o += "],\"samples\":[";
    for (size_t i = 0; i < samples.size(); ++i)
        o += (i ? "," : "") + samples[i];
    o += "]";
    if (withFns)
        o += ",\"functions\":[" + fnList() + "]";
    return o + "}";
}

static Exec* gExec = nullptr;
static std::string gPart;
static void writeFile(const std::string& p, const std::string& d);
static void stuck()
{
    // the main thread hangs inside the solver: save what is known so far and leave
    gExec->incomplete["solver call could not be interrupted"]++;
    writeFile(gPart.empty() ? gExec->opt.out : gPart, gPart.empty() ? "[" + gExec->result(true) + "]" : gExec->result(true));
    fflush(nullptr);
    _exit(0);
}

static void writeFile(const std::string& p, const std::string& d)
{
    FILE* f = p == "-" ? stdout : fopen(p.c_str(), "w");
    if (!f) {
        fprintf(stderr, "cannot write %s\n", p.c_str());
        _exit(74);
    }
    fwrite(d.data(), 1, d.size(), f);
    if (f != stdout)
        fclose(f);
}

int Exec::main()
{
    t0 = std::chrono::steady_clock::now();
    rng.seed(opt.seed);
    SMDiagnostic err;
    M = parseIRFile(opt.bc, err, ctx);
    if (!M) {
        err.print("symx", errs());
        return 75;
    }
    DL = &M->getDataLayout();
    UNINIT = mkVar("UNINIT", 8, true);
    registerHandlers();
    auto s = initState();
    Function* entry = M->getFunction(opt.entry);
    if (!entry || entry->isDeclaration()) {
        fprintf(stderr, "no entry %s\n", opt.entry.c_str());
        return 76;
    }
    // constructors
    std::vector<std::pair<int, Function*>> ctors;
    if (auto* g = M->getNamedGlobal("llvm.global_ctors"))
        if (auto* arr = dyn_cast<ConstantArray>(g->getInitializer()))
            for (auto& op: arr->operands()) {
                auto* cs = cast<ConstantStruct>(op);
                if (auto* cf = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts()))
                    ctors.push_back({(int)cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), cf});
            }
    std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
    // stack: entry at the bottom, then ctors in reverse so that the first runs first
    Args none;
    pushCall(*s, fnInfo(entry), none, nullptr);
    for (size_t i = ctors.size(); i-- > 0;) {
        pushCall(*s, fnInfo(ctors[i].second), none, nullptr);
        s->fr.back().isCtorCall = true;
    }
    work.push_back(std::move(s));

    if (opt.jobs > 1) {
        bfs = true;
        bfsTarget = (size_t)opt.jobs * 8;
        explore();
        bfs = false;
        if (work.empty() || errors.size() >= (size_t)opt.maxErrors || elapsed() > opt.timeLimit) {
            writeFile(opt.out, "[" + result(true) + "]");
            return 0;
        }
        std::vector<std::unique_ptr<State>> all;
        while (!work.empty()) {
            all.push_back(std::move(work.front()));
            work.pop_front();
        }
        std::vector<std::string> parts;
        std::vector<pid_t> pids;
        for (int j = 0; j < opt.jobs; ++j) {
            std::string pf = opt.out + ".part" + std::to_string(j);
            parts.push_back(pf);
            fflush(nullptr);
            pid_t p = fork();
            if (p == 0) {
                gPart = pf;
                for (size_t i = j; i < all.size(); i += opt.jobs)
                    work.push_back(std::move(all[i]));
                if (j != 0) {
                    // the common prefix is accounted once, by worker 0
                    paths = killed = forks = totalSteps = asserts = assertQueries = memQueries = 0;
                    gSolverStats = SolverStats();
                    reach.clear();
                    incomplete.clear();
                    errors.clear();
                    samples.clear();
                }
                explore();
                writeFile(pf, result(true));
                fflush(nullptr);
                _exit(0);
            }
            pids.push_back(p);
        }
        std::string o = "[";
        bool bad = false;
        for (size_t j = 0; j < pids.size(); ++j) {
            int st = 0;
            waitpid(pids[j], &st, 0);
            FILE* f = fopen(parts[j].c_str(), "r");
            if (!WIFEXITED(st) || WEXITSTATUS(st) != 0 || !f) {
                bad = true;
                o += (j ? "," : "") + std::string("{\"paths\":0,\"incomplete\":{\"worker died\":1},\"errors\":[],"
                                                  "\"reach\":{},\"samples\":[],\"functions\":[]}");
                if (f)
                    fclose(f);
                continue;
            }
            std::string d;
            char b[65536];
            size_t n;
            while ((n = fread(b, 1, sizeof b, f)) > 0)
                d.append(b, n);
            fclose(f);
            unlink(parts[j].c_str());
            o += (j ? "," : "") + d;
        }
        (void)bad;
        writeFile(opt.out, o + "]");
        return 0;
    }
    explore();
    writeFile(opt.out, "[" + result(true) + "]");
    return 0;
}

int main(int argc, char** argv)
{
    Exec* x = new Exec;
    gExec = x;
    gStuckHandler = stuck;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto nxt = [&] { return std::string(argv[++i]); };
        if (a == "--entry")
            x->opt.entry = nxt();
        else if (a == "--out")
            x->opt.out = nxt();
        else if (a == "--time")
            x->opt.timeLimit = atof(nxt().c_str());
        else if (a == "--max-steps")
            x->opt.maxSteps = strtoull(nxt().c_str(), 0, 0);
        else if (a == "--jobs")
            x->opt.jobs = atoi(nxt().c_str());
        else if (a == "--max-errors")
            x->opt.maxErrors = atoi(nxt().c_str());
        else if (a == "--samples")
            x->opt.samples = atoi(nxt().c_str());
        else if (a == "--seed")
            x->opt.seed = (unsigned)atoi(nxt().c_str());
        else if (a == "--solver-timeout")
            gSolverTimeoutMs = (unsigned)atoi(nxt().c_str());
        else if (a == "--dump")
            gDumpDir = nxt();
        else if (a == "--trace")
            x->opt.trace = true;
        else if (a == "--no-uninit")
            x->opt.uninitCheck = false;
        else if (a == "--no-shift")
            x->opt.shiftCheck = false;
        else if (a == "--param") {
            std::string p = nxt();
            auto e = p.find('=');
            x->opt.params[p.substr(0, e)] = strtoll(p.c_str() + e + 1, 0, 0);
        } else
            x->opt.bc = a;
    }
    if (x->opt.out.empty())
        x->opt.out = "-";
    struct rlimit rl = {512u << 20, 512u << 20};
    setrlimit(RLIMIT_STACK, &rl);
    int r = x->main();
    fflush(nullptr);
    _exit(r);
}

// Hash-consed bit-vector expressions with local simplification.
#pragma once
#include <cstdint>
#include <cstring>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>

typedef unsigned __int128 u128;

enum Op : uint8_t
{
    O_CONST,
    O_VAR,
    O_ADD,
    O_MUL,
    O_UDIV,
    O_SDIV,
    O_UREM,
    O_SREM,
    O_AND,
    O_OR,
    O_XOR,
    O_SHL,
    O_LSHR,
    O_ASHR,
    O_CONCAT,
    O_EXTRACT,
    O_SEXT,
    O_EQ,
    O_ULT,
    O_ULE,
    O_SLT,
    O_SLE,
    O_ITE,
    // floating point on IEEE bit patterns; width of operands selects float/double
    O_FADD,
    O_FSUB,
    O_FMUL,
    O_FDIV,
    O_FOEQ,
    O_FOLT,
    O_FOLE,
    O_FUNO,
    O_FP2SI,
    O_FP2UI,
    O_SI2FP,
    O_UI2FP,
    O_FPEXT,
    O_FPTRUNC,
    O_FROUND, // aux: 0 floor 1 ceil 2 trunc 3 round(half away) 4 rint
    O_FSQRT,
};

struct Expr
{
    Op op;
    bool uninit; // depends on an uninitialised-memory variable
    bool fp;     // contains floating point operations
    uint16_t w;
    uint32_t aux; // extract offset / var index / rounding kind
    uint32_t id;
    uint32_t hash;
    u128 val; // constants
    const Expr* k[3];
    // evaluation memo
    mutable uint64_t evStamp;
    mutable u128 evVal;
    mutable uint64_t visit;
};
typedef const Expr* E;

struct VarInfo
{
    std::string name;
    unsigned w;
    bool uninit;
};

extern std::vector<VarInfo> gVars;

inline u128 maskW(unsigned w)
{
    return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1);
}
inline __int128 sextW(u128 v, unsigned w)
{
    if (w >= 128)
        return (__int128)v;
    u128 s = (u128)1 << (w - 1);
    v &= maskW(w);
    return (__int128)((v ^ s) - s);
}

E mkConst(u128 v, unsigned w);
E mkVar(const std::string& name, unsigned w, bool uninit = false);
E mkBin(Op op, E a, E b);
E mkAdd(E a, E b);
E mkSub(E a, E b);
E mkNeg(E a);
E mkNot(E a); // bitwise not
E mkConcat(E hi, E lo);
E mkExtract(E a, unsigned off, unsigned w);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkIte(E c, E a, E b);
E mkEq(E a, E b);
E mkFp(Op op, unsigned w, E a, E b = nullptr, uint32_t aux = 0);
u128 evalOp(Op op, unsigned w, uint32_t aux, const u128* kv, const unsigned* kw, int n);

inline bool isC(E e)
{
    return e->op == O_CONST;
}
inline E mkTrue()
{
    static E t = mkConst(1, 1);
    return t;
}
inline E mkFalse()
{
    static E t = mkConst(0, 1);
    return t;
}

// A model: values per variable index (missing = 0)
struct Model
{
    std::vector<u128> v;
    uint64_t stamp;
    static uint64_t nextStamp;
    Model(): stamp(++nextStamp)
    {}
    Model(const Model& o): v(o.v), stamp(++nextStamp)
    {}
};
u128 evalE(E e, const Model& m);
const std::vector<uint32_t>& varsOf(E e);
std::string toStr(E e, int depth = 6);
extern uint64_t gExprCount;
E mkTable(const std::vector<E>& elems, E idx); // elems[idx], idx < elems.size() assumed

// xor of the listed variable bits (variable << 8 | bit, sorted) equals c
struct GfRow
{
    std::vector<uint64_t> v;
    bool c = false;
};
// the constraint "e is true" as affine equations over variable bits; false if it is not affine (rows may be partly filled)
bool gfEquations(E e, std::vector<GfRow>& rows);

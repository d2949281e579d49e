// Interface between harnesses and the executor. In the native build (replay), symx_native.cpp implements it.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
extern "C" {
uint64_t symx_var(const char* name, unsigned bits);
void symx_assume(bool c);
void symx_assert(bool c, const char* msg);
void symx_reach(const char* name);
void symx_observe(const char* name, uint64_t v);
uint64_t symx_choose(uint64_t v);
bool symx_is_symbolic(uint64_t v);
void symx_prune();
int64_t symx_param(const char* name, int64_t dflt);
void symx_print(const char* name, uint64_t v);
void symx_no_uninit_check(int off);
uint64_t symx_ite(uint64_t c, uint64_t a, uint64_t b);
void symx_fail(const char* msg);
}
#define HARNESS extern "C" void
inline uint8_t Sym8(const char* n)
{
    return (uint8_t)symx_var(n, 8);
}
inline uint16_t Sym16(const char* n)
{
    return (uint16_t)symx_var(n, 16);
}
inline uint32_t Sym32(const char* n)
{
    return (uint32_t)symx_var(n, 32);
}
inline uint64_t Sym64(const char* n)
{
    return symx_var(n, 64);
}
inline bool SymBool(const char* n)
{
    return symx_var(n, 1) != 0;
}
// symbolic value in [lo, hi], left symbolic
inline uint64_t SymRange(const char* n, uint64_t lo, uint64_t hi)
{
    unsigned b = 1;
    while (b < 64 && (hi >> b))
        ++b;
    uint64_t v = symx_var(n, b);
    symx_assume(v >= lo);
    symx_assume(v <= hi);
    return v;
}
// symbolic value in [lo, hi]; the executor forks so that the result is concrete on every path
inline uint64_t Pick(const char* n, uint64_t lo, uint64_t hi)
{
    return symx_choose(SymRange(n, lo, hi));
}
inline std::vector<uint8_t> SymBytes(const char* n, size_t len)
{
    std::vector<uint8_t> r(len);
    for (auto& b: r)
        b = Sym8(n);
    return r;
}
inline std::string SymStr(const char* n, size_t len)
{
    std::string r(len, ' ');
    for (auto& b: r)
        b = (char)Sym8(n);
    return r;
}

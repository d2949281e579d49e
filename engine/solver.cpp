#include <functional>
#include "solver.h"
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <deque>
#include <map>
#include <unordered_map>
#include <unordered_set>
#include <atomic>
#include <thread>
#include <unistd.h>
#include <z3.h>

SolverStats gSolverStats;
unsigned gSolverTimeoutMs = 60000;
std::string gDumpDir;
void (*gStuckHandler)() = nullptr;

namespace
{
    Z3_context C = nullptr;
    std::vector<Z3_ast> bvMemo, boolMemo; // by expr id

    void errh(Z3_context c, Z3_error_code e)
    {
        fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e));
        abort();
    }
    void init()
    {
        if (C)
            return;
        Z3_config cfg = Z3_mk_config();
        C = Z3_mk_context(cfg);
        Z3_set_error_handler(C, errh);
        Z3_del_config(cfg);
    }
    Z3_sort fpSort(unsigned w)
    {
        return w == 64 ? Z3_mk_fpa_sort_64(C) : Z3_mk_fpa_sort_32(C);
    }
    Z3_ast tr(E e, bool wantBool);
    Z3_ast bv(E e)
    {
        return tr(e, false);
    }
    Z3_ast toFp(E e)
    {
        return Z3_mk_fpa_to_fp_bv(C, bv(e), fpSort(e->w));
    }
    Z3_ast numeral(u128 v, unsigned w)
    {
        Z3_sort s = Z3_mk_bv_sort(C, w);
        if (w <= 64)
            return Z3_mk_unsigned_int64(C, (uint64_t)v, s);
        Z3_ast hi = Z3_mk_unsigned_int64(C, (uint64_t)(v >> 64), Z3_mk_bv_sort(C, w - 64));
        Z3_ast lo = Z3_mk_unsigned_int64(C, (uint64_t)v, Z3_mk_bv_sort(C, 64));
        return Z3_mk_concat(C, hi, lo);
    }
    Z3_ast b2bv(Z3_ast b)
    {
        return Z3_mk_ite(C, b, numeral(1, 1), numeral(0, 1));
    }
    Z3_ast trNode(E e, bool wantBool)
    {
        unsigned w = e->w;
        auto bo = [&](E x) { return tr(x, true); };
        auto asBool = [&](Z3_ast b) { return wantBool ? b : b2bv(b); };
        auto asBv = [&](Z3_ast v) { return wantBool ? Z3_mk_eq(C, v, numeral(1, 1)) : v; };
        switch (e->op) {
            case O_CONST:
                if (wantBool)
                    return e->val ? Z3_mk_true(C) : Z3_mk_false(C);
                return numeral(e->val, w);
            case O_VAR: {
                char nm[32];
                snprintf(nm, sizeof nm, "v%u", e->aux);
                Z3_symbol s = Z3_mk_string_symbol(C, nm);
                return asBv(Z3_mk_const(C, s, Z3_mk_bv_sort(C, w)));
            }
            case O_ADD:
                return asBv(Z3_mk_bvadd(C, bv(e->k[0]), bv(e->k[1])));
            case O_MUL:
                return asBv(Z3_mk_bvmul(C, bv(e->k[0]), bv(e->k[1])));
            case O_UDIV:
                return asBv(Z3_mk_bvudiv(C, bv(e->k[0]), bv(e->k[1])));
            case O_SDIV:
                return asBv(Z3_mk_bvsdiv(C, bv(e->k[0]), bv(e->k[1])));
            case O_UREM:
                return asBv(Z3_mk_bvurem(C, bv(e->k[0]), bv(e->k[1])));
            case O_SREM:
                return asBv(Z3_mk_bvsrem(C, bv(e->k[0]), bv(e->k[1])));
            case O_AND:
                if (w == 1) {
                    Z3_ast a[2] = {bo(e->k[0]), bo(e->k[1])};
                    return asBool(Z3_mk_and(C, 2, a));
                }
                return Z3_mk_bvand(C, bv(e->k[0]), bv(e->k[1]));
            case O_OR:
                if (w == 1) {
                    Z3_ast a[2] = {bo(e->k[0]), bo(e->k[1])};
                    return asBool(Z3_mk_or(C, 2, a));
                }
                return Z3_mk_bvor(C, bv(e->k[0]), bv(e->k[1]));
            case O_XOR:
                if (w == 1) {
                    if (e->k[0]->op == O_CONST && e->k[0]->val == 1)
                        return asBool(Z3_mk_not(C, bo(e->k[1])));
                    return asBool(Z3_mk_not(C, Z3_mk_eq(C, bo(e->k[0]), bo(e->k[1])))); // not Z3_mk_xor: its sort check is exponential
                }
                return Z3_mk_bvxor(C, bv(e->k[0]), bv(e->k[1]));
            case O_SHL:
                return asBv(Z3_mk_bvshl(C, bv(e->k[0]), bv(e->k[1])));
            case O_LSHR:
                return asBv(Z3_mk_bvlshr(C, bv(e->k[0]), bv(e->k[1])));
            case O_ASHR:
                return asBv(Z3_mk_bvashr(C, bv(e->k[0]), bv(e->k[1])));
            case O_CONCAT:
                return Z3_mk_concat(C, bv(e->k[0]), bv(e->k[1]));
            case O_EXTRACT:
                return asBv(Z3_mk_extract(C, e->aux + w - 1, e->aux, bv(e->k[0])));
            case O_SEXT:
                return Z3_mk_sign_ext(C, w - e->k[0]->w, bv(e->k[0]));
            case O_EQ:
                if (e->k[0]->w == 1)
                    return asBool(Z3_mk_eq(C, bo(e->k[0]), bo(e->k[1])));
                return asBool(Z3_mk_eq(C, bv(e->k[0]), bv(e->k[1])));
            case O_ULT:
                return asBool(Z3_mk_bvult(C, bv(e->k[0]), bv(e->k[1])));
            case O_ULE:
                return asBool(Z3_mk_bvule(C, bv(e->k[0]), bv(e->k[1])));
            case O_SLT:
                return asBool(Z3_mk_bvslt(C, bv(e->k[0]), bv(e->k[1])));
            case O_SLE:
                return asBool(Z3_mk_bvsle(C, bv(e->k[0]), bv(e->k[1])));
            case O_ITE:
                if (w == 1)
                    return asBool(Z3_mk_ite(C, bo(e->k[0]), bo(e->k[1]), bo(e->k[2])));
                return Z3_mk_ite(C, bo(e->k[0]), bv(e->k[1]), bv(e->k[2]));
            case O_FADD:
            case O_FSUB:
            case O_FMUL:
            case O_FDIV: {
                Z3_ast rm = Z3_mk_fpa_rne(C), a = toFp(e->k[0]), b = toFp(e->k[1]);
                Z3_ast r = e->op == O_FADD   ? Z3_mk_fpa_add(C, rm, a, b)
                           : e->op == O_FSUB ? Z3_mk_fpa_sub(C, rm, a, b)
                           : e->op == O_FMUL ? Z3_mk_fpa_mul(C, rm, a, b)
                                             : Z3_mk_fpa_div(C, rm, a, b);
                return Z3_mk_fpa_to_ieee_bv(C, r);
            }
            case O_FOEQ:
                return asBool(Z3_mk_fpa_eq(C, toFp(e->k[0]), toFp(e->k[1])));
            case O_FOLT:
                return asBool(Z3_mk_fpa_lt(C, toFp(e->k[0]), toFp(e->k[1])));
            case O_FOLE:
                return asBool(Z3_mk_fpa_leq(C, toFp(e->k[0]), toFp(e->k[1])));
            case O_FUNO: {
                Z3_ast a[2] = {Z3_mk_fpa_is_nan(C, toFp(e->k[0])), Z3_mk_fpa_is_nan(C, toFp(e->k[1]))};
                return asBool(Z3_mk_or(C, 2, a));
            }
            case O_FP2SI:
                return Z3_mk_fpa_to_sbv(C, Z3_mk_fpa_rtz(C), toFp(e->k[0]), w);
            case O_FP2UI:
                return Z3_mk_fpa_to_ubv(C, Z3_mk_fpa_rtz(C), toFp(e->k[0]), w);
            case O_SI2FP:
                return Z3_mk_fpa_to_ieee_bv(
                    C, Z3_mk_fpa_to_fp_signed(C, Z3_mk_fpa_rne(C), bv(e->k[0]), fpSort(w)));
            case O_UI2FP:
                return Z3_mk_fpa_to_ieee_bv(
                    C, Z3_mk_fpa_to_fp_unsigned(C, Z3_mk_fpa_rne(C), bv(e->k[0]), fpSort(w)));
            case O_FPEXT:
            case O_FPTRUNC:
                return Z3_mk_fpa_to_ieee_bv(
                    C, Z3_mk_fpa_to_fp_float(C, Z3_mk_fpa_rne(C), toFp(e->k[0]), fpSort(w)));
            case O_FROUND: {
                Z3_ast rm = e->aux == 0   ? Z3_mk_fpa_rtn(C)
                            : e->aux == 1 ? Z3_mk_fpa_rtp(C)
                            : e->aux == 2 ? Z3_mk_fpa_rtz(C)
                            : e->aux == 3 ? Z3_mk_fpa_rna(C)
                                          : Z3_mk_fpa_rne(C);
                return Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_round_to_integral(C, rm, toFp(e->k[0])));
            }
            case O_FSQRT:
                return Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_sqrt(C, Z3_mk_fpa_rne(C), toFp(e->k[0])));
        }
        abort();
    }
    Z3_ast tr(E e, bool wantBool)
    {
        auto& memo = wantBool ? boolMemo : bvMemo;
        if (memo.size() <= e->id)
            memo.resize(e->id + 4096, nullptr);
        if (memo[e->id])
            return memo[e->id];
        // iterative pre-pass against deep recursion: translate children first
        std::vector<E> st{e};
        while (st.size() > 1 || st.back() == e) {
            E x = st.back();
            bool pushed = false;
            for (int i = 0; i < 3; ++i) {
                E c = x->k[i];
                if (!c)
                    continue;
                bool done = (c->id < bvMemo.size() && bvMemo[c->id]) || (c->id < boolMemo.size() && boolMemo[c->id]);
                if (!done) {
                    st.push_back(c);
                    pushed = true;
                }
            }
            if (pushed)
                continue;
            if (x == e)
                break;
            st.pop_back();
            bool b = x->w == 1 && x->op != O_EXTRACT && x->op != O_VAR;
            auto& mm = b ? boolMemo : bvMemo;
            if (mm.size() <= x->id)
                mm.resize(x->id + 4096, nullptr);
            if (!mm[x->id]) {
                Z3_ast r = trNode(x, b);
                auto& m2 = b ? boolMemo : bvMemo;
                m2[x->id] = r;
            }
        }
        Z3_ast r = trNode(e, wantBool);
        auto& m2 = wantBool ? boolMemo : bvMemo;
        if (m2.size() <= e->id)
            m2.resize(e->id + 4096, nullptr);
        m2[e->id] = r;
        return r;
    }

    // the solver's own timeout is not obeyed inside some preprocessing steps: interrupt it, and give up on the process when
    // even that does not help
    std::atomic<uint64_t> watchDeadline{0};
    pid_t watchPid = 0;
    uint64_t nowMs()
    {
        return std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now().time_since_epoch())
            .count();
    }
    void watchStart()
    {
        if (watchPid != getpid()) {
            watchPid = getpid();
            std::thread([] {
                while (true) {
                    std::this_thread::sleep_for(std::chrono::milliseconds(200));
                    uint64_t d = watchDeadline;
                    if (!d)
                        continue;
                    uint64_t n = nowMs();
                    if (n > d)
                        Z3_interrupt(C);
                    if (n > d + 8000 && gStuckHandler)
                        gStuckHandler();
                }
            }).detach();
        }
        watchDeadline = nowMs() + gSolverTimeoutMs + 500;
    }
    void watchStop()
    {
        watchDeadline = 0;
    }
    struct CacheEnt
    {
        Res r;
        std::vector<std::pair<uint32_t, u128>> model;
    };
    struct VecHash
    {
        size_t operator()(const std::vector<uint32_t>& v) const
        {
            uint64_t h = v.size();
            for (uint32_t x: v) {
                h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
                h *= 0xff51afd7ed558ccdull;
            }
            return h;
        }
    };
    std::unordered_map<std::vector<uint32_t>, CacheEnt, VecHash> cache;
    std::deque<std::shared_ptr<const Model>> recent;
    int dumpNo = 0;
}

namespace
{
    // a system of equations over sums of many bits (or the negation of one)
    bool bigAffine(E e)
    {
        static std::unordered_map<E, bool> memo;
        auto it = memo.find(e);
        if (it != memo.end())
            return it->second;
        std::vector<GfRow> r;
        size_t big = 0;
        if (gfEquations(e->op == O_XOR && e->w == 1 && e->k[0]->op == O_CONST && e->k[1]->op == O_EQ ? e->k[1] : e, r))
            for (auto& x: r)
                big += x.v.size() > 3;
        return memo[e] = big >= 4;
    }
    // Conjunctions that are mostly xor equations (checksums): Gaussian elimination decides the affine part; a solution of it
    // that also satisfies the rest (checked by evaluation) is a model. Returns Unknown when it cannot tell.
    Res solveAffine(const std::vector<E>& cs, const Model& base, Model& m)
    {
        std::vector<GfRow> rows;
        std::vector<E> other;
        size_t big = 0;
        for (E e: cs) {
            std::vector<GfRow> r;
            if (gfEquations(e, r)) {
                for (auto& x: r) {
                    big += x.v.size() > 3;
                    rows.push_back(std::move(x));
                }
            } else {
                other.push_back(e);
            }
        }
        size_t otherBig = 0;
        std::vector<std::vector<GfRow>> diseq; // at least one row of each must be violated
        for (E e: other)
            if (e->op == O_XOR && e->w == 1 && e->k[0]->op == O_CONST && e->k[1]->op == O_EQ) {
                std::vector<GfRow> r;
                if (gfEquations(e->k[1], r)) {
                    for (auto& x: r)
                        otherBig += x.v.size() > 3;
                    diseq.push_back(std::move(r));
                }
            }
        if (big + otherBig < 4)
            return Res::Unknown;
        // column numbering: bits of variables that occur only in equations come first (they become pivots)
        std::unordered_set<uint32_t> otherVars;
        for (E e: other)
            for (uint32_t v: varsOf(e))
                otherVars.insert(v);
        std::vector<uint64_t> cols;
        auto addCols = [&](const GfRow& r) { cols.insert(cols.end(), r.v.begin(), r.v.end()); };
        for (auto& r: rows)
            addCols(r);
        for (auto& d: diseq)
            for (auto& r: d)
                addCols(r);
        std::sort(cols.begin(), cols.end());
        cols.erase(std::unique(cols.begin(), cols.end()), cols.end());
        std::stable_sort(cols.begin(), cols.end(), [&](uint64_t a, uint64_t b) { return otherVars.count(a >> 8) < otherVars.count(b >> 8); });
        std::unordered_map<uint64_t, unsigned> colNo;
        for (unsigned i = 0; i < cols.size(); ++i)
            colNo[cols[i]] = i;
        size_t W = (cols.size() + 64) / 64; // bit cols.size() is the constant
        typedef std::vector<uint64_t> Bits;
        auto pack = [&](const GfRow& r) {
            Bits b(W, 0);
            for (uint64_t v: r.v) {
                unsigned c = colNo[v];
                b[c / 64] ^= 1ull << (c % 64);
            }
            if (r.c)
                b[cols.size() / 64] ^= 1ull << (cols.size() % 64);
            return b;
        };
        std::unordered_map<unsigned, Bits> piv; // leading column -> row
        auto reduce = [&](Bits& b) {
            for (;;) {
                int lead = -1;
                for (size_t w = 0; w < W && lead < 0; ++w)
                    if (b[w])
                        lead = (int)(w * 64 + __builtin_ctzll(b[w]));
                if (lead < 0 || lead == (int)cols.size())
                    return lead;
                auto it = piv.find(lead);
                if (it == piv.end())
                    return lead;
                for (size_t w = 0; w < W; ++w)
                    b[w] ^= it->second[w];
            }
        };
        for (auto& r: rows) {
            Bits b = pack(r);
            int lead = reduce(b);
            if (lead == (int)cols.size())
                return Res::Unsat;
            if (lead >= 0)
                piv[lead] = b;
        }
        for (auto& d: diseq) {
            bool all = true;
            for (auto& r: d) {
                Bits b = pack(r);
                // full reduction of every column: the row is implied iff it reduces to zero
                if (reduce(b) != -1) {
                    all = false;
                    break;
                }
            }
            if (all)
                return Res::Unsat;
        }
        static uint64_t rnd = 88172645463325252ull;
        auto next = [&]() {
            rnd ^= rnd << 13;
            rnd ^= rnd >> 7;
            rnd ^= rnd << 17;
            return rnd;
        };
        std::vector<unsigned> pcols;
        for (auto& p: piv)
            pcols.push_back(p.first);
        std::sort(pcols.rbegin(), pcols.rend());
        for (int attempt = 0; attempt < 12; ++attempt) {
            m.v = base.v;
            auto get = [&](uint64_t c) { return c >> 8 < m.v.size() ? (unsigned)(m.v[c >> 8] >> (c & 255)) & 1 : 0u; };
            auto set = [&](uint64_t c, unsigned b) {
                if (m.v.size() <= c >> 8)
                    m.v.resize((c >> 8) + 1, 0);
                u128 k = (u128)1 << (c & 255);
                m.v[c >> 8] = (m.v[c >> 8] & ~k) | (b ? k : 0);
            };
            Bits val(W, 0);
            for (unsigned i = 0; i < cols.size(); ++i) {
                unsigned b = get(cols[i]);
                if (attempt && !(otherVars.count(cols[i] >> 8) && attempt % 2) && next() % 8 < (unsigned)attempt)
                    b = next() & 1;
                if (b)
                    val[i / 64] |= 1ull << (i % 64);
            }
            val[cols.size() / 64] |= 1ull << (cols.size() % 64);
            for (unsigned p: pcols) {
                val[p / 64] &= ~(1ull << (p % 64));
                const Bits& r = piv[p];
                unsigned par = 0;
                for (size_t w = 0; w < W; ++w)
                    par ^= __builtin_popcountll(r[w] & val[w]) & 1;
                if (par)
                    val[p / 64] |= 1ull << (p % 64);
            }
            for (unsigned i = 0; i < cols.size(); ++i)
                set(cols[i], (val[i / 64] >> (i % 64)) & 1);
            m.stamp = ++Model::nextStamp;
            bool ok = true;
            for (size_t i = 0; ok && i < cs.size(); ++i)
                ok = evalE(cs[i], m) != 0;
            if (ok)
                return Res::Sat;
        }
        return Res::Unknown;
    }
}


// Translation of queries over sums, products by constants, quotients and comparisons into linear integer arithmetic.
// A node is an integer term t with an interval, equal to the node's value modulo 2^w.
namespace
{
    typedef __int128 i128;
    struct LTerm
    {
        bool ok = false;
        Z3_ast t = nullptr;
        i128 lo = 0, hi = 0;
    };
    std::unordered_map<uint32_t, LTerm> liaMemo;
    std::unordered_map<uint32_t, std::pair<bool, Z3_ast>> liaBool;
    const i128 LIM = (i128)1 << 110;
    Z3_ast inum(i128 v)
    {
        if (v >= INT64_MIN && v <= INT64_MAX)
            return Z3_mk_int64(C, (int64_t)v, Z3_mk_int_sort(C));
        bool neg = v < 0;
        u128 u = neg ? -(u128)v : (u128)v;
        std::string d;
        while (u) {
            d.insert(d.begin(), char('0' + (int)(u % 10)));
            u /= 10;
        }
        if (neg)
            d.insert(d.begin(), '-');
        return Z3_mk_numeral(C, d.c_str(), Z3_mk_int_sort(C));
    }
    LTerm lt(Z3_ast t, i128 lo, i128 hi)
    {
        LTerm r;
        r.ok = lo > -LIM && hi < LIM;
        r.t = t;
        r.lo = lo;
        r.hi = hi;
        return r;
    }
    i128 fdiv(i128 a, i128 b) // b > 0
    {
        i128 q = a / b;
        return a % b < 0 ? q - 1 : q;
    }
    LTerm ladd(LTerm a, LTerm b)
    {
        if (!a.ok || !b.ok)
            return LTerm();
        Z3_ast x[2] = {a.t, b.t};
        return lt(Z3_mk_add(C, 2, x), a.lo + b.lo, a.hi + b.hi);
    }
    LTerm lmul(LTerm a, i128 k)
    {
        if (!a.ok || k > ((i128)1 << 64) || k < -((i128)1 << 64))
            return LTerm();
        long double m = std::max(a.hi < 0 ? -(long double)a.hi : (long double)a.hi, a.lo < 0 ? -(long double)a.lo : (long double)a.lo);
        if (m * (k < 0 ? -(long double)k : (long double)k) > 1e32L)
            return LTerm();
        Z3_ast x[2] = {a.t, inum(k)};
        i128 p = a.lo * k, q = a.hi * k;
        return lt(Z3_mk_mul(C, 2, x), std::min(p, q), std::max(p, q));
    }
    LTerm ldiv(LTerm a, i128 k) // floor, k > 0
    {
        if (!a.ok)
            return a;
        return lt(Z3_mk_div(C, a.t, inum(k)), fdiv(a.lo, k), fdiv(a.hi, k));
    }
    // value reduced to [base, base + 2^w)
    LTerm norm(LTerm a, unsigned w, bool sign)
    {
        if (!a.ok || w > 100)
            return LTerm();
        i128 M = (i128)1 << w, lo = sign ? -(M / 2) : 0, hi = lo + M - 1;
        if (a.lo >= lo && a.hi <= hi)
            return a;
        if (fdiv(a.lo - lo, M) == fdiv(a.hi - lo, M)) {
            i128 k = fdiv(a.lo - lo, M);
            return ladd(a, lt(inum(-k * M), -k * M, -k * M));
        }
        if (a.lo >= lo - M && a.hi <= hi + M) {
            Z3_ast t = a.t;
            if (a.lo < lo) {
                Z3_ast x[2] = {a.t, inum(M)};
                t = Z3_mk_ite(C, Z3_mk_lt(C, a.t, inum(lo)), Z3_mk_add(C, 2, x), t);
            }
            if (a.hi > hi) {
                Z3_ast x[2] = {a.t, inum(-M)};
                t = Z3_mk_ite(C, Z3_mk_gt(C, a.t, inum(hi)), Z3_mk_add(C, 2, x), t);
            }
            return lt(t, lo, hi);
        }
        Z3_ast x[2] = {a.t, inum(-lo)};
        Z3_ast y[2] = {Z3_mk_mod(C, Z3_mk_add(C, 2, x), inum(M)), inum(lo)};
        return lt(Z3_mk_add(C, 2, y), lo, hi);
    }
    Z3_ast lbool(E e);
    LTerm lterm(E e);
    LTerm lterm0(E e)
    {
        unsigned w = e->w;
        if (w > 100)
            return LTerm();
        if (w == 1 && e->op != O_CONST) {
            Z3_ast b = lbool(e);
            return b ? lt(Z3_mk_ite(C, b, inum(1), inum(0)), 0, 1) : LTerm();
        }
        i128 M = (i128)1 << w;
        switch (e->op) {
            case O_CONST: {
                i128 v = w > 1 ? (i128)sextW(e->val, w) : (i128)e->val;
                return lt(inum(v), v, v);
            }
            case O_VAR: {
                char nm[32];
                snprintf(nm, sizeof nm, "i%u", e->aux);
                return lt(Z3_mk_const(C, Z3_mk_string_symbol(C, nm), Z3_mk_int_sort(C)), 0, M - 1);
            }
            case O_ADD: {
                LTerm r = ladd(lterm(e->k[0]), lterm(e->k[1]));
                if (r.ok && (r.lo < -4 * M || r.hi > 4 * M))
                    r = norm(r, w, true);
                return r;
            }
            case O_MUL: {
                int c = e->k[0]->op == O_CONST ? 0 : e->k[1]->op == O_CONST ? 1 : -1;
                if (c < 0)
                    return LTerm();
                LTerm a = lterm(e->k[1 - c]);
                LTerm r = lmul(a, sextW(e->k[c]->val, w));
                if (!r.ok)
                    r = lmul(norm(a, w, true), sextW(e->k[c]->val, w));
                return r;
            }
            case O_UDIV:
            case O_UREM: {
                if (e->k[1]->op != O_CONST || !e->k[1]->val)
                    return LTerm();
                LTerm a = norm(lterm(e->k[0]), w, false);
                i128 k = (i128)e->k[1]->val;
                if (!a.ok)
                    return a;
                if (e->op == O_UDIV)
                    return ldiv(a, k);
                return lt(Z3_mk_mod(C, a.t, inum(k)), 0, std::min(k - 1, a.hi));
            }
            case O_SDIV:
            case O_SREM: {
                if (e->k[1]->op != O_CONST)
                    return LTerm();
                i128 k = sextW(e->k[1]->val, w);
                if (k <= 0)
                    return LTerm();
                LTerm a = norm(lterm(e->k[0]), w, true);
                if (!a.ok)
                    return a;
                LTerm q;
                if (a.lo >= 0) {
                    q = ldiv(a, k);
                } else {
                    Z3_ast neg = Z3_mk_unary_minus(C, Z3_mk_div(C, Z3_mk_unary_minus(C, a.t), inum(k)));
                    q = lt(Z3_mk_ite(C, Z3_mk_ge(C, a.t, inum(0)), Z3_mk_div(C, a.t, inum(k)), neg), a.lo / k, a.hi / k);
                }
                if (e->op == O_SDIV)
                    return q;
                LTerm r = ladd(a, lmul(q, -k));
                if (!r.ok)
                    return r;
                return lt(r.t, a.lo < 0 ? -(k - 1) : 0, a.hi > 0 ? k - 1 : 0);
            }
            case O_AND: {
                int c = e->k[0]->op == O_CONST ? 0 : e->k[1]->op == O_CONST ? 1 : -1;
                if (c < 0)
                    return LTerm();
                u128 m = e->k[c]->val, inv = ~m & maskW(w);
                LTerm a = norm(lterm(e->k[1 - c]), w, false);
                if (!a.ok)
                    return a;
                if ((m & (m + 1)) == 0)
                    return a.hi <= (i128)m ? a : lt(Z3_mk_mod(C, a.t, inum((i128)m + 1)), 0, (i128)m);
                if ((inv & (inv + 1)) == 0)
                    return lmul(ldiv(a, (i128)inv + 1), (i128)inv + 1);
                return LTerm();
            }
            case O_XOR: {
                int c = e->k[0]->op == O_CONST ? 0 : e->k[1]->op == O_CONST ? 1 : -1;
                if (c < 0 || e->k[c]->val != maskW(w))
                    return LTerm();
                return ladd(lmul(lterm(e->k[1 - c]), -1), lt(inum(-1), -1, -1));
            }
            case O_SHL:
                if (e->k[1]->op != O_CONST || e->k[1]->val >= w || e->k[1]->val > 60)
                    return LTerm();
                return lmul(lterm(e->k[0]), (i128)1 << (unsigned)e->k[1]->val);
            case O_LSHR:
            case O_ASHR:
                if (e->k[1]->op != O_CONST || e->k[1]->val >= w)
                    return LTerm();
                return ldiv(norm(lterm(e->k[0]), w, e->op == O_ASHR), (i128)1 << (unsigned)e->k[1]->val);
            case O_CONCAT: {
                LTerm h = lterm(e->k[0]), l = norm(lterm(e->k[1]), e->k[1]->w, false);
                if (h.ok)
                    h = norm(h, e->k[0]->w, false);
                if (e->k[1]->w > 62)
                    return LTerm();
                return ladd(lmul(h, (i128)1 << e->k[1]->w), l);
            }
            case O_EXTRACT: {
                LTerm a = lterm(e->k[0]);
                if (!a.ok)
                    return a;
                if (e->aux == 0)
                    return norm(a, w, false);
                return norm(ldiv(norm(a, e->k[0]->w, false), (i128)1 << e->aux), w, false);
            }
            case O_SEXT:
                return norm(lterm(e->k[0]), e->k[0]->w, true);
            case O_ITE: {
                Z3_ast c = lbool(e->k[0]);
                if (!c)
                    return LTerm();
                LTerm a = lterm(e->k[1]), b = lterm(e->k[2]);
                if (!a.ok || !b.ok)
                    return LTerm();
                return lt(Z3_mk_ite(C, c, a.t, b.t), std::min(a.lo, b.lo), std::max(a.hi, b.hi));
            }
            default:
                return LTerm();
        }
    }
    LTerm lterm(E e)
    {
        auto it = liaMemo.find(e->id);
        if (it != liaMemo.end())
            return it->second;
        LTerm r = lterm0(e);
        liaMemo[e->id] = r;
        return r;
    }
    Z3_ast lbool0(E e)
    {
        if (e->w != 1)
            return nullptr;
        switch (e->op) {
            case O_CONST:
                return e->val ? Z3_mk_true(C) : Z3_mk_false(C);
            case O_VAR: {
                char nm[32];
                snprintf(nm, sizeof nm, "i%u", e->aux);
                return Z3_mk_eq(C, Z3_mk_const(C, Z3_mk_string_symbol(C, nm), Z3_mk_int_sort(C)), inum(1));
            }
            case O_AND:
            case O_OR:
            case O_XOR:
            case O_ADD: {
                Z3_ast a[2] = {lbool(e->k[0]), lbool(e->k[1])};
                if (!a[0] || !a[1])
                    return nullptr;
                return e->op == O_AND ? Z3_mk_and(C, 2, a) : e->op == O_OR ? Z3_mk_or(C, 2, a) : Z3_mk_not(C, Z3_mk_eq(C, a[0], a[1]));
            }
            case O_ITE: {
                Z3_ast a = lbool(e->k[0]), b = lbool(e->k[1]), c = lbool(e->k[2]);
                return a && b && c ? Z3_mk_ite(C, a, b, c) : nullptr;
            }
            case O_EQ: {
                if (e->k[0]->w == 1) {
                    Z3_ast a = lbool(e->k[0]), b = lbool(e->k[1]);
                    return a && b ? Z3_mk_eq(C, a, b) : nullptr;
                }
                LTerm a = lterm(e->k[0]), b = lterm(e->k[1]);
                if (!a.ok || !b.ok)
                    return nullptr;
                unsigned w = e->k[0]->w;
                if (w > 100)
                    return nullptr;
                i128 M = (i128)1 << w;
                if (!(a.lo - b.hi > -M && a.hi - b.lo < M)) {
                    bool sg = a.lo < 0 || b.lo < 0;
                    a = norm(a, w, sg);
                    b = norm(b, w, sg);
                }
                return a.ok && b.ok ? Z3_mk_eq(C, a.t, b.t) : nullptr;
            }
            case O_ULT:
            case O_ULE:
            case O_SLT:
            case O_SLE: {
                bool sg = e->op == O_SLT || e->op == O_SLE;
                if (e->k[0]->w == 1)
                    sg = !sg && false;
                if (e->k[0]->w == 1 && (e->op == O_SLT || e->op == O_SLE))
                    return nullptr;
                LTerm a = norm(lterm(e->k[0]), e->k[0]->w, sg), b = norm(lterm(e->k[1]), e->k[0]->w, sg);
                if (!a.ok || !b.ok)
                    return nullptr;
                return e->op == O_ULT || e->op == O_SLT ? Z3_mk_lt(C, a.t, b.t) : Z3_mk_le(C, a.t, b.t);
            }
            case O_EXTRACT: {
                unsigned kw = e->k[0]->w;
                LTerm a = lterm(e->k[0]);
                if (!a.ok)
                    return nullptr;
                if (e->aux == kw - 1 && kw > 1) {
                    a = norm(a, kw, true);
                    return a.ok ? Z3_mk_lt(C, a.t, inum(0)) : nullptr;
                }
                a = norm(a, kw, false);
                if (e->aux)
                    a = ldiv(a, (i128)1 << e->aux);
                a = norm(a, 1, false);
                return a.ok ? Z3_mk_eq(C, a.t, inum(1)) : nullptr;
            }
            default:
                return nullptr;
        }
    }
    Z3_ast lbool(E e)
    {
        auto it = liaBool.find(e->id);
        if (it != liaBool.end())
            return it->second.second;
        Z3_ast r = lbool0(e);
        liaBool[e->id] = {r != nullptr, r};
        return r;
    }
    bool hasArith(E e, std::unordered_set<uint32_t>& seen)
    {
        std::vector<E> st{e};
        while (!st.empty()) {
            E x = st.back();
            st.pop_back();
            if (!seen.insert(x->id).second)
                continue;
            if (x->w >= 16 && x->w <= 64 && (x->op == O_ADD || x->op == O_MUL || (x->op >= O_UDIV && x->op <= O_SREM)))
                return true;
            if (x->op >= O_ULT && x->op <= O_SLE && x->k[0]->w >= 16 && !isC(x->k[0]) && !isC(x->k[1]))
                return true;
            for (E k: x->k)
                if (k)
                    st.push_back(k);
        }
        return false;
    }
    bool liaWorth(const std::vector<E>& cs)
    {
        std::unordered_set<uint32_t> seen;
        for (E e: cs)
            if (hasArith(e, seen))
                return true;
        return false;
    }
}

Res solveLia(const std::vector<E>& cs, unsigned timeoutMs, Model& m)
{
    init();
    if (liaMemo.size() > 200000) {
        liaMemo.clear();
        liaBool.clear();
    }
    std::vector<Z3_ast> as;
    std::unordered_set<uint32_t> vs;
    for (E e: cs) {
        Z3_ast a = lbool(e);
        if (!a)
            return Res::Unknown;
        as.push_back(a);
        vs.insert(varsOf(e).begin(), varsOf(e).end());
    }
    Z3_solver s = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_LIA"));
    Z3_solver_inc_ref(C, s);
    Z3_params p = Z3_mk_params(C);
    Z3_params_inc_ref(C, p);
    Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), timeoutMs);
    Z3_solver_set_params(C, s, p);
    Z3_params_dec_ref(C, p);
    auto var = [&](uint32_t x) {
        char nm[32];
        snprintf(nm, sizeof nm, "i%u", x);
        return Z3_mk_const(C, Z3_mk_string_symbol(C, nm), Z3_mk_int_sort(C));
    };
    for (uint32_t x: vs) {
        Z3_solver_assert(C, s, Z3_mk_ge(C, var(x), inum(0)));
        Z3_solver_assert(C, s, Z3_mk_le(C, var(x), inum(((i128)1 << gVars[x].w) - 1)));
    }
    for (Z3_ast a: as)
        Z3_solver_assert(C, s, a);
    watchStart();
    Z3_lbool r = Z3_solver_check(C, s);
    watchStop();
    Res res = r == Z3_L_TRUE ? Res::Sat : r == Z3_L_FALSE ? Res::Unsat : Res::Unknown;
    if (r == Z3_L_TRUE) {
        Z3_model zm = Z3_solver_get_model(C, s);
        Z3_model_inc_ref(C, zm);
        for (uint32_t x: vs) {
            Z3_ast val;
            u128 num = 0;
            if (Z3_model_eval(C, zm, var(x), true, &val)) {
                std::string d = Z3_get_numeral_string(C, val);
                for (char ch: d)
                    if (ch >= '0' && ch <= '9')
                        num = num * 10 + (ch - '0');
            }
            if (m.v.size() <= x)
                m.v.resize(x + 1, 0);
            m.v[x] = num;
        }
        m.stamp = ++Model::nextStamp;
        Z3_model_dec_ref(C, zm);
        for (E e: cs)
            if (!evalE(e, m)) {
                fprintf(stderr, "integer model does not satisfy the query: %s\n", toStr(e, 8).c_str());
                res = Res::Unknown;
                break;
            }
    }
    if (!gDumpDir.empty() && dumpNo < 2000) {
        char fn[64];
        snprintf(fn, sizeof fn, "/l%05d_%s.smt2", dumpNo++, res == Res::Sat ? "sat" : res == Res::Unsat ? "unsat" : "unknown");
        if (FILE* f = fopen((gDumpDir + fn).c_str(), "w")) {
            fprintf(f, "(set-logic ALL)\n%s(check-sat)\n", Z3_solver_to_string(C, s));
            fclose(f);
        }
    }
    Z3_solver_dec_ref(C, s);
    return res;
}

// Linear integer inequalities by Fourier-Motzkin elimination with integer tightening. Sums, products by constants, extensions and
// comparisons whose operands provably do not wrap; case splits over conditions, disjunctions and disequalities. Unsat is exact for the
// integers (every derived inequality is implied); a model is checked by evaluation; everything else is left to the next procedure.
namespace
{
    struct FmUnsupported
    {};
    struct FmDecide
    {
        E c;
    };
    typedef std::vector<std::pair<uint32_t, i128>> FmTerms; // sorted by variable
    struct FmForm
    {
        FmTerms t;
        i128 c = 0, lo = 0, hi = 0;
    };
    struct FmLit // sum + c <= 0
    {
        FmTerms t;
        i128 c;
    };
    const i128 FMLIM = (i128)1 << 80;
    struct FmState
    {
        std::vector<std::pair<E, bool>> todo;
        std::unordered_map<uint32_t, bool> decided;
        std::vector<FmLit> lits;
    };
    struct Fm
    {
        std::unordered_map<uint32_t, std::pair<i128, i128>> bnd;
        std::unordered_map<uint32_t, FmForm> memo;
        const FmState* st = nullptr;
        int leaves = 0;
        const Model* base = nullptr;
        Model* out = nullptr;

        static FmForm lim(FmForm f)
        {
            if (f.lo < -FMLIM || f.hi > FMLIM)
                throw FmUnsupported();
            return f;
        }
        static FmForm add(const FmForm& a, const FmForm& b, i128 kb)
        {
            FmForm r;
            size_t i = 0, j = 0;
            while (i < a.t.size() || j < b.t.size()) {
                if (j == b.t.size() || (i < a.t.size() && a.t[i].first < b.t[j].first))
                    r.t.push_back(a.t[i++]);
                else if (i == a.t.size() || b.t[j].first < a.t[i].first) {
                    r.t.emplace_back(b.t[j].first, b.t[j].second * kb);
                    ++j;
                } else {
                    i128 v = a.t[i].second + b.t[j].second * kb;
                    if (v)
                        r.t.emplace_back(a.t[i].first, v);
                    ++i;
                    ++j;
                }
            }
            r.c = a.c + b.c * kb;
            return r;
        }
        FmForm range(FmForm f)
        {
            f.lo = f.hi = f.c;
            for (auto& x: f.t) {
                auto& b = bnd[x.first];
                i128 p = x.second * b.first, q = x.second * b.second;
                f.lo += std::min(p, q);
                f.hi += std::max(p, q);
            }
            return lim(f);
        }
        FmForm norm(FmForm a, unsigned w, bool sign)
        {
            if (w > 64)
                throw FmUnsupported();
            i128 M = (i128)1 << w, lo = sign ? -(M / 2) : 0;
            i128 k = fdiv(a.lo - lo, M);
            if (k != fdiv(a.hi - lo, M))
                throw FmUnsupported();
            a.c -= k * M;
            a.lo -= k * M;
            a.hi -= k * M;
            return a;
        }
        FmForm form(E e)
        {
            auto it = memo.find(e->id);
            if (it != memo.end())
                return it->second;
            FmForm r = form0(e);
            memo[e->id] = r;
            return r;
        }
        FmForm form0(E e)
        {
            unsigned w = e->w;
            if (w > 64)
                throw FmUnsupported();
            FmForm r;
            switch (e->op) {
                case O_CONST:
                    r.c = r.lo = r.hi = w > 1 ? (i128)sextW(e->val, w) : (i128)e->val;
                    return r;
                case O_VAR:
                    r.t.emplace_back(e->aux, 1);
                    return range(r);
                case O_ADD:
                    if (w == 1)
                        throw FmUnsupported();
                    return range(add(form(e->k[0]), form(e->k[1]), 1));
                case O_MUL: {
                    int c = e->k[0]->op == O_CONST ? 0 : e->k[1]->op == O_CONST ? 1 : -1;
                    if (c < 0 || w == 1)
                        throw FmUnsupported();
                    i128 k = sextW(e->k[c]->val, w);
                    FmForm a = form(e->k[1 - c]);
                    if (k > ((i128)1 << 40) || k < -((i128)1 << 40))
                        throw FmUnsupported();
                    return range(add(FmForm(), a, k));
                }
                case O_SHL:
                    if (e->k[1]->op != O_CONST || e->k[1]->val >= w || e->k[1]->val > 40)
                        throw FmUnsupported();
                    return range(add(FmForm(), form(e->k[0]), (i128)1 << (unsigned)e->k[1]->val));
                case O_XOR: {
                    int c = e->k[0]->op == O_CONST ? 0 : e->k[1]->op == O_CONST ? 1 : -1;
                    if (w == 1 || c < 0 || e->k[c]->val != maskW(w))
                        throw FmUnsupported();
                    FmForm m1;
                    m1.c = -1;
                    return range(add(m1, form(e->k[1 - c]), -1));
                }
                case O_CONCAT: {
                    if (e->k[1]->w > 62 || w == 1)
                        throw FmUnsupported();
                    FmForm l = norm(bits(e->k[1]), e->k[1]->w, false);
                    return range(add(l, norm(bits(e->k[0]), e->k[0]->w, false), (i128)1 << e->k[1]->w));
                }
                case O_EXTRACT:
                    if (e->aux)
                        return norm(quot(e->id, norm(form(e->k[0]), e->k[0]->w, false), (i128)1 << e->aux), w, false);
                    return norm(form(e->k[0]), w, false);
                case O_LSHR:
                    if (e->k[1]->op != O_CONST || e->k[1]->val >= w)
                        throw FmUnsupported();
                    return quot(e->id, norm(form(e->k[0]), w, false), (i128)1 << (unsigned)e->k[1]->val);
                case O_UDIV:
                case O_UREM:
                case O_SDIV:
                case O_SREM: {
                    if (e->k[1]->op != O_CONST || w == 1)
                        throw FmUnsupported();
                    bool sg = e->op == O_SDIV || e->op == O_SREM;
                    i128 k = sg ? (i128)sextW(e->k[1]->val, w) : (i128)e->k[1]->val;
                    if (k <= 0 || k > ((i128)1 << 40))
                        throw FmUnsupported();
                    FmForm a = norm(form(e->k[0]), w, sg), q;
                    bool neg = a.hi < 0;
                    if (a.lo < 0 && a.hi >= 0) {
                        E c = mkBin(O_SLT, e->k[0], mkConst(0, w));
                        if (isC(c))
                            throw FmUnsupported();
                        auto it = st->decided.find(c->id);
                        if (it == st->decided.end())
                            throw FmDecide{c};
                        neg = it->second;
                    }
                    if (neg) { // rounds towards zero
                        q = quot(e->id, range(add(FmForm(), a, -1)), k);
                        q = range(add(FmForm(), q, -1));
                    } else
                        q = quot(e->id, a, k);
                    if (e->op == O_UDIV || e->op == O_SDIV)
                        return q;
                    FmForm r = range(add(a, q, -k));
                    r.lo = std::max(r.lo, neg ? -(k - 1) : (i128)0);
                    r.hi = std::min(r.hi, neg ? (i128)0 : k - 1);
                    return r;
                }
                case O_SEXT:
                    return norm(bits(e->k[0]), e->k[0]->w, true);
                case O_ITE: {
                    auto it = st->decided.find(e->k[0]->id);
                    if (it == st->decided.end())
                        throw FmDecide{e->k[0]};
                    return form(it->second ? e->k[1] : e->k[2]);
                }
                default:
                    throw FmUnsupported();
            }
        }
        // floor(a / k) as a new variable q: k q <= a <= k q + k - 1
        FmForm quot(uint32_t id, const FmForm& a, i128 k)
        {
            uint32_t v = (1u << 31) + id;
            FmForm q;
            q.t.emplace_back(v, 1);
            bnd[v] = {fdiv(a.lo, k), fdiv(a.hi, k)};
            q = range(q);
            defs.push_back(lit(range(add(FmForm(), q, k)), a, 0));
            FmForm up = range(add(FmForm(), q, k));
            up.c += k - 1;
            defs.push_back(lit(a, up, 0));
            return q;
        }
        std::vector<FmLit> defs;
        // a value of any width: a condition becomes 0 or 1 by a case split
        FmForm bits(E e)
        {
            if (e->w > 1 || e->op == O_CONST || e->op == O_VAR)
                return form(e);
            auto it = st->decided.find(e->id);
            if (it == st->decided.end())
                throw FmDecide{e};
            FmForm r;
            r.c = r.lo = r.hi = it->second;
            return r;
        }
        static FmLit lit(const FmForm& a, const FmForm& b, i128 c) // a - b + c <= 0
        {
            FmForm d = add(a, b, -1);
            return FmLit{d.t, d.c + c};
        }
        Res branch(const FmState& s, std::vector<std::pair<std::vector<std::pair<E, bool>>, std::vector<FmLit>>> alts, E decide = nullptr)
        {
            Res res = Res::Unsat;
            std::vector<FmLit> mine = defs; // definitions used by the literals of this state
            for (size_t i = 0; i < alts.size(); ++i) {
                FmState n = s;
                n.lits.insert(n.lits.end(), mine.begin(), mine.end());
                n.todo.insert(n.todo.end(), alts[i].first.begin(), alts[i].first.end());
                n.lits.insert(n.lits.end(), alts[i].second.begin(), alts[i].second.end());
                if (decide)
                    n.decided[decide->id] = i == 0;
                Res r = run(n);
                if (r == Res::Sat)
                    return r;
                if (r == Res::Unknown)
                    res = r;
            }
            return res;
        }
        Res run(FmState s)
        {
            if (leaves > 300)
                return Res::Unknown;
            memo.clear();
            defs.clear();
            st = &s;
            while (!s.todo.empty()) {
                auto [e, pol] = s.todo.back();
                s.todo.pop_back();
                if (e->op == O_CONST) {
                    if ((e->val != 0) != pol) {
                        ++leaves;
                        return Res::Unsat;
                    }
                    continue;
                }
                try {
                    switch (e->op) {
                        case O_VAR: {
                            FmLit l;
                            l.t.emplace_back(e->aux, pol ? -1 : 1);
                            l.c = pol ? 1 : 0;
                            s.lits.push_back(l);
                            break;
                        }
                        case O_XOR:
                            if (e->k[0]->op == O_CONST)
                                s.todo.emplace_back(e->k[1], pol != (e->k[0]->val != 0));
                            else if (e->k[1]->op == O_CONST)
                                s.todo.emplace_back(e->k[0], pol != (e->k[1]->val != 0));
                            else
                                return branch(s, {{{{e->k[0], true}, {e->k[1], !pol}}, {}}, {{{e->k[0], false}, {e->k[1], pol}}, {}}});
                            break;
                        case O_AND:
                        case O_OR: {
                            bool conj = (e->op == O_AND) == pol;
                            if (conj) {
                                s.todo.emplace_back(e->k[0], pol);
                                s.todo.emplace_back(e->k[1], pol);
                            } else
                                return branch(s, {{{{e->k[0], pol}}, {}}, {{{e->k[0], !pol}, {e->k[1], pol}}, {}}});
                            break;
                        }
                        case O_ITE:
                            return branch(s, {{{{e->k[0], true}, {e->k[1], pol}}, {}}, {{{e->k[0], false}, {e->k[2], pol}}, {}}});
                        case O_EQ: {
                            if (e->k[0]->w == 1)
                                return branch(s, {{{{e->k[0], true}, {e->k[1], pol}}, {}}, {{{e->k[0], false}, {e->k[1], !pol}}, {}}});
                            FmForm a = form(e->k[0]), b = form(e->k[1]);
                            i128 M = (i128)1 << e->k[0]->w;
                            if (!(a.lo - b.hi > -M && a.hi - b.lo < M)) {
                                bool sg = a.lo < 0 || b.lo < 0;
                                a = norm(a, e->k[0]->w, sg);
                                b = norm(b, e->k[0]->w, sg);
                            }
                            if (pol) {
                                s.lits.push_back(lit(a, b, 0));
                                s.lits.push_back(lit(b, a, 0));
                            } else
                                return branch(s, {{{}, {lit(a, b, 1)}}, {{}, {lit(b, a, 1)}}});
                            break;
                        }
                        case O_ULT:
                        case O_ULE:
                        case O_SLT:
                        case O_SLE: {
                            bool sg = e->op == O_SLT || e->op == O_SLE, strict = e->op == O_ULT || e->op == O_SLT;
                            unsigned w = e->k[0]->w;
                            if (w == 1)
                                throw FmUnsupported();
                            FmForm a = norm(form(e->k[0]), w, sg), b = norm(form(e->k[1]), w, sg);
                            if (pol)
                                s.lits.push_back(lit(a, b, strict ? 1 : 0));
                            else
                                s.lits.push_back(lit(b, a, strict ? 0 : 1));
                            break;
                        }
                        case O_EXTRACT: {
                            unsigned kw = e->k[0]->w;
                            if (kw < 2 || e->aux != kw - 1)
                                throw FmUnsupported();
                            FmForm a = norm(form(e->k[0]), kw, true), z;
                            if (pol)
                                s.lits.push_back(lit(a, z, 1));
                            else
                                s.lits.push_back(lit(z, a, 0));
                            break;
                        }
                        default:
                            throw FmUnsupported();
                    }
                } catch (const FmDecide& d) {
                    s.todo.emplace_back(e, pol);
                    return branch(s, {{{{d.c, true}}, {}}, {{{d.c, false}}, {}}}, d.c);
                }
            }
            ++leaves;
            s.lits.insert(s.lits.end(), defs.begin(), defs.end());
            return eliminate(s.lits);
        }
        static bool tighten(FmLit& l) // false: contradiction
        {
            if (l.t.empty())
                return l.c <= 0;
            i128 g = 0;
            for (auto& x: l.t) {
                i128 a = x.second < 0 ? -x.second : x.second, b = g;
                while (b) {
                    i128 q = a % b;
                    a = b;
                    b = q;
                }
                g = a;
            }
            if (g > 1) {
                for (auto& x: l.t)
                    x.second /= g;
                l.c = -fdiv(-l.c, g);
            }
            for (auto& x: l.t)
                if (x.second > ((i128)1 << 50) || x.second < -((i128)1 << 50))
                    throw FmUnsupported();
            if (l.c > FMLIM || l.c < -FMLIM)
                throw FmUnsupported();
            return true;
        }
        Res eliminate(const std::vector<FmLit>& given)
        {
            std::map<FmTerms, i128> cur; // strongest constant per left side
            auto put = [&](FmLit l) {
                if (!tighten(l))
                    return false;
                if (l.t.empty())
                    return true;
                auto it = cur.emplace(l.t, l.c);
                if (!it.second && l.c > it.first->second)
                    it.first->second = l.c;
                return true;
            };
            std::vector<uint32_t> vars;
            for (auto& l: given) {
                if (!put(l))
                    return Res::Unsat;
                for (auto& x: l.t)
                    vars.push_back(x.first);
            }
            std::sort(vars.begin(), vars.end());
            vars.erase(std::unique(vars.begin(), vars.end()), vars.end());
            for (uint32_t x: vars) {
                auto b = bnd[x];
                put(FmLit{{{x, -1}}, b.first});
                put(FmLit{{{x, 1}}, -b.second});
            }
            std::vector<std::pair<uint32_t, std::vector<FmLit>>> order;
            while (!vars.empty()) {
                size_t best = 0;
                uint64_t bc = ~0ull;
                for (size_t i = 0; i < vars.size(); ++i) {
                    uint64_t p = 0, n = 0;
                    for (auto& l: cur)
                        for (auto& x: l.first)
                            if (x.first == vars[i])
                                ++(x.second > 0 ? p : n);
                    if (p * n < bc) {
                        bc = p * n;
                        best = i;
                    }
                }
                uint32_t v = vars[best];
                vars.erase(vars.begin() + best);
                std::vector<std::pair<FmLit, i128>> pos, neg;
                std::vector<FmLit> mine;
                for (auto it = cur.begin(); it != cur.end();) {
                    i128 k = 0;
                    for (auto& x: it->first)
                        if (x.first == v)
                            k = x.second;
                    if (!k) {
                        ++it;
                        continue;
                    }
                    FmLit l{it->first, it->second};
                    mine.push_back(l);
                    (k > 0 ? pos : neg).emplace_back(l, k);
                    it = cur.erase(it);
                }
                if (pos.size() * neg.size() > 2000)
                    return Res::Unknown;
                for (auto& p: pos)
                    for (auto& n: neg) {
                        FmForm a, b;
                        a.t = p.first.t;
                        a.c = p.first.c;
                        b.t = n.first.t;
                        b.c = n.first.c;
                        FmForm r = add(add(FmForm(), a, -n.second), b, p.second);
                        if (!put(FmLit{r.t, r.c}))
                            return Res::Unsat;
                    }
                if (cur.size() > 3000)
                    return Res::Unknown;
                order.emplace_back(v, std::move(mine));
            }
            *out = *base;
            std::unordered_map<uint32_t, i128> fresh; // quotients
            auto value = [&](uint32_t x) -> i128 { return x >> 31 ? fresh[x] : x < out->v.size() ? (i128)out->v[x] : (i128)0; };
            for (size_t i = order.size(); i-- > 0;) {
                uint32_t v = order[i].first;
                i128 lo = bnd[v].first, hi = bnd[v].second;
                for (auto& l: order[i].second) {
                    i128 k = 0, r = l.c;
                    for (auto& x: l.t)
                        if (x.first == v)
                            k = x.second;
                        else
                            r += x.second * value(x.first);
                    if (k > 0)
                        hi = std::min(hi, fdiv(-r, k));
                    else
                        lo = std::max(lo, -fdiv(-r, -k));
                }
                if (lo > hi)
                    return Res::Unknown;
                i128 x = value(v);
                x = std::max(lo, std::min(hi, x));
                if (v >> 31) {
                    fresh[v] = x;
                    continue;
                }
                if (out->v.size() <= v)
                    out->v.resize(v + 1, 0);
                out->v[v] = (u128)x;
            }
            return Res::Sat;
        }
    };
}
Res solveFm(const std::vector<E>& cs, const Model& base, Model& m)
{
    Fm fm;
    fm.base = &base;
    fm.out = &m;
    for (E e: cs)
        for (uint32_t x: varsOf(e)) {
            if (gVars[x].w > 64)
                return Res::Unknown;
            fm.bnd[x] = {0, ((i128)1 << gVars[x].w) - 1};
        }
    if (fm.bnd.size() > 40)
        return Res::Unknown;
    FmState s;
    for (E e: cs)
        s.todo.emplace_back(e, true);
    // bounds of single variables, given as plain comparisons
    for (E e: cs)
        if (varsOf(e).size() == 1 && (e->op == O_ULT || e->op == O_ULE)) {
            E a = e->k[0], b = e->k[1];
            while (a->op == O_CONCAT && isC(a->k[0]) && !a->k[0]->val)
                a = a->k[1];
            while (b->op == O_CONCAT && isC(b->k[0]) && !b->k[0]->val)
                b = b->k[1];
            i128 strict = e->op == O_ULT;
            if (a->op == O_VAR && isC(e->k[1])) {
                auto& q = fm.bnd[a->aux];
                q.second = std::min(q.second, (i128)e->k[1]->val - strict);
            } else if (b->op == O_VAR && isC(e->k[0])) {
                auto& q = fm.bnd[b->aux];
                q.first = std::max(q.first, (i128)e->k[0]->val + strict);
            }
        }
    for (auto& q: fm.bnd)
        if (q.second.first > q.second.second)
            return Res::Unsat;
    Res r;
    try {
        r = fm.run(s);
    } catch (const FmUnsupported&) {
        return Res::Unknown;
    }
    if (r == Res::Sat) {
        m.stamp = ++Model::nextStamp;
        for (E e: cs)
            if (!evalE(e, m)) {
                static int said = 0;
                if (said++ < 3)
                    fprintf(stderr, "elimination model does not satisfy the query: %s\n", toStr(e, 8).c_str());
                return Res::Unknown;
            }
    }
    return r;
}

Res solveSat(const std::vector<E>& pc, E cond, const Model& base, std::shared_ptr<const Model>& out)
{
    gSolverStats.queries++;
    if (isC(cond)) {
        if (!cond->val)
            return Res::Unsat;
        out = std::make_shared<Model>(base);
        return Res::Sat;
    }
    if (evalE(cond, base)) {
        gSolverStats.modelHits++;
        out = std::make_shared<Model>(base);
        return Res::Sat;
    }
    // slice
    std::vector<E> slice;
    std::vector<char> in(pc.size(), 0);
    std::unordered_set<uint32_t> vs(varsOf(cond).begin(), varsOf(cond).end());
    bool changed = true;
    while (changed) {
        changed = false;
        for (size_t i = 0; i < pc.size(); ++i) {
            if (in[i])
                continue;
            const auto& v = varsOf(pc[i]);
            bool hit = false;
            for (uint32_t x: v)
                if (vs.count(x)) {
                    hit = true;
                    break;
                }
            if (hit) {
                in[i] = 1;
                slice.push_back(pc[i]);
                size_t n = vs.size();
                vs.insert(v.begin(), v.end());
                if (vs.size() != n)
                    changed = true;
            }
        }
    }
    std::vector<uint32_t> key;
    for (E e: slice)
        key.push_back(e->id);
    std::sort(key.begin(), key.end());
    key.erase(std::unique(key.begin(), key.end()), key.end());
    key.push_back(cond->id);
    auto apply = [&](const std::vector<std::pair<uint32_t, u128>>& mv) {
        auto m = std::make_shared<Model>(base);
        for (auto& p: mv) {
            if (m->v.size() <= p.first)
                m->v.resize(p.first + 1, 0);
            m->v[p.first] = p.second;
        }
        out = m;
    };
    auto it = cache.find(key);
    if (it != cache.end()) {
        gSolverStats.cacheHits++;
        if (it->second.r == Res::Sat)
            apply(it->second.model);
        return it->second.r;
    }
    // recent models
    for (auto& m: recent) {
        bool ok = evalE(cond, *m) != 0;
        for (size_t i = 0; ok && i < slice.size(); ++i)
            ok = evalE(slice[i], *m) != 0;
        if (ok) {
            gSolverStats.modelHits++;
            CacheEnt ce;
            ce.r = Res::Sat;
            for (uint32_t x: vs)
                ce.model.push_back({x, x < m->v.size() ? m->v[x] : 0});
            apply(ce.model);
            return Res::Sat;
        }
    }
    // finite-domain procedure: a slice over a single variable of at most 8 bits, or one with floating point operations
    // over at most 20000 combinations of values
    unsigned fdBits = 0;
    bool fdFp = cond->fp;
    for (uint32_t x: vs)
        fdBits += gVars[x].w;
    for (E e: slice)
        fdFp = fdFp || e->fp;
    if ((vs.size() == 1 && fdBits <= 8) || (fdFp && fdBits <= 40)) {
        std::vector<uint32_t> xs(vs.begin(), vs.end());
        std::sort(xs.begin(), xs.end());
        Model m;
        m.v.resize(xs.empty() ? 1 : xs.back() + 1, 0);
        std::vector<E> all = slice;
        all.push_back(cond);
        // domains from the constraints over one variable
        std::vector<std::vector<uint32_t>> doms(xs.size());
        std::vector<std::vector<E>> level(xs.size() + 1); // constraints by their last variable
        uint64_t product = 1;
        bool fits = true;
        for (size_t i = 0; i < xs.size() && fits; ++i) {
            std::vector<E> unary;
            for (E e: all)
                if (varsOf(e).size() == 1 && varsOf(e)[0] == xs[i])
                    unary.push_back(e);
            if (gVars[xs[i]].w > 12) {
                fits = false;
                break;
            }
            for (uint32_t v = 0; v < (1u << gVars[xs[i]].w); ++v) {
                m.v[xs[i]] = v;
                m.stamp = ++Model::nextStamp;
                bool ok = true;
                for (size_t k = 0; ok && k < unary.size(); ++k)
                    ok = evalE(unary[k], m) != 0;
                if (ok)
                    doms[i].push_back(v);
            }
            product *= doms[i].size();
            if (product > 20000)
                fits = false;
        }
        if (fits) {
            for (E e: all) {
                const auto& v = varsOf(e);
                if (v.size() == 1)
                    continue;
                size_t last = 0;
                for (uint32_t x: v)
                    last = std::max(last, (size_t)(std::lower_bound(xs.begin(), xs.end(), x) - xs.begin()) + 1);
                level[last].push_back(e);
            }
            CacheEnt ce;
            ce.r = Res::Unsat;
            static uint32_t rot = 0;
            uint32_t start = rot += 37;
            auto holds = [&](size_t lv) {
                m.stamp = ++Model::nextStamp;
                for (E e: level[lv])
                    if (evalE(e, m) == 0)
                        return false;
                return true;
            };
            std::function<bool(size_t)> go = [&](size_t i) {
                if (i == xs.size())
                    return true;
                const auto& d = doms[i];
                for (size_t k = 0; k < d.size(); ++k) {
                    m.v[xs[i]] = d[(start + k) % d.size()];
                    if (holds(i + 1) && go(i + 1))
                        return true;
                }
                return false;
            };
            if (product > 0 && holds(0) && go(0)) {
                ce.r = Res::Sat;
                for (uint32_t x: xs)
                    ce.model.push_back({x, m.v[x]});
            }
            gSolverStats.fdcalls++;
            (ce.r == Res::Sat ? gSolverStats.sat : gSolverStats.unsat)++;
            if (ce.r == Res::Sat)
                apply(ce.model);
            Res rr = ce.r;
            cache.emplace(std::move(key), std::move(ce));
            return rr;
        }
    }
    {
        std::vector<E> cs = slice;
        cs.push_back(cond);
        Model m;
        Res r = solveAffine(cs, base, m);
        if (r == Res::Unknown && !bigAffine(cond)) {
            // the condition without the checksum equations: unsatisfiable is final, a model is a better place to start from
            std::vector<E> rest;
            for (E e: slice)
                if (!bigAffine(e))
                    rest.push_back(e);
            if (rest.size() < slice.size()) {
                std::shared_ptr<const Model> sub;
                Res q = solveSat(rest, cond, base, sub);
                if (q == Res::Unsat)
                    r = q;
                else if (q == Res::Sat)
                    r = solveAffine(cs, *sub, m);
            }
        }
        if (r != Res::Unknown) {
            gSolverStats.gfcalls++;
            CacheEnt ce;
            ce.r = r;
            (r == Res::Sat ? gSolverStats.sat : gSolverStats.unsat)++;
            if (r == Res::Sat) {
                for (uint32_t x: vs)
                    ce.model.push_back({x, x < m.v.size() ? m.v[x] : 0});
                apply(ce.model);
            }
            cache.emplace(std::move(key), std::move(ce));
            return r;
        }
    }
    {
        std::vector<E> cs = slice;
        cs.push_back(cond);
        bool fp = false;
        for (E e: cs)
            fp = fp || e->fp;
        static const char* off = getenv("SYMX_NOFM");
        if (!off && !fp && liaWorth(cs)) {
            Model m;
            Res r = solveFm(cs, base, m);
            if (r != Res::Unknown) {
                gSolverStats.fmcalls++;
                CacheEnt ce;
                ce.r = r;
                (r == Res::Sat ? gSolverStats.sat : gSolverStats.unsat)++;
                if (r == Res::Sat) {
                    for (uint32_t x: vs)
                        ce.model.push_back({x, x < m.v.size() ? m.v[x] : 0});
                    apply(ce.model);
                    recent.push_front(out);
                    if (recent.size() > 24)
                        recent.pop_back();
                }
                cache.emplace(std::move(key), std::move(ce));
                return r;
            }
        }
    }
    init();
    auto t0 = std::chrono::steady_clock::now();
    gSolverStats.z3calls++;
    bool fp = cond->fp;
    for (E e: slice)
        fp = fp || e->fp;
    static const char* sm = getenv("SYMX_SOLVER");
    Z3_solver s = fp ? Z3_mk_solver(C) : sm && *sm == (char)49 ? Z3_mk_simple_solver(C) : Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_BV"));
    Z3_solver_inc_ref(C, s);
    auto setTimeout = [&](unsigned ms) {
        Z3_params p = Z3_mk_params(C);
        Z3_params_inc_ref(C, p);
        Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), ms);
        Z3_solver_set_params(C, s, p);
        Z3_params_dec_ref(C, p);
    };
    std::vector<E> all = slice;
    all.push_back(cond);
    bool lia = !fp && liaWorth(all);
    setTimeout(lia ? 200 : gSolverTimeoutMs);
    static int liaBias = 0; // which of the two encodings to try first
    auto useLia = [&](unsigned ms) {
        Model lm;
        lm.v = base.v;
        Res lr = solveLia(all, ms, lm);
        if (lr == Res::Unknown)
            return lr;
        gSolverStats.liacalls++;
        gSolverStats.z3time += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        CacheEnt ce;
        ce.r = lr;
        (lr == Res::Sat ? gSolverStats.sat : gSolverStats.unsat)++;
        if (lr == Res::Sat) {
            for (uint32_t x: vs)
                ce.model.push_back({x, x < lm.v.size() ? lm.v[x] : 0});
            apply(ce.model);
            recent.push_front(out);
            if (recent.size() > 24)
                recent.pop_back();
        }
        Z3_solver_dec_ref(C, s);
        cache.emplace(std::move(key), std::move(ce));
        return lr;
    };
    bool tried = false;
    if (lia && liaBias > 0) {
        Res lr = useLia(std::min(400u, gSolverTimeoutMs));
        if (lr != Res::Unknown)
            return lr;
        tried = true;
        liaBias -= 2;
    }
    for (E e: slice)
        Z3_solver_assert(C, s, tr(e, true));
    Z3_solver_assert(C, s, tr(cond, true));
    watchStart();
    Z3_lbool r = Z3_solver_check(C, s);
    watchStop();
    if (r == Z3_L_UNDEF && lia) {
        Res lr = useLia(tried ? gSolverTimeoutMs : gSolverTimeoutMs / 2);
        if (lr != Res::Unknown) {
            liaBias = 8;
            return lr;
        }
        setTimeout(gSolverTimeoutMs);
        watchStart();
        r = Z3_solver_check(C, s);
        watchStop();
    }
    CacheEnt ce;
    if (r == Z3_L_TRUE) {
        gSolverStats.sat++;
        ce.r = Res::Sat;
        Z3_model m = Z3_solver_get_model(C, s);
        Z3_model_inc_ref(C, m);
        for (uint32_t x: vs) {
            char nm[32];
            snprintf(nm, sizeof nm, "v%u", x);
            Z3_ast v = Z3_mk_const(C, Z3_mk_string_symbol(C, nm), Z3_mk_bv_sort(C, gVars[x].w));
            Z3_ast val;
            u128 num = 0;
            if (gVars[x].w <= 64) {
                if (Z3_model_eval(C, m, v, true, &val)) {
                    uint64_t u = 0;
                    Z3_get_numeral_uint64(C, val, &u);
                    num = u;
                }
            } else {
                Z3_ast h = Z3_mk_extract(C, gVars[x].w - 1, 64, v), l = Z3_mk_extract(C, 63, 0, v);
                uint64_t u = 0, q = 0;
                if (Z3_model_eval(C, m, h, true, &val))
                    Z3_get_numeral_uint64(C, val, &u);
                if (Z3_model_eval(C, m, l, true, &val))
                    Z3_get_numeral_uint64(C, val, &q);
                num = ((u128)u << 64) | q;
            }
            ce.model.push_back({x, num});
        }
        Z3_model_dec_ref(C, m);
    } else if (r == Z3_L_FALSE) {
        gSolverStats.unsat++;
        ce.r = Res::Unsat;
    } else {
        gSolverStats.unknowns++;
        ce.r = Res::Unknown;
    }
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    gSolverStats.z3time += dt;
    if (!gDumpDir.empty() && dumpNo < 2000) {
        char fn[64];
        snprintf(fn, sizeof fn, "/q%05d_%s.smt2", dumpNo++,
                 ce.r == Res::Sat ? "sat" : ce.r == Res::Unsat ? "unsat" : "unknown");
        if (FILE* f = fopen((gDumpDir + fn).c_str(), "w")) {
            fprintf(f, "(set-logic ALL)\n%s(check-sat)\n", Z3_solver_to_string(C, s));
            fclose(f);
        }
    }
    Z3_solver_dec_ref(C, s);
    if (ce.r == Res::Sat) {
        apply(ce.model);
        // sanity: the model must satisfy the query in our own semantics
        bool ok = evalE(cond, *out) != 0;
        for (size_t i = 0; ok && i < slice.size(); ++i)
            ok = evalE(slice[i], *out) != 0;
        if (!ok) {
            fprintf(stderr, "model mismatch between solver and evaluator: %s\n", toStr(cond, 8).c_str());
            for (E e: slice)
                if (!evalE(e, *out))
                    fprintf(stderr, "  slice: %s\n", toStr(e, 8).c_str());
            gSolverStats.unknowns++;
            ce.r = Res::Unknown;
        } else {
            recent.push_front(out);
            if (recent.size() > 24)
                recent.pop_back();
        }
    }
    Res rr = ce.r;
    if (rr != Res::Unknown)
        cache.emplace(std::move(key), std::move(ce));
    return rr;
}

#include <unordered_map>
#include <unistd.h>
#include "expr.h"
#include <iterator>
#include <memory>
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <unordered_set>

std::vector<VarInfo> gVars;
uint64_t gExprCount = 0;
uint64_t Model::nextStamp = 0;

namespace
{
    std::vector<Expr*> tab(1 << 16, nullptr);
    size_t tabCount = 0;
    char* arena = nullptr;
    size_t arenaLeft = 0;

    Expr* allocExpr()
    {
        if (arenaLeft < sizeof(Expr)) {
            size_t sz = sizeof(Expr) * 16384;
            arena = (char*)aligned_alloc(16, (sz + 15) / 16 * 16);
            if (!arena) {
                fprintf(stderr, "out of memory\n");
                _exit(70);
            }
            arenaLeft = sz;
        }
        Expr* r = (Expr*)arena;
        arena += sizeof(Expr);
        arenaLeft -= sizeof(Expr);
        return r;
    }

    uint32_t hmix(uint64_t h, uint64_t x)
    {
        h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
        h *= 0xff51afd7ed558ccdull;
        h ^= h >> 32;
        return (uint32_t)h;
    }

    E intern(Op op, unsigned w, uint32_t aux, u128 val, E a, E b, E c)
    {
        uint32_t h = hmix(op * 131 + w, aux);
        h = hmix(h, (uint64_t)val);
        if (w > 64)
            h = hmix(h, (uint64_t)(val >> 64));
        h = hmix(h, a ? a->id + 1 : 0);
        h = hmix(h, b ? b->id + 1 : 0);
        h = hmix(h, c ? c->id + 1 : 0);
        size_t m = tab.size() - 1;
        size_t i = h & m;
        while (tab[i]) {
            Expr* e = tab[i];
            if (e->hash == h && e->op == op && e->w == w && e->aux == aux && e->val == val && e->k[0] == a &&
                e->k[1] == b && e->k[2] == c)
                return e;
            i = (i + 1) & m;
        }
        Expr* e = allocExpr();
        e->op = op;
        e->w = w;
        e->aux = aux;
        e->val = val;
        e->k[0] = a;
        e->k[1] = b;
        e->k[2] = c;
        e->hash = h;
        e->id = (uint32_t)gExprCount++;
        e->evStamp = 0;
        e->visit = 0;
        e->uninit = (a && a->uninit) || (b && b->uninit) || (c && c->uninit);
        e->fp = op >= O_FADD || (a && a->fp) || (b && b->fp) || (c && c->fp);
        if (op == O_VAR)
            e->uninit = gVars[aux].uninit;
        tab[i] = e;
        if (++tabCount * 2 > tab.size()) {
            std::vector<Expr*> n(tab.size() * 2, nullptr);
            size_t nm = n.size() - 1;
            for (Expr* x: tab)
                if (x) {
                    size_t j = x->hash & nm;
                    while (n[j])
                        j = (j + 1) & nm;
                    n[j] = x;
                }
            tab.swap(n);
        }
        return e;
    }
    E raw(Op op, unsigned w, E a, E b = nullptr, E c = nullptr, uint32_t aux = 0)
    {
        return intern(op, w, aux, 0, a, b, c);
    }

    double toD(u128 v)
    {
        uint64_t x = (uint64_t)v;
        double d;
        memcpy(&d, &x, 8);
        return d;
    }
    float toF(u128 v)
    {
        uint32_t x = (uint32_t)v;
        float d;
        memcpy(&d, &x, 4);
        return d;
    }
    u128 frD(double d)
    {
        uint64_t x;
        memcpy(&x, &d, 8);
        return x;
    }
    u128 frF(float d)
    {
        uint32_t x;
        memcpy(&x, &d, 4);
        return x;
    }
}

E mkConst(u128 v, unsigned w)
{
    return intern(O_CONST, w, 0, v & maskW(w), nullptr, nullptr, nullptr);
}

E mkVar(const std::string& name, unsigned w, bool uninit)
{
    gVars.push_back({name, w, uninit});
    return intern(O_VAR, w, (uint32_t)gVars.size() - 1, 0, nullptr, nullptr, nullptr);
}

u128 evalOp(Op op, unsigned w, uint32_t aux, const u128* k, const unsigned* kw, int)
{
    u128 m = maskW(w);
    switch (op) {
        case O_ADD:
            return (k[0] + k[1]) & m;
        case O_MUL:
            return (k[0] * k[1]) & m;
        case O_UDIV:
            return k[1] ? k[0] / k[1] : m;
        case O_UREM:
            return k[1] ? k[0] % k[1] : k[0];
        case O_SDIV: {
            __int128 a = sextW(k[0], w), b = sextW(k[1], w);
            if (!b)
                return a < 0 ? 1 : m;
            if (b == -1)
                return (u128)(-(u128)a) & m;
            return (u128)(a / b) & m;
        }
        case O_SREM: {
            __int128 a = sextW(k[0], w), b = sextW(k[1], w);
            if (!b)
                return k[0];
            if (b == -1)
                return 0;
            return (u128)(a % b) & m;
        }
        case O_AND:
            return k[0] & k[1];
        case O_OR:
            return k[0] | k[1];
        case O_XOR:
            return k[0] ^ k[1];
        case O_SHL:
            return k[1] >= w ? 0 : (k[0] << (unsigned)k[1]) & m;
        case O_LSHR:
            return k[1] >= w ? 0 : k[0] >> (unsigned)k[1];
        case O_ASHR: {
            unsigned s = k[1] >= w ? w - 1 : (unsigned)k[1];
            return (u128)(sextW(k[0], w) >> s) & m;
        }
        case O_CONCAT:
            return ((k[0] << kw[1]) | k[1]) & m;
        case O_EXTRACT:
            return (k[0] >> aux) & m;
        case O_SEXT:
            return (u128)sextW(k[0], kw[0]) & m;
        case O_EQ:
            return k[0] == k[1];
        case O_ULT:
            return k[0] < k[1];
        case O_ULE:
            return k[0] <= k[1];
        case O_SLT:
            return sextW(k[0], kw[0]) < sextW(k[1], kw[0]);
        case O_SLE:
            return sextW(k[0], kw[0]) <= sextW(k[1], kw[0]);
        case O_ITE:
            return k[0] ? k[1] : k[2];
        case O_FADD:
            return w == 64 ? frD(toD(k[0]) + toD(k[1])) : frF(toF(k[0]) + toF(k[1]));
        case O_FSUB:
            return w == 64 ? frD(toD(k[0]) - toD(k[1])) : frF(toF(k[0]) - toF(k[1]));
        case O_FMUL:
            return w == 64 ? frD(toD(k[0]) * toD(k[1])) : frF(toF(k[0]) * toF(k[1]));
        case O_FDIV:
            return w == 64 ? frD(toD(k[0]) / toD(k[1])) : frF(toF(k[0]) / toF(k[1]));
        case O_FOEQ:
            return kw[0] == 64 ? toD(k[0]) == toD(k[1]) : toF(k[0]) == toF(k[1]);
        case O_FOLT:
            return kw[0] == 64 ? toD(k[0]) < toD(k[1]) : toF(k[0]) < toF(k[1]);
        case O_FOLE:
            return kw[0] == 64 ? toD(k[0]) <= toD(k[1]) : toF(k[0]) <= toF(k[1]);
        case O_FUNO:
            return kw[0] == 64 ? (std::isnan(toD(k[0])) || std::isnan(toD(k[1])))
                               : (std::isnan(toF(k[0])) || std::isnan(toF(k[1])));
        case O_FP2SI: {
            double d = kw[0] == 64 ? toD(k[0]) : toF(k[0]);
            if (std::isnan(d) || fabs(d) > 1.6e38)
                return 0;
            return (u128)(__int128)d & m;
        }
        case O_FP2UI: {
            double d = kw[0] == 64 ? toD(k[0]) : toF(k[0]);
            if (std::isnan(d) || d < 0 || d > 3.2e38)
                return 0;
            return (u128)d & m;
        }
        case O_SI2FP:
            return w == 64 ? frD((double)sextW(k[0], kw[0])) : frF((float)sextW(k[0], kw[0]));
        case O_UI2FP:
            return w == 64 ? frD((double)k[0]) : frF((float)k[0]);
        case O_FPEXT:
            return frD((double)toF(k[0]));
        case O_FPTRUNC:
            return frF((float)toD(k[0]));
        case O_FROUND: {
            auto r = [&](double d) {
                switch (aux) {
                    case 0:
                        return floor(d);
                    case 1:
                        return ceil(d);
                    case 2:
                        return trunc(d);
                    case 3:
                        return round(d);
                }
                return nearbyint(d);
            };
            return w == 64 ? frD(r(toD(k[0]))) : frF((float)r(toF(k[0])));
        }
        case O_FSQRT:
            return w == 64 ? frD(sqrt(toD(k[0]))) : frF(sqrtf(toF(k[0])));
        default:
            abort();
    }
}

static u128 ev2(Op op, unsigned w, E a, E b)
{
    u128 k[2] = {a->val, b->val};
    unsigned kw[2] = {a->w, b->w};
    return evalOp(op, w, 0, k, kw, 2);
}

static E mkExtractRaw(E a, unsigned off, unsigned w);
E mkExtract(E a, unsigned off, unsigned w)
{
    if (off == 0 && w == a->w)
        return a;
    if (isC(a))
        return mkConst(a->val >> off, w);
    if (a->op == O_VAR)
        return mkExtractRaw(a, off, w);
    // memoised: walking shared sub-expressions would be exponential
    static std::unordered_map<uint64_t, E> memo;
    uint64_t key = (uint64_t)a->id << 16 | off << 8 | w;
    auto it = memo.find(key);
    if (it != memo.end())
        return it->second;
    E r = mkExtractRaw(a, off, w);
    memo.emplace(key, r);
    return r;
}
static E mkExtractRaw(E a, unsigned off, unsigned w)
{
    switch (a->op) {
        case O_EXTRACT:
            return mkExtract(a->k[0], off + a->aux, w);
        case O_CONCAT: {
            unsigned lw = a->k[1]->w;
            if (off >= lw)
                return mkExtract(a->k[0], off - lw, w);
            if (off + w <= lw)
                return mkExtract(a->k[1], off, w);
            return mkConcat(mkExtract(a->k[0], 0, off + w - lw), mkExtract(a->k[1], off, lw - off));
        }
        case O_SEXT:
            if (off + w <= a->k[0]->w)
                return mkExtract(a->k[0], off, w);
            if (off == 0)
                return mkSExt(a->k[0], w);
            if (off < a->k[0]->w) {
                return mkSExt(mkExtract(a->k[0], off, a->k[0]->w - off), w);
            }
            return mkSExt(mkExtract(a->k[0], a->k[0]->w - 1, 1), w);
        case O_AND:
        case O_OR:
        case O_XOR:
            return mkBin(a->op, mkExtract(a->k[0], off, w), mkExtract(a->k[1], off, w));
        case O_ITE:
            return mkIte(a->k[0], mkExtract(a->k[1], off, w), mkExtract(a->k[2], off, w));
        case O_ADD:
        case O_MUL:
            if (off == 0 && w < a->w) {
                return mkBin(a->op, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w));
            }
            break;
        default:
            break;
    }
    return raw(O_EXTRACT, w, a, nullptr, nullptr, off);
}

E mkConcat(E hi, E lo)
{
    unsigned w = hi->w + lo->w;
    if (w > 128) {
        fprintf(stderr, "expression too wide\n");
        abort();
    }
    if (isC(hi) && isC(lo))
        return mkConst((hi->val << lo->w) | lo->val, w);
    // right associate
    if (hi->op == O_CONCAT)
        return mkConcat(hi->k[0], mkConcat(hi->k[1], lo));
    // merge neighbouring extracts / constants with head of lo
    E lh = lo->op == O_CONCAT ? lo->k[0] : lo;
    E lt = lo->op == O_CONCAT ? lo->k[1] : nullptr;
    E merged = nullptr;
    if (isC(hi) && isC(lh))
        merged = mkConst((hi->val << lh->w) | lh->val, hi->w + lh->w);
    else if (hi->op == O_EXTRACT) {
        if (lh->op == O_EXTRACT && lh->k[0] == hi->k[0] && hi->aux == lh->aux + lh->w)
            merged = mkExtract(hi->k[0], lh->aux, hi->w + lh->w);
        else if (lh == hi->k[0] && hi->aux == lh->w)
            merged = nullptr;
    }
    if (merged)
        return lt ? mkConcat(merged, lt) : merged;
    // concat of itel with same condition: ite(c,a,b)++ite(c,d,e) for single-bit pieces of the same ite
    if (hi->op == O_ITE && lh->op == O_ITE && hi->k[0] == lh->k[0] && isC(hi->k[1]) && isC(hi->k[2]) &&
        isC(lh->k[1]) && isC(lh->k[2]))
    {
        E m = mkIte(hi->k[0], mkConcat(hi->k[1], lh->k[1]), mkConcat(hi->k[2], lh->k[2]));
        return lt ? mkConcat(m, lt) : m;
    }
    return raw(O_CONCAT, w, hi, lo);
}

E mkZExt(E a, unsigned w)
{
    if (w == a->w)
        return a;
    return mkConcat(mkConst(0, w - a->w), a);
}

E mkSExt(E a, unsigned w)
{
    if (w == a->w)
        return a;
    if (isC(a))
        return mkConst((u128)sextW(a->val, a->w), w);
    if (a->op == O_CONCAT && isC(a->k[0]) && a->k[0]->w >= 1) {
        // sign bit is known
        u128 top = a->k[0]->val >> (a->k[0]->w - 1);
        if (!(top & 1))
            return mkZExt(a, w);
    }
    if (a->op == O_SEXT)
        return mkSExt(a->k[0], w);
    if (a->op == O_ITE && isC(a->k[1]) && isC(a->k[2]))
        return mkIte(a->k[0], mkSExt(a->k[1], w), mkSExt(a->k[2], w));
    return raw(O_SEXT, w, a);
}

E mkNot(E a)
{
    if (isC(a))
        return mkConst(~a->val, a->w);
    if (a->w == 1) {
        if (a->op == O_ULT)
            return mkBin(O_ULE, a->k[1], a->k[0]);
        if (a->op == O_ULE)
            return mkBin(O_ULT, a->k[1], a->k[0]);
        if (a->op == O_SLT)
            return mkBin(O_SLE, a->k[1], a->k[0]);
        if (a->op == O_SLE)
            return mkBin(O_SLT, a->k[1], a->k[0]);
    }
    return mkBin(O_XOR, a, mkConst(~(u128)0, a->w));
}

E mkNeg(E a)
{
    if (isC(a))
        return mkConst(-a->val, a->w);
    return mkAdd(mkNot(a), mkConst(1, a->w));
}

static void splitAdd(E a, E& rest, u128& c)
{
    // a = c + rest
    if (isC(a)) {
        c = a->val;
        rest = nullptr;
        return;
    }
    if (a->op == O_ADD && isC(a->k[0])) {
        c = a->k[0]->val;
        rest = a->k[1];
        return;
    }
    c = 0;
    rest = a;
}

static bool isZero(E e)
{
    return isC(e) && e->val == 0;
}
static bool isOnes(E e)
{
    return isC(e) && e->val == maskW(e->w);
}

// Segment-wise combination of two expressions where at every segment at least one is zero.
static E tryDisjoint(E a, E b)
{
    bool ca = a->op == O_CONCAT || isC(a), cb = b->op == O_CONCAT || isC(b);
    if (!ca || !cb)
        return nullptr;
    std::vector<std::pair<E, E>> segs; // from high to low
    E x = a, y = b;
    while (true) {
        E xh = x->op == O_CONCAT ? x->k[0] : x, xt = x->op == O_CONCAT ? x->k[1] : nullptr;
        E yh = y->op == O_CONCAT ? y->k[0] : y, yt = y->op == O_CONCAT ? y->k[1] : nullptr;
        if (xh->w > yh->w) {
            E top = mkExtract(xh, xh->w - yh->w, yh->w);
            E low = mkExtract(xh, 0, xh->w - yh->w);
            xt = xt ? mkConcat(low, xt) : low;
            xh = top;
        } else if (yh->w > xh->w) {
            E top = mkExtract(yh, yh->w - xh->w, xh->w);
            E low = mkExtract(yh, 0, yh->w - xh->w);
            yt = yt ? mkConcat(low, yt) : low;
            yh = top;
        }
        if (xh->w != yh->w)
            return nullptr;
        if (!isZero(xh) && !isZero(yh))
            return nullptr;
        segs.push_back({xh, yh});
        if (!xt || !yt) {
            if (xt || yt)
                return nullptr;
            break;
        }
        x = xt;
        y = yt;
    }
    E r = nullptr;
    for (size_t i = segs.size(); i-- > 0;) {
        E s = isZero(segs[i].first) ? segs[i].second : segs[i].first;
        r = r ? mkConcat(s, r) : s;
    }
    return r;
}

// number of known-zero high bits
static unsigned highZeros(E e, int d = 12)
{
    if (isC(e)) {
        unsigned n = 0;
        while (n < e->w && !((e->val >> (e->w - 1 - n)) & 1))
            n++;
        return n;
    }
    if (d <= 0)
        return 0;
    if (e->op == O_CONCAT) {
        unsigned n = highZeros(e->k[0], d - 1);
        if (n == e->k[0]->w)
            n += highZeros(e->k[1], d - 1);
        return n;
    }
    if (e->op == O_AND) {
        unsigned a = highZeros(e->k[0], d - 1), b = highZeros(e->k[1], d - 1);
        return a > b ? a : b;
    }
    if (e->op == O_ITE && e->w > 1) {
        unsigned a = highZeros(e->k[1], d - 1), b = highZeros(e->k[2], d - 1);
        return a < b ? a : b;
    }
    return 0;
}

E mkAdd(E a, E b)
{
    unsigned w = a->w;
    if (w == 1)
        return mkBin(O_XOR, a, b);
    E ra, rb;
    u128 ca, cb;
    splitAdd(a, ra, ca);
    splitAdd(b, rb, cb);
    u128 c = (ca + cb) & maskW(w);
    E r;
    if (!ra && !rb)
        return mkConst(c, w);
    if (!ra)
        r = rb;
    else if (!rb)
        r = ra;
    else {
        // x + ~x = -1
        if ((ra->op == O_XOR && isOnes(ra->k[0]) && ra->k[1] == rb) ||
            (rb->op == O_XOR && isOnes(rb->k[0]) && rb->k[1] == ra))
            return mkConst(c + maskW(w), w);
        // (x + y) + ~y = x - 1
        auto cancel = [&](E p, E q) -> E {
            if (q->op == O_XOR && isOnes(q->k[0]) && p->op == O_ADD) {
                if (p->k[1] == q->k[1])
                    return p->k[0];
                if (p->k[0] == q->k[1])
                    return p->k[1];
            }
            return nullptr;
        };
        if (E x = cancel(ra, rb))
            return mkAdd(mkConst(c + maskW(w), w), x);
        if (E x = cancel(rb, ra))
            return mkAdd(mkConst(c + maskW(w), w), x);
        if (E d = tryDisjoint(ra, rb))
            r = d;
        else if (ra == rb && w > 1)
            r = mkConcat(mkExtract(ra, 0, w - 1), mkConst(0, 1));
        else {
            // narrow the addition when high zeros are known
            unsigned za = highZeros(ra), zb = highZeros(rb);
            unsigned z = za < zb ? za : zb;
            if (z >= 2) {
                unsigned nw = w - z + 1;
                E na = mkExtract(ra, 0, nw), nb = mkExtract(rb, 0, nw);
                if (na->id > nb->id)
                    std::swap(na, nb);
                r = mkZExt(raw(O_ADD, nw, na, nb), w);
            } else {
                if (ra->id > rb->id)
                    std::swap(ra, rb);
                r = raw(O_ADD, w, ra, rb);
            }
        }
    }
    if (c == 0)
        return r;
    if (isC(r))
        return mkConst(r->val + c, w);
    if (r->op == O_ADD && isC(r->k[0]))
        return mkAdd(mkConst(c + r->k[0]->val, w), r->k[1]);
    if (E d = tryDisjoint(mkConst(c, w), r))
        return d;
    if (r->op == O_ITE && isC(r->k[1]) && isC(r->k[2]))
        return mkIte(r->k[0], mkConst(r->k[1]->val + c, w), mkConst(r->k[2]->val + c, w));
    // constant whose low bits are zero: the low part of a concatenation is untouched
    if (r->op == O_CONCAT && isC(r->k[0]) && (c & maskW(r->k[1]->w)) == 0)
        return mkConcat(mkConst(r->k[0]->val + (c >> r->k[1]->w), r->k[0]->w), r->k[1]);
    return raw(O_ADD, w, mkConst(c, w), r);
}

E mkSub(E a, E b)
{
    if (a == b)
        return mkConst(0, a->w);
    if (isC(b))
        return mkAdd(a, mkConst(-b->val, b->w));
    // (x + b) - b
    if (a->op == O_ADD) {
        if (a->k[0] == b)
            return a->k[1];
        if (a->k[1] == b)
            return a->k[0];
    }
    return mkAdd(a, mkNeg(b));
}

E mkIte(E c, E a, E b)
{
    if (isC(c))
        return c->val ? a : b;
    if (a == b)
        return a;
    if (c->op == O_XOR && c->w == 1 && isOnes(c->k[0]))
        return mkIte(c->k[1], b, a);
    if (a->w == 1) {
        if (isC(a) && isC(b))
            return a->val ? c : mkNot(c);
        if (isC(a))
            return a->val ? mkBin(O_OR, c, b) : mkBin(O_AND, mkNot(c), b);
        if (isC(b))
            return b->val ? mkBin(O_OR, mkNot(c), a) : mkBin(O_AND, c, a);
    }
    if (a->op == O_ITE && a->k[0] == c)
        a = a->k[1];
    if (b->op == O_ITE && b->k[0] == c)
        b = b->k[2];
    if (a == b)
        return a;
    // common prefix/suffix of concats
    if (a->op == O_CONCAT && b->op == O_CONCAT) {
        if (a->k[0] == b->k[0])
            return mkConcat(a->k[0], mkIte(c, a->k[1], b->k[1]));
        if (a->k[1] == b->k[1])
            return mkConcat(mkIte(c, a->k[0], b->k[0]), a->k[1]);
        if (a->k[0]->w == b->k[0]->w && ((isC(a->k[0]) && isC(b->k[0])) || (isC(a->k[1]) && isC(b->k[1]))))
            return mkConcat(mkIte(c, a->k[0], b->k[0]), mkIte(c, a->k[1], b->k[1]));
    }
    // a choice between values that differ by a constant mask (steps of a checksum)
    if (a->op == O_XOR && isC(a->k[0]) && a->k[1] == b)
        return mkBin(O_XOR, b, mkIte(c, a->k[0], mkConst(0, a->w)));
    if (b->op == O_XOR && isC(b->k[0]) && b->k[1] == a)
        return mkBin(O_XOR, a, mkIte(c, mkConst(0, a->w), b->k[0]));
    if (a->op == O_XOR && b->op == O_XOR && isC(a->k[0]) && isC(b->k[0]) && a->k[1] == b->k[1])
        return mkBin(O_XOR, a->k[1], mkIte(c, a->k[0], b->k[0]));
    {
        unsigned za = highZeros(a), zb = highZeros(b);
        unsigned z = za < zb ? za : zb;
        if (z > 0 && z < a->w)
            return mkConcat(mkConst(0, z), mkIte(c, mkExtract(a, 0, a->w - z), mkExtract(b, 0, b->w - z)));
    }
    return raw(O_ITE, a->w, c, a, b);
}

// ---- affine forms over GF(2) of single-bit expressions: equalities between xor networks (checksums) are decided by them
namespace
{
    struct Lin
    {
        std::vector<uint32_t> a; // sorted ids of the atoms
        bool c = false;
    };
    std::vector<std::unique_ptr<Lin>> linMemo;
    std::unordered_map<uint32_t, E> linAtom;
    void symDiff(Lin& o, const Lin& x, const Lin& y)
    {
        o.a.clear();
        o.a.reserve(x.a.size() + y.a.size());
        std::set_symmetric_difference(x.a.begin(), x.a.end(), y.a.begin(), y.a.end(), std::back_inserter(o.a));
        o.c = x.c ^ y.c;
    }
    const Lin& linOf(E e)
    {
        static std::vector<E> st;
        size_t base = st.size();
        st.push_back(e);
        while (st.size() > base) {
            E x = st.back();
            if (x->id >= linMemo.size())
                linMemo.resize(x->id * 5 / 4 + 1024);
            if (linMemo[x->id]) {
                st.pop_back();
                continue;
            }
            if (x->op == O_XOR) {
                bool ready = true;
                for (int i = 0; i < 2; ++i)
                    if (x->k[i]->id >= linMemo.size() || !linMemo[x->k[i]->id]) {
                        st.push_back(x->k[i]);
                        ready = false;
                    }
                if (!ready)
                    continue;
                auto l = std::make_unique<Lin>();
                symDiff(*l, *linMemo[x->k[0]->id], *linMemo[x->k[1]->id]);
                linMemo[x->id] = std::move(l);
            } else {
                auto l = std::make_unique<Lin>();
                if (x->op == O_CONST)
                    l->c = x->val & 1;
                else {
                    l->a.push_back(x->id);
                    linAtom[x->id] = x;
                }
                linMemo[x->id] = std::move(l);
            }
            st.pop_back();
        }
        return *linMemo[e->id];
    }
    bool hasXor(E e, int depth)
    {
        if (e->op == O_XOR)
            return true;
        if (depth == 0)
            return false;
        if (e->op == O_CONCAT || e->op == O_EXTRACT || e->op == O_SEXT)
            for (int i = 0; i < 2; ++i)
                if (e->k[i] && hasXor(e->k[i], depth - 1))
                    return true;
        return false;
    }
    // a == b by cancellation of common terms; nullptr when nothing cancels
    E xorEq(E a, E b)
    {
        unsigned w = a->w;
        size_t before = 0, after = 0;
        std::vector<Lin> d(w);
        for (unsigned i = 0; i < w; ++i) {
            const Lin& x = linOf(mkExtract(a, i, 1));
            Lin xa = x;
            const Lin& y = linOf(mkExtract(b, i, 1));
            before += xa.a.size() + y.a.size();
            symDiff(d[i], xa, y);
            after += d[i].a.size();
            if (d[i].a.empty() && d[i].c)
                return mkFalse();
        }
        if (after == 0)
            return mkTrue();
        if (after * 2 > before || after > 4096)
            return nullptr;
        E r = mkTrue();
        for (unsigned i = 0; i < w; ++i) {
            if (d[i].a.empty())
                continue;
            E x = mkConst(d[i].c, 1);
            for (uint32_t id: d[i].a)
                x = mkBin(O_XOR, linAtom[id], x);
            r = mkBin(O_AND, r, mkNot(x));
        }
        return r;
    }
}

// ---- exact non-negative integer linear forms: sum of coefficient * atom + constant, where nothing wraps
namespace
{
    struct IntLin
    {
        std::vector<std::pair<uint32_t, u128>> t; // sorted by atom id
        u128 c = 0, max = 0;
    };
    std::unordered_map<uint32_t, std::shared_ptr<const IntLin>> intMemo;
    std::unordered_map<uint32_t, E> intAtom;
    const u128 INT_CAP = (u128)1 << 100;
    bool intAcc(IntLin& o, const IntLin& x, u128 k)
    {
        if (k == 0)
            return true;
        if (x.max && k > INT_CAP / x.max)
            return false;
        std::vector<std::pair<uint32_t, u128>> r;
        size_t i = 0, j = 0;
        while (i < o.t.size() || j < x.t.size()) {
            if (j == x.t.size() || (i < o.t.size() && o.t[i].first < x.t[j].first))
                r.push_back(o.t[i++]);
            else if (i == o.t.size() || x.t[j].first < o.t[i].first) {
                r.push_back({x.t[j].first, x.t[j].second * k});
                j++;
            } else {
                r.push_back({o.t[i].first, o.t[i].second + x.t[j].second * k});
                i++;
                j++;
            }
        }
        o.t = std::move(r);
        o.c += x.c * k;
        o.max += x.max * k;
        return o.max < INT_CAP && o.t.size() <= 64;
    }
    std::shared_ptr<const IntLin> intAtomOf(E e)
    {
        auto r = std::make_shared<IntLin>();
        if (isC(e)) {
            r->c = r->max = e->val;
            return r;
        }
        r->t.push_back({e->id, 1});
        r->max = maskW(e->w);
        intAtom[e->id] = e;
        return r;
    }
    std::shared_ptr<const IntLin> intOf(E e, int depth = 40)
    {
        if (e->w > 96 || depth <= 0)
            return nullptr;
        auto it = intMemo.find(e->id);
        if (it != intMemo.end())
            return it->second;
        auto r = std::make_shared<IntLin>();
        bool ok = false;
        switch (e->op) {
            case O_ADD: {
                auto x = intOf(e->k[0], depth - 1), y = intOf(e->k[1], depth - 1);
                ok = x && y && intAcc(*r, *x, 1) && intAcc(*r, *y, 1);
                break;
            }
            case O_MUL:
                if (isC(e->k[0])) {
                    auto x = intOf(e->k[1], depth - 1);
                    ok = x && intAcc(*r, *x, e->k[0]->val);
                }
                break;
            case O_CONCAT: {
                auto x = intOf(e->k[0], depth - 1), y = intOf(e->k[1], depth - 1);
                ok = x && y && intAcc(*r, *x, (u128)1 << e->k[1]->w) && intAcc(*r, *y, 1);
                break;
            }
            case O_EXTRACT:
                if (e->aux == 0) {
                    auto x = intOf(e->k[0], depth - 1);
                    ok = x && intAcc(*r, *x, 1);
                }
                break;
            default:
                break;
        }
        std::shared_ptr<const IntLin> res;
        if (ok && r->max <= maskW(e->w))
            res = r;
        else
            res = intAtomOf(e);
        intMemo[e->id] = res;
        return res;
    }
    E intBuild(const IntLin& l, unsigned w)
    {
        E r = mkConst(l.c, w);
        for (auto& p: l.t) {
            E x = intAtom[p.first];
            x = x->w < w ? mkZExt(x, w) : mkExtract(x, 0, w);
            r = mkAdd(r, mkBin(O_MUL, mkConst(p.second, w), x));
        }
        return r;
    }
    // x / m or x % m with the exactly divisible part taken out; nullptr when there is none
    E intDivRem(Op op, E x, u128 m)
    {
        auto l = intOf(x);
        if (!l || l->t.size() < 2)
            return nullptr;
        IntLin q, rest;
        bool any = false, reduced = false;
        for (auto& p: l->t) {
            u128 am = maskW(intAtom[p.first]->w);
            if (p.second >= m) {
                q.t.push_back({p.first, p.second / m});
                q.max += am * (p.second / m);
                any = true;
            }
            if (p.second % m) {
                rest.t.push_back({p.first, p.second % m});
                rest.max += am * (p.second % m);
            } else
                reduced = true;
        }
        if (!any || !reduced)
            return nullptr;
        q.c = l->c / m;
        rest.c = l->c % m;
        rest.max += rest.c;
        unsigned w = x->w;
        E r = intBuild(rest, w);
        if (op == O_UREM)
            return mkBin(O_UREM, r, mkConst(m, w));
        return mkAdd(intBuild(q, w), mkBin(O_UDIV, r, mkConst(m, w)));
    }
    bool arith(E e, int d = 6)
    {
        if (e->op == O_ADD || e->op == O_MUL)
            return true;
        if (d > 0 && (e->op == O_CONCAT || (e->op == O_EXTRACT && e->aux == 0)))
            return arith(e->k[e->op == O_CONCAT ? 1 : 0], d - 1);
        return false;
    }
}

E mkEq(E a, E b)
{
    if (a == b)
        return mkTrue();
    if (a->w >= 8 && a->w <= 96 && !isC(a) && !isC(b) && (arith(a) || arith(b))) {
        auto x = intOf(a), y = intOf(b);
        if (x && y && x->c == y->c && x->t == y->t)
            return mkTrue();
    }
    if (a->w > 1 && a->w <= 64 && !isC(a) && !isC(b) && (hasXor(a, 12) || hasXor(b, 12)))
        if (E r = xorEq(a, b))
            return r;
    if (a->w > 1 && a->w <= 64 && isC(a) != isC(b) && hasXor(isC(a) ? b : a, 12)) {
        // all terms may cancel
        E x = isC(a) ? b : a, c = isC(a) ? a : b;
        bool allConst = true;
        for (unsigned i = 0; i < x->w && allConst; ++i) {
            const Lin& l = linOf(mkExtract(x, i, 1));
            if (!l.a.empty())
                allConst = false;
            else if (l.c != (bool)((c->val >> i) & 1))
                return mkFalse();
        }
        if (allConst)
            return mkTrue();
    }
    if (isC(a) && isC(b))
        return mkConst(a->val == b->val, 1);
    if (isC(b))
        std::swap(a, b);
    if (a->w == 1) {
        if (isC(a))
            return a->val ? b : mkNot(b);
        return mkNot(mkBin(O_XOR, a, b));
    }
    if (isC(a)) {
        u128 v = a->val;
        if (b->op == O_CONCAT) {
            E h = b->k[0], l = b->k[1];
            if (isC(h)) {
                if (h->val != (v >> l->w))
                    return mkFalse();
                return mkEq(mkConst(v, l->w), l);
            }
            // split into conjunction when the low part is constant
            if (isC(l)) {
                if (l->val != (v & maskW(l->w)))
                    return mkFalse();
                return mkEq(mkConst(v >> l->w, h->w), h);
            }
            return mkBin(O_AND, mkEq(mkConst(v >> l->w, h->w), h), mkEq(mkConst(v, l->w), l));
        }
        if (b->op == O_SEXT) {
            E x = b->k[0];
            u128 t = (u128)sextW(v, x->w) & maskW(b->w);
            if (t != v)
                return mkFalse();
            return mkEq(mkConst(v, x->w), x);
        }
        if (b->op == O_ADD && isC(b->k[0]))
            return mkEq(mkConst(v - b->k[0]->val, a->w), b->k[1]);
        if (b->op == O_XOR && isC(b->k[0]))
            return mkEq(mkConst(v ^ b->k[0]->val, a->w), b->k[1]);
        if (b->op == O_ITE) {
            E x = b->k[1], y = b->k[2];
            if (isC(x) || isC(y) || x->op == O_ITE || y->op == O_ITE) {
                // shared subterms must not be walked once per path
                static std::unordered_map<uint64_t, E> memo;
                uint64_t key = (uint64_t)a->id << 32 | b->id;
                auto it = memo.find(key);
                if (it != memo.end())
                    return it->second;
                E r = mkIte(b->k[0], mkEq(a, x), mkEq(a, y));
                memo[key] = r;
                return r;
            }
        }
        if (b->op == O_AND && isC(b->k[0])) {
            if (v & ~b->k[0]->val)
                return mkFalse();
        }
    } else if (a->op == O_CONCAT && b->op == O_CONCAT) {
        if (a->k[0]->w == b->k[0]->w)
            return mkBin(O_AND, mkEq(a->k[0], b->k[0]), mkEq(a->k[1], b->k[1]));
        unsigned za = highZeros(a), zb = highZeros(b);
        unsigned z = za < zb ? za : zb;
        if (z)
            return mkEq(mkExtract(a, 0, a->w - z), mkExtract(b, 0, b->w - z));
    }
    if (a->op == O_ADD && b->op == O_ADD && isC(a->k[0]) && isC(b->k[0])) {
        return mkEq(mkAdd(mkConst(a->k[0]->val - b->k[0]->val, a->w), a->k[1]), b->k[1]);
    }
    if (a->op == O_SEXT && b->op == O_SEXT && a->k[0]->w == b->k[0]->w)
        return mkEq(a->k[0], b->k[0]);
    if (!isC(a) && a->id > b->id)
        std::swap(a, b);
    return raw(O_EQ, 1, a, b);
}

static E mkCmp(Op op, E a, E b)
{
    bool strict = op == O_ULT || op == O_SLT;
    if (a == b)
        return strict ? mkFalse() : mkTrue();
    unsigned w = a->w;
    if (op == O_ULT || op == O_ULE) {
        if (isC(b)) {
            if (op == O_ULT && b->val == 0)
                return mkFalse();
            if (op == O_ULE && b->val == maskW(w))
                return mkTrue();
            if (op == O_ULE && b->val == 0)
                return mkEq(b, a);
            if (op == O_ULT && b->val == 1)
                return mkEq(mkConst(0, w), a);
        }
        if (isC(a)) {
            if (op == O_ULE && a->val == 0)
                return mkTrue();
            if (op == O_ULT && a->val == maskW(w))
                return mkFalse();
            if (op == O_ULT && a->val == 0)
                return mkNot(mkEq(a, b));
        }
        unsigned za = highZeros(a), zb = highZeros(b);
        unsigned z = za < zb ? za : zb;
        if (z && z < w)
            return mkCmp(op, mkExtract(a, 0, w - z), mkExtract(b, 0, w - z));
        if (isC(b) && za > zb)
            return mkTrue(); // a < 2^(w-za) <= b
        if (isC(a) && zb > za)
            return mkFalse();
        if (a->op == O_CONCAT && b->op == O_CONCAT && a->k[0] == b->k[0])
            return mkCmp(op, a->k[1], b->k[1]);
        if (a->op == O_CONCAT && b->op == O_CONCAT && a->k[1] == b->k[1])
            return mkCmp(op, a->k[0], b->k[0]);
    } else {
        unsigned za = highZeros(a), zb = highZeros(b);
        if (za && zb)
            return mkCmp(op == O_SLT ? O_ULT : O_ULE, a, b);
        if (a->op == O_SEXT && b->op == O_SEXT && a->k[0]->w == b->k[0]->w)
            return mkCmp(op, a->k[0], b->k[0]);
        if (a->op == O_SEXT && isC(b)) {
            E x = a->k[0];
            if (((u128)sextW(b->val, x->w) & maskW(w)) == b->val)
                return mkCmp(op, x, mkConst(b->val, x->w));
            // constant outside the range of x
            return sextW(b->val, w) > 0 ? mkTrue() : mkFalse();
        }
        if (b->op == O_SEXT && isC(a)) {
            E x = b->k[0];
            if (((u128)sextW(a->val, x->w) & maskW(w)) == a->val)
                return mkCmp(op, mkConst(a->val, x->w), x);
            return sextW(a->val, w) < 0 ? mkTrue() : mkFalse();
        }
    }
    if (a->op == O_ITE && isC(a->k[1]) && isC(a->k[2]) && isC(b))
        return mkIte(a->k[0], mkCmp(op, a->k[1], b), mkCmp(op, a->k[2], b));
    if (b->op == O_ITE && isC(b->k[1]) && isC(b->k[2]) && isC(a))
        return mkIte(b->k[0], mkCmp(op, a, b->k[1]), mkCmp(op, a, b->k[2]));
    if (isC(a) && isC(b))
        return mkConst(ev2(op, 1, a, b), 1);
    // comparisons that only test the sign bit, as that bit (the GF(2) procedure then sees it)
    if (w > 1) {
        u128 top = (u128)1 << (w - 1);
        if ((op == O_SLT && isC(b) && b->val == 0) || (op == O_SLE && isC(b) && b->val == maskW(w)))
            return mkExtract(a, w - 1, 1);
        if ((op == O_ULT && isC(b) && b->val == top) || (op == O_ULE && isC(b) && b->val == top - 1))
            return mkNot(mkExtract(a, w - 1, 1));
        if ((op == O_SLE && isC(a) && a->val == 0) || (op == O_SLT && isC(a) && a->val == maskW(w)))
            return mkNot(mkExtract(b, w - 1, 1));
        if ((op == O_ULE && isC(a) && a->val == top) || (op == O_ULT && isC(a) && a->val == top - 1))
            return mkExtract(b, w - 1, 1);
    }
    return raw(op, 1, a, b);
}

E mkBin(Op op, E a, E b)
{
    unsigned w = a->w;
    if (a->w != b->w) {
        fprintf(stderr, "width mismatch op %d: %u %u\n", op, a->w, b->w);
        abort();
    }
    switch (op) {
        case O_ADD:
            return mkAdd(a, b);
        case O_EQ:
            return mkEq(a, b);
        default:
            break;
    }
    if (isC(a) && isC(b)) {
        unsigned rw = (op >= O_EQ && op <= O_SLE) ? 1 : w;
        return mkConst(ev2(op, rw, a, b), rw);
    }
    switch (op) {
        case O_AND:
        case O_OR:
        case O_XOR: {
            if (isC(b) || (!isC(a) && a->id > b->id))
                std::swap(a, b);
            if (a == b)
                return op == O_XOR ? mkConst(0, w) : a;
            if (isC(a)) {
                u128 v = a->val;
                if (v == 0)
                    return op == O_AND ? a : b;
                if (v == maskW(w)) {
                    if (op == O_AND)
                        return b;
                    if (op == O_OR)
                        return a;
                }
                // reassociate constants
                if (b->op == op && isC(b->k[0])) {
                    return mkBin(op, mkConst(ev2(op, w, a, b->k[0]), w), b->k[1]);
                }
                if (op == O_XOR && w == 1 && v == 1 && b->op != O_XOR) {
                    if (b->op == O_ULT)
                        return mkBin(O_ULE, b->k[1], b->k[0]);
                    if (b->op == O_ULE)
                        return mkBin(O_ULT, b->k[1], b->k[0]);
                    if (b->op == O_SLT)
                        return mkBin(O_SLE, b->k[1], b->k[0]);
                    if (b->op == O_SLE)
                        return mkBin(O_SLT, b->k[1], b->k[0]);
                }
                if (op == O_AND || op == O_OR) {
                    // split by runs of the mask
                    unsigned runs = 1;
                    for (unsigned i = 1; i < w; ++i)
                        if (((v >> i) & 1) != ((v >> (i - 1)) & 1))
                            runs++;
                    if (runs <= 5 || b->op == O_CONCAT) {
                        E r = nullptr;
                        unsigned i = 0;
                        while (i < w) {
                            unsigned j = i;
                            unsigned bit = (v >> i) & 1;
                            while (j < w && ((v >> j) & 1) == bit)
                                j++;
                            E seg;
                            if (op == O_AND)
                                seg = bit ? mkExtract(b, i, j - i) : mkConst(0, j - i);
                            else
                                seg = bit ? mkConst(~(u128)0, j - i) : mkExtract(b, i, j - i);
                            r = r ? mkConcat(seg, r) : seg;
                            i = j;
                        }
                        return r;
                    }
                }
                if (b->op == O_ITE && isC(b->k[1]) && isC(b->k[2]))
                    return mkIte(b->k[0], mkBin(op, a, b->k[1]), mkBin(op, a, b->k[2]));
                if (b->op == O_CONCAT)
                    return mkConcat(mkBin(op, mkExtract(a, b->k[1]->w, b->k[0]->w), b->k[0]),
                                    mkBin(op, mkExtract(a, 0, b->k[1]->w), b->k[1]));
            } else {
                if (op == O_OR || op == O_XOR)
                    if (E d = tryDisjoint(a, b))
                        return d;
                // align concats so that byte-wise structure is kept
                if (a->op == O_CONCAT && b->op == O_CONCAT && a->k[0]->w == b->k[0]->w)
                    return mkConcat(mkBin(op, a->k[0], b->k[0]), mkBin(op, a->k[1], b->k[1]));
                if (a->op == O_CONCAT && (isC(a->k[0]) || isC(a->k[1])))
                    return mkConcat(mkBin(op, a->k[0], mkExtract(b, a->k[1]->w, a->k[0]->w)),
                                    mkBin(op, a->k[1], mkExtract(b, 0, a->k[1]->w)));
                if (b->op == O_CONCAT && (isC(b->k[0]) || isC(b->k[1])))
                    return mkConcat(mkBin(op, mkExtract(a, b->k[1]->w, b->k[0]->w), b->k[0]),
                                    mkBin(op, mkExtract(a, 0, b->k[1]->w), b->k[1]));
                if (op == O_XOR) {
                    // pull constants to the top; cancel equal terms
                    if (a->op == O_XOR && isC(a->k[0]))
                        return mkBin(O_XOR, a->k[0], mkBin(O_XOR, a->k[1], b));
                    if (b->op == O_XOR && isC(b->k[0]))
                        return mkBin(O_XOR, b->k[0], mkBin(O_XOR, a, b->k[1]));
                    if (a->op == O_XOR) {
                        if (a->k[0] == b)
                            return a->k[1];
                        if (a->k[1] == b)
                            return a->k[0];
                    }
                    if (b->op == O_XOR) {
                        if (b->k[0] == a)
                            return b->k[1];
                        if (b->k[1] == a)
                            return b->k[0];
                    }
                }
                if (w == 1 && op != O_XOR) {
                    E na = mkNot(a);
                    if (na == b)
                        return op == O_AND ? mkFalse() : mkTrue();
                    if (op == O_AND && ((b->op == O_AND && (b->k[0] == a || b->k[1] == a))))
                        return b;
                    if (op == O_AND && ((a->op == O_AND && (a->k[0] == b || a->k[1] == b))))
                        return a;
                }
            }
            return raw(op, w, a, b);
        }
        case O_MUL: {
            if (isC(b) || (!isC(a) && a->id > b->id))
                std::swap(a, b);
            if (isC(a)) {
                if (a->val == 0)
                    return a;
                if (a->val == 1)
                    return b;
                if (a->val == maskW(w))
                    return mkNeg(b);
                if ((a->val & (a->val - 1)) == 0) {
                    unsigned s = 0;
                    while (!((a->val >> s) & 1))
                        s++;
                    return mkBin(O_SHL, b, mkConst(s, w));
                }
                if (b->op == O_MUL && isC(b->k[0]))
                    return mkBin(O_MUL, mkConst(a->val * b->k[0]->val, w), b->k[1]);
                if (b->op == O_ADD && isC(b->k[0]))
                    return mkAdd(mkConst(a->val * b->k[0]->val, w), mkBin(O_MUL, a, b->k[1]));
                if (b->op == O_ITE && isC(b->k[1]) && isC(b->k[2]))
                    return mkIte(b->k[0], mkBin(op, a, b->k[1]), mkBin(op, a, b->k[2]));
            }
            // a sign: -1, 0 or 1
            auto sign = [&](E e) {
                return e->op == O_ITE && isC(e->k[1]) && isC(e->k[2]) && (e->k[1]->val + 1 <= 2 || e->k[1]->val == maskW(w)) && (e->k[2]->val + 1 <= 2 || e->k[2]->val == maskW(w));
            };
            if (sign(b))
                std::swap(a, b);
            if (sign(a))
                return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
            // narrow by known zeros
            unsigned za = highZeros(a), zb = highZeros(b);
            if (za + zb > w) {
                unsigned nw = 2 * w - za - zb;
                if (nw < w && nw >= 1)
                    return mkZExt(mkBin(O_MUL, mkExtract(a, 0, nw), mkExtract(b, 0, nw)), w);
            }
            return raw(op, w, a, b);
        }
        case O_UDIV:
        case O_UREM: {
            if (isC(b) && b->val && (b->val & (b->val - 1)) == 0) {
                unsigned s = 0;
                while (!((b->val >> s) & 1))
                    s++;
                if (op == O_UDIV)
                    return mkBin(O_LSHR, a, mkConst(s, w));
                if (s == 0)
                    return mkConst(0, w);
                return mkZExt(mkExtract(a, 0, s), w);
            }
            if (isC(b) && b->val && w <= 64 && arith(a))
                if (E r = intDivRem(op, a, b->val))
                    return r;
            unsigned za = highZeros(a), zb = highZeros(b);
            unsigned z = za < zb ? za : zb;
            if (z && z < w && isC(b) && b->val)
                return mkZExt(mkBin(op, mkExtract(a, 0, w - z), mkExtract(b, 0, w - z)), w);
            if (isC(b) && za > zb)
                return op == O_UDIV ? mkConst(0, w) : a;
            return raw(op, w, a, b);
        }
        case O_SDIV:
        case O_SREM:
            if (highZeros(a) && highZeros(b))
                return mkBin(op == O_SDIV ? O_UDIV : O_UREM, a, b);
            if (isC(b) && w > 1 && ((b->val >> (w - 1)) & 1) && (mkNeg(b)->val != b->val)) { // by a negative constant
                E r = mkBin(op, a, mkNeg(b));
                return op == O_SDIV ? mkNeg(r) : r;
            }
            return raw(op, w, a, b);
        case O_SHL:
            if (isC(b)) {
                if (b->val >= w)
                    return mkConst(0, w);
                unsigned s = (unsigned)b->val;
                if (!s)
                    return a;
                return mkConcat(mkExtract(a, 0, w - s), mkConst(0, s));
            }
            return raw(op, w, a, b);
        case O_LSHR:
            if (isC(b)) {
                if (b->val >= w)
                    return mkConst(0, w);
                unsigned s = (unsigned)b->val;
                if (!s)
                    return a;
                return mkZExt(mkExtract(a, s, w - s), w);
            }
            return raw(op, w, a, b);
        case O_ASHR:
            if (isC(b)) {
                unsigned s = b->val >= w ? w - 1 : (unsigned)b->val;
                if (!s)
                    return a;
                return mkSExt(mkExtract(a, s, w - s), w);
            }
            return raw(op, w, a, b);
        case O_ULT:
        case O_ULE:
        case O_SLT:
        case O_SLE:
            return mkCmp(op, a, b);
        default:
            fprintf(stderr, "mkBin op %d\n", op);
            abort();
    }
}

E mkFp(Op op, unsigned w, E a, E b, uint32_t aux)
{
    if (isC(a) && (!b || isC(b))) {
        u128 k[2] = {a->val, b ? b->val : 0};
        unsigned kw[2] = {a->w, b ? (unsigned)b->w : 0u};
        return mkConst(evalOp(op, w, aux, k, kw, b ? 2 : 1), w);
    }
    // fpext/fptrunc round trip
    if (op == O_FPTRUNC && a->op == O_FPEXT)
        return a->k[0];
    return raw(op, w, a, b, nullptr, aux);
}

u128 evalE(E e, const Model& m)
{
    if (e->op == O_CONST)
        return e->val;
    if (e->op == O_VAR)
        return e->aux < m.v.size() ? m.v[e->aux] & maskW(e->w) : 0;
    if (e->evStamp == m.stamp)
        return e->evVal;
    // explicit stack to survive deep expressions
    std::vector<E> st;
    st.push_back(e);
    while (!st.empty()) {
        E x = st.back();
        if (x->op == O_CONST || x->op == O_VAR || x->evStamp == m.stamp) {
            st.pop_back();
            continue;
        }
        bool ready = true;
        for (int i = 0; i < 3; ++i) {
            E c = x->k[i];
            if (c && c->op != O_CONST && c->op != O_VAR && c->evStamp != m.stamp) {
                st.push_back(c);
                ready = false;
            }
        }
        if (!ready)
            continue;
        u128 kv[3];
        unsigned kw[3];
        for (int i = 0; i < 3; ++i) {
            E c = x->k[i];
            if (!c) {
                kv[i] = 0;
                kw[i] = 0;
                continue;
            }
            kv[i] = c->op == O_CONST ? c->val
                    : c->op == O_VAR ? (c->aux < m.v.size() ? m.v[c->aux] & maskW(c->w) : 0)
                                     : c->evVal;
            kw[i] = c->w;
        }
        x->evVal = evalOp(x->op, x->w, x->aux, kv, kw, 3);
        x->evStamp = m.stamp;
        st.pop_back();
    }
    return e->evVal;
}

const std::vector<uint32_t>& varsOf(E e)
{
    static std::unordered_map<E, std::vector<uint32_t>> cache;
    static uint64_t stamp = 0;
    auto it = cache.find(e);
    if (it != cache.end())
        return it->second;
    std::vector<uint32_t> r;
    ++stamp;
    std::vector<E> st{e};
    while (!st.empty()) {
        E x = st.back();
        st.pop_back();
        if (x->visit == stamp || x->op == O_CONST)
            continue;
        x->visit = stamp;
        if (x->op == O_VAR)
            r.push_back(x->aux);
        for (int i = 0; i < 3; ++i)
            if (x->k[i])
                st.push_back(x->k[i]);
    }
    std::sort(r.begin(), r.end());
    return cache.emplace(e, std::move(r)).first->second;
}

std::string toStr(E e, int depth)
{
    static const char* names[] = {"const", "var", "add", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor",
                                  "shl", "lshr", "ashr", "concat", "extract", "sext", "eq", "ult", "ule", "slt",
                                  "sle", "ite", "fadd", "fsub", "fmul", "fdiv", "foeq", "folt", "fole", "funo",
                                  "fp2si", "fp2ui", "si2fp", "ui2fp", "fpext", "fptrunc", "fround", "fsqrt"};
    char buf[64];
    if (e->op == O_CONST) {
        if (e->w > 64)
            snprintf(buf, sizeof buf, "0x%llx%016llx:%u", (unsigned long long)(e->val >> 64),
                     (unsigned long long)e->val, e->w);
        else
            snprintf(buf, sizeof buf, "0x%llx:%u", (unsigned long long)e->val, e->w);
        return buf;
    }
    if (e->op == O_VAR)
        return gVars[e->aux].name + ":" + std::to_string(e->w);
    if (depth == 0)
        return "...";
    std::string s = std::string("(") + names[e->op];
    if (e->op == O_EXTRACT)
        s += "[" + std::to_string(e->aux + e->w - 1) + ":" + std::to_string(e->aux) + "]";
    for (int i = 0; i < 3; ++i)
        if (e->k[i])
            s += " " + toStr(e->k[i], depth - 1);
    return s + ")";
}

static E tableRec(const std::vector<E>& el, size_t base, unsigned bit, E idx)
{
    // entries base .. base + 2^bit - 1
    if (bit == 0)
        return el[base < el.size() ? base : el.size() - 1];
    size_t half = (size_t)1 << (bit - 1);
    if (base + half >= el.size())
        return tableRec(el, base, bit - 1, idx); // upper half out of the (assumed) range
    E lo = tableRec(el, base, bit - 1, idx);
    E hi = tableRec(el, base + half, bit - 1, idx);
    return mkIte(mkExtract(idx, bit - 1, 1), hi, lo);
}

E mkTable(const std::vector<E>& el, E idx)
{
    size_t n = el.size();
    if (n == 1 || isC(idx))
        return el[isC(idx) && idx->val < n ? (size_t)idx->val : 0];
    unsigned bits = 0;
    while (((size_t)1 << bits) < n)
        bits++;
    if (bits > idx->w)
        bits = idx->w;
    // affine over GF(2)?
    bool allC = true;
    for (E e: el)
        if (!isC(e)) {
            allC = false;
            break;
        }
    unsigned w = el[0]->w;
    if (allC && n == ((size_t)1 << bits) && n >= 8) {
        bool affine = true;
        u128 c0 = el[0]->val;
        for (size_t i = 0; i < n && affine; ++i) {
            u128 v = c0;
            for (unsigned b = 0; b < bits; ++b)
                if ((i >> b) & 1)
                    v ^= el[(size_t)1 << b]->val ^ c0;
            if (v != el[i]->val)
                affine = false;
        }
        if (affine) {
            E r = mkConst(c0, w);
            // combine per output bit so that xor chains stay at bit level
            E out = nullptr;
            for (unsigned ob = 0; ob < w; ++ob) {
                E x = mkConst((c0 >> ob) & 1, 1);
                for (unsigned b = 0; b < bits; ++b)
                    if (((el[(size_t)1 << b]->val ^ c0) >> ob) & 1)
                        x = mkBin(O_XOR, x, mkExtract(idx, b, 1));
                out = out ? mkConcat(x, out) : x;
            }
            (void)r;
            return out;
        }
    }
    return tableRec(el, 0, bits, idx);
}

// ---- systems of affine equations over GF(2)
namespace
{
    bool varBit(uint32_t id, uint64_t& key)
    {
        E x = linAtom[id];
        if (x->op == O_VAR && x->w == 1) {
            key = (uint64_t)x->aux << 8;
            return true;
        }
        if (x->op == O_EXTRACT && x->w == 1 && x->k[0]->op == O_VAR) {
            key = (uint64_t)x->k[0]->aux << 8 | x->aux;
            return true;
        }
        return false;
    }
    // bit i of a xor bit i of b (b may be null) as a set of variable bits; false when something is not affine
    bool bitEqn(E a, E b, unsigned i, GfRow& row)
    {
        Lin d = linOf(mkExtract(a, i, 1));
        if (b) {
            Lin x = d;
            symDiff(d, x, linOf(mkExtract(b, i, 1)));
        }
        row.c = d.c;
        row.v.clear();
        for (uint32_t id: d.a) {
            uint64_t k;
            if (!varBit(id, k))
                return false;
            row.v.push_back(k);
        }
        std::sort(row.v.begin(), row.v.end());
        return true;
    }
}
bool gfEquations(E e, std::vector<GfRow>& rows)
{
    if (e->op == O_AND && e->w == 1)
        return gfEquations(e->k[0], rows) && gfEquations(e->k[1], rows);
    if (e->op == O_EQ) {
        for (unsigned i = 0; i < e->k[0]->w; ++i) {
            GfRow r;
            if (!bitEqn(e->k[0], e->k[1], i, r))
                return false;
            rows.push_back(std::move(r));
        }
        return true;
    }
    GfRow r;
    if (!bitEqn(e, nullptr, 0, r))
        return false;
    r.c = !r.c; // must be one
    rows.push_back(std::move(r));
    return true;
}

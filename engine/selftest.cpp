// Random differential test of the expression simplifier: every constructor result must evaluate like the plain operator.
#include "expr.h"
#include "solver.h"
#include <cstdio>
#include <cstdlib>
#include <random>

static std::mt19937_64 rng(12345);
static std::vector<std::pair<E, std::vector<u128>>> pool; // expression and its value under each sample assignment
static const int NS = 6;
static std::vector<Model> models(NS);

static u128 R(unsigned w)
{
    u128 v = ((u128)rng() << 64) | rng();
    switch (rng() % 4) {
        case 0:
            v &= 0xff;
            break;
        case 1:
            v = (u128)1 << (rng() % w);
            break;
        case 2:
            v = ~(u128)0 << (rng() % w);
            break;
    }
    return v & maskW(w);
}
static int pick(unsigned w)
{
    for (int k = 0; k < 200; ++k) {
        int i = pool.size() > 60 && rng() % 2 ? pool.size() - 1 - rng() % 50 : rng() % pool.size();
        if (!w || pool[i].first->w == w)
            return i;
    }
    E c = mkConst(R(w), w);
    pool.push_back({c, std::vector<u128>(NS, c->val)});
    return pool.size() - 1;
}
static void fail(const char* what, E r, u128 want, u128 got)
{
    printf("MISMATCH %s: want %llx got %llx: %s\n", what, (unsigned long long)want, (unsigned long long)got, toStr(r, 6).c_str());
    exit(1);
}
int main(int argc, char** argv)
{
    long iters = argc > 1 ? atol(argv[1]) : 300000;
    if (argc > 2)
        rng.seed(atol(argv[2]));
    static const unsigned ws[] = {1, 2, 4, 8, 8, 8, 16, 32, 64};
    long done = 0, liaTried = 0, liaDone = 0, fmTried = 0, fmDone = 0;
    bool lia = argc > 3;
    while (done < iters) {
        pool.clear();
        static int vn = 0;
        for (auto& m: models)
            m = Model();
        for (int i = 0; i < 10; ++i) {
            unsigned w = ws[rng() % 9];
            E v = mkVar("s" + std::to_string(vn++), w);
            std::vector<u128> vals;
            for (auto& m: models) {
                if (m.v.size() <= v->aux)
                    m.v.resize(v->aux + 1, 0);
                m.v[v->aux] = R(w);
                vals.push_back(m.v[v->aux]);
            }
            pool.push_back({v, vals});
        }
        for (auto& m: models)
            m.stamp = ++Model::nextStamp;
        for (int step = 0; step < 400; ++step, ++done) {
            int a = pick(0);
            unsigned w = pool[a].first->w;
            int kind = rng() % 26;
            E r = nullptr;
            std::vector<u128> want(NS);
            auto val = [&](int i, int s) { return pool[i].second[s]; };
            auto bin = [&](Op op, unsigned rw) {
                int b = rng() % 3 == 0 ? -1 : pick(w);
                if (b < 0) {
                    E c = mkConst(R(w), w);
                    pool.push_back({c, std::vector<u128>(NS, c->val)});
                    b = pool.size() - 1;
                }
                if (rng() % 4 == 0)
                    std::swap(a, b);
                for (int s = 0; s < NS; ++s) {
                    u128 kv[3] = {val(a, s), val(b, s), 0};
                    unsigned kw[3] = {w, w, 0};
                    want[s] = evalOp(op, rw, 0, kv, kw, 2) & maskW(rw);
                }
                E x = pool[a].first, y = pool[b].first;
                r = op == O_ADD ? mkAdd(x, y) : op == O_EQ ? mkEq(x, y) : mkBin(op, x, y);
            };
            switch (kind) {
                case 0: bin(O_ADD, w); break;
                case 1: bin(O_MUL, w); break;
                case 2: bin(O_UDIV, w); break;
                case 3: bin(O_UREM, w); break;
                case 4: bin(O_SDIV, w); break;
                case 5: bin(O_SREM, w); break;
                case 6: bin(O_AND, w); break;
                case 7: bin(O_OR, w); break;
                case 8: case 9: bin(O_XOR, w); break;
                case 10: bin(O_SHL, w); break;
                case 11: bin(O_LSHR, w); break;
                case 12: bin(O_ASHR, w); break;
                case 13: case 14: bin(O_EQ, 1); break;
                case 15: bin(O_ULT, 1); break;
                case 16: bin(O_ULE, 1); break;
                case 17: bin(O_SLT, 1); break;
                case 18: bin(O_SLE, 1); break;
                case 19: {
                    int b = pick(0);
                    unsigned w2 = pool[b].first->w;
                    if (w + w2 > 64)
                        continue;
                    for (int s = 0; s < NS; ++s)
                        want[s] = (val(a, s) << w2) | val(b, s);
                    r = mkConcat(pool[a].first, pool[b].first);
                    break;
                }
                case 20: {
                    unsigned o = rng() % w, n = 1 + rng() % (w - o);
                    for (int s = 0; s < NS; ++s)
                        want[s] = (val(a, s) >> o) & maskW(n);
                    r = mkExtract(pool[a].first, o, n);
                    break;
                }
                case 21: {
                    unsigned n = w + rng() % (65 - w);
                    for (int s = 0; s < NS; ++s)
                        want[s] = val(a, s);
                    r = mkZExt(pool[a].first, n);
                    break;
                }
                case 22: {
                    unsigned n = w + rng() % (65 - w);
                    for (int s = 0; s < NS; ++s)
                        want[s] = (u128)sextW(val(a, s), w) & maskW(n);
                    r = mkSExt(pool[a].first, n);
                    break;
                }
                case 23: {
                    int b = pick(w), c = pick(1);
                    for (int s = 0; s < NS; ++s)
                        want[s] = val(c, s) ? val(a, s) : val(b, s);
                    r = mkIte(pool[c].first, pool[a].first, pool[b].first);
                    break;
                }
                case 24: {
                    int b = pick(w);
                    for (int s = 0; s < NS; ++s)
                        want[s] = (val(a, s) - val(b, s)) & maskW(w);
                    r = mkSub(pool[a].first, pool[b].first);
                    break;
                }
                case 25: {
                    if (w > 8)
                        continue;
                    std::vector<E> el;
                    std::vector<std::vector<u128>> tv(NS);
                    int n = 1 << (w < 4 ? w : 4), tw = 8;
                    for (int i = 0; i < n; ++i) {
                        int e = pick(tw);
                        el.push_back(pool[e].first);
                        for (int s = 0; s < NS; ++s)
                            tv[s].push_back(val(e, s));
                    }
                    bool ok = true;
                    for (int s = 0; s < NS; ++s) {
                        if (val(a, s) >= (u128)n)
                            ok = false;
                        else
                            want[s] = tv[s][(size_t)val(a, s)];
                    }
                    if (!ok)
                        continue;
                    r = mkTable(el, pool[a].first);
                    break;
                }
            }
            if (!r)
                continue;
            for (int s = 0; s < NS; ++s) {
                u128 g = evalE(r, models[s]);
                if (g != want[s])
                    fail(("op " + std::to_string(kind)).c_str(), r, want[s], g);
            }
            if (lia && rng() % 4 == 0 && varsOf(r).size() < 8) {
                // fixing the variables must leave exactly the evaluated value over the integers
                int sm = rng() % NS;
                std::vector<E> cs;
                for (uint32_t x: varsOf(r)) {
                    E v = nullptr;
                    for (auto& pe: pool)
                        if (pe.first->op == O_VAR && pe.first->aux == x)
                            v = pe.first;
                    cs.push_back(mkEq(v, mkConst(models[sm].v[x], v->w)));
                }
                for (int same = 0; same < 2; ++same) {
                    E q = mkEq(r, mkConst(want[sm], w = r->w));
                    cs.push_back(same ? q : mkBin(O_XOR, q, mkTrue()));
                    Model m;
                    Res fm = solveFm(cs, models[(sm + 1) % NS], m);
                    ++fmTried;
                    if (fm != Res::Unknown) {
                        ++fmDone;
                        if (fm != (same ? Res::Sat : Res::Unsat))
                            fail(same ? "elimination lost a model" : "elimination has a wrong model", r, want[sm], 0);
                    }
                    Res res = solveLia(cs, 5000, m);
                    cs.pop_back();
                    ++liaTried;
                    if (res == Res::Unknown)
                        continue;
                    ++liaDone;
                    if (res != (same ? Res::Sat : Res::Unsat))
                        fail(same ? "integer form lost a model" : "integer form has a wrong model", r, want[sm], 0);
                }
            }
            if (pool.size() < 400)
                pool.push_back({r, want});
        }
    }
    // random systems of comparisons: elimination against the integer form and the bit-vector form
    long sysDone = 0, sysSat = 0;
    for (int it = 0; lia && it < 4000; ++it) {
        static int vn = 0;
        std::vector<E> vs;
        int nv = 2 + rng() % 3;
        for (int i = 0; i < nv; ++i)
            vs.push_back(mkVar("t" + std::to_string(vn++), rng() % 4 ? 6 : 1 + rng() % 12));
        auto term = [&]() {
            E r = mkConst(rng() % 4 ? (u128)(int64_t)(rng() % 41) - 20 : (u128)rng() % 2000, 64);
            for (int k = 0, n = 1 + rng() % 2; k < n; ++k) {
                E v = mkZExt(vs[rng() % nv], 64);
                static const int64_t ks[] = {1, 1, 1, -1, -1, 2, -3, 10, 1000};
                r = mkAdd(r, mkBin(O_MUL, v, mkConst((u128)ks[rng() % 9] & maskW(64), 64)));
            }
            if (rng() % 8 == 0)
                r = mkBin(rng() % 2 ? O_SDIV : O_SREM, r, mkConst(rng() % 2 ? 10 : 7, 64));
            if (rng() % 8 == 0)
                r = mkIte(mkBin(O_SLT, r, mkConst(5, 64)), r, mkZExt(vs[0], 64));
            return r;
        };
        std::vector<E> cs;
        for (int k = 0, n = 2 + rng() % 5; k < n; ++k) {
            E a = term(), b = rng() % 2 ? term() : mkConst((u128)(rng() % 60), 64);
            static const Op ops[] = {O_SLT, O_SLE, O_SLT, O_SLE, O_EQ};
            Op op = ops[rng() % 5];
            E c = op == O_EQ ? mkEq(a, b) : mkBin(op, a, b);
            if (rng() % 3 == 0)
                c = mkNot(c);
            if (rng() % 6 == 0)
                c = mkBin(rng() % 2 ? O_OR : O_AND, c, mkBin(O_SLE, term(), mkConst(9, 64)));
            cs.push_back(c);
        }
        Model base, m;
        bool skip = false;
        for (E e: cs)
            skip = skip || isC(e);
        if (skip)
            continue;
        Res fm = solveFm(cs, base, m);
        if (fm == Res::Unknown)
            continue;
        ++sysDone;
        sysSat += fm == Res::Sat;
        Model lm;
        Res lr = solveLia(cs, 5000, lm);
        if (lr != Res::Unknown && lr != fm) {
            printf("MISMATCH elimination %d, integers %d\n", (int)fm, (int)lr);
            for (E e: cs)
                printf("  %s\n", toStr(e, 8).c_str());
            return 1;
        }
    }
    printf("%ld systems, %ld satisfiable\n", sysDone, sysSat);
    printf("ok %ld expressions, %ld of %ld integer queries, %ld of %ld eliminations\n", done, liaDone, liaTried, fmDone, fmTried);
    return 0;
}

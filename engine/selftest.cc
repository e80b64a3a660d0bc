// Random differential test of the expression simplifier and its ranges against direct evaluation.
#include <cassert>
#include <algorithm>
#include <functional>
#include <random>
#include "expr.h"
using namespace ks;
struct N { E e; std::function<u64(const Ctx::Model&)> f; };
int main(int argc, char** argv) {
    std::mt19937_64 r(argc > 1 ? atoi(argv[1]) : 1);
    int rounds = argc > 2 ? atoi(argv[2]) : 3000;
    u64 checks = 0;
    for (int it = 0; it < rounds; it++) {
        Ctx* Cp = new Ctx();
        Ctx& C = *Cp;
        std::vector<N> ns;
        static const unsigned W[] = {1, 8, 10, 16, 32, 64};
        for (unsigned i = 0; i < 5; i++) {
            unsigned w = W[r() % 6];
            E v = C.var("v" + std::to_string(i), w);
            u32 id = v->v;
            ns.push_back({v, [id, w](const Ctx::Model& m) { return m.get(id) & maskw(w); }});
        }
        auto randc = [&](unsigned w) { u64 x = r(); switch (r() % 5) { case 0: x %= 10; break; case 1: x = 1ULL << (x % w); break; case 2: x = ~0ULL << (x % w); break; case 3: x = 0 - (x % 300); break; } return x & maskw(w); };
        for (int k = 0; k < 40; k++) {
            N a = ns[r() % ns.size()];
            unsigned w = a.e->w;
            auto fit = [&](N x, unsigned w) -> N {
                if (x.e->w == w) return x;
                unsigned xw = x.e->w;
                if (xw > w) { unsigned lo = r() % 2 ? 0 : r() % (xw - w + 1); auto f = x.f; return N{C.extract(x.e, lo, w), [f, lo, w](const Ctx::Model& m) { return (f(m) >> lo) & maskw(w); }}; }
                auto f = x.f;
                if (r() % 2) return N{C.zext(x.e, w), f};
                return N{C.sext(x.e, w), [f, xw, w](const Ctx::Model& m) { return (u64)sextw(f(m), xw) & maskw(w); }};
            };
            N b;
            if (r() % 3 == 0) { u64 c = randc(w); b = N{C.cst(c, w), [c](const Ctx::Model&) { return c; }}; }
            else b = fit(ns[r() % ns.size()], w);
            auto fa = a.f, fb = b.f;
            N n;
            switch (r() % 8) {
                case 0: case 1: case 2: {
                    static const Op ops[] = {ADD, ADD, SUB, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, AND, OR, XOR, SHL, LSHR, ASHR};
                    Op o = ops[r() % 16];
                    if ((o == UDIV || o == UREM || o == SDIV || o == SREM) && !(b.e->isConst() && b.e->v)) o = ADD;
                    n = {C.bin(o, a.e, b.e), [=](const Ctx::Model& m) { return Ctx::fold(o, fa(m), fb(m), w); }};
                    break; }
                case 3: case 4: {
                    static const Op ops[] = {EQ, ULT, ULE, SLT, SLE};
                    Op o = ops[r() % 5];
                    n = {C.cmpE(o, a.e, b.e), [=](const Ctx::Model& m) { return (u64)Ctx::cmp(o, fa(m), fb(m), w); }};
                    if (r() % 4 == 0) { auto f = n.f; n = {C.notb(n.e), [f](const Ctx::Model& m) { return f(m) ^ 1; }}; }
                    break; }
                case 5: { N c = fit(ns[r() % ns.size()], 1); auto fc = c.f; n = {C.ite(c.e, a.e, b.e), [=](const Ctx::Model& m) { return fc(m) ? fa(m) : fb(m); }}; break; }
                case 6: {
                    if (a.e->w + b.e->w > 64) { n = fit(a, W[r() % 6]); break; }
                    unsigned lw = b.e->w;
                    n = {C.concat(a.e, b.e), [=](const Ctx::Model& m) { return (fa(m) << lw) | fb(m); }};
                    break; }
                default: n = fit(a, W[r() % 6]);
            }
            ns.push_back(n);
        }
        for (int t = 0; t < 12; t++) {
            Ctx::Model m;
            for (int i = 0; i < 5; i++) m.set(i, r() % 3 ? r() : r() % 20);
            C.newEval();
            for (auto& n : ns) {
                u64 x = C.eval(n.e, m), y = n.f(m);
                checks++;
                bool bad = x != y || x < n.e->umin || x > n.e->umax || sextw(x, n.e->w) < n.e->smin || sextw(x, n.e->w) > n.e->smax;
                if (bad) {
                    printf("mismatch %s: %llx vs %llx range [%llx,%llx] s[%lld,%lld] w %d\n", show(C, n.e, 8).c_str(), (unsigned long long)x, (unsigned long long)y, (unsigned long long)n.e->umin, (unsigned long long)n.e->umax, (long long)n.e->smin, (long long)n.e->smax, n.e->w);
                    for (int i = 0; i < 5; i++) printf(" v%d=%llx(%d)", i, (unsigned long long)m.get(i) & maskw(C.vars[i].w), C.vars[i].w);
                    puts("");
                    return 1;
                }
            }
            // substitution
            std::unordered_map<u32, u64> sm{{0, m.get(0) & maskw(C.vars[0].w)}, {2, m.get(2) & maskw(C.vars[2].w)}};
            std::unordered_map<E, E> memo;
            std::unordered_map<E, u64> xs; for (auto& n : ns) { E q = C.subst(n.e, sm, xs, 5, memo); C.newEval(); if (C.eval(q, m) != n.f(m)) { printf("subst mismatch\n"); return 1; } }
        }
    }
    printf("ok %llu\n", (unsigned long long)checks);
}

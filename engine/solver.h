// Path-condition solver: constraint slicing, caching, Z3 back end (bit-vectors).
#pragma once
#include <algorithm>
#include <chrono>
#include <deque>
#include <z3.h>
#include "expr.h"

namespace ks {
enum Res { UNSAT, SAT, UNKNOWN };

struct SolverStats {
    u64 queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0, rangeHits = 0;
    double secs = 0, maxSecs = 0;
};

struct Solver {
    Ctx& C;
    Z3_context z;
    Z3_solver s;
    Z3_ast one, zero;
    SolverStats st;
    unsigned timeoutMs;
    std::string dumpDir;
    u64 dumpEvery = 0, dumped = 0;
    struct CacheEnt { Res r; std::vector<std::pair<u32, u64>> m; };
    std::unordered_map<u64, CacheEnt> cache;

    static void err(Z3_context c, Z3_error_code e) {
        fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e));
        exit(3);
    }
    Solver(Ctx& c, unsigned tmo) : C(c), timeoutMs(tmo) {
        Z3_config cfg = Z3_mk_config();
        Z3_set_param_value(cfg, "model", "true");
        z = Z3_mk_context_rc(cfg);
        Z3_del_config(cfg);
        Z3_set_error_handler(z, err);
        static const char* chain[] = {"simplify", "propagate-values", "elim-uncnstr", "simplify", "bit-blast", "sat"};
        Z3_tactic t = nullptr;
        for (int i = 5; i >= 0; i--) {
            Z3_tactic u = Z3_mk_tactic(z, chain[i]);
            Z3_tactic_inc_ref(z, u);
            t = t ? Z3_tactic_and_then(z, u, t) : u;
            Z3_tactic_inc_ref(z, t);
        }
        s = Z3_mk_solver_from_tactic(z, t);
        Z3_solver_inc_ref(z, s);
        setTimeout(s, timeoutMs);
        one = keep(Z3_mk_unsigned_int64(z, 1, Z3_mk_bv_sort(z, 1)));
        zero = keep(Z3_mk_unsigned_int64(z, 0, Z3_mk_bv_sort(z, 1)));
    }
    void setTimeout(Z3_solver so, unsigned ms) {
        Z3_params p = Z3_mk_params(z);
        Z3_params_inc_ref(z, p);
        Z3_params_set_uint(z, p, Z3_mk_string_symbol(z, "timeout"), ms);
        Z3_params_set_uint(z, p, Z3_mk_string_symbol(z, "random_seed"), 7);
        Z3_solver_set_params(z, so, p);
        Z3_params_dec_ref(z, p);
    }
    Z3_ast keep(Z3_ast a) { Z3_inc_ref(z, a); return a; }
    Z3_ast bv(E e) {
        if (e->zbv) return (Z3_ast)e->zbv;
        Z3_ast r;
        switch (e->op) {
            case CONST: {
                if (e->w <= 64) r = Z3_mk_unsigned_int64(z, e->v, Z3_mk_bv_sort(z, e->w));
                else { llvm::SmallString<64> str; e->big->toString(str, 10, false); r = Z3_mk_numeral(z, str.c_str(), Z3_mk_bv_sort(z, e->w)); }
                break; }
            case VAR: r = Z3_mk_const(z, Z3_mk_int_symbol(z, (int)e->v), Z3_mk_bv_sort(z, e->w)); break;
            case ADD: r = Z3_mk_bvadd(z, bv(e->a[0]), bv(e->a[1])); break;
            case SUB: r = Z3_mk_bvsub(z, bv(e->a[0]), bv(e->a[1])); break;
            case MUL: r = Z3_mk_bvmul(z, bv(e->a[0]), bv(e->a[1])); break;
            case UDIV: r = Z3_mk_bvudiv(z, bv(e->a[0]), bv(e->a[1])); break;
            case SDIV: r = Z3_mk_bvsdiv(z, bv(e->a[0]), bv(e->a[1])); break;
            case UREM: r = Z3_mk_bvurem(z, bv(e->a[0]), bv(e->a[1])); break;
            case SREM: r = Z3_mk_bvsrem(z, bv(e->a[0]), bv(e->a[1])); break;
            case SHL: r = Z3_mk_bvshl(z, bv(e->a[0]), bv(e->a[1])); break;
            case LSHR: r = Z3_mk_bvlshr(z, bv(e->a[0]), bv(e->a[1])); break;
            case ASHR: r = Z3_mk_bvashr(z, bv(e->a[0]), bv(e->a[1])); break;
            case ZEXT: r = Z3_mk_zero_ext(z, e->w - e->a[0]->w, bv(e->a[0])); break;
            case SEXT: r = Z3_mk_sign_ext(z, e->w - e->a[0]->w, bv(e->a[0])); break;
            case EXTRACT: r = Z3_mk_extract(z, e->lo + e->w - 1, e->lo, bv(e->a[0])); break;
            case CONCAT: r = Z3_mk_concat(z, bv(e->a[0]), bv(e->a[1])); break;
            case ITE: if (e->w > 1) { r = Z3_mk_ite(z, bl(e->a[0]), bv(e->a[1]), bv(e->a[2])); break; } [[fallthrough]];
            case AND: case OR: case XOR:
                if (e->w > 1) {
                    Z3_ast a = bv(e->a[0]), b = bv(e->a[1]);
                    r = e->op == AND ? Z3_mk_bvand(z, a, b) : e->op == OR ? Z3_mk_bvor(z, a, b) : Z3_mk_bvxor(z, a, b);
                    break;
                }
                [[fallthrough]];
            default:
                r = Z3_mk_ite(z, bl(e), one, zero);
        }
        e->zbv = keep(r);
        return r;
    }
    Z3_ast bl(E e) {
        if (e->zbool) return (Z3_ast)e->zbool;
        Z3_ast r;
        Z3_ast t[2];
        switch (e->op) {
            case CONST: r = e->v ? Z3_mk_true(z) : Z3_mk_false(z); break;
            case EQ:
                if (e->a[0]->w == 1) r = Z3_mk_iff(z, bl(e->a[0]), bl(e->a[1]));
                else r = Z3_mk_eq(z, bv(e->a[0]), bv(e->a[1]));
                break;
            case ULT: r = Z3_mk_bvult(z, bv(e->a[0]), bv(e->a[1])); break;
            case ULE: r = Z3_mk_bvule(z, bv(e->a[0]), bv(e->a[1])); break;
            case SLT: r = Z3_mk_bvslt(z, bv(e->a[0]), bv(e->a[1])); break;
            case SLE: r = Z3_mk_bvsle(z, bv(e->a[0]), bv(e->a[1])); break;
            case AND: t[0] = bl(e->a[0]); t[1] = bl(e->a[1]); r = Z3_mk_and(z, 2, t); break;
            case OR: t[0] = bl(e->a[0]); t[1] = bl(e->a[1]); r = Z3_mk_or(z, 2, t); break;
            case XOR: { E x; if (Ctx::isNot(e, x)) r = Z3_mk_not(z, bl(x)); else r = Z3_mk_xor(z, bl(e->a[0]), bl(e->a[1])); break; }
            case ITE: r = Z3_mk_ite(z, bl(e->a[0]), bl(e->a[1]), bl(e->a[2])); break;
            default: r = Z3_mk_eq(z, bv(e), one);
        }
        e->zbool = keep(r);
        return r;
    }

    // Constraints relevant to the variables of c.
    void slice(const std::vector<E>& pc, E c, std::vector<E>& out) {
        std::vector<u32> vs = C.varsOf(c);
        std::vector<char> in(pc.size(), 0);
        u64 bloom = c->bloom;
        bool ch = true;
        while (ch) {
            ch = false;
            for (size_t i = 0; i < pc.size(); i++) {
                if (in[i] || !(pc[i]->bloom & bloom)) continue;
                auto& x = C.varsOf(pc[i]);
                bool hit = false;
                auto p = x.begin(); auto q = vs.begin();
                while (p != x.end() && q != vs.end()) { if (*p == *q) { hit = true; break; } if (*p < *q) ++p; else ++q; }
                if (!hit) continue;
                in[i] = 1;
                out.push_back(pc[i]);
                bool more = false;
                for (u32 v : x) if (!std::binary_search(vs.begin(), vs.end(), v)) { more = true; break; }
                if (more) {
                    std::vector<u32> t;
                    std::set_union(vs.begin(), vs.end(), x.begin(), x.end(), std::back_inserter(t));
                    vs.swap(t);
                    bloom |= pc[i]->bloom;
                    ch = true;
                }
            }
        }
    }

    void readModel(Z3_solver so, const std::vector<E>& cs, std::vector<std::pair<u32, u64>>& model) {
        Z3_model m = Z3_solver_get_model(z, so);
        Z3_model_inc_ref(z, m);
        std::unordered_set<u32> seen;
        for (E e : cs) for (u32 v : C.varsOf(e)) {
            if (!seen.insert(v).second) continue;
            Z3_ast val;
            u64 u = 0;
            if (Z3_model_eval(z, m, bv(C.varExpr[v]), true, &val)) Z3_get_numeral_uint64(z, val, &u);
            model.push_back({v, u});
        }
        Z3_model_dec_ref(z, m);
    }
    Res z3check(Z3_solver so, const std::vector<E>& cs, std::vector<std::pair<u32, u64>>& model) {
        Z3_solver_push(z, so);
        for (E e : cs) Z3_solver_assert(z, so, bl(e));
        Z3_lbool r = Z3_solver_check(z, so);
        Res res = r == Z3_L_TRUE ? SAT : r == Z3_L_FALSE ? UNSAT : UNKNOWN;
        if (res == SAT) {
            readModel(so, cs, model);
        }
        Z3_solver_pop(z, so, 1);
        return res;
    }

    // Is pc && c satisfiable?  pc is known satisfiable (base model).  On SAT, model is base updated.
    Res check(const std::vector<E>& pc, E c, const Ctx::Model& base, Ctx::Model* model) {
        if (c->isConst()) { if (c->v && model) *model = base; return c->v ? SAT : UNSAT; }
        C.newEval();
        if (C.eval(c, base)) { st.modelHits++; if (model) *model = base; return SAT; }
        std::vector<E> cs;
        slice(pc, c, cs);
        cs.push_back(c);
        std::sort(cs.begin(), cs.end(), [](E a, E b) { return a->id < b->id; });
        cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
        u64 key = 0x1234567;
        for (E e : cs) key = Ctx::mix(key, e->hash);
        auto it = cache.find(key);
        if (it == cache.end()) {
            auto t0 = std::chrono::steady_clock::now();
            CacheEnt ent;
            ent.r = z3check(s, cs, ent.m);
            if (ent.r == UNKNOWN) {
                Z3_solver so = Z3_mk_simple_solver(z);
                Z3_solver_inc_ref(z, so);
                setTimeout(so, timeoutMs);
                ent.m.clear();
                ent.r = z3check(so, cs, ent.m);
                Z3_solver_dec_ref(z, so);
            }
            double d = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
            st.queries++;
            st.secs += d;
            if (d > st.maxSecs) st.maxSecs = d;
            if (ent.r == SAT) st.sat++; else if (ent.r == UNSAT) st.unsat++; else st.unknown++;
            if (dumpEvery && !dumpDir.empty() && st.queries % dumpEvery == 0 && ent.r != UNKNOWN && dumped < 60) dump(cs, ent.r);
            it = cache.emplace(key, std::move(ent)).first;
        } else st.cacheHits++;
        if (it->second.r == SAT && model) {
            Ctx::Model m = base;
            for (auto& kv : it->second.m) m.set(kv.first, kv.second);
            *model = std::move(m);
        }
        return it->second.r;
    }
    void dump(const std::vector<E>& cs, Res r) {
        std::string f = dumpDir + "/q" + std::to_string(dumped++) + (r == SAT ? ".sat" : ".unsat") + ".smt2";
        FILE* o = fopen(f.c_str(), "w");
        if (!o) return;
        fprintf(o, "(set-logic QF_BV)\n");
        std::unordered_set<u32> seen;
        for (E e : cs) for (u32 v : C.varsOf(e)) if (seen.insert(v).second)
            fprintf(o, "(declare-const %s (_ BitVec %d))\n", Z3_ast_to_string(z, bv(C.varExpr[v])), C.vars[v].w);
        for (E e : cs) fprintf(o, "(assert %s)\n", Z3_ast_to_string(z, bl(e)));
        fprintf(o, "(check-sat)\n");
        fclose(o);
    }
};
}  // namespace ks

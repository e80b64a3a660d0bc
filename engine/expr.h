// Hash-consed bit-vector expressions, simplification, evaluation under a model.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include "llvm/ADT/APInt.h"
#include "llvm/ADT/Hashing.h"
#include "llvm/ADT/SmallString.h"

namespace ks {
using u8 = uint8_t;
using u16 = uint16_t;
using u32 = uint32_t;
using u64 = uint64_t;
using i64 = int64_t;
using llvm::APInt;

enum Op : u8 {
    CONST, VAR, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
    EQ, ULT, ULE, SLT, SLE, ITE, ZEXT, SEXT, EXTRACT, CONCAT
};

struct Expr {
    Op op;
    u16 w;       // width in bits
    u16 lo;      // EXTRACT low bit
    u32 id;
    u32 nodes;   // saturating size, heuristics only
    u64 hash;
    u64 bloom;   // of the variables inside
    u64 v;       // CONST (w<=64) value or VAR number
    const Expr* a[3];
    const APInt* big;                 // CONST with w>64
    u64 umin, umax;                   // unsigned range (w<=64), full range otherwise
    i64 smin, smax;                   // signed range (w<=64)
    mutable const std::vector<u32>* vars;  // sorted variable numbers, lazily
    mutable void* zbv;
    mutable void* zbool;
    mutable u32 stamp;
    mutable u64 ev;
    mutable const APInt* evbig;
    bool isConst() const { return op == CONST; }
};
using E = const Expr*;

inline u64 maskw(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
inline i64 sextw(u64 v, unsigned w) {
    if (w >= 64) return (i64)v;
    u64 m = 1ULL << (w - 1);
    v &= maskw(w);
    return (i64)((v ^ m) - m);
}

struct VarInfo {
    std::string name;
    u16 w;
    bool uninit;  // an uninitialised byte, not an input
};

struct Ctx {
    std::vector<VarInfo> vars;
    std::vector<E> varExpr;
    u32 nextId = 1;
    u32 stamp = 1;
    u64 nExprs = 0;
    // open addressing hash set
    std::vector<E> tab;
    size_t cnt = 0;
    std::unordered_map<std::string, u32> varByName;
    E smallc[65][258];
    Ctx() { tab.resize(1 << 16, nullptr); memset(smallc, 0, sizeof smallc); }

    static u64 mix(u64 h, u64 x) {
        h ^= x + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
        h *= 0xff51afd7ed558ccdULL;
        h ^= h >> 29;
        return h;
    }
    E intern(Op op, u16 w, u16 lo, u64 v, E a, E b, E c, const APInt* big = nullptr) {
        u64 h = mix(mix(mix(op, w), lo), v);
        h = mix(mix(mix(h, a ? a->id : 0), b ? b->id : 0), c ? c->id : 0);
        if (big) h = mix(h, llvm::hash_value(*big));
        size_t m = tab.size() - 1, i = h & m;
        while (tab[i]) {
            E x = tab[i];
            if (x->hash == h && x->op == op && x->w == w && x->lo == lo && x->v == v && x->a[0] == a && x->a[1] == b &&
                x->a[2] == c && (!big || *x->big == *big))
                return x;
            i = (i + 1) & m;
        }
        Expr* n = new Expr();
        n->op = op; n->w = w; n->lo = lo; n->v = v; n->a[0] = a; n->a[1] = b; n->a[2] = c;
        n->id = nextId++; n->hash = h; n->big = big ? new APInt(*big) : nullptr;
        n->vars = nullptr; n->zbv = n->zbool = nullptr; n->stamp = 0; n->evbig = nullptr; n->ev = 0;
        n->bloom = (op == VAR) ? (1ULL << (v % 64)) : 0;
        u64 nodes = 1;
        for (E x : n->a) if (x) { n->bloom |= x->bloom; nodes += x->nodes; }
        n->nodes = nodes > 1000000000 ? 1000000000 : (u32)nodes;
        range(n);
        srange(n);
        tab[i] = n;
        ++nExprs;
        if (++cnt * 2 > tab.size()) {
            std::vector<E> old;
            old.swap(tab);
            tab.resize(old.size() * 2, nullptr);
            size_t mm = tab.size() - 1;
            for (E x : old) if (x) { size_t j = x->hash & mm; while (tab[j]) j = (j + 1) & mm; tab[j] = x; }
        }
        return n;
    }
    void range(Expr* n) {
        n->umin = 0; n->umax = maskw(n->w);
        if (n->w > 64) { n->umax = ~0ULL; return; }
        E a = n->a[0], b = n->a[1], c = n->a[2];
        switch (n->op) {
            case CONST: n->umin = n->umax = n->v; break;
            case ZEXT: n->umin = a->umin; n->umax = a->umax; break;
            case ITE: n->umin = std::min(b->umin, c->umin); n->umax = std::max(b->umax, c->umax); break;
            case AND: n->umax = std::min(a->umax, b->umax);
                if (b->op == CONST) {
                    u64 lowz = b->v ? maskw(__builtin_ctzll(b->v)) : 0;
                    if ((b->v | lowz) == maskw(n->w) || a->umax <= (b->v | lowz)) if (((b->v | lowz) & ((b->v | lowz) + 1)) == 0) { n->umin = a->umin & b->v; n->umax = a->umax & b->v; }
                }
                break;
            case OR: {
                n->umin = std::max(a->umin, b->umin);
                u64 m = a->umax | b->umax; while (m & (m + 1)) m |= m >> 1; n->umax = m; break; }
            case XOR: { u64 m = a->umax | b->umax; while (m & (m + 1)) m |= m >> 1; n->umax = m; break; }
            case ADD: {
                u64 lo2, hi2;
                if (!__builtin_add_overflow(a->umax, b->umax, &hi2) && hi2 <= maskw(n->w)) {
                    lo2 = a->umin + b->umin; n->umin = lo2; n->umax = hi2;
                }
                break; }
            case SUB: if (a->umin >= b->umax) { n->umin = a->umin - b->umax; n->umax = a->umax - b->umin; } break;
            case MUL: { u64 hi2; if (!__builtin_mul_overflow(a->umax, b->umax, &hi2) && hi2 <= maskw(n->w)) { n->umax = hi2; n->umin = a->umin * b->umin; } break; }
            case UDIV: if (b->umin > 0) { n->umax = a->umax / b->umin; n->umin = a->umin / b->umax; } break;
            case UREM: if (b->umin > 0) { n->umax = std::min(a->umax, b->umax - 1); } break;
            case LSHR: if (b->isConst() && b->v < n->w) { n->umin = a->umin >> b->v; n->umax = a->umax >> b->v; } break;
            case SHL: if (b->isConst() && b->v < n->w && (a->umax <= (maskw(n->w) >> b->v))) { n->umin = a->umin << b->v; n->umax = a->umax << b->v; } break;
            case EXTRACT: if (a->w <= 64 && n->lo == 0 && a->umax <= maskw(n->w)) { n->umin = a->umin; n->umax = a->umax; }
                          else if (a->w <= 64 && n->lo + n->w == a->w) { n->umin = a->umin >> n->lo; n->umax = a->umax >> n->lo; }
                          break;
            case CONCAT: n->umin = (a->umin << b->w) | b->umin; n->umax = (a->umax << b->w) | b->umax; break;
            default: break;
        }
    }

    void srange(Expr* n) {
        unsigned w = n->w;
        if (w > 64) { n->smin = INT64_MIN; n->smax = INT64_MAX; return; }
        i64 lo = sextw(1ULL << (w - 1), w), hi = (i64)(maskw(w) >> 1);
        n->smin = lo; n->smax = hi;
        u64 half = 1ULL << (w - 1);
        if (n->umax < half) { n->smin = n->umin; n->smax = n->umax; return; }
        if (n->umin >= half) { n->smin = sextw(n->umin, w); n->smax = sextw(n->umax, w); return; }
        E a = n->a[0], b = n->a[1];
        i64 x, y;
        switch (n->op) {
            case SEXT: n->smin = a->smin; n->smax = a->smax; break;
            case ADD: if (!__builtin_add_overflow(a->smin, b->smin, &x) && !__builtin_add_overflow(a->smax, b->smax, &y) && x >= lo && y <= hi) { n->smin = x; n->smax = y; } break;
            case SUB: if (!__builtin_sub_overflow(a->smin, b->smax, &x) && !__builtin_sub_overflow(a->smax, b->smin, &y) && x >= lo && y <= hi) { n->smin = x; n->smax = y; } break;
            case ITE: n->smin = std::min(b->smin, n->a[2]->smin); n->smax = std::max(b->smax, n->a[2]->smax); break;
            case EXTRACT: if (a->w <= 64 && n->lo == 0 && a->smin >= lo && a->smax <= hi) { n->smin = a->smin; n->smax = a->smax; } break;
            default: break;
        }
    }
    // Width class holding the signed range [lo,hi], or 0.
    static unsigned scls(i64 lo, i64 hi, unsigned w) {
        for (unsigned k : {8u, 16u, 32u}) if (k < w && lo >= -(1LL << (k - 1)) && hi < (1LL << (k - 1))) return k;
        return 0;
    }

    E cst(u64 v, unsigned w) {
        if (w > 64) return cstBig(APInt(w, v));
        v &= maskw(w);
        if (v < 257) { E& s = smallc[w][v]; if (!s) s = intern(CONST, w, 0, v, 0, 0, 0); return s; }
        return intern(CONST, w, 0, v, 0, 0, 0);
    }
    E cstBig(const APInt& v) {
        if (v.getBitWidth() <= 64) return cst(v.getZExtValue(), v.getBitWidth());
        return intern(CONST, v.getBitWidth(), 0, 0, 0, 0, 0, &v);
    }
    static APInt cval(E e) { return e->w > 64 ? *e->big : APInt(e->w, e->v); }
    E var(const std::string& name, unsigned w, bool uninit = false) {
        auto it = varByName.find(name);
        if (it != varByName.end() && vars[it->second].w == w) return varExpr[it->second];
        u32 n = vars.size();
        vars.push_back({name, (u16)w, uninit});
        varByName[name] = n;
        E e = intern(VAR, w, 0, n, 0, 0, 0);
        varExpr.push_back(e);
        return e;
    }
    E tru() { return cst(1, 1); }
    E fls() { return cst(0, 1); }

    const std::vector<u32>& varsOf(E e) {
        if (e->vars) return *e->vars;
        auto* r = new std::vector<u32>();
        if (e->op == VAR) r->push_back(e->v);
        else {
            // reuse a child's set when equal
            const std::vector<u32>* only = nullptr;
            int n = 0;
            for (E x : e->a) if (x && x->bloom) { n++; only = &varsOf(x); }
            if (n == 1) { delete r; e->vars = only; return *only; }
            for (E x : e->a) if (x && x->bloom) {
                auto& s = varsOf(x);
                std::vector<u32> t;
                std::set_union(r->begin(), r->end(), s.begin(), s.end(), std::back_inserter(t));
                r->swap(t);
            }
        }
        e->vars = r;
        return *r;
    }

    static APInt foldBig(Op op, const APInt& a, const APInt& b) {
        unsigned w = a.getBitWidth();
        switch (op) {
            case ADD: return a + b;
            case SUB: return a - b;
            case MUL: return a * b;
            case UDIV: return b == 0 ? APInt::getAllOnes(w) : a.udiv(b);
            case SDIV: return b == 0 ? (a.isNegative() ? APInt(w, 1) : APInt::getAllOnes(w)) : a.sdiv(b);
            case UREM: return b == 0 ? a : a.urem(b);
            case SREM: return b == 0 ? a : a.srem(b);
            case AND: return a & b;
            case OR: return a | b;
            case XOR: return a ^ b;
            case SHL: return b.uge(w) ? APInt(w, 0) : a.shl(b);
            case LSHR: return b.uge(w) ? APInt(w, 0) : a.lshr(b);
            case ASHR: return b.uge(w) ? (a.isNegative() ? APInt::getAllOnes(w) : APInt(w, 0)) : a.ashr(b);
            default: abort();
        }
    }
    static bool cmpBig(Op op, const APInt& a, const APInt& b) {
        switch (op) {
            case EQ: return a == b;
            case ULT: return a.ult(b);
            case ULE: return a.ule(b);
            case SLT: return a.slt(b);
            case SLE: return a.sle(b);
            default: abort();
        }
    }
    static u64 fold(Op op, u64 a, u64 b, unsigned w) {
        u64 m = maskw(w);
        switch (op) {
            case ADD: return (a + b) & m;
            case SUB: return (a - b) & m;
            case MUL: return (a * b) & m;
            case UDIV: return b == 0 ? m : a / b;
            case UREM: return b == 0 ? a : a % b;
            case SDIV: case SREM: return foldBig(op, APInt(w, a), APInt(w, b)).getZExtValue();
            case AND: return a & b;
            case OR: return a | b;
            case XOR: return a ^ b;
            case SHL: return b >= w ? 0 : (a << b) & m;
            case LSHR: return b >= w ? 0 : a >> b;
            case ASHR: { i64 s = sextw(a, w); return (u64)(b >= w ? (s < 0 ? -1 : 0) : s >> b) & m; }
            default: abort();
        }
    }
    static bool cmp(Op op, u64 a, u64 b, unsigned w) {
        switch (op) {
            case EQ: return a == b;
            case ULT: return a < b;
            case ULE: return a <= b;
            case SLT: return sextw(a, w) < sextw(b, w);
            case SLE: return sextw(a, w) <= sextw(b, w);
            default: abort();
        }
    }

    E notb(E a) {  // boolean not (width 1)
        if (a->isConst()) return cst(!a->v, 1);
        if (a->op == XOR && a->a[1]->isConst()) return a->a[1]->v ? a->a[0] : a;
        if (a->op == ULT) return bin2(ULE, a->a[1], a->a[0]);
        if (a->op == ULE) return bin2(ULT, a->a[1], a->a[0]);
        if (a->op == SLT) return bin2(SLE, a->a[1], a->a[0]);
        if (a->op == SLE) return bin2(SLT, a->a[1], a->a[0]);
        return intern(XOR, 1, 0, 0, a, tru(), nullptr);
    }
    E bin2(Op op, E a, E b) { return intern(op, 1, 0, 0, a, b, nullptr); }
    static bool isNot(E a, E& x) {
        if (a->w == 1 && a->op == XOR && a->a[1]->isConst() && a->a[1]->v == 1) { x = a->a[0]; return true; }
        return false;
    }

    E cmpE(Op op, E a, E b) {
        if (a->w != b->w) { fprintf(stderr, "cmp width mismatch\n"); abort(); }
        if (a->isConst() && b->isConst()) {
            if (a->w > 64) return cst(cmpBig(op, *a->big, *b->big), 1);
            return cst(cmp(op, a->v, b->v, a->w), 1);
        }
        if (a == b) return cst(op == EQ || op == ULE || op == SLE, 1);
        unsigned w = a->w;
        if (op == EQ) {
            if (a->isConst()) std::swap(a, b);
            if (w <= 64) {
                if (a->umax < b->umin || b->umax < a->umin) return fls();
                if (b->isConst()) {
                    u64 c = b->v;
                    if (w == 1) return c ? a : notb(a);
                    switch (a->op) {
                        case ADD: if (a->a[1]->isConst()) return cmpE(EQ, a->a[0], cst(c - a->a[1]->v, w)); break;
                        case SUB: if (c == 0) return cmpE(EQ, a->a[0], a->a[1]);
                                  if (a->a[0]->isConst()) return cmpE(EQ, a->a[1], cst(a->a[0]->v - c, w)); break;
                        case XOR: if (a->a[1]->isConst()) return cmpE(EQ, a->a[0], cst(c ^ a->a[1]->v, w));
                                  if (c == 0) return cmpE(EQ, a->a[0], a->a[1]); break;
                        case ZEXT: if (c > maskw(a->a[0]->w)) return fls(); return cmpE(EQ, a->a[0], cst(c, a->a[0]->w));
                        case SEXT: { unsigned iw = a->a[0]->w; if ((u64)(sextw(c, iw) & maskw(w)) != c) return fls(); return cmpE(EQ, a->a[0], cst(c, iw)); }
                        case ITE: {
                            E t = a->a[1], f = a->a[2];
                            if (t->isConst() || f->isConst()) {
                                E x = cmpE(EQ, t, b), y = cmpE(EQ, f, b);
                                return ite(a->a[0], x, y);
                            }
                            break; }
                        case CONCAT: { unsigned lw = a->a[1]->w; return band(cmpE(EQ, a->a[0], cst(c >> lw, a->a[0]->w)), cmpE(EQ, a->a[1], cst(c, lw))); }
                        default: break;
                    }
                }
            }
            if (a->op == CONCAT && b->op == CONCAT && a->a[1]->w == b->a[1]->w)
                return band(cmpE(EQ, a->a[0], b->a[0]), cmpE(EQ, a->a[1], b->a[1]));
            if (a->op == ZEXT && b->op == ZEXT && a->a[0]->w == b->a[0]->w) return cmpE(EQ, a->a[0], b->a[0]);
            if (a->op == ADD && b->op == ADD && a->a[1] == b->a[1]) return cmpE(EQ, a->a[0], b->a[0]);
            if (w == 1) { E x; if (isNot(a, x) && x == b) return fls(); if (isNot(b, x) && x == a) return fls(); }
            if (w <= 64) if (unsigned k = cls(std::max(a->umax, b->umax), w)) return cmpE(EQ, extract(a, 0, k), extract(b, 0, k));
            if (w <= 64) if (unsigned k = scls(std::min(a->smin, b->smin), std::max(a->smax, b->smax), w)) return cmpE(EQ, extract(a, 0, k), extract(b, 0, k));
            if (!b->isConst() && a->id > b->id) std::swap(a, b);
            return bin2(EQ, a, b);
        }
        if (w <= 64) {
            if (op == ULT) {
                if (a->umax < b->umin) return tru();
                if (a->umin >= b->umax) return fls();
                if (b->isConst() && b->v == 1) return cmpE(EQ, a, cst(0, w));
                if (a->isConst() && a->v == maskw(w)) return fls();
                if (a->isConst() && a->v == 0) return notb(cmpE(EQ, b, a));
            } else if (op == ULE) {
                if (a->umax <= b->umin) return tru();
                if (a->umin > b->umax) return fls();
                if (b->isConst() && b->v == 0) return cmpE(EQ, a, b);
            } else {
                // signed with both ranges in the non-negative half -> unsigned
                u64 half = 1ULL << (w - 1);
                if (a->umax < half && b->umax < half) return cmpE(op == SLT ? ULT : ULE, a, b);
                bool an = a->umin >= half, bn = b->umin >= half;
                if (a->umax < half && bn) return fls();   // a>=0 > b
                if (an && b->umax < half) return tru();
            }
            if ((op == ULT || op == ULE) && a->op == ZEXT && b->op == ZEXT && a->a[0]->w == b->a[0]->w)
                return cmpE(op, a->a[0], b->a[0]);
            if ((op == ULT || op == ULE) && a->op == ZEXT && b->isConst() && b->v <= maskw(a->a[0]->w))
                return cmpE(op, a->a[0], cst(b->v, a->a[0]->w));
            if ((op == ULT || op == ULE) && b->op == ZEXT && a->isConst() && a->v <= maskw(b->a[0]->w))
                return cmpE(op, cst(a->v, b->a[0]->w), b->a[0]);
            if (a->op == ITE && b->isConst() && (a->a[1]->isConst() || a->a[2]->isConst()))
                return ite(a->a[0], cmpE(op, a->a[1], b), cmpE(op, a->a[2], b));
            if (b->op == ITE && a->isConst() && (b->a[1]->isConst() || b->a[2]->isConst()))
                return ite(b->a[0], cmpE(op, a, b->a[1]), cmpE(op, a, b->a[2]));
            // (x + c) ult k when x + c cannot wrap
            if ((op == ULT || op == ULE) && a->op == ADD && a->a[1]->isConst() && b->isConst()) {
                u64 c = a->a[1]->v, hi;
                if (!__builtin_add_overflow(a->a[0]->umax, c, &hi) && hi <= maskw(w)) {
                    if (b->v < c) return fls();
                    return cmpE(op, a->a[0], cst(b->v - c, w));
                }
            }
            if ((op == ULT || op == ULE) && b->op == ADD && b->a[1]->isConst() && a->isConst()) {
                u64 c = b->a[1]->v, hi;
                if (!__builtin_add_overflow(b->a[0]->umax, c, &hi) && hi <= maskw(w)) {
                    if (a->v < c) return op == ULE ? tru() : tru();
                    return cmpE(op, cst(a->v - c, w), b->a[0]);
                }
            }
        }
        if (w <= 64 && (op == ULT || op == ULE)) if (unsigned k = cls(std::max(a->umax, b->umax), w)) return cmpE(op, extract(a, 0, k), extract(b, 0, k));
        if (w <= 64) if (unsigned k = scls(std::min(a->smin, b->smin), std::max(a->smax, b->smax), w)) return cmpE(op, extract(a, 0, k), extract(b, 0, k));
        return bin2(op, a, b);
    }
    E band(E a, E b) { return bin(AND, a, b); }
    E bor(E a, E b) { return bin(OR, a, b); }

    E bin(Op op, E a, E b) {
        if (a->w != b->w) { fprintf(stderr, "bin width mismatch %d %d op %d\n", a->w, b->w, op); abort(); }
        unsigned w = a->w;
        if (a->isConst() && b->isConst()) {
            if (w > 64) return cstBig(foldBig(op, *a->big, *b->big));
            return cst(fold(op, a->v, b->v, w), w);
        }
        bool comm = op == ADD || op == MUL || op == AND || op == OR || op == XOR;
        if (comm && a->isConst()) std::swap(a, b);
        if (w > 64) {
            if (b->isConst()) {
                const APInt& k = *b->big;
                if (op == AND && k == 0) return b;
                if (op == AND && k.isAllOnes()) return a;
                if ((op == OR || op == XOR || op == ADD || op == SUB || op == SHL || op == LSHR || op == ASHR) && k == 0) return a;
                if ((op == SHL || op == LSHR) && k.ult(w)) {
                    unsigned s = k.getZExtValue();
                    if (op == SHL) return concat(extract(a, 0, w - s), cstBig(APInt(s, 0)));
                    return zext(extract(a, s, w - s), w);
                }
                if (op == AND && k.isMask()) { unsigned n = k.countTrailingOnes(); return zext(extract(a, 0, n), w); }
            }
            if (op == OR || op == ADD) {
                if (E r = orConcat(a, b)) return r;
            }
            return intern(op, w, 0, 0, a, b, nullptr);
        }
        u64 m = maskw(w);
        if (b->isConst()) {
            u64 c = b->v;
            switch (op) {
                case ADD:
                    if (c == 0) return a;
                    if (a->op == ADD && a->a[1]->isConst()) return bin(ADD, a->a[0], cst(a->a[1]->v + c, w));
                    if (a->op == SUB && a->a[0]->isConst()) return bin(SUB, cst(a->a[0]->v + c, w), a->a[1]);
                    if (a->op == ITE && a->a[1]->isConst() && a->a[2]->isConst()) return ite(a->a[0], cst(a->a[1]->v + c, w), cst(a->a[2]->v + c, w));
                    break;
                case SUB: return bin(ADD, a, cst(0 - c, w));
                case MUL:
                    if (c == 0) return b;
                    if (c == 1) return a;
                    if ((c & (c - 1)) == 0) return bin(SHL, a, cst(__builtin_ctzll(c), w));
                    break;
                case UDIV:
                    if (c == 1) return a;
                    if (c && (c & (c - 1)) == 0) return bin(LSHR, a, cst(__builtin_ctzll(c), w));
                    break;
                case UREM:
                    if (c && (c & (c - 1)) == 0) return bin(AND, a, cst(c - 1, w));
                    if (c && a->umax < c) return a;
                    break;
                case SDIV: if (c == 1) return a;
                    if (a->umax < (1ULL << (w - 1)) && c < (1ULL << (w - 1))) return bin(UDIV, a, b);
                    break;
                case SREM:
                    if (a->umax < (1ULL << (w - 1)) && c && c < (1ULL << (w - 1))) return bin(UREM, a, b);
                    break;
                case AND:
                    if (c == 0) return b;
                    if (c == m) return a;
                    if (a->op == AND && a->a[1]->isConst()) return bin(AND, a->a[0], cst(a->a[1]->v & c, w));
                    if ((c & (c + 1)) == 0) {  // low mask
                        unsigned n = __builtin_ctzll(~c);
                        if (a->umax <= c) return a;
                        return zext(extract(a, 0, n), w);
                    }
                    if (a->op == ZEXT && (c & maskw(a->a[0]->w)) == 0) return cst(0, w);
                    if (a->op == ITE && (a->a[1]->isConst() || a->a[2]->isConst())) return ite(a->a[0], bin(AND, a->a[1], b), bin(AND, a->a[2], b));
                    if (w > 8 && a->op == CONCAT) { unsigned lw = a->a[1]->w; return concat(bin(AND, a->a[0], cst(c >> lw, w - lw)), bin(AND, a->a[1], cst(c, lw))); }
                    break;
                case OR:
                    if (c == 0) return a;
                    if (c == m) return b;
                    if (a->op == OR && a->a[1]->isConst()) return bin(OR, a->a[0], cst(a->a[1]->v | c, w));
                    break;
                case XOR:
                    if (c == 0) return a;
                    if (w == 1) return notb(a);
                    if (a->op == XOR && a->a[1]->isConst()) return bin(XOR, a->a[0], cst(a->a[1]->v ^ c, w));
                    break;
                case SHL:
                    if (c == 0) return a;
                    if (c >= w) return cst(0, w);
                    return concat(extract(a, 0, w - c), cst(0, c));
                case LSHR:
                    if (c == 0) return a;
                    if (c >= w) return cst(0, w);
                    return zext(extract(a, c, w - c), w);
                case ASHR:
                    if (c == 0) return a;
                    if (c < w) return sext(extract(a, c, w - c), w);
                    break;
                default: break;
            }
        }
        if (a->isConst()) {
            if ((op == SHL || op == LSHR || op == UDIV || op == UREM) && a->v == 0 && (op == SHL || op == LSHR)) return a;
        }
        if (a == b) {
            switch (op) {
                case SUB: case XOR: return cst(0, w);
                case AND: case OR: return a;
                default: break;
            }
        }
        if (op == SUB) {
            // (x + c) - x, (x + c) - (x + d), x - (x + c)
            E ab = a, bb = b; u64 ca = 0, cb = 0;
            if (a->op == ADD && a->a[1]->isConst()) { ab = a->a[0]; ca = a->a[1]->v; }
            if (b->op == ADD && b->a[1]->isConst()) { bb = b->a[0]; cb = b->a[1]->v; }
            if (ab == bb) return cst(ca - cb, w);
            if (ab->op == ADD && ab->a[0] == bb) return bin(ADD, ab->a[1], cst(ca - cb, w));
            if (ab->op == ADD && ab->a[1] == bb) return bin(ADD, ab->a[0], cst(ca - cb, w));
            if (bb->op == ADD && bb->a[0] == ab) return bin(SUB, cst(ca - cb, w), bb->a[1]);
            if (bb->op == ADD && bb->a[1] == ab) return bin(SUB, cst(ca - cb, w), bb->a[0]);
            if (b->op == ZEXT && b->a[0]->w < w && (ca || a->op != ZEXT || a->a[0]->w > b->a[0]->w) && extract(a, 0, b->a[0]->w) == b->a[0])
                return bin(AND, a, cst(~maskw(b->a[0]->w), w));
            if (ca || cb) return bin(ADD, bin(SUB, ab, bb), cst(ca - cb, w));
        }
        if (op == ADD) {
            // pull constants out
            if (a->op == ADD && a->a[1]->isConst()) return bin(ADD, bin(ADD, a->a[0], b), a->a[1]);
            if (b->op == ADD && b->a[1]->isConst()) return bin(ADD, bin(ADD, a, b->a[0]), b->a[1]);
            if (b->op == SUB && b->a[1] == a) return b->a[0];
            if (a->op == SUB && a->a[1] == b) return a->a[0];
            if (E r = orConcat(a, b)) return r;
        }
        if (op == OR && w > 1) { if (E r = orConcat(a, b)) return r; }
        if (w == 1) {
            E x;
            if (op == AND) { if ((isNot(a, x) && x == b) || (isNot(b, x) && x == a)) return fls(); }
            if (op == OR) { if ((isNot(a, x) && x == b) || (isNot(b, x) && x == a)) return tru(); }
            if (op == XOR) { if (isNot(a, x)) return notb(bin(XOR, x, b)); if (isNot(b, x)) return notb(bin(XOR, a, x)); }
        }
        if (op == ADD && b->isConst() && a->op == ZEXT && a->a[0]->op == ADD && a->a[0]->a[1]->isConst()) {
            E in = a->a[0];
            if (in->a[0]->umax + in->a[1]->v <= maskw(in->w)) return bin(ADD, zext(in->a[0], w), cst(in->a[1]->v + b->v, w));
        }
        if (op == ADD && b->isConst() && a->op == SEXT && a->a[0]->op == ADD && a->a[0]->a[1]->isConst()) {
            E in = a->a[0];
            i64 q = sextw(in->a[1]->v, in->w), x, y;
            if (!__builtin_add_overflow(in->a[0]->smin, q, &x) && !__builtin_add_overflow(in->a[0]->smax, q, &y) && scls(x, y, in->w + 1) && scls(x, y, in->w + 1) <= in->w)
                return bin(ADD, sext(in->a[0], w), cst((u64)q + b->v, w));
        }
        if (w > 8) {  // do small arithmetic in a narrow type
            u64 top = 0; bool ok = false;
            switch (op) {
                case ADD: ok = !__builtin_add_overflow(a->umax, b->umax, &top); break;
                case MUL: ok = !__builtin_mul_overflow(a->umax, b->umax, &top); break;
                case SUB: if (a->umin >= b->umax) { top = a->umax; ok = true; } break;
                case AND: if (b->isConst()) { top = a->umax; ok = true; } else { top = std::max(a->umax, b->umax); ok = true; } break;
                case OR: case XOR: top = std::max(a->umax, b->umax); ok = true; break;
                case UDIV: case UREM: top = std::max(a->umax, b->umax); ok = b->umin > 0; break;
                default: break;
            }
            if (ok) if (unsigned k = cls(top, w)) return zext(bin(op, extract(a, 0, k), extract(b, 0, k)), w);
            if (op == ADD || op == SUB) {
                i64 x, y;
                bool o = op == ADD ? __builtin_add_overflow(a->smin, b->smin, &x) | __builtin_add_overflow(a->smax, b->smax, &y)
                                   : __builtin_sub_overflow(a->smin, b->smax, &x) | __builtin_sub_overflow(a->smax, b->smin, &y);
                if (!o) if (unsigned k = scls(std::min({x, a->smin, b->smin}), std::max({y, a->smax, b->smax}), w))
                    return sext(bin(op, extract(a, 0, k), extract(b, 0, k)), w);
            }
        }
        if (comm && a->id > b->id && !b->isConst()) std::swap(a, b);
        return intern(op, w, 0, 0, a, b, nullptr);
    }
    // a|b where one is CONCAT(x,0) and the other ZEXT fitting in the low part
    E orConcat(E a, E b) {
        for (int k = 0; k < 2; k++, std::swap(a, b)) {
            if (a->op == CONCAT && a->a[1]->isConst() && cval(a->a[1]) == 0) {
                unsigned lw = a->a[1]->w;
                if (b->op == ZEXT && b->a[0]->w <= lw) return concat(a->a[0], zext(b->a[0], lw));
                if (b->isConst() && b->w <= 64 && lw < 64 && (b->v >> lw) == 0) return concat(a->a[0], cst(b->v, lw));
                if (b->op == CONCAT && b->a[0]->isConst() && cval(b->a[0]) == 0 && b->a[1]->w <= lw) return concat(a->a[0], zext(b->a[1], lw));
            }
            if (a->op == CONCAT && b->op == ZEXT && a->a[0]->isConst() == false && b->a[0]->w <= a->a[1]->w && a->a[1]->op == CONCAT) {
                if (E r = orConcat(a->a[1], zext(b->a[0], a->a[1]->w))) return concat(a->a[0], r);
            }
            // zext(concat(x,0)) | zext(y)
            if (a->op == ZEXT && a->a[0]->op == CONCAT && b->op == ZEXT && b->a[0]->w <= a->a[0]->w) {
                E r = orConcat(a->a[0], zext(b->a[0], a->a[0]->w));
                if (r) return zext(r, a->w);
            }
        }
        return nullptr;
    }
    E zext(E a, unsigned w) {
        if (a->w == w) return a;
        if (a->isConst()) { if (w <= 64) return cst(a->v, w); return cstBig(cval(a).zext(w)); }
        if (a->op == ZEXT) return zext(a->a[0], w);
        if (a->op == EXTRACT && a->lo == 0 && a->a[0]->w == w && w <= 64 && a->a[0]->umax <= maskw(a->w)) return a->a[0];
        return intern(ZEXT, w, 0, 0, a, nullptr, nullptr);
    }
    E sext(E a, unsigned w) {
        if (a->w == w) return a;
        if (a->isConst()) { if (w <= 64) return cst((u64)sextw(a->v, a->w), w); return cstBig(cval(a).sext(w)); }
        if (a->op == SEXT) return sext(a->a[0], w);
        if (a->op == ZEXT) return zext(a->a[0], w);
        if (a->w <= 64 && a->umax < (1ULL << (a->w - 1))) return zext(a, w);
        if (a->op == ITE && a->a[1]->isConst() && a->a[2]->isConst()) return ite(a->a[0], sext(a->a[1], w), sext(a->a[2], w));
        return intern(SEXT, w, 0, 0, a, nullptr, nullptr);
    }
    E extract(E a, unsigned lo, unsigned w) {
        if (lo == 0 && w == a->w) return a;
        if (a->isConst()) {
            if (a->w <= 64) return cst(a->v >> lo, w);
            return cstBig(a->big->extractBits(w, lo));
        }
        switch (a->op) {
            case EXTRACT: return extract(a->a[0], a->lo + lo, w);
            case CONCAT: {
                unsigned lw = a->a[1]->w;
                if (lo >= lw) return extract(a->a[0], lo - lw, w);
                if (lo + w <= lw) return extract(a->a[1], lo, w);
                return concat(extract(a->a[0], 0, lo + w - lw), extract(a->a[1], lo, lw - lo));
            }
            case ZEXT: {
                unsigned iw = a->a[0]->w;
                if (lo >= iw) return w > 64 ? cstBig(APInt(w, 0)) : cst(0, w);
                if (lo + w <= iw) return extract(a->a[0], lo, w);
                return zext(extract(a->a[0], lo, iw - lo), w);
            }
            case SEXT: {
                unsigned iw = a->a[0]->w;
                if (lo + w <= iw) return extract(a->a[0], lo, w);
                if (lo < iw) return sext(extract(a->a[0], lo, iw - lo), w);
                return sext(extract(a->a[0], iw - 1, 1), w);
            }
            case ITE: if ((a->a[1]->isConst() || a->a[2]->isConst()) || a->nodes < 200) return ite(a->a[0], extract(a->a[1], lo, w), extract(a->a[2], lo, w)); break;
            case AND: case OR: case XOR: return bin(a->op, extract(a->a[0], lo, w), extract(a->a[1], lo, w));
            case ADD: case SUB: case MUL:
                if (lo == 0) return bin(a->op, extract(a->a[0], 0, w), extract(a->a[1], 0, w));
                break;
            default: break;
        }
        return intern(EXTRACT, w, lo, 0, a, nullptr, nullptr);
    }
    // A byte of a value as it sits in memory: not simplified, so that a later load finds the value again.
    E rawByte(E a, unsigned lo) { return intern(EXTRACT, 8, lo, 0, a, nullptr, nullptr); }
    static unsigned bitsOf(u64 v) { return v ? 64 - __builtin_clzll(v) : 1; }
    // Smallest width class holding x, or 0 when it is not worth narrowing to below w.
    static unsigned cls(u64 x, unsigned w) {
        unsigned b = bitsOf(x);
        unsigned k = b <= 8 ? 8 : b <= 16 ? 16 : b <= 32 ? 32 : 64;
        return k < w ? k : 0;
    }
    E concat(E hi, E lo) {
        unsigned w = hi->w + lo->w;
        if (hi->isConst() && lo->isConst()) {
            if (w <= 64) return cst((hi->v << lo->w) | lo->v, w);
            return cstBig(cval(hi).zext(w).shl(lo->w) | cval(lo).zext(w));
        }
        if (hi->op == EXTRACT && lo->op == EXTRACT && hi->a[0] == lo->a[0] && hi->lo == lo->lo + lo->w)
            return extract(hi->a[0], lo->lo, w);
        if (hi->isConst() && cval(hi) == 0) return zext(lo, w);
        // right-nested: concat(concat(a,b),c) -> concat(a, concat(b,c))
        if (hi->op == CONCAT) return concat(hi->a[0], concat(hi->a[1], lo));
        if (lo->op == CONCAT && hi->op == EXTRACT && lo->a[0]->op == EXTRACT && hi->a[0] == lo->a[0]->a[0] &&
            hi->lo == lo->a[0]->lo + lo->a[0]->w)
            return concat(extract(hi->a[0], lo->a[0]->lo, hi->w + lo->a[0]->w), lo->a[1]);
        if (lo->op == CONCAT && hi->isConst() && lo->a[0]->isConst()) return concat(concat(hi, lo->a[0]), lo->a[1]);
        return intern(CONCAT, w, 0, 0, hi, lo, nullptr);
    }
    E ite(E c, E t, E f) {
        if (c->isConst()) return c->v ? t : f;
        if (t == f) return t;
        E x;
        if (isNot(c, x)) return ite(x, f, t);
        if (t->w == 1) {
            if (t->isConst() && f->isConst()) return t->v ? c : notb(c);
            if (t->isConst()) return t->v ? bor(c, f) : band(notb(c), f);
            if (f->isConst()) return f->v ? bor(notb(c), t) : band(c, t);
        }
        if (t->op == ITE && t->a[0] == c) t = t->a[1];
        if (f->op == ITE && f->a[0] == c) f = f->a[2];
        if (t == f) return t;
        return intern(ITE, t->w, 0, 0, c, t, f);
    }

    // Evaluation under a model (indexed by variable number); wide values via APInt.
    struct Model {
        std::vector<u64> v;  // value per variable, 0 by default
        u64 get(u32 i) const { return i < v.size() ? v[i] : 0; }
        void set(u32 i, u64 x) { if (i >= v.size()) v.resize(i + 1, 0); v[i] = x; }
    };
    void newEval() { ++stamp; }
    u64 eval(E e, const Model& m) {  // call newEval() before a batch with one model
        if (e->op == CONST && e->w <= 64) return e->v;
        if (e->stamp == stamp) return e->ev;
        u64 r = 0;
        if (e->w > 64) { (void)evalBig(e, m); return 0; }
        switch (e->op) {
            case VAR: r = m.get(e->v) & maskw(e->w); break;
            case EQ: case ULT: case ULE: case SLT: case SLE:
                if (e->a[0]->w > 64) r = cmpBig(e->op, evalBig(e->a[0], m), evalBig(e->a[1], m));
                else r = cmp(e->op, eval(e->a[0], m), eval(e->a[1], m), e->a[0]->w);
                break;
            case ITE: r = eval(e->a[0], m) ? eval(e->a[1], m) : eval(e->a[2], m); break;
            case ZEXT: r = eval(e->a[0], m); break;
            case SEXT: r = (u64)sextw(eval(e->a[0], m), e->a[0]->w) & maskw(e->w); break;
            case EXTRACT:
                if (e->a[0]->w > 64) r = evalBig(e->a[0], m).extractBits(e->w, e->lo).getZExtValue();
                else r = (eval(e->a[0], m) >> e->lo) & maskw(e->w);
                break;
            case CONCAT: r = (eval(e->a[0], m) << e->a[1]->w) | eval(e->a[1], m); break;
            default: r = fold(e->op, eval(e->a[0], m), eval(e->a[1], m), e->w);
        }
        e->ev = r;
        e->stamp = stamp;
        return r;
    }
    APInt evalBig(E e, const Model& m) {
        if (e->w <= 64) return APInt(e->w, eval(e, m));
        switch (e->op) {
            case CONST: return *e->big;
            case VAR: return APInt(e->w, m.get(e->v));
            case ITE: return eval(e->a[0], m) ? evalBig(e->a[1], m) : evalBig(e->a[2], m);
            case ZEXT: return evalBig(e->a[0], m).zext(e->w);
            case SEXT: return evalBig(e->a[0], m).sext(e->w);
            case EXTRACT: return evalBig(e->a[0], m).extractBits(e->w, e->lo);
            case CONCAT: return evalBig(e->a[0], m).zext(e->w).shl(e->a[1]->w) | evalBig(e->a[1], m).zext(e->w);
            default: return foldBig(e->op, evalBig(e->a[0], m), evalBig(e->a[1], m));
        }
    }

    // substitution of variables by constants
    E subst(E e, const std::unordered_map<u32, u64>& s, const std::unordered_map<E, u64>& xs, u64 bloom, std::unordered_map<E, E>& memo) {
        if (!(e->bloom & bloom)) return e;
        if (!xs.empty()) { auto it = xs.find(e); if (it != xs.end()) return cst(it->second, e->w); }
        if (e->op == VAR) { auto it = s.find(e->v); return it == s.end() ? e : cst(it->second, e->w); }
        auto it = memo.find(e);
        if (it != memo.end()) return it->second;
        E a = e->a[0] ? subst(e->a[0], s, xs, bloom, memo) : nullptr;
        E b = e->a[1] ? subst(e->a[1], s, xs, bloom, memo) : nullptr;
        E c = e->a[2] ? subst(e->a[2], s, xs, bloom, memo) : nullptr;
        E r = e;
        if (a != e->a[0] || b != e->a[1] || c != e->a[2]) {
            switch (e->op) {
                case EQ: case ULT: case ULE: case SLT: case SLE: r = cmpE(e->op, a, b); break;
                case ITE: r = ite(a, b, c); break;
                case ZEXT: r = zext(a, e->w); break;
                case SEXT: r = sext(a, e->w); break;
                case EXTRACT: r = extract(a, e->lo, e->w); break;
                case CONCAT: r = concat(a, b); break;
                default: r = bin(e->op, a, b);
            }
        }
        if (r != e && !xs.empty()) { auto q = xs.find(r); if (q != xs.end()) r = cst(q->second, r->w); }
        memo[e] = r;
        return r;
    }
};

inline std::string show(const Ctx& C, E e, int depth = 6) {
    static const char* n[] = {"const", "var", "+", "-", "*", "/u", "/s", "%u", "%s", "&", "|", "^", "<<", ">>u", ">>s",
                              "==", "<u", "<=u", "<s", "<=s", "ite", "zext", "sext", "extract", "concat"};
    if (e->op == CONST) { if (e->w > 64) return "big"; char b[40]; snprintf(b, 40, "%llu", (unsigned long long)e->v); return b; }
    if (e->op == VAR) return C.vars[e->v].name;
    if (depth == 0) return "...";
    std::string r = "(";
    r += n[e->op];
    if (e->op == EXTRACT) r += "[" + std::to_string(e->lo) + "+" + std::to_string(e->w) + "]";
    for (E x : e->a) if (x) r += " " + show(C, x, depth - 1);
    return r + ")";
}
}  // namespace ks

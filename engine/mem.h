// Byte-granular, copy-on-write object memory.
#pragma once
#include "expr.h"
namespace ks {
enum { CH = 128 };
static const E UNINIT = (E)(uintptr_t)1;

struct Chunk {
    int rc = 1;
    u32 nsym = 0;     // entries of sym that are not null
    u8 d[CH];
    E* sym = nullptr;  // null => all concrete
    Chunk() { memset(d, 0, CH); }
    Chunk(const Chunk& o) : nsym(o.nsym) {
        memcpy(d, o.d, CH);
        if (o.sym && o.nsym) { sym = new E[CH]; memcpy(sym, o.sym, sizeof(E) * CH); }
    }
    ~Chunk() { delete[] sym; }
    void setSym(unsigned i, E e) {
        if (!sym) { if (!e) return; sym = new E[CH](); }
        if (sym[i] && !e) nsym--;
        if (!sym[i] && e) nsym++;
        sym[i] = e;
    }
};
inline void rel(Chunk* c) { if (c && --c->rc == 0) delete c; }

enum Kind : u8 { K_STACK, K_MALLOC, K_NEW, K_NEWARR, K_GLOBAL, K_EXC, K_EXT };

struct Obj {
    int rc = 1;
    Kind kind;
    bool ro = false, zero = false;
    u64 base, size;
    u64 site = 0;
    u8 owner = 0;   // thread
    std::vector<Chunk*> ch;
    Obj(Kind k, u64 b, u64 s) : kind(k), base(b), size(s), ch((s + CH - 1) / CH, nullptr) {}
    Obj(const Obj& o) : kind(o.kind), ro(o.ro), zero(o.zero), base(o.base), size(o.size), site(o.site), owner(o.owner), ch(o.ch) {
        for (Chunk* c : ch) if (c) c->rc++;
    }
    ~Obj() { for (Chunk* c : ch) rel(c); }
    Chunk* rd(size_t i) const { return ch[i]; }
    Chunk* wr(size_t i) {
        Chunk*& c = ch[i];
        if (!c) {
            c = new Chunk();
            if (!zero) for (unsigned k = 0; k < CH; k++) c->setSym(k, UNINIT);
        } else if (c->rc > 1) {
            c->rc--;
            c = new Chunk(*c);
        }
        return c;
    }
    // byte: concrete value in d, or expr / UNINIT in s
    void get(u64 off, u8& d, E& s) const {
        Chunk* c = ch[off / CH];
        if (!c) { d = 0; s = zero ? nullptr : UNINIT; return; }
        d = c->d[off % CH];
        s = c->sym ? c->sym[off % CH] : nullptr;
    }
    void put(u64 off, u8 d, E s) {
        Chunk* c = wr(off / CH);
        c->d[off % CH] = d;
        c->setSym(off % CH, s);
    }
};
struct ObjRef {
    Obj* o;
    ObjRef() : o(nullptr) {}
    explicit ObjRef(Obj* x) : o(x) {}  // takes over the reference
    ObjRef(const ObjRef& r) : o(r.o) { if (o) o->rc++; }
    ObjRef(ObjRef&& r) noexcept : o(r.o) { r.o = nullptr; }
    ObjRef& operator=(ObjRef r) noexcept { std::swap(o, r.o); return *this; }
    ~ObjRef() { if (o && --o->rc == 0) delete o; }
};

struct Mem {
    std::vector<ObjRef> v;  // sorted by base
    size_t upper(u64 a) const {  // first index with base > a
        size_t lo = 0, hi = v.size();
        while (lo < hi) { size_t m = (lo + hi) / 2; if (v[m].o->base <= a) lo = m + 1; else hi = m; }
        return lo;
    }
    int find(u64 a) const {  // object containing a, or whose one-past-the-end is a only if size==0
        size_t i = upper(a);
        if (i == 0) return -1;
        Obj* o = v[i - 1].o;
        if (a - o->base < o->size) return (int)i - 1;
        return -1;
    }
    int findBase(u64 a) const {
        size_t i = upper(a);
        if (i == 0) return -1;
        return v[i - 1].o->base == a ? (int)i - 1 : -1;
    }
    int findIncl(u64 a) const {  // containing a or ending at a
        size_t i = upper(a);
        if (i == 0) return -1;
        Obj* o = v[i - 1].o;
        return a - o->base <= o->size ? (int)i - 1 : -1;
    }
    void add(Obj* o) {
        if (v.empty() || v.back().o->base < o->base) { v.emplace_back(o); return; }
        v.insert(v.begin() + upper(o->base), ObjRef(o));
    }
    Obj* wr(int i) {
        Obj* o = v[i].o;
        if (o->rc > 1) { Obj* n = new Obj(*o); v[i] = ObjRef(n); return n; }
        return o;
    }
    void erase(int i) { v.erase(v.begin() + i); }
};
}  // namespace ks

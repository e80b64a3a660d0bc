// C06: objects created in an arena are constructed as requested.
#include <vector>
#include "arena_env.h"
using namespace env;
static unsigned dtors;
static void* lastD;
struct Plain { uint64_t a; uint32_t b; uint8_t c; };
struct Full {
    ArenaFullManagedTag;
    uint64_t a; uint16_t b;
    Full(uint64_t x, uint16_t y) : a(x), b(y) {}
    ~Full() { dtors++; lastD = this; }
};
struct CreateOnly {
    ArenaManagedCreateOnlyTag;
    uint64_t a;
    explicit CreateOnly(uint64_t x) : a(x) {}
    ~CreateOnly() { dtors++; }
};
struct WithArena {
    ArenaFullManagedTag;
    Arena& ar; uint64_t a; uint64_t& r;
    WithArena(Arena& q, uint64_t x, uint64_t& ref) : ar(q), a(x), r(ref) {}
};
struct WithAlloc {
    uint64_t a;
    stdb::memory::Arena::memory_resource* res;
    WithAlloc(uint64_t x, ::pmr::polymorphic_allocator<WithAlloc> al) : a(x), res((stdb::memory::Arena::memory_resource*)al.resource()) {}
    explicit WithAlloc(::pmr::polymorphic_allocator<WithAlloc> al) : a(9), res((stdb::memory::Arena::memory_resource*)al.resource()) {}
};
struct MoveOnly {
    ArenaFullManagedTag;
    uint64_t* p;
    explicit MoveOnly(uint64_t*&& x) : p(x) { x = nullptr; }
};
// how an argument arrived: rvalue 1, lvalue 2, const lvalue 3
struct Arg { uint64_t v; };
struct Kinds {
    unsigned k = 0; uint64_t v = 0;
    void take(unsigned n, const Arg& a) { k = k * 4 + n; v ^= a.v; }
    template <class X> void one(X&& x) {
        if constexpr (std::is_same_v<X, Arg>) { take(1, x); x.v = 0; }
        else if constexpr (std::is_same_v<X, Arg&>) take(2, x);
        else take(3, x);
    }
};
struct KPlain : Kinds {
    ArenaFullManagedTag;
    template <class X, class Y> requires (!std::is_same_v<std::decay_t<X>, Arena>) KPlain(X&& x, Y&& y) { one(std::forward<X>(x)); one(std::forward<Y>(y)); }
};
struct KArena : Kinds {
    ArenaFullManagedTag; Arena& ar;
    template <class X, class Y> KArena(Arena& q, X&& x, Y&& y) : ar(q) { one(std::forward<X>(x)); one(std::forward<Y>(y)); }
};
struct KAlloc : Kinds {
    ArenaFullManagedTag; ::pmr::memory_resource* res;
    template <class X, class Y> KAlloc(X&& x, Y&& y, ::pmr::polymorphic_allocator<KAlloc> al) : res(al.resource()) { one(std::forward<X>(x)); one(std::forward<Y>(y)); }
};
struct alignas(16) A16 { ArenaFullManagedTag; uint64_t a, b; A16(uint64_t x) : a(x), b(~x) {} };
struct alignas(32) A32 { ArenaFullManagedTag; uint64_t a; A32(uint64_t x) : a(x) {} ~A32() { dtors++; lastD = this; } };
struct alignas(32) P32 { uint64_t a; };
struct Elem { ArenaFullManagedTag; uint32_t v; Elem() : v(0xabcd1234) {} };
template <class T> static bool placed(T* p) { return p != nullptr && (sym_addr(p) & (alignof(T) - 1)) == 0 && inBlock((char*)p, sizeof(T)); }

ENTRY(c06_create) {
    region = 512;
    skew = sym_choose("skew", 0, 3) * 16;
    Arena::Options o = opts(128, 512, sym_pick("init", 0, 1) ? 64 : 256);
    uint64_t x = sym_u64("x");
    uint16_t y = sym_u16("y");
    unsigned kind = (unsigned)sym_choose("kind", 0, 11);
    unsigned expect = 0;
    void* obj = nullptr;
    {
        Arena a(o);
        (void)!a.AllocateAligned(8 * sym_pick("pre", 0, 5));
        uint64_t c0 = a.cleanups();
        if (kind == 0) {
            Plain* p = a.Create<Plain>(Plain{x, (uint32_t)y, (uint8_t)y});
            sym_assert(placed(p) && p->a == x && p->b == y && p->c == (uint8_t)y, "trivial type constructed from its argument");
            Plain* q = a.Create<Plain>();
            sym_assert(placed(q) && q->a == 0 && q->b == 0 && q->c == 0, "value-initialised without arguments");
            sym_assert(p->a == x, "first one intact");
        } else if (kind == 1) {
            Full* p = a.Create<Full>(x, y);
            sym_assert(placed(p) && p->a == x && p->b == y, "tagged type constructed from its arguments");
            expect = 1; obj = p;
        } else if (kind == 2) {
            CreateOnly* p = a.Create<CreateOnly>(x);
            sym_assert(placed(p) && p->a == x, "create-only type constructed from its argument");
        } else if (kind == 3) {
            uint64_t r = y;
            WithArena* p = a.Create<WithArena>(x, r);
            sym_assert(placed(p) && &p->ar == &a && p->a == x && &p->r == &r, "a type taking an Arena gets this arena and its arguments");
        } else if (kind == 4) {
            WithAlloc* p = a.Create<WithAlloc>(x);
            sym_assert(placed(p) && p->a == x && p->res == a.get_memory_resource() && p->res->get_arena() == &a, "an allocator-aware type gets the arena's resource");
            WithAlloc* q = a.Create<WithAlloc>();
            sym_assert(placed(q) && q->a == 9 && q->res == a.get_memory_resource(), "also without arguments");
        } else if (kind == 5) {
            uint64_t t = 1; uint64_t* tp = &t;
            MoveOnly* p = a.Create<MoveOnly>(std::move(tp));
            sym_assert(placed(p) && p->p == &t && tp == nullptr, "rvalue arguments are forwarded as such");
        } else if (kind == 6) {
            A16* p = a.Create<A16>(x);
            sym_assert(placed(p) && p->a == x && p->b == ~x, "16-aligned type");
        } else if (kind == 7) {
            A32* p = a.Create<A32>(x);
            sym_assert(placed(p) && p->a == x, "32-aligned type");
            expect = 1; obj = p;
        } else if (kind >= 9) {
            // every combination of argument categories
            Arg l{x}, m{y};
            const Arg c{x ^ 5};
            unsigned form = (unsigned)sym_pick("form", 0, 3);
            auto check = [&](Kinds* k, unsigned want, uint64_t v) {
                sym_assert(k && k->k == want && k->v == v, "every argument arrives with its value and value category");
            };
            auto go = [&]<class T>(T*) {
                T* p;
                if (form == 0) { p = a.Create<T>(std::move(l), m); check(p, 6, x ^ y); sym_assert(l.v == 0 && m.v == y, "only the rvalue is moved from"); }
                else if (form == 1) { p = a.Create<T>(m, std::move(l)); check(p, 9, x ^ y); sym_assert(l.v == 0 && m.v == y, "only the rvalue is moved from"); }
                else if (form == 2) { p = a.Create<T>(c, l); check(p, 14, c.v ^ x); sym_assert(l.v == x, "lvalues are left alone"); }
                else { p = a.Create<T>(Arg{x}, c); check(p, 7, c.v ^ x); }
                sym_assert(placed(p), "placed in the arena");
                return p;
            };
            if (kind == 9) go((KPlain*)nullptr);
            else if (kind == 10) sym_assert(&go((KArena*)nullptr)->ar == &a, "a type taking an Arena gets this arena");
            else sym_assert(go((KAlloc*)nullptr)->res == a.get_memory_resource(), "an allocator-aware type gets the arena's resource");
        } else {
            P32* p = a.Create<P32>();
            sym_assert(placed(p) && p->a == 0, "over-aligned trivial type");
        }
        sym_assert(a.cleanups() == c0 + expect, "a destructor is scheduled exactly when the type needs one");
        sym_assert(dtors == 0, "nothing destroyed yet");
    }
    sym_assert(dtors == expect && (!expect || lastD == obj), "scheduled destructors ran on the object");
    sym_cover("done");
}
ENTRY(c06_array) {
    region = 1024;
    skew = sym_choose("skew", 0, 1) * 16;
    Arena::Options o = opts(128, 512, sym_pick("init", 0, 1) ? 64 : 256);
    unsigned kind = (unsigned)sym_choose("kind", 0, 4);
    uint64_t n = sym_pick("n", 0, sym_param("N", 5));
    {
        Arena a(o);
        (void)!a.AllocateAligned(8 * sym_pick("pre", 0, 3));
        char* before = a.AllocateAligned(8);
        *(uint64_t*)before = 42;
        if (kind == 0) {
            uint32_t* p = a.CreateArray<uint32_t>(n);
            sym_assert(p && inBlock((char*)p, 4 * n), "array lies in the arena");
            for (uint64_t i = 0; i < n; i++) sym_assert(p[i] == 0, "every element is constructed");
        } else if (kind == 1) {
            Plain* p = a.CreateArray<Plain>(n);
            sym_assert(p && (sym_addr(p) & 7) == 0 && inBlock((char*)p, sizeof(Plain) * n), "array lies in the arena");
            for (uint64_t i = 0; i < n; i++) sym_assert(p[i].a == 0 && p[i].b == 0 && p[i].c == 0, "every element is constructed");
        } else if (kind == 2) {
            Elem* p = a.CreateArray<Elem>(n);
            sym_assert(p && inBlock((char*)p, sizeof(Elem) * n), "array lies in the arena");
            for (uint64_t i = 0; i < n; i++) sym_assert(p[i].v == 0xabcd1234, "every element is default-constructed");
        } else if (kind == 3) {
            P32* p = a.CreateArray<P32>(n);
            sym_assert(p && (sym_addr(p) & 31) == 0 && inBlock((char*)p, sizeof(P32) * n), "over-aligned array lies aligned in the arena");
            for (uint64_t i = 0; i < n; i++) sym_assert(p[i].a == 0, "every element is constructed");
        } else {
            WithAlloc* p = a.CreateArray<WithAlloc>(n);
            sym_assert(p && inBlock((char*)p, sizeof(WithAlloc) * n), "array lies in the arena");
            for (uint64_t i = 0; i < n; i++) sym_assert(p[i].a == 9 && p[i].res == a.get_memory_resource(), "every element gets the resource");
        }
        char* q = a.AllocateAligned(8);
        *(uint64_t*)q = ~0ULL;
        sym_assert(*(uint64_t*)before == 42, "earlier memory intact");
        sym_assert(a.cleanups() == 0, "no destructor for trivially destructible elements");
    }
    sym_cover("done");
}
struct Heap { uint64_t v; Heap(uint64_t x) : v(x) {} ~Heap() { dtors++; lastD = this; } };
ENTRY(c06_own) {
    Arena::Options o = opts(64, 512, 64);
    uint64_t x = sym_u64("x");
    unsigned k = (unsigned)sym_pick("k", 1, 3);
    {
        Arena a(o);
        Heap* h[3];
        for (unsigned i = 0; i < k; i++) { h[i] = new Heap(x + i); sym_assert(a.Own(h[i]), "owned"); }
        for (unsigned i = 0; i < k; i++) sym_assert(h[i]->v == x + i, "owned objects are untouched");
        sym_assert(dtors == 0, "not deleted early");
        if (sym_bool("reset")) { a.Reset(); sym_assert(dtors == k, "deleted by Reset"); }
    }
    sym_assert(dtors == k, "deleted exactly once");
    sym_assert(sym_heap_objects() == 0, "their memory is released");
    sym_cover("done");
}

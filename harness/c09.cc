// C09: the arena's memory_resource.
#include "arena_env.h"
using namespace env;
struct Got { char* p; uint64_t n; };
ENTRY(c09_history) {
    unsigned K = (unsigned)sym_param("K", 3);
    region = 512;
    skew = sym_choose("skew", 0, 1) * 16;
    Arena::Options o = opts(128, 512, sym_pick("init", 0, 1) ? 64 : 256);
    Arena a(o);
    ::pmr::memory_resource* r = a.get_memory_resource();
    sym_assert(r != nullptr && a.get_memory_resource()->get_arena() == &a, "the resource belongs to its arena");
    Got g[6];
    unsigned k = 0;
    for (unsigned i = 0; i < K; i++) {
        unsigned op = (unsigned)(i == 0 ? sym_choose("op0", 0, 1) * 2 : sym_pick("op", 0, 2));
        if (op == 1) {
            if (!k) continue;
            unsigned w = (unsigned)sym_pick("which", 0, k - 1);
            uint64_t rem = a.SpaceRemains(), sp = a.SpaceAllocated();
            r->deallocate(g[w].p, g[w].n, 8);
            sym_assert(a.SpaceRemains() == rem && a.SpaceAllocated() == sp && ndealloc == 0, "deallocation changes nothing");
            sym_cover("deallocated");
            continue;
        }
        uint64_t n = sym_range("n", 0, 255);
        uint64_t al = op == 0 ? 1ULL << sym_pick("al", 0, sym_param("A", 5)) : 8;
        char* p = op == 0 ? (char*)r->allocate(n, al) : a.AllocateAligned(n);
        sym_assert(p != nullptr, "served");
        sym_assert((sym_addr(p) & (al - 1)) == 0 && (sym_addr(p) & 7) == 0, "aligned");
        sym_assert(inBlock(p, n), "in bounds of a block");
        for (unsigned q = 0; q < k; q++) sym_assert(disjoint(p, n, g[q].p, g[q].n), "disjoint from everything handed out, deallocated or not");
        g[k++] = Got{p, n};
        if (nblk > 1) sym_cover("second block");
    }
}
struct Foreign : ::pmr::memory_resource {
    Arena* first;
    explicit Foreign(Arena* a) : first(a) {}
    void* do_allocate(size_t, size_t) override { return nullptr; }
    void do_deallocate(void*, size_t, size_t) override {}
    bool do_is_equal(const ::pmr::memory_resource& o) const noexcept override { return this == &o; }
};
ENTRY(c09_equal) {
    Arena::Options o = opts(128, 512, 64);
    Arena a(o), b(o);
    Foreign f(&a);
    Arena::memory_resource own(&a), other(&b);
    ::pmr::memory_resource* rs[5] = {a.get_memory_resource(), b.get_memory_resource(), &own, &other, &f};
    int cls[5] = {0, 1, 0, 1, 2};
    unsigned i = (unsigned)sym_pick("i", 0, 3), j = (unsigned)sym_pick("j", 0, 4);
    sym_assert(rs[i]->is_equal(*rs[j]) == (cls[i] == cls[j]), "equal exactly for resources of the same arena");
    sym_assert((*rs[i] == *rs[j]) == (cls[i] == cls[j]), "operator== agrees");
    sym_cover("done");
}
// a request the arena cannot satisfy is bad_alloc, as for every memory_resource, and changes nothing
ENTRY(c09_exhausted) {
    unsigned K = (unsigned)sym_param("K", 2);
    region = 512;
    Arena::Options o = opts(128, 512, sym_pick("init", 0, 1) ? 64 : 256);
    Arena a(o);
    ::pmr::memory_resource* r = a.get_memory_resource();
    failMode = 1;
    Got g[6];
    unsigned k = 0;
    for (unsigned i = 0; i < K; i++) {
        uint64_t n = sym_u64("n"), al = 1ULL << sym_pick("al", 0, 5);
        uint64_t rem = a.SpaceRemains(), sp = a.SpaceAllocated();
        unsigned failed = nfail;
        char* p = nullptr;
        bool threw = false;
        try { p = (char*)r->allocate(n, al); } catch (const std::bad_alloc&) { threw = true; }
        if (threw) {
            sym_assert(nfail > failed || n >= 1ULL << 63, "bad_alloc only when no block can be had");
            sym_assert(a.SpaceRemains() == rem && a.SpaceAllocated() == sp, "a refused request changes nothing");
            sym_cover("refused");
            continue;
        }
        sym_assert(p != nullptr && inBlock(p, n), "memory that is handed out lies in a block");
        sym_assert((sym_addr(p) & (al - 1)) == 0, "aligned");
        for (unsigned q = 0; q < k; q++) sym_assert(disjoint(p, n, g[q].p, g[q].n), "disjoint from everything handed out");
        g[k++] = Got{p, n};
        sym_cover("served");
    }
    failMode = 0;
    char* p = nullptr;
    try { p = (char*)r->allocate(48, 8); } catch (const std::bad_alloc&) {}
    sym_assert(p != nullptr && inBlock(p, 48), "the resource serves again when blocks can be had");
}

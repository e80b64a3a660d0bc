// C08: moving an arena.
#include "arena_env.h"
using namespace env;
ENTRY(c08_move) {
    region = 512;
    Arena::Options o = opts(128, 512, sym_pick("init", 0, 1) ? 64 : 256);
    hooks(o);
    // which hooks are installed besides init: all, only destruction, only reset, none
    unsigned which = (unsigned)sym_choose("hooks", 0, 3);
    bool onR = which == 0 || which == 2, onD = which == 0 || which == 1;
    if (!onR) o.on_arena_reset = nullptr;
    if (!onD) o.on_arena_destruction = nullptr;
    if (which) { o.on_arena_allocation = nullptr; o.on_arena_newblock = nullptr; }
    unsigned K = (unsigned)sym_param("K", 2);
    bool firstDies = sym_bool("old one dies first");
    Arena* a = new Arena(o);
    char* kept = nullptr;
    auto step = [&](Arena& x) {
        unsigned op = (unsigned)sym_pick("op", 0, 3);
        if (op == 0) {
            uint64_t n = sym_range("n", 0, 150);
            char* p = x.AllocateAligned(n);
            sym_assert(p && inBlock(p, n), "served");
        } else if (op == 1) {
            uint64_t n = sym_range("n", 0, 60);
            char* p = x.AllocateAlignedAndAddCleanup(n, &cb);
            sym_assert(p && inBlock(p, n), "served");
            reg(p);
        } else if (op == 2) {
            Obj* p = x.Create<Obj>();
            sym_assert(p && inBlock((char*)p, sizeof(Obj)), "served");
            reg(p);
        } else if (x.get_memory_resource()) {
            uint64_t n = sym_range("n", 0, 60);
            char* p = (char*)x.get_memory_resource()->allocate(n, 8);
            sym_assert(p && inBlock(p, n), "served");
        }
    };
    for (unsigned i = 0; i < K; i++) step(*a);
    uint64_t space = a->SpaceAllocated(), rem = a->SpaceRemains();
    auto* res = a->get_memory_resource();
    uint64_t cl = a->cleanups();
    unsigned before = nblk;
    nev = 0;
    Arena* b = new Arena(std::move(*a));
    sym_assert(nev == 0 && nblk == before && ndealloc == 0, "moving neither allocates nor releases nor reports");
    sym_assert(b->SpaceAllocated() == space && b->SpaceRemains() == rem && b->cleanups() == cl, "accounting and cleanups move along");
    sym_assert(a->SpaceAllocated() == 0 && a->SpaceRemains() == 0 && a->cleanups() == 0, "the moved-from arena holds nothing");
    sym_assert(b->get_memory_resource() == res && res->get_arena() == b, "the resource belongs to the new arena");
    if (firstDies) { delete a; a = nullptr; sym_assert(ndealloc == 0 && nran == 0, "destroying the moved-from arena releases nothing"); }
    // the resource users hold serves from the same block
    uint64_t n = sym_range("via resource", 0, 100);
    unsigned b0 = nblk;
    char* p = (char*)res->allocate(n, 8);
    sym_assert(p && inBlock(p, n), "the resource still serves");
    sym_assert((nblk == b0) == (n <= rem && before > 0), "from the same block as long as it fits");
    sym_assert(b->SpaceAllocated() == liveBytes(), "and accounts in the new arena");
    for (unsigned i = 0; i + 1 < K; i++) step(*b);
    if (sym_bool("reset")) {
        beginCleanup();
        nev = 0;
        uint64_t s = b->SpaceAllocated();
        b->Reset();
        endCleanup();
        sym_assert(!onR || (nev >= 1 && ev[nev - 1].kind == 1 && ev[nev - 1].cookie == theCookie && ev[nev - 1].a == s), "reset hook gets the cookie");
        sym_cover("reset");
    }
    beginCleanup();
    nev = 0;
    uint64_t s = b->SpaceAllocated();
    delete b;
    endCleanup();
    sym_assert(onD ? nev == 1 && ev[0].kind == 4 && ev[0].cookie == theCookie && ev[0].a == s && ev[0].arena == b : nev == 0, "destruction hook of the new arena gets the cookie");
    sym_assert(liveBlocks() == 0 && !badDealloc, "every block released once");
    nev = 0;
    if (a) delete a;
    for (unsigned i = 0; i < nev; i++) sym_assert(ev[i].cookie == theCookie, "no hook runs without its cookie");
    sym_assert(ndealloc == nblk && !badDealloc, "nothing released twice");
    sym_assert(sym_heap_objects() == 0, "nothing leaked");
    sym_assert(ninit == 1, "init hook ran once");
    sym_cover("done");
}

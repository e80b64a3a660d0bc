// C02: failures come back as null, leave nothing half done, and the Arena stays usable.
#include "arena_env.h"
using namespace env;
static unsigned objLive, objMade;
struct Counted {
    ArenaFullManagedTag;
    uint64_t v;
    explicit Counted(uint64_t x) : v(x) { objLive++; objMade++; }
    ~Counted() { objLive--; sym_assert(v == 77, "destroyed object is intact"); }
};
struct Own { uint64_t v = 5; };
static unsigned cbRan;
static void count(void*) { cbRan++; }

static void run(unsigned K, bool wide) {
    region = wide ? 1024 : 0;
    Arena::Options o = opts(64, 512, sym_choose("init", 0, 1) ? 104 : 64);
    hooks(o);
    failMode = 1;
    unsigned expectCb = 0;
    char* kept = nullptr;
    {
        Arena a(o);
        unsigned op = 0;
        for (unsigned i = 0; i < K; i++) {
            op = (unsigned)(i == 0 ? sym_choose("op0", 0, wide ? 2 : 4) : sym_pick("op", 0, wide ? 2 : 4));
            uint64_t space = a.SpaceAllocated();
            unsigned e0 = nev, b0 = nblk, live0 = objLive;
            uint64_t c0 = a.cleanups();
            bool ok = false;
            unsigned allocs = 0;
            if (op == 0) {
                uint64_t n = wide ? sym_u64("n") : sym_range("n", 0, 100);
                char* p = a.AllocateAligned(n, 8ULL << (wide ? sym_pick("al", 0, 2) : 0));
                ok = p != nullptr;
                if (ok) sym_assert(inBlock(p, n), "a non-null region is as large as requested");
                if (ok && !kept && !wide && n >= 8) { kept = p; *(uint64_t*)p = 0x1122334455667788ULL; }
            } else if (op == 1) {
                uint64_t n = wide ? sym_u64("n") : sym_range("n", 0, 100);
                char* p = a.AllocateAlignedAndAddCleanup(n, &count);
                ok = p != nullptr;
                if (ok) { sym_assert(inBlock(p, n), "a non-null region is as large as requested"); expectCb++; }
                sym_assert(a.cleanups() == c0 + ok, "a cleanup is registered exactly on success");
            } else if (op == 2) {
                if (wide) {
                    uint64_t n = sym_u64("count");
                    // the element loop is bounded here: only counts that must fail or stay small
                    sym_assume(n <= 3 || n > 200);
                    Pod* p = a.CreateArray<Pod>(n);
                    ok = p != nullptr;
                    sym_assert(!ok || n <= 3, "an array larger than any block is refused");
                    if (ok) { sym_assert(inBlock((char*)p, n * sizeof(Pod)), "array region is large enough"); }
                } else {
                    uint64_t n = sym_range("count", 0, 5);
                    Pod* p = a.CreateArray<Pod>(n);
                    ok = p != nullptr;
                    if (ok) sym_assert(inBlock((char*)p, n * sizeof(Pod)), "array region is large enough");
                }
            } else if (op == 3) {
                Counted* p = a.Create<Counted>((uint64_t)77);
                ok = p != nullptr;
                sym_assert(objLive == live0 + ok, "no object exists after a failed Create");
                sym_assert(a.cleanups() == c0 + ok, "a destructor is registered exactly on success");
            } else {
                static Own own;
                struct D { static void del(void*) {} };
                Own* h = new Own;
                ok = a.Own(h);
                if (!ok) delete h;
                sym_assert(a.cleanups() == c0 + ok, "Own registers exactly on success");
            }
            for (unsigned k = e0; k < nev; k++) if (ev[k].kind == 2) allocs++;
            sym_assert(allocs == (ok && op != 4 ? 1u : 0u), "exactly the successful allocations are counted");
            if (nblk == b0) sym_assert(a.SpaceAllocated() == space, "no space is accounted without a block");
            if (!ok) sym_cover("failed");
            else sym_cover("served");
            if (!ok && op == 3 && objMade) sym_cover("create failed late");
        }
        failMode = 0;
        char* q = a.AllocateAligned(48);
        sym_assert(q != nullptr && inBlock(q, 48), "a request that can be satisfied is served after failures");
        if (kept) sym_assert(*(uint64_t*)kept == 0x1122334455667788ULL, "earlier regions stay intact");
    }
    sym_assert(objLive == 0, "every created object was destroyed");
    sym_assert(cbRan == expectCb, "exactly the accepted cleanups ran");
    sym_assert(liveBlocks() == 0 && !badDealloc, "blocks released once");
    if (!wide) sym_assert(sym_heap_objects() == 0, "nothing leaked");
}
ENTRY(c02_history) { run((unsigned)sym_param("K", 3), false); }
ENTRY(c02_any_size) { run((unsigned)sym_param("K", 2), true); }
// the arena's own memory_resource cannot be allocated
ENTRY(c02_init) {
    Arena::Options o = opts(64, 512, 64);
    if (sym_bool("nolog")) o.logger_func = nullptr;
    region = 1024;
    sym_alloc_fail(1);
    {
        Arena a(o);
        sym_alloc_fail(0);
        uint64_t n = sym_range("n", 0, 900);
        char* p = a.AllocateAligned(n);
        sym_assert(p != nullptr && inBlock(p, n), "allocation works without the resource");
        sym_cover("done");
    }
    sym_assert(liveBlocks() == 0 && sym_heap_objects() == 0, "all released");
}

// C03: every accepted cleanup runs exactly once, newest first, while the arena's memory is alive.
#include "arena_env.h"
using namespace env;
static char outside[8];
ENTRY(c03_history) {
    unsigned K = (unsigned)sym_param("K", 3);
    region = 512;
    uint64_t cfg = sym_choose("cfg", 0, 1);
    Arena::Options o = cfg ? opts(128, 512, 64) : opts(256, 512, 256);
    unsigned resets = 0;
    {
        Arena a(o);
        for (unsigned i = 0; i < K; i++) {
            unsigned op = (unsigned)(i == 0 ? sym_choose("op0", 0, 4) : sym_pick("op", 0, 4));
            if (op == 0) {
                uint64_t n = sym_range("n", 0, 95);
                char* p = a.AllocateAligned(n);
                sym_assert(p != nullptr, "served");
            } else if (op == 1) {
                uint64_t n = sym_range("n", 0, 95);
                bool own = sym_bool("own element");
                char* p = a.AllocateAlignedAndAddCleanup(n, &cb, own ? outside + i : nullptr);
                sym_assert(p != nullptr, "served");
                reg(own ? (void*)(outside + i) : (void*)p);
            } else if (op == 2) {
                Obj* p = a.Create<Obj>();
                sym_assert(p != nullptr, "served");
                reg(p);
            } else if (op == 3) {
                Owned* p = new Owned;
                bool ok = a.Own(p);
                sym_assert(ok, "owned");
                reg(p);
            } else {
                if (nwant > 1) sym_cover("reset with cleanups");
                if (liveBlocks() > 1 && nwant) sym_cover("reset across blocks");
                beginCleanup();
                a.Reset();
                endCleanup();
                resets++;
            }
        }
        if (liveBlocks() > 1 && nwant > 1) sym_cover("destroyed across blocks");
        if (resets && nwant) sym_cover("destroyed after reset");
        beginCleanup();
    }
    endCleanup();
    sym_assert(sym_heap_objects() == 0, "owned objects deleted, blocks released");
}
// block sizes that are no multiple of the word size
ENTRY(c03_odd_blocks) {
    region = 512;
    uint64_t init = sym_range("init", 1, 200), normal = sym_range("normal", 40, 103);
    Arena::Options o = opts(normal, 512, init);
    {
        Arena a(o);
        for (unsigned i = 0; i < 2; i++) {
            char* p = a.AllocateAlignedAndAddCleanup(sym_pick("n", 0, 1) * 64, &cb);
            sym_assert(p != nullptr, "served");
            reg(p);
        }
        sym_cover("two");
        beginCleanup();
    }
    endCleanup();
}
// cleanups that use arena memory handed out after their registration
struct Watch {
    ArenaFullManagedTag;
    char* other = nullptr;
    uint64_t seen = 0;
    static uint64_t total;
    ~Watch() { if (other) total += *other; }
};
uint64_t Watch::total = 0;
ENTRY(c03_uses_memory) {
    Arena::Options o = opts(128, 512, 128);
    bool reset = sym_bool("reset");
    uint8_t v = sym_u8("v");
    {
        Arena a(o);
        Watch* w = a.Create<Watch>();
        uint64_t n = sym_range("n", 1, 200);
        char* p = a.AllocateAligned(n);
        w->other = p;
        *p = (char)v;
        if (nblk > 1) sym_cover("newer block"); else sym_cover("same block");
        if (reset) {
            a.Reset();
            sym_assert(Watch::total == (uint64_t)(int64_t)(char)v, "the cleanup saw the memory it was given");
        }
    }
    sym_assert(Watch::total == (uint64_t)(int64_t)(char)v, "the cleanup saw the memory it was given");
}

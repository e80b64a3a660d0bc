// C01: arena allocations are in bounds, disjoint, aligned and keep their contents.
#include "arena_env.h"
using namespace env;

struct Got { char* p; uint64_t n; };

static void checkNew(Got* g, unsigned k) {
    sym_assert(inBlock(g[k].p, g[k].n), "allocation lies inside a block obtained from block_alloc, behind its header");
    for (unsigned i = 0; i < k; i++) sym_assert(disjoint(g[i].p, g[i].n, g[k].p, g[k].n), "allocation overlaps no earlier allocation");
}

static void sizes(unsigned K, bool wide) {
    region = 1024;
    skew = sym_choose("skew", 0, 1) * 16;
    failMode = 0;
    Arena::Options o = pickOpts();
    {
        Arena a(o);
        Got g[8];
        unsigned k = 0;
        for (unsigned i = 0; i < K; i++) {
            uint64_t n = wide ? sym_u64("bytes") : sym_range("bytes", 0, 1023);
            uint64_t al = 8ULL << sym_pick("align", 0, 2);
            char* p = a.AllocateAligned(n, al);
            if (p == nullptr) { sym_cover("refused"); continue; }
            sym_assert((sym_addr(p) & (al - 1)) == 0, "allocation has the requested alignment");
            g[k] = Got{p, n};
            checkNew(g, k);
            k++;
            if (liveBlocks() > 1) sym_cover("second block");
        }
        if (k == K) sym_cover("all served");
    }
    sym_assert(liveBlocks() == 0 && !badDealloc, "every block released once");
}
// any 64-bit request size, alignments 8/16/32, blocks at either 16-byte phase modulo 32
ENTRY(c01_any_size) { sizes((unsigned)sym_param("K", 2), true); }
// longer histories, sizes below 1 KiB
ENTRY(c01_history) { sizes((unsigned)sym_param("K", 3), false); }

// every way of taking memory and of registering cleanups, with sizes that fill a block up to 0, 8 or 16 bytes: whatever the owner
// of a region writes to it stays there, and the arena's own records survive
struct Live { char* p; uint64_t n; unsigned char v; };
static Live live[8];
static unsigned nlive;
static bool intact() {
    bool r = true;
    for (unsigned k = 0; k < nlive; k++) for (uint64_t i = 0; i < live[k].n; i++) r &= (unsigned char)live[k].p[i] == live[k].v;
    return r;
}
static void take(char* p, uint64_t n, uint64_t al) {
    if (!p) return;
    sym_assert((sym_addr(p) & (al - 1)) == 0, "the region has the requested alignment");
    sym_assert(inBlock(p, n), "the region lies inside one block obtained from block_alloc, behind its header");
    for (unsigned i = 0; i < nlive; i++) sym_assert(disjoint(live[i].p, live[i].n, p, n), "the region overlaps no earlier one");
    live[nlive] = Live{p, n, sym_u8("written")};
    memset(p, live[nlive].v, n);
    nlive++;
}
static uint64_t pickSize(Arena& a) {
    uint64_t k = sym_pick("size", 0, 3), rest = a.SpaceRemains();
    if (k == 0) return 20;
    if (rest < 8 * (k - 1)) { sym_assume(false); }
    return rest - 8 * (k - 1);
}
ENTRY(c01_mixed) {
    unsigned K = (unsigned)sym_param("K", 3);
    region = 0;
    skew = sym_pick("skew", 0, 1) * 16;
    failMode = 0;
    Arena::Options o = pickOpts();
    {
        Arena a(o);
        for (unsigned i = 0; i < K; i++) {
            unsigned op = (unsigned)sym_choose(i == 0 ? "op0" : i == 1 ? "op1" : "op", 0, 6);
            if (op == 0) { uint64_t n = pickSize(a), al = sym_pick("align", 0, 1) ? 8 : 32; take(a.AllocateAligned(n, al), n, al); }
            else if (op == 1) {
                uint64_t n = pickSize(a);
                char* p = a.AllocateAlignedAndAddCleanup(n, &cb);
                if (p) reg(p);
                take(p, n, 8);
            } else if (op == 2) { Obj* p = a.Create<Obj>(); if (p) reg(p); take((char*)p, sizeof(Obj), alignof(Obj)); }
            else if (op == 3) { uint64_t n = sym_pick("count", 0, 2); take((char*)a.CreateArray<Pod>(n), n * sizeof(Pod), alignof(Pod)); }
            else if (op == 4) { Owned* p = new Owned{1}; if (a.Own(p)) reg(p); else { reg(p); beginCleanup(); delete p; endCleanup(); } sym_cover("own"); }
            else if (op == 5) { uint64_t n = pickSize(a), al = sym_pick("align", 0, 1) ? 16 : 32; take((char*)a.get_memory_resource()->allocate(n, al), n, al); }
            else {
                sym_assert(intact(), "everything written to the regions is still there");
                beginCleanup(); a.Reset(); endCleanup();
                nlive = 0;
                sym_cover("reset");
            }
            if (liveBlocks() > 1) sym_cover("second block");
            sym_assert(intact(), "everything written to the regions is still there");
        }
        beginCleanup();
    }
    endCleanup();
    sym_assert(liveBlocks() == 0 && !badDealloc, "every block released once");
}

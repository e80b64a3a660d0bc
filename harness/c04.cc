// C04: blocks are released exactly once; Reset keeps and reuses the first.
#include "arena_env.h"
using namespace env;
struct Owned2 { int v = 0; ~Owned2() {} };
static void history(unsigned K, bool fails) {
    region = 512;
    failMode = fails;   // each block may be refused
    uint64_t cfg = sym_choose("cfg", 0, 1);
    Arena::Options o = cfg ? opts(128, 512, 64) : opts(256, 512, 256);
    {
        Arena a(o);
        bool touched = false;
        for (unsigned i = 0; i < K; i++) {
            unsigned op = (unsigned)(i == 0 ? sym_choose("op0", 0, 3) : sym_pick("op", 0, 3));
            if (op == 3) {
                unsigned l = liveBlocks(), d = ndealloc;
                char* first = nullptr;
                for (unsigned k = 0; k < nblk && !first; k++) if (blks[k].live) first = blks[k].base;
                a.Reset();
                sym_assert(liveBlocks() == (l ? 1u : 0u), "Reset keeps exactly one block");
                sym_assert(ndealloc - d == (l ? l - 1 : 0u), "Reset releases the others");
                if (first) {
                    bool kept = false;
                    for (unsigned k = 0; k < nblk; k++) if (blks[k].base == first) kept |= blks[k].live;
                    sym_assert(kept, "the first block is the one kept");
                }
                if (l > 1) sym_cover("reset releases");
                if (!l) sym_cover("reset of an empty arena");
            } else if (op == 0) {
                (void)!a.AllocateAligned(sym_range("n", 0, 400));
                touched = true;
            } else if (op == 1) {
                (void)!a.AllocateAlignedAndAddCleanup(sym_range("n", 0, 120), [](void*) {});
                touched = true;
            } else {
                if (fails) {
                    Owned2* q = new Owned2;
                    if (!a.Own(q)) { delete q; sym_cover("own refused"); }
                } else (void)!a.Create<Pod>();
                touched = true;
            }
            sym_assert(!badDealloc, "only block addresses are released");
        }
        if (!touched) { sym_assert(nblk == 0 && ncalls == 0, "an arena that allocated nothing asked for no block"); sym_cover("unused"); }
        sym_assert(ndealloc + liveBlocks() == nblk, "no block released early");
    }
    sym_assert(liveBlocks() == 0 && ndealloc == nblk && !badDealloc, "every block released exactly once");
}
ENTRY(c04_history) { history((unsigned)sym_param("K", 4), false); }
ENTRY(c04_refused) { history((unsigned)sym_param("K", 3), true); }
// after Reset the same requests are served from the same places
ENTRY(c04_reuse) {
    unsigned K = (unsigned)sym_param("K", 3);
    region = 512;
    Arena::Options o = opts(256, 512, 256);
    struct R { int op; uint64_t n; char* p; } r[4];
    {
        Arena a(o);
        for (unsigned i = 0; i < K; i++) {
            r[i].op = (int)sym_pick("op", 0, 1);
            r[i].n = sym_range("n", 0, 255);
            r[i].p = r[i].op ? a.AllocateAlignedAndAddCleanup(r[i].n, [](void*) {}) : a.AllocateAligned(r[i].n);
            sym_assert(r[i].p != nullptr, "served");
        }
        char* base = blks[0].base;
        uint64_t size0 = blks[0].size;
        unsigned upto = 0;
        bool clean = true;
        // the leading requests that were served, cleanup included, by the first block
        unsigned nb = nblk;
        a.Reset();
        sym_assert(liveBlocks() == 1 && blks[0].live, "one block left");
        unsigned b1 = nblk;
        for (unsigned i = 0; i < K && clean; i++) {
            char* p = r[i].op ? a.AllocateAlignedAndAddCleanup(r[i].n, [](void*) {}) : a.AllocateAligned(r[i].n);
            uint64_t off = (uint64_t)r[i].p - (uint64_t)base;
            if (off < size0) sym_assert(p == r[i].p, "the first block is reused from its beginning");
            if (nb == 1) sym_assert(nblk == b1, "no new block for what fitted");
            else if (nblk > b1) clean = false;
            upto++;
        }
        sym_cover(nb == 1 ? "all fitted" : "more blocks");
    }
    sym_assert(liveBlocks() == 0 && !badDealloc, "released");
}

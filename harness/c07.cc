// C07: check(p) classifies every address.
#include "arena_env.h"
using namespace env;
struct R { char* p; uint64_t n; };
ENTRY(c07_check) {
    unsigned K = (unsigned)sym_param("K", 3);
    region = 512;
    uint64_t cfg = sym_choose("cfg", 0, 1);
    Arena::Options o = cfg ? opts(128, 512, 64) : opts(256, 512, 256);
    Arena a(o);
    R r[6];
    unsigned nr = 0;
    uint64_t end[16], nodes[16];   // per block: end of the used part, cleanup records
    for (unsigned i = 0; i < 16; i++) { end[i] = kBlockHeaderSize; nodes[i] = 0; }
    for (unsigned i = 0; i < K; i++) {
        unsigned op = (unsigned)(i == 0 ? sym_choose("op0", 0, 2) : i == 1 ? sym_choose("op1", 0, 2) : sym_pick("op", 0, 2));
        if (op == 2) {
            a.Reset();
            nr = 0;
            for (unsigned k = 0; k < 16; k++) { end[k] = kBlockHeaderSize; nodes[k] = 0; }
            sym_cover("reset");
            continue;
        }
        uint64_t n = sym_range("n", 0, 127);
        unsigned b0 = nblk;
        uint64_t rem = a.SpaceRemains();
        char* p = op ? a.AllocateAlignedAndAddCleanup(n, [](void*) {}) : a.AllocateAligned(n);
        sym_assert(p != nullptr, "served");
        r[nr++] = R{p, n};
        // the block it is in
        unsigned in = nblk;
        for (unsigned k = 0; k < nblk; k++) {
            uint64_t off = (uint64_t)p - (uint64_t)blks[k].base;
            if (blks[k].live && off < 512) { end[k] = off + ((n + 7) & ~7ULL); in = k; }
        }
        sym_assert(in < nblk, "in some block");
        unsigned newest = nblk - 1;
        while (newest && !blks[newest].live) newest--;
        if (op) nodes[newest]++;      // the record goes into the newest block
        if (op && nblk != b0) sym_cover("cleanup after growth");
        if (op && nblk == b0 && b0) sym_cover("cleanup in place");
        (void)rem;
    }
    if (!nr && nblk == 0) { sym_assert(a.check((char*)sym_u64("q")) == ArenaContainStatus::NotContain, "an arena without blocks contains nothing"); sym_cover("empty"); return; }
    // one address relative to one block
    unsigned k = (unsigned)sym_pick("block", 0, nblk - 1);
    uint64_t off = sym_u64("offset");
    ArenaContainStatus st = a.check(blks[k].base + off);
    uint64_t limit = blks[k].size - 16 * nodes[k];
    if (blks[k].live && off < blks[k].size) {
        sym_observe((uint64_t)st);
        ArenaContainStatus want = off < kBlockHeaderSize ? ArenaContainStatus::BlockHeader : off < end[k] ? ArenaContainStatus::BlockUsed
                                  : off < limit ? ArenaContainStatus::BlockUnUsed : ArenaContainStatus::BlockCleanup;
        sym_assert(st == want, "address inside a block is classified by what lies there");
        if (want == ArenaContainStatus::BlockCleanup) sym_cover("cleanup");
        if (want == ArenaContainStatus::BlockUsed) sym_cover("used");
        if (want == ArenaContainStatus::BlockUnUsed) sym_cover("unused");
    } else {
        bool other = false;
        for (unsigned j = 0; j < nblk; j++) other |= blks[j].live & (((uint64_t)blks[k].base + off - (uint64_t)blks[j].base) < blks[j].size);
        sym_assert(other | (st == ArenaContainStatus::NotContain), "address outside every block is not contained");
        sym_cover("outside");
    }
}

// C05: accounting and hooks.
#include "arena_env.h"
using namespace env;
ENTRY(c05_history) {
    unsigned K = (unsigned)sym_param("K", 3);
    region = 1024;
    uint64_t cfg = sym_choose("cfg", 0, 2);
    Arena::Options o = cfg == 0 ? opts(256, 1024, 256) : cfg == 1 ? opts(128, 512, 64) : opts(64, 1024, 100);
    hooks(o);
    Arena* self;
    uint64_t rem[16] = {};     // space left in each block of the chain
    unsigned chain = 0;        // blocks held
    uint64_t held = 0, wasted = 0;
    {
        Arena a(o);
        self = &a;
        sym_assert(nev == 1 && ev[0].kind == 0 && ev[0].arena == &a, "init hook called once");
        sym_assert(a.SpaceAllocated() == 0, "a fresh arena holds nothing");
        nev = 0;
        for (unsigned i = 0; i < K; i++) {
            unsigned op = (unsigned)(i == 0 ? sym_choose("op0", 0, 5) : sym_pick("op", 0, 5));
            unsigned b0 = nblk;
            uint64_t need1 = 0, bytes = 0;
            const std::type_info* ty = nullptr;
            bool allocHook = true, ok = true, cleanup = false, reset = false;
            uint64_t r0 = a.SpaceRemains();
            sym_assert(r0 == (chain ? rem[chain - 1] : 0), "SpaceRemains is the space left in the current block");
            if (op == 0) {
                uint64_t n = sym_range("n", 0, 511);
                ok = a.AllocateAligned(n) != nullptr;
                bytes = n;
            } else if (op == 1) {
                uint64_t n = sym_range("n", 0, 255);
                ok = a.AllocateAlignedAndAddCleanup(n, [](void*) {}) != nullptr;
                bytes = n;
                cleanup = true;
            } else if (op == 2) {
                ok = a.Create<Pod>() != nullptr;
                bytes = sizeof(Pod);
                ty = &typeid(Pod);
            } else if (op == 3) {
                uint64_t n = sym_pick("count", 0, 3);
                ok = a.CreateArray<uint64_t>(n) != nullptr;
                bytes = 8 * n;
                ty = &typeid(uint64_t);
            } else if (op == 4) {
                struct Q { ~Q() {} };
                static Q q;
                ok = a.AllocateAlignedAndAddCleanup(0, [](void*) {}, &q) != nullptr;
                bytes = 0;
                cleanup = true;
            } else {
                reset = true;
                uint64_t before = a.SpaceAllocated();
                uint64_t ret = a.Reset();
                sym_assert(ret == before && before == held, "Reset returns the space held before");
                uint64_t w = 0;
                for (unsigned k = 0; k < chain; k++) w += rem[k];
                sym_assert(nev == 1 && ev[0].kind == 1 && ev[0].cookie == theCookie && ev[0].arena == &a, "reset hook called once with the cookie");
                sym_assert(ev[0].a == held && ev[0].b == w, "reset hook gets the space held and the space left unused");
                nev = 0;
                if (chain) {
                    if (chain > 1) sym_cover("reset of several blocks");
                    chain = 1;
                    held = liveBytes();
                    rem[0] = held - kBlockHeaderSize;
                }
            }
            if (!reset) {
                sym_assert(ok, "served");
                need1 = (bytes + 7) & ~7ULL;
                // every new block is announced, in order, before the allocation is
                unsigned k = 0;
                for (unsigned b = b0; b < nblk; b++) {
                    sym_assert(k < nev && ev[k].kind == 3 && ev[k].cookie == theCookie, "new block announced once");
                    sym_assert(ev[k].a == chain && ev[k].b == blks[b].size, "with its index in the chain and its size");
                    chain++;
                    held += blks[b].size;
                    k++;
                }
                sym_assert(k + 1 == nev && ev[k].kind == 2 && ev[k].cookie == theCookie, "allocation announced once");
                sym_assert(ev[k].a == bytes && ev[k].type == ty, "with the requested size and type");
                nev = 0;
                sym_assert(chain > 0, "some block holds it");
                // which block serves the request and which the cleanup record
                if (nblk == b0) {
                    sym_assert(need1 + (cleanup ? 16 : 0) <= r0, "no new block only if the current one has the space");
                    rem[chain - 1] = r0 - need1 - (cleanup ? 16 : 0);
                } else if (nblk == b0 + 2) {
                    rem[chain - 2] = blks[nblk - 2].size - kBlockHeaderSize - need1;
                    rem[chain - 1] = blks[nblk - 1].size - kBlockHeaderSize - 16;
                    sym_assert(cleanup && (chain == 2 || need1 > r0) && rem[chain - 2] < 16, "two new blocks only when the first cannot take the cleanup record");
                    sym_cover("cleanup in its own block");
                } else if (chain == 1 || need1 > r0) {
                    rem[chain - 1] = blks[nblk - 1].size - kBlockHeaderSize - need1 - (cleanup ? 16 : 0);
                    sym_assert(need1 + (cleanup ? 16 : 0) <= blks[nblk - 1].size - kBlockHeaderSize, "new block large enough");
                    if (chain > 1) sym_cover("second block");
                } else {
                    // the request fitted, its cleanup record did not
                    sym_assert(cleanup && need1 <= r0 && r0 - need1 < 16, "a new block only when the current one lacks the space");
                    rem[chain - 2] = r0 - need1;
                    rem[chain - 1] = blks[nblk - 1].size - kBlockHeaderSize - 16;
                    sym_cover("cleanup moves on");
                }
            }
            sym_assert(a.SpaceAllocated() == held && held == liveBytes(), "SpaceAllocated is the size of the blocks held");
            sym_assert(a.SpaceRemains() == (chain ? rem[chain - 1] : 0), "SpaceRemains is the space left in the current block");
        }
        for (unsigned k = 0; k < chain; k++) wasted += rem[k];
        nev = 0;
    }
    sym_assert(nev == 1 && ev[0].kind == 4 && ev[0].cookie == theCookie && ev[0].arena == self, "destruction hook called once with the cookie");
    sym_assert(ev[0].a == held && ev[0].b == wasted, "destruction hook gets the space held and the space left unused");
    sym_cover("destroyed");
}
// SpaceRemains is what can still be served without a new block
ENTRY(c05_remains) {
    region = 1024;
    Arena::Options o = opts(128, 512, sym_pick("init", 0, 1) ? 100 : 256);
    {
        Arena a(o);
        (void)!a.AllocateAligned(sym_range("n", 0, 200));
        if (sym_bool("c")) (void)!a.AllocateAlignedAndAddCleanup(sym_range("n", 0, 60), [](void*) {});
        uint64_t r = a.SpaceRemains();
        uint64_t n = sym_range("m", 0, 400);
        unsigned b = nblk;
        (void)!a.AllocateAligned(n);
        bool grew = nblk != b;
        sym_assert(grew == (n > r), "a request up to SpaceRemains needs no new block, a larger one does");
        sym_assert(r % 8 == 0, "SpaceRemains is a multiple of the word size");
        sym_cover(grew ? "grew" : "fitted");
    }
}

// any subset of the hooks: each installed one is told, with the same arguments as when all are
ENTRY(c05_subset) {
    region = 1024;
    Arena::Options o = opts(128, 512, 64);
    hooks(o);
    unsigned mask = (unsigned)sym_pick("mask", 0, 31);
    if (!(mask & 1)) o.on_arena_init = nullptr;
    if (!(mask & 2)) o.on_arena_reset = nullptr;
    if (!(mask & 4)) o.on_arena_allocation = nullptr;
    if (!(mask & 8)) o.on_arena_newblock = nullptr;
    if (!(mask & 16)) o.on_arena_destruction = nullptr;
    void* cookie = mask & 1 ? theCookie : nullptr;
    uint64_t n = sym_range("n", 0, 255), m = sym_range("m", 0, 255);
    bool withReset = sym_pick("reset", 0, 1);
    unsigned count[5] = {};
    {
        Arena a(o);
        (void)!a.AllocateAligned(n);
        if (sym_pick("cleanup", 0, 1)) (void)!a.AllocateAlignedAndAddCleanup(m, [](void*) {}); else (void)!a.Create<Pod>();
        unsigned blocks = nblk;
        uint64_t held = liveBytes();
        if (withReset) a.Reset();
        for (unsigned i = 0; i < nev; i++) {
            count[ev[i].kind]++;
            sym_assert(ev[i].kind == 0 || ev[i].cookie == cookie, "every hook gets the cookie");
            if (ev[i].kind == 3) sym_assert(ev[i].a + 1 == count[3] && ev[i].b == blks[ev[i].a].size, "blocks are announced in order with their size");
            if (ev[i].kind == 1) sym_assert(ev[i].a == held, "the reset hook gets the space held");
        }
        sym_assert(count[0] == (mask & 1), "init hook");
        sym_assert(count[1] == (withReset && (mask & 2) ? 1 : 0), "reset hook");
        sym_assert(count[2] == (mask & 4 ? 2 : 0), "allocation hook");
        sym_assert(count[3] == (mask & 8 ? blocks : 0), "new block hook");
        sym_assert(count[4] == 0, "destruction hook not yet");
        nev = 0;
    }
    sym_assert(nev == (mask & 16 ? 1 : 0), "destruction hook");
    if (nev) sym_assert(ev[0].kind == 4 && ev[0].cookie == cookie, "destruction hook gets the cookie");
    sym_cover("done");
}
// long chains: several hundred blocks
static uint64_t manyNext, manySum;
static bool manyOk = true;
static void manyHook(uint64_t i, uint64_t n, void*) { manyOk &= i == manyNext; manyNext++; manySum += n; }
ENTRY(c05_many) {
    Arena::Options o{};
    o.normal_block_size = 64; o.huge_block_size = 64; o.suggested_init_block_size = 64;
    o.block_alloc = &malloc;
    o.block_dealloc = &free;
    o.on_arena_newblock = &manyHook;
    unsigned K = (unsigned)sym_param("K", 300);
    uint64_t n = sym_pick("n", 17, 40);
    {
        Arena a(o);
        for (unsigned i = 0; i < K; i++) sym_assert(a.AllocateAligned(n) != nullptr, "served");
        sym_assert(manyNext == K && manyOk, "every block is announced with its index in the chain");
        sym_assert(a.SpaceAllocated() == manySum, "SpaceAllocated is the sum of the announced sizes");
    }
    sym_assert(sym_heap_objects() == 0, "every block released");
    sym_cover("done");
}

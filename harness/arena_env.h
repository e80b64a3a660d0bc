// Shared scaffolding of the arena harnesses: a recording block allocator, hook recorders, a cleanup model.
#pragma once
#include <stdlib.h>
#include <string.h>
#include "arena/arena.hpp"
#include "sym.h"
using stdb::memory::Arena;
using stdb::memory::ArenaContainStatus;
using stdb::memory::kBlockHeaderSize;

namespace env {
struct Blk { char* base; uint64_t size; bool live; void* raw; };
static Blk blks[16];
static unsigned nblk, ndealloc, nfail, ncalls;
static bool badDealloc;
static int failMode;           // 0 never, 1 symbolically, 2 always
static uint64_t region = 0;    // >0: fixed-size regions, symbolic block sizes up to this
static uint64_t skew = 0;      // block address modulo 64
static void* alloc(size_t n) {
    ncalls++;
    if (failMode == 2 || (failMode == 1 && sym_bool("blkfail"))) { nfail++; return nullptr; }
    if (nblk >= 16) { nfail++; return nullptr; }
    void* raw = nullptr;
    char* p;
    if (region) {
        if (n > region) { nfail++; return nullptr; }
        if (posix_memalign(&raw, 64, region + skew)) { nfail++; return nullptr; }
    } else {
        if (n > (1 << 16)) { nfail++; return nullptr; }
        n = sym_concretize(n);
        if (posix_memalign(&raw, 64, n + skew)) { nfail++; return nullptr; }
    }
    p = (char*)raw + skew;
    blks[nblk++] = Blk{p, n, true, raw};
    return p;
}
static void dealloc(void* q) {
    for (unsigned i = 0; i < nblk; i++)
        if (blks[i].live && blks[i].base == (char*)q) { blks[i].live = false; ndealloc++; free(blks[i].raw); return; }
    badDealloc = true;
}
static unsigned liveBlocks() { unsigned k = 0; for (unsigned i = 0; i < nblk; i++) k += blks[i].live; return k; }
static uint64_t liveBytes() { uint64_t k = 0; for (unsigned i = 0; i < nblk; i++) if (blks[i].live) k += blks[i].size; return k; }
// [p,p+n) lies in a live block, behind its header
static bool inBlock(const char* p, uint64_t n) {
    bool r = false;
    for (unsigned i = 0; i < nblk; i++) {
        if (!blks[i].live) continue;
        uint64_t off = (uint64_t)p - (uint64_t)blks[i].base;
        r |= (off >= kBlockHeaderSize) & (off <= blks[i].size) & (n <= blks[i].size - off);
    }
    return r;
}
static bool disjoint(const char* p, uint64_t n, const char* q, uint64_t m) {
    uint64_t a = (uint64_t)p, b = (uint64_t)q;
    return (n == 0) | (m == 0) | (a + n <= b) | (b + m <= a);
}
static void logger(const std::string&) {}
static Arena::Options opts(uint64_t normal, uint64_t huge, uint64_t init) {
    Arena::Options o{};
    o.normal_block_size = normal;
    o.huge_block_size = huge;
    o.suggested_init_block_size = init;
    o.block_alloc = &alloc;
    o.block_dealloc = &dealloc;
    o.logger_func = &logger;
    return o;
}
static Arena::Options pickOpts() {
    static const uint64_t N[4][3] = {{64, 512, 64}, {128, 512, 40}, {64, 256, 200}, {256, 4096, 8}};
    uint64_t k = sym_choose("opts", 0, 3);
    return opts(N[k][0], N[k][1], N[k][2]);
}

// ---- cleanups: a stack of what has been registered and not yet run
static void* want[24];
static unsigned nwant, nran;
static bool mayRun;            // inside Reset or the destructor
static unsigned deallocAt;     // deallocations before Reset / destruction began
static void reg(void* p) { want[nwant++] = p; }
static void ran(void* p) {
    sym_assert(mayRun, "a cleanup runs only in Reset or destruction");
    sym_assert(nwant > 0, "no cleanup runs twice or without being registered");
    nwant--;
    sym_assert(want[nwant] == p, "cleanups run newest first, with the registered argument");
    sym_assert(ndealloc == deallocAt, "cleanups run while all blocks of the arena are alive");
    nran++;
}
static void cb(void* p) { ran(p); }
static void beginCleanup() { mayRun = true; deallocAt = ndealloc; }
static void endCleanup() {
    sym_assert(nwant == 0, "every registered cleanup has run");
    mayRun = false;
}
// objects without state of their own: identity is the address
struct Obj {
    ArenaFullManagedTag;
    char pad[24];
    Obj() {}
    ~Obj() { ran(this); }
};
struct Owned {
    int v;
    ~Owned() { ran(this); }
};
struct Pod { uint64_t a; uint32_t b; };

// ---- hooks
struct Ev { int kind; const std::type_info* type; uint64_t a, b; void* cookie; Arena* arena; };
static Ev ev[40];
static unsigned nev;
static char cookieObj[4];
static void* theCookie = &cookieObj[1];
static unsigned ninit;
static void* onInit(Arena* a, const boost::source_location&) { ninit++; ev[nev++] = Ev{0, nullptr, 0, 0, nullptr, a}; return theCookie; }
static void onReset(Arena* a, void* c, uint64_t used, uint64_t wasted) { ev[nev++] = Ev{1, nullptr, used, wasted, c, a}; }
static void onAlloc(const std::type_info* t, uint64_t n, void* c) { ev[nev++] = Ev{2, t, n, 0, c, nullptr}; }
static void onBlock(uint64_t i, uint64_t n, void* c) { ev[nev++] = Ev{3, nullptr, i, n, c, nullptr}; }
static void* onDestroy(Arena* a, void* c, uint64_t used, uint64_t wasted) { ev[nev++] = Ev{4, nullptr, used, wasted, c, a}; return nullptr; }
static void hooks(Arena::Options& o) {
    o.on_arena_init = &onInit;
    o.on_arena_reset = &onReset;
    o.on_arena_allocation = &onAlloc;
    o.on_arena_newblock = &onBlock;
    o.on_arena_destruction = &onDestroy;
}
}  // namespace env

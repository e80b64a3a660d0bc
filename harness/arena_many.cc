// C01, C03, C04, C09: more allocations, cleanups, blocks and resets than 8 or 16 bits can count.
#include "arena_env.h"
static Arena::Options lots(uint64_t normal, uint64_t init) {
    Arena::Options o{};
    o.normal_block_size = normal;
    o.huge_block_size = 4096;
    o.suggested_init_block_size = init;
    o.block_alloc = &malloc;
    o.block_dealloc = &free;
    o.logger_func = &env::logger;
    return o;
}
static const uint64_t NORMAL[3] = {64, 256, 4096};
// every region keeps what was written to it
ENTRY(c01_many) {
    static struct { unsigned char* p; unsigned n; } got[4096];
    unsigned K = (unsigned)sym_param("K", 400);
    Arena::Options o = lots(NORMAL[sym_choose("block", 0, 2)], sym_pick("init", 0, 1) ? 4096 : 64);
    unsigned size = (unsigned)sym_pick("size", 0, 3), how = (unsigned)sym_pick("how", 0, 2);
    unsigned char key = sym_u8("key");
    {
        Arena a(o);
        for (unsigned i = 0; i < K; i++) {
            unsigned n = size == 0 ? 1 : size == 1 ? 24 : size == 2 ? 1 + i % 40 : i % 50 ? 8 : 5000;
            uint64_t al = 8u << i % 3;
            unsigned char* p = nullptr;
            if (how == 0) p = (unsigned char*)a.AllocateAligned(n, al);
            else if (how == 1) p = (unsigned char*)a.get_memory_resource()->allocate(n, al);
            else { al = 8; p = (unsigned char*)a.AllocateAlignedAndAddCleanup(n, [](void*) {}); }
            sym_assert(p != nullptr && (sym_addr(p) & (al - 1)) == 0, "served as requested");
            got[i].p = p;
            got[i].n = n;
            for (unsigned j = 0; j < n; j += 8) p[j] = (unsigned char)(key ^ (i * 7 + j));
            p[n - 1] = (unsigned char)(key ^ (i + 1));
        }
        bool ok = true;
        for (unsigned i = 0; i < K; i++) {
            for (unsigned j = 0; j + 1 < got[i].n; j += 8) ok &= got[i].p[j] == (unsigned char)(key ^ (i * 7 + j));
            ok &= got[i].p[got[i].n - 1] == (unsigned char)(key ^ (i + 1));
        }
        sym_assert(ok, "everything written to the regions is still there");
        sym_cover("done");
    }
    sym_assert(sym_heap_objects() == 0, "every block released");
}
// cleanups: as many as registered, newest first
static unsigned long pending;
static bool inOrder = true;
static void down(unsigned long k) { inOrder &= k == pending; pending--; }
static void byNumber(void* p) { down((unsigned long)p); }
struct Num { ArenaFullManagedTag; unsigned long k; explicit Num(unsigned long x) : k(x) {} ~Num() { down(k); } };
struct Heap { unsigned long k; explicit Heap(unsigned long x) : k(x) {} ~Heap() { down(k); } };
static void cleanups() {
    unsigned K = (unsigned)sym_param("K", 400);
    Arena::Options o = lots(NORMAL[sym_choose("block", 0, 2)], sym_pick("init", 0, 1) ? 4096 : 64);
    unsigned how = (unsigned)sym_pick("how", 0, 3), size = (unsigned)sym_pick("size", 0, 1) * 40;
    unsigned rounds = K > 30000 ? 1 : (unsigned)sym_pick("rounds", 1, 2);
    {
        Arena a(o);
        for (unsigned r = 0; r < rounds; r++) {
            for (unsigned i = 1; i <= K; i++) {
                unsigned h = how == 3 ? i % 3 : how;
                if (h == 0) sym_assert(a.AllocateAlignedAndAddCleanup(size, &byNumber, (void*)(unsigned long)i) != nullptr, "served");
                else if (h == 1) sym_assert(a.Create<Num>(i) != nullptr, "served");
                else sym_assert(a.Own(new Heap(i)), "owned");
                pending++;
            }
            if (r + 1 < rounds) { a.Reset(); sym_assert(pending == 0, "every cleanup runs at the reset"); sym_cover("reset"); }
        }
    }
    sym_assert(pending == 0, "every cleanup runs");
    sym_assert(inOrder, "newest first, each with its own argument");
    sym_assert(sym_heap_objects() == 0, "owned objects and blocks released");
    sym_cover("done");
}
ENTRY(c03_many) { cleanups(); }
ENTRY(c03_most) { cleanups(); }
// blocks: long chains, many resets
static unsigned long taken, given;
static void* count(size_t n) { taken++; return malloc(n); }
static void uncount(void* p) { given++; free(p); }
ENTRY(c04_many) {
    unsigned K = (unsigned)sym_param("K", 400), R = (unsigned)sym_param("R", 3);
    Arena::Options o = lots(64, 64);
    o.block_alloc = &count;
    o.block_dealloc = &uncount;
    bool deep = sym_choose("deep", 0, 1);
    uint64_t n = sym_pick("n", 17, 40);
    {
        Arena a(o);
        for (unsigned r = 0; r < (deep ? R : K); r++) {
            for (unsigned i = 0; i < (deep ? K : 3); i++) sym_assert(a.AllocateAligned(n) != nullptr, "served");
            sym_assert(taken - given == (deep ? K : 3), "one block for every request");
            a.Reset();
            sym_assert(taken - given == 1 && sym_heap_objects() >= 1, "Reset keeps one block");
        }
    }
    sym_assert(taken == given && sym_heap_objects() == 0, "every block released once");
    sym_cover("done");
}

// C23: one modifier on arena strings longer than 8 or 16 bits can count.
#define ST_MAX 140000
#include "astr_env.h"
#include "sym.h"
ENTRY(c23_long) {
    stdb::memory::Arena::Options o{};
    o.normal_block_size = 4096;
    o.huge_block_size = 1 << 16;
    o.suggested_init_block_size = 4096;
    static unsigned long blocks;
    o.block_alloc = [](size_t n) { blocks++; return malloc(n); };
    o.block_dealloc = [](void* p) { blocks--; free(p); };
    o.logger_func = [](const std::string&) {};
    {
        stdb::memory::Arena a(o);
        st::where = a.get_memory_resource();
        st::no_data = true;
        size_t base = sym_heap_objects() - blocks;
        st::one<st::AS>((size_t)sym_param("N", 1000), (size_t)sym_param("C", 1000));
        sym_assert(sym_heap_objects() - base == blocks, "all memory is the arena's");
    }
}

// The interface between harnesses and the symbolic engine. The same harness compiled natively
// against native.cc replays recorded inputs on the real code.
#pragma once
#include <stddef.h>
#include <stdint.h>
extern "C" {
uint64_t sym_u64(const char* name);
uint32_t sym_u32(const char* name);
uint16_t sym_u16(const char* name);
uint8_t sym_u8(const char* name);
bool sym_bool(const char* name);
void sym_bytes(void* p, size_t n, const char* name);
uint64_t sym_range(const char* name, uint64_t lo, uint64_t hi);  // symbolic
uint64_t sym_pick(const char* name, uint64_t lo, uint64_t hi);   // every value, concretely
uint64_t sym_concretize(uint64_t v);
void sym_assume(bool c);
__attribute__((nomerge)) void sym_assert(bool c, const char* what);
__attribute__((nomerge)) void sym_cover(const char* what);
void sym_observe(uint64_t v);
uint64_t sym_heap_objects();  // live malloc/new objects of the program
uint64_t sym_heap_bytes();
bool sym_mem_ok(const void* p, size_t n);  // [p,p+n) lies inside one live object
void sym_alloc_fail(uint64_t max);         // up to max of the following allocations may fail, any of them
void sym_max_alloc(uint64_t bytes);        // larger requests always fail
void sym_thread(unsigned t);                   // act as thread t (0: not checked); what t allocates belongs to t and may not be touched by others
void sym_give(const void* p, unsigned t);      // the allocation containing p belongs to t from now on
void sym_expect_abort(bool on);                // the program may abort from here on, which ends the path
bool sym_is_engine();
void sym_trace(const char* what, uint64_t v);
}
#define ENTRY(name) extern "C" void name()
extern "C" uint64_t sym_param(const char* name, uint64_t dflt);
// a choice made over all values, or fixed by a job parameter of the same name
// the address, hidden from the compiler: allocation functions are declared to return aligned memory, so it would fold checks of that
static inline uint64_t sym_addr(const void* p) { const void* volatile q = p; return (uint64_t)q; }
static inline uint64_t sym_choose(const char* n, uint64_t lo, uint64_t hi) {
    uint64_t p = sym_param(n, ~0ULL);
    return p == ~0ULL ? sym_pick(n, lo, hi) : p;
}

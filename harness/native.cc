// Native counterpart of the symbolic interface: replays a recorded input sequence.
// usage: prog ENTRY INPUTS [trace]   INPUTS: lines "name width value"
// exit: 0 ran to the end, 42 assertion failed, 43 assumption failed / inputs exhausted, other: crash
#include <dlfcn.h>
#include <errno.h>
#include <malloc.h>
#include <pthread.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <chrono>
#include <exception>
#include <new>
#include "sym.h"

struct In { char name[64]; unsigned w; uint64_t v; };
static In* ins;
static size_t nin, cur;
static FILE* obs;
static uint64_t live, liveBytes, maxAlloc = 1 << 20;
static int64_t failBudget;
static bool trace;

static uint64_t next(const char* n) {
    if (cur >= nin) { fprintf(stderr, "REPLAY: inputs exhausted at %s\n", n); fflush(nullptr); _Exit(43); }
    char want[64];
    size_t k = 0;
    for (; n[k] && k < 63; k++) want[k] = n[k] == ' ' ? '_' : n[k];
    want[k] = 0;
    if (strcmp(ins[cur].name, want) != 0) { fprintf(stderr, "REPLAY: expected input %s, have %s\n", n, ins[cur].name); fflush(nullptr); _Exit(43); }
    return ins[cur++].v;
}
extern "C" {
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void __real_free(void*);
void* __real_aligned_alloc(size_t, size_t);
void* __real__Znwm(size_t);
void* __real__Znam(size_t);
void __real__ZdlPv(void*);
void __real__ZdaPv(void*);

uint64_t sym_u64(const char* n) { return next(n); }
uint32_t sym_u32(const char* n) { return (uint32_t)next(n); }
uint16_t sym_u16(const char* n) { return (uint16_t)next(n); }
uint8_t sym_u8(const char* n) { return (uint8_t)next(n); }
bool sym_bool(const char* n) { return next(n) & 1; }
void sym_bytes(void* p, size_t n, const char* name) { for (size_t i = 0; i < n; i++) ((uint8_t*)p)[i] = (uint8_t)next(name); }
uint64_t sym_range(const char* n, uint64_t lo, uint64_t hi) {
    uint64_t v = next(n);
    if (v < lo || v > hi) { fprintf(stderr, "REPLAY: %s out of range\n", n); _Exit(43); }
    return v;
}
uint64_t sym_pick(const char* n, uint64_t lo, uint64_t hi) { return sym_range(n, lo, hi); }
uint64_t sym_concretize(uint64_t v) { return v; }
uint64_t sym_param(const char* n, uint64_t) { return next(n); }
void sym_assume(bool c) { if (!c) { fprintf(stderr, "REPLAY: assumption failed\n"); fflush(nullptr); _Exit(43); } }
void sym_assert(bool c, const char* what) { if (!c) { fprintf(stderr, "REPLAY: assertion failed: %s\n", what); fflush(nullptr); _Exit(42); } }
void sym_cover(const char*) {}
void sym_observe(uint64_t v) { if (obs) { fprintf(obs, "%llu\n", (unsigned long long)v); fflush(obs); } }
uint64_t sym_heap_objects() { return live; }
uint64_t sym_heap_bytes() { return liveBytes; }
int __asan_address_is_poisoned(void const volatile*) __attribute__((weak));
void* __asan_region_is_poisoned(void*, size_t) __attribute__((weak));
bool sym_mem_ok(const void* p, size_t n) {
    if (!__asan_region_is_poisoned) return true;
    return n == 0 || __asan_region_is_poisoned((void*)p, n) == nullptr;
}
void sym_alloc_fail(uint64_t n) { failBudget = (int64_t)n; }
void sym_max_alloc(uint64_t n) { maxAlloc = n; }
bool sym_is_engine() { return false; }
void sym_trace(const char* w, uint64_t v) { if (trace) fprintf(stderr, "trace %s = %llu\n", w, (unsigned long long)v); }

static bool fails(size_t n) {
    if (n > maxAlloc) return true;
    if (failBudget > 0 && (next("allocfail") & 1)) { failBudget--; return true; }
    return false;
}
// memory by thread: what belongs to another one is poisoned
extern "C" void __asan_poison_memory_region(void const volatile*, size_t) __attribute__((weak));
extern "C" void __asan_unpoison_memory_region(void const volatile*, size_t) __attribute__((weak));
static struct { char* p; size_t n; int owner; } table[4096];
static int tid;
static void mark(int k) {
    if (!table[k].p || !__asan_poison_memory_region) return;
    if (tid && table[k].owner && table[k].owner != tid) __asan_poison_memory_region(table[k].p, table[k].n);
    else __asan_unpoison_memory_region(table[k].p, table[k].n);
}
extern "C" void sym_thread(unsigned t) { tid = (int)t; for (int k = 0; k < 4096; k++) mark(k); }
extern "C" void sym_give(const void* p, unsigned t) {
    for (int k = 0; k < 4096; k++) if (table[k].p && (char*)p >= table[k].p && (char*)p < table[k].p + table[k].n) { table[k].owner = (int)t; mark(k); }
}
extern "C" void sym_expect_abort(bool on) { signal(SIGABRT, on ? [](int) { _Exit(cur == nin ? 0 : 45); } : SIG_DFL); }
extern "C" pthread_t __wrap_pthread_self() { return (pthread_t)(0x1000 + (tid ? tid : 1) * 16); }
static void enter(void* p, size_t n) {
    if (!tid || !p) return;
    for (auto& e : table) if (!e.p) { e.p = (char*)p; e.n = n; e.owner = tid; return; }
}
static void leave(void* p) {
    for (auto& e : table) if (p && e.p == p) {
        if (tid && e.owner && e.owner != tid) { fprintf(stderr, "REPLAY: thread %d frees memory of thread %d\n", tid, e.owner); fflush(nullptr); _Exit(42); }
        e.p = nullptr;
    }
}
static void* got(void* p, size_t n) { if (p) { live++; liveBytes += malloc_usable_size(p); enter(p, n); } return p; }
static void gone(void* p) { leave(p); if (p) { live--; liveBytes -= malloc_usable_size(p); } }
#ifdef WORD_SLACK
#define RND(n) (((n) + 7) & ~(size_t)7)
#else
#define RND(n) (n)
#endif
void* __wrap_malloc(size_t n) { if (fails(n)) return nullptr; return got(__real_malloc(RND(n)), n); }
void* __wrap_calloc(size_t n, size_t m) {
    size_t t;
    if (__builtin_mul_overflow(n, m, &t) || fails(t)) return nullptr;
    return got(__real_calloc(1, RND(t)), t);
}
void* __wrap_realloc(void* p, size_t n) {
    if (fails(n)) return nullptr;
    // always move, so that stale pointers are caught
    gone(p);
    return got(__real_realloc(p, RND(n)), n);
}
void __wrap_free(void* p) { gone(p); __real_free(p); }
int __real_posix_memalign(void**, size_t, size_t);
int __wrap_posix_memalign(void** q, size_t a, size_t n) {
    if (fails(n)) return ENOMEM;
    int r = __real_posix_memalign(q, a, RND(n));
    if (!r) got(*q, n);
    return r;
}
void* __wrap_aligned_alloc(size_t a, size_t n) { if (fails(n)) return nullptr; return got(__real_aligned_alloc(a, RND(n)), n); }
void* __wrap__Znwm(size_t n) { if (fails(n)) throw std::bad_alloc(); return got(__real__Znwm(n), n); }
void* __wrap__Znam(size_t n) { if (fails(n)) throw std::bad_alloc(); return got(__real__Znam(n), n); }
void __wrap__ZdlPv(void* p) { gone(p); __real__ZdlPv(p); }
void __wrap__ZdlPvm(void* p, size_t) { gone(p); __real__ZdlPv(p); }
void __wrap__ZdaPv(void* p) { gone(p); __real__ZdaPv(p); }
void __wrap__ZdaPvm(void* p, size_t) { gone(p); __real__ZdaPv(p); }
// clock: replayed
int64_t __wrap__ZNSt6chrono3_V212steady_clock3nowEv() {
    static uint64_t t = 1000000000ULL;
    t += next("clock");
    return (int64_t)t;
}
}
int main(int argc, char** argv) {
    if (argc < 3) return 99;
    FILE* f = fopen(argv[2], "r");
    if (!f) return 99;
    size_t cap = 4096;
    ins = (In*)malloc(cap * sizeof(In));
    char name[64]; unsigned w; unsigned long long v;
    while (fscanf(f, "%63s %u %llu", name, &w, &v) == 3) {
        if (nin == cap) ins = (In*)realloc(ins, (cap *= 2) * sizeof(In));
        strcpy(ins[nin].name, name);
        ins[nin].w = w;
        ins[nin++].v = v;
    }
    fclose(f);
    if (argc > 3 && strcmp(argv[3], "-")) obs = fopen(argv[3], "w");
    trace = getenv("SYM_TRACE") != nullptr;
    auto fn = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
    if (!fn) { fprintf(stderr, "no entry %s\n", argv[1]); return 99; }
    live = liveBytes = 0;
    try { fn(); }
    catch (std::exception& e) { fprintf(stderr, "REPLAY: uncaught exception %s\n", e.what()); fflush(nullptr); _Exit(44); }
    catch (...) { fprintf(stderr, "REPLAY: uncaught exception\n"); fflush(nullptr); _Exit(44); }
    if (cur != nin) { fprintf(stderr, "REPLAY: %zu inputs left\n", nin - cur); fflush(nullptr); _Exit(45); }
    fflush(nullptr);
    _Exit(0);
}

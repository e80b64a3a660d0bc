// C31: the text of the global metrics shows every counter.
#include "arena_env.h"
#include "arena/metrics.hpp"
using namespace stdb::memory;
typedef std::string Text;
// the lines of the text
static size_t at[64];
static unsigned nline;
static void split(const Text& t) {
    nline = 0;
    at[nline++] = 0;
    for (size_t i = 0; i < t.size(); i++) if (t[i] == '\n') at[nline++] = i + 1;
    at[nline] = t.size() + 1;
}
// the number behind the label
static bool number(const Text& t, unsigned line, const char* label, uint64_t& v) {
    size_t p = at[line], e = at[line + 1] - 1, l = strlen(label);
    if (e - p <= l || memcmp(t.data() + p, label, l)) return false;
    p += l;
    if (t[e - 1] == '%') e--;
    v = 0;
    bool ok = e > p;
    for (; p < e; p++) { ok &= t[p] >= '0' && t[p] <= '9'; v = v * 10 + (uint64_t)(t[p] - '0'); }
    return ok;
}
static const char* const NAME[9] = {"  init_count: ", "  reset_count: ", "  destruct_count: ", "  alloc_count: ", "  newblock_count: ", "  space_allocated: ", "  space_used: ", "  space_wasted: ", "  space_resettled: "};
static const char* const SIZE[8] = {"  le=64: ", "  le=128: ", "  le=256: ", "  le=512: ", "  le=1024: ", "  le=2048: ", "  le=4096: ", "  le=1048576: "};
static const char* const LIFE[8] = {"  le=1ms: ", "  le=5ms: ", "  le=10ms: ", "  le=50ms: ", "  le=100ms: ", "  le=200ms: ", "  le=500ms: ", "  le=1000ms: "};
static const char* const KEY[3] = {"a.cc:7", "b.cc:12", "c.cc:1"};
static void counter(const Text& t, unsigned from, unsigned to, const char* label, uint64_t want) {
    unsigned found = 0;
    for (unsigned i = from; i < to; i++) {
        uint64_t v = 0;
        size_t l = strlen(label);
        if (at[i + 1] - 1 - at[i] < l || memcmp(t.data() + at[i], label, l)) continue;
        found++;
        sym_assert(number(t, i, label, v), "the line is a number");
        sym_assert(v == want, "a line shows its counter's value");
    }
    sym_assert(found == 1, "every counter has its line");
}
static uint64_t share(uint64_t part, uint64_t all) { return all ? part * 100 / all : 0; }
static void check(const GlobalArenaMetrics& g) {
    const Text t = g.string();
    const uint64_t all[9] = {g.init_count, g.reset_count, g.destruct_count, g.alloc_count, g.newblock_count, g.space_allocated, g.space_used, g.space_wasted, g.space_resettled};
    split(t);
    unsigned a = 0, b = 0, c = 0;
    for (unsigned i = 1; i < nline; i++) {
        const char* p = t.data() + at[i];
        if (!strncmp(p, "AllocSize distribution", 22)) a = i;
        else if (!strncmp(p, "Lifetime distribution", 21)) b = i;
        else if (!strncmp(p, "Arena Location/AllocSize", 24)) c = i;
    }
    sym_assert(a && a < b && b < c, "four sections");
    for (unsigned i = 0; i < 9; i++) counter(t, 0, a, NAME[i], all[i]);
    uint64_t sum = 0;
    for (unsigned i = 0; i < 8; i++) { sum += g.alloc_size_bucket_counter[i]; counter(t, a, b, SIZE[i], share(sum, g.alloc_count)); }
    sum = 0;
    for (unsigned i = 0; i < 8; i++) { sum += g.destruct_lifetime_bucket_counter[i]; counter(t, b, c, LIFE[i], share(sum, g.destruct_count)); }
    sym_assert(nline - c - 1 == g.arena_alloc_counter.size(), "one line for every location");
    for (unsigned i = 0; i < 3; i++) {
        auto it = g.arena_alloc_counter.find(KEY[i]);
        if (it == g.arena_alloc_counter.end()) continue;
        counter(t, c, nline, (Text("  ") + KEY[i] + ": ").c_str(), it->second);
    }
}
static const uint64_t V[20] = {0, 1, 9, 10, 11, 99, 100, 255, 256, 999, 1000, 65535, 65536, 4294967295ULL, 4294967296ULL, 9999999999ULL, 999999999999ULL, 9223372036854775808ULL, 9999999999999999999ULL, 18446744073709551615ULL};
// any counter with twenty values of one to twenty digits
ENTRY(c31_counters) {
    GlobalArenaMetrics& g = global_arena_metrics;
    atomic<uint64_t>* f[9] = {&g.init_count, &g.reset_count, &g.destruct_count, &g.alloc_count, &g.newblock_count, &g.space_allocated, &g.space_used, &g.space_wasted, &g.space_resettled};
    for (unsigned i = 0; i < 9; i++) *f[i] = 11 + i;
    unsigned which = (unsigned)sym_choose("which", 0, 9);
    uint64_t v = V[sym_pick("value", 0, 19)];
    unsigned keys = (unsigned)sym_pick("keys", 0, 3);
    for (unsigned i = 0; i < keys; i++) g.arena_alloc_counter[KEY[i]] = 5 + i;
    if (which < 9) *f[which] = v;
    else if (keys) g.arena_alloc_counter[KEY[keys - 1]] = v;
    if (!g.alloc_count) sym_cover("no allocations");
    if (!g.destruct_count) sym_cover("no destructions");
    check(g);
}
// any counter with every value of a range of 256 (of fixed length, so that the text's layout is known)
ENTRY(c31_digits) {
    GlobalArenaMetrics& g = global_arena_metrics;
    atomic<uint64_t>* f[9] = {&g.init_count, &g.reset_count, &g.destruct_count, &g.alloc_count, &g.newblock_count, &g.space_allocated, &g.space_used, &g.space_wasted, &g.space_resettled};
    static const uint64_t BASE[4] = {1024, 1 << 20, 1ULL << 40, 18446744073709551615ULL - 255};
    for (unsigned i = 0; i < 9; i++) *f[i] = 11 + i;
    unsigned which = (unsigned)sym_choose("which", 0, 9);
    uint64_t v = BASE[sym_pick("base", 0, 3)] + sym_u8("v");
    g.arena_alloc_counter[KEY[0]] = which < 9 ? 5 : v;
    if (which < 9) *f[which] = v;
    check(g);
    sym_cover("done");
}
// the distributions: any two buckets of either, any total
ENTRY(c31_shares) {
    GlobalArenaMetrics& g = global_arena_metrics;
    static const uint64_t ALL[7] = {0, 1, 3, 31, 200, 1000000007, 1ULL << 40};
    bool life = sym_choose("life", 0, 1);
    unsigned i = (unsigned)sym_pick("i", 0, 7), j = (unsigned)sym_pick("j", i, 7);
    uint64_t k = sym_choose("all", 0, 6), all = ALL[k], y = all > 1 ? sym_pick("y", 0, 2) : 0, x = sym_u8("x") & sym_param("mask", 15);
    if (k == 5) x *= 10000000;
    if (k == 6) { x <<= 34; y <<= 33; }
    sym_assume(x + y <= all);
    x = sym_concretize(x);
    atomic<uint64_t>* b = life ? g.destruct_lifetime_bucket_counter.data() : g.alloc_size_bucket_counter.data();
    b[i] += x;
    b[j] += y;
    (life ? g.destruct_count : g.alloc_count) = all;
    if (all == 0) sym_cover("none");
    if (x + y < all) sym_cover("some above all bounds");
    check(g);
}
// after events and a reset
ENTRY(c31_events) {
    void* c = metrics_probe_on_arena_init(nullptr, boost::source_location{"a.cc", 7, "f"});
    unsigned n = (unsigned)sym_pick("n", 0, 2);
    for (unsigned i = 0; i < n; i++) metrics_probe_on_arena_allocation(nullptr, sym_pick("size", 0, 3) * 64, c);
    metrics_probe_on_arena_newblock(0, 64, c);
    if (sym_pick("reset", 0, 1)) metrics_probe_on_arena_reset(nullptr, c, 64, sym_pick("w", 0, 1) * 12);
    if (sym_pick("destroyed", 0, 1)) metrics_probe_on_arena_destruction(nullptr, c, 64, 8);
    local_arena_metrics.report_to_global_metrics();
    check(global_arena_metrics);
    if (sym_pick("cleared", 0, 1)) { global_arena_metrics.reset(); check(global_arena_metrics); sym_cover("cleared"); }
}

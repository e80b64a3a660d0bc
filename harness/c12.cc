// C12: reporting conserves every counter.
#include "arena_env.h"
#include "arena/metrics.hpp"
using namespace stdb::memory;
static const char* const KEY[3] = {"a.cc:7", "b.cc:12", "c.cc:1"};
struct Snap {
    uint64_t v[25];
    uint64_t key[3];
};
template <class M> static void set(M& m, const char* who) {
    m.init_count = sym_u64(who); m.destruct_count = sym_u64(who); m.alloc_count = sym_u64(who); m.newblock_count = sym_u64(who); m.reset_count = sym_u64(who);
    m.space_allocated = sym_u64(who); m.space_resettled = sym_u64(who); m.space_used = sym_u64(who); m.space_wasted = sym_u64(who);
    for (unsigned i = 0; i < 8; i++) { m.alloc_size_bucket_counter[i] = sym_u64(who); m.destruct_lifetime_bucket_counter[i] = sym_u64(who); }
}
template <class M> static Snap snap(const M& m) {
    Snap s;
    s.v[0] = m.init_count; s.v[1] = m.destruct_count; s.v[2] = m.alloc_count; s.v[3] = m.newblock_count; s.v[4] = m.reset_count;
    s.v[5] = m.space_allocated; s.v[6] = m.space_resettled; s.v[7] = m.space_used; s.v[8] = m.space_wasted;
    for (unsigned i = 0; i < 8; i++) { s.v[9 + i] = m.alloc_size_bucket_counter[i]; s.v[17 + i] = m.destruct_lifetime_bucket_counter[i]; }
    for (unsigned i = 0; i < 3; i++) { auto it = m.arena_alloc_counter.find(KEY[i]); s.key[i] = it == m.arena_alloc_counter.end() ? 0 : (uint64_t)it->second; }
    return s;
}
ENTRY(c12_report) {
    unsigned K = (unsigned)sym_param("K", 2);
    LocalArenaMetrics& l = local_arena_metrics;
    GlobalArenaMetrics& g = global_arena_metrics;
    set(g, "global");
    for (unsigned i = 0; i < 3; i++) if (sym_pick("gkey", 0, 1)) g.arena_alloc_counter[KEY[i]] = sym_u64("global");
    for (unsigned r = 0; r < K; r++) {
        set(l, "local");
        for (unsigned i = 0; i < 3; i++) if (sym_pick("lkey", 0, 1)) l.arena_alloc_counter[KEY[i]] = sym_u64("local");
        Snap gl = snap(g), lo = snap(l);
        l.report_to_global_metrics();
        Snap g2 = snap(g), l2 = snap(l);
        bool sum = true, clear = true, ks = true, kc = true;
        for (unsigned i = 0; i < 25; i++) { sum &= g2.v[i] == gl.v[i] + lo.v[i]; clear &= l2.v[i] == 0; }
        for (unsigned i = 0; i < 3; i++) { ks &= g2.key[i] == gl.key[i] + lo.key[i]; kc &= l2.key[i] == 0; }
        sym_assert(sum, "each global counter grows by the local one");
        sym_assert(ks, "each location's bytes are added to the global ones");
        sym_assert(clear && kc, "the local metrics are cleared");
        sym_cover("reported");
    }
    if (sym_pick("reset", 0, 1)) {
        g.reset();
        Snap z = snap(g);
        bool clear = true;
        for (unsigned i = 0; i < 25; i++) clear &= z.v[i] == 0;
        for (unsigned i = 0; i < 3; i++) clear &= z.key[i] == 0;
        sym_assert(clear, "reset zeroes every global counter");
        sym_cover("reset");
    }
}
// events, reports and resets interleaved: local + global is the sum over all events
ENTRY(c12_history) {
    unsigned K = (unsigned)sym_param("K", 4);
    static const boost::source_location LOC[2] = {{"a.cc", 7, "f"}, {"b.cc", 12, "g"}};
    uint64_t init = 0, alloc = 0, space = 0, wasted = 0, used = 0, destr = 0, by[2] = {};
    void* c[2];
    for (unsigned i = 0; i < 2; i++) { c[i] = metrics_probe_on_arena_init(nullptr, LOC[i]); init++; }
    for (unsigned i = 0; i < K; i++) {
        switch (sym_pick("op", 0, 2)) {
            case 0: {
                unsigned k = (unsigned)sym_pick("which", 0, 1);
                uint64_t n = sym_u32("n");
                metrics_probe_on_arena_allocation(nullptr, n, c[k]);
                alloc++; space += n; by[k] += n;
                break; }
            case 1: {
                uint64_t u = sym_u64("u"), w = sym_u64("w");
                metrics_probe_on_arena_destruction(nullptr, c[0], u, w);
                destr++; used += u; wasted += w;
                c[0] = metrics_probe_on_arena_init(nullptr, LOC[0]);
                init++;
                break; }
            default: local_arena_metrics.report_to_global_metrics(); sym_cover("reported");
        }
    }
    Snap g = snap(global_arena_metrics), l = snap(local_arena_metrics);
    sym_assert(g.v[0] + l.v[0] == init && g.v[1] + l.v[1] == destr && g.v[2] + l.v[2] == alloc, "no event is lost or counted twice");
    sym_assert(g.v[5] + l.v[5] == space && g.v[7] + l.v[7] == used && g.v[8] + l.v[8] == wasted, "no byte is lost or counted twice");
    sym_assert(g.key[0] + l.key[0] == by[0] && g.key[1] + l.key[1] == by[1], "bytes by location are conserved");
}

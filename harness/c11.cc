// C11: the per-thread metrics are the sums of the observed events.
#include "arena_env.h"
#include "arena/metrics.hpp"
using namespace stdb::memory;
static const uint64_t SZ[9] = {0, 64, 128, 256, 512, 1024, 2048, 4096, 1 << 20};
static const uint64_t MS[9] = {0, 1, 5, 10, 50, 100, 200, 500, 1000};
struct Model {
    uint64_t init = 0, destruct = 0, alloc = 0, newblock = 0, reset = 0, space = 0, resettled = 0, used = 0, wasted = 0;
    uint64_t size[8] = {}, life[8] = {};
    void bySize(uint64_t n) { for (unsigned i = 0; i < 8; i++) size[i] += (uint64_t)(n <= SZ[i + 1]) & (uint64_t)((i == 0) | (n > SZ[i])); }
    void byLife(uint64_t ns) {
        uint64_t ms = ns / 1000000;
        for (unsigned i = 0; i < 8; i++) life[i] += (uint64_t)(ms <= MS[i + 1]) & (uint64_t)((i == 0) | (ms > MS[i]));
    }
    void check(const LocalArenaMetrics& m) const {
        sym_assert(m.init_count == init && m.destruct_count == destruct && m.alloc_count == alloc && m.newblock_count == newblock && m.reset_count == reset, "event counts");
        sym_assert(m.space_allocated == space, "allocated bytes");
        sym_assert(m.space_resettled == resettled, "reclaimed bytes");
        sym_assert(m.space_used == used, "used bytes");
        sym_assert(m.space_wasted == wasted, "wasted bytes");
        bool s = true, l = true;
        for (unsigned i = 0; i < 8; i++) { s &= m.alloc_size_bucket_counter[i] == size[i]; l &= m.destruct_lifetime_bucket_counter[i] == life[i]; }
        sym_assert(s, "allocations by size");
        sym_assert(l, "arenas by lifetime");
    }
};
static uint64_t clockNow() { return (uint64_t)steady_clock::now().time_since_epoch().count(); }
static const boost::source_location LOC[3] = {{"a.cc", 7, "f"}, {"a.cc", 12, "g"}, {"b.cc", 7, "f"}};
static const char* const KEY[3] = {"a.cc:7", "a.cc:12", "b.cc:7"};

ENTRY(c11_probes) {
    unsigned K = (unsigned)sym_param("K", 3);
    Model m;
    struct A { void* c; uint64_t born; unsigned loc; } as[4];
    unsigned n = 0;
    uint64_t bytes[3] = {};
    bool touched[3] = {};
    auto make = [&](unsigned loc) {
        uint64_t t0 = clockNow();
        as[n].c = metrics_probe_on_arena_init(nullptr, LOC[loc]);
        sym_assume(clockNow() == t0);
        as[n].born = t0;
        as[n++].loc = loc;
        m.init++;
    };
    make((unsigned)sym_choose("loc0", 0, 1));
    for (unsigned i = 0; i < K; i++) {
        unsigned op = (unsigned)(i == 0 ? sym_choose("op0", 0, 4) : sym_pick("op", 0, 4));
        if (op == 0) {
            make((unsigned)sym_pick("loc", 0, 2));
        } else if (op == 1) {
            if (!n) continue;
            unsigned k = (unsigned)sym_pick("which", 0, n - 1);
            uint64_t sz = sym_u64("size");
            metrics_probe_on_arena_allocation(&typeid(int), sz, as[k].c);
            m.alloc++;
            m.space += sz;
            m.bySize(sz);
            bytes[as[k].loc] += sz;
            touched[as[k].loc] = true;
            sym_cover("allocation");
        } else if (op == 2) {
            if (!n) continue;
            metrics_probe_on_arena_newblock(sym_u64("i"), sym_u64("size"), as[0].c);
            m.newblock++;
        } else if (op == 3) {
            if (!n) continue;
            uint64_t u = sym_u64("used"), w = sym_u64("wasted");
            metrics_probe_on_arena_reset(nullptr, as[0].c, u, w);
            m.reset++;
            m.resettled += u;
            m.wasted += w;
        } else {
            if (!n) continue;
            unsigned k = (unsigned)sym_pick("which", 0, n - 1);
            uint64_t u = sym_u64("used"), w = sym_u64("wasted");
            uint64_t t0 = clockNow();
            sym_assert(metrics_probe_on_arena_destruction(nullptr, as[k].c, u, w) == nullptr, "the destruction probe returns null");
            sym_assume(clockNow() == t0);
            m.destruct++;
            m.used += u;
            m.wasted += w;
            m.byLife(t0 - as[k].born);
            as[k] = as[--n];
            sym_cover("destroyed");
        }
    }
    const LocalArenaMetrics& l = local_arena_metrics;
    m.check(l);
    unsigned keys = 0;
    for (unsigned i = 0; i < 3; i++) {
        auto it = l.arena_alloc_counter.find(KEY[i]);
        sym_assert((it != l.arena_alloc_counter.end()) == touched[i], "exactly the locations whose arenas allocated are listed");
        if (touched[i]) { sym_assert(it->second == bytes[i], "bytes by creating location"); keys++; }
    }
    sym_assert(l.arena_alloc_counter.size() == keys, "no other location is listed");
    if (keys > 1) sym_cover("several locations");
}
// the probes wired into real arenas
ENTRY(c11_arena) {
    unsigned K = (unsigned)sym_param("K", 2);
    env::region = 1024;
    Arena::Options o = env::opts(128, 512, 64);
    o.on_arena_init = &metrics_probe_on_arena_init;
    o.on_arena_allocation = &metrics_probe_on_arena_allocation;
    o.on_arena_newblock = &metrics_probe_on_arena_newblock;
    o.on_arena_reset = &metrics_probe_on_arena_reset;
    o.on_arena_destruction = &metrics_probe_on_arena_destruction;
    Model m;
    uint64_t bytes[2] = {}, alive[2] = {}, wasted = 0;
    bool touched[2] = {};
    std::string key[2];
    {
        key[0] = std::string(__FILE__) + ":" + std::to_string(__LINE__ + 1);
        Arena a(o);
        key[1] = std::string(__FILE__) + ":" + std::to_string(__LINE__ + 1);
        Arena b(Arena::Options{o});
        Arena* as[2] = {&a, &b};
        m.init = 2;
        for (unsigned i = 0; i < K; i++) {
            unsigned w = (unsigned)sym_pick("arena", 0, 1);
            if (sym_pick("reset", 0, 1)) {
                uint64_t r = as[w]->SpaceAllocated(), w0 = local_arena_metrics.space_wasted;
                sym_assert(r == alive[w], "space held");
                as[w]->Reset();
                m.reset++;
                m.resettled += r;
                m.wasted += local_arena_metrics.space_wasted - w0;   // the value itself is C05's concern
                alive[w] = as[w]->SpaceAllocated();
                sym_cover("reset");
                continue;
            }
            uint64_t n = sym_range("n", 0, 400);
            unsigned nb = env::nblk;
            sym_assert(as[w]->AllocateAligned(n) != nullptr, "served");
            for (unsigned q = nb; q < env::nblk; q++) { m.newblock++; alive[w] += env::blks[q].size; }
            m.alloc++;
            m.space += n;
            m.bySize(n);
            bytes[w] += n;
            touched[w] = true;
        }
        m.used = alive[0] + alive[1];
        wasted = local_arena_metrics.space_wasted;
    }
    m.destruct = 2;
    m.wasted += local_arena_metrics.space_wasted - wasted;
    uint64_t lives = 0;
    for (unsigned i = 0; i < 8; i++) { m.life[i] = local_arena_metrics.destruct_lifetime_bucket_counter[i]; lives += m.life[i]; }
    sym_assert(lives <= 2, "at most one lifetime per arena");
    m.check(local_arena_metrics);
    for (unsigned w = 0; w < 2; w++) {
        auto it = local_arena_metrics.arena_alloc_counter.find(key[w]);
        sym_assert((it != local_arena_metrics.arena_alloc_counter.end()) == touched[w], "exactly the places that created allocating arenas are listed");
        if (touched[w]) sym_assert(it->second == bytes[w], "bytes by the place that created the arena");
    }
    sym_cover("done");
}
// every size and every lifetime goes to the right bucket, one event
ENTRY(c11_buckets) {
    Model m;
    LocalArenaMetrics& l = local_arena_metrics;
    uint64_t sz = sym_u64("size");
    l.increase_alloc_size_counter(sz);
    m.bySize(sz);
    uint64_t ms = sym_range("ms", 0, 1ULL << 62);
    l.increase_destruct_lifetime_counter(milliseconds((int64_t)ms));
    for (unsigned i = 0; i < 8; i++) m.life[i] += (uint64_t)(ms <= MS[i + 1]) & (uint64_t)((i == 0) | (ms > MS[i]));
    m.check(l);
    sym_cover("done");
}

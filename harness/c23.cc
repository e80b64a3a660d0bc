// C23: arena_string behaves as string and lives in its Arena.
#include <functional>
#include <new>
#include <stdexcept>
#include <compare>
#include "arena_env.h"
#include "astr_env.h"
namespace st {
static bool anywhere;        // strings with memory from the default resource
static const void* arenas[2];
template <class C> struct Placed<stdb::memory::arena_basic_string<C>> {
    typedef stdb::memory::arena_basic_string<C> S;
    static void check(const S& s) {
        if (anywhere) return;
        auto* r = s.get_allocator().resource();
        sym_assert(r == where, "a string keeps the allocator it was made with");
        const char* d = (const char*)s.data();
        bool inside = d >= (const char*)&s && d < (const char*)(&s + 1);
        sym_assert(inside || env::inBlock(d, (s.capacity() + 1) * sizeof(C)), "the characters are in the string or in the arena");
    }
};
}  // namespace st
namespace of18 {
#include "c18.cc"
}
namespace of19 {
#include "c19.cc"
}
namespace of21 {
#include "c21.cc"
}
using namespace st;
namespace {
// an arena with small blocks, and a check that nothing but its blocks remains allocated while it lives
struct Home {
    size_t base;
    Arena::Options opt;
    Arena a;
    Home() : opt(env::opts(256, 1 << 13, 512)), a(opt) { where = a.get_memory_resource(); no_data = true; base = sym_heap_objects() - env::liveBlocks(); }
    void check() { sym_assert(sym_heap_objects() - base == env::liveBlocks(), "all memory is the arena's"); }
};
template <class F> void inArena(F f) {
    Home h;
    f();
    h.check();
}
// the same program with memory from the default resource (release builds: debug builds refuse it)
void inHeap(bool wide, unsigned K, size_t N) {
    anywhere = true;
    no_data = true;
    where = std::pmr::get_default_resource();
    size_t base = sym_heap_objects();
    history<AS>(wide, K, N);
    sym_assert(sym_heap_objects() == base, "every buffer is released");
}
// strings of two arenas: what one string is given never makes it depend on the other arena
void two(size_t N) {
    Arena::Options opt = env::opts(256, 1 << 13, 512);
    alignas(Arena) char ra[sizeof(Arena)], rb[sizeof(Arena)];
    Arena* a = new (ra) Arena(opt);
    Arena* b = new (rb) Arena(opt);
    auto *wa = a->get_memory_resource(), *wb = b->get_memory_resource();
    size_t base = sym_heap_objects() - env::liveBlocks();
    modes(false, 1);
    where = wa;
    no_data = true;
    bool longer = sym_choose("long", 0, 1);
    alignas(AS) char rx[sizeof(AS)];
    Txt<char> m;
    Obj<AS>* x = new Obj<AS>;
    size_t n = longer ? (sym_pick("len", 0, 1) ? MB + 2 : SB + 2) : sym_pick("len", 0, N);
    build(*x, n, longer ? 0 : (unsigned)sym_pick("state", 0, 3));
    where = wb;
    size_t k = longer ? (sym_pick("len2", 0, 1) ? MB + 1 : 1) : sym_pick("len2", 0, 1);
    text(m, k, 2);
    AS* y = new (rx) AS(Where<AS>::make((const char*)m.v, k));
    if (sym_pick("shared", 0, 1)) { AS t(*y); y->swap(t); }
    unsigned op = (unsigned)sym_choose("op", 0, 15);
    const AS& s = x->s;
    size_t pos = sym_pick("pos", 0, k ? 1 : 0) * k, from = n / 2;
    size_t c = n - from;
    Txt<char> part;
    part.n = c;
    for (size_t i = 0; i < c; i++) part.v[i] = x->m.v[from + i];
    if (op == 0) { *y = s; m = x->m; }
    else if (op == 1) { y->assign(s); m = x->m; }
    else if (op == 2) { y->assign(s, from, c); m = part; }
    else if (op == 3) { y->append(s); m.ins(k, x->m.v, n); }
    else if (op == 4) { *y += s; m.ins(k, x->m.v, n); }
    else if (op == 5) { y->append(s, from, c); m.ins(k, part.v, c); }
    else if (op == 6) { y->insert(pos, s); m.ins(pos, x->m.v, n); }
    else if (op == 7) { y->insert(pos, s, from, c); m.ins(pos, part.v, c); }
    else if (op == 8) { y->replace(pos, 1, s); m.del(pos, pos < k); m.ins(pos, x->m.v, n); }
    else if (op == 9) { auto f = y->begin() + pos; y->replace(f, y->end(), s); m.n = pos; m.ins(pos, x->m.v, n); }
    else if (op == 10) { AS t = *y + s; same(t, (m.ins(k, x->m.v, n), m)); *y = t; }
    else if (op == 11) { AS t = std::move(*y) + s; m.ins(k, x->m.v, n); same(t, m); *y = t; }
    else if (op == 12) { y->~AS(); y = new (rx) AS(s, from, c, AS::allocator_type(where)); m = part; }
    else if (op == 13) { y->~AS(); y = new (rx) AS(Where<AS>::make(s.begin(), s.end())); m = x->m; }
    else if (op == 14) { y->insert(y->cbegin() + pos, s.begin(), s.end()); m.ins(pos, x->m.v, n); }
    else { *y = std::string_view(s); m = x->m; }
    same(*y, m, "a string of one arena takes characters from a string of another");
    where = wa;
    same(s, x->m, "the argument is unchanged");
    // a copy and a moved-to string belong to the arena of their source
    { AS t(s); same(t, x->m); AS u(std::move(t)); same(u, x->m); AS w = s.clone(); same(w, x->m); AS v = s.substr(from); same(v, part); }
    sym_assert(sym_heap_objects() - base == env::liveBlocks() + 1, "all memory is the arenas'");
    delete x;
    if (sym_pick("reset", 0, 1)) { a->Reset(); memset(env::blks[0].base + kBlockHeaderSize, 0x55, env::blks[0].live ? 64 : 0); } else a->~Arena();
    where = wb;
    same(*y, m, "a string outlives the arenas it took characters from");
    char ch = chr<char>();
    y->push_back(ch);
    m.fill(m.n, 1, ch);
    same(*y, m, "and can be used");
    y->~AS();
    b->~Arena();
    sym_cover("done");
}
// memory of the arena runs out
void oom(size_t N) {
    Home h;
    modes(false, 1);
    Obj<AS> o;
    bool longer = sym_choose("long", 0, 1);
    size_t n = longer ? (sym_pick("len", 0, 1) ? MB - 1 : SB) : sym_pick("len", 0, N);
    build(o, n, longer ? 2 * (unsigned)sym_pick("state", 0, 1) : (unsigned)sym_pick("state", 0, 4));
    AS keep(o.keep);
    wide_lengths = longer;     // positions at the ends and in the middle, arguments at the boundaries
    unsigned op = (unsigned)sym_choose("op", 0, OPS - 1);
    Txt<char> old = o.m;
    while (h.a.SpaceRemains() >= 64) (void)h.a.AllocateAligned(h.a.SpaceRemains() - 32 & ~7ull);
    env::failMode = 1;
    bool failed = false, done = true;
    try { done = apply(o, op, N); } catch (std::bad_alloc&) { failed = true; }
    env::failMode = 0;
    if (!done) return;
    if (failed) {
        sym_assert(o.s.size() <= o.s.capacity() && o.s.c_str()[o.s.size()] == 0, "after bad_alloc the string is valid");
        if (!o.keep.empty()) same(o.keep, old, "a copy is unchanged after bad_alloc");
        sym_cover("exhausted");
        o.s.append(o.s);
        o.s.assign(o.m.v, o.m.n);
    }
    same(o.s, o.m, "after bad_alloc the string can be assigned");
    same(keep, old.n && !keep.empty() ? old : Txt<char>(), "a copy is unchanged");
    h.check();
    sym_cover("done");
}
// strings created in the arena use it
void created(size_t N) {
    Home h;
    modes(true, 1);
    Txt<char> m;
    size_t n = pickLen("len", N);
    zstr(m, n, 1);
    unsigned how = (unsigned)sym_pick("how", 0, 4);
    Txt<char> none;
    AS* s = how == 0 ? h.a.Create<AS>() : how == 1 ? h.a.Create<AS>((const char*)m.v) : how == 2 ? h.a.Create<AS>((const char*)m.v, n) : how == 3 ? h.a.Create<AS>(std::string_view(m.v, n)) : h.a.Create<AS>(Where<AS>::make((const char*)m.v, n));
    sym_assert(s != nullptr, "created");
    if (how == 0) same(*s, none); else same(*s, m);
    s->assign(m.v, n);
    s->append(m.v, n);
    Txt<char> w = m;
    w.ins(n, m.v, n);
    same(*s, w);
    h.check();
    h.a.Reset();
    h.check();
    sym_cover("done");
}
}  // namespace
ENTRY(c23_short) { inArena([] { history<AS>(false, (unsigned)sym_param("K", 1), sym_param("N", 2)); }); }
ENTRY(c23_boundary) { inArena([] { history<AS>(true, 1, 2); }); }
ENTRY(c23_find) { inArena([] { of18::find<AS>(sym_param("N", 2), sym_param("M", 2), false); }); }
ENTRY(c23_affix) { inArena([] { of18::affix<AS>(sym_param("N", 2), sym_param("M", 2)); }); }
ENTRY(c23_copy) { inArena([] { of18::copying<AS>(sym_param("N", 3)); }); }
ENTRY(c23_copies) { Home h; of19::copies<AS>(false, 1, sym_param("N", 1)); }
ENTRY(c23_copies_large) { Home h; of19::copies<AS>(true, 1, 1); }
ENTRY(c23_positions) { inArena([] { of21::positions<AS>(sym_param("N", 1), false); }); }
ENTRY(c23_beyond) { inArena([] { of21::beyond<AS>(sym_param("N", 1)); }); }
ENTRY(c23_two) { two(sym_param("N", 1)); }
ENTRY(c23_oom) { oom(sym_param("N", 1)); }
ENTRY(c23_created) { created(2); }
ENTRY(c23_heap) { inHeap(false, (unsigned)sym_param("K", 1), sym_param("N", 1)); }
ENTRY(c23_heap_boundary) { inHeap(true, 1, 2); }

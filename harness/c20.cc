// C20: strings own and release their storage exactly once.
#include <new>
#include <stdexcept>
#include "str_env.h"
using namespace st;
namespace {
typedef stdb::memory::basic_string<char> S8;
typedef stdb::memory::basic_string<char16_t> S16;

template <class S> void valid(const S& s, const char* what) {
    typedef typename S::value_type C;
    sym_assert(s.size() <= s.capacity() && s.c_str()[s.size()] == C(), what);
    sym_assert(sym_mem_ok(s.data(), (s.size() + 1) * sizeof(C)), what);
}
// two strings and everything that passes storage between them
template <class S> bool cross(Obj<S>& a, Obj<S>& b, unsigned op) {
    S& s = a.s;
    if (op == 0) { s = std::move(b.s); a.m = b.m; b.m.n = 0; }
    else if (op == 1) { s.swap(b.s); std::swap(a.m, b.m); }
    else if (op == 2) { s = b.s; a.m = b.m; }
    else if (op == 3) { S t(std::move(s)); s = std::move(t); }
    else if (op == 4) { S t(s); S u(std::move(s)); sym_assert(s.empty(), "moved-from is empty"); s = t; }
    else if (op == 5) { S t(b.s); s.swap(t); a.m = b.m; }
    else if (op == 6) { s.shrink_to_fit(); }
    else if (op == 7) { s.clear(); a.m.n = 0; s.shrink_to_fit(); }
    else if (op == 8) { s = *&s; s = std::move(*&s); s.swap(s); }
    else if (op == 9) { s.assign(std::move(b.s)); a.m = b.m; b.m.n = 0; }
    else if (op == 10) { s.append(b.s); a.m.ins(a.m.n, b.m.v, b.m.n); }
    else { S t = s.clone(); b.s = std::move(t); b.m = a.m; }
    return true;
}
template <class S> void history(unsigned K, size_t N, bool wide) {
    typedef typename S::value_type C;
    no_data = true;   // see C19
    size_t base = sym_heap_objects();
    {
        modes(wide, sizeof(C));
        Obj<S> o[2];
        for (unsigned w = 0; w < 2; w++) {
            unsigned st = (unsigned)sym_choose(w ? "state1" : "state0", 0, 4);
            size_t n = wide ? (w ? MB + 2 : SB) : sym_pick("len", 0, N);
            build(o[w], n, st);
        }
        for (unsigned i = 0; i < K; i++) {
            unsigned w = (unsigned)sym_pick("which", 0, 1);
            cross(o[w], o[1 - w], (unsigned)sym_pick("cross", 0, 11));
            for (auto& x : o) same(x.s, x.m);
        }
        if (sym_param("F", 1) && sym_pick("finally", 0, 1)) { unsigned w = (unsigned)sym_pick("which", 0, 1); apply(o[w], (unsigned)sym_choose("op", 0, OPS - 1), 1); for (auto& x : o) same(x.s, x.m); }
    }
    sym_assert(sym_heap_objects() == base, "every buffer is released");
    sym_cover("done");
}
// one modifier while any single allocation may fail
template <class S> void oom(size_t N) {
    no_data = true;   // see C19
    size_t base = sym_heap_objects();
    {
        modes(false, sizeof(typename S::value_type));
        Obj<S> o;
        size_t n = sym_pick("len", 0, N);
        build(o, n, (unsigned)sym_choose("state", 0, 4));
        const S keep(o.keep);
        unsigned op = (unsigned)sym_choose("op", 0, OPS - 1);
        Txt<typename S::value_type> old = o.m;
        sym_alloc_fail(1);
        bool failed = false, done = true;
        try { done = apply(o, op, N); } catch (std::bad_alloc&) { failed = true; }
        sym_alloc_fail(0);
        if (!done) return;
        if (failed) {
            valid(o.s, "after bad_alloc the string is valid");
            sym_cover("exhausted");
            if (!o.keep.empty()) same(o.keep, old, "a copy is unchanged after bad_alloc");
            o.s.append(o.s);
            valid(o.s, "usable after bad_alloc");
            o.s.assign(o.m.v, o.m.n);
        }
        same(o.s, o.m, "after bad_alloc the string can be assigned");
    }
    sym_assert(sym_heap_objects() == base, "every buffer is released");
    sym_cover("done");
}
// requests of every size with little memory
template <class S> void sizes(size_t N) {
    typedef typename S::value_type C;
    no_data = true;   // see C19
    size_t base = sym_heap_objects();
    {
        modes(false, sizeof(C));
        Obj<S> o;
        size_t n = sym_pick("len", 0, N);
        build(o, n, (unsigned)sym_choose("state", 0, 4));
        unsigned op = (unsigned)sym_choose("op", 0, 7);
        size_t k = sym_u64("count"), lost = 0;
        sym_max_alloc(700 * sizeof(C));
        C x = chr<C>();
        size_t small = ~(size_t)0;
        bool length = false, memory = false;
        try {
            if (op == 0) { if (k > 5) { k = sym_range("large", 600, ~0ULL); } o.s.reserve(k); o.m.n = n; }
            else {
                if (k <= 2) small = k = (size_t)sym_concretize(k); else sym_assume(k > 700);   // either quickly filled or refused
                size_t pos = sym_pick("pos", 0, n);
                if (op == 1) { lost = n; o.s.resize(k, x); }
                else if (op == 2) o.s.append(k, x);
                else if (op == 3) o.s.insert(pos, k, x);
                else if (op == 4) o.s.insert(o.s.cbegin() + pos, k, x);
                else if (op == 5) { lost = n - pos; o.s.replace(pos, n, k, x); }
                else if (op == 6) { lost = n; o.s.assign(k, x); }
                else { lost = n; S t = Where<S>::make(k, x); o.s.swap(t); }
            }
        } catch (std::bad_alloc&) { memory = true; }
        catch (std::length_error&) { length = true; }
        if (op != 0) {
            sym_assert((small > 2) == (memory || length), "served or refused");
            if (k > o.s.max_size() - (n - lost)) sym_assert(length, "a size beyond max_size() is refused with length_error");
            else if (k < (size_t)1 << 60) sym_assert(!length, "length_error only beyond max_size()");
            if (memory || length) { if ((op != 5 && op != 6) || k > o.s.max_size() - (n - lost)) same(o.s, o.m, "a refused request changes nothing"); }
            else sym_assert(o.s.size() == n - lost + k || op == 1, "the size asked for");
        } else {
            sym_assert(o.s.capacity() >= k || memory || length, "reserve gives the capacity or fails");
            same(o.s, o.m);
        }
        if (length) sym_cover("too long");
        if (memory) sym_cover("exhausted");
        if (!length && !memory) sym_cover("served");
        sym_max_alloc(~0ULL);
        valid(o.s, "the string is valid");
        o.s.append(3, x);
        valid(o.s, "usable after a refusal");
    }
    sym_assert(sym_heap_objects() == base, "every buffer is released");
}
}  // namespace
ENTRY(c20_history) { history<S8>((unsigned)sym_param("K", 2), sym_param("N", 1), false); }
ENTRY(c20_large) { history<S8>((unsigned)sym_param("K", 1), 1, true); }
ENTRY(c20_oom) { oom<S8>(sym_param("N", 1)); }
ENTRY(c20_oom16) { oom<S16>(sym_param("N", 1)); }
ENTRY(c20_sizes) { sizes<S8>(sym_param("N", 2)); }
ENTRY(c20_sizes16) { sizes<S16>(sym_param("N", 1)); }
ENTRY(c20_modifier) { history<S8>(1, sym_param("N", 1), false); }

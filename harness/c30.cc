// C30: strings given to another thread.
#include "str_env.h"
using namespace st;
namespace {
typedef stdb::memory::basic_string<char> S8;
typedef stdb::memory::basic_string<char16_t> S16;
#ifdef CROSS_THREAD_CHECKING
constexpr bool checked = true;
#else
constexpr bool checked = false;
#endif
template <class S> void give(const S& s, unsigned t) { sym_give(s.data(), t); }
// The two threads take turns; the engine reports any access to memory of the other one.
template <class S> void hand(bool wide, size_t N) {
    typedef typename S::value_type C;
    no_data = true;   // see C19
    modes(wide, sizeof(C));
    size_t base = sym_heap_objects();
    sym_thread(1);
    Obj<S>* o[3] = {};   // the string of thread 1 and, later, the one of thread 2
    Obj<S>& a = *(o[1] = new Obj<S>);
    size_t n = wide ? pickLen("len", 0) : sym_pick("len", 0, N);
    unsigned state = (unsigned)sym_choose("state", 0, 4);
    unsigned how = (unsigned)sym_choose("how", 0, checked ? 4 : 6);
    build(a, n, state);
    if (state >= 3) sym_cover("of a shared string");
    Txt<C> m = a.m;
    {
        S left, x;     // what thread 1 keeps besides, and what it gives away
        if (how == 0) x = a.s.clone();
        else if (how == 1) { const S& c = a.s; S t(c.clone()); x.swap(t); }
        else if (how == 2) { left = a.s; x.assign(left.clone()); }
        else if (how == 3) { S t(a.m.v, n); t.reserve(state == 2 ? MB + n + 2 : n); x = std::move(t); }   // never copied
        else if (how == 4) { S t(a.s.clone()); S u(std::move(t)); left.swap(u); x = std::move(left); }
        else {   // a copy that has become independent again
            S t(a.s);
            C c = chr<C>();
            if (how == 5) { t.push_back(c); m.fill(n, 1, c); }
            else { left = t; t += c; m.fill(n, 1, c); }
            x = std::move(t);
        }
        give(std::as_const(x), 2);
        sym_thread(2);
        o[2] = new Obj<S>;
        o[2]->s = std::move(x);
        o[2]->m = m;
        sym_thread(1);
    }
    unsigned first = (unsigned)sym_pick("first", 1, 2);
    for (unsigned i = 0; i < 2; i++) {
        unsigned t = i == 0 ? first : 3 - first;
        sym_thread(t);
        if (i == 0 && !apply(*o[t], (unsigned)sym_choose("op", 0, OPS - 1), N)) sym_assume(false);
        same(o[t]->s, o[t]->m, "a string is not changed by another thread");
        S c(o[t]->s);
        o[t]->s.push_back(C('x'));
        o[t]->m.fill(o[t]->m.n, 1, C('x'));
        same(o[t]->s, o[t]->m);
        sym_assert(c.size() + 1 == o[t]->m.n, "a copy keeps its contents");
    }
    unsigned last = (unsigned)sym_pick("last", 0, checked ? 1 : 2);
    if (last == 2) {    // it comes back
        sym_thread(2);
        S u(std::move(o[2]->s));
        m = o[2]->m;
        give(std::as_const(u), 1);
        sym_thread(1);
        same(u, m, "a string is not changed by another thread");
        a.s = std::move(u);
        a.m = m;
        sym_cover("came back");
    }
    unsigned t = last == 1 ? 1 : 2;
    for (unsigned i = 0; i < 2; i++, t = 3 - t) {
        sym_thread(t);
        if (last < 2 || t == 1) same(o[t]->s, o[t]->m, "a string is not changed by another thread");
        delete o[t];
    }
    sym_thread(0);
    sym_assert(sym_heap_objects() == base, "every buffer is released");
    sym_cover("done");
}
// with the checks on: what a thread copied is not copied or destroyed by another
template <class S> void refused(size_t N) {
    no_data = true;
    modes(false, sizeof(typename S::value_type));
    sym_thread(1);
    Obj<S> a;
    size_t n = sym_pick("len", 0, N);
    build(a, n, (unsigned)sym_choose("state", 0, 4));
    bool original = sym_pick("original", 0, 1);
    S* b = new S(a.s);
    S moved(std::move(original ? a.s : *b));
    give(std::as_const(moved), 2);
    sym_give(b, 2);
    sym_thread(2);
    unsigned k = (unsigned)sym_pick("kind", 0, 1);
    sym_cover("tried");
    sym_expect_abort(true);
    if (k == 0) { S t(moved); }
    else { moved.~S(); }
    sym_assert(false, "a string that another thread copied is refused");
}
}  // namespace
ENTRY(c30_clone) { hand<S8>(false, sym_param("N", 1)); }
ENTRY(c30_clone16) { hand<S16>(false, sym_param("N", 1)); }
ENTRY(c30_boundary) { hand<S8>(true, 1); }
ENTRY(c30_checked) { hand<S8>(false, sym_param("N", 1)); }
ENTRY(c30_refused) { refused<S8>(sym_param("N", 1)); }

// C19: copies of a string are independent.
#include "str_env.h"
using namespace st;
namespace {
typedef stdb::memory::basic_string<char> S8;
typedef stdb::memory::basic_string<char16_t> S16;

template <class S> void copies(bool wide, unsigned K, size_t N) {
    typedef typename S::value_type C;
    modes(wide, sizeof(C));
    no_data = true;
    Obj<S>* o[3];
    for (auto& x : o) x = new Obj<S>;
    size_t n = wide ? MB + 1 : sym_pick("len", 0, N);
    build(*o[0], n, wide ? 0 : (unsigned)sym_choose("state", 0, 4));
    o[0]->keep = Where<S>::make();
    // two more strings with the same contents
    unsigned kind = (unsigned)sym_choose("kind", 0, 3);
    S& s = o[0]->s;
    if (kind == 0) { S t(s); o[1]->s.swap(t); S u(o[1]->s); o[2]->s = std::move(u); }
    else if (kind == 1) { o[1]->s = s; S t(s); o[2]->s.assign(std::move(t)); }
    else if (kind == 2) {   // a copy takes the place of a shared string
        S t(s);
        o[1]->s.swap(t);
        S u(o[1]->s);
        s = std::move(u);
        S v(s);
        o[2]->s.swap(v);
    } else { S t(s); o[1]->s.swap(t); S u = o[1]->s.clone(); o[2]->s.swap(u); }
    o[1]->m = o[2]->m = o[0]->m;
    for (auto x : o) same(x->s, x->m, "a copy has the same contents");
    if (std::as_const(o[0]->s).data() == std::as_const(o[1]->s).data()) sym_cover("shared buffer");
    for (unsigned i = 0; i < K; i++) {
        unsigned w = (unsigned)sym_pick("which", 0, i == 0 ? 1 : 2);
        if (!apply(*o[w], (unsigned)(i == 0 ? sym_choose("op0", 0, OPS - 1) : sym_pick("op", 0, OPS - 1)), N)) return;
        for (auto x : o) same(x->s, x->m, "modifying one string leaves the others");
    }
    unsigned first = (unsigned)sym_pick("first", 0, 2);
    delete o[first];
    o[first] = nullptr;
    for (auto x : o) if (x) same(x->s, x->m, "destroying one string leaves the others");
    unsigned second = (first + 1) % 3;
    C x = chr<C>();
    o[second]->s.push_back(x);
    o[second]->m.fill(o[second]->m.n, 1, x);
    for (auto y : o) if (y) same(y->s, y->m, "modifying one string leaves the others");
    delete o[second];
    unsigned third = 3 - first - second;
    same(o[third]->s, o[third]->m, "destroying one string leaves the others");
    delete o[third];
    sym_cover("done");
}
// writes through what non-const members returned, each after the copy was made
template <class S> void writes() {
    typedef typename S::value_type C;
    modes(false, sizeof(C));
    Obj<S> o, c;
    size_t n = sym_pick("len", 1, 3);
    unsigned state = (unsigned)sym_pick("state", 0, 2);
    build(o, n, state);
    { S t(o.s); c.s.swap(t); }
    c.m = o.m;
    C x = chr<C>();
    o.s.data()[0] = x;
    o.m.v[0] = x;
    same(o.s, o.m);
    same(c.s, c.m, state == 2 ? "a write through data() leaves a copy that shares the buffer" : "a write through data() leaves a copy");
    sym_cover("done");
}
}  // namespace
ENTRY(c19_copies) { copies<S8>(false, (unsigned)sym_param("K", 1), sym_param("N", 1)); }
ENTRY(c19_seq) { copies<S8>(false, (unsigned)sym_param("K", 2), sym_param("N", 1)); }
ENTRY(c19_large) { copies<S8>(true, 1, 1); }
ENTRY(c19_copies16) { copies<S16>(false, (unsigned)sym_param("K", 1), sym_param("N", 1)); }
ENTRY(c19_data) { writes<S8>(); }

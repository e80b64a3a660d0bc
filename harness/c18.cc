// C18: searching matches std::string.
#include "str_env.h"
using namespace st;
namespace {
typedef stdb::memory::basic_string<char> S8;
typedef stdb::memory::basic_string<char16_t> S16;
typedef stdb::memory::basic_string<char32_t> S32;
const size_t npos = (size_t)-1;

template <class C> void letters(Txt<C>& m, size_t n) {
    m.n = n;
    for (size_t i = 0; i < n; i++) m.v[i] = chr<C>();
    m.v[n] = C();
}
template <class C> bool at(const Txt<C>& h, size_t i, const Txt<C>& a) {
    if (i + a.n > h.n) return false;
    bool ok = true;
    for (size_t q = 0; q < a.n; q++) ok &= h.v[i + q] == a.v[q];
    return ok;
}
template <class C> bool in(C x, const Txt<C>& a) {
    bool r = false;
    for (size_t q = 0; q < a.n; q++) r |= x == a.v[q];
    return r;
}
// what std::string answers
template <class C> size_t model(unsigned fam, const Txt<C>& h, const Txt<C>& a, size_t pos) {
    size_t r = npos;
    bool last = fam == 1 || fam == 3 || fam == 5;
    for (size_t q = 0; q <= h.n; q++) {
        size_t i = last ? q : h.n - q;
        bool hit = fam < 2 ? at(h, i, a) : i < h.n && in(h.v[i], a) == (fam < 4);
        bool ok = last ? i <= pos : i >= pos;
        r = hit & ok ? i : r;
    }
    return r;
}
template <class S, class... A> size_t call(unsigned fam, const S& s, A... a) {
    switch (fam) {
        case 0: return s.find(a...);
        case 1: return s.rfind(a...);
        case 2: return s.find_first_of(a...);
        case 3: return s.find_last_of(a...);
        case 4: return s.find_first_not_of(a...);
        default: return s.find_last_not_of(a...);
    }
}
template <class S> void find(size_t N, size_t M, bool longer) {
    typedef typename S::value_type C;
    modes(false, sizeof(C));
    Obj<S> o;
    size_t n, base = 0;
    unsigned st = longer ? 0 : (unsigned)sym_choose("state", 0, 1);
    if (longer) {   // a text around the large boundary, whose last letters matter
        n = sym_pick("len", 1, N);
        base = MB - 1;
        o.m.n = base + n;
        for (size_t i = 0; i < base; i++) o.m.v[i] = (C)'-';
        for (size_t i = 0; i < n; i++) o.m.v[base + i] = chr<C>();
        o.s.assign(o.m.v, o.m.n);
    } else {
        n = sym_pick("len", 0, N);
        build(o, n, st ? 3 : 0);
        letters(o.m, n);
        o.s.assign(o.m.v, n);
        if (st) { S t(o.s); o.keep.swap(t); }
    }
    unsigned fam = (unsigned)sym_choose("family", 0, 5);
    unsigned form = (unsigned)sym_pick("form", 0, 4);
    size_t pos = longer ? base - 1 + sym_pick("at", 0, n + 2) : sym_u64("pos");
    if (pos == base + n + 1) pos = npos;
    const S& s = o.s;
    Txt<C> a;
    bool dflt = form != 1 && !longer && sym_pick("default", 0, 1);
    bool last = fam == 1 || fam == 3 || fam == 5;
    if (dflt) pos = last ? npos : 0;
    size_t r;
    if (form == 0) {
        letters(a, sym_pick("alen", 0, M));
        S x = Where<S>::make();
        x.assign(a.v, a.n);
        switch (fam) {
            case 0: r = dflt ? s.find(x) : s.find(x, pos); break;
            case 1: r = dflt ? s.rfind(x) : s.rfind(x, pos); break;
            case 2: r = dflt ? s.find_first_of(x) : s.find_first_of(x, pos); break;
            case 3: r = dflt ? s.find_last_of(x) : s.find_last_of(x, pos); break;
            case 4: r = dflt ? s.find_first_not_of(x) : s.find_first_not_of(x, pos); break;
            default: r = dflt ? s.find_last_not_of(x) : s.find_last_not_of(x, pos);
        }
        sym_cover("string");
    } else if (form == 1) {
        letters(a, sym_pick("alen", 0, M));
        C tail[8];                                    // the pointer need not be terminated
        for (size_t i = 0; i < a.n; i++) tail[8 - a.n + i] = a.v[i];
        r = call(fam, s, (const C*)tail + 8 - a.n, pos, a.n);
        sym_cover("pointer and length");
    } else if (form == 2) {
        letters(a, sym_pick("alen", 0, M));
        for (size_t i = 0; i < a.n; i++) sym_assume(a.v[i] != C());
        r = dflt ? call(fam, s, (const C*)a.v) : call(fam, s, (const C*)a.v, pos);
        sym_cover("pointer");
    } else if (form == 3) {
        letters(a, 1);
        r = dflt ? call(fam, s, a.v[0]) : call(fam, s, a.v[0], pos);
        sym_cover("character");
    } else {
        size_t from = sym_pick("from", 0, n);         // the string's own letters
        a.n = o.m.n - base - from;
        for (size_t i = 0; i < a.n; i++) a.v[i] = o.m.v[base + from + i];
        r = call(fam, s, s.data() + base + from, pos, a.n);
        sym_cover("own letters");
    }
    size_t e = model(fam, o.m, a, pos);
    sym_assert(r == e, "the position std::string finds");
    same(o.s, o.m, "searching changes nothing");
    if (r == npos) sym_cover("not found"); else sym_cover("found");
}
// long texts and needles that almost repeat
template <class S> void far() {
    typedef typename S::value_type C;
    modes(false, sizeof(C));
    const size_t n = 700;
    Obj<S> o;
    size_t period = sym_pick("wide", 0, 1) ? 100 : 1 + 2 * sym_pick("three", 0, 1);
    o.m.n = n;
    for (size_t i = 0; i < n; i++) o.m.v[i] = (C)(' ' + i % period);
    Txt<C> a;
    const size_t L[] = {1, 256, 300, n};
    a.n = L[sym_pick("alen", 0, 3)];
    size_t from = sym_pick("from", 0, 1) ? n - a.n : (n - a.n) / 2;
    for (size_t i = 0; i < a.n; i++) a.v[i] = o.m.v[from + i];
    // one letter of the text or of the needle is another one
    unsigned where = (unsigned)sym_pick("odd", 0, 4);
    C x = where == 4 || sym_pick("other", 0, 1) ? C() : (C)'!';
    if (where == 0) o.m.v[n / 2] = x;
    else if (where == 1) a.v[0] = x;
    else if (where == 2) a.v[a.n - 1] = x;
    else if (where == 3) a.v[a.n / 2] = x;
    o.s.assign(o.m.v, n);
    unsigned fam = (unsigned)sym_choose("family", 0, 6);
    const S& s = o.s;
    if (fam == 6) {
        typedef std::basic_string_view<C> V;
        V v(a.v, a.n);
        bool e = false, st = at(o.m, 0, a), en = at(o.m, n - a.n, a);
        for (size_t i = 0; i + a.n <= n; i++) e |= at(o.m, i, a);
        sym_assert(s.contains(v) == e && s.starts_with(v) == st && s.ends_with(v) == en, "the answer std::string gives");
        if (e) sym_cover("found"); else sym_cover("not found");
        return;
    }
    const size_t P[] = {fam % 2 ? npos : 0, 256, n - a.n};
    size_t pos = P[sym_pick("at", 0, 2)];
    size_t r = call(fam, s, (const C*)a.v, pos, a.n), e = model(fam, o.m, a, pos);
    sym_assert(r == e, "the position std::string finds");
    if (r == npos) sym_cover("not found"); else sym_cover("found");
}
template <class S> void affix(size_t N, size_t M) {
    typedef typename S::value_type C;
    typedef std::basic_string_view<C> V;
    modes(false, sizeof(C));
    Obj<S> o;
    size_t n = sym_pick("len", 0, N);
    letters(o.m, n);
    o.s.assign(o.m.v, n);
    unsigned what = (unsigned)sym_choose("what", 0, 2), form = (unsigned)sym_pick("form", 0, 3);
    const S& s = o.s;
    Txt<C> a;
    letters(a, form == 1 ? 1 : sym_pick("alen", 0, M));
    if (form == 2) for (size_t i = 0; i < a.n; i++) sym_assume(a.v[i] != C());
    S x = Where<S>::make();
    bool r;
    if (form == 0) { x.assign(a.v, a.n); r = what == 0 ? s.contains(x) : what == 1 ? s.starts_with(x) : s.ends_with(x); }
    else if (form == 1) r = what == 0 ? s.contains(a.v[0]) : what == 1 ? s.starts_with(a.v[0]) : s.ends_with(a.v[0]);
    else if (form == 2) r = what == 0 ? s.contains((const C*)a.v) : what == 1 ? s.starts_with((const C*)a.v) : s.ends_with((const C*)a.v);
    else {
        C tail[8];
        for (size_t i = 0; i < a.n; i++) tail[8 - a.n + i] = a.v[i];
        V v(tail + 8 - a.n, a.n);
        r = what == 0 ? s.contains(v) : what == 1 ? s.starts_with(v) : s.ends_with(v);
    }
    bool e;
    if (what == 0) { e = false; for (size_t i = 0; i <= n; i++) e |= at(o.m, i, a); }
    else if (what == 1) e = at(o.m, 0, a);
    else e = a.n <= n && at(o.m, n - a.n, a);
    sym_assert(r == e, "the answer std::string gives");
    if (r) sym_cover("yes"); else sym_cover("no");
}
template <class S> void copying(size_t N) {
    typedef typename S::value_type C;
    modes(false, sizeof(C));
    Obj<S> o;
    size_t n = sym_pick("len", 0, N);
    build(o, n, (unsigned)sym_pick("state", 0, 4));
    size_t pos = sym_pick("pos", 0, n), cl, c = pickCount("count", n - pos, cl);
    C* d = (C*)malloc((cl ? cl : 1) * sizeof(C));   // room for exactly what is to be copied
    const S& s = o.s;
    size_t r = pos == 0 && sym_pick("default", 0, 1) ? s.copy(d, c) : s.copy(d, c, pos);
    sym_assert(r == cl, "copy returns the number of characters");
    bool ok = true;
    for (size_t i = 0; i < cl; i++) ok &= d[i] == o.m.v[pos + i];
    sym_assert(ok, "copy copies the characters");
    same(o.s, o.m);
    free(d);
    sym_cover("done");
}
}  // namespace
ENTRY(c18_find) { find<S8>(sym_param("N", 4), sym_param("M", 3), false); }
ENTRY(c18_find16) { find<S16>(sym_param("N", 3), sym_param("M", 2), false); }
ENTRY(c18_find32) { find<S32>(sym_param("N", 3), sym_param("M", 2), false); }
ENTRY(c18_long) { find<S8>(sym_param("N", 2), sym_param("M", 2), true); }
ENTRY(c18_deep) { find<S8>(sym_param("N", 7), sym_param("M", 5), true); }
ENTRY(c18_far) { far<S8>(); }
ENTRY(c18_far16) { far<S16>(); }
ENTRY(c18_affix) { affix<S8>(sym_param("N", 4), sym_param("M", 3)); }
ENTRY(c18_affix16) { affix<S16>(sym_param("N", 3), sym_param("M", 2)); }
ENTRY(c18_copy) { copying<S8>(sym_param("N", 4)); }
ENTRY(c18_copy32) { copying<S32>(sym_param("N", 3)); }

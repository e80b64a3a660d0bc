// C24: conversions between string types preserve the characters.
#include <fmt/format.h>
#include "arena_env.h"
#include "astr_env.h"
using namespace st;
namespace {
typedef stdb::memory::basic_string<char> S8;
typedef stdb::memory::basic_string<char16_t> S16;
typedef stdb::memory::basic_string<char32_t> S32;
template <class C, class R> void is(const R& r, const Txt<C>& m, const char* what) {
    bool ok = r.size() == m.n;
    for (size_t i = 0; ok && i < m.n; i++) ok &= r.data()[i] == m.v[i];
    sym_assert(ok, what);
}
template <class S> void to(const S& s, const Txt<typename S::value_type>& m, unsigned how) {
    typedef typename S::value_type C;
    typedef std::basic_string_view<C> V;
    if (how == 0) { V v = s; sym_assert(v.data() == s.data(), "a view shares the characters"); is(v, m, "a view has the characters"); }
    else if (how == 1) { auto r = s.toStdString(); is(r, m, "toStdString gives the characters"); sym_assert(r.c_str()[m.n] == C(), "terminated"); }
    else if (how == 2) { std::basic_string<C> r(s); is(r, m, "a std::string made from a string has the characters"); }
    else if (how == 3) { std::basic_string<C> r; r = s; is(r, m, "a std::string assigned from a string has the characters"); r += s; Txt<C> w = m; w.ins(m.n, m.v, m.n); is(r, w, "a std::string can append a string"); }
    else if (how == 4) { std::basic_string<C> r(s.begin(), s.end()); is(r, m, "the iterators give the characters"); std::basic_string<C> q(s.rbegin(), s.rend()); bool ok = q.size() == m.n; for (size_t i = 0; ok && i < m.n; i++) ok &= q[i] == m.v[m.n - 1 - i]; sym_assert(ok, "the reverse iterators give the characters backwards"); }
    else if (how == 5) { std::basic_string<C> r(s.c_str()); Txt<C> w = m; w.n = 0; while (w.n < m.n && w.v[w.n] != C()) w.n++; is(r, w, "c_str() is the text up to the first NUL"); }
}
template <class S> void from(const Txt<typename S::value_type>& m, unsigned how) {
    typedef typename S::value_type C;
    typedef std::basic_string_view<C> V;
    S s = Where<S>::make();
    bool before = sym_pick("before", 0, 1);
    if (before) { C x = chr<C>(); s.assign(SB + 1, x); if (sym_pick("large", 0, 1)) s.append(MB, x); S t(s); s.swap(t); }
    std::basic_string<C> src(m.v, m.n);
    V v(m.v, m.n);
    if (how == 0) { s = Where<S>::make(v); same(s, m); }
    else if (how == 1) { s = Where<S>::make((const C*)m.v, m.n); same(s, m); }
    else if (how == 2) { s = src; same(s, m); s = std::as_const(src); same(s, m); }
    else if (how == 3) { s.assign(src.data(), src.size()); same(s, m); s.append(src.begin(), src.end()); Txt<C> w = m; w.ins(m.n, m.v, m.n); same(s, w); }
    else if constexpr (sizeof(C) == 1) s = v, same(s, m);
    is(src, m, "the source is unchanged");
}
template <class S> void plain(size_t N, bool wide) {
    typedef typename S::value_type C;
    modes(wide, sizeof(C));
    Obj<S> o;
    size_t n = pickLen("len", N);
    build(o, n, (unsigned)sym_choose("state", 0, 4));
    unsigned dir = (unsigned)sym_choose("dir", 0, 2);
    size_t base = sym_heap_objects();
    if (dir == 0) to(o.s, o.m, (unsigned)sym_pick("how", 0, 5));
    else if (dir == 1) from<S>(o.m, (unsigned)sym_pick("how", 0, 4));
    else {
        unsigned how = (unsigned)sym_pick("how", 0, 7);
        std::basic_string<C> src(o.m.v, n);
        if (how == 0) { S s(src); same(s, o.m); }
        else if (how == 1) { S s = src; same(s, o.m); }
        else if (how == 2) { S s(std::move(src)); same(s, o.m); }
        else if (how == 3) { std::basic_string<C, std::char_traits<C>, std::pmr::polymorphic_allocator<C>> ps(o.m.v, n); S s(ps); same(s, o.m); s = ps; same(s, o.m); }
        else if constexpr (sizeof(C) == 1) {
            if (how == 4) { std::string r = stdb::memory::toStdString(o.s); is(r, o.m, "toStdString gives the characters"); }
            else if (how == 5) { std::string r = std::to_string(o.s); is(r, o.m, "to_string gives the characters"); }
            else if (how == 6) { std::string r = stdb::memory::toStdString(std::move(o.s)); is(r, o.m, "toStdString gives the characters"); sym_cover("done"); return; }
            else { const std::string& r = stdb::memory::toStdString(src); sym_assert(&r == &src, "toStdString of a std::string is the string"); std::string q = stdb::memory::toStdString(std::move(src)); is(q, o.m, "toStdString gives the characters"); }
        }
    }
    same(o.s, o.m, "converting changes nothing");
    sym_assert(sym_heap_objects() == base, "conversions keep no memory");
    sym_cover("done");
}
void arena(size_t N, bool wide) {
    Arena::Options opt = env::opts(512, 1 << 14, 512);
    Arena a(opt);
    where = a.get_memory_resource();
    modes(wide, 1);
    Obj<AS> o;
    size_t n = pickLen("len", N);
    build(o, n, (unsigned)sym_choose("state", 0, 4));
    unsigned dir = (unsigned)sym_choose("dir", 0, 2);
    if (dir == 0) to(o.s, o.m, (unsigned)sym_pick("how", 0, 5));
    else if (dir == 1) from<AS>(o.m, (unsigned)sym_pick("how", 0, 4));
    else {
        unsigned how = (unsigned)sym_pick("how", 0, 4);
        if (how == 0) { std::string r = stdb::memory::toStdString(o.s); is(r, o.m, "toStdString gives the characters"); }
        else if (how == 1) { S8 s; s = std::string_view(o.s); same(s, o.m); o.s = std::string_view(s); }
        else if (how == 2) { S8 s(std::string_view(o.s)); same(s, o.m); AS t = Where<AS>::make(std::string_view(s)); same(t, o.m); }
        else if (how == 3) { S8 s(o.s.begin(), o.s.end()); same(s, o.m); s.append(o.s.data(), n); Txt<char> w = o.m; w.ins(n, o.m.v, n); same(s, w); }
        else { std::string r = stdb::memory::toStdString(std::move(o.s)); is(r, o.m, "toStdString gives the characters"); sym_cover("done"); return; }
    }
    same(o.s, o.m, "converting changes nothing");
    sym_cover("done");
}
// formatting: as fmt formats a view of the same characters
template <class S> void formats(size_t N, bool wide) {
    Arena::Options opt = env::opts(512, 1 << 14, 512);
    Arena a(opt);
    where = a.get_memory_resource();
    modes(wide, 1);
    Obj<S> o;
    size_t n = pickLen("len", N);
    build(o, n, (unsigned)sym_choose("state", 0, 4));
    unsigned spec = (unsigned)sym_pick("spec", 0, wide ? 2 : 4);
    if (spec >= 2) for (size_t i = 0; i < n; i++) sym_assume((unsigned char)o.m.v[i] < 0x80);   // widths count code points
    std::string_view v(o.m.v, n);
    std::string r, e;
    switch (spec) {
        case 0: r = fmt::format("{}", o.s); e.assign(v); break;
        case 1: r = fmt::format("<{}>{{{}", o.s, 7); e = "<"; e.append(v); e += ">{7"; break;
        case 2: r = fmt::format("{:.1}", o.s); e.assign(v.substr(0, 1)); break;
        case 3: r = fmt::format("{:>4}", o.s); if (n < 4) e.assign(4 - n, ' '); e.append(v); break;
        default: r = fmt::format("{:*^5}", o.s); if (n < 5) e.assign((5 - n) / 2, '*'); e.append(v); while (e.size() < 5) e += '*';
    }
    bool ok = r.size() == e.size();
    for (size_t i = 0; ok && i < e.size(); i++) ok &= r[i] == e[i];
    sym_assert(ok, "formatting gives the characters");
    same(o.s, o.m, "formatting changes nothing");
    sym_cover("done");
}
}  // namespace
ENTRY(c24_plain) { plain<S8>(sym_param("N", 3), false); }
ENTRY(c24_plain16) { plain<S16>(sym_param("N", 3), false); }
ENTRY(c24_plain32) { plain<S32>(sym_param("N", 3), false); }
ENTRY(c24_boundary) { plain<S8>(2, true); }
ENTRY(c24_boundary16) { plain<S16>(2, true); }
ENTRY(c24_arena) { arena(sym_param("N", 3), false); }
ENTRY(c24_arena_boundary) { arena(2, true); }
ENTRY(c24_format) { formats<S8>(sym_param("N", 3), false); }
ENTRY(c24_format_boundary) { formats<S8>(2, true); }
ENTRY(c24_format_arena) { formats<AS>(sym_param("N", 2), false); }

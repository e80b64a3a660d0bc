// C22: comparison is a total order consistent with equality and hash.
#include <compare>
#include <functional>
#include "arena_env.h"
#include "astr_env.h"
using namespace st;
namespace {
typedef stdb::memory::basic_string<char> S8;
typedef stdb::memory::basic_string<char16_t> S16;
typedef stdb::memory::basic_string<char32_t> S32;
typedef stdb::memory::basic_string<wchar_t> SW;

// the order of std::string: by the first difference, characters taken as unsigned char; a prefix comes first
template <class C> int order(const Txt<C>& a, const Txt<C>& b) {
    int r = a.n < b.n ? -1 : a.n > b.n;
    for (size_t i = std::min(a.n, b.n); i-- > 0;) {
        bool lt, ne = a.v[i] != b.v[i];
        if constexpr (sizeof(C) == 1) lt = (unsigned char)a.v[i] < (unsigned char)b.v[i]; else lt = a.v[i] < b.v[i];
        r = ne ? (lt ? -1 : 1) : r;
    }
    return r;
}
// every relational operator, both ways
template <class L, class R> void rel(const L& l, const R& r, int e) {
    bool ok = (l == r) == (e == 0);
    ok &= (l != r) == (e != 0);
    ok &= (l < r) == (e < 0);
    ok &= (l <= r) == (e <= 0);
    ok &= (l > r) == (e > 0);
    ok &= (l >= r) == (e >= 0);
    sym_assert(ok, "the relational operators follow the order of std::string");
    bool back = (r == l) == (e == 0);
    back &= (r != l) == (e != 0);
    back &= (r < l) == (e > 0);
    back &= (r <= l) == (e >= 0);
    back &= (r > l) == (e < 0);
    back &= (r >= l) == (e <= 0);
    sym_assert(back, "the relational operators follow the order of std::string, the other way round");
}
bool sign(int c, int e) { return (c < 0) == (e < 0) && (c > 0) == (e > 0); }
template <class L, class R> void three(const L& l, const R& r, int e) {
    auto o = l <=> r;
    sym_assert((o < 0) == (e < 0) && (o > 0) == (e > 0) && (o == 0) == (e == 0), "<=> follows the order of std::string");
}
template <class C> std::basic_string_view<C> view(const Txt<C>& m) { return {m.v, m.n}; }

template <class S> void compares(size_t N, bool wide, unsigned forms) {
    typedef typename S::value_type C;
    modes(wide, sizeof(C));
    unsigned form = (unsigned)sym_choose("form", 0, forms - 1);
    Obj<S> a;
    size_t n = pickLen("len", N);
    build(a, n, (unsigned)sym_choose("state", 0, 4));
    Txt<C> m;
    size_t k = wide ? (sym_pick("samelen", 0, 1) ? n : n + 1 - 2 * sym_pick("shorter", 0, n ? 1 : 0)) : sym_pick("len2", 0, N);
    text(m, k, 0);                       // the same in the middle
    if (form == 1) for (size_t i = 0; i < k; i++) sym_assume(m.v[i] != C());
    int e = order(a.m, m);
    const S& s = a.s;
    if (form == 0) {
        S b = Where<S>::make();
        b.assign(m.v, k);
        unsigned st = (unsigned)sym_pick("state2", 0, 2);
        if (st == 1) b.reserve(MB + k + 2);
        S c(b);
        if (st == 2) { C x = C(); b.append(k + MB, x); b.resize(k); }
        sym_assert(sign(s.compare(b), e) && sign(b.compare(s), -e), "compare follows the order of std::string");
        rel(s, b, e);
        three(s, b, e);
        sym_assert(s == s && s.compare(s) == 0 && c == b && !(c < b) && !(b < c), "a string equals itself and its copy");
        same(b, m);
    } else if (form == 1) {
        const C* p = m.v;
        sym_assert(sign(s.compare(p), e), "compare follows the order of std::string");
        rel(s, p, e);
    } else if (form == 2) {
        std::basic_string_view<C> v = view(m);
        rel(s, v, e);
        three(s, v, e);
        rel(static_cast<std::basic_string_view<C>>(s), v, e);
    } else {
        std::basic_string<C> b(m.v, k);
        rel(s, b, e);
        three(s, b, e);
        three(b, s, -e);
    }
    same(a.s, a.m, "comparing changes nothing");
    if (e < 0) sym_cover("less"); else if (e > 0) sym_cover("greater"); else sym_cover("equal");
}
template <class S> size_t hash(const S& s) { return std::hash<S>()(s); }
// the same characters in two storage states, and reached by different ways, and in an arena
template <class S, class A> void hashes(size_t N, bool wide) {
    typedef typename S::value_type C;
    modes(wide, sizeof(C));
    Arena::Options opt = env::opts(4096, 1 << 14, 4096);
    Arena arena(opt);
    where = arena.get_memory_resource();
    Obj<S> a;
    size_t n = pickLen("len", N);
    build(a, n, (unsigned)sym_choose("state", 0, 4));
    size_t h = hash(a.s);
    unsigned how = (unsigned)sym_pick("how", 0, 6);
    const Txt<C>& m = a.m;
    if (how == 0) { S b(m.v, n); sym_assert(b == a.s && hash(b) == h, "equal strings hash equal"); }
    else if (how == 1) { S b(a.s); sym_assert(hash(b) == h, "a copy hashes equal"); }
    else if (how == 2) {                 // grown and cut back
        S b(m.v, n);
        C x = chr<C>();
        size_t more = sym_pick("more", 0, 1) ? MB + 2 : 3;
        b.append(more, x);
        b.erase(n);
        sym_assert(b == a.s && hash(b) == h, "equal strings hash equal");
    } else if (how == 3) {
        S b = a.s.clone();
        b.shrink_to_fit();
        sym_assert(b == a.s && hash(b) == h, "a clone hashes equal");
    } else if (how == 4) { S b(std::move(a.s)); sym_assert(hash(b) == h, "a moved string hashes as before"); }
    else {
        A b = Where<A>::make((const C*)m.v, n);
        if constexpr (sizeof(C) == 1) if (how == 6) { C x = chr<C>(); b.append(MB + 2, x); b.resize(n); sym_cover("arena, grown"); }
        sym_assert(std::basic_string_view<C>(b) == std::basic_string_view<C>(a.s) && hash(b) == h, "a string and an arena_string with the same characters hash equal");
        sym_cover("arena");
    }
    sym_cover("done");
}
template <class A> void inArena(size_t N, bool wide) {
    Arena::Options opt = env::opts(8192, 1 << 15, 8192);
    Arena arena(opt);
    where = arena.get_memory_resource();
    compares<A>(N, wide, 3);
}
template <class C> using AB = stdb::memory::arena_basic_string<C>;
}  // namespace
ENTRY(c22_order) { compares<S8>(sym_param("N", 2), false, 4); }
ENTRY(c22_order16) { compares<S16>(sym_param("N", 2), false, 4); }
ENTRY(c22_order32) { compares<S32>(sym_param("N", 2), false, 4); }
ENTRY(c22_orderw) { compares<SW>(sym_param("N", 2), false, 4); }
ENTRY(c22_boundary) { compares<S8>(2, true, 4); }
ENTRY(c22_arena) { inArena<AS>(sym_param("N", 2), false); }
ENTRY(c22_hash) { hashes<S8, AS>(sym_param("N", 2), false); }
ENTRY(c22_hash16) { hashes<S16, AB<char16_t>>(sym_param("N", 2), false); }
ENTRY(c22_hash32) { hashes<S32, AB<char32_t>>(sym_param("N", 2), false); }
ENTRY(c22_hashw) { hashes<SW, AB<wchar_t>>(sym_param("N", 2), false); }
ENTRY(c22_boundary32) { compares<S32>(2, true, 4); }
ENTRY(c22_arena_boundary) { inArena<AS>(2, true); }
ENTRY(c22_hash_boundary) { hashes<S8, AS>(2, true); }

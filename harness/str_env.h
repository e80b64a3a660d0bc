// Shared scaffolding of the string harnesses: a text model, all modifiers, all storage states.
#pragma once
#include <stdlib.h>
#include <string.h>
#include <list>
#include <string>
#include <string_view>
#include "string/string.hpp"
#include "sym.h"

namespace st {
#ifndef ST_MAX
#define ST_MAX 900
#endif
enum { MAX = ST_MAX };
template <class C> struct Txt {
    C v[MAX];
    size_t n = 0;
    Txt() {}
    Txt(const Txt& o) : n(o.n) { for (size_t i = 0; i < n; i++) v[i] = o.v[i]; v[n] = C(); }
    Txt& operator=(const Txt& o) { n = o.n; for (size_t i = 0; i < n; i++) v[i] = o.v[i]; return *this; }
    void del(size_t pos, size_t cnt) {
        for (size_t i = pos; i + cnt < n; i++) v[i] = v[i + cnt];
        n -= cnt;
    }
    void ins(size_t pos, const C* p, size_t cnt) {   // p outside of v
        for (size_t i = n; i-- > pos;) v[i + cnt] = v[i];
        for (size_t i = 0; i < cnt; i++) v[pos + i] = p[i];
        n += cnt;
    }
    void fill(size_t pos, size_t cnt, C c) {
        for (size_t i = n; i-- > pos;) v[i + cnt] = v[i];
        for (size_t i = 0; i < cnt; i++) v[pos + i] = c;
        n += cnt;
    }
};
// a stream of characters that can be read once
template <class C> struct Once {
    typedef std::input_iterator_tag iterator_category;
    typedef C value_type;
    typedef std::ptrdiff_t difference_type;
    typedef const C* pointer;
    typedef const C& reference;
    const C** src;   // null: the end
    const C* end;
    const C& operator*() const { sym_assert(*src != end, "read within the range"); return **src; }
    Once& operator++() { ++*src; return *this; }
    const C* operator++(int) { return (*src)++; }
    bool operator==(const Once& o) const { return (src && *src != end) == (o.src && *o.src != o.end); }
};
template <class S> struct Where { template <class... A> static S make(A&&... a) { return S(std::forward<A>(a)...); } };   // specialised for arena_string

template <class S> struct Placed { static void check(const S&) {} };             // specialised for arena_string
template <class S> static void same(const S& s, const Txt<typename S::value_type>& m, const char* what = "the contents are those std::string would have") {
    typedef typename S::value_type C;
    sym_assert(s.size() == m.n && s.length() == m.n && s.empty() == (m.n == 0) && (size_t)(s.end() - s.begin()) == m.n, "the size is the one std::string would have");
    sym_assert(s.capacity() >= m.n, "size within capacity");
    const C* d = s.data();
    bool ok = true;
    for (size_t i = 0; i < m.n; i++) { ok &= d[i] == m.v[i]; if (i % 64 == 63) { sym_assert(ok, what); ok = true; } }
    sym_assert(ok, what);
    sym_assert(s.c_str() == d && d[m.n] == C(), "terminated");
    Placed<S>::check(s);
}
// characters: the first and last ones symbolic, the others all different from their neighbours
template <class C> static C chr() { return sizeof(C) == 1 ? (C)sym_u8("c") : sizeof(C) == 2 ? (C)sym_u16("c") : (C)sym_u32("c"); }
template <class C> static void text(Txt<C>& m, size_t n, unsigned salt = 0) {
    m.n = n;
    for (size_t i = 0; i < n; i++) m.v[i] = i < 2 || i + 1 >= n ? chr<C>() : (C)(1 + (i * 7 + salt * 31 + i / 100) % 120);
    m.v[n] = C();
}
// a text without NULs
template <class C> static void zstr(Txt<C>& m, size_t n, unsigned salt) {
    text(m, n, salt);
    for (size_t i = 0; i < n; i++) sym_assume(m.v[i] != C());
}
template <class C> static size_t zlen(const C* p) { size_t n = 0; while (p[n] != C()) n++; return n; }

// how lengths, positions and counts are chosen
static bool wide_lengths;      // boundary mode
static unsigned SB, MB;        // boundaries of the small and medium storage in characters
static bool no_data;           // leave out writes through data()
static size_t long_len, long_arg;   // lengths of long strings and of arguments to them
static bool few;               // for operations with many arguments
static size_t pickLen(const char* name, size_t N) {
    if (!wide_lengths) return sym_pick(name, 0, N);
    if (long_len) return long_len;
    unsigned k = (unsigned)sym_choose(name, 0, 9);
    const size_t L[] = {0, 2, SB - 1, SB, SB + 1u, SB + 2u, MB - 1, MB, MB + 1u, MB + 3u};
    return L[k];
}
static size_t pickArg(const char* name, size_t N) {
    if (!wide_lengths) return sym_pick(name, 0, N);
    if (long_len) { const size_t L[] = {1, long_arg, 0}; return L[sym_pick(name, 0, 2)]; }
    const size_t L[] = {0, 1, 2, SB - 1, SB + 1u, MB - SB, MB + 2u};
    return L[sym_pick(name, 0, 6)];
}
static size_t pickPos(const char* name, size_t n) {   // 0..n
    if (!wide_lengths || n <= 3) return sym_pick(name, 0, n);
    const size_t L[] = {0, n / 2, n, 1, n - 1};
    return L[sym_pick(name, 0, few ? 2 : 4)];
}
// a count applied to a rest of r characters: any 64-bit value; returns it and its clipped value
static size_t pickCount(const char* name, size_t r, size_t& clipped) {
    if (!wide_lengths || r <= 3) {
        size_t c = sym_u64(name);
        clipped = c > r ? r : (size_t)sym_concretize(c);
        return c;
    }
    const size_t L[] = {r / 2, r, 0, 1, r - 1};
    unsigned k = (unsigned)sym_pick("countkind", 0, few ? 2 : 5);
    if (k) return clipped = L[k - 1];
    size_t c = sym_u64(name);
    sym_assume(c > r);
    clipped = r;
    return c;
}
// a string in one of its storage states
template <class S> struct Obj {
    typedef typename S::value_type C;
    S s;
    S keep;          // a copy that keeps the buffer shared
    Txt<C> m;
    Obj() : s(Where<S>::make()), keep(Where<S>::make()) {}
};
enum { STATES = 5 };
template <class S> static void build(Obj<S>& o, size_t n, unsigned state) {
    typedef typename S::value_type C;
    text(o.m, n);
    o.s.assign(o.m.v, n);
    if (state == 1) o.s.reserve(n + SB + 2);             // at least medium, with room
    else if (state == 2) o.s.reserve(MB + n + 2);        // large, with room
    else if (state >= 3) {
        o.s.reserve(MB + n + 2);
        o.keep = Where<S>::make(o.s);                    // large and shared
        S t(o.s);
        o.s.swap(t);
        if (state == 4) o.keep = Where<S>::make();       // was shared
        sym_cover("shared");
    }
}
// every state that differs for this length
static unsigned pickState(size_t n) {
    (void)n;
    return (unsigned)sym_choose("state", 0, STATES - 1);
}

enum { OPS = 47 };
template <class S> static bool apply(Obj<S>& o, unsigned op, size_t N) {
    typedef typename S::value_type C;
    typedef std::basic_string_view<C> V;
    S& s = o.s;
    Txt<C>& m = o.m;
    const size_t n = m.n;
    few = op == 33;
    // a string argument: another string, the string itself or a copy sharing its buffer
    Txt<C> a;
    S arg = Where<S>::make();
    const S* ap = &arg;
    auto strArg = [&] {
        unsigned k = (unsigned)sym_pick("argkind", 0, n ? 2 : 0);
        if (k == 0) { text(a, pickArg("arglen", N), 1); arg.assign(a.v, a.n); }
        else if (k == 1) { a = m; ap = &s; sym_cover("own contents"); }
        else { a = m; S t(s); arg.swap(t); sym_cover("shared argument"); }
    };
    // a pointer and a length: elsewhere or inside the string
    const C* p = nullptr;
    auto ptrArg = [&] {
        if (n && sym_pick("argkind", 0, 1)) {
            size_t i = pickPos("from", n - 1), c;
            if (wide_lengths) { const size_t L[] = {0, 1, n - i}; c = L[sym_pick("arglen", 0, 2)]; }
            else c = sym_pick("arglen", 0, n - i);
            for (size_t q = 0; q < c; q++) a.v[q] = m.v[i + q];
            a.n = c;
            a.v[c] = C();
            p = std::as_const(s).data() + i;
            sym_cover("own contents");
        } else { text(a, pickArg("arglen", N), 1); p = a.v; }
    };
    // a terminated pointer: elsewhere or a tail of the string
    auto zArg = [&] {
        if (n && sym_pick("argkind", 0, 1)) {
            size_t i = pickPos("from", n);
            for (size_t q = 0; i + q < n; q++) a.v[q] = m.v[i + q];
            a.v[n - i] = C();
            a.n = zlen(a.v);
            p = std::as_const(s).c_str() + i;
            sym_cover("own contents");
        } else { zstr(a, pickArg("arglen", N), 1); p = a.v; }
    };
    auto unchanged = [&] { if (ap == &arg) same(arg, a, "an argument is unchanged"); };
    if (op == 0) { strArg(); S& r = sym_pick("operator", 0, 1) ? s = *ap : s.assign(*ap); sym_assert(&r == &s, "returns the string"); m = a; unchanged(); }
    else if (op == 1) {
        text(a, pickArg("arglen", N), 1);
        arg.assign(a.v, a.n);
        if (sym_pick("operator", 0, 1)) s = std::move(arg); else s.assign(std::move(arg));
        m = a;
        a.n = 0;
        (void)arg.size();
        arg = Where<S>::make();
        same(arg, a, "a moved-from string can be reused");
    }
    else if (op == 2 || op == 14) {
        strArg();
        size_t pos = pickPos("pos", a.n), cl, c = pickCount("count", a.n - pos, cl);
        Txt<C> part;
        for (size_t q = 0; q < cl; q++) part.v[q] = a.v[pos + q];
        part.n = cl;
        if (op == 2) { s.assign(*ap, pos, c); m = part; } else { s.append(*ap, pos, c); m.ins(n, part.v, cl); }
        unchanged();
    }
    else if (op == 3) { ptrArg(); s.assign(p, a.n); m = a; }
    else if (op == 4) { zArg(); if (sym_pick("operator", 0, 1)) s = p; else s.assign(p); m = a; }
    else if (op == 5) { size_t c = pickArg("count", N); C x = chr<C>(); s.assign(c, x); m.n = 0; m.fill(0, c, x); }
    else if (op == 6 || op == 18 || op == 28) {    // ranges
        text(a, pickArg("arglen", N), 1);
        unsigned k = (unsigned)sym_pick("range", 0, 4);
        size_t pos = op == 28 ? pickPos("pos", n) : n;
        typename S::iterator r{};
        if (k == 0) {
            const C *f = a.v, *l = a.v + a.n;
            if (op == 6) s.assign(f, l); else if (op == 18) s.append(f, l); else r = s.insert(s.cbegin() + pos, f, l);
        } else if (k == 1) {
            std::list<C> li(a.v, a.v + a.n);
            if (op == 6) s.assign(li.begin(), li.end()); else if (op == 18) s.append(li.begin(), li.end()); else r = s.insert(s.cbegin() + pos, li.begin(), li.end());
        } else if (k == 2) {
            arg.assign(a.v, a.n);
            for (size_t q = 0; q < a.n / 2; q++) std::swap(a.v[q], a.v[a.n - 1 - q]);
            if (op == 6) s.assign(arg.crbegin(), arg.crend()); else if (op == 18) s.append(arg.crbegin(), arg.crend()); else r = s.insert(s.cbegin() + pos, arg.crbegin(), arg.crend());
        } else if (k == 3) {
            const C* at = a.v;
            Once<C> f{&at, a.v + a.n}, l{nullptr, nullptr};
            if (op == 6) s.assign(f, l); else if (op == 18) s.append(f, l); else r = s.insert(s.cbegin() + pos, f, l);
            sym_assert(at == a.v + a.n, "the whole range is read");
        } else {
            C x = chr<C>(), y = chr<C>();
            a.v[0] = x; a.v[1] = y; a.n = 2;
            std::initializer_list<C> il{x, y};
            if (op == 6) { if (sym_pick("operator", 0, 1)) s = il; else s.assign(il); }
            else if (op == 18) { if (sym_pick("operator", 0, 1)) s += il; else s.append(il); }
            else r = s.insert(s.cbegin() + pos, il);
        }
        if (op == 6) m = a; else m.ins(pos, a.v, a.n);
        if (op == 28) sym_assert(r == s.begin() + pos, "insert returns the position of what it inserted");
    }
    else if (op == 7) { ptrArg(); if constexpr (sizeof(C) == 1) s = V(p, a.n); else s.assign(p, a.n); m = a; }
    else if (op == 8) { C x = chr<C>(); s = x; m.n = 1; m.v[0] = x; }
    else if (op == 9) {
        text(a, pickArg("arglen", N), 1);
        std::basic_string<C> ss(a.v, a.n);
        s = ss;
        m = a;
    }
    else if (op == 10) { s = *&s; s = std::move(*&s); s.assign(s); s.swap(s); }
    else if (op == 13) { strArg(); S& r = sym_pick("operator", 0, 1) ? s += *ap : s.append(*ap); sym_assert(&r == &s, "returns the string"); m.ins(n, a.v, a.n); unchanged(); }
    else if (op == 15) { ptrArg(); s.append(p, a.n); m.ins(n, a.v, a.n); }
    else if (op == 16) { zArg(); if (sym_pick("operator", 0, 1)) s += p; else s.append(p); m.ins(n, a.v, a.n); }
    else if (op == 17) { size_t c = pickArg("count", N); C x = chr<C>(); s.append(c, x); m.fill(n, c, x); }
    else if (op == 19) { ptrArg(); s += V(p, a.n); m.ins(n, a.v, a.n); }
    else if (op == 20) { C x = chr<C>(); if (sym_pick("operator", 0, 1)) s += x; else s.push_back(x); m.fill(n, 1, x); }
    else if (op == 21) { strArg(); size_t pos = pickPos("pos", n); s.insert(pos, *ap); m.ins(pos, a.v, a.n); unchanged(); }
    else if (op == 22) {
        strArg();
        size_t at = pickPos("at", n), pos = pickPos("pos", a.n), cl, c = pickCount("count", a.n - pos, cl);
        s.insert(at, *ap, pos, c);
        m.ins(at, a.v + pos, cl);
        unchanged();
    }
    else if (op == 23) { ptrArg(); size_t pos = pickPos("pos", n); s.insert(pos, p, a.n); m.ins(pos, a.v, a.n); }
    else if (op == 24) { zArg(); size_t pos = pickPos("pos", n); s.insert(pos, p); m.ins(pos, a.v, a.n); }
    else if (op == 25) { size_t c = pickArg("count", N), pos = pickPos("pos", n); C x = chr<C>(); s.insert(pos, c, x); m.fill(pos, c, x); }
    else if (op == 26) {
        size_t pos = pickPos("pos", n);
        C x = chr<C>();
        auto r = s.insert(s.cbegin() + pos, x);
        m.fill(pos, 1, x);
        sym_assert(r == s.begin() + pos, "insert returns the position of what it inserted");
    }
    else if (op == 27) {
        size_t c = pickArg("count", N), pos = pickPos("pos", n);
        C x = chr<C>();
        auto r = s.insert(s.cbegin() + pos, c, x);
        m.fill(pos, c, x);
        sym_assert(r == s.begin() + pos, "insert returns the position of what it inserted");
    }
    else if (op == 29) {
        size_t pos = pickPos("pos", n), cl, c = pickCount("count", n - pos, cl);
        S& r = s.erase(pos, c);
        sym_assert(&r == &s, "returns the string");
        m.del(pos, cl);
    }
    else if (op == 30) {
        if (!n) return false;
        size_t pos = pickPos("pos", n - 1);
        auto r = s.erase(s.begin() + pos);
        m.del(pos, 1);
        sym_assert(r == s.begin() + pos, "erase returns the position after the removed character");
    }
    else if (op == 31) {
        size_t pos = pickPos("pos", n), c = pickPos("count", n - pos);
        auto f = s.begin() + pos;
        auto r = s.erase(f, f + c);
        m.del(pos, c);
        sym_assert(r == s.begin() + pos, "erase returns the position after the removed characters");
    }
    else if (op >= 32 && op <= 37) {   // replace
        size_t pos, cl, c, pos2 = 0, len = 0, c2 = 0;
        C x = C();
        if (op == 32 || op == 33) strArg(); else if (op == 34) ptrArg(); else if (op == 35) zArg();
        unsigned how = 0;
        if (op == 36) { len = c2 = pickArg("count2", N); x = chr<C>(); for (size_t q = 0; q < len; q++) a.v[q] = x; }
        else if (op == 37) {
            how = (unsigned)sym_pick("how", 0, 6);
            if (how == 0) strArg();
            else if (how == 1) ptrArg();
            else if (how == 2) zArg();
            else if (how == 3) { a.n = pickArg("count2", N); x = chr<C>(); for (size_t q = 0; q < a.n; q++) a.v[q] = x; }
            else if (how == 4 || how == 6) text(a, pickArg("arglen", N), 1);
            else ptrArg();
            len = a.n;
        }
        else len = a.n;
        pos = pickPos("pos", n);
        if (op == 33) { pos2 = pickPos("pos2", a.n); size_t l2; c2 = pickCount("count2", a.n - pos2, l2); len = l2; }
        if (op == 37) cl = c = pickPos("count", n - pos); else c = pickCount("count", n - pos, cl);
        if (op == 32) s.replace(pos, c, *ap);
        else if (op == 33) s.replace(pos, c, *ap, pos2, c2);
        else if (op == 34) s.replace(pos, c, p, a.n);
        else if (op == 35) s.replace(pos, c, p);
        else if (op == 36) s.replace(pos, c, c2, x);
        else {
            if (how == 1 || how == 2 || how == 5) {    // p may point into the string, whose buffer begin() may unshare
                if (how == 1) { auto f = s.begin() + pos; s.replace(f, f + c, p, a.n); }
                else if (how == 2) { auto f = s.begin() + pos; s.replace(f, f + c, p); }
                else { auto f = s.begin() + pos; s.replace(f, f + c, p, p + a.n); }
            } else {
                auto f = s.begin() + pos;
                if (how == 0) s.replace(f, f + c, *ap);
                else if (how == 3) s.replace(f, f + c, a.n, x);
                else if (how == 6) { const C* at = a.v; s.replace(f, f + c, Once<C>{&at, a.v + a.n}, Once<C>{nullptr, nullptr}); }
                else { std::list<C> li(a.v, a.v + a.n); s.replace(f, f + c, li.begin(), li.end()); }
            }
        }
        Txt<C> part;
        for (size_t q = 0; q < len; q++) part.v[q] = a.v[pos2 + q];
        m.del(pos, cl);
        m.ins(pos, part.v, len);
        if (op == 32 || op == 33 || (op == 37 && how == 0)) unchanged();
    }
    else if (op == 38) {
        size_t k = wide_lengths ? pickArg("newsize", 0) : sym_pick("newsize", 0, n + N);
        C x = C();
        if (sym_pick("with", 0, 1)) { x = chr<C>(); s.resize(k, x); } else s.resize(k);
        if (k < n) m.n = k; else m.fill(n, k - n, x);
    }
    else if (op == 39) {
        size_t k = wide_lengths ? pickArg("newcap", 0) + n : sym_pick("newcap", 0, n + N);
        if (sym_pick("more", 0, 1)) k += MB + 3;
        s.reserve(k);
        sym_assert(s.capacity() >= k, "reserve gives the capacity");
    }
    else if (op == 40) s.shrink_to_fit();
    else if (op == 41) { s.clear(); m.n = 0; }
    else if (op == 42) { if (!n) return false; s.pop_back(); m.n--; }
    else if (op == 43) {
        text(a, pickArg("arglen", N), 1);
        arg.assign(a.v, a.n);
        if (sym_pick("free", 0, 1)) swap(s, arg); else s.swap(arg);
        Txt<C> t = m; m = a; a = t;
        same(arg, a, "swap exchanges the contents");
    }
    else if (op == 44) {
        size_t pos = pickPos("pos", n), cl, c = pickCount("count", n - pos, cl);
        for (size_t q = 0; q < cl; q++) a.v[q] = m.v[pos + q];
        a.n = cl;
        if (sym_pick("moved", 0, 1)) { S r = std::move(s).substr(pos, c); same(r, a); s = std::move(r); m = a; }
        else { S r = std::as_const(s).substr(pos, c); same(r, a); same(s, m, "substr leaves the string"); arg.swap(r); }
    }
    else if (op == 45) {
        unsigned how = (unsigned)sym_pick("how", 0, 11);
        C x = chr<C>();
        Txt<C> w = m;
        if (how <= 3) { text(a, pickArg("arglen", N), 1); arg.assign(a.v, a.n); w.ins(n, a.v, a.n); }
        else if (how <= 7) { zstr(a, pickArg("arglen", N), 1); if (how == 4 || how == 5) w.ins(0, a.v, a.n); else w.ins(n, a.v, a.n); }
        else if (how == 8 || how == 9) w.fill(0, 1, x);
        else w.fill(n, 1, x);
        const S& cs = s;
        if (how == 0) { S r = cs + *ap; same(r, w); same(s, m); unchanged(); }
        else if (how == 1) { S r = std::move(s) + *ap; same(r, w); unchanged(); s = std::move(r); m = w; }
        else if (how == 2) { S r = cs + std::move(arg); same(r, w); same(s, m); }
        else if (how == 3) { S r = std::move(s) + std::move(arg); same(r, w); s = std::move(r); m = w; }
        else if (how == 4) { S r = (const C*)a.v + cs; same(r, w); same(s, m); }
        else if (how == 5) { S r = (const C*)a.v + std::move(s); same(r, w); s = std::move(r); m = w; }
        else if (how == 6) { S r = cs + (const C*)a.v; same(r, w); same(s, m); }
        else if (how == 7) { S r = std::move(s) + (const C*)a.v; same(r, w); s = std::move(r); m = w; }
        else if (how == 8) { S r = x + cs; same(r, w); same(s, m); }
        else if (how == 9) { S r = x + std::move(s); same(r, w); s = std::move(r); m = w; }
        else if (how == 10) { S r = cs + x; same(r, w); same(s, m); }
        else { S r = std::move(s) + x; same(r, w); s = std::move(r); m = w; }
    }
    else if (op == 46) {   // writes to single characters
        if (!n) return false;
        size_t i = pickPos("index", n - 1);
        C x = chr<C>();
        unsigned how = (unsigned)sym_pick("how", 0, no_data ? 6 : 7);
        switch (how) {
            case 0: s[i] = x; break;
            case 1: s.at(i) = x; break;
            case 2: i = 0; s.front() = x; break;
            case 3: i = n - 1; s.back() = x; break;
            case 4: *(s.begin() + i) = x; break;
            case 5: *(s.end() - (n - i)) = x; break;
            case 6: s.rbegin()[n - 1 - i] = x; break;
            default: s.data()[i] = x;
        }
        m.v[i] = x;
    }
    else if (op == 11) {   // constructors
        unsigned how = (unsigned)sym_pick("how", 0, 9);
        C x = chr<C>();
        if (how == 0) { S r(s); same(r, m); S q(std::move(r)); same(q, m); }
        else if (how == 1) {
            size_t pos = pickPos("pos", n), cl, c = pickCount("count", n - pos, cl);
            S r = Where<S>::make(s, pos, c);
            for (size_t q = 0; q < cl; q++) a.v[q] = m.v[pos + q];
            a.n = cl;
            same(r, a);
        }
        else if (how == 2) { ptrArg(); S r = Where<S>::make(p, a.n); same(r, a); }
        else if (how == 3) { zArg(); S r = Where<S>::make(p); same(r, a); }
        else if (how == 4) { a.fill(0, pickArg("count", N), x); S r = Where<S>::make(a.n, x); same(r, a); }
        else if (how == 5) { text(a, pickArg("arglen", N), 1); std::list<C> li(a.v, a.v + a.n); S r = Where<S>::make(li.begin(), li.end()); same(r, a); }
        else if (how == 6) { ptrArg(); S r = Where<S>::make(p, p + a.n); same(r, a); }
        else if (how == 7) { ptrArg(); S r = Where<S>::make(V(p, a.n)); same(r, a); }
        else if (how == 8) { text(a, pickArg("arglen", N), 1); const C* at = a.v; S r = Where<S>::make(Once<C>{&at, a.v + a.n}, Once<C>{nullptr, nullptr}); same(r, a); }
        else { a.v[0] = x; a.v[1] = C(); a.n = 2; S r = Where<S>::make(std::initializer_list<C>{x, C()}); same(r, a); }
    }
    else if (op == 12) { S r = s.clone(); same(r, m); sym_assert(std::as_const(r).data() != std::as_const(s).data(), "a clone has its own characters"); }
    else return false;
    return true;
}
static void modes(bool wide, size_t ch) {
    wide_lengths = wide;
    SB = (unsigned)(23 / ch);
    MB = (unsigned)(254 / ch);
}
// one operation on a string of n characters with arguments of up to c
template <class S> static void one(size_t n, size_t c) {
    modes(true, sizeof(typename S::value_type));
    long_len = n;
    long_arg = c;
    Obj<S> o;
    build(o, n, pickState(n));
    if (!apply(o, (unsigned)sym_choose("op0", 0, OPS - 1), c)) return;
    same(o.s, o.m);
    sym_cover("done");
}
template <class S> static void history(bool wide, unsigned K, size_t N) {
    modes(wide, sizeof(typename S::value_type));
    Obj<S> o;
    size_t n = pickLen("len", N);
    build(o, n, pickState(n));
    for (unsigned i = 0; i < K; i++) {
        unsigned op = (unsigned)(i == 0 ? sym_choose("op0", 0, OPS - 1) : sym_pick("op", 0, OPS - 1));
        if (!apply(o, op, N)) return;
        same(o.s, o.m);
    }
    sym_cover("done");
}
}  // namespace st

// Shared scaffolding of the stdb_vector harnesses: element types, a sequence model, all modifiers.
#pragma once
#include <stdlib.h>
#include <string.h>
#include <deque>
#include <initializer_list>
#include <list>
#include "container/stdb_vector.hpp"
#include "sym.h"
using stdb::container::stdb_vector;
using stdb::container::Safety;

namespace vt {
static int64_t live;          // tracked elements alive
// an element that owns memory and knows its own address
struct Base {
    const void* self;
    int* p;
    explicit Base(int v) : self(this), p(new int(v)) { live++; }
    int get() const {
        sym_assert(self == this, "only living elements are read");
        sym_assert(p != nullptr, "no moved-from element is left in the sequence");
        return *p;
    }
    ~Base() {
        sym_assert(self == this, "only living elements are destroyed");
        self = nullptr;
        delete p;
        live--;
    }
protected:
    Base(const Base& o, int) : self(this), p(nullptr) { sym_assert(o.self == &o, "only living elements are copied"); p = o.p ? new int(*o.p) : nullptr; live++; }
    Base(Base& o, long) : self(this), p(o.p) { sym_assert(o.self == &o, "only living elements are moved"); o.p = nullptr; live++; }
    void set(const Base& o) { sym_assert(self == this && o.self == &o, "only living elements are assigned"); int* q = o.p ? new int(*o.p) : nullptr; delete p; p = q; }
    void take(Base& o) { sym_assert(self == this && o.self == &o, "only living elements are assigned"); if (this != &o) { delete p; p = o.p; o.p = nullptr; } }
};
struct Full : Base {           // copyable and movable
    explicit Full(int v) : Base(v) {}
    Full() : Base(0) {}
    Full(const Full& o) : Base(o, 0) {}
    Full(Full&& o) noexcept : Base(o, 0L) {}
    Full& operator=(const Full& o) { set(o); return *this; }
    Full& operator=(Full&& o) noexcept { take(o); return *this; }
};
struct MoveOnly : Base {
    explicit MoveOnly(int v) : Base(v) {}
    MoveOnly() : Base(0) {}
    MoveOnly(const MoveOnly&) = delete;
    MoveOnly(MoveOnly&& o) noexcept : Base(o, 0L) {}
    MoveOnly& operator=(const MoveOnly&) = delete;
    MoveOnly& operator=(MoveOnly&& o) noexcept { take(o); return *this; }
};
struct CopyOnly : Base {       // its move operations are deleted
    explicit CopyOnly(int v) : Base(v) {}
    CopyOnly() : Base(0) {}
    CopyOnly(const CopyOnly& o) : Base(o, 0) {}
    CopyOnly(CopyOnly&&) = delete;
    CopyOnly& operator=(const CopyOnly&) = delete;
    CopyOnly& operator=(CopyOnly&&) = delete;
};
// relocatable: may be moved bytewise, owns memory
struct Rel {
    int* p;
    explicit Rel(int v) : p(new int(v)) { live++; }
    Rel() : Rel(0) {}
    Rel(const Rel& o) : p(new int(*o.p)) { live++; }
    Rel(Rel&& o) noexcept : p(o.p) { o.p = nullptr; live++; }
    Rel& operator=(const Rel& o) { if (this != &o) { int* q = new int(*o.p); delete p; p = q; } return *this; }
    Rel& operator=(Rel&& o) noexcept { if (this != &o) { delete p; p = o.p; o.p = nullptr; } return *this; }
    ~Rel() { delete p; live--; }
    int get() const { sym_assert(p != nullptr, "no moved-from element is left in the sequence"); return *p; }
};
// an element without memory of its own that knows its own address
struct Track {
    const void* self;
    int v;
    explicit Track(int x) : self(this), v(x) { live++; }
    Track() : Track(0) {}
    Track(const Track& o) : self(this), v(o.get()) { live++; }
    Track(Track&& o) noexcept : self(this), v(o.get()) { live++; }
    Track& operator=(const Track& o) { (void)get(); v = o.get(); return *this; }
    Track& operator=(Track&& o) noexcept { (void)get(); v = o.get(); return *this; }
    ~Track() { (void)get(); self = nullptr; live--; }
    int get() const { sym_assert(self == this, "only living elements are used"); return v; }
};
struct RelPlain {              // relocatable, without memory of its own
    int v;
    explicit RelPlain(int x) : v(x) { live++; }
    RelPlain() : RelPlain(0) {}
    RelPlain(const RelPlain& o) : v(o.v) { live++; }
    RelPlain(RelPlain&& o) noexcept : v(o.v) { live++; }
    RelPlain& operator=(const RelPlain& o) { v = o.v; return *this; }
    RelPlain& operator=(RelPlain&& o) noexcept { v = o.v; return *this; }
    ~RelPlain() { live--; }
    int get() const { return v; }
};
struct Pod { int v; char pad[20]; int w; };
struct Huge { int v; char pad[60]; };   // one element fills the initial capacity

static inline int val(int x) { return x; }
static inline int val(unsigned char x) { return x; }
static inline int val(const Pod& x) { sym_assert(x.v == x.w, "elements are moved as a whole"); return x.v; }
static inline int val(const Huge& x) { return x.v; }
template <class T> static int val(const T& x) { return x.get(); }
template <class T> struct Mk { static T of(int v) { return T(v); } };
template <> struct Mk<unsigned char> { static unsigned char of(int v) { return (unsigned char)v; } };
template <> struct Mk<Pod> { static Pod of(int v) { Pod p{}; p.v = p.w = v; return p; } };
template <> struct Mk<Huge> { static Huge of(int v) { Huge p{}; p.v = v; return p; } };
#define EQ(T) static inline bool operator==(const T& a, const T& b) { return val(a) == val(b); }
EQ(Track) EQ(RelPlain) EQ(Full) EQ(MoveOnly) EQ(CopyOnly) EQ(Rel) EQ(Pod) EQ(Huge)

#ifndef VT_MAX
#define VT_MAX 28
#define VT_ARG 8
#endif
static bool many;             // long vectors: positions, counts and values from short lists
struct Seq {
    int v[VT_MAX];
    unsigned n = 0;
    Seq() {}
    Seq(const Seq& o) : n(o.n) { memcpy(v, o.v, n * sizeof(int)); }
    Seq& operator=(const Seq& o) { if (this != &o) { n = o.n; memcpy(v, o.v, n * sizeof(int)); } return *this; }
    void ins(unsigned pos, unsigned cnt, const int* x, bool same) {
        for (unsigned i = n; i-- > pos;) v[i + cnt] = v[i];
        for (unsigned i = 0; i < cnt; i++) v[pos + i] = same ? *x : x[i];
        n += cnt;
    }
    void del(unsigned pos, unsigned cnt) {
        for (unsigned i = pos; i + cnt < n; i++) v[i] = v[i + cnt];
        n -= cnt;
    }
};
template <class T> static void same(const stdb_vector<T>& a, const Seq& m, const char* what = "the elements are those of the sequence") {
    sym_assert(a.size() == m.n && a.empty() == (m.n == 0), "the size is that of the sequence");
    sym_assert(a.capacity() >= a.size(), "size within capacity");
    bool ok = true;
    for (unsigned i = 0; i < m.n; i++) { ok &= val(a.data()[i]) == m.v[i]; if (i % 64 == 63) { sym_assert(ok, what); ok = true; } }
    sym_assert(ok, what);
}
template <class T> static constexpr bool tracked = std::is_base_of_v<Base, T> || std::is_same_v<T, Rel> || std::is_same_v<T, RelPlain> || std::is_same_v<T, Track>;
template <class T> static void balance(int64_t n) { if (tracked<T>) sym_assert(live == n, "exactly the elements of the sequence are alive"); }

template <class T> static int fresh() {
    static unsigned next;
    if (many) return (int)(next = next * 7 % 251 + 1);
    if (sizeof(T) == 1) return sym_u8("v");
    return (int)sym_u32("v");
}
// n elements, room for spare more (n == 0 and spare == 0: no buffer at all)
template <class T> static void build(stdb_vector<T>& a, Seq& m, unsigned n, unsigned spare) {
    if (n + spare) a.reserve(n + spare);
    for (unsigned i = 0; i < n; i++) {
        int x = fresh<T>();
        a.template emplace_back<Safety::Unsafe>(Mk<T>::of(x));
        m.v[m.n++] = x;
    }
}
template <class T> static void buildC(stdb_vector<T>& a, Seq& m, unsigned n, unsigned spare) {   // for types without a move
    if (n + spare) a.reserve(n + spare);
    for (unsigned i = 0; i < n; i++) {
        int x = fresh<T>();
        a.template emplace_back<Safety::Unsafe>(x);
        m.v[m.n++] = x;
    }
}
enum { OPS = 28 };
// one modifier with all its arguments; false when it does not apply
template <class T> static bool apply(stdb_vector<T>& a, Seq& m, unsigned op, unsigned C) {
    constexpr bool cp = std::is_copy_constructible_v<T>, mv = std::is_move_constructible_v<T>;
    typedef typename stdb_vector<T>::iterator It;
    unsigned n = m.n;
    auto pos = [&]() -> unsigned {
        if (!many) return (unsigned)sym_pick("pos", 0, n);
        const unsigned L[] = {0, n / 2, n, n - 1};
        return L[sym_pick("pos", 0, 3)];
    };
    auto at = [&]() -> unsigned {
        if (!many) return (unsigned)sym_pick("at", 0, n - 1);
        const unsigned L[] = {0, n / 2, n - 1};
        return L[sym_pick("at", 0, 2)];
    };
    auto upto = [&](const char* name, unsigned lo, unsigned hi) -> unsigned {     // a number of elements
        if (!many) return (unsigned)sym_pick(name, lo, hi);
        const unsigned L[] = {hi, lo, lo + (hi - lo) / 2, hi > lo ? hi - 1 : hi};
        return L[sym_pick(name, 0, 3)];
    };
    if (op == 0) {           // push_back(const&), a value of its own or an element
        if constexpr (cp) {
            if (n && sym_pick("own_element", 0, 1)) { unsigned i = at(); int x = m.v[i]; a.push_back(a[i]); m.v[m.n++] = x; sym_cover("own element"); }
            else { int x = fresh<T>(); const T t(Mk<T>::of(x)); a.push_back(t); m.v[m.n++] = x; }
        } else return false;
    } else if (op == 1) {
        if constexpr (mv) { int x = fresh<T>(); T t(Mk<T>::of(x)); a.push_back(std::move(t)); m.v[m.n++] = x; } else return false;
    } else if (op == 2) {
        int x;
        It r;
        if (cp && n && sym_pick("own_element", 0, 1)) {
            if constexpr (cp) { unsigned i = at(); x = m.v[i]; r = a.emplace_back(a[i]); }
        } else {
            x = fresh<T>();
            if constexpr (tracked<T>) r = a.emplace_back(x); else r = a.emplace_back(Mk<T>::of(x));
        }
        m.v[m.n++] = x;
        sym_assert(r == a.begin() + n, "emplace_back returns the new element's position");
    } else if (op == 3) {
        if constexpr (cp) {
            unsigned p = pos(); int x; It r;
            if (n && sym_pick("own_element", 0, 1)) { unsigned i = at(); x = m.v[i]; r = a.insert(a.cbegin() + p, a[i]); sym_cover("own element"); }
            else { x = fresh<T>(); const T t(Mk<T>::of(x)); r = a.insert(a.cbegin() + p, t); }
            m.ins(p, 1, &x, true);
            sym_assert(r == a.begin() + p, "insert returns the new element's position");
        } else return false;
    } else if (op == 4) {
        if constexpr (mv) {
            unsigned p = pos(); int x = fresh<T>();
            T t(Mk<T>::of(x));
            It r = a.insert(a.cbegin() + p, std::move(t));
            m.ins(p, 1, &x, true);
            sym_assert(r == a.begin() + p, "insert returns the new element's position");
        } else return false;
    } else if (op == 5) {
        if constexpr (cp) {
            unsigned p = pos(), c = upto("count", 0, C); int x; It r;
            if (n && sym_pick("own_element", 0, 1)) { unsigned i = at(); x = m.v[i]; r = a.insert(a.cbegin() + p, c, a[i]); sym_cover("own element"); }
            else { x = fresh<T>(); const T t(Mk<T>::of(x)); r = a.insert(a.cbegin() + p, (size_t)c, t); }
            m.ins(p, c, &x, true);
            sym_assert(r == a.begin() + p, "insert returns the first new element's position");
        } else return false;
    } else if (op == 6) {    // range, from an array or from a deque
        if constexpr (cp && mv) {
            unsigned p = pos(), c = upto("count", 0, C); It r;
            int xs[VT_ARG];
            stdb_vector<T> src;
            Seq ms;
            src.reserve(many ? C : 8);
            for (unsigned i = 0; i < c; i++) { xs[i] = fresh<T>(); src.push_back(Mk<T>::of(xs[i])); ms.v[ms.n++] = xs[i]; }
            switch (sym_pick("from", 0, std::is_same_v<T, int> ? 3 : 2)) {
                case 3:
                    if constexpr (std::is_same_v<T, int>) {      // a range of another element type
                        short sh[VT_ARG];
                        for (unsigned i = 0; i < c; i++) { sh[i] = many ? (short)i : (short)sym_u16("h"); xs[i] = sh[i]; }
                        r = a.insert(a.cbegin() + p, (const short*)sh, (const short*)sh + c);
                    }
                    break;
                case 0: r = a.insert(a.cbegin() + p, src.data(), src.data() + c); break;
                case 1: r = a.insert(a.cbegin() + p, src.cbegin(), src.cend()); break;
                default: {
                    r = a.insert(a.cbegin() + p, src.rbegin(), src.rend());
                    for (unsigned i = 0; i < c / 2; i++) std::swap(xs[i], xs[c - 1 - i]);
                    sym_cover("reverse range");
                }
            }
            m.ins(p, c, xs, false);
            sym_assert(r == a.begin() + p, "insert returns the first new element's position");
            same(src, ms, "the inserted range is unchanged");
        } else return false;
    } else if (op == 7) {
        if constexpr (cp && mv) {
            unsigned p = pos(); int xs[2] = {fresh<T>(), fresh<T>()};
            It r = a.insert(a.cbegin() + p, {Mk<T>::of(xs[0]), Mk<T>::of(xs[1])});
            m.ins(p, 2, xs, false);
            sym_assert(r == a.begin() + p, "insert returns the first new element's position");
        } else return false;
    } else if (op == 8 || op == 9) {
        unsigned p = pos(); int x; It r;
        if (cp && n && sym_pick("own_element", 0, 1)) {
            if constexpr (cp) {
                unsigned i = at(); x = m.v[i];
                const T& e = a[i];
                if (op == 8) r = a.emplace(a.begin() + p, e); else r = a.emplace((size_t)p, e);
                sym_cover("own element");
            }
        } else {
            x = fresh<T>();
            if constexpr (tracked<T>) { if (op == 8) r = a.emplace(a.begin() + p, x); else r = a.emplace((size_t)p, x); }
            else { if (op == 8) r = a.emplace(a.begin() + p, Mk<T>::of(x)); else r = a.emplace((size_t)p, Mk<T>::of(x)); }
        }
        m.ins(p, 1, &x, true);
        sym_assert(r == a.begin() + p, "emplace returns the new element's position");
    } else if (op == 10 || op == 11) {
        if (!n) return false;
        unsigned p = at();
        It r = op == 10 ? a.erase(a.begin() + p) : a.erase(a.cbegin() + p);
        m.del(p, 1);
        sym_assert(r == a.begin() + p, "erase returns the position after the removed element");
    } else if (op == 12 || op == 13) {
        unsigned p = pos(), q = upto("last", p, n);
        It r = op == 12 ? a.erase(a.begin() + p, a.begin() + q) : a.erase(a.cbegin() + p, a.cbegin() + q);
        m.del(p, q - p);
        sym_assert(r.operator->() == a.data() + q, "erase of a range returns its second argument");
    } else if (op == 14) {
        int x = fresh<T>();
        unsigned k = 0, c = 0;
        size_t r;
        if constexpr (tracked<T>) { const T t(x); r = a.erase(t); } else { const T t = Mk<T>::of(x); r = a.erase(t); }
        for (unsigned i = 0; i < n; i++) if (m.v[i] == x) c++; else m.v[k++] = m.v[i];
        m.n = k;
        sym_assert(r == c, "erase by value returns how many it removed");
        if (c > 1) sym_cover("several removed");
    } else if (op == 15) {
        int x = fresh<T>();
        unsigned k = 0, c = 0;
        size_t r = a.erase_if([&](const T& t) { return val(t) < x; });
        for (unsigned i = 0; i < n; i++) if (m.v[i] < x) c++; else m.v[k++] = m.v[i];
        m.n = k;
        sym_assert(r == c, "erase_if returns how many it removed");
    } else if (op == 16) {
        if (!n) return false;
        a.pop_back();
        m.n--;
    } else if (op == 17) {
        unsigned k = upto("newsize", 0, n + C);
        a.resize(k);
        for (unsigned i = n; i < k; i++) m.v[i] = 0;
        m.n = k;
    } else if (op == 18) {
        if constexpr (cp) {
            unsigned k = upto("newsize", 0, n + C); int x;
            if (n && sym_pick("own_element", 0, 1)) { unsigned i = at(); x = m.v[i]; a.resize(k, a[i]); }
            else { x = fresh<T>(); const T t(Mk<T>::of(x)); a.resize(k, t); }
            for (unsigned i = n; i < k; i++) m.v[i] = x;
            m.n = k;
        } else return false;
    } else if (op == 19) {
        if constexpr (cp) {
            unsigned k = upto("newsize", 0, n + C);
            int x = fresh<T>();
            const T t(Mk<T>::of(x));
            a.assign((size_t)k, t);
            for (unsigned i = 0; i < k; i++) m.v[i] = x;
            m.n = k;
        } else return false;
    } else if (op == 20) {
        if constexpr (cp && mv) {
            unsigned k = upto("newsize", 0, n + C);
            stdb_vector<T> src;
            Seq ms;
            src.reserve(many ? n + C : 16);
            for (unsigned i = 0; i < k; i++) { int x = fresh<T>(); src.push_back(Mk<T>::of(x)); ms.v[ms.n++] = x; }
            m = ms;
            switch (sym_pick("from", 0, !std::is_same_v<T, int> ? 2 : many ? 3 : 4)) {
                case 4:
                    if constexpr (std::is_same_v<T, int>) {   // no random access
                        std::list<int> li;
                        for (unsigned i = 0; i < k; i++) li.push_back(m.v[i]);
                        a.assign(li.begin(), li.end());
                    }
                    break;
                case 3:
                    if constexpr (std::is_same_v<T, int>) {
                        std::deque<int> dq;
                        for (unsigned i = 0; i < k; i++) dq.push_back(m.v[i]);
                        a.assign(dq.begin(), dq.end());
                    }
                    break;
                case 0: a.assign(src.data(), src.data() + k); break;
                case 1: a.assign(src.begin(), src.end()); break;
                default:
                    a.assign(src.rbegin(), src.rend());
                    for (unsigned i = 0; i < k / 2; i++) std::swap(m.v[i], m.v[k - 1 - i]);
            }
            same(src, ms, "the assigned range is unchanged");
        } else return false;
    } else if (op == 21) {
        a.clear();
        m.n = 0;
    } else if (op == 22) {
        unsigned k = upto("newcap", 0, n + C);
        a.reserve(k);
        sym_assert(a.capacity() >= k, "reserve gives the capacity");
    } else if (op == 23) {
        a.shrink_to_fit();
        sym_assert(a.capacity() == a.size(), "shrink_to_fit releases the spare capacity");
    } else if (op == 24) {   // exchange with another vector
        unsigned k = upto("other", 0, many ? C : 2), sp = (unsigned)sym_pick("otherspare", 0, 1);
        stdb_vector<T> b;
        Seq mb;
        if constexpr (mv) build(b, mb, k, sp); else buildC(b, mb, k, sp);
        if (sym_pick("std", 0, 1)) std::swap(a, b); else a.swap(b);
        Seq t = m; m = mb; mb = t;
        same(b, mb, "swap exchanges the contents");
    } else if (op == 25) {   // copy
        if constexpr (cp) {
            if (sym_pick("assign", 0, 1)) {
                unsigned k = upto("other", 0, n + 1), sp = (unsigned)sym_pick("otherspare", 0, 1);
                stdb_vector<T> b;
                Seq mb;
                if constexpr (mv) build(b, mb, k, sp); else buildC(b, mb, k, sp);
                a = b;
                same(b, mb, "the source of a copy is unchanged");
                m = mb;
                a = *&a;
            } else {
                stdb_vector<T> b(a);
                same(b, m, "a copy has the same elements");
                sym_assert(b.data() != a.data() || !n, "a copy has its own elements");
                a = stdb_vector<T>(b);
            }
        } else return false;
    } else if (op == 26) {   // move
        unsigned k = upto("other", 0, many ? C : 2);
        stdb_vector<T> b;
        Seq mb;
        if constexpr (mv) build(b, mb, k, 1); else buildC(b, mb, k, 1);
        if (sym_pick("assign", 0, 1)) {
            a = std::move(b);
            m = mb;
            mb.n = 0;
            same(b, mb, "a moved-from vector is empty");
        } else {
            stdb_vector<T> c(std::move(a));
            same(c, m, "a move keeps the elements");
            m.n = 0;
            same(a, m, "a moved-from vector is empty");
        }
    } else {                 // constructors
        unsigned k = upto("newsize", 0, C);
        unsigned how = (unsigned)sym_pick("how", 0, 3);
        if (how == 0) { stdb_vector<T> b((size_t)k); Seq z; for (z.n = 0; z.n < k; z.n++) z.v[z.n] = 0; same(b, z, "constructed elements are value-initialised"); }
        else if constexpr (cp && mv) {
            int x = fresh<T>();
            const T t(Mk<T>::of(x));
            Seq z;
            if (how == 1) { stdb_vector<T> b((size_t)k, t); for (z.n = 0; z.n < k; z.n++) z.v[z.n] = x; same(b, z, "constructed from a value"); }
            else if (how == 2) { stdb_vector<T> b(a.cbegin(), a.cend()); same(b, m, "constructed from a range"); }
            else { stdb_vector<T> b{t, t}; z.n = 2; z.v[0] = z.v[1] = x; same(b, z, "constructed from a list"); }
        } else return false;
    }
    return true;
}
template <class T> static void history(bool values) {
    unsigned N = (unsigned)sym_param("N", 3), C = (unsigned)sym_param("C", 3), K = (unsigned)sym_param("K", 1);
    {
        stdb_vector<T> a;
        Seq m;
        unsigned n = (unsigned)sym_choose("n", 0, N), spare = (unsigned)sym_pick("spare", 0, 3);
        if constexpr (std::is_move_constructible_v<T>) build(a, m, n, spare); else buildC(a, m, n, spare);
        for (unsigned i = 0; i < K; i++) {
            unsigned op = (unsigned)(i == 0 ? sym_choose("op0", 0, OPS - 1) : sym_pick("op", 0, OPS - 1));
            if (!apply(a, m, op, C)) return;
            if (values) same(a, m);
            else { sym_assert(a.size() == m.n, "the size is that of the sequence"); for (unsigned q = 0; q < m.n; q++) (void)val(a.data()[q]); }
            if (!values) balance<T>(m.n);
        }
        sym_cover("done");
    }
    if (values) return;
    balance<T>(0);
    sym_assert(sym_heap_objects() == 0, "no memory is left");
}
// one operation on a vector of n elements
template <class T> static void one(bool values, unsigned n, unsigned C) {
    many = true;
    {
        stdb_vector<T> a;
        Seq m;
        unsigned spare = sym_pick("spare", 0, 1) ? C : 0;
        if constexpr (std::is_move_constructible_v<T>) build(a, m, n, spare); else buildC(a, m, n, spare);
        if (!apply(a, m, (unsigned)sym_choose("op0", 0, OPS - 1), C)) return;
        same(a, m);
        balance<T>(m.n);
        sym_cover("done");
    }
    balance<T>(0);
    if (!values) sym_assert(sym_heap_objects() == 0, "no memory is left");
}
}  // namespace vt
namespace stdb { template <> struct Relocatable<vt::Rel> : std::true_type {};
template <> struct Relocatable<vt::RelPlain> : std::true_type {}; }

// C16: access, iteration and comparison of stdb_vector agree.
#include <vector>
#include "vec_env.h"
#include <compare>
#include <iterator>
#include <ranges>
using namespace vt;
template <class T> static T elem(int x) { return Mk<T>::of(x); }
struct Ord {        // ordered by one field only
    int key, tag;
    explicit Ord(int v) : key(v), tag(0) {}
    Ord() : Ord(0) {}
    bool operator==(const Ord& o) const { return key == o.key; }
    auto operator<=>(const Ord& o) const { return key <=> o.key; }
    int get() const { return key; }
};
template <class T> static void access() {
    unsigned N = (unsigned)sym_param("N", 4);
    stdb_vector<T> a;
    Seq m;
    build(a, m, (unsigned)sym_pick("n", 0, N), (unsigned)sym_pick("spare", 0, 1));
    const stdb_vector<T>& c = a;
    unsigned n = m.n;
    same(a, m);
    sym_assert(c.size() == n && c.empty() == (n == 0) && c.data() == a.data(), "const and non-const access agree");
    bool ok = true;
    unsigned i = 0;
    for (auto& e : a) { ok &= i < n && &e == a.data() + i; i++; }
    sym_assert(ok && i == n, "range-for presents every element in order");
    i = 0;
    for (const auto& e : c) { ok &= i < n && &e == a.data() + i; i++; }
    sym_assert(ok && i == n, "range-for presents every element in order");
    i = 0;
    for (auto it = a.rbegin(); it != a.rend(); ++it) { ok &= i < n && &*it == a.data() + (n - 1 - i); i++; }
    sym_assert(ok && i == n, "reverse iteration presents every element backwards");
    i = 0;
    for (auto it = c.rbegin(); it != c.rend(); it++) { ok &= i < n && &*it == a.data() + (n - 1 - i); i++; }
    sym_assert(ok && i == n, "reverse iteration presents every element backwards");
    i = 0;
    for (auto it = c.crbegin(); it != c.crend(); it++) { ok &= i < n && &*it == a.data() + (n - 1 - i); i++; }
    sym_assert(ok && i == n, "reverse iteration presents every element backwards");
    i = n;
    for (auto it = a.end(); it != a.begin();) { --it; i--; ok &= &*it == a.data() + i; }
    for (auto it = c.cend(); it != c.cbegin();) { auto was = it--; ok &= was - it == 1; }
    sym_assert(ok && i == 0, "iteration backwards from the end");
    sym_assert((size_t)(a.end() - a.begin()) == n && (size_t)(c.end() - c.begin()) == n && (size_t)(c.cend() - c.cbegin()) == n && (size_t)std::distance(a.rbegin(), a.rend()) == n, "the distance is the size");
    if (!n) { sym_assert(a.begin() == a.end() && c.begin() == c.end() && a.rbegin() == a.rend(), "an empty vector has an empty range"); sym_cover("empty"); return; }
    sym_assert(&a.front() == a.data() && &c.front() == a.data() && &a.back() == a.data() + n - 1 && &c.back() == a.data() + n - 1, "front and back are the first and the last element");
    // any index, any pair of positions
    size_t x = sym_u64("index");
    sym_assume(x < n);
    sym_assert(&a[x] == a.data() + x && &a.at(x) == a.data() + x && &c[x] == a.data() + x && &c.at(x) == a.data() + x, "indexing");
    sym_assert(&a.begin()[x] == a.data() + x && &c.cbegin()[x] == a.data() + x && &*(a.begin() + (ptrdiff_t)x) == a.data() + x && &*((ptrdiff_t)x + c.begin()) == a.data() + x, "iterator arithmetic");
    size_t p = sym_u64("p"), q = sym_u64("q");
    sym_assume(p <= n && q <= n);
    auto ip = a.begin() + (ptrdiff_t)p, iq = a.begin() + (ptrdiff_t)q;
    auto cp = c.cbegin(), cq = c.cend();
    cp += (ptrdiff_t)p;
    cq -= (ptrdiff_t)(n - q);
    sym_assert(ip - iq == (ptrdiff_t)p - (ptrdiff_t)q && cp - cq == (ptrdiff_t)p - (ptrdiff_t)q, "the difference of two positions");
    sym_assert((ip == iq) == (p == q) && (ip != iq) == (p != q) && (ip < iq) == (p < q) && (ip <= iq) == (p <= q) && (ip > iq) == (p > q) && (ip >= iq) == (p >= q), "the order of two positions");
    sym_assert((cp == cq) == (p == q) && (cp < cq) == (p < q) && ((cp <=> cq) == 0) == (p == q), "the order of two positions");
    sym_assert(typename stdb_vector<T>::const_iterator(ip) == cp, "an iterator converts to a const iterator of the same position");
    sym_assert(a.end() - (ptrdiff_t)(n - q) == iq, "iterator arithmetic");
    auto r = a.rbegin() + (ptrdiff_t)x;
    sym_assert(&*r == a.data() + (n - 1 - x) && &a.rbegin()[(ptrdiff_t)x] == a.data() + (n - 1 - x), "reverse iterator arithmetic");
    auto it = a.begin() + (ptrdiff_t)x;
    auto old = it++;
    sym_assert(&*old == a.data() + x && it - old == 1 && &*--it == a.data() + x, "stepping");
    typename stdb_vector<T>::iterator asg;
    asg = it;
    sym_assert(asg == it && it.operator->() == a.data() + x, "assigned iterators");
    // a write through any path is seen through the others
    int v = fresh<T>();
    unsigned path = (unsigned)sym_pick("path", 0, 5);
    size_t at = (size_t)sym_concretize(x);
    if (path == 0) a[x] = elem<T>(v);
    else if (path == 1) a.at(x) = elem<T>(v);
    else if (path == 2) *(a.begin() + (ptrdiff_t)x) = elem<T>(v);
    else if (path == 3) a.data()[x] = elem<T>(v);
    else if (path == 4) { at = 0; a.front() = elem<T>(v); }
    else { at = n - 1; a.back() = elem<T>(v); }
    m.v[at] = v;
    same(a, m);
    sym_cover("done");
}
ENTRY(c16_access_int) { access<int>(); }
ENTRY(c16_access_byte) { access<unsigned char>(); }
ENTRY(c16_access_pod) { access<Pod>(); }
ENTRY(c16_access_class) { access<Full>(); }

static int want3(const Seq& a, const Seq& b) {   // lexicographic
    unsigned n = a.n < b.n ? a.n : b.n;
    for (unsigned i = 0; i < n; i++) {
        if (a.v[i] < b.v[i]) return -1;
        if (a.v[i] > b.v[i]) return 1;
    }
    return a.n < b.n ? -1 : a.n > b.n ? 1 : 0;
}
template <class T> static void compare() {
    unsigned N = (unsigned)sym_param("N", 3);
    stdb_vector<T> a, b;
    Seq ma, mb;
    build(a, ma, (unsigned)sym_pick("n", 0, N), (unsigned)sym_pick("spare", 0, 1));
    build(b, mb, (unsigned)sym_pick("m", 0, N), (unsigned)sym_pick("spare2", 0, 1));
    bool eq = ma.n == mb.n;
    for (unsigned i = 0; i < ma.n && i < mb.n; i++) eq = eq && ma.v[i] == mb.v[i];
    const auto &ca = a, &cb = b;
    sym_assert((ca == cb) == eq && (ca != cb) == !eq && (cb == ca) == eq, "equality is elementwise");
    int w = want3(ma, mb);
    auto o = ca <=> cb;
    sym_assert((o < 0) == (w < 0) && (o > 0) == (w > 0) && (o == 0) == (w == 0), "the order is lexicographic");
    sym_assert((ca < cb) == (w < 0) && (ca <= cb) == (w <= 0) && (ca > cb) == (w > 0) && (ca >= cb) == (w >= 0), "the relational operators follow the order");
    sym_assert((cb < ca) == (w > 0), "the order is antisymmetric");
    sym_assert(ca == ca && !(ca < ca), "a vector equals itself");
    same(a, ma);
    same(b, mb);
    if (w < 0) sym_cover("less");
    if (w > 0) sym_cover("greater");
    if (eq && ma.n) sym_cover("equal");
}
ENTRY(c16_compare_int) { compare<int>(); }
ENTRY(c16_compare_byte) { compare<unsigned char>(); }
ENTRY(c16_compare_class) { compare<Ord>(); }
// elements that may be unordered
ENTRY(c16_compare_double) {
    static const double vals[] = {0.0 / 0.0 * -1, -0.0, 0.0, 1.5, -2.0};
    unsigned N = (unsigned)sym_param("N", 2);
    size_t n = sym_pick("n", 0, N), m = sym_pick("m", 0, N);
    stdb_vector<double> a, b;
    std::vector<double> x, y;
    for (size_t i = 0; i < n; i++) { x.push_back(vals[sym_pick("a", 0, 4)]); a.push_back(x.back()); }
    for (size_t i = 0; i < m; i++) { y.push_back(vals[sym_pick("b", 0, 4)]); b.push_back(y.back()); }
    sym_assert((a == b) == (x == y) && (a != b) == (x != y), "equality is elementwise");
    auto o = a <=> b;
    auto p = x <=> y;
    sym_assert((o < 0) == (p < 0) && (o > 0) == (p > 0) && (o == 0) == (p == 0), "the order is lexicographic");
    sym_assert((a < b) == (x < y) && (a <= b) == (x <= y) && (a > b) == (x > y) && (a >= b) == (x >= y), "the relational operators follow the order");
    if (p < 0) sym_cover("less");
    if (p > 0) sym_cover("greater");
    if (x == y && n) sym_cover("equal");
    if (!(p < 0) && !(p > 0) && !(p == 0)) sym_cover("unordered");
}

// C16: access and comparison of vectors with more elements than 8 or 16 bits can count.
#include "sym.h"
#include "container/stdb_vector.hpp"
#include <compare>
using stdb::container::stdb_vector;
namespace {
template <class T> void many() {
    size_t W = sym_param("W", 256);
    const size_t L[5] = {W - 1, W, W + 1, W + W / 2, 2 * W + 44};
    size_t n = L[sym_choose("n", 0, 4)], k = sym_pick("rel", 0, 3);
    size_t m = k == 0 ? n : k == 1 ? n - 1 : k == 2 ? n + W : n % W;
    stdb_vector<T> a, b;
    for (size_t i = 0; i < n; i++) a.push_back((T)(i * 7 % 251));
    for (size_t i = 0; i < m; i++) b.push_back((T)(i * 7 % 251));
    // one element of each is anything
    const size_t P[5] = {0, n / 2, n - 1, W - 1, W};
    size_t p = P[sym_pick("p", 0, 4)];
    if (p >= n) p = n - 1;
    T x = (T)sym_u8("x"), y = (T)sym_u8("y");
    a[p] = x;
    bool in = p < m;
    if (in) b[p] = y;
    sym_assert(a.size() == n && (size_t)(a.end() - a.begin()) == n && (size_t)(a.rend() - a.rbegin()) == n && a.capacity() >= n, "the size");
    sym_assert(a.at(p) == x && a.data()[p] == x && *(a.begin() + (ptrdiff_t)p) == x && *(a.rbegin() + (ptrdiff_t)(n - 1 - p)) == x && a.back() == a[n - 1] && a.front() == a[0], "all ways of access give the same element");
    size_t seen = 0;
    bool same = true;
    for (const T& e : a) { same &= &e == a.data() + seen; seen++; }
    sym_assert(seen == n && same, "iteration visits every element once");
    seen = 0;
    for (auto i = a.rbegin(); i != a.rend(); ++i) seen++;
    sym_assert(seen == n, "reverse iteration visits every element once");
    size_t c = n < m ? n : m;
    int w = in && x != y ? (x < y ? -1 : 1) : n < m ? -1 : n > m;
    if (!in && p < c) w = 0;
    const auto &ca = a, &cb = b;
    auto o = ca <=> cb;
    sym_assert((ca == cb) == (w == 0) && (ca != cb) == (w != 0) && (cb == ca) == (w == 0), "equality is elementwise");
    sym_assert((o < 0) == (w < 0) && (o > 0) == (w > 0) && (ca < cb) == (w < 0) && (ca > cb) == (w > 0) && (ca <= cb) == (w <= 0) && (ca >= cb) == (w >= 0), "the order is lexicographic");
    if (w < 0) sym_cover("less");
    if (w > 0) sym_cover("greater");
    if (w == 0) sym_cover("equal");
}
}  // namespace
ENTRY(c16_many_int) { many<int>(); }
ENTRY(c16_many_byte) { many<unsigned char>(); }

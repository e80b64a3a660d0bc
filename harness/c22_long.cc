// C22: order of strings longer than 8 or 16 bits can count.
#include <compare>
#include <string>
#include "sym.h"
#include "string/string.hpp"
namespace {
typedef stdb::memory::basic_string<char> S8;
void long_order() {
    size_t W = sym_param("W", 256);
    const size_t L[5] = {W - 1, W, W + 1, W + W / 2, 2 * W + 44};
    size_t n = L[sym_choose("n", 0, 4)], k = sym_pick("rel", 0, 3);
    size_t m = k == 0 ? n : k == 1 ? n - 1 : k == 2 ? n + W : n % W;
    std::string ra(n, 'q'), rb(m, 'q');
    const size_t P[5] = {0, n / 2, n - 1, W - 1, W};
    size_t p = P[sym_pick("p", 0, 4)];
    if (p >= n) p = n - 1;
    char x = (char)sym_u8("x"), y = (char)sym_u8("y");
    ra[p] = x;
    if (p < m) rb[p] = y;
    S8 a(ra.data(), n), b(rb.data(), m);
    bool x0 = p < m;
    int w = x0 && x != y ? ((unsigned char)x < (unsigned char)y ? -1 : 1) : !x0 && p < m ? 0 : n < m ? -1 : n > m;
    auto sgn = [](int v) { return v < 0 ? -1 : v > 0; };
    auto all = [&](const auto& l, const auto& r, int e) {
        bool ok = (l == r) == (e == 0);
        ok &= (l != r) == (e != 0);
        ok &= (l < r) == (e < 0);
        ok &= (l <= r) == (e <= 0);
        ok &= (l > r) == (e > 0);
        ok &= (l >= r) == (e >= 0);
        sym_assert(ok, "the relational operators follow the order of std::string");
    };
    all(a, b, w);
    all(b, a, -w);
    all(a, rb, w);
    all(rb, a, -w);
    auto o = a <=> b;
    sym_assert((o < 0) == (w < 0) && (o > 0) == (w > 0), "<=> follows the order");
    sym_assert(sgn(a.compare(b)) == w && sgn(a.compare(0, n, b)) == w && sgn(a.compare(0, n, rb.data(), m)) == w && sgn(a.compare(0, n, b, 0, m)) == w, "compare follows the order");
    sym_cover(w < 0 ? "less" : w > 0 ? "greater" : "equal");
}
}  // namespace
ENTRY(c22_long) { long_order(); }
ENTRY(c22_longest) { long_order(); }

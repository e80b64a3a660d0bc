// C10: alignment helpers and size literals.
#include <stdlib.h>
#include "align/align.hpp"
#include "memory.hpp"
#include "sym.h"
using namespace stdb::memory;
template <uint64_t N> static void upTo(uint64_t n) {
    uint64_t r = align::AlignUpTo<N>(n);
    if (n <= ~0ULL - (N - 1)) {
        sym_assert(r % N == 0 && r >= n && r - n < N, "AlignUpTo gives the smallest multiple not below n");
        sym_cover("representable");
    }
}
ENTRY(c10_align_up_to) {
    uint64_t n = sym_u64("n");
    switch (sym_pick("N", 3, 12)) {
        case 3: upTo<8>(n); break;
        case 4: upTo<16>(n); break;
        case 5: upTo<32>(n); break;
        case 6: upTo<64>(n); break;
        case 7: upTo<128>(n); break;
        case 8: upTo<256>(n); break;
        case 9: upTo<512>(n); break;
        case 10: upTo<1024>(n); break;
        case 11: upTo<2048>(n); break;
        default: upTo<4096>(n);
    }
}
// r is the smallest multiple of b not below n; stated without division of r by b
static void up(uint64_t n, uint64_t b) {
    uint64_t r = align::AlignUp(n, b);
    uint64_t q = n / b, m = n - q * b;   // n = q*b + m, m < b
    if (m == 0) sym_assert(r == n, "a multiple is its own result");
    else if (n <= ~0ULL - (b - m)) sym_assert(r == n + (b - m), "AlignUp gives the smallest multiple not below n");
    sym_cover(m ? "rounded" : "exact");
}
ENTRY(c10_align_up_pow2) { up(sym_u64("n"), 1ULL << sym_pick("log2 b", 0, 40)); }
// all block sizes of a narrower type
ENTRY(c10_align_up_small) { up(sym_range("n", 0, sym_param("N", 1023)), sym_range("b", 1, sym_param("B", 63))); }
// full 64-bit n, some block sizes that are no power of two
ENTRY(c10_align_up_wide) {
    static const uint64_t B[] = {3, 24, 100, 1000, 4095, 4097, 12288, 1000003};
    uint64_t b = B[sym_choose("bi", 0, 7)];
    uint64_t n = sym_param("bits", 64) == 64 ? sym_u64("n") : sym_u32("n");
    uint64_t r = align::AlignUp(n, b);
    if (n <= ~0ULL - b) sym_assert(r >= n && r - n < b, "AlignUp is at least n and less than one block above");
    sym_cover("wide");
}
// the values closest to 2^64, block sizes of every shape
ENTRY(c10_align_up_top) {
    static const uint64_t B[] = {3, 5, 7, 10, 12, 24, 48, 100, 1000, 4095, 4096, 4097, 12288, 65521};
    uint64_t b = B[sym_choose("bi", 0, 13)];
    up(~0ULL - sym_range("below 2^64", 0, 2 * b), b);
}
ENTRY(c10_literals) {
    using namespace literals;
    char s[16];
    unsigned len = (unsigned)sym_choose("len", 1, sym_param("L", 7));
    uint64_t v = 0;
    for (unsigned i = 0; i < len; i++) {
        uint8_t c = sym_u8("digit");
        sym_assume(c >= '0' && c <= '9');
        s[i] = (char)c;
        v = v * 10 + (c - '0');
    }
    s[len] = 0;
    switch (sym_pick("unit", 0, 2)) {
        case 0: sym_assert(operator""_KB(s) == v << 10, "_KB is 2^10 times the literal"); break;
        case 1: sym_assert(operator""_MB(s) == v << 20, "_MB is 2^20 times the literal"); break;
        default: sym_assert(operator""_GB(s) == v << 30, "_GB is 2^30 times the literal");
    }
    sym_cover("done");
}

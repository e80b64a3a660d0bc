// C15: elements of a type with an extended alignment are aligned for their type.
#include "vec_env.h"
namespace {
struct alignas(32) W32 { int v; W32(int x = 0) : v(x) {} };
struct alignas(64) W64 { int v; W64(int x = 0) : v(x) {} W64(const W64& o) : v(o.v) {} W64(W64&& o) noexcept : v(o.v) {} W64& operator=(const W64&) = default; ~W64() {} };
template <class T> void ok(const stdb::container::stdb_vector<T>& a, size_t n) {
    sym_assert(a.size() == n && a.size() <= a.capacity(), "the size");
    if (a.data()) sym_assert(sym_addr(a.data()) % alignof(T) == 0, "the elements are aligned for their type");
}
template <class T> void run() {
    using V = stdb::container::stdb_vector<T>;
    unsigned how = (unsigned)sym_choose("how", 0, 5);
    size_t n = sym_pick("n", 0, 3);
    T e[3]{T(1), T(2), T(3)};
    V a = how == 0 ? V() : how == 1 ? V(n) : how == 2 ? V(n, T(7)) : how == 3 ? V(e, e + n) : how == 4 ? V(V(n, T(5))) : V{};
    if (how == 5) { V b(n, T(6)); a = b; ok(b, n); }
    if (!how) n = 0;
    ok(a, n);
    for (unsigned i = 0, k = (unsigned)sym_param("K", 2); i < k; i++) {
        switch ((unsigned)sym_pick("op", 0, 7)) {
            case 0: a.push_back(T(8)); n++; break;
            case 1: a.emplace_back(9); n++; break;
            case 2: a.reserve(n + 5); break;
            case 3: a.resize(n + 3); n += 3; break;
            case 4: a.insert(a.cbegin(), 2, T(4)); n += 2; break;
            case 5: a.shrink_to_fit(); break;
            case 6: { auto w = a.get_writebuffer(2); for (auto& x : w) new (&x) T(3); n += 2; break; }
            default: a.assign((size_t)4, T(2)); n = 4; break;
        }
        ok(a, n);
    }
    if (n > 5) sym_cover("grown");
}
}
ENTRY(c15_align) { if (sym_choose("type", 0, 1)) run<W64>(); else run<W32>(); }

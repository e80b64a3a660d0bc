// C13, C14: element types that are easy to mistake for plain bytes.
#include "vec_env.h"
#include <vector>
namespace {
struct S { int a, b; };
struct M { int S::* p; int k; };
union U { int i; float f; U() : i(7) {} };
enum class Tiny : signed char { A = -1, B = 5 };
int live;
struct Byte {                      // one byte, its value as int is not its content
    unsigned char c;
    explicit Byte(int x = 3) : c((unsigned char)x) { live++; }
    Byte(const Byte& o) : c(o.c) { live++; }
    Byte(Byte&& o) noexcept : c(o.c) { live++; }
    Byte& operator=(const Byte&) = default;
    ~Byte() { live--; }
    operator int() const { return 255 - c; }
};
struct Odd { unsigned char c; operator int() const { return c ^ 0x55; } };   // trivial, one byte
template <class T> T make(int);
template <> int S::* make<int S::*>(int x) { return x % 2 ? &S::b : x % 3 ? &S::a : nullptr; }
template <> M make<M>(int x) { return M{make<int S::*>(x), x}; }
template <> U make<U>(int x) { U u; u.i = x; return u; }
template <> Tiny make<Tiny>(int x) { return (Tiny)(signed char)x; }
template <> Byte make<Byte>(int x) { return Byte(x); }
template <> Odd make<Odd>(int x) { return Odd{(unsigned char)x}; }
template <class T> bool eq(const T& a, const T& b) {
    if constexpr (std::is_same_v<T, M>) return a.p == b.p && a.k == b.k;
    else if constexpr (std::is_same_v<T, U>) return a.i == b.i;
    else if constexpr (std::is_same_v<T, Byte> || std::is_same_v<T, Odd>) return a.c == b.c;
    else return a == b;
}
template <class T> void same(const stdb::container::stdb_vector<T>& a, const std::vector<T>& b) {
    sym_assert(a.size() == b.size() && a.size() <= a.capacity(), "the size is that of the sequence");
    bool ok = true;
    for (size_t i = 0; i < a.size() && i < b.size(); i++) ok &= eq(a[i], b[i]);
    sym_assert(ok, "the elements are those of the sequence");
    sym_assert(live == (std::is_same_v<T, Byte> ? (int)(a.size() + b.size()) : 0), "exactly the elements of the sequence are alive");
}
template <class T> void run() {
    live = 0;
    {
    unsigned how = (unsigned)sym_pick("how", 0, 3);
    size_t n = sym_pick("n", 0, 3);
    int x = std::is_same_v<T, M> || std::is_same_v<T, int S::*> ? (int)sym_pick("which", 0, 3) : (int)sym_u32("x");
    stdb::container::stdb_vector<T> a = how == 0 ? stdb::container::stdb_vector<T>() : how == 1 ? stdb::container::stdb_vector<T>(n) : how == 2 ? stdb::container::stdb_vector<T>(n, make<T>(x)) : stdb::container::stdb_vector<T>{make<T>(x), make<T>(2)};
    std::vector<T> b = how == 0 ? std::vector<T>() : how == 1 ? std::vector<T>(n) : how == 2 ? std::vector<T>(n, make<T>(x)) : std::vector<T>{make<T>(x), make<T>(2)};
    same(a, b);
    for (unsigned i = 0, k = (unsigned)sym_param("K", 2); i < k; i++) {
        size_t m = sym_pick("m", 0, 3), p = sym_pick("at", 0, b.size() < 2 ? b.size() : 2);
        switch ((unsigned)sym_pick("op", 0, 7)) {
            case 0: a.resize(m); b.resize(m); break;
            case 1: a.resize(m, make<T>(x)); b.resize(m, make<T>(x)); break;
            case 2: a.assign(m, make<T>(x)); b.assign(m, make<T>(x)); break;
            case 3: a.insert(a.cbegin() + (ptrdiff_t)p, m, make<T>(x)); b.insert(b.begin() + (ptrdiff_t)p, m, make<T>(x)); break;
            case 4: a.push_back(make<T>(x)); b.push_back(make<T>(x)); break;
            case 5: a.insert(a.cbegin() + (ptrdiff_t)p, make<T>(1)); b.insert(b.begin() + (ptrdiff_t)p, make<T>(1)); break;
            case 6: if (p < b.size()) { a.erase(a.begin() + (ptrdiff_t)p); b.erase(b.begin() + (ptrdiff_t)p); } break;
            default: { stdb::container::stdb_vector<T> c(a); std::vector<T> d(b); a.clear(); b.clear(); a = std::move(c); b = std::move(d); break; }
        }
        same(a, b);
    }
    if (b.size() > 3) sym_cover("grown");
    }
    sym_assert(live == 0, "no element is left");
}
}
ENTRY(c13_member) { run<int S::*>(); }
ENTRY(c13_holds_member) { run<M>(); }
ENTRY(c13_union) { run<U>(); }
ENTRY(c13_tiny) { run<Tiny>(); }
ENTRY(c13_odd) { run<Odd>(); }
ENTRY(c14_one_byte) { run<Byte>(); }
// std::erase compares with the value given, whatever its type
ENTRY(c13_erase_other) {
    stdb::container::stdb_vector<int> a;
    std::vector<int> b;
    size_t n = sym_pick("n", 0, 3);
    for (size_t i = 0; i < n; i++) { b.push_back((int)sym_u32("x")); a.push_back(b.back()); }
    size_t r = 0, w = 0;
    switch ((unsigned)sym_pick("as", 0, 3)) {
        case 0: { long long v = (long long)sym_u64("v"); r = std::erase(a, v); w = std::erase(b, v); break; }
        case 1: { for (size_t i = 0; i < n; i++) { b[i] = (int)i; a[i] = (int)i; } double v = sym_pick("half", 0, 1) ? 1.5 : 1; r = std::erase(a, v); w = std::erase(b, v); break; }
        case 2: { signed char v = (signed char)sym_u8("v"); r = std::erase(a, v); w = std::erase(b, v); break; }
        default: { int v = (int)sym_u32("v"); r = std::erase(a, v); w = std::erase(b, v); break; }
    }
    sym_assert(r == w, "erase returns the number of elements erased");
    sym_assert(a.size() == b.size(), "the size is that of the sequence");
    bool ok = true;
    for (size_t i = 0; i < a.size() && i < b.size(); i++) ok &= a[i] == b[i];
    sym_assert(ok, "the elements are those of the sequence");
    if (w > 1) sym_cover("erased");
}

// Library functions that the encoded code calls and that are only available as machine code:
// plain C++ implementations of their documented behaviour. (Not part of the code under test.)
#include <bits/stl_tree.h>
#include <cstddef>
#include <cstdint>
#include <list>
#include <memory_resource>
#include <new>
#include <unordered_map>
#include <utility>

extern "C" {
void* memchr(const void* p, int c, size_t n) {
    auto* q = (const unsigned char*)p;
    for (size_t i = 0; i < n; i++) if (q[i] == (unsigned char)c) return (void*)(q + i);
    return nullptr;
}
void* memrchr(const void* p, int c, size_t n) {
    auto* q = (const unsigned char*)p;
    for (size_t i = n; i-- > 0;) if (q[i] == (unsigned char)c) return (void*)(q + i);
    return nullptr;
}
size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char* s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int strcmp(const char* a, const char* b) {
    while (*a && *a == *b) { a++; b++; }
    return (int)(unsigned char)*a - (int)(unsigned char)*b;
}
int strncmp(const char* a, const char* b, size_t n) {
    for (size_t i = 0; i < n; i++) { if (a[i] != b[i]) return (int)(unsigned char)a[i] - (int)(unsigned char)b[i]; if (!a[i]) return 0; }
    return 0;
}
char* strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; } }
char* strcpy(char* d, const char* s) { size_t i = 0; do d[i] = s[i]; while (s[i++]); return d; }
size_t wcslen(const wchar_t* s) { size_t n = 0; while (s[n]) n++; return n; }
int wmemcmp(const wchar_t* a, const wchar_t* b, size_t n) { for (size_t i = 0; i < n; i++) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return 0; }
wchar_t* wmemcpy(wchar_t* d, const wchar_t* s, size_t n) { for (size_t i = 0; i < n; i++) d[i] = s[i]; return d; }
wchar_t* wmemset(wchar_t* d, wchar_t c, size_t n) { for (size_t i = 0; i < n; i++) d[i] = c; return d; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isdigit(c) || isalpha(c); }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static struct { const char* n; const char* v; } kenv[8];
static bool sameText(const char* a, const char* b) { return strcmp(a, b) == 0; }
char* getenv(const char* n) { for (auto& k : kenv) if (k.n && sameText(k.n, n)) return (char*)k.v; return nullptr; }
char* secure_getenv(const char* n) { return getenv(n); }
int setenv(const char* n, const char* v, int) { for (auto& k : kenv) if (!k.n || sameText(k.n, n)) { k.n = n; k.v = v; return 0; } return -1; }
static int kerrno;
int* __errno_location() { return &kerrno; }
static long kstrtoll(const char* s, char** end, int base) {
    const char* p = s;
    while (isspace((unsigned char)*p)) p++;
    bool neg = false;
    if (*p == '+' || *p == '-') neg = *p++ == '-';
    unsigned long v = 0, lim = neg ? 1UL << 63 : (1UL << 63) - 1;
    bool any = false, over = false;
    for (; *p; p++) {
        int d = *p >= '0' && *p <= '9' ? *p - '0' : *p >= 'a' && *p <= 'z' ? *p - 'a' + 10 : *p >= 'A' && *p <= 'Z' ? *p - 'A' + 10 : 99;
        if (d >= base) break;
        any = true;
        if (!over) { if (v > (lim - d) / base) over = true; else v = v * base + d; }
    }
    if (end) *end = (char*)(any ? p : s);
    if (over) { kerrno = 34; return neg ? (long)(1UL << 63) : (long)lim; }
    return neg ? (long)(0 - v) : (long)v;
}
long ks_strtol(const char* s, char** end, int base) asm("strtol");
long ks_strtol(const char* s, char** end, int base) { return kstrtoll(s, end, base); }
long ks_strtoll(const char* s, char** end, int base) asm("strtoll");
long ks_strtoll(const char* s, char** end, int base) { return kstrtoll(s, end, base); }
long ks_strtol2(const char* s, char** end, int base) asm("__isoc23_strtol");
long ks_strtol2(const char* s, char** end, int base) { return kstrtoll(s, end, base); }
long ks_strtoll2(const char* s, char** end, int base) asm("__isoc23_strtoll");
long ks_strtoll2(const char* s, char** end, int base) { return kstrtoll(s, end, base); }
}

namespace std {
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
}
// red-black tree primitives (insertion/removal without recolouring is a valid search tree; ordering and
// reachability, the only behaviour callers can observe, are the same)
static _Rb_tree_node_base* inc(_Rb_tree_node_base* x) {
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    if (x->_M_right != y) x = y;
    return x;
}
static _Rb_tree_node_base* dec(_Rb_tree_node_base* x) {
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
    if (x->_M_left) { _Rb_tree_node_base* y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    return y;
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return inc(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return inc(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return dec(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return dec(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
    x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;
    if (left) {
        p->_M_left = x;
        if (p == &h) { h._M_parent = x; h._M_right = x; }
        else if (p == h._M_left) h._M_left = x;
    } else {
        p->_M_right = x;
        if (p == h._M_right) h._M_right = x;
    }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
    _Rb_tree_node_base*& root = h._M_parent;
    auto replace = [&](_Rb_tree_node_base* o, _Rb_tree_node_base* n) {
        if (root == o) root = n; else if (o->_M_parent->_M_left == o) o->_M_parent->_M_left = n; else o->_M_parent->_M_right = n;
        if (n) n->_M_parent = o->_M_parent;
    };
    if (!z->_M_left) replace(z, z->_M_right);
    else if (!z->_M_right) replace(z, z->_M_left);
    else {
        _Rb_tree_node_base* y = z->_M_right;
        while (y->_M_left) y = y->_M_left;
        if (y->_M_parent != z) { replace(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
        replace(z, y);
        y->_M_left = z->_M_left;
        y->_M_left->_M_parent = y;
    }
    if (!root) { h._M_left = h._M_right = &h; }
    else {
        _Rb_tree_node_base* m = root; while (m->_M_left) m = m->_M_left; h._M_left = m;
        m = root; while (m->_M_right) m = m->_M_right; h._M_right = m;
    }
    return z;
}

size_t _Hash_bytes(const void* p, size_t n, size_t seed) {
    uint64_t h = seed;
    for (size_t i = 0; i < n; i++) h = h * 31 + ((const unsigned char*)p)[i];
    return h;
}
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
    size_t b = 13;
    while (b < n) b = b * 2 + 1;
    _M_next_resize = b;
    return b;
}
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const {
    if (elt + ins > _M_next_resize) {
        size_t want = elt + ins;
        if (want < 11 && !_M_next_resize) want = 11;
        if (want >= bkt) return {true, _M_next_bkt(want + 1 > bkt * 2 ? want + 1 : bkt * 2)};
        _M_next_resize = bkt;
    }
    return {false, 0};
}
}  // namespace __detail

namespace pmr {
struct ks_nd : memory_resource {
    void* do_allocate(size_t n, size_t a) override { return a > 16 ? ::operator new(n, std::align_val_t(a)) : ::operator new(n); }
    void do_deallocate(void* p, size_t n, size_t a) override { if (a > 16) ::operator delete(p, n, std::align_val_t(a)); else ::operator delete(p, n); }
    bool do_is_equal(const memory_resource& o) const noexcept override { return this == &o; }
};
memory_resource* new_delete_resource() noexcept { static ks_nd r; return &r; }
memory_resource* get_default_resource() noexcept { return new_delete_resource(); }
}  // namespace pmr
}  // namespace std
// xxHash: the same bytes, length and seed give the same value; nothing else is assumed of it
extern "C" uint64_t XXH3_64bits_withSeed(const void* p, size_t n, uint64_t seed) {
    uint64_t h = seed ^ 0x9e3779b97f4a7c15ull;
    for (size_t i = 0; i < n; i++) h = (h ^ ((const unsigned char*)p)[i]) * 0x100000001b3ull + (h >> 29);
    return h;
}

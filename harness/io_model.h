// The parts of libstdc++'s stream classes that live in its shared library, modelled for the encoded build (the classic locale).
// Everything else of the streams is header code and is encoded as it is.
#pragma once
#ifdef KSYM
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#endif
#include <istream>
#include <locale>
#include <new>
#include <ostream>
#include <streambuf>
#ifdef KSYM
#include <cstring>
namespace ks_io {
struct Impl { int refs; const void** facets; size_t facets_size; const void** caches; char** names; };
inline const void* facets[3];
inline Impl impl = {1, facets, 3, nullptr, nullptr};
struct C8 : std::ctype<char> {
    static constexpr size_t tableAt() { return __builtin_offsetof(C8, _M_table); }
    static constexpr size_t okAt() { return __builtin_offsetof(C8, _M_widen_ok); }
    static constexpr size_t widenAt() { return __builtin_offsetof(C8, _M_widen); }
};
alignas(16) inline unsigned char raw[sizeof(C8)];
inline std::ctype_base::mask table[256];
inline const std::ctype<char>* classic() {
    if (!raw[C8::okAt()]) {
        for (unsigned i = 0; i < 256; i++) {
            bool sp = i == ' ' || (i >= 9 && i <= 13), di = i >= '0' && i <= '9', up = i >= 'A' && i <= 'Z', lo = i >= 'a' && i <= 'z';
            table[i] = (sp ? std::ctype_base::space : 0) | (di ? std::ctype_base::digit : 0) | (up ? std::ctype_base::upper : 0) | (lo ? std::ctype_base::lower : 0) |
                       (up || lo ? std::ctype_base::alpha : 0);
            raw[C8::widenAt() + i] = (unsigned char)i;
        }
        const std::ctype_base::mask* t = table;
        memcpy(raw + C8::tableAt(), &t, sizeof t);
        raw[C8::okAt()] = 1;
    }
    return reinterpret_cast<const std::ctype<char>*>(raw);
}
}  // namespace ks_io
namespace std {
static void ks_setup();
locale::locale() noexcept { ks_setup(); void* p = &ks_io::impl; memcpy((void*)this, &p, sizeof p); }
locale::locale(const locale& o) noexcept { memcpy((void*)this, (const void*)&o, sizeof(void*)); }
locale::~locale() noexcept {}
const locale& locale::operator=(const locale& o) noexcept { memcpy((void*)this, (const void*)&o, sizeof(void*)); return *this; }
locale::id ctype<char>::id;
locale::id ctype<wchar_t>::id;
size_t locale::id::_M_id() const noexcept { return this == &std::ctype<char>::id ? 1 : this == &std::ctype<wchar_t>::id ? 2 : 0; }
struct ks_wide : ctype<wchar_t> {
    bool do_is(mask m, wchar_t c) const override { return (m & ctype_base::space) && (c == L' ' || (c >= 9 && c <= 13)); }
    wchar_t do_widen(char c) const override { return (unsigned char)c; }
};
alignas(16) static unsigned char ks_wide_raw[sizeof(ks_wide)];
ctype<wchar_t>::ctype(size_t r) : __ctype_abstract_base<wchar_t>(r) {}
ctype<wchar_t>::~ctype() {}
locale::facet::~facet() {}
static void ks_setup() {
    if (ks_io::facets[1]) return;
    ks_io::facets[1] = ks_io::classic();
    ks_io::facets[2] = (const ctype<wchar_t>*)new (ks_wide_raw) ks_wide;
}
ios_base::ios_base() noexcept
    : _M_precision(), _M_width(), _M_flags(), _M_exception(), _M_streambuf_state(), _M_callbacks(0), _M_word_zero(), _M_word_size(_S_local_word_size), _M_word(_M_local_word), _M_ios_locale() {}
ios_base::~ios_base() {}
void ios_base::_M_init() throw() { _M_precision = 6; _M_width = 0; _M_flags = skipws | dec; }
namespace {
struct ks_failure : std::exception {};
}
void __throw_ios_failure(const char*) { throw ks_failure(); }
void __throw_bad_cast() { throw std::bad_cast(); }
}  // namespace std
#endif

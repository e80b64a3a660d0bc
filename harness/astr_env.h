// arena_string in the string harnesses: constructors get the allocator of the current arena.
#pragma once
#include "str_env.h"
#include "arena/arena.hpp"
#include "string/arena_string.hpp"
namespace st {
static std::pmr::memory_resource* where;   // of the current arena
template <class C> struct Where<stdb::memory::arena_basic_string<C>> {
    typedef stdb::memory::arena_basic_string<C> S;
    typedef std::pmr::polymorphic_allocator<C> A;
    static S make() { return S(A(where)); }
    static S make(const S& o) { return S(o); }
    static S make(S&& o) { return S(std::move(o)); }
    static S make(const S& o, size_t pos, size_t n = (size_t)-1) { return S(o, pos, n, A(where)); }
    static S make(const C* p) { return S(p, A(where)); }
    static S make(const C* p, size_t n) { return S(p, n, A(where)); }
    static S make(size_t n, C c) { return S(n, c, A(where)); }
    static S make(const C* b, const C* e) { return S(b, e, A(where)); }
    static S make(std::basic_string_view<C> v) { return S(v, A(where)); }
    static S make(std::initializer_list<C> l) { return S(l, A(where)); }
    template <class I> static S make(I b, I e) { return S(b, e, A(where)); }
};
typedef stdb::memory::arena_string AS;
}  // namespace st

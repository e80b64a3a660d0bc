// C29: strings on streams.
#include "io_model.h"
#include "str_env.h"
using namespace st;
namespace {
template <class C> struct Tr : std::char_traits<C> {};   // own traits: the stream templates are instantiated here instead of taken from the library
template <class C> struct Buf : std::basic_streambuf<C, Tr<C>> {
    C mem[64];
    size_t out = 0, len, step, breaks;   // the get area is refilled in steps; the read at `breaks` throws
    Buf(const C* p, size_t n, size_t step_ = 64, size_t breaks_ = 99) : len(n), step(step_), breaks(breaks_) {
        for (size_t i = 0; i < n; i++) mem[i] = p[i];
        this->setg(mem, mem, mem);
    }
    typename Tr<C>::int_type underflow() override {
        size_t at = (size_t)(this->gptr() - mem), upto = at + step < len ? at + step : len;
        if (at >= breaks) throw int(7);
        if (at == len) return Tr<C>::eof();
        this->setg(mem, mem + at, mem + (upto < breaks ? upto : breaks));
        return Tr<C>::to_int_type(mem[at]);
    }
    typename Tr<C>::int_type overflow(typename Tr<C>::int_type c) override {
        if (out == 64) return Tr<C>::eof();
        mem[out++] = Tr<C>::to_char_type(c);
        return c;
    }
    size_t left() const { return len - (size_t)(this->gptr() - mem); }
};
template <class C> void sameText(const stdb::memory::basic_string<C, Tr<C>>& s, const std::basic_string<C, Tr<C>>& r, const char* what) {
    bool ok = s.size() == r.size();
    for (size_t i = 0; ok && i < r.size(); i++) ok &= s.data()[i] == r[i];
    sym_assert(ok, what);
    sym_assert(s.size() <= s.capacity() && s.c_str()[s.size()] == C(), "terminated");
}
template <class F> int attempt(F f) {
    try { f(); return 0; }
    catch (const std::exception&) { return 1; }
    catch (int v) { return v; }
}
template <class C> void in(bool line) {
    typedef stdb::memory::basic_string<C, Tr<C>> S;
    typedef std::basic_string<C, Tr<C>> R;
    size_t n = sym_choose("n", 0, sym_param("N", 3)), pre = sym_choose("long", 0, 1) ? 23 / sizeof(C) - 1 : 0;   // with a prefix that fills a small string
    C mem[64];
    for (size_t i = 0; i < pre; i++) mem[i] = C('a');
    for (size_t i = 0; i < n; i++) mem[pre + i] = chr<C>();
    n += pre;
    unsigned before = (unsigned)sym_choose("before", 0, 3);
    S s;
    R r;
    if (before == 1) { s.assign(3, C('x')); r.assign(3, C('x')); }
    else if (before == 2) { s.assign(24, C('x')); r.assign(24, C('x')); }
    else if (before == 3) { s.assign(300, C('x')); r.assign(300, C('x')); s.reserve(400); }
    S copy(s);
    R rcopy(r);
    size_t step = (size_t)sym_pick("step", 1, 2) == 1 ? 1 : 64;
    size_t breaks = line && sym_choose("breaks", 0, sym_param("X", 1)) ? pre + (size_t)sym_pick("at", 0, 2) : 99;   // a buffer that throws
    Buf<C> b1(mem, n, step, breaks), b2(mem, n, step, breaks);
    std::basic_istream<C, Tr<C>> i1(&b1), i2(&b2);
    unsigned ex = (unsigned)sym_choose("exceptions", 0, sym_param("X", 1)) ? (unsigned)sym_pick("ex", 1, 7) : 0;
    unsigned st = (unsigned)sym_pick("state", 0, 7);   // good, eofbit, failbit, badbit
    i1.setstate((std::ios_base::iostate)st);
    i2.setstate((std::ios_base::iostate)st);
    if (sym_pick("noskip", 0, 1)) { i1.unsetf(std::ios_base::skipws); i2.unsetf(std::ios_base::skipws); }
    auto set = [&](auto& i) { try { i.exceptions((std::ios_base::iostate)ex); } catch (...) {} };
    set(i1);
    set(i2);
    unsigned k = (unsigned)sym_param("K", 2), W = (unsigned)sym_param("W", 0);
    C delim = line ? chr<C>() : C();
    unsigned form = line ? (unsigned)sym_pick("form", 0, 1) : 0;
    for (unsigned i = 0; i < k; i++) {
        long w = line ? 0 : i || !W ? (long)sym_pick("width", 0, 3) - 1 : (long)sym_u64("anywidth");   // W: any width for the first one
        if (!line) { i1.width(w); i2.width(w); }
        int t1 = attempt([&] { if (!line) i1 >> s; else if (form) getline(i1, s); else getline(i1, s, delim); });
        int t2 = attempt([&] { if (!line) i2 >> r; else if (form) std::getline(i2, r); else std::getline(i2, r, delim); });
        sym_assert(t1 == t2, "throws when std::string's throws, and the same");
        sameText(s, r, "the characters read are those std::string reads");
        sym_assert(i1.rdstate() == i2.rdstate(), "the stream is left in the state std::string leaves it in");
        sym_assert(b1.left() == b2.left(), "as many characters are consumed as by std::string");
        sym_assert(i1.width() == i2.width(), "the width is the one std::string leaves");
        if (i1.eof() && !i1.fail()) sym_cover("last one");
        if (i1.fail() && st == 0) sym_cover("none left");
        if (i1.good()) sym_cover("more");
    }
    sameText(copy, rcopy, "a copy keeps its contents");
}
template <class C> void out() {
    typedef stdb::memory::basic_string<C, Tr<C>> S;
    typedef std::basic_string<C, Tr<C>> R;
    size_t n = sym_pick("n", 0, sym_param("N", 3));
    C mem[64];
    for (size_t i = 0; i < n; i++) mem[i] = chr<C>();
    S s(mem, n);
    R r(mem, n);
    unsigned before = (unsigned)sym_pick("before", 0, 1);
    if (before) s.reserve(300);
    Buf<C> b1(mem, 0), b2(mem, 0);
    std::basic_ostream<C, Tr<C>> o1(&b1), o2(&b2);
    unsigned st = (unsigned)sym_pick("state", 0, 7);
    o1.setstate((std::ios_base::iostate)st);
    o2.setstate((std::ios_base::iostate)st);
    long w = (long)sym_pick("width", 0, 6) - 1;
    o1.width(w);
    o2.width(w);
    C f = chr<C>();
    o1.fill(f);
    o2.fill(f);
    unsigned adj = (unsigned)sym_pick("adjust", 0, 2);
    auto a = adj == 0 ? std::ios_base::left : adj == 1 ? std::ios_base::right : std::ios_base::internal;
    o1.setf(a, std::ios_base::adjustfield);
    o2.setf(a, std::ios_base::adjustfield);
    auto& q = (o1 << s);
    o2 << r;
    sym_assert(&q == &o1, "returns the stream");
    bool ok = b1.out == b2.out;
    for (size_t i = 0; ok && i < b1.out; i++) ok &= b1.mem[i] == b2.mem[i];
    sym_assert(ok, "the characters written are those std::string writes");
    sym_assert(o1.rdstate() == o2.rdstate() && o1.width() == o2.width(), "the stream is left in the state std::string leaves it in");
    sameText(s, r, "the string is unchanged");
    sym_cover("done");
}
// texts too large to allocate: storage that only knows where it would be and how large
struct Huge : stdb::memory::string_core<char> {
    const char* p;
    size_t n;
    template <class A> Huge(const char* p_, size_t n_, const A&) : p(p_), n(n_) {}
    const char* data() const { return p; }
    const char* c_str() const { return p; }
    size_t size() const { return n; }
    size_t capacity() const { return n; }
};
struct Sink : std::basic_streambuf<char, Tr<char>> {
    const char* at = nullptr;
    unsigned long long total = 0;
    unsigned writes = 0, pads = 0;
    std::streamsize xsputn(const char* p, std::streamsize n) override { at = p; total = (unsigned long long)n; writes++; return n; }
    int_type overflow(int_type c) override { sym_assert(false, "no padding is written for a text wider than the field"); pads++; return c; }
};
void huge() {
    char at[1];
    size_t n = sym_u64("size");
    sym_assume(n > 4 && n <= 0x7fffffffffffffffull);
    stdb::memory::basic_string<char, Tr<char>, std::allocator<char>, Huge> s(at, n);
    Sink b;
    std::basic_ostream<char, Tr<char>> o(&b);
    o.width((long)sym_pick("width", 0, 4));
    o << s;
    sym_assert(b.writes == 1 && b.pads == 0 && b.at == at && b.total == n, "the whole text is written, whatever its length");
    sym_assert(o.good() && o.width() == 0, "the stream stays good");
    if (n > 0xffffffffull) sym_cover("large");
}
}  // namespace
ENTRY(c29_insert_huge) { huge(); }
ENTRY(c29_extract) { modes(false, 1); in<char>(false); }
ENTRY(c29_getline) { modes(false, 1); in<char>(true); }
ENTRY(c29_extract_throws) { modes(false, 1); in<char>(false); }
ENTRY(c29_getline_throws) { modes(false, 1); in<char>(true); }
ENTRY(c29_extract_wide) { modes(false, 4); in<wchar_t>(false); }
ENTRY(c29_getline_wide) { modes(false, 4); in<wchar_t>(true); }
ENTRY(c29_insert) { modes(false, 1); out<char>(); }

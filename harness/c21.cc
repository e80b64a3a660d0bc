// C21: out-of-range string requests throw and change nothing.
#include <new>
#include <stdexcept>
#include "str_env.h"
using namespace st;
namespace {
typedef stdb::memory::basic_string<char> S8;
typedef stdb::memory::basic_string<char16_t> S16;

// any 64-bit position; the ones inside are made concrete
size_t anyPos(const char* name, size_t n, bool& out) {
    size_t p = sym_u64(name);
    if (p > n) { out = true; return p; }
    return (size_t)sym_concretize(p);
}
enum { MEMBERS = 27 };
template <class S> void positions(size_t N, bool wide) {
    typedef typename S::value_type C;
    modes(wide, sizeof(C));
    Obj<S> o;
    size_t n = wide ? (sym_pick("len", 0, 1) ? MB : SB) + sym_pick("off", 0, 1) : sym_pick("len", 0, N);
    build(o, n, (unsigned)sym_choose("state", 0, 4));
    few = true;
    Txt<C> old = o.m;
    S keep(o.s);
    Txt<C>& m = o.m;
    S& s = o.s;
    const S& cs = o.s;
    unsigned op = (unsigned)sym_choose("member", 0, MEMBERS - 1);
    bool out = false;
    // an argument string, or the string itself
    bool self = n && sym_pick("self", 0, 1);
    Txt<C> a;
    if (self) a = m; else zstr(a, sym_pick("alen", 0, 2), 1);
    S arg = Where<S>::make();
    arg.assign(a.v, a.n);
    const S& x = self ? s : arg;
    const size_t in = op == 25 ? a.n : n;
    size_t p1 = wide ? pickPos("pos", in) : anyPos("pos", in, out);
    if (wide && sym_pick("beyond", 0, 1)) { p1 = sym_u64("far"); sym_assume(p1 > in); out = true; }
    size_t r1 = out ? 0 : in - p1, cl = 0, c = 0;
    bool two = op == 5 || op == 10 || op == 16 || op == 21 || op == 22 || op == 23;   // a position in the argument
    bool count = op != 0 && op != 1 && op != 24 && !(op >= 9 && op <= 13) && op < 21;
    if (count && !out) c = pickCount("count", r1, cl); else if (count) c = sym_u64("count");
    size_t p2 = 0, cl2 = 0, c2 = 0;
    if (two) {
        bool out2 = false;
        p2 = anyPos("pos2", a.n, out2);
        if (out2) c2 = sym_u64("count2"); else c2 = pickCount("count2", a.n - p2, cl2);
        if (op >= 21) out = out2; else out |= out2;
    }
    C ch = chr<C>();
    Txt<C> w = m;                                       // expected contents
    Txt<C> got;                                         // expected result
    bool thrown = false;
    int res = 0;
    C* buf = nullptr;
    S made = Where<S>::make();
    bool isMade = false;
    size_t k = 0;
    if (op == 0 || op == 1) out = p1 >= n;
    try {
        switch (op) {
            case 0: sym_assert(cs.at(p1) == m.v[p1], "at returns the character"); break;
            case 1: s.at(p1) = ch; w.v[p1] = ch; break;
            case 2: { S t = cs.substr(p1, c); made.swap(t); isMade = true; for (size_t i = 0; i < cl; i++) got.v[i] = m.v[p1 + i]; got.n = cl; break; }
            case 3: {
                S t = std::move(s).substr(p1, c);
                made.swap(t);
                isMade = true;
                for (size_t i = 0; i < cl; i++) got.v[i] = m.v[p1 + i];
                got.n = cl;
                s = keep;
                break; }
            case 4: case 5: case 6: case 7: case 8: {   // compare
                size_t n2 = op == 5 ? cl2 : a.n;
                if (op == 4) res = s.compare(p1, c, x);
                else if (op == 5) res = s.compare(p1, c, x, p2, c2);
                else if (op == 6) res = s.compare(p1, c, (const C*)a.v, a.n);
                else if (op == 7) { if (self) { sym_cover("done"); return; } res = s.compare(p1, c, (const C*)a.v); }
                else { n2 = 1; res = s.compare(p1, c, &ch, 1); }
                std::basic_string_view<C> l(m.v + p1, cl), r(op == 8 ? &ch : a.v + p2, n2);
                int e = l.compare(r);
                sym_assert((res < 0) == (e < 0) && (res == 0) == (e == 0), "compare gives what std::string gives");
                break; }
            case 9: s.insert(p1, x); w.ins(p1, a.v, a.n); break;
            case 10: s.insert(p1, x, p2, c2); w.ins(p1, a.v + p2, cl2); break;
            case 11: s.insert(p1, (const C*)a.v, a.n); w.ins(p1, a.v, a.n); break;
            case 12: if (self) { sym_cover("done"); return; } s.insert(p1, (const C*)a.v); w.ins(p1, a.v, a.n); break;
            case 13: s.insert(p1, (size_t)2, ch); w.fill(p1, 2, ch); break;
            case 14: s.erase(p1, c); w.del(p1, cl); break;
            case 15: s.replace(p1, c, x); w.del(p1, cl); w.ins(p1, a.v, a.n); break;
            case 16: s.replace(p1, c, x, p2, c2); w.del(p1, cl); w.ins(p1, a.v + p2, cl2); break;
            case 17: s.replace(p1, c, (const C*)a.v, a.n); w.del(p1, cl); w.ins(p1, a.v, a.n); break;
            case 18: if (self) { sym_cover("done"); return; } s.replace(p1, c, (const C*)a.v); w.del(p1, cl); w.ins(p1, a.v, a.n); break;
            case 19: s.replace(p1, c, (size_t)2, ch); w.del(p1, cl); w.fill(p1, 2, ch); break;
            case 20: {
                buf = (C*)malloc((cl + 1) * sizeof(C));
                k = cs.copy(buf, c, p1);
                bool ok = k == cl;
                for (size_t i = 0; i < cl; i++) ok &= buf[i] == m.v[p1 + i];
                sym_assert(ok, "copy copies the rest at most");
                break; }
            case 21: s.append(x, p2, c2); w.ins(n, a.v + p2, cl2); break;
            case 22: s.assign(x, p2, c2); for (size_t i = 0; i < cl2; i++) w.v[i] = a.v[p2 + i]; w.n = cl2; break;
            case 23: { S t = Where<S>::make(x, p2, c2); made.swap(t); isMade = true; for (size_t i = 0; i < cl2; i++) got.v[i] = a.v[p2 + i]; got.n = cl2; break; }
            case 24: { S t = cs.substr(p1); made.swap(t); isMade = true; for (size_t i = 0; i < r1; i++) got.v[i] = m.v[p1 + i]; got.n = r1; break; }
            case 25: { S t = Where<S>::make(x, p1); made.swap(t); isMade = true; for (size_t i = 0; p1 + i < a.n; i++) got.v[i] = a.v[p1 + i]; got.n = a.n - p1; break; }
            default: s.erase(p1); w.n = p1; break;
        }
    } catch (std::out_of_range&) { thrown = true; }
    sym_assert(thrown == out, "out_of_range is thrown exactly for positions beyond the size");
    if (thrown) { same(s, old, "a request that throws changes nothing"); sym_cover("thrown"); }
    else { same(s, w, "a request in range does what std::string does"); if (isMade) same(made, got, "the characters asked for"); }
    if (!self) same(arg, a, "an argument is unchanged");
    same(keep, old, "a copy is unchanged");
    free(buf);
    sym_cover("done");
}
// requests beyond max_size()
template <class S> void beyond(size_t N) {
    typedef typename S::value_type C;
    modes(false, sizeof(C));
    Obj<S> o;
    size_t n = sym_pick("len", 1, N);
    build(o, n, (unsigned)sym_choose("state", 0, 4));
    S keep(o.s);
    unsigned op = (unsigned)sym_pick("op", 0, 4);
    size_t pos = sym_pick("pos", 0, n), cut = op == 3 || op == 4 ? sym_pick("cut", 0, n - pos) : 0;
    size_t k = sym_u64("count");
    sym_assume(k > o.s.max_size() - (n - cut));
    C x = chr<C>();
    bool length = false;
    try {
        if (op == 0) o.s.append(k, x);
        else if (op == 1) o.s.insert(pos, k, x);
        else if (op == 2) o.s.insert(o.s.cbegin() + pos, k, x);
        else if (op == 3) o.s.replace(pos, cut, k, x);
        else { auto f = o.s.begin() + pos; o.s.replace(f, f + cut, k, x); }
    } catch (std::length_error&) { length = true; }
    sym_assert(length, "a size beyond max_size() is refused with length_error");
    same(o.s, o.m, "a refused request changes nothing");
    same(keep, o.m, "a copy is unchanged");
    sym_cover("refused");
}
}  // namespace
ENTRY(c21_positions) { positions<S8>(sym_param("N", 2), false); }
ENTRY(c21_positions16) { positions<S16>(sym_param("N", 2), false); }
ENTRY(c21_large) { positions<S8>(2, true); }
ENTRY(c21_beyond) { beyond<S8>(sym_param("N", 2)); }
ENTRY(c21_beyond16) { beyond<S16>(sym_param("N", 2)); }

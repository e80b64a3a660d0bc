// The command-line parser's documented behaviour, written down independently of optparse.cc.
#pragma once
#include <cstdlib>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <vector>
#include "optparse/optparse.hpp"
#include "sym.h"
namespace op {
using namespace stdb::optparse;
typedef std::string str_t;
struct Spec {
    const char* n1;          // registered names, without the prefix characters' identity: '-' stands for the prefix
    const char* n2;
    Action act;
    Type type;
    const char* dest;        // null: taken from the long name
    const char* dflt;
    const char* env;
    const char* choice[2];
};
inline str_t pre(const char* s, char p) { str_t r(s); for (char& c : r) { if (c != '-') break; c = p; } return r; }
// a value as text typed by the option
struct MV { int tag = -1; int64_t i = 0; double d = 0; float f = 0; str_t s; };
template <class T> T rd(const str_t& t) { T v{}; std::stringstream ss(t); ss >> v; return v; }
inline bool eq(const Value& a, const MV& b) {
    if ((int)a.index() != b.tag) return false;
    switch (b.tag) {
        case 0: return std::get<bool>(a) == (bool)b.i;
        case 1: return std::get<int32_t>(a) == (int32_t)b.i;
        case 2: return std::get<int64_t>(a) == b.i;
        case 3: return std::get<float>(a) == b.f;
        case 4: return std::get<double>(a) == b.d;
        default: { const str_t& x = std::get<str_t>(a); bool ok = x.size() == b.s.size(); for (size_t k = 0; ok && k < x.size(); k++) ok &= x[k] == b.s[k]; return ok; }
    }
}
inline bool typed(const Spec& o, const str_t& t, MV& r) {
    switch (o.type) {
        case Bool: r.tag = 0; r.i = rd<bool>(t); return true;
        case Int: r.tag = 1; r.i = rd<int32_t>(t); return true;
        case Long: r.tag = 2; r.i = rd<int64_t>(t); return true;
        case Float: r.tag = 3; r.f = rd<float>(t); return true;
        case Double: r.tag = 4; r.d = rd<double>(t); return true;
        case Choice: { r.tag = 5; r.s = t; for (auto* c : o.choice) if (c && t == c) return true; return false; }
        default: r.tag = 5; r.s = t; return true;
    }
}
struct Dest { str_t name; bool has = false; MV v; bool list = false; std::vector<MV> vs; bool user = false; };
inline bool blank(char c) { return c == ' ' || (c >= 9 && c <= 13); }
inline str_t trim(const str_t& s) {
    size_t b = 0, e = s.size();
    while (e > b && blank(s[e - 1])) e--;
    while (b < e && blank(s[b])) b++;
    return s.substr(b, e - b);
}
struct Model {
    const Spec* o; size_t n; char p;
    std::vector<Dest> d;
    std::vector<size_t> bad;     // indices into argv
    bool throws = false;
    Model(const Spec* o, size_t n, char p) : o(o), n(n), p(p) { for (size_t i = 0; i < n; i++) at(o[i]); for (auto* x : {"usage", "help", "version"}) find(x); }
    Dest& find(const str_t& k) { for (auto& x : d) if (x.name == k) return x; Dest z; z.name = k; d.push_back(z); return d.back(); }
    str_t destOf(const Spec& s) { if (s.dest) return s.dest; for (auto* x : {s.n1, s.n2}) if (x && x[0] == '-' && x[1] == '-' && x[2]) return x + 2; return ""; }
    Dest& at(const Spec& s) { return find(destOf(s)); }
    bool starts(const str_t& a) const { return !a.empty() && a[0] == p; }
    void process(const Spec& s, const str_t& t) {
        Dest& x = at(s);
        MV v;
        switch (s.act) {
            case Store: if (typed(s, t, v)) { x.has = x.user = true; x.v = v; } break;
            case StoreTrue: case StoreFalse:
                if (t.empty()) { x.has = x.user = true; x.v.tag = 0; x.v.i = s.act == StoreTrue; }
                else if (typed(s, t, v)) { x.has = x.user = true; x.v = v; }
                break;
            case Count: x.v.i = x.has ? x.v.i + 1 : 1; x.v.tag = 1; x.has = x.user = true; break;
            case Append: {
                bool comma = false;
                for (char c : t) comma |= c == ',';
                if (!comma) { if (typed(s, t, v)) { x.list = x.user = true; x.vs.push_back(v); } break; }
                for (size_t i = 0, j = 0; j <= t.size(); j++)
                    if (j == t.size() || t[j] == ',') {
                        if (j > i) { if (!typed(s, trim(t.substr(i, j - i)), v)) return; x.list = x.user = true; x.vs.push_back(v); }
                        i = j + 1;
                    }
                break;
            }
            default: break;
        }
    }
    // the option a name belongs to; the parser's own options come last
    static const Spec* own() {
        static const Spec s[3] = {{"-u", "--usage", StoreTrue, Bool, "usage", "", "", {}}, {"-h", "--help", StoreTrue, Bool, "help", "", "", {}}, {"-v", "--version", StoreTrue, Bool, "version", "", "", {}}};
        return s;
    }
    const Spec* option(const str_t& name) {
        for (size_t i = n; i-- > 0;) for (auto* x : {o[i].n1, o[i].n2}) if (x && name == pre(x, p)) return &o[i];
        for (int k = 0; k < 3; k++) {
            bool taken = false;
            for (size_t i = 0; i < n; i++) for (auto* x : {o[i].n1, o[i].n2}) taken |= x && (!strcmp(x, own()[k].n1) || !strcmp(x, own()[k].n2));
            if (!taken && (name == pre(own()[k].n1, p) || name == pre(own()[k].n2, p))) return own() + k;
        }
        return nullptr;
    }
    static int strcmp(const char* a, const char* b) { while (*a && *a == *b) a++, b++; return *a - *b; }
    void parse(const std::vector<str_t>& a) {   // a[0] is the program
        size_t i = 1;
        while (i < a.size()) {
            size_t me = i++;
            if (!starts(a[me])) { bad.push_back(me); continue; }
            size_t e = a[me].find('=');
            const Spec* s = option(trim(a[me].substr(0, e)));
            if (!s) { bad.push_back(me); continue; }
            if (e == str_t::npos && (i == a.size() || starts(a[i]))) {
                if (s->type != Bool) { throws = true; return; }
                process(*s, "");
                continue;
            }
            str_t v = e == str_t::npos ? str_t() : a[me].substr(e + 1);
            if (v.empty()) {
                if (i == a.size()) { bad.push_back(me); continue; }
                process(*s, a[i++]);
            } else process(*s, v);
            while (i < a.size() && !starts(a[i])) {
                if (s->act == Append) process(*s, a[i]); else bad.push_back(i);
                i++;
            }
        }
        for (size_t k = 0; k < n; k++) if (o[k].dflt && o[k].dflt[0] && !at(o[k]).user) process(o[k], o[k].dflt);
        for (size_t k = 0; k < n; k++) if (o[k].env && o[k].env[0] && !at(o[k]).user) if (const char* v = getenv(o[k].env)) process(o[k], v);
    }
};
inline void add(OptionParser& P, const Spec& s, char p) {
    Option& x = s.n2 ? P.add_option(pre(s.n1, p), pre(s.n2, p)) : P.add_option(pre(s.n1, p));
    x.action(s.act).type(s.type);
    if (s.dest) x.dest(s.dest);
    if (s.dflt) x.default_value(s.dflt);
    if (s.env) x.env(s.env);
    if (s.choice[0]) x.choices({str_t(s.choice[0]), str_t(s.choice[1] ? s.choice[1] : s.choice[0])});
}
template <class T> void obs(T v) { sym_observe((uint64_t)v); }
inline void store(const ValueStore& r, const Dest& x) {
    sym_assert(r.user_set(x.name) == x.user, "a value counts as set exactly when something was stored");
    auto l = r.get_list(x.name);
    sym_assert(l.has_value() == x.list, "a list is there exactly when a value was appended");
    if (x.list && l.has_value()) {
        sym_assert(l->size() == x.vs.size(), "every value is appended once");
        for (size_t i = 0; i < l->size() && i < x.vs.size(); i++) sym_assert(eq((*l)[i], x.vs[i]), "the appended values are in order");
    }
    if (!x.has) { sym_assert(!r.get<str_t>(x.name).has_value() && !r.get<bool>(x.name).has_value(), "no value unless one was given"); return; }
    bool ok = false;
    MV v = x.v;
    switch (v.tag) {
        case 0: { auto g = r.get<bool>(x.name); ok = g && *g == (bool)v.i; break; }
        case 1: { auto g = r.get<int32_t>(x.name); ok = g && *g == (int32_t)v.i; break; }
        case 2: { auto g = r.get<int64_t>(x.name); ok = g && *g == v.i; break; }
        case 3: { auto g = r.get<float>(x.name); ok = g && *g == v.f; break; }
        case 4: { auto g = r.get<double>(x.name); ok = g && *g == v.d; break; }
        default: { auto g = r.get<str_t>(x.name); ok = g.has_value() && eq(Value(*g), v); }
    }
    sym_assert(ok, "the stored value is the given one");
}
// parse a command line and compare everything that can be observed
inline Model run(OptionParser& P, const Spec* o, size_t n, char p, const std::vector<str_t>& a) {
    Model m(o, n, p);
    m.parse(a);
    std::vector<const char*> argv;
    for (auto& s : a) argv.push_back(s.c_str());
    argv.push_back(nullptr);
    bool threw = false;
    try {
        ValueStore r = P.parse_args((int)a.size(), argv.data());
        sym_assert(!m.throws, "an option that needs a value and has none is an error");
        for (auto& x : m.d) store(r, x);
    } catch (const std::logic_error&) { threw = true; }
    sym_assert(threw == m.throws, "parsing fails exactly when an option lacks its value");
    if (!threw) {
        auto inv = P.invalid_args();
        sym_assert(inv.size() == m.bad.size(), "the arguments that belong to no option are the invalid ones");
        for (size_t i = 0; i < m.bad.size() && i < inv.size(); i++) sym_assert(inv[i] == argv[m.bad[i]], "invalid arguments are the given pointers in order");
        sym_assert(P.get_raw_argc() == 1 + (int)m.bad.size(), "get_raw_argc counts the program and the invalid arguments");
        auto raw = P.get_raw_argv();
        sym_assert(raw[0] == argv[0], "get_raw_argv starts with the program");
        for (size_t i = 0; i < m.bad.size(); i++) sym_assert(raw[i + 1] == argv[m.bad[i]], "get_raw_argv continues with the invalid arguments");
    }
    for (size_t i = 0; i < a.size(); i++) obs(a[i].size());
    obs(threw); obs(m.bad.size());
    return m;
}
// an argument of exactly n arbitrary characters
inline str_t text(size_t n) {
    str_t r(n, 'x');
    for (size_t i = 0; i < n; i++) { r[i] = (char)sym_u8("char"); sym_assume(r[i] != 0); }
    return r;
}
}  // namespace op

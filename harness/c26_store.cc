// C26: a ValueStore gives back what was put into it (set, append of a value or of several, increment; typed and untyped reads).
#include "opt_env.h"
using namespace op;
namespace {
struct K { bool user = false, has = false, list = false; Value v; std::vector<Value> vs; };
Value any(unsigned t) {
    switch (t) {
        case 0: return Value(sym_bool("b"));
        case 1: return Value((int32_t)sym_u32("i"));
        case 2: return Value((int64_t)sym_u64("l"));
        case 3: return Value(1.5f);
        case 4: return Value(-2.25);
        default: { str_t r = "text"; r[2] = (char)sym_u8("c"); return Value(r); }
    }
}
template <class T> bool same_list(const ValueStore& s, const str_t& key, const K& k) {
    auto l = s.get_list<T>(key);
    if (l.has_value() != k.list) return false;
    if (!k.list) return true;
    bool ok = l->size() == k.vs.size();
    for (size_t i = 0; ok && i < k.vs.size(); i++) ok = (*l)[i] == std::get<T>(k.vs[i]);
    return ok;
}
bool typed(const ValueStore& s, const str_t& key, const K& k, unsigned t) {
    switch (t) {
        case 0: return same_list<bool>(s, key, k);
        case 1: return same_list<int32_t>(s, key, k);
        case 2: return same_list<int64_t>(s, key, k);
        case 3: return same_list<float>(s, key, k);
        case 4: return same_list<double>(s, key, k);
        default: return same_list<str_t>(s, key, k);
    }
}
template <class T> bool one(const ValueStore& s, const str_t& key, const K& k) { auto g = s.get<T>(key); return g.has_value() && *g == std::get<T>(k.v); }
bool single(const ValueStore& s, const str_t& key, const K& k) {
    if (!k.has) return !s.get<int32_t>(key).has_value() && !s.get<str_t>(key).has_value();
    switch (k.v.index()) {
        case 0: return one<bool>(s, key, k);
        case 1: return one<int32_t>(s, key, k);
        case 2: return one<int64_t>(s, key, k);
        case 3: return one<float>(s, key, k);
        case 4: return one<double>(s, key, k);
        default: return one<str_t>(s, key, k);
    }
}
void check(const ValueStore& s, const str_t* names, const K* ks, unsigned t) {
    for (int i = 0; i < 3; i++) {
        sym_assert(s.user_set(names[i]) == ks[i].user, "a value counts as set exactly when something was stored");
        sym_assert(single(s, names[i], ks[i]), "the single value is the last one stored");
        auto l = s.get_list(names[i]);
        sym_assert(l.has_value() == ks[i].list, "a list is there exactly when a value was appended");
        if (l.has_value() && ks[i].list) {
            bool ok = l->size() == ks[i].vs.size();
            for (size_t j = 0; ok && j < ks[i].vs.size(); j++) ok = (*l)[j] == ks[i].vs[j];
            sym_assert(ok, "every value is appended once, in order");
            l->push_back(Value(true));   // the list given is the caller's own
        }
        sym_assert(typed(s, names[i], ks[i], t), "the typed list holds the same values");
    }
}
}
ENTRY(c26_store) {
    unsigned steps = (unsigned)sym_param("K", 3), t = (unsigned)sym_choose("type", 0, 5);
    const str_t names[3] = {"k", "key", "other"};   // nothing is stored under the last one
    K ks[3];
    ValueStore s;
    for (unsigned i = 0; i < steps; i++) {
        unsigned w = (unsigned)sym_pick("key", 0, 1);
        K& k = ks[w];
        switch ((unsigned)sym_pick("op", 0, 4)) {
            case 0: k.v = any(t); s.set(names[w], k.v); k.has = true; break;
            case 1: k.vs.push_back(any(t)); s.append(names[w], k.vs.back()); k.list = true; break;
            case 2: { Value a = any(t), b = any(t), c = any(t); s.append(names[w], {a, b, c}); k.vs.push_back(a); k.vs.push_back(b); k.vs.push_back(c); k.list = true; break; }
            case 3: { Value a = any(t); s.append(names[w], std::initializer_list<Value>{a}); k.vs.push_back(a); k.list = true; break; }
            default: {
                if (k.has && t != 1) return;   // counting another type is a misuse
                int32_t n = k.has ? std::get<int32_t>(k.v) : 0;
                sym_assume(n < 0x7fffffff);
                s.increment(names[w]); k.v = Value((int32_t)(n + 1)); k.has = true;
                if (t != 1) { k.user = true; check(s, names, ks, t); return; }
            }
        }
        k.user = true;
    }
    ValueStore m(std::move(s));
    check(m, names, ks, t);
    for (auto& k : ks) if (k.vs.size() > 3) sym_cover("several");
}

// C25: every command-line argument is consumed or reported as invalid.
#include "opt_env.h"
using namespace op;
namespace {
const Spec few[] = {
    {"-s", "--t", Store, String, "text", "", "", {}},
    {"-b", nullptr, StoreTrue, Bool, "flag", "", "", {}},
    {"-a", nullptr, Append, String, "list", "", "", {}},
};
const char prefixes[] = "-+#$&%";
void setup(OptionParser& P, char p) {
    P.program("prog");
    for (auto& s : few) add(P, s, p);
}
const char* const words[] = {"-s", "-b", "-a", "v", "--t", "--t=v", "-s=", "-a=x,y", "", "-", "--", "-z", "-b=1", "--t =w", "-a=", "v=w", "-h", "--version", "=v", "-=x"};
str_t word(uint64_t i, char p) {
    str_t r(words[i]);
    if (r.size() && r[0] == '-') { r[0] = p; if (r.size() > 1 && r[1] == '-') r[1] = p; }
    return r;
}
void covers(const Model& m, size_t n) {
    if (m.throws) sym_cover("lacks a value");
    else if (m.bad.size() == n && n) sym_cover("all invalid");
    else if (m.bad.empty() && n) sym_cover("all consumed");
    else if (n) sym_cover("some invalid");
}
}  // namespace
// arguments of any characters
ENTRY(c25_any) {
    size_t K = sym_param("K", 2), L = sym_param("L", 3), left = sym_param("sum", 5);
    char p = sym_param("prefix", 0) ? '+' : '-';
    OptionParser P(p);
    setup(P, p);
    size_t n = sym_choose("args", 0, K);
    std::vector<str_t> a{"prog"};
    for (size_t i = 0; i < n; i++) {
        size_t l = i ? sym_pick("len", 0, L < left ? L : left) : sym_choose("len0", 0, L);
        left -= l;
        a.push_back(text(l));
    }
    covers(run(P, few, 3, p, a), n);
}
// longer command lines made of every kind of argument
ENTRY(c25_words) {
    size_t K = sym_param("K", 3), W = sym_param("W", 19);
    char p = sym_pick("prefix", 0, 1) ? '%' : '-';
    OptionParser P(p);
    setup(P, p);
    size_t n = sym_pick("args", 1, K);
    std::vector<str_t> a{"prog"};
    for (size_t i = 0; i < n; i++) a.push_back(word(i ? sym_pick("word", 0, W) : sym_choose("word0", 0, W), p));
    covers(run(P, few, 3, p, a), n);
}
// every parse starts afresh, with any prefix and without a program name; the parser may be moved or copied in between
ENTRY(c25_again) {
    char p = prefixes[sym_choose("prefix", 0, 5)];
    bool bare = p == '-' && sym_pick("default constructed", 0, 1);
    OptionParser P = bare ? OptionParser() : OptionParser(p);
    for (auto& s : few) add(P, s, p);
    std::vector<str_t> a{"prog"}, b{"other"};
    size_t n = sym_pick("args", 0, 2), k = sym_pick("again", 0, 2);
    for (size_t i = 0; i < n; i++) a.push_back(word(sym_pick("word", 0, 8), p));
    for (size_t i = 0; i < k; i++) b.push_back(word(sym_pick("word", 2, 8), p));
    run(P, few, 3, p, a);
    unsigned how = (unsigned)sym_pick("how", 0, 2);
    if (how == 0) run(P, few, 3, p, b);
    else if (how == 1) { OptionParser Q(P); run(Q, few, 3, p, b); run(P, few, 3, p, a); }
    else { OptionParser Q(std::move(P)); run(Q, few, 3, p, b); }
    sym_assert(k != 9, "");
    sym_cover("done");
}
// no argument at all is an error
ENTRY(c25_none) {
    OptionParser P;
    const char* v[] = {nullptr};
    bool threw = false;
    try { P.parse_args(0, v); } catch (const std::logic_error&) { threw = true; }
    sym_assert(threw, "an empty argument vector is refused");
    std::vector<str_t> a{"prog"};
    run(P, few, 0, '-', a);
    sym_cover("done");
}

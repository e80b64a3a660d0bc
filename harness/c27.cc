// C27: option registration keeps names unambiguous.
#include <memory>
#include "opt_env.h"
using namespace op;
namespace {
const char prefixes[] = "-+#$&%";
bool isPrefix(char c) { for (int i = 0; i < 6; i++) if (prefixes[i] == c) return true; return false; }
// 0 short, 1 long, 2 not a name
int kind(const str_t& n, char p) {
    if (n.empty() || n[0] != p) return 2;
    if (n.size() == 2 && n[1] == p) return 2;
    if (blank(n[n.size() - 1])) return 2;
    for (char c : n) if (c == '=') return 2;
    return n.size() > 2 && n[1] == p ? 1 : 0;
}
OptionParser* make(char p, bool replace) {
    auto h = replace ? ConflictHandler::Replace : ConflictHandler::Error;
    if (p == '-' && sym_pick("no prefix argument", 0, 1)) return replace || sym_pick("default policy", 0, 1) ? new OptionParser(h) : new OptionParser();
    if (!replace && sym_pick("one argument", 0, 1)) return new OptionParser(p);
    return new OptionParser(p, h);
}
// does the command line set the flag?
bool sets(OptionParser& P, const str_t& arg, const char* dest) {
    const char* argv[] = {"prog", arg.c_str(), nullptr};
    ValueStore r = P.parse_args(2, argv);
    auto inv = P.invalid_args();
    auto g = r.get<bool>(dest);
    sym_assert(inv.size() == (g ? 0 : 1) || !g, "an argument that is used is not invalid");
    return g.has_value() && *g;
}
bool tryAdd(OptionParser& P, const std::vector<str_t>& n, const char* dest) {
    try {
        Option* o;
        if (n.size() == 1 && sym_pick("single", 0, 1)) o = &P.add_option(n[0]);
        else if (n.size() == 2 && sym_pick("pair", 0, 1)) o = &P.add_option(n[0], n[1]);
        else if (n.size() == 0) o = &P.add_option(std::initializer_list<str_t>{});
        else if (n.size() == 1) o = &P.add_option({n[0]});
        else if (n.size() == 2) o = &P.add_option({n[0], n[1]});
        else o = &P.add_option({n[0], n[1], n[2]});
        sym_assert(o->names().size() == n.size(), "the option has its names");
        for (size_t i = 0; i < n.size(); i++) sym_assert(o->names()[i] == n[i], "the option has its names in order");
        o->action(StoreTrue).type(Bool).dest(dest);
        return true;
    } catch (const std::logic_error&) { return false; }
}
}  // namespace
// exactly the six prefix characters are accepted
ENTRY(c27_prefix) {
    char c = (char)sym_u8("char");
    bool threw = false;
    try {
        if (sym_pick("handler", 0, 1)) OptionParser P(c, sym_pick("replace", 0, 1) ? ConflictHandler::Replace : ConflictHandler::Error);
        else OptionParser P(c);
    } catch (const std::logic_error&) { threw = true; }
    sym_assert(threw != isPrefix(c), "exactly the prefixes -, +, #, $, & and % are accepted");
    sym_cover(threw ? "refused" : "accepted");
}
// a name of any characters
static void aName() {
    char p = prefixes[sym_choose("prefix", 0, 5)];
    std::unique_ptr<OptionParser> P(make(p, sym_pick("replace", 0, 1)));
    str_t n = text(sym_choose("len", 0, sym_param("L", 4)));
    int k = kind(n, p);
    sym_assert((int)P->extract_option_type(n) == k, "extract_option_type tells short, long and invalid names");
    bool other = sym_pick("other", 0, 1);
    str_t q = str_t(1, p) + "Q";
    std::vector<str_t> names;
    if (other && sym_pick("first", 0, 1)) names.push_back(q);
    names.push_back(n);
    if (other && names.size() == 1) names.push_back(q);
    bool fresh = !(other && n == q) || false;
    bool ok = tryAdd(*P, names, "d");
    if (fresh) sym_assert(ok == (k != 2), "exactly the well-formed names are accepted");
    if (!ok) {
        sym_assert(tryAdd(*P, {q}, "e"), "a rejected registration leaves its other names free");
        sym_assert(sets(*P, q, "e"), "a rejected registration leaves the parser usable");
        if (n[0] == p && n != q) sym_assert(!sets(*P, n, "d"), "a rejected name is unknown");
        sym_cover("rejected");
        return;
    }
    switch (sym_pick("use", 0, 2)) {
        case 0: sym_assert(sets(*P, n, "d"), "a registered name finds its option"); break;
        case 1: sym_assert(sets(*P, n + "=1", "d"), "a registered name finds its option"); break;
        default: sym_assert(sets(*P, n + " =1", "d"), "a registered name finds its option");
    }
    sym_cover(k ? "long" : "short");
}
ENTRY(c27_name) { aName(); }
ENTRY(c27_name_long) { aName(); }
// histories of registrations under both policies
ENTRY(c27_history) {
    static const char* const words[] = {"-a", "--a", "-b", "--bb", "-h", "--help", "-ab", "x"};
    const size_t W = 7;
    char p = sym_pick("prefix", 0, 1) ? '$' : '-';
    bool replace = sym_choose("replace", 0, 1);
    std::unique_ptr<OptionParser> P(make(p, replace));
    static const char* const dests[] = {"d0", "d1", "d2", "d3"};
    int owner[8];
    for (int& o : owner) o = -1;
    size_t K = sym_param("K", 2);
    for (size_t k = 0; k < K; k++) {
        size_t cnt = sym_pick("names", 0, 2), at[3];
        std::vector<str_t> names;
        bool good = cnt > 0;
        for (size_t i = 0; i < cnt; i++) {
            at[i] = i == 0 && k == 0 ? sym_choose("first", 0, W) : sym_pick("name", 0, W);
            names.push_back(pre(words[at[i]], p));
            if (at[i] == 7) good = false;
            if (!replace) { if (owner[at[i]] >= 0) good = false; for (size_t j = 0; j < i; j++) if (at[j] == at[i]) good = false; }
        }
        bool ok = tryAdd(*P, names, dests[k]);
        sym_assert(ok == good, "a registration is accepted exactly when its names are well formed and, under Error, new");
        if (ok) for (size_t i = 0; i < cnt; i++) owner[at[i]] = (int)k;
        else sym_cover("rejected");
    }
    for (size_t w = 0; w < W; w++) {
        str_t a = pre(words[w], p);
        const char* argv[] = {"prog", a.c_str(), nullptr};
        ValueStore r = P->parse_args(2, argv);
        bool used = false;
        for (size_t k = 0; k < K; k++) {
            auto g = r.get<bool>(dests[k]);
            sym_assert((g.has_value() && *g) == (owner[w] == (int)k), "a name reaches the option that registered it last and no other");
            used |= g.has_value();
        }
        auto h = r.get<bool>("help");
        bool own = (w == 4 || w == 5) && owner[4] < 0 && owner[5] < 0;
        sym_assert((h.has_value() && *h) == own, "the help option is there exactly when none of its names is taken");
        used |= h.has_value();
        sym_assert(P->invalid_args().size() == (used ? 0 : 1), "a name without an option is invalid");
    }
    sym_cover("done");
}
// options that lack an action or a destination, or have choices without being of type Choice, are refused by parsing
ENTRY(c27_incomplete) {
    OptionParser P;
    unsigned names = (unsigned)sym_pick("names", 0, 3);
    Option& o = names == 0 ? P.add_option("-a") : names == 1 ? P.add_option("--long") : names == 2 ? P.add_option("-a", "--long") : P.add_option({"-a", "--first", "--second"});
    bool act = sym_pick("action", 0, 1), dest = sym_pick("dest", 0, 1);
    unsigned ch = (unsigned)sym_pick("choices", 0, 2);
    if (act) o.action(Store);
    if (dest) o.dest("mine");
    if (ch) { std::vector<str_t> c{"x", "yy"}; if (sym_pick("range", 0, 1)) o.choices(c.begin(), c.end()); else o.choices({"x", "yy"}); }
    if (ch == 2) o.type(String);
    bool good = act && (dest || names) && ch != 2;
    const char* argv[] = {"prog", names == 1 ? "--long=x" : "-a=x", nullptr};
    const char* d = dest ? "mine" : names == 3 ? "first" : "long";
    bool threw = false;
    try {
        ValueStore r = P.parse_args(2, argv);
        auto g = r.get<str_t>(d);
        sym_assert(g.has_value() && *g == "x", "the destination defaults to the first long name");
    } catch (const std::logic_error&) { threw = true; }
    sym_assert(threw == !good, "parsing refuses exactly the incomplete options");
    if (!good) {
        o.action(Store).dest("late");
        if (ch == 2) o.type(Choice);
        ValueStore r = P.parse_args(2, argv);
        auto g = r.get<str_t>("late");
        sym_assert(g.has_value() && *g == "x", "an option can be completed later");
        sym_cover("incomplete");
    } else sym_cover("complete");
}
// a parser may be copied or moved before it parses, and the original may be gone
ENTRY(c27_moved) {
    char p = prefixes[sym_pick("prefix", 0, 5)];
    OptionParser* a = make(p, sym_pick("replace", 0, 1));
    str_t s(1, p), l(2, p);
    a->add_option(s + "n", l + "num").action(Store).type(Int);
    a->add_option(l + "flag").action(StoreTrue).type(Bool);
    bool parsed = sym_pick("parsed", 0, 1);
    str_t x = l + "num=4", y = l + "flag";
    const char* argv[] = {"prog", x.c_str(), y.c_str(), nullptr};
    if (parsed) a->parse_args(3, argv);
    OptionParser* b = sym_pick("move", 0, 1) ? new OptionParser(std::move(*a)) : new OptionParser(*a);
    delete a;
    b->add_option(s + "z").action(StoreTrue).type(Bool).dest("z");
    ValueStore r = b->parse_args(3, argv);
    sym_assert(r.get<int>("num") == 4 && r.get<bool>("flag") == true && b->invalid_args().empty(), "a copied or moved parser parses as the original");
    delete b;
    sym_cover("done");
}

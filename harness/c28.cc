// C28: help, usage and version texts describe the registered options.
#include "opt_env.h"
using namespace op;
namespace {
str_t small(size_t n, const char* what) { str_t r(n, 'x'); for (size_t i = 0; i < n; i++) { r[i] = (char)sym_u8(what); sym_assume((unsigned char)r[i] > 32 && (unsigned char)r[i] < 127 && r[i] != '=' && r[i] != '-'); } return r; }
bool same(const str_t& a, const str_t& b) { bool ok = a.size() == b.size(); for (size_t i = 0; ok && i < a.size(); i++) ok &= a[i] == b[i]; return ok; }
str_t upper(str_t s) { for (char& c : s) if (c >= 'a' && c <= 'z') c = (char)(c - 32); return s; }
struct Opt { std::vector<str_t> names; Type type; str_t dest, help; };
const char* const types[] = {"", "bool", "int", "long", "float", "double", "choice", "string"};
str_t usageText(const str_t& prog, const std::vector<Opt>& o) {
    str_t r = "usage: " + prog;
    for (auto& x : o) { r += " ["; r += x.names[0]; if (x.type == Bool) r += " " + upper(x.dest); r += "]"; }
    return r + "\n";
}
str_t helpText(const str_t& usage, const std::vector<Opt>& o) {
    std::vector<str_t> l;
    size_t w = 0;
    for (auto& x : o) {
        str_t s = x.names[0];
        for (size_t i = 1; i < x.names.size(); i++) s += ", " + x.names[i];
        s += "=<"; s += types[x.type]; s += ">";
        if (s.size() > w) w = s.size();
        l.push_back(s);
    }
    str_t r = usage + " \n options: \n";
    for (size_t i = 0; i < o.size(); i++) r += "  " + l[i] + str_t(w + 1 - l[i].size(), ' ') + o[i].help + "\n";
    return r;
}
void own(std::vector<Opt>& o, const str_t& prog) {
    o.push_back({{"-u", "--usage"}, Bool, "usage", "show usage of the " + prog});
    o.push_back({{"-h", "--help"}, Bool, "help", "show the help of the " + prog});
    o.push_back({{"-v", "--version"}, Bool, "version", "show version of the " + prog});
}
}  // namespace
ENTRY(c28_help) {
    size_t K = sym_choose("options", 0, sym_param("K", 2)), L = sym_param("L", 2);
    OptionParser P;
    str_t prog = small(sym_pick("program", 0, 1), "program");
    if (!prog.empty()) P.program(prog);
    str_t given = small(sym_pick("usage", 0, 1), "usage");
    if (!given.empty()) P.usage(given);
    std::vector<Opt> o;
    for (size_t k = 0; k < K; k++) {
        Opt x;
        size_t n = sym_pick("names", 1, 3);
        str_t id(1, (char)('A' + k));
        if (n == 1) x.names = {"-" + id};
        else if (n == 2) x.names = {"-" + id, "--" + id + small(1, "name")};
        else x.names = {"--" + id + small(1, "name"), "-" + id, "-" + id + "b"};
        x.type = k ? (sym_pick("flag", 0, 1) ? Bool : String) : (Type)sym_pick("type", 1, 7);
        x.dest = "d" + small(1, "dest");
        x.help = small(sym_pick("help", 0, L), "help");
        Option& r = n == 1 ? P.add_option(x.names[0]) : n == 2 ? P.add_option(x.names[0], x.names[1]) : P.add_option({x.names[0], x.names[1], x.names[2]});
        r.action(Store).dest(x.dest).help(x.help);
        if (x.type == Choice) r.choices({"x"}); else r.type(x.type);
        o.push_back(x);
        if (k == 0 && sym_pick("early", 0, 1)) sym_assert(same(P.format_usage(), given.empty() ? usageText(prog, o) : given), "the usage is the given text, or names the program and every option");
    }
    str_t u = given.empty() ? usageText(prog, o) : given;
    sym_assert(same(P.format_usage(), u), "the usage is the given text, or names the program and every option");
    sym_assert(same(P.format_help(), helpText(u, o)), "the help lists every option with its names, type and help in one column");
    if (sym_pick("parse", 0, 1)) {
        const char* argv[] = {"pp", nullptr};
        P.parse_args(1, argv);
        if (prog.empty()) prog = "pp";
        own(o, prog);
        u = given.empty() ? usageText(prog, o) : given;
        sym_assert(same(P.format_help(), helpText(u, o)), "the help lists every option with its names, type and help in one column");
        sym_assert(same(P.format_usage(), u), "the usage is the given text, or names the program and every option");
        sym_assert(same(P.program(), prog), "the program name is the given one, or that of the arguments");
        sym_cover("parsed");
    }
    if (!given.empty()) sym_assert(same(P.usage(), given), "the usage text stays");
    sym_cover("done");
}
ENTRY(c28_version) {
    OptionParser P;
    str_t prog = small(sym_pick("program", 0, 1), "program"), v;
    if (!prog.empty()) P.program(prog);
    const char* argv[] = {"pp", "-v", nullptr};
    size_t K = sym_param("K", 3);
    for (size_t k = 0; k < K; k++) {
        switch (sym_pick("op", 0, 3)) {
            case 0: v = small(sym_pick("version", 1, 2), "version"); P.version(v); break;
            case 1: v = small(sym_pick("version", 1, 2), "version"); P.add_version_option(v); break;
            case 2: {
                ValueStore r = P.parse_args(2, argv);
                sym_assert(r.get<bool>("version") == true && P.invalid_args().empty(), "the version option is there");
                if (prog.empty()) prog = "pp";
                break;
            }
            default: sym_assert(same(P.format_verison(), v.empty() ? prog + " : 0.0.0" : v), "the version is the given one, or the program with 0.0.0");
        }
    }
    sym_assert(same(P.format_verison(), v.empty() ? prog + " : 0.0.0" : v), "the version is the given one, or the program with 0.0.0");
    if (!v.empty()) { sym_assert(same(P.version(), v), "the version text stays"); sym_cover("given"); }
    else sym_cover("default");
}
// help and usage options made by the user come with their own message
ENTRY(c28_own) {
    OptionParser P;
    P.program("p");
    str_t h = small(sym_pick("help", 0, 2), "help"), u = small(sym_pick("usage", 0, 2), "usage");
    bool hf = sym_pick("help first", 0, 1);
    std::vector<Opt> o;
    for (int i = 0; i < 2; i++) {
        if ((i == 0) == hf) { P.add_help_option(h); o.push_back({{"-h", "--help"}, Bool, "help", h.empty() ? "show the help of the p" : h}); }
        else { P.add_usage_option(u); o.push_back({{"-u", "--usage"}, Bool, "usage", u.empty() ? "show usage of the p" : u}); }
    }
    if (sym_pick("twice", 0, 1)) { P.add_help_option("again"); P.add_usage_option("again"); }
    sym_assert(same(P.format_help(), helpText(usageText("p", o), o)), "the help and usage options come with their message, once");
    sym_cover("done");
}

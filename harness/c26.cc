// C26: option values follow action, type and precedence.
#include "opt_env.h"
using namespace op;
namespace {
// the text of a value
str_t value(Type t, bool deep) {
    if (t == Float || t == Double) {
        static const char al[] = "15.-x";
        size_t n = sym_pick("len", 0, deep ? 3 : 2);
        str_t r;
        for (size_t i = 0; i < n; i++) r += al[sym_pick("char", 0, 4)];
        return r;
    }
    if (t == Int || t == Long) {
        unsigned big = (unsigned)sym_pick("big", 0, deep ? 4 : 2);
        if (big) {
            static const char* const head[] = {"", "214748364", "-214748364", "922337203685477580", "-922337203685477580"};
            str_t r(t == Long && !deep ? head[big + 2] : head[big]);
            char c = (char)sym_u8("char");
            sym_assume(c != 0);
            return r + c;
        }
    }
    size_t n = sym_pick("len", 0, deep ? 3 : 2);
    return text(n);
}
}
// one option of any action and type, with a default and an environment variable, and every way to give it
ENTRY(c26_option) {
    bool deep = sym_param("deep", 0);
    Spec s{"-o", "--opt", (Action)sym_choose("action", 1, 5), (Type)sym_choose("type", 1, 7), sym_pick("dest", 0, 1) ? "opt" : nullptr, "", "", {"x", "y,"}};
    if (s.type != Choice) s.choice[0] = s.choice[1] = nullptr;
    Spec o[2] = {s, {"-b", nullptr, StoreTrue, Bool, "flag", "", "", {}}};
    unsigned form = (unsigned)sym_choose("form", 0, 7);
    if (form == 0) {
        static const char* const dv[] = {"", "1", "x", "7,x"};
        o[0].dflt = dv[sym_pick("default", 0, 3)];
        o[0].env = sym_pick("env", 0, 1) ? "OPT_ENV" : "";
        if (o[0].env[0]) { static const char* const ev[] = {"", "0", "x", "2,x"}; unsigned k = (unsigned)sym_pick("set", 0, 4); if (k) setenv("OPT_ENV", ev[k - 1], 1); }
    } else { o[0].dflt = sym_pick("default", 0, 1) ? "1" : ""; setenv("OPT_ENV", "2", 1); o[0].env = sym_pick("env", 0, 1) ? "OPT_ENV" : ""; }
    OptionParser P;
    for (auto& x : o) add(P, x, '-');
    std::vector<str_t> a{"prog"};
    switch (form) {
        case 0: break;
        case 1: a.push_back("-o"); if (sym_pick("flag", 0, 1)) a.push_back("-b"); break;
        case 2: a.push_back("-o"); a.push_back(value(s.type, deep)); break;
        case 3: a.push_back("--opt=" + value(s.type, deep)); if (sym_pick("flag", 0, 1)) a.push_back("-b"); break;
        case 4: a.push_back("-o=" + value(s.type, false)); a.push_back("--opt"); a.push_back(sym_pick("second", 0, 1) ? "x" : "3"); break;
        case 5: a.push_back("-o"); a.push_back(value(s.type, false)); a.push_back("x"); break;
        case 6: a.push_back("--opt = " + value(s.type, false)); break;
        default: a.push_back("-b"); a.push_back("-o"); a.push_back("-o"); a.push_back("-b"); break;
    }
    Model m = run(P, o, 2, '-', a);
    if (m.throws) sym_cover("lacks a value");
    else if (m.d[0].has || m.d[0].list) sym_cover("value");
    else sym_cover("no value");
}
// text of a list
ENTRY(c26_list) {
    Type t = (Type)sym_choose("type", 0, 2);
    t = t == 0 ? String : t == 1 ? Int : Choice;
    Spec o[1] = {{"-a", nullptr, Append, t, "list", "", "", {"x", "yz"}}};
    if (t != Choice) o[0].choice[0] = o[0].choice[1] = nullptr;
    OptionParser P;
    add(P, o[0], '-');
    std::vector<str_t> a{"prog", "-a"};
    size_t N = sym_param("N", 4), n = sym_choose("len", 0, N);
    str_t l;
    for (size_t i = 0; i < n; i++) {
        char c = (char)sym_u8("char");
        if (t == String) sym_assume(c == ',' || c == ' ' || c == '\t' || c == 'v' || c == 'w');
        else if (t == Int) sym_assume(c == ',' || c == ' ' || (c >= '0' && c <= '9'));
        else sym_assume(c == ',' || c == ' ' || c == 'x' || c == 'y' || c == 'z');
        l += c;
    }
    a.push_back(l);
    Model m = run(P, o, 1, '-', a);
    if (m.d[0].vs.size() > 1) sym_cover("several");
    if (m.d[0].vs.empty()) sym_cover("none");
}
// several options, also of one destination: the command line wins over every default, defaults over the environment
ENTRY(c26_precedence) {
    bool shared = sym_choose("shared", 0, 1);
    static const char* const vals[] = {"", "5", "x"};
    Spec o[3] = {
        {"-n", "--num", (Action)sym_choose("action", 1, 5), Int, "num", vals[sym_pick("default", 0, 2)], sym_pick("env", 0, 1) ? "OPT_A" : "", {}},
        {"-l", nullptr, Store, Int, shared ? "num" : "other", vals[sym_pick("default", 0, 1)], sym_pick("env", 0, 1) ? "OPT_B" : "", {}},
        {"-c", "--cho", Store, Choice, "cho", vals[sym_pick("default", 0, 2)], "OPT_B", {"5", "yes"}},
    };
    if (shared) { sym_assume(o[0].act == Store || o[0].act == Append); }
    setenv("OPT_A", "3", 1);
    if (sym_pick("B", 0, 1)) setenv("OPT_B", "yes", 1);
    OptionParser P;
    for (auto& x : o) add(P, x, '-');
    static const char* const args[] = {"-n=1", "-l=2", "-c=no", "-c=yes", "--num=x"};
    std::vector<str_t> a{"prog"};
    size_t n = sym_pick("args", 0, sym_param("K", 2));
    for (size_t i = 0; i < n; i++) a.push_back(args[sym_pick("arg", 0, 4)]);
    run(P, o, 3, '-', a);
    sym_cover("done");
}
// a default given as a number
ENTRY(c26_number_default) {
    OptionParser P;
    int v = (int)sym_pick("value", 0, 3) * 1000000007 - 1;
    P.add_option("-n", "--num").action(Store).type(Int).default_value(v);
    P.add_option("-l").action(Store).type(Long).dest("long").default_value((int64_t)v * 1000000007);
    P.add_option("-b").action(Store).type(Bool).dest("yes").default_value(v > 0);
    const char* argv[] = {"prog", nullptr};
    ValueStore r = P.parse_args(1, argv);
    sym_assert(r.get<int>("num") == v && r.get<int64_t>("long") == (int64_t)v * 1000000007 && r.get<bool>("yes") == (v > 0), "a default given as a number is that number");
    sym_cover("done");
}
